module github.com/cheggaaa/pb/v3

go 1.18
