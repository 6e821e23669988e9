module github.com/spf13/cobra

go 1.18

require github.com/spf13/pflag v1.0.5
