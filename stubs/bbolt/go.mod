module go.etcd.io/bbolt

go 1.18
