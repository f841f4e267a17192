module github.com/etcd-io/bbolt

go 1.12
