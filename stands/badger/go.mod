module github.com/dgraph-io/badger

go 1.12
