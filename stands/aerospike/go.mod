module github.com/aerospike/aerospike-client-go

go 1.12
