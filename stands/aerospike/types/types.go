// Package types stands in for the aerospike client's types.
package types

import "errors"

var (
	ErrKeyNotFound = errors.New("Key not found")
	ErrTimeout     = errors.New("Timeout")
)
