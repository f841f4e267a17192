// Package toml stands in for github.com/BurntSushi/toml: the configuration is set by the harness.
package toml

import "io"

type MetaData struct{}

func DecodeReader(r io.Reader, v interface{}) (MetaData, error) { return MetaData{}, nil }
