// Package client stands in for the AWS SDK.
package client

type ConfigProvider interface{}
