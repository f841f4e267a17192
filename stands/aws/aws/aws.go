// Package aws stands in for the AWS SDK.
package aws

type Config struct{}

func String(s string) *string { return &s }
func Int64(v int64) *int64    { return &v }
func Bool(v bool) *bool       { return &v }
func StringValue(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}
