// Package s3 stands in for the AWS SDK.
package s3

import (
	"io"

	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/client"
)

type S3 struct{}

func New(p client.ConfigProvider, cfgs ...*aws.Config) *S3 { return &S3{} }

type GetObjectInput struct{ Bucket, Key *string }
type GetObjectOutput struct {
	Body          io.ReadCloser
	ContentLength *int64
}

// Get returns an object.
var Get func(bucket, key string) (io.ReadCloser, error)

func (s *S3) GetObject(in *GetObjectInput) (*GetObjectOutput, error) {
	b, err := Get(aws.StringValue(in.Bucket), aws.StringValue(in.Key))
	if err != nil {
		return nil, err
	}
	return &GetObjectOutput{Body: b}, nil
}
