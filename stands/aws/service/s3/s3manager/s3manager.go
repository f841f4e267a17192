// Package s3manager stands in for the AWS SDK.
package s3manager

import (
	"context"
	"io"

	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/client"
)

type Uploader struct{}
type UploadInput struct {
	ACL, Bucket, ContentDisposition, ContentType, Key *string
	Body                                              io.Reader
}
type UploadOutput struct{ Location string }

func NewUploader(c client.ConfigProvider, options ...func(*Uploader)) *Uploader { return &Uploader{} }

// Put receives an object.
var Put func(ctx context.Context, bucket, key string, body io.Reader) error

func (u *Uploader) UploadWithContext(ctx context.Context, in *UploadInput) (*UploadOutput, error) {
	if err := Put(ctx, aws.StringValue(in.Bucket), aws.StringValue(in.Key), in.Body); err != nil {
		return nil, err
	}
	return &UploadOutput{Location: "there"}, nil
}

func (u *Uploader) Upload(in *UploadInput) (*UploadOutput, error) {
	return u.UploadWithContext(context.Background(), in)
}
