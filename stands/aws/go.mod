module github.com/aws/aws-sdk-go

go 1.12
