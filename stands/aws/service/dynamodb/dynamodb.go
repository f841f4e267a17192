// Package dynamodb stands in for the AWS SDK: tables in memory, with calls
// that fail as the harness wants.
package dynamodb

import (
	"context"
	"errors"

	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/client"
)

type ProvisionedThroughput struct{ ReadCapacityUnits, WriteCapacityUnits *int64 }
type AttributeDefinition struct{ AttributeName, AttributeType *string }
type KeySchemaElement struct{ AttributeName, KeyType *string }
type AttributeValue struct {
	B    []byte
	S, N *string
	BOOL *bool
}
type CreateTableInput struct {
	AttributeDefinitions  []*AttributeDefinition
	TableName             *string
	KeySchema             []*KeySchemaElement
	ProvisionedThroughput *ProvisionedThroughput
	BillingMode           *string
}
type CreateTableOutput struct{}
type GetItemInput struct {
	Key            map[string]*AttributeValue
	TableName      *string
	ConsistentRead *bool
}
type GetItemOutput struct{ Item map[string]*AttributeValue }
type PutItemInput struct {
	Item      map[string]*AttributeValue
	TableName *string
}
type PutItemOutput struct{}
type DeleteItemInput struct {
	Key       map[string]*AttributeValue
	TableName *string
}
type DeleteItemOutput struct{}

type Item struct {
	Table, Hash string
	Attr        map[string]*AttributeValue
}

type Table struct{ Name, Hash string }

// Fail is asked before every call that can fail.
var Fail func(op string) error

type DynamoDB struct {
	Tables []Table
	Data   []Item
}

var last *DynamoDB

// Last is the client that was made last.
func Last() *DynamoDB { return last }

func New(p client.ConfigProvider, cfgs ...*aws.Config) *DynamoDB {
	last = &DynamoDB{}
	return last
}

func (d *DynamoDB) Find(table, hash string) int {
	for i := range d.Data {
		if d.Data[i].Table == table && d.Data[i].Hash == hash {
			return i
		}
	}
	return -1
}

func (d *DynamoDB) table(op string, name *string, key map[string]*AttributeValue) (string, string, error) {
	if err := Fail(op); err != nil {
		return "", "", err
	}
	for _, t := range d.Tables {
		if t.Name == aws.StringValue(name) {
			k := key[t.Hash]
			if k == nil || k.S == nil || *k.S == "" {
				return "", "", errors.New("ValidationException")
			}
			return t.Name, *k.S, nil
		}
	}
	return "", "", errors.New("ResourceNotFoundException")
}

func (d *DynamoDB) CreateTableWithContext(ctx context.Context, in *CreateTableInput) (*CreateTableOutput, error) {
	if err := Fail("create"); err != nil {
		return nil, err
	}
	d.Tables = append(d.Tables, Table{*in.TableName, *in.KeySchema[0].AttributeName})
	return &CreateTableOutput{}, nil
}

func copyAttr(a map[string]*AttributeValue) map[string]*AttributeValue {
	r := map[string]*AttributeValue{}
	for k, v := range a {
		c := *v
		c.B = append(make([]byte, 0, len(v.B)), v.B...)
		r[k] = &c
	}
	return r
}

func (d *DynamoDB) GetItemWithContext(ctx context.Context, in *GetItemInput) (*GetItemOutput, error) {
	t, k, err := d.table("get", in.TableName, in.Key)
	if err != nil {
		return nil, err
	}
	if i := d.Find(t, k); i >= 0 {
		return &GetItemOutput{Item: copyAttr(d.Data[i].Attr)}, nil
	}
	return &GetItemOutput{}, nil
}

func (d *DynamoDB) PutItemWithContext(ctx context.Context, in *PutItemInput) (*PutItemOutput, error) {
	t, k, err := d.table("put", in.TableName, in.Item)
	if err != nil {
		return nil, err
	}
	i := d.Find(t, k)
	if i < 0 {
		d.Data = append(d.Data, Item{Table: t, Hash: k})
		i = len(d.Data) - 1
	}
	d.Data[i].Attr = copyAttr(in.Item)
	return &PutItemOutput{}, nil
}

func (d *DynamoDB) DeleteItemWithContext(ctx context.Context, in *DeleteItemInput) (*DeleteItemOutput, error) {
	t, k, err := d.table("delete", in.TableName, in.Key)
	if err != nil {
		return nil, err
	}
	if i := d.Find(t, k); i >= 0 {
		d.Data = append(d.Data[:i], d.Data[i+1:]...)
	}
	return &DeleteItemOutput{}, nil
}
