// Package aerospike stands in for the aerospike client: a map in memory, with
// calls that fail as the harness wants.
package aerospike

import (
	"errors"
	"time"

	"github.com/aerospike/aerospike-client-go/types"
)

type RecordExistsAction int

const (
	UPDATE RecordExistsAction = iota
	UPDATE_ONLY
	REPLACE
	REPLACE_ONLY
	CREATE_ONLY
)

type CommitLevel int

const (
	COMMIT_ALL CommitLevel = iota
	COMMIT_MASTER
)

type BasePolicy struct {
	TotalTimeout, SocketTimeout time.Duration
	MaxRetries                  int
}

type WritePolicy struct {
	BasePolicy
	RecordExistsAction RecordExistsAction
	CommitLevel        CommitLevel
	Generation         uint32
	Expiration         uint32
	DurableDelete      bool
}

func NewPolicy() *BasePolicy { return &BasePolicy{} }
func NewWritePolicy(generation, expiration uint32) *WritePolicy {
	return &WritePolicy{Generation: generation, Expiration: expiration}
}

type Host struct {
	Name string
	Port int
}

func NewHost(name string, port int) *Host { return &Host{name, port} }

type ClientPolicy struct{}

type Key struct{ Ns, Set, Key string }

func NewKey(ns, set string, key interface{}) (*Key, error) {
	s, ok := key.(string)
	if !ok || s == "" {
		return nil, errors.New("invalid key")
	}
	return &Key{ns, set, s}, nil
}

type BinMap map[string]interface{}

type Record struct {
	Key  *Key
	Bins BinMap
}

type Rec struct {
	K Key
	B BinMap
}

// Fail is asked before every call that can fail.
var Fail func(op string) error

func fail(op string) error {
	if Fail == nil {
		return nil
	}
	return Fail(op)
}

// Cluster, if any, is what all clients are connected to.
var Cluster *Client

type Client struct {
	Hosts []*Host
	Data  []Rec
}

var last *Client

// Last is the client that was made last.
func Last() *Client { return last }

func NewClientWithPolicyAndHost(p *ClientPolicy, hosts ...*Host) (*Client, error) {
	if err := fail("open"); err != nil {
		return nil, err
	}
	for _, h := range hosts {
		if h.Name == "" || h.Port == 0 {
			return nil, errors.New("Failed to connect to host")
		}
	}
	last = &Client{Hosts: hosts}
	if Cluster != nil {
		Cluster.Hosts = hosts
		last = Cluster
	}
	return last, nil
}

func (c *Client) Find(k Key) int {
	for i := range c.Data {
		if c.Data[i].K == k {
			return i
		}
	}
	return -1
}

func (c *Client) Get(p *BasePolicy, k *Key, bins ...string) (*Record, error) {
	if err := fail("get"); err != nil {
		return nil, err
	}
	i := c.Find(*k)
	if i < 0 {
		return nil, types.ErrKeyNotFound
	}
	r := &Record{Key: k, Bins: BinMap{}}
	for n, v := range c.Data[i].B {
		if b, ok := v.([]byte); ok {
			v = append(make([]byte, 0, len(b)), b...)
		}
		r.Bins[n] = v
	}
	return r, nil
}

func (c *Client) Put(p *WritePolicy, k *Key, bins BinMap) error {
	if err := fail("put"); err != nil {
		return err
	}
	i := c.Find(*k)
	switch {
	case i >= 0 && p.RecordExistsAction == CREATE_ONLY:
		return errors.New("Key already exists")
	case i < 0 && (p.RecordExistsAction == UPDATE_ONLY || p.RecordExistsAction == REPLACE_ONLY):
		return types.ErrKeyNotFound
	case i < 0:
		c.Data = append(c.Data, Rec{*k, BinMap{}})
		i = len(c.Data) - 1
	case p.RecordExistsAction == REPLACE:
		c.Data[i].B = BinMap{}
	}
	for n, v := range bins {
		if b, ok := v.([]byte); ok {
			if len(b) > 1<<20 {
				return errors.New("Record too big")
			}
			v = append(make([]byte, 0, len(b)), b...)
		}
		c.Data[i].B[n] = v
	}
	return nil
}

func (c *Client) Delete(p *WritePolicy, k *Key) (bool, error) {
	if err := fail("delete"); err != nil {
		return false, err
	}
	i := c.Find(*k)
	if i < 0 {
		return false, nil
	}
	c.Data = append(c.Data[:i], c.Data[i+1:]...)
	return true, nil
}
