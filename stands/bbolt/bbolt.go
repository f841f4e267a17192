// Package bbolt stands in for github.com/etcd-io/bbolt: transactions over
// maps in memory, with calls that fail as the harness wants.
package bbolt

import (
	"errors"
	"os"
	"time"
)

var (
	ErrBucketNameRequired = errors.New("bucket name required")
	ErrBucketNotFound     = errors.New("bucket not found")
	ErrBucketExists       = errors.New("bucket already exists")
	ErrKeyRequired        = errors.New("key required")
	ErrKeyTooLarge        = errors.New("key too large")
	ErrTxNotWritable      = errors.New("tx not writable")
	ErrDatabaseNotOpen    = errors.New("database not open")
)

type Options struct {
	Timeout    time.Duration
	NoGrowSync bool
	ReadOnly   bool
	NoSync     bool
}

// Fail is asked before every call that can fail.
var Fail func(op string) error

func fail(op string) error {
	if Fail == nil {
		return nil
	}
	return Fail(op)
}

// disk has the databases.
var disk map[string]*DB

// Keep makes databases of the same path have the same content.
func Keep() { disk = map[string]*DB{} }

// Crash ends all databases: what was not synced is gone.
func Crash() {
	for _, d := range disk {
		d.crashed = true
		d.Data, d.Sets = nil, nil
	}
}

type KV struct {
	Set, Key string
	Val      []byte
}

type DB struct {
	Sets   []string
	Data   []KV
	Closed bool
	Path   string

	NoSync     bool
	NoGrowSync bool

	crashed bool
	synced  []KV // what survives a crash
	ssets   []string
}

// sync makes what was written survive a crash.
func (db *DB) sync() {
	db.synced = append([]KV(nil), db.Data...)
	db.ssets = append([]string(nil), db.Sets...)
}

var last *DB

// Last is the database that was opened last.
func Last() *DB { return last }

func Open(path string, mode os.FileMode, o *Options) (*DB, error) {
	if err := fail("open"); err != nil {
		return nil, err
	}
	last = &DB{Path: path}
	if disk != nil {
		if d := disk[path]; d != nil {
			if !d.Closed && !d.crashed {
				return nil, errors.New("timeout")
			}
			last.Data = append(last.Data, d.synced...)
			last.Sets = append(last.Sets, d.ssets...)
			last.sync()
		}
		disk[path] = last
	}
	return last, nil
}

func (db *DB) Close() error {
	if err := fail("close"); err != nil {
		return err
	}
	db.Closed = true
	db.sync()
	return nil
}

func (db *DB) Find(set, key string) int {
	for i := range db.Data {
		if db.Data[i].Set == set && db.Data[i].Key == key {
			return i
		}
	}
	return -1
}

type Tx struct {
	db       *DB
	writable bool
	sets     []string
	data     []KV
	lent     [][]byte
}

func (db *DB) begin(writable bool) (*Tx, error) {
	if db.Closed || db.crashed {
		return nil, ErrDatabaseNotOpen
	}
	if err := fail("begin"); err != nil {
		return nil, err
	}
	return &Tx{db: db, writable: writable, sets: append([]string{}, db.Sets...), data: append([]KV{}, db.Data...)}, nil
}

// end: values that were lent are not valid any more.
func (t *Tx) end() {
	for _, b := range t.lent {
		for i := range b {
			b[i] = 0xdb
		}
	}
}

func (db *DB) View(f func(*Tx) error) error {
	t, err := db.begin(false)
	if err != nil {
		return err
	}
	defer t.end()
	return f(t)
}

func (db *DB) Update(f func(*Tx) error) error {
	t, err := db.begin(true)
	if err != nil {
		return err
	}
	defer t.end()
	if err := f(t); err != nil {
		return err
	}
	if err := fail("commit"); err != nil {
		return err
	}
	for i := range t.data {
		// values are kept by reference until the commit
		t.data[i].Val = append(make([]byte, 0, len(t.data[i].Val)), t.data[i].Val...)
	}
	db.Sets, db.Data = t.sets, t.data
	if !db.NoSync {
		db.sync()
	}
	return nil
}

type Bucket struct {
	t    *Tx
	name string
}

func (t *Tx) Bucket(name []byte) *Bucket {
	for _, s := range t.sets {
		if s == string(name) {
			return &Bucket{t, s}
		}
	}
	return nil
}

func (t *Tx) CreateBucket(name []byte) (*Bucket, error) {
	if t.Bucket(name) != nil {
		return nil, ErrBucketExists
	}
	return t.CreateBucketIfNotExists(name)
}

func (t *Tx) CreateBucketIfNotExists(name []byte) (*Bucket, error) {
	if !t.writable {
		return nil, ErrTxNotWritable
	}
	if len(name) == 0 {
		return nil, ErrBucketNameRequired
	}
	if err := fail("bucket"); err != nil {
		return nil, err
	}
	if b := t.Bucket(name); b != nil {
		return b, nil
	}
	t.sets = append(t.sets, string(name))
	return &Bucket{t, string(name)}, nil
}

func (b *Bucket) find(key []byte) int {
	for i := range b.t.data {
		if b.t.data[i].Set == b.name && b.t.data[i].Key == string(key) {
			return i
		}
	}
	return -1
}

// Get lends the value until the end of the transaction.
func (b *Bucket) Get(key []byte) []byte {
	i := b.find(key)
	if i < 0 {
		return nil
	}
	v := append(make([]byte, 0, len(b.t.data[i].Val)), b.t.data[i].Val...)
	b.t.lent = append(b.t.lent, v)
	return v
}

func (b *Bucket) Put(key, val []byte) error {
	if !b.t.writable {
		return ErrTxNotWritable
	}
	if len(key) == 0 {
		return ErrKeyRequired
	}
	if len(key) > 32768 {
		return ErrKeyTooLarge
	}
	if err := fail("put"); err != nil {
		return err
	}
	if i := b.find(key); i >= 0 {
		b.t.data[i].Val = val
		return nil
	}
	b.t.data = append(b.t.data, KV{b.name, string(key), val})
	return nil
}

func (b *Bucket) Delete(key []byte) error {
	if !b.t.writable {
		return ErrTxNotWritable
	}
	if err := fail("delete"); err != nil {
		return err
	}
	if i := b.find(key); i >= 0 {
		b.t.data = append(b.t.data[:i], b.t.data[i+1:]...)
	}
	return nil
}

// Synced says whether every commit survives a crash.
func (db *DB) Synced() bool { return !db.NoSync }
