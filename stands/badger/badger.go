// Package badger stands in for github.com/dgraph-io/badger: transactions over
// a map in memory, with calls that fail as the harness wants.
package badger

import (
	"errors"
	"sync"
)

var (
	ErrKeyNotFound  = errors.New("Key not found")
	ErrTxnTooBig    = errors.New("Txn is too big to fit into one request")
	ErrConflict     = errors.New("Transaction Conflict. Please retry")
	ErrDiscardedTxn = errors.New("This transaction has been discarded. Create a new one")
	ErrReadOnlyTxn  = errors.New("No sets or deletes are allowed in a read-only transaction")
	ErrEmptyKey     = errors.New("Key cannot be empty")
	ErrBlocked      = errors.New("DB closed")
)

type Logger interface {
	Errorf(string, ...interface{})
	Warningf(string, ...interface{})
	Infof(string, ...interface{})
	Debugf(string, ...interface{})
}

// Options of a database. Ask is asked before every call that can fail; TxnSize is the number of writes a
// transaction can have.
type Options struct {
	Ask        func(op string) error
	TxnSize    int
	Dir        string
	SyncWrites bool
	Truncate   bool
	Logger     Logger
}

// Fail is asked by databases with default options.
var Fail func(op string) error

// Fail asks whether a call fails.
func (o Options) Fail(op string) error {
	if o.Ask != nil {
		return o.Ask(op)
	}
	if Fail != nil {
		return Fail(op)
	}
	return nil
}

func DefaultOptions(path string) Options { return Options{Dir: path, SyncWrites: true} }

func (o Options) WithSyncWrites(v bool) Options { o.SyncWrites = v; return o }
func (o Options) WithTruncate(v bool) Options   { o.Truncate = v; return o }
func (o Options) WithLogger(l Logger) Options   { o.Logger = l; return o }

// disk has the databases that have a directory.
var disk = map[string]*DB{}

type KV struct {
	K string
	V []byte
}

type DB struct {
	opt     Options
	synced  []KV // what survives a crash
	Data    []KV
	Closed  bool
	crashed bool
	open    int
	mu      sync.Mutex
}

func Open(o Options) (*DB, error) {
	if err := o.Fail("open"); err != nil {
		return nil, err
	}
	last = &DB{opt: o}
	if o.Dir != "" {
		if d := disk[o.Dir]; d != nil {
			if !d.Closed && !d.crashed {
				return nil, errors.New("Cannot acquire directory lock")
			}
			last.Data = append(last.Data, d.synced...)
			last.synced = append(last.synced, d.synced...)
		}
		disk[o.Dir] = last
	}
	return last, nil
}

// Crash ends all databases: what was not synced is gone.
func Crash() {
	for _, d := range disk {
		d.crashed = true
		d.Data = nil
	}
}

// sync makes what was written survive a crash.
func (db *DB) sync() { db.synced = append([]KV(nil), db.Data...) }

var last *DB

// Last is the database that was opened last.
func Last() *DB { return last }

// OpenTxns is the number of transactions that are neither committed nor discarded.
func (db *DB) OpenTxns() int { return db.open }

func (db *DB) Find(k string) int {
	for i := range db.Data {
		if db.Data[i].K == k {
			return i
		}
	}
	return -1
}

func (db *DB) Close() error {
	if err := db.opt.Fail("close"); err != nil {
		return err
	}
	db.Closed = true
	db.sync()
	return nil
}

type write struct {
	k   []byte
	v   []byte
	del bool
}

type Txn struct {
	db     *DB
	update bool
	done   bool
	w      []write
	lent   [][]byte
}

func (db *DB) NewTransaction(update bool) *Txn {
	db.open++
	return &Txn{db: db, update: update}
}

func (db *DB) View(f func(*Txn) error) error {
	if db.Closed {
		return ErrBlocked
	}
	t := db.NewTransaction(false)
	defer t.Discard()
	return f(t)
}

func (db *DB) Update(f func(*Txn) error) error {
	if db.Closed {
		return ErrBlocked
	}
	t := db.NewTransaction(true)
	defer t.Discard()
	if err := f(t); err != nil {
		return err
	}
	return t.Commit()
}

// Discard ends the transaction. Values it lent are not valid any more.
func (t *Txn) Discard() {
	if t.done {
		return
	}
	t.done = true
	t.db.open--
	for _, b := range t.lent {
		for i := range b {
			b[i] = 0xdb
		}
	}
}

func (t *Txn) modify(w write) error {
	switch {
	case t.done:
		return ErrDiscardedTxn
	case !t.update:
		return ErrReadOnlyTxn
	case len(w.k) == 0:
		return ErrEmptyKey
	case t.db.opt.TxnSize > 0 && len(t.w) >= t.db.opt.TxnSize:
		return ErrTxnTooBig
	}
	op := "set"
	if w.del {
		op = "delete"
	}
	if err := t.db.opt.Fail(op); err != nil {
		return err
	}
	t.w = append(t.w, w)
	return nil
}

// Set keeps k and v until the transaction ends.
func (t *Txn) Set(k, v []byte) error { return t.modify(write{k: k, v: v}) }
func (t *Txn) Delete(k []byte) error { return t.modify(write{k: k, del: true}) }

func (t *Txn) Commit() error {
	if t.done {
		return ErrDiscardedTxn
	}
	defer t.Discard()
	if len(t.w) == 0 {
		return nil
	}
	if t.db.Closed || t.db.crashed {
		return ErrBlocked
	}
	if err := t.db.opt.Fail("commit"); err != nil {
		return err
	}
	t.db.mu.Lock()
	defer t.db.mu.Unlock()
	for _, w := range t.w {
		i := t.db.Find(string(w.k))
		switch {
		case w.del && i >= 0:
			t.db.Data = append(t.db.Data[:i], t.db.Data[i+1:]...)
		case w.del:
		case i >= 0:
			t.db.Data[i].V = append(make([]byte, 0, len(w.v)), w.v...)
		default:
			t.db.Data = append(t.db.Data, KV{string(w.k), append(make([]byte, 0, len(w.v)), w.v...)})
		}
	}
	if t.db.opt.SyncWrites {
		t.db.sync()
	}
	return nil
}

type Item struct {
	t *Txn
	v []byte
}

func (t *Txn) Get(k []byte) (*Item, error) {
	if t.done {
		return nil, ErrDiscardedTxn
	}
	if len(k) == 0 {
		return nil, ErrEmptyKey
	}
	if t.db.Closed || t.db.crashed {
		return nil, ErrBlocked
	}
	if err := t.db.opt.Fail("get"); err != nil {
		return nil, err
	}
	for i := len(t.w) - 1; i >= 0; i-- {
		if string(t.w[i].k) == string(k) {
			if t.w[i].del {
				return nil, ErrKeyNotFound
			}
			return &Item{t, t.w[i].v}, nil
		}
	}
	t.db.mu.Lock()
	defer t.db.mu.Unlock()
	if i := t.db.Find(string(k)); i >= 0 {
		return &Item{t, t.db.Data[i].V}, nil
	}
	return nil, ErrKeyNotFound
}

// Value lends the value to f.
func (i *Item) Value(f func([]byte) error) error {
	if err := i.t.db.opt.Fail("value"); err != nil {
		return err
	}
	b := append(make([]byte, 0, len(i.v)), i.v...)
	i.t.lent = append(i.t.lent, b)
	return f(b)
}

func (i *Item) ValueCopy(dst []byte) ([]byte, error) {
	if err := i.t.db.opt.Fail("value"); err != nil {
		return nil, err
	}
	return append(dst[:0], i.v...), nil
}

func (i *Item) ValueSize() int64 { return int64(len(i.v)) }

// Synced says whether every commit survives a crash.
func (db *DB) Synced() bool { return db.opt.SyncWrites }

// Directory is where the database is.
func (db *DB) Directory() string { return db.opt.Dir }

// Drop removes all keys with a prefix from a database that was closed.
func (db *DB) Drop(prefix string) {
	var keep []KV
	for _, kv := range db.synced {
		if len(kv.K) < len(prefix) || kv.K[:len(prefix)] != prefix {
			keep = append(keep, kv)
		}
	}
	db.synced = keep
}
