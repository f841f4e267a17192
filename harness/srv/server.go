// Package srv holds the harnesses for a server as it is put together from a configuration, and for its shutdown. The
// engines are stand-ins (stands/) whose databases survive until a server is started on them again.
package srv

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net/http"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/api"
	"github.com/Vivino/rankdb/vv"
	as "github.com/aerospike/aerospike-client-go"
	"github.com/dgraph-io/badger"
	"github.com/etcd-io/bbolt"
	shutdown "github.com/klauspost/shutdown2"
)

var (
	ctx       = context.Background()
	errBroken = errors.New("broken")
)

func sz(quick, thorough int) int {
	if vv.Tier() == 1 {
		return thorough
	}
	return quick
}

// world sets up empty engines, of which fail decides which calls fail.
func world(fail func(engine, op string) error) {
	f := func(engine string) func(string) error {
		return func(op string) error {
			if fail == nil {
				return nil
			}
			return fail(engine, op)
		}
	}
	bbolt.Keep()
	as.Cluster = &as.Client{}
	badger.Fail, bbolt.Fail, as.Fail = f("badger"), f("bolt"), f("aero")
}

func start(c api.VVConfig) error {
	api.VVSetup(c)
	return api.StartServer(ctx, bytes.NewReader(nil), nil)
}

func manager() *rankdb.Manager { m, _, _ := api.VVState(); return m }

// basic is a plain configuration.
func basic(storage string) api.VVConfig {
	return api.VVConfig{MasterSet: "master", Storage: storage, Path: "path", Hosts: "h1:3100,h2", Namespace: "ns", SaveEvery: time.Hour, PruneEvery: time.Hour}
}

var engines = []string{"Badger", "BoltDB", "Aerospike"}

// elems are arbitrary elements of different ids.
func elems(p string, n int) rankdb.Elements {
	var r rankdb.Elements
	for i := 0; i < n; i++ {
		e := rankdb.Element{ID: rankdb.ElementID(vv.U32(fmt.Sprint(p, "id", i))), Score: vv.U64(fmt.Sprint(p, "score", i)), Updated: 100, Payload: []byte(p)}
		for _, o := range r {
			vv.Assume(o.ID != e.ID)
		}
		r = append(r, e)
	}
	return r
}

func clone(e rankdb.Elements) rankdb.Elements { return append(rankdb.Elements(nil), e...) }

// create makes a list as a request does.
func create(id, set string, els rankdb.Elements) error {
	m, c, _ := api.VVState()
	l, err := rankdb.NewList(ctx, rankdb.ListID(id), set, m.Storage, rankdb.WithListOption.Cache(c), rankdb.WithListOption.LoadIndex(false), rankdb.WithListOption.Populate(clone(els)))
	if err == nil {
		m.Lists.Add(l)
	}
	return err
}

// holds checks that the server has the list with these elements.
func holds(id string, els rankdb.Elements, what string) {
	m := manager()
	l, ok := m.Lists.ByID(rankdb.ListID(id))
	vv.Assert(ok && l != nil, what+": a list is missing")
	n, err := l.Len(ctx, m.Storage)
	vv.Assert(err == nil && n == len(els), what+": a list has another number of elements")
	for _, e := range els {
		r, err := l.GetElements(ctx, m.Storage, []rankdb.ElementID{e.ID}, 0)
		vv.Assert(err == nil && len(r) == 1, what+": an element is missing")
		vv.Assert(vv.And(r[0].Score == e.Score, bytes.Equal(r[0].Payload, e.Payload)), what+": an element has other values")
	}
}

// options draws caches, retries, lazy saving, intervals and a limit of updates.
func options(c *api.VVConfig) {
	switch vv.Choose("cache", 4) {
	case 1:
		c.CacheEntries = 2
	case 2:
		c.CacheEntries, c.CacheType = 2, "LRU"
	case 3:
		c.CacheEntries, c.CacheType = 4, "LRU2Q"
	}
	c.Retry = vv.Choose("retry", 2) == 1
	if vv.Choose("lazy", 2) == 1 {
		c.Lazy, c.LazyLimit, c.LazyFlush, c.LazySavers, c.LazyTime = true, 10, 5, 1, time.Second
	}
}

// A server with any storage engine, cache, retries and lazy saving gets lists, is shut down and started again.
func VH_C34_restart() {
	world(nil)
	c := basic(engines[vv.Choose("engine", 3)])
	options(&c)
	vv.Assert(start(c) == nil, "C34: a server does not start on empty storage")
	a, b := elems("a", 2), elems("b", 1)
	vv.Assert(create("la", "sa", a) == nil && create("lb", "sb", b) == nil, "creating a list failed")
	if vv.Choose("later", 2) == 1 {
		time.Sleep(2 * time.Second)
	}
	l, _ := manager().Lists.ByID("la")
	a[1].Score = vv.U64("new")
	_, err := l.UpdateElements(ctx, manager().Storage, rankdb.Elements{a[1]}, 0, false)
	vv.Assert(err == nil, "update failed")
	holds("la", a, "C34: running server")
	shutdown.Shutdown()
	switch c.Storage {
	case "Badger":
		vv.Assert(badger.Last().Closed, "C34: the store is not closed by a shutdown")
		badger.Crash()
	case "BoltDB":
		vv.Assert(bbolt.Last().Closed, "C34: the store is not closed by a shutdown")
		bbolt.Crash()
	}
	vv.Assert(start(c) == nil, "C34: a server does not start again")
	vv.Assert(len(manager().Lists.All()) == 2, "C34: a restart adds or loses lists")
	holds("la", a, "C34: after a restart")
	holds("lb", b, "C34: after a restart")
	vv.Cover("restarted")
}

// request goes through the middleware that every request of a server goes through.
func request(f func(ctx context.Context) error) error {
	h := api.ShutdownMiddleware(func(ctx context.Context, rw http.ResponseWriter, req *http.Request) error { return f(ctx) })
	return h(ctx, nil, &http.Request{Method: "PUT", RequestURI: "/x"})
}

// Requests are served while the server shuts down: one that is answered is in the storage afterwards, one that comes too
// late is refused, one interleaving point anywhere.
func VH_C34_request() {
	world(nil)
	c := basic(engines[vv.Choose("engine", 2)])
	if vv.Choose("lazy", 2) == 1 {
		c.Lazy, c.LazyLimit, c.LazyFlush, c.LazySavers, c.LazyTime = true, 10, 5, 1, time.Second
	}
	vv.Assert(start(c) == nil, "C34: a server does not start on empty storage")
	a := elems("a", 2)
	vv.Assert(create("la", "sa", a[:1]) == nil, "creating a list failed")
	op := vv.Choose("op", 2)
	res := make(chan error, 1)
	vv.Schedules(1)
	go func() {
		res <- request(func(ctx context.Context) error {
			m := manager()
			if op == 0 {
				l, _ := m.Lists.ByID("la")
				return l.Insert(ctx, m.Storage, clone(a[1:]))
			}
			return create("lb", "sb", a[1:])
		})
	}()
	shutdown.Shutdown()
	vv.Schedules(0)
	err := <-res
	late := request(func(context.Context) error { return nil })
	vv.Assert(late != nil, "C34: a request is served after the shutdown")
	vv.Assert(start(c) == nil, "C34: a server does not start again")
	switch {
	case err != nil:
		holds("la", a[:1], "C34: request refused at shutdown")
		vv.Assert(len(manager().Lists.All()) == 1, "C34: a refused request has an effect")
		vv.Cover("refused")
	case op == 0:
		holds("la", a, "C34: request answered during a shutdown")
		vv.Cover("inserted")
	default:
		holds("la", a[:1], "C34: request answered during a shutdown")
		holds("lb", a[1:], "C34: request answered during a shutdown")
		vv.Cover("created")
	}
}

// The stored registry is damaged or cannot be read when a server starts: it does not start, or starts with the backup, and
// the registry and all lists are still there for a later start.
func VH_C34_unreadable() {
	broken := false
	at := vv.Int("fail", 0, sz(3, 6))
	world(func(engine, op string) error {
		if !broken || op == "open" || op == "close" {
			return nil
		}
		if at == 0 {
			return errBroken
		}
		at--
		return nil
	})
	c := basic(engines[vv.Choose("engine", 3)])
	c.SaveEvery = time.Second
	vv.Assert(start(c) == nil, "C34: a server does not start on empty storage")
	a := elems("a", 1)
	vv.Assert(create("la", "sa", a) == nil, "creating a list failed")
	shutdown.Shutdown()
	broken = true
	err := start(c)
	if err == nil {
		broken = false
		holds("la", a, "C34: server that started")
		vv.Cover("started")
		return
	}
	// What the server started goes on, until the process ends; the storage works again.
	broken = false
	time.Sleep(3 * time.Second)
	badger.Crash()
	bbolt.Crash()
	vv.Assert(start(c) == nil, "C34: a server does not start after an earlier start failed")
	vv.Assert(len(manager().Lists.All()) == 1, "C34: a start that failed adds or loses lists")
	holds("la", a, "C34: after a start that failed")
	vv.Cover("failed")
}

// A configuration that cannot be used is refused.
func VH_C34_invalid() {
	world(nil)
	c := basic("Memory")
	switch vv.Choose("what", 7) {
	case 0:
		c.Storage = vv.Str("storage", 3)
	case 1:
		c.CacheEntries, c.CacheType = 10, vv.Str("cache", 2)
	case 2:
		c.BackupStorage, c.BackupEvery = "Master", 1
	case 3:
		c.BackupStorage, c.BackupEvery, c.BackupSet = vv.Str("storage", 3), 1, "b"
	case 4:
		c.Storage, c.Hosts = "Aerospike", ""
	case 5:
		c.Lazy, c.LazyLimit, c.LazyFlush, c.LazySavers, c.LazyTime = true, 5, 10, 1, time.Second
	case 6:
		c.Storage, c.WriteBlockSize = "Aerospike", 1024
	}
	vv.Assert(start(c) != nil, "C34: a configuration that cannot be used is accepted")
	vv.Cover("refused")
}

// Engines are opened where the configuration says, and write synchronously unless that is disabled; the limit of updates
// is the configured one, and no cache is used unless one is configured.
func VH_C34_settings() {
	world(nil)
	c := basic(engines[vv.Choose("engine", 3)])
	c.Path = vv.Str("path", 2)
	c.NoSync, c.NoGrowSync = vv.Choose("nosync", 2) == 1, vv.Choose("nogrow", 2) == 1
	c.WriteBlockSize = 2048 + vv.Choose("block", 2)*100
	c.MaxUpdates = vv.Choose("updates", 3)
	c.CacheEntries = vv.Choose("cache", 2) * 3
	vv.Assume(c.Path[0] != 0)
	vv.Assert(start(c) == nil, "C34: a server does not start on empty storage")
	switch c.Storage {
	case "Badger":
		db := badger.Last()
		vv.Assert(db.Directory() == c.Path, "C34: the database is in another place than configured")
		vv.Assert(db.Synced() == !c.NoSync, "C34: writes are synchronous unless that is disabled")
	case "BoltDB":
		vv.Assert(bbolt.Last().Synced() == !c.NoSync && bbolt.Last().NoGrowSync == c.NoGrowSync, "C34: writes are synchronous unless that is disabled")
		vv.Assert(bbolt.Last().Path == c.Path, "C34: the database is in another place than configured")
	case "Aerospike":
		h := as.Cluster.Hosts
		vv.Assert(len(h) == 2 && h[0].Name == "h1" && h[0].Port == 3100 && h[1].Name == "h2" && h[1].Port == 3000, "C34: other hosts than configured")
		st := manager().Storage
		vv.Assert(st.Set(ctx, "s", "k", make([]byte, 2500)) == nil, "C34: a blob larger than a block cannot be stored")
		b, err := st.Get(ctx, "s", "k")
		vv.Assert(err == nil && len(b) == 2500, "C34: a blob larger than a block cannot be read")
		for _, r := range as.Cluster.Data {
			b, _ := r.B["blob"].([]byte)
			vv.Assert(r.K.Ns == c.Namespace && len(b) <= c.WriteBlockSize-1024, "C34: a record is larger than a block or in another namespace")
		}
	}
	_, cache, b := api.VVState()
	vv.Assert((cache != nil) == (c.CacheEntries > 0), "C34: a cache is used if it is configured")
	vv.Assert(len(b) == c.MaxUpdates, "C34: another limit of updates than configured")
	n := 0
	for ; n < c.MaxUpdates; n++ {
		_, err := api.UpdateRequest(ctx)
		vv.Assert(err == nil, "C34: fewer updates at a time than configured")
	}
	ended, cancel := context.WithCancel(ctx)
	cancel()
	_, err := api.UpdateRequest(ended)
	vv.Assert((err == nil) == (c.MaxUpdates == 0), "C34: more updates at a time than configured")
	vv.Cover("set")
}

// With a backup of the registry, on the main storage or another, a server starts with all lists after its registry is gone.
func VH_C34_backup() {
	world(nil)
	c := basic("Badger")
	c.BackupStorage = []string{"Master", "BoltDB", "Aerospike"}[vv.Choose("backup", 3)]
	c.BackupSet, c.BackupEvery, c.SaveEvery = "spare", 1+vv.Choose("every", 2), time.Second
	c.Retry = vv.Choose("retry", 2) == 1
	if vv.Choose("lazy", 2) == 1 {
		c.Lazy, c.LazyLimit, c.LazyFlush, c.LazySavers, c.LazyTime = true, 10, 5, 1, time.Second
	}
	vv.Assert(start(c) == nil, "C34: a server does not start on empty storage")
	a := elems("a", 2)
	vv.Assert(create("la", "sa", a) == nil, "creating a list failed")
	time.Sleep(4 * time.Second)
	shutdown.Shutdown()
	vv.Assert(badger.Last().Closed && (c.BackupStorage != "BoltDB" || bbolt.Last().Closed), "C34: a store is not closed by a shutdown")
	// The registry of the master set is gone.
	if vv.Choose("lost", 2) == 1 {
		badger.Last().Drop("master/")
		vv.Cover("lost")
	} else {
		// and so is the backup
		as.Cluster.Data = nil
		bbolt.Keep()
		if c.BackupStorage == "Master" {
			badger.Last().Drop("spare/")
		}
		vv.Cover("backup lost")
	}
	vv.Assert(start(c) == nil, "C34: a server does not start from the backup of its registry")
	vv.Assert(len(manager().Lists.All()) == 1, "C34: other lists than in the backup")
	holds("la", a, "C34: after a restart from the backup")
}

// A storage call of a running server fails once: with retries the operation succeeds.
func VH_C34_retry() {
	calls, at := -1, vv.Int("fail", 0, sz(4, 8))
	world(func(engine, op string) error {
		if calls < 0 {
			return nil
		}
		calls++
		if calls-1 == at {
			vv.Cover("failed " + op)
			return errBroken
		}
		return nil
	})
	c := basic(engines[1+vv.Choose("engine", 2)])
	c.Retry = true
	if vv.Choose("timeout", 2) == 1 {
		c.RetryTimeout = time.Minute
	}
	vv.Assert(start(c) == nil, "C34: a server does not start on empty storage")
	calls = 0
	a := elems("a", 2)
	vv.Assert(create("la", "sa", a) == nil, "C34: one failing storage call makes a request fail although retries are enabled")
	holds("la", a, "C34: after a retry")
	vv.Cover("retried")
}
