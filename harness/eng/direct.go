package eng

import (
	"strings"

	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/blobstore/aerostore"
	"github.com/Vivino/rankdb/blobstore/boltstore"
	"github.com/Vivino/rankdb/blobstore/dynamo"
	"github.com/Vivino/rankdb/vv"
	as "github.com/aerospike/aerospike-client-go"
	"github.com/aws/aws-sdk-go/service/dynamodb"
	"github.com/etcd-io/bbolt"
)

func openBolt() (*boltstore.BoltStore, *faults) {
	f := &faults{failAt: -1}
	bbolt.Fail = f.fail
	st, err := boltstore.NewBoltStore("name", nil)
	if err != nil {
		panic(err)
	}
	f.calls = 0
	return st, f
}

func openAero() (*aerostore.AeroStore, *faults) {
	f := &faults{failAt: -1}
	as.Fail = f.fail
	st, err := aerostore.New("ns", "host")
	if err != nil {
		panic(err)
	}
	f.calls = 0
	return st, f
}

func openDynamo(sets ...string) (*dynamo.Store, *faults) {
	f := &faults{failAt: -1}
	dynamodb.Fail = f.fail
	st, err := dynamo.New(nil)
	if err != nil {
		panic(err)
	}
	if vv.Choose("names", 2) == 1 {
		st.SetAttributeNames("hash", "data")
	}
	for _, s := range sets {
		if err := st.CreateSet(ctx, s, nil); err != nil {
			panic(err)
		}
	}
	f.calls = 0
	return st, f
}

// Histories of up to 3 (thorough: 4) operations on 2 keys, any one engine call fails.
func VH_C30_bolt() {
	st, f := openBolt()
	b := newBox("bolt", st, f, pair{"s", "ab"}, pair{"sa", "b"})
	f.failAt = vv.Choose("fails", sz(9, 14)) - 1
	n := sz(3, 4)
	for i := 0; i < n; i++ {
		b.step(i)
	}
	had := f.op
	err := st.Close()
	vv.Assert((err != nil) == (f.op != had), b.msg("close does not report whether it failed"))
	db := bbolt.Last()
	vv.Assert(db.Closed || err != nil, b.msg("the engine is not closed"))
	b.stored(func(p pair) ([]byte, bool) {
		i := db.Find(p.set, p.key)
		if i < 0 {
			return nil, false
		}
		return db.Data[i].Val, true
	}, len(db.Data))
	if f.op != "" {
		vv.Cover("failed " + f.op)
	}
	vv.Cover("closed")
}

// Create stores a blob only if there is none, any one engine call fails.
func VH_C30_boltcreate() {
	st, f := openBolt()
	b := newBox("bolt", st, f, pair{"s", "ab"}, pair{"s", "b"})
	if vv.Choose("exists", 2) == 1 {
		b.set(b.keys[0], 1)
	}
	if vv.Choose("other exists", 2) == 1 {
		b.set(b.keys[1], 1)
	}
	k := b.keys[0]
	f.calls = 0
	f.failAt = vv.Choose("fails", 5) - 1
	v := vv.Bytes("created", 1)
	err := st.Create(ctx, k.p.set, k.p.key, v)
	switch {
	case f.op != "":
		vv.Assert(err != nil && err != blobstore.ErrBlobExists, b.msg("a create that failed in the engine does not report it"))
		vv.Cover("failed")
	case k.may[0].gone:
		vv.Assert(err == nil, b.msg("a create fails for no reason"))
		k.may[0] = val{b: append([]byte{}, v...)}
		vv.Cover("created")
	default:
		vv.Assert(err == blobstore.ErrBlobExists, b.msg("a create of a blob that exists does not say so"))
		vv.Cover("exists")
	}
	b.all()
}

// Histories of up to 3 (thorough: 4) operations on 2 keys, any one engine call fails.
func VH_C30_aero() {
	st, f := openAero()
	b := newBox("aerospike", st, f, pair{"s", "ab"}, pair{"sa", "b"})
	f.failAt = vv.Choose("fails", sz(4, 5)) - 1
	n := sz(3, 4)
	for i := 0; i < n; i++ {
		b.step(i)
	}
	b.stored(func(p pair) ([]byte, bool) {
		c := as.Last()
		i := c.Find(as.Key{Ns: "ns", Set: p.set, Key: p.key})
		if i < 0 {
			return nil, false
		}
		return c.Data[i].B["blob"].([]byte), true
	}, len(as.Last().Data))
	if f.op != "" {
		vv.Cover("failed " + f.op)
	}
	vv.Cover("done")
}

// Records that have no blob, a blob of another type or other bins, and blobs at the size limit.
func VH_C30_aeroodd() {
	st, f := openAero()
	b := newBox("aerospike", st, f, pair{"s", "ab"})
	k := b.keys[0]
	switch vv.Choose("record", 5) {
	case 0:
		as.Last().Data = []as.Rec{{K: as.Key{Ns: "ns", Set: "s", Key: "ab"}, B: as.BinMap{"other": []byte{1}}}}
		b.ask(k, false)
		b.set(k, 1)
		b.all()
		vv.Assert(as.Last().Data[0].B["other"] != nil, b.msg("a write removed what others stored in the record"))
		vv.Cover("other bins")
	case 1:
		as.Last().Data = []as.Rec{{K: as.Key{Ns: "ns", Set: "s", Key: "ab"}, B: as.BinMap{"blob": "text"}}}
		_, err := st.Get(ctx, "s", "ab")
		vv.Assert(err != nil && err != blobstore.ErrBlobNotFound, b.msg("a record of another type is not reported"))
		vv.Cover("other type")
	case 2:
		// another name space
		as.Last().Data = []as.Rec{{K: as.Key{Ns: "no", Set: "s", Key: "ab"}, B: as.BinMap{"blob": []byte{1}}}}
		b.ask(k, false)
		vv.Cover("other name space")
	case 3:
		b.set(k, 1)
		err := st.Set(ctx, "s", "ab", make([]byte, 1<<20+1))
		vv.Assert(err == blobstore.ErrBlobTooBig, b.msg("a blob that is too large is not refused"))
		b.all()
		vv.Cover("too large")
	case 4:
		err := st.Set(ctx, "s", "ab", make([]byte, 1<<20))
		vv.Assert(err == nil, b.msg("a blob of the largest size is refused"))
		got, err := st.Get(ctx, "s", "ab")
		vv.Assert(err == nil && len(got) == 1<<20, b.msg("a blob of the largest size is not returned"))
		vv.Cover("largest")
	}
}

// Histories of up to 3 (thorough: 4) operations on 2 keys, any one engine call fails, with default and with other
// attribute names.
func VH_C30_dynamo() {
	st, f := openDynamo("s", "sa")
	b := newBox("dynamo", st, f, pair{"s", "ab"}, pair{"sa", "b"})
	f.failAt = vv.Choose("fails", sz(4, 5)) - 1
	n := sz(3, 4)
	for i := 0; i < n; i++ {
		b.step(i)
	}
	cnt := 0
	for _, k := range b.keys {
		if dynamodb.Last().Find(k.p.set, k.p.key) >= 0 {
			cnt++
		}
	}
	vv.Assert(cnt == len(dynamodb.Last().Data), b.msg("the engine has items that were never stored"))
	if f.op != "" {
		vv.Cover("failed " + f.op)
	}
	vv.Cover("done")
}

// Any two different pairs of set and key (keys without '/') do not affect each other, in any engine.
func VH_C30_pairs() {
	p := pair{vv.Str("set1", 1+vv.Choose("set1 length", 2)), vv.Str("key1", 1+vv.Choose("key1 length", 2))}
	q := pair{vv.Str("set2", 1+vv.Choose("set2 length", 2)), vv.Str("key2", 1+vv.Choose("key2 length", 2))}
	vv.Assume(!vv.And(p.set == q.set, p.key == q.key))
	slash := func(s string) bool {
		r := false
		for i := 0; i < len(s); i++ {
			r = vv.Or(r, s[i] == '/')
		}
		return r
	}
	vv.Assume(vv.And(!slash(p.key), !slash(q.key)))
	var st blobstore.Store
	f := &faults{}
	name := ""
	switch vv.Choose("engine", 4) {
	case 0:
		st, f = openBadger(0)
		name = "badger"
	case 1:
		st, f = openBolt()
		name = "bolt"
	case 2:
		st, f = openAero()
		name = "aerospike"
	case 3:
		st, f = openDynamo(p.set, q.set)
		name = "dynamo"
	}
	b := newBox(name, st, f, p, q)
	b.set(b.keys[0], 1)
	b.all()
	b.set(b.keys[1], 1)
	b.all()
	switch vv.Choose("then", 3) {
	case 0:
		b.del(b.keys[0])
	case 1:
		b.del(b.keys[1])
	case 2:
		b.set(b.keys[0], 1)
	}
	b.all()
	vv.Cover(name)
}

// The hosts of an aerospike cluster.
func VH_C30_hosts() {
	as.Fail = (&faults{failAt: -1}).fail
	names := []string{"a", " b", "c "}
	ports := []string{"", ":1", ":4000", ":0", ":x"}
	want := []int{3000, 1, 4000, 3000, 3000}
	n := 1 + vv.Choose("hosts", 2)
	var parts []string
	var exp []as.Host
	for i := 0; i < n; i++ {
		h, p := vv.Choose([]string{"name0", "name1"}[i], 3), vv.Choose([]string{"port0", "port1"}[i], 5)
		parts = append(parts, names[h]+ports[p])
		exp = append(exp, as.Host{Name: strings.TrimSpace(names[h]), Port: want[p]})
	}
	_, err := aerostore.New("ns", strings.Join(parts, ","))
	vv.Assert(err == nil, "C30: aerospike: hosts are refused")
	got := as.Last().Hosts
	vv.Assert(len(got) == n, "C30: aerospike: wrong number of hosts")
	for i := range got {
		vv.Assert(*got[i] == exp[i], "C30: aerospike: wrong host")
	}
	vv.Cover("hosts")
}
