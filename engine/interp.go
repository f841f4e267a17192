package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   value
	args []value
	in   ssa.Instruction
	next *deferred
}

type frame struct {
	p        *path
	g        *gor
	caller   *frame
	c        *cfn
	slots    []value
	block    int
	prev     int
	defers   *deferred
	result   value
	panicing bool
	panicV   interface{}
	done     bool
	curIn    ssa.Instruction
}

func (fr *frame) get(i int) value {
	if i >= 0 {
		if i == math.MaxInt32 {
			return nil
		}
		return fr.slots[i]
	}
	v := fr.c.consts[^i]
	if g, ok := v.(*globalRef); ok {
		return fr.p.globalAddr(g.g, fr)
	}
	return v
}

func (fr *frame) where() string {
	for f := fr; f != nil; f = f.caller {
		if f.curIn != nil && f.curIn.Pos() != token.NoPos {
			pos := f.p.w.prog.fset.Position(f.curIn.Pos())
			return fmt.Sprintf("%s:%d (%s)", pos.Filename, pos.Line, f.c.name)
		}
	}
	return "?"
}

func (fr *frame) stack() string {
	s := ""
	n := 0
	for f := fr; f != nil && n < 25; f = f.caller {
		if f.c == nil {
			continue
		}
		pos := "?"
		if f.curIn != nil {
			ps := f.p.w.prog.fset.Position(f.curIn.Pos())
			pos = fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
		}
		s += fmt.Sprintf("  %s %s\n", f.c.name, pos)
		n++
	}
	return s
}

func (fr *frame) rtPanic(msg string) {
	panic(targetPanic{v: iface{t: fr.p.w.prog.rtErrT, v: "runtime error: " + msg}, rt: true, where: fr.where()})
}

// call invokes a function value.
func (p *path) call(fr *frame, fn value, args []value) value {
	switch fn := fn.(type) {
	case *ssa.Function:
		if fn == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p.callSSA(fr, fn, args, nil)
	case *closure:
		if fn == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p.callSSA(fr, fn.fn, args, fn.env)
	case *native:
		return fn.fn(fr, args)
	case *ssa.Builtin:
		return fr.builtin(fn, args, nil)
	case nil:
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported{fmt.Sprintf("call of %T", fn)})
}

const maxDepth = 2000

func (p *path) callSSA(caller *frame, fn *ssa.Function, args []value, env []value) value {
	w := p.w
	if fn.Synthetic == "package initializer" && caller.c.name != "init "+fn.Pkg.Pkg.Path() {
		return nil // packages are initialised when first used
	}
	c := w.compile(fn)
	if c.intr != nil {
		fr := &frame{p: p, g: caller.g, caller: caller, c: c}
		r := c.intr(fr, args)
		if _, ok := r.(useBody); !ok {
			return r
		}
		c = w.bodyOf(c, fn)
	}
	if c.blocks == nil {
		panic(unsupported{"no body: " + c.name})
	}
	if fn.TypeParams() != nil && fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
		panic(unsupported{"uninstantiated generic: " + c.name})
	}
	if c.pkgInit != nil {
		p.ensureInit(c.pkgInit, caller)
	}
	if c.merge == 0 {
		w.classifyMerge(c)
	}
	if c.merge == 1 && env == nil && !p.w.noMerge && anySymbolic(args) {
		if r, ok := p.tryMerge(caller, c, args); ok {
			return r
		}
	}
	fr := &frame{p: p, g: caller.g, caller: caller, c: c, slots: make([]value, c.nslots), prev: -1}
	fr.g.depth++
	if fr.g.depth > maxDepth {
		fr.g.depth = 0
		panic(fatalErr{"stack overflow (recursion deeper than " + fmt.Sprint(maxDepth) + ") in " + c.name})
	}
	if len(args) != len(c.params) {
		panic(fmt.Sprintf("arg count %s: %d vs %d", c.name, len(args), len(c.params)))
	}
	for i, s := range c.params {
		fr.slots[s] = args[i]
	}
	for i, s := range c.fvs {
		fr.slots[s] = env[i]
	}
	p.w.stats.funcs[fn]++
	d := fr.g.depth
	if c.hasDefer {
		fr.runWithDefer()
	} else {
		fr.run()
	}
	fr.g.depth = d - 1
	return fr.result
}

func isControl(r interface{}) bool {
	switch r.(type) {
	case targetPanic, goexit:
		return false
	}
	return true
}

type goexit struct{}

func (fr *frame) runWithDefer() {
	defer func() {
		if fr.done {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		if isControl(r) {
			panic(r)
		}
		fr.panicing = true
		fr.panicV = r
		fr.runDefers()
		// recovered
		if fr.c.recover >= 0 {
			fr.block = fr.c.recover
			fr.prev = -1
			fr.run()
		} else {
			fr.result = fr.p.w.zeroResult(fr.c.fn)
		}
	}()
	fr.run()
	fr.done = true
}

func (w *worker) zeroResult(fn *ssa.Function) value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return w.zero(res.At(0).Type())
	}
	return w.zero(res)
}

func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		fr.runDefer(d)
	}
	if fr.panicing {
		fr.done = true
		panic(fr.panicV)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			if r != nil && isControl(r) {
				fr.done = true
				panic(r)
			}
			fr.panicing = true
			fr.panicV = r
		}
	}()
	fr.curIn = d.in
	if b, isB := d.fn.(*ssa.Builtin); isB {
		fr.builtin(b, d.args, nil)
	} else {
		fr.p.call(fr, d.fn, d.args)
	}
	ok = true
}

func (fr *frame) run() {
	p := fr.p
	for {
		b := &fr.c.blocks[fr.block]
		ins := b.instrs
		if !b.hit {
			b.hit = true
			coverBlock(b.src)
		}
		p.steps += len(ins)
		if p.steps > p.maxSteps {
			panic(stepLimit{fr.where()})
		}
		// phis in parallel
		if b.nphi > 0 {
			pi := 0
			for i, pr := range b.preds {
				if pr == fr.prev {
					pi = i
					break
				}
			}
			if b.nphi == 1 {
				fr.slots[ins[0].dst] = fr.get(ins[0].a[pi])
			} else {
				var tmp [8]value
				vals := tmp[:0]
				for k := 0; k < b.nphi; k++ {
					vals = append(vals, fr.get(ins[k].a[pi]))
				}
				for k := 0; k < b.nphi; k++ {
					fr.slots[ins[k].dst] = vals[k]
				}
			}
		}
		next := -1
		for k := b.nphi; k < len(ins); k++ {
			ci := &ins[k]
			for l := 0; l < len(ci.late); l += 2 {
				if p.race != nil {
					fr.readMem(fr.get(ci.late[l+1]).(*value))
				}
				fr.slots[ci.late[l]] = copyVal(*fr.get(ci.late[l+1]).(*value))
			}
			switch in := ci.in.(type) {
			case *ssa.If:
				c := fr.get(ci.a[0]).(*Term)
				fr.curIn = in
				if p.branch(c) {
					next = b.succs[0]
				} else {
					next = b.succs[1]
				}
			case *ssa.Jump:
				next = b.succs[0]
			case *ssa.Return:
				for j := range ins {
					if ins[j].delay && fr.slots[ins[j].dst] == nil {
						fr.slots[ins[j].dst] = copyVal(*fr.get(ins[j].a[0]).(*value))
					}
				}
				switch len(ci.a) {
				case 0:
				case 1:
					fr.result = fr.get(ci.a[0])
				default:
					t := make(tuple, len(ci.a))
					for i, a := range ci.a {
						t[i] = fr.get(a)
					}
					fr.result = t
				}
				return
			default:
				fr.exec(ci)
			}
		}
		if next < 0 {
			panic(unsupported{"fallthrough block in " + fr.c.name})
		}
		fr.prev = fr.block
		fr.block = next
	}
}

type stepLimit struct{ where string }

// multiPred: the same predecessor may appear twice (both If edges to one block); phi edges are then equal by construction of SSA
// only when values are equal, which go/ssa does not guarantee, so it is handled in exec via distinct jump blocks (go/ssa fuses jumps,
// leaving duplicate preds only when there are no phis).

func (fr *frame) exec(ci *cinstr) {
	p := fr.p
	w := p.w
	tt := w.tt
	switch in := ci.in.(type) {
	case *ssa.UnOp:
		fr.curIn = in
		fr.unop(in, ci)
	case *ssa.BinOp:
		fr.curIn = in
		fr.slots[ci.dst] = fr.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(ci.a[0]), fr.get(ci.a[1]))
	case *ssa.FieldAddr:
		x := fr.get(ci.a[0])
		ptr, ok := x.(*value)
		if !ok {
			panic(unsupported{fmt.Sprintf("FieldAddr on %T in %s", x, fr.c.name)})
		}
		if ptr == nil {
			fr.curIn = in
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		st, ok := (*ptr).(structure)
		if !ok {
			fr.curIn = in
			panic(unsupported{fmt.Sprintf("FieldAddr into %T at %s", *ptr, fr.where())})
		}
		fr.slots[ci.dst] = &st[in.Field]
	case *ssa.Field:
		fr.slots[ci.dst] = fr.get(ci.a[0]).(structure)[in.Field]
	case *ssa.IndexAddr:
		fr.curIn = in
		x := fr.get(ci.a[0])
		idx := fr.get(ci.a[1]).(*Term)
		switch x := x.(type) {
		case []value:
			i := fr.index(idx, in.Index.Type(), len(x))
			fr.slots[ci.dst] = &x[i]
		case *value:
			if x == nil {
				fr.rtPanic("invalid memory address or nil pointer dereference")
			}
			a := (*x).(array)
			if g, ok := in.X.(*ssa.Global); ok && !idx.isConst() && roTables[g.String()] {
				fr.slots[ci.dst] = &a[fr.classIndex(idx, a)]
				break
			}
			i := fr.index(idx, in.Index.Type(), len(a))
			fr.slots[ci.dst] = &a[i]
		default:
			panic(unsupported{fmt.Sprintf("IndexAddr %T", x)})
		}
	case *ssa.Index:
		fr.curIn = in
		x := fr.get(ci.a[0])
		idx := fr.get(ci.a[1]).(*Term)
		switch x := x.(type) {
		case array:
			fr.slots[ci.dst] = x[fr.index(idx, in.Index.Type(), len(x))]
		case string:
			fr.slots[ci.dst] = tt.Const(8, uint64(x[fr.index(idx, in.Index.Type(), len(x))]))
		case *symStr:
			fr.slots[ci.dst] = x.b[fr.index(idx, in.Index.Type(), len(x.b))]
		default:
			panic(unsupported{fmt.Sprintf("Index %T", x)})
		}
	case *ssa.Store:
		ptr, ok := fr.get(ci.a[0]).(*value)
		if !ok {
			panic(unsupported{"store through non-pointer"})
		}
		if ptr == nil {
			fr.curIn = in
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		if p.race != nil {
			fr.curIn = in
			fr.writeMem(ptr)
		}
		storeTo(ptr, fr.get(ci.a[1]))
	case *ssa.Call:
		fr.curIn = in
		fn, args := fr.prepCall(&in.Call, ci)
		if b, ok := fn.(*ssa.Builtin); ok {
			fr.slots[ci.dst] = fr.builtin(b, args, &in.Call)
		} else {
			fr.slots[ci.dst] = p.call(fr, fn, args)
		}
	case *ssa.Defer:
		fr.curIn = in
		fn, args := fr.prepCall(&in.Call, ci)
		fr.defers = &deferred{fn: fn, args: args, in: in, next: fr.defers}
	case *ssa.RunDefers:
		fr.curIn = in
		fr.runDefers()
	case *ssa.Panic:
		fr.curIn = in
		v := fr.get(ci.a[0])
		if i, ok := v.(iface); ok && i.t == nil {
			v = iface{t: w.prog.rtErrT, v: "panic called with nil argument"}
		}
		panic(targetPanic{v: v, where: fr.where()})
	case *ssa.Go:
		fr.curIn = in
		fn, args := fr.prepCall(&in.Call, ci)
		p.spawn(fr, fn, args)
	case *ssa.Alloc:
		addr := new(value)
		*addr = w.zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.slots[ci.dst] = addr
	case *ssa.MakeClosure:
		env := make([]value, len(ci.a)-1)
		for i, a := range ci.a[1:] {
			env[i] = fr.get(a)
		}
		fr.slots[ci.dst] = &closure{in.Fn.(*ssa.Function), env}
	case *ssa.MakeInterface:
		fr.slots[ci.dst] = iface{t: in.X.Type(), v: fr.get(ci.a[0])}
	case *ssa.Extract:
		fr.slots[ci.dst] = fr.get(ci.a[0]).(tuple)[in.Index]
	case *ssa.Slice:
		fr.curIn = in
		fr.slots[ci.dst] = fr.slice(in, ci)
	case *ssa.MakeSlice:
		fr.curIn = in
		et := in.Type().Underlying().(*types.Slice).Elem()
		fr.guardAlloc(fr.get(ci.a[1]).(*Term), in.Cap.Type(), et)
		l := fr.allocLen(fr.get(ci.a[0]).(*Term), in.Len.Type(), "len")
		cp := fr.allocLen(fr.get(ci.a[1]).(*Term), in.Cap.Type(), "cap")
		if cp < l {
			fr.rtPanic("makeslice: cap out of range")
		}
		fr.slots[ci.dst] = w.makeSlice(et, l, cp)
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		if in.Reserve != nil && p.guardLimit != 0 {
			fr.curIn = in
			fr.guardAlloc(fr.get(ci.a[0]).(*Term), in.Reserve.Type(), types.NewStruct([]*types.Var{types.NewField(0, nil, "k", mt.Key(), false), types.NewField(0, nil, "v", mt.Elem(), false)}, nil))
		}
		fr.slots[ci.dst] = &symMap{kt: mt.Key(), vt: mt.Elem(), idx: map[string]int{}}
	case *ssa.MakeChan:
		n := fr.allocLen(fr.get(ci.a[0]).(*Term), in.Size.Type(), "chan size")
		fr.slots[ci.dst] = p.newChan(n, in.Type().Underlying().(*types.Chan).Elem())
	case *ssa.MapUpdate:
		fr.curIn = in
		m := fr.get(ci.a[0]).(*symMap)
		if m == nil {
			panic(targetPanic{v: iface{t: w.prog.rtErrT, v: "assignment to entry in nil map"}, rt: true, where: fr.where()})
		}
		fr.writeMap(m)
		fr.mapSet(m, fr.get(ci.a[1]), copyVal(fr.get(ci.a[2])))
	case *ssa.Lookup:
		fr.curIn = in
		fr.slots[ci.dst] = fr.lookup(in, fr.get(ci.a[0]), fr.get(ci.a[1]))
	case *ssa.Range:
		fr.curIn = in
		fr.slots[ci.dst] = fr.rangeIter(fr.get(ci.a[0]))
	case *ssa.Next:
		fr.curIn = in
		fr.slots[ci.dst] = fr.get(ci.a[0]).(iter).next(fr)
	case *ssa.ChangeType:
		fr.slots[ci.dst] = fr.get(ci.a[0])
	case *ssa.ChangeInterface:
		fr.slots[ci.dst] = fr.get(ci.a[0])
	case *ssa.Convert:
		fr.curIn = in
		fr.slots[ci.dst] = fr.convert(in.Type(), in.X.Type(), fr.get(ci.a[0]))
	case *ssa.MultiConvert:
		fr.slots[ci.dst] = fr.convert(in.Type(), in.X.Type(), fr.get(ci.a[0]))
	case *ssa.SliceToArrayPointer:
		panic(unsupported{"slice to array pointer"})
	case *ssa.TypeAssert:
		fr.curIn = in
		fr.slots[ci.dst] = fr.typeAssert(in, fr.get(ci.a[0]).(iface))
	case *ssa.Send:
		fr.curIn = in
		p.chanSend(fr, fr.get(ci.a[0]).(*symChan), fr.get(ci.a[1]))
	case *ssa.Select:
		fr.curIn = in
		fr.slots[ci.dst] = fr.doSelect(in, ci)
	default:
		panic(unsupported{fmt.Sprintf("instr %T", in)})
	}
}

func (w *worker) makeSlice(et types.Type, l, cp int) []value {
	s := make([]value, l, cp)
	full := s[:cp]
	switch et.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range full {
			full[i] = w.zero(et)
		}
	default:
		z := w.zero(et)
		for i := range full {
			full[i] = z
		}
	}
	return s
}

// guardAlloc checks an allocation against the limit set by vv.Guarded.
func (fr *frame) guardAlloc(t *Term, typ types.Type, et types.Type) {
	p := fr.p
	if p.guardLimit == 0 {
		return
	}
	tt := p.w.tt
	if t.w < 64 {
		b, _ := typ.Underlying().(*types.Basic)
		if _, signed, _ := basicWidth(b); signed {
			t = tt.Sext(t, 64)
		} else {
			t = tt.Zext(t, 64)
		}
	}
	sz := uint64(gcSizes.Sizeof(et))
	if sz == 0 {
		return
	}
	// negative sizes panic later on
	p.assertTerm(fr, tt.Or(tt.ULe(t, tt.Const(64, p.guardLimit/sz)), tt.SLt(t, tt.Const(64, 0))), p.guardMsg)
}

var gcSizes = types.SizesFor("gc", "amd64")

// allocLen concretises an allocation size.
func (fr *frame) allocLen(t *Term, typ types.Type, what string) int {
	p := fr.p
	tt := p.w.tt
	b, _ := typ.Underlying().(*types.Basic)
	_, signed, _ := basicWidth(b)
	if t.w < 64 {
		if signed {
			t = tt.Sext(t, 64)
		} else {
			t = tt.Zext(t, 64)
		}
	}
	if t.isConst() {
		if int64(t.val) < 0 || t.val > 1<<40 {
			fr.rtPanic("makeslice: " + what + " out of range")
		}
		if t.val > 1<<24 {
			p.note("large allocation of %d elements at %s", t.val, fr.where())
			p.bigAlloc(fr, t.val)
		}
		return int(t.val)
	}
	if p.branch(tt.SLt(t, tt.Const(64, 0))) {
		fr.rtPanic("makeslice: " + what + " out of range")
	}
	lim := uint64(p.allocLimit)
	if p.branch(tt.ULt(tt.Const(64, lim), t)) {
		// larger than the encodable size
		if p.branch(tt.ULt(tt.Const(64, 1<<40), t)) {
			fr.rtPanic("makeslice: " + what + " out of range")
		}
		p.bigAlloc(fr, 0)
	}
	return int(p.concretize(t))
}

func (p *path) bigAlloc(fr *frame, n uint64) {
	p.w.eng.addCut("allocation larger than modelled at " + fr.where())
	panic(pathEnd{"big allocation"})
}

// roTables are package level tables that are never written after initialisation.
var roTables = map[string]bool{"github.com/tinylib/msgp/msgp.sizes": true}

// table gives the number of the content class of a[idx] as a term and one index of every class.
func (fr *frame) table(idx *Term, a array, key func(v value) string) (*Term, []int) {
	tt := fr.p.w.tt
	num := map[string]int{}
	var rep, cls []int
	for i, v := range a {
		k := key(v)
		n, ok := num[k]
		if !ok {
			n = len(rep)
			num[k] = n
			rep = append(rep, i)
		}
		cls = append(cls, n)
	}
	t := tt.Const(32, uint64(cls[len(cls)-1]))
	for i := len(cls) - 2; i >= 0; i-- {
		if cls[i] != cls[i+1] {
			t = tt.Ite(tt.ULt(idx, tt.Const(idx.w, uint64(i+1))), tt.Const(32, uint64(cls[i])), t)
		}
	}
	return t, rep
}

func constKey(v value) string {
	switch v := v.(type) {
	case *Term:
		if !v.isConst() {
			panic(unsupported{"symbolic entry in a table"})
		}
		return fmt.Sprint(v.val)
	case structure:
		r := ""
		for _, x := range v {
			r += constKey(x) + ","
		}
		return r
	}
	panic(unsupported{fmt.Sprintf("entry %T in a table", v)})
}

// classIndex forks over the different entries of a table instead of over all indices.
func (fr *frame) classIndex(idx *Term, a array) int {
	p := fr.p
	tt := p.w.tt
	if idx.w >= 64 || uint64(len(a)) < 1<<idx.w {
		if p.branch(tt.Not(tt.ULt(idx, tt.Const(idx.w, uint64(len(a)))))) {
			fr.rtPanic("index out of range")
		}
	}
	t, rep := fr.table(idx, a, constKey)
	p.concMax = 300
	n := p.concretize(t)
	p.concMax = 0
	return rep[n]
}

// index checks bounds and concretises.
func (fr *frame) index(t *Term, typ types.Type, n int) int {
	p := fr.p
	tt := p.w.tt
	if t.isConst() {
		i := sx(t.val, t.w)
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			i = int64(t.val)
		}
		if i < 0 || i >= int64(n) {
			fr.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	b := typ.Underlying().(*types.Basic)
	_, signed, _ := basicWidth(b)
	t64 := t
	if t.w < 64 {
		if signed {
			t64 = tt.Sext(t, 64)
		} else {
			t64 = tt.Zext(t, 64)
		}
	}
	if !p.branch(tt.ULt(t64, tt.Const(64, uint64(n)))) {
		fr.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return int(p.concretize(t64))
}

func (fr *frame) prepCall(cc *ssa.CallCommon, ci *cinstr) (value, []value) {
	if cc.Method == nil {
		fn := fr.get(ci.a[0])
		args := make([]value, len(cc.Args))
		for i := range args {
			args[i] = fr.get(ci.a[i+1])
		}
		return fn, args
	}
	recv := fr.get(ci.a[0]).(iface)
	if recv.t == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	args := make([]value, 1+len(cc.Args))
	args[0] = recv.v
	for i := range cc.Args {
		args[i+1] = fr.get(ci.a[i+1])
	}
	fn := fr.p.w.findMethod(recv.t, cc.Method)
	if fn == nil {
		panic(unsupported{fmt.Sprintf("method %s not found on %s", cc.Method.Name(), recv.t)})
	}
	return fn, args
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (w *worker) findMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := w.meths[k]; ok {
		return f
	}
	f := w.prog.lookupMethod(t, m)
	w.meths[k] = f
	return f
}

func (w *worker) methodByName(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == name {
			return w.findMethod(t, f)
		}
	}
	return nil
}

func (fr *frame) slice(in *ssa.Slice, ci *cinstr) value {
	x := fr.get(ci.a[0])
	iv := func(k int, v ssa.Value) (*Term, bool) {
		if v == nil {
			return nil, false
		}
		t := fr.get(ci.a[k]).(*Term)
		if t.w < 64 {
			_, signed, _ := basicWidth(v.Type().Underlying().(*types.Basic))
			if signed {
				t = fr.p.w.tt.Sext(t, 64)
			} else {
				t = fr.p.w.tt.Zext(t, 64)
			}
		}
		return t, true
	}
	lo, hasLo := iv(1, in.Low)
	hi, hasHi := iv(2, in.High)
	mx, hasMax := iv(3, in.Max)
	bound := func(t *Term, limit int, what string) int {
		tt := fr.p.w.tt
		if t.isConst() {
			if t.val > uint64(limit) {
				fr.rtPanic(fmt.Sprintf("slice bounds out of range [%s %d] limit %d", what, int64(t.val), limit))
			}
			return int(t.val)
		}
		if fr.p.branch(tt.ULt(tt.Const(64, uint64(limit)), t)) {
			fr.rtPanic(fmt.Sprintf("slice bounds out of range [%s] limit %d", what, limit))
		}
		return int(fr.p.concretize(t))
	}
	do := func(l, c int) (int, int, int) {
		h, m := l, c
		if hasMax {
			m = bound(mx, c, "max")
		}
		if hasHi {
			h = bound(hi, m, "high")
		} else if hasMax && h > m {
			fr.rtPanic("slice bounds out of range")
		}
		lw := 0
		if hasLo {
			lw = bound(lo, h, "low")
		}
		return lw, h, m
	}
	switch x := x.(type) {
	case string:
		l, h, _ := do(len(x), len(x))
		return x[l:h]
	case *symStr:
		l, h, _ := do(len(x.b), len(x.b))
		return mkStr(x.b[l:h])
	case []value:
		l, h, m := do(len(x), cap(x))
		if x == nil {
			return []value(nil)
		}
		return x[l:h:m]
	case *value:
		if x == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := (*x).(array)
		l, h, m := do(len(a), len(a))
		return []value(a)[l:h:m]
	}
	panic(unsupported{fmt.Sprintf("slice of %T", x)})
}

func (fr *frame) typeAssert(in *ssa.TypeAssert, x iface) value {
	ok := false
	var v value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && (fr.p.w.implements(x.t, it)) {
			ok = true
			v = x
		}
	} else if x.t != nil && types.Identical(x.t, in.AssertedType) {
		ok = true
		v = x.v
	}
	if !ok {
		if !in.CommaOk {
			msg := fmt.Sprintf("interface conversion: interface is %v, not %v", x.t, in.AssertedType)
			panic(targetPanic{v: iface{t: fr.p.w.prog.rtErrT, v: msg}, rt: true, where: fr.where()})
		}
		return tuple{fr.p.w.zero(in.AssertedType), fr.p.w.tt.fls}
	}
	if in.CommaOk {
		return tuple{v, fr.p.w.tt.tru}
	}
	return v
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

func (w *worker) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if r, ok := w.impls[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	w.impls[k] = r
	return r
}

func (fr *frame) doSelect(in *ssa.Select, ci *cinstr) value {
	p := fr.p
	cases := make([]selCase, len(in.States))
	for i, s := range in.States {
		c, _ := fr.get(ci.a[2*i]).(*symChan)
		cases[i] = selCase{ch: c, send: s.Dir == types.SendOnly}
		if cases[i].send {
			cases[i].v = fr.get(ci.a[2*i+1])
		}
	}
	idx, v, ok := p.selectOp(fr, cases, in.Blocking)
	r := tuple{p.w.tt.Const(64, uint64(int64(idx))), p.w.tt.Bool(ok)}
	for i, s := range in.States {
		if s.Dir == types.RecvOnly {
			if i == idx && ok {
				r = append(r, v)
			} else {
				r = append(r, p.w.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return r
}

// ---- merging of pure loop-free functions ----

func anySymbolic(args []value) bool {
	for _, a := range args {
		if symDeep(a, 3) {
			return true
		}
	}
	return false
}

func symDeep(v value, d int) bool {
	switch v := v.(type) {
	case *Term:
		return !v.isConst()
	case structure:
		for _, x := range v {
			if symDeep(x, d) {
				return true
			}
		}
	case *value:
		if v != nil && d > 0 {
			return symDeep(*v, d-1)
		}
	}
	return false
}

func (w *worker) classifyMerge(c *cfn) {
	c.merge = -1
	fn := c.fn
	if len(fn.Blocks) > 12 || c.hasDefer || fn.Recover != nil || len(fn.FreeVars) > 0 {
		return
	}
	res := fn.Signature.Results()
	if res.Len() == 0 {
		return
	}
	for i := 0; i < res.Len(); i++ {
		b, ok := res.At(i).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&(types.IsInteger|types.IsBoolean|types.IsFloat) == 0 {
			return
		}
	}
	for i := range c.blocks {
		for j := range c.blocks[i].instrs {
			if c.blocks[i].instrs[j].delay {
				return
			}
		}
	}
	multi := false
	for bi, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Index <= bi && s.Dominates(b) {
				return
			}
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.UnOp, *ssa.FieldAddr, *ssa.Field, *ssa.ChangeType, *ssa.Extract, *ssa.Jump, *ssa.Return, *ssa.DebugRef:
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
					return
				}
			case *ssa.If:
				multi = true
			case *ssa.Convert:
				if _, ok := in.Type().Underlying().(*types.Basic); !ok {
					return
				}
				if bt, ok := in.X.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsString != 0 {
					return
				}
			case *ssa.BinOp:
				if in.Op == token.QUO || in.Op == token.REM || in.Op == token.SHL || in.Op == token.SHR {
					return
				}
				if bt, ok := in.X.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsString != 0 {
					return
				}
			case *ssa.Alloc:
				if in.Heap || bi != 0 {
					return
				}
			case *ssa.Store:
				if _, ok := in.Addr.(*ssa.Alloc); !ok || bi != 0 {
					return
				}
			case *ssa.Call:
				callee := in.Call.StaticCallee()
				if callee == nil || callee == fn || in.Call.Method != nil {
					return
				}
				cc := w.compile(callee)
				if cc.intr != nil || cc.blocks == nil {
					return
				}
				if cc.merge == 0 {
					w.classifyMerge(cc)
				}
				if cc.merge != 1 {
					return
				}
			default:
				return
			}
		}
	}
	_ = multi
	c.merge = 1
}

type mergeFail struct{}

func (p *path) tryMerge(caller *frame, c *cfn, args []value) (r value, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case mergeFail, targetPanic:
				r, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	p.mergeDepth++
	defer func() { p.mergeDepth-- }()
	fr := &frame{p: p, g: caller.g, caller: caller, c: c, slots: make([]value, c.nslots), prev: -1}
	for i, s := range c.params {
		fr.slots[s] = args[i]
	}
	p.w.stats.funcs[c.fn]++
	return fr.mergeBlock(0, -1), true
}

func (fr *frame) mergeBlock(bi, prev int) value {
	p := fr.p
	tt := p.w.tt
	for {
		b := &fr.c.blocks[bi]
		if !b.hit {
			b.hit = true
			coverBlock(b.src)
		}
		p.steps += len(b.instrs)
		if b.nphi > 0 {
			pi := 0
			for i, pr := range b.preds {
				if pr == prev {
					pi = i
				}
			}
			vals := make([]value, b.nphi)
			for k := range vals {
				vals[k] = fr.get(b.instrs[k].a[pi])
			}
			for k := range vals {
				fr.slots[b.instrs[k].dst] = vals[k]
			}
		}
		next := -1
		for k := b.nphi; k < len(b.instrs); k++ {
			ci := &b.instrs[k]
			switch ci.in.(type) {
			case *ssa.If:
				c := fr.get(ci.a[0]).(*Term)
				if !c.isConst() {
					if v, ok := p.lits[c]; ok {
						c = tt.Bool(v)
					}
				}
				if c.isConst() {
					if c.val == 1 {
						next = b.succs[0]
					} else {
						next = b.succs[1]
					}
					break
				}
				save := append([]value(nil), fr.slots...)
				r1 := fr.mergeBlock(b.succs[0], bi)
				fr.slots = save
				r2 := fr.mergeBlock(b.succs[1], bi)
				return mergeVals(tt, c, r1, r2)
			case *ssa.Jump:
				next = b.succs[0]
			case *ssa.Return:
				if len(ci.a) == 1 {
					return fr.get(ci.a[0])
				}
				t := make(tuple, len(ci.a))
				for i, a := range ci.a {
					t[i] = fr.get(a)
				}
				return t
			default:
				fr.exec(ci)
			}
		}
		prev, bi = bi, next
	}
}

func mergeVals(tt *TermTable, c *Term, a, b value) value {
	switch a := a.(type) {
	case *Term:
		return tt.Ite(c, a, b.(*Term))
	case tuple:
		bb := b.(tuple)
		r := make(tuple, len(a))
		for i := range a {
			r[i] = mergeVals(tt, c, a[i], bb[i])
		}
		return r
	}
	panic(mergeFail{})
}
