package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// cfn is a function compiled for one worker: SSA values numbered into slots.
type cfn struct {
	fn       *ssa.Function
	name     string
	nslots   int
	blocks   []cblock
	consts   []value
	params   []int
	fvs      []int
	hasDefer bool
	merge    int8 // 0 unknown, 1 mergeable, -1 not
	intr     intrinsic
	body     *cfn // for intrinsics that may defer to the body
	pkgInit  *ssa.Package
	slotOf   map[ssa.Value]int
	recover  int
}

type cblock struct {
	instrs []cinstr
	nphi   int
	succs  []int
	preds  []int
	hit    bool // by this worker
	src    *ssa.BasicBlock
}

type cinstr struct {
	in    ssa.Instruction
	dst   int
	a     []int // operands
	delay bool  // load delayed until the using instruction (gc evaluation order)
	late  []int // pairs (slot, address operand) of loads to do just before this instruction
	aux   interface{}
}

type globalRef struct{ g *ssa.Global }

func (w *worker) compile(fn *ssa.Function) *cfn {
	if c, ok := w.fns[fn]; ok {
		return c
	}
	c := &cfn{fn: fn, name: fn.String(), recover: -1}
	w.fns[fn] = c
	key := c.name
	if o := fn.Origin(); o != nil {
		key = o.String()
	}
	c.intr = intrinsics[key]
	if c.intr == nil && fn.Pkg != nil {
		if f := pkgIntrinsic[fn.Pkg.Pkg.Path()]; f != nil {
			c.intr = f(fn)
		}
	}
	if c.intr != nil {
		return c
	}
	return w.compileBody(c, fn)
}

// useBody is returned by intrinsics that leave the work to the function's body.
type useBody struct{}

// bodyOf compiles the body of a function that has an intrinsic.
func (w *worker) bodyOf(c *cfn, fn *ssa.Function) *cfn {
	if c.body == nil {
		c.body = w.compileBody(&cfn{fn: fn, name: c.name, recover: -1}, fn)
	}
	return c.body
}

func (w *worker) compileBody(c *cfn, fn *ssa.Function) *cfn {
	w.prog.ensureBuilt(fn) // always: another worker may be in the middle of building it
	if fn.Blocks == nil {
		return c
	}
	if fn.Pkg != nil {
		c.pkgInit = fn.Pkg
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		c.pkgInit = w.prog.ssa.Package(fn.Object().Pkg())
	}
	c.slotOf = map[ssa.Value]int{}
	n := 0
	slot := func(v ssa.Value) int {
		if s, ok := c.slotOf[v]; ok {
			return s
		}
		c.slotOf[v] = n
		n++
		return n - 1
	}
	for _, p := range fn.Params {
		c.params = append(c.params, slot(p))
	}
	for _, p := range fn.FreeVars {
		c.fvs = append(c.fvs, slot(p))
	}
	constIdx := map[ssa.Value]int{}
	operand := func(v ssa.Value) int {
		switch v := v.(type) {
		case nil:
			return math.MaxInt32
		case *ssa.Const:
			// each const individually
			c.consts = append(c.consts, w.constValue(v))
			return ^(len(c.consts) - 1)
		case *ssa.Global:
			if i, ok := constIdx[v]; ok {
				return i
			}
			c.consts = append(c.consts, &globalRef{v})
			constIdx[v] = ^(len(c.consts) - 1)
			return constIdx[v]
		case *ssa.Function, *ssa.Builtin:
			if i, ok := constIdx[v]; ok {
				return i
			}
			c.consts = append(c.consts, v)
			constIdx[v] = ^(len(c.consts) - 1)
			return constIdx[v]
		}
		return slot(v)
	}
	c.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &c.blocks[bi]
		cb.src = b
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		// gc evaluation order for returns: loads of variables that feed the
		// return directly happen after the calls in the same statement.
		delayed := map[ssa.Instruction]bool{}
		if len(b.Instrs) > 0 {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 1 {
				for _, r := range ret.Results {
					ld, ok := r.(*ssa.UnOp)
					if !ok || ld.Op != token.MUL || ld.Block() != b || ld.Referrers() == nil || len(*ld.Referrers()) != 1 {
						continue
					}
					switch ld.X.(type) {
					case *ssa.Alloc, *ssa.FreeVar:
						delayed[ld] = true
					}
				}
			}
		}
		lateOf := w.lateLoads(b)
		if st, ld := lateResults(b); st != nil {
			if lateOf == nil {
				lateOf = map[ssa.Instruction][]*ssa.UnOp{}
			}
			lateOf[st] = append(lateOf[st], ld...)
		}
		for _, l := range lateOf {
			for _, ld := range l {
				delayed[ld] = true
			}
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1, delay: delayed[in]}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slot(v)
			}
			switch in := in.(type) {
			case *ssa.Phi:
				cb.nphi++
				for _, e := range in.Edges {
					ci.a = append(ci.a, operand(e))
				}
			case *ssa.Defer:
				c.hasDefer = true
				ci.a = callOperands(&in.Call, operand)
			case *ssa.Go:
				ci.a = callOperands(&in.Call, operand)
			case *ssa.Call:
				ci.a = callOperands(&in.Call, operand)
			case *ssa.Slice:
				ci.a = []int{operand(in.X), operand(in.Low), operand(in.High), operand(in.Max)}
			case *ssa.Select:
				for _, s := range in.States {
					ci.a = append(ci.a, operand(s.Chan), operand(s.Send))
				}
			default:
				var ops []*ssa.Value
				ops = in.Operands(ops)
				for _, o := range ops {
					ci.a = append(ci.a, operand(*o))
				}
			}
			for _, ld := range lateOf[in] {
				ci.late = append(ci.late, slot(ld), operand(ld.X))
			}
			cb.instrs = append(cb.instrs, ci)
		}
	}
	if fn.Recover != nil {
		c.recover = fn.Recover.Index
	}
	c.nslots = n
	return c
}

// lateResults does the same for a return statement of a function with defers, which stores its results first: the loads
// happen before the first of these stores.
func lateResults(b *ssa.BasicBlock) (first *ssa.Store, r []*ssa.UnOp) {
	if len(b.Instrs) == 0 {
		return nil, nil
	}
	ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) < 2 {
		return nil, nil
	}
	slots := map[ssa.Value]bool{}
	for _, v := range ret.Results {
		if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL && ld.Block() == b {
			slots[ld.X] = true
		}
	}
	defers, lastCall := false, -1
	stores := map[int]*ssa.Store{}
	pos := map[ssa.Instruction]int{}
	for i, in := range b.Instrs {
		pos[in] = i
		switch in := in.(type) {
		case *ssa.RunDefers:
			defers = true
		case *ssa.Call:
			if _, bi := in.Call.Value.(*ssa.Builtin); !bi {
				lastCall = i
			}
		case *ssa.Store:
			if slots[in.Addr] {
				stores[i] = in
			}
		}
	}
	if !defers || lastCall < 0 {
		return nil, nil
	}
	for i := lastCall + 1; i < len(b.Instrs) && first == nil; i++ {
		first = stores[i]
	}
	for i, st := range stores {
		ld, ok := st.Val.(*ssa.UnOp)
		if !ok || i < lastCall || ld.Op != token.MUL || ld.Block() != b || pos[ld] > lastCall || ld.Referrers() == nil || len(*ld.Referrers()) != 1 {
			continue
		}
		switch ld.X.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			r = append(r, ld)
		}
	}
	if first == nil || len(r) == 0 {
		return nil, nil
	}
	return first, r
}

// lateLoads finds loads that gc performs after the calls nested in the same
// expression: f(*p, g()) and *p + g() evaluate g first.
func (w *worker) lateLoads(b *ssa.BasicBlock) map[ssa.Instruction][]*ssa.UnOp {
	var r map[ssa.Instruction][]*ssa.UnOp
	for ci, in := range b.Instrs {
		var ops []ssa.Value
		switch in := in.(type) {
		case *ssa.Call:
			ops = in.Call.Args
		case *ssa.BinOp:
			ops = []ssa.Value{in.X, in.Y}
		default:
			continue
		}
		if len(ops) < 2 || !in.Pos().IsValid() {
			continue
		}
		line := func(p token.Pos) int { return w.prog.fset.Position(p).Line }
		pos := map[ssa.Instruction]int{}
		for k, i := range b.Instrs[:ci] {
			pos[i] = k
		}
		lastCall := -1
		for _, o := range ops {
			c, ok := o.(*ssa.Call)
			if !ok || c.Block() != b || c.Referrers() == nil || len(*c.Referrers()) != 1 {
				continue
			}
			if _, bi := c.Call.Value.(*ssa.Builtin); bi {
				continue
			}
			if _, isCall := in.(*ssa.Call); isCall && c.Pos() < in.Pos() {
				continue
			}
			if line(c.Pos()) != line(in.Pos()) {
				continue
			}
			if pos[c] > lastCall {
				lastCall = pos[c]
			}
		}
		if lastCall < 0 {
			continue
		}
		for _, o := range ops {
			ld, ok := o.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL || ld.Block() != b || ld.Referrers() == nil || len(*ld.Referrers()) != 1 || pos[ld] > lastCall {
				continue
			}
			if ld.Pos().IsValid() && line(ld.Pos()) != line(in.Pos()) {
				continue
			}
			if r == nil {
				r = map[ssa.Instruction][]*ssa.UnOp{}
			}
			r[in] = append(r[in], ld)
		}
	}
	return r
}

func callOperands(cc *ssa.CallCommon, operand func(ssa.Value) int) []int {
	r := []int{operand(cc.Value)}
	for _, a := range cc.Args {
		r = append(r, operand(a))
	}
	return r
}

func (w *worker) constValue(c *ssa.Const) value {
	if c.Value == nil {
		return w.zero(c.Type())
	}
	t := c.Type().Underlying()
	if _, ok := t.(*types.TypeParam); ok {
		panic(unsupported{"const of type param"})
	}
	b, ok := t.(*types.Basic)
	if !ok {
		panic(unsupported{fmt.Sprintf("const of %s", c.Type())})
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return w.tt.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case b.Info()&types.IsFloat != 0:
		bw, _, _ := basicWidth(b)
		if bw == 32 {
			f, _ := constant.Float32Val(c.Value)
			return w.tt.Const(32, uint64(math.Float32bits(f)))
		}
		f, _ := constant.Float64Val(c.Value)
		return w.tt.Const(64, math.Float64bits(f))
	case b.Info()&types.IsInteger != 0:
		bw, signed, _ := basicWidth(b)
		if signed {
			return w.tt.Const(bw, uint64(c.Int64()))
		}
		return w.tt.Const(bw, c.Uint64())
	case b.Kind() == types.UnsafePointer:
		return (*value)(nil)
	}
	return nil
}
