package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (fr *frame) unop(in *ssa.UnOp, ci *cinstr) {
	p := fr.p
	tt := p.w.tt
	x := fr.get(ci.a[0])
	switch in.Op {
	case token.MUL:
		ptr, ok := x.(*value)
		if !ok {
			panic(unsupported{fmt.Sprintf("load through %T", x)})
		}
		if ptr == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		if ci.delay {
			return
		}
		if p.race != nil {
			fr.curIn = in
			fr.readMem(ptr)
		}
		fr.slots[ci.dst] = copyVal(*ptr)
		return
	case token.ARROW:
		v, ok := p.chanRecv(fr, x.(*symChan))
		if v == nil {
			v = p.w.zero(in.X.Type().Underlying().(*types.Chan).Elem())
		}
		if in.CommaOk {
			fr.slots[ci.dst] = tuple{v, tt.Bool(ok)}
		} else {
			fr.slots[ci.dst] = v
		}
		return
	case token.NOT:
		fr.slots[ci.dst] = tt.Not(x.(*Term))
		return
	case token.SUB:
		t := x.(*Term)
		if isFloat(in.X.Type()) {
			fr.slots[ci.dst] = tt.FUn(OFNeg, t, t.w)
		} else {
			fr.slots[ci.dst] = tt.Neg(t)
		}
		return
	case token.XOR:
		fr.slots[ci.dst] = tt.BNot(x.(*Term))
		return
	}
	panic(unsupported{"unop " + in.Op.String()})
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	_, s, _ := basicWidth(b)
	return s
}

func (fr *frame) binop(op token.Token, xt, yt types.Type, x, y value) value {
	p := fr.p
	tt := p.w.tt
	switch op {
	case token.EQL:
		return p.equals(xt, x, y)
	case token.NEQ:
		return tt.Not(p.equals(xt, x, y))
	}
	a, ok := x.(*Term)
	if !ok {
		return fr.strop(op, x, y)
	}
	b := y.(*Term)
	if isFloat(xt) {
		switch op {
		case token.ADD:
			return tt.FBin(OFAdd, a, b)
		case token.SUB:
			return tt.FBin(OFSub, a, b)
		case token.MUL:
			return tt.FBin(OFMul, a, b)
		case token.QUO:
			return tt.FBin(OFDiv, a, b)
		case token.LSS:
			return tt.FBin(OFLt, a, b)
		case token.LEQ:
			return tt.FBin(OFLe, a, b)
		case token.GTR:
			return tt.FBin(OFLt, b, a)
		case token.GEQ:
			return tt.FBin(OFLe, b, a)
		}
	}
	signed := isSigned(xt)
	switch op {
	case token.ADD:
		return tt.Add(a, b)
	case token.SUB:
		return tt.Sub(a, b)
	case token.MUL:
		return tt.Mul(a, b)
	case token.QUO, token.REM:
		if p.branch(tt.Eq(b, tt.Const(b.w, 0))) {
			fr.rtPanic("integer divide by zero")
		}
		o := OUDiv
		switch {
		case op == token.QUO && signed:
			o = OSDiv
		case op == token.REM && signed:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return tt.Div(o, a, b)
	case token.AND:
		return tt.BAnd(a, b)
	case token.OR:
		return tt.BOr(a, b)
	case token.XOR:
		return tt.BXor(a, b)
	case token.AND_NOT:
		return tt.BAnd(a, tt.BNot(b))
	case token.SHL, token.SHR:
		if isSigned(yt) {
			if p.branch(tt.SLt(b, tt.Const(b.w, 0))) {
				fr.rtPanic("negative shift amount")
			}
		}
		// normalise the amount to a's width, saturating
		if b.w > a.w {
			big := tt.ULe(tt.Const(b.w, uint64(a.w)), b)
			b = tt.Ite(big, tt.Const(a.w, uint64(a.w)), tt.Extract(b, 0, a.w))
		} else {
			b = tt.Zext(b, a.w)
		}
		o := OShl
		if op == token.SHR {
			o = OLShr
			if signed {
				o = OAShr
			}
		}
		return tt.Shift(o, a, b)
	case token.LSS:
		if signed {
			return tt.SLt(a, b)
		}
		return tt.ULt(a, b)
	case token.LEQ:
		if signed {
			return tt.SLe(a, b)
		}
		return tt.ULe(a, b)
	case token.GTR:
		if signed {
			return tt.SLt(b, a)
		}
		return tt.ULt(b, a)
	case token.GEQ:
		if signed {
			return tt.SLe(b, a)
		}
		return tt.ULe(b, a)
	}
	panic(unsupported{"binop " + op.String()})
}

func (fr *frame) strop(op token.Token, x, y value) value {
	p := fr.p
	tt := p.w.tt
	if op == token.ADD {
		if a, ok := x.(string); ok {
			if b, ok := y.(string); ok {
				return a + b
			}
			if a == "" {
				return y
			}
		}
		if b, ok := y.(string); ok && b == "" {
			return x
		}
		_, o1 := x.(*opaqueStr)
		_, o2 := y.(*opaqueStr)
		if o1 || o2 {
			return &opaqueStr{"concat"}
		}
		return mkStr(append(append([]*Term(nil), p.w.strBytes(x)...), p.w.strBytes(y)...))
	}
	lt := func(x, y value) *Term { // x < y
		if a, ok := x.(string); ok {
			if b, ok := y.(string); ok {
				return tt.Bool(a < b)
			}
		}
		a, b := p.w.strBytes(x), p.w.strBytes(y)
		n := len(a)
		if len(b) < n {
			n = len(b)
		}
		r := tt.Bool(len(a) < len(b))
		for i := n - 1; i >= 0; i-- {
			r = tt.Or(tt.ULt(a[i], b[i]), tt.And(tt.Eq(a[i], b[i]), r))
		}
		return r
	}
	switch op {
	case token.LSS:
		return lt(x, y)
	case token.GTR:
		return lt(y, x)
	case token.LEQ:
		return tt.Not(lt(y, x))
	case token.GEQ:
		return tt.Not(lt(x, y))
	}
	panic(unsupported{fmt.Sprintf("binop %s on %T", op, x)})
}

func (p *path) eqStr(x, y value) *Term {
	tt := p.w.tt
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return tt.Bool(a == b)
		}
	}
	if a, ok := x.(*opaqueStr); ok {
		if b, ok := y.(*opaqueStr); ok && a == b {
			return tt.tru
		}
	}
	// an opaque string compared with the empty string: opaque strings are never empty
	if _, ok := x.(*opaqueStr); ok {
		if b, ok := y.(string); ok && b == "" {
			return tt.fls
		}
		panic(unsupported{"comparison of opaque string"})
	}
	if _, ok := y.(*opaqueStr); ok {
		if b, ok := x.(string); ok && b == "" {
			return tt.fls
		}
		panic(unsupported{"comparison of opaque string"})
	}
	a, b := p.w.strBytes(x), p.w.strBytes(y)
	if len(a) != len(b) {
		return tt.fls
	}
	r := tt.tru
	for i := range a {
		r = tt.And(r, tt.Eq(a[i], b[i]))
	}
	return r
}

// equals builds the (possibly symbolic) equality of two values of static type t.
func (p *path) equals(t types.Type, x, y value) *Term {
	tt := p.w.tt
	switch a := x.(type) {
	case *token64:
		b, ok := y.(*token64)
		if !ok {
			break
		}
		if a == b {
			return tt.tru
		}
		if a.kind != b.kind {
			return tt.fls
		}
		av, ok1 := a.v.(iface)
		bv, ok2 := b.v.(iface)
		if ok1 && ok2 && av.t != nil && bv.t != nil && types.Identical(av.t, bv.t) {
			as, ok1 := av.v.([]value)
			bs, ok2 := bv.v.([]value)
			if ok1 && ok2 {
				if len(as) != len(bs) {
					return tt.fls
				}
				et := av.t.Underlying().(*types.Slice).Elem()
				r := tt.tru
				for i := range as {
					r = tt.And(r, p.equals(et, as[i], bs[i]))
				}
				return r
			}
		}
		if ok1 && ok2 {
			return p.equals(av.t, a.v, b.v)
		}
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			break
		}
		if isFloat(t) {
			return tt.FBin(OFEq, a, b)
		}
		return tt.Eq(a, b)
	case string, *symStr, *opaqueStr:
		return p.eqStr(x, y)
	case *value:
		b, ok := y.(*value)
		if !ok {
			return tt.fls
		}
		return tt.Bool(a == b)
	case *symChan:
		return tt.Bool(a == y.(*symChan))
	case structure:
		b := y.(structure)
		st := t.Underlying().(*types.Struct)
		r := tt.tru
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = tt.And(r, p.equals(st.Field(i).Type(), a[i], b[i]))
		}
		return r
	case array:
		b := y.(array)
		et := t.Underlying().(*types.Array).Elem()
		r := tt.tru
		for i := range a {
			r = tt.And(r, p.equals(et, a[i], b[i]))
		}
		return r
	case iface:
		b, ok := y.(iface)
		if !ok {
			panic(unsupported{fmt.Sprintf("iface compare with %T", y)})
		}
		if a.t == nil || b.t == nil {
			return tt.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return tt.fls
		}
		if !types.Comparable(a.t) {
			panic(targetPanic{v: iface{t: p.w.prog.rtErrT, v: "runtime error: comparing uncomparable type " + a.t.String()}, rt: true})
		}
		return p.equals(a.t, a.v, b.v)
	case []value:
		b, ok := y.([]value)
		if !ok {
			b = nil
		}
		return tt.Bool(a == nil && b == nil)
	case *symMap:
		b, _ := y.(*symMap)
		return tt.Bool(a == b)
	case *closure:
		if a == nil {
			return tt.Bool(isNilFunc(y))
		}
		return tt.fls
	case *ssa.Function:
		return tt.Bool(a == nil && isNilFunc(y))
	case *native:
		return tt.Bool(a == nil && isNilFunc(y))
	}
	panic(unsupported{fmt.Sprintf("equality on %T", x)})
}

func isNilFunc(v value) bool {
	switch v := v.(type) {
	case *closure:
		return v == nil
	case *ssa.Function:
		return v == nil
	case *native:
		return v == nil
	case nil:
		return true
	}
	return false
}

func (fr *frame) convert(dst, src types.Type, x value) value {
	p := fr.p
	tt := p.w.tt
	ud, us := dst.Underlying(), src.Underlying()
	if db, ok := ud.(*types.Basic); ok {
		if db.Kind() == types.UnsafePointer {
			return x
		}
		if t, ok := x.(*Term); ok {
			if db.Info()&types.IsString != 0 {
				if !t.isConst() {
					panic(unsupported{"string(symbolic rune)"})
				}
				return string(rune(sx(t.val, t.w)))
			}
			sb := us.(*types.Basic)
			dw, dsigned, dfl := basicWidth(db)
			sw, ssigned, sfl := basicWidth(sb)
			switch {
			case sfl && dfl:
				return tt.FUn(OFToF, t, dw)
			case sfl:
				if !t.isConst() {
					// Go leaves out-of-range conversions implementation defined (amd64: 0x8000...); the SMT value is unspecified there
				}
				if dsigned {
					return tt.FUn(OFToSI, t, dw)
				}
				return tt.FUn(OFToUI, t, dw)
			case dfl:
				if ssigned {
					return tt.FUn(OSIToF, t, dw)
				}
				return tt.FUn(OUIToF, t, dw)
			}
			switch {
			case dw == sw:
				return t
			case dw < sw:
				return tt.Extract(t, 0, dw)
			case ssigned:
				return tt.Sext(t, dw)
			default:
				return tt.Zext(t, dw)
			}
		}
		if db.Info()&types.IsString != 0 {
			switch x := x.(type) {
			case string, *symStr, *opaqueStr:
				return x
			case []value:
				et := us.(*types.Slice).Elem().Underlying().(*types.Basic)
				if et.Kind() == types.Uint8 {
					return bytesToStr(x)
				}
				var rs []rune
				for _, c := range x {
					rs = append(rs, rune(sx(c.(*Term).val, 32)))
				}
				return string(rs)
			}
		}
	}
	switch ut := ud.(type) {
	case *types.Slice:
		switch x := x.(type) {
		case string, *symStr:
			et := ut.Elem().Underlying().(*types.Basic)
			if et.Kind() == types.Uint8 {
				return p.w.strToBytes(x)
			}
			s, ok := x.(string)
			if !ok {
				panic(unsupported{"[]rune of symbolic string"})
			}
			var r []value
			for _, c := range s {
				r = append(r, tt.Const(32, uint64(c)))
			}
			return r
		case *opaqueStr:
			return []value{x}
		}
		return x
	case *types.Pointer:
		return x
	}
	if types.Identical(ud, us) {
		return x
	}
	panic(unsupported{fmt.Sprintf("convert %s -> %s (%T)", src, dst, x)})
}

func bytesToStr(x []value) value {
	b := make([]*Term, len(x))
	for i, c := range x {
		t, ok := c.(*Term)
		if !ok {
			return &opaqueStr{"token bytes"}
		}
		b[i] = t
	}
	return mkStr(b)
}

func (w *worker) strToBytes(x value) []value {
	b := w.strBytes(x)
	r := make([]value, len(b))
	for i, t := range b {
		r[i] = t
	}
	if r == nil {
		r = []value{}
	}
	return r
}

func (fr *frame) builtin(b *ssa.Builtin, args []value, cc *ssa.CallCommon) value {
	p := fr.p
	tt := p.w.tt
	i64 := func(n int) *Term { return tt.Const(64, uint64(int64(n))) }
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string:
			return i64(len(x))
		case *symStr:
			return i64(len(x.b))
		case *opaqueStr:
			return i64(7)
		case []value:
			return i64(len(x))
		case *symMap:
			return i64(x.len())
		case *symChan:
			if x == nil {
				return i64(0)
			}
			return i64(len(x.buf))
		case array:
			return i64(len(x))
		case *value:
			return i64(len((*x).(array)))
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return i64(cap(x))
		case array:
			return i64(len(x))
		case *value:
			return i64(len((*x).(array)))
		case *symChan:
			if x == nil {
				return i64(0)
			}
			return i64(x.cap)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].([]value)
		var add []value
		switch y := args[1].(type) {
		case []value:
			add = y
		case string, *symStr:
			add = p.w.strToBytes(y)
		case *opaqueStr:
			add = []value{y}
		}
		var et types.Type
		if cc != nil {
			et = cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		} else {
			et = b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
		}
		if p.race != nil {
			if _, str := args[1].(string); !str {
				fr.readSlice(add)
			}
			if n := len(s) + len(add); n <= cap(s) {
				fr.writeSlice(s[len(s):n])
			} else {
				fr.readSlice(s)
			}
		}
		return p.w.appendSlice(et, s, add)
	case "copy":
		d := args[0].([]value)
		switch y := args[1].(type) {
		case []value:
			n := len(d)
			if len(y) < n {
				n = len(y)
			}
			if n == 0 {
				return i64(0)
			}
			fr.readSlice(y[:n])
			fr.writeSlice(d[:n])
			// memmove semantics
			if overlapAfter(d, y) {
				for i := n - 1; i >= 0; i-- {
					storeTo(&d[i], y[i])
				}
			} else {
				for i := 0; i < n; i++ {
					storeTo(&d[i], y[i])
				}
			}
			return i64(n)
		case string, *symStr:
			src := p.w.strBytes(y)
			n := len(d)
			if len(src) < n {
				n = len(src)
			}
			for i := 0; i < n; i++ {
				d[i] = src[i]
			}
			return i64(n)
		case *opaqueStr:
			if len(d) > 0 {
				d[0] = y
				return i64(1)
			}
			return i64(0)
		}
	case "delete":
		m := args[0].(*symMap)
		if m != nil {
			fr.writeMap(m)
			fr.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *symMap:
			if x != nil {
				fr.writeMap(x)
				x.keys, x.vals, x.idx, x.dead = nil, nil, map[string]int{}, 0
			}
		case []value:
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				storeTo(&x[i], p.w.zero(et))
			}
		}
		return nil
	case "close":
		p.chanClose(fr, args[0].(*symChan))
		return nil
	case "panic":
		panic(targetPanic{v: args[0], where: fr.where()})
	case "recover":
		return fr.doRecover()
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			ty := cc.Args[0].Type()
			c := fr.binop(op, ty, ty, a, r).(*Term)
			if rt, ok := r.(*Term); ok && !isFloat(ty) {
				r = tt.Ite(c, a.(*Term), rt)
			} else if p.branch(c) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if ptr, ok := args[0].(*value); ok && ptr == nil {
			fr.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "SliceData", "StringData":
		return &sliceData{args[0]}
	case "String":
		sd, ok := args[0].(*sliceData)
		if ok {
			n := int(args[1].(*Term).val)
			switch x := sd.v.(type) {
			case []value:
				return bytesToStr(x[:n])
			case string:
				return x[:n]
			case *symStr:
				return mkStr(x.b[:n])
			}
		}
		if pv, ok := args[0].(*value); ok && pv == nil {
			return ""
		}
		// pointer to the first byte of a slice: find it through the last slice seen
		panic(unsupported{"unsafe.String"})
	case "Slice":
		sd, ok := args[0].(*sliceData)
		if ok {
			n := int(args[1].(*Term).val)
			switch x := sd.v.(type) {
			case []value:
				return x[:n:n]
			case string, *symStr:
				return p.w.strToBytes(x)[:n:n]
			}
		}
	}
	panic(unsupported{"builtin " + b.Name() + " in " + fr.c.name})
}

type sliceData struct{ v value }

func overlapAfter(d, s []value) bool {
	if len(d) == 0 || len(s) == 0 {
		return false
	}
	// d starts inside s?
	p := &d[0]
	for i := 1; i < len(s); i++ {
		if &s[i] == p {
			return true
		}
	}
	return false
}

func (w *worker) appendSlice(et types.Type, s, add []value) []value {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		dst := r[len(s):]
		if overlapAfter(dst, add) {
			for i := len(add) - 1; i >= 0; i-- {
				storeTo(&dst[i], add[i])
			}
		} else {
			for i := range add {
				storeTo(&dst[i], add[i])
			}
		}
		return r
	}
	c := w.growCap(et, cap(s), n)
	if cap(s) == 0 && len(s) == 0 {
		c = w.growCap(et, 0, n)
	}
	r := make([]value, n, c)
	for i := range s {
		r[i] = copyVal(s[i])
	}
	for i := range add {
		r[len(s)+i] = copyVal(add[i])
	}
	full := r[:c]
	if c > n {
		switch et.Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := n; i < c; i++ {
				full[i] = w.zero(et)
			}
		default:
			z := w.zero(et)
			for i := n; i < c; i++ {
				full[i] = z
			}
		}
	}
	return r
}

func (fr *frame) doRecover() value {
	// fr is the frame of the deferred function (builtin called from it)
	c := fr.caller
	if c != nil && c.panicing {
		c.panicing = false
		r := c.panicV
		c.panicV = nil
		switch r := r.(type) {
		case targetPanic:
			fr.p.lastRecovered = r
			if _, ok := r.v.(iface); ok {
				return r.v
			}
			return iface{t: types.Typ[types.String], v: fmt.Sprint(r.v)}
		case goexit:
			c.panicing = true
			c.panicV = r
		}
	}
	return iface{}
}

// ---- maps ----

func (fr *frame) mapFind(m *symMap, k value) int {
	if m == nil {
		return -1
	}
	if m.kt != nil {
		if _, isI := m.kt.Underlying().(*types.Interface); isI {
			if ki, ok := k.(iface); ok && ki.t != nil && !types.Comparable(ki.t) {
				fr.rtPanic("hash of unhashable type " + ki.t.String())
			}
		}
	}
	ks, conc := keyStr(k)
	if conc {
		if i, ok := m.idx[ks]; ok {
			return i
		}
	}
	if conc && len(m.idx) == m.len() {
		return -1 // all keys concrete and different
	}
	p := fr.p
	for i := range m.keys {
		if _, d := m.keys[i].(deletedKey); d {
			continue
		}
		if conc {
			if _, c2 := keyStr(m.keys[i]); c2 {
				continue
			}
		}
		if p.branch(p.equals(m.kt, m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (fr *frame) mapSet(m *symMap, k, v value) {
	if i := fr.mapFind(m, k); i >= 0 {
		m.vals[i] = v
		return
	}
	if ks, ok := keyStr(k); ok {
		m.idx[ks] = len(m.keys)
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
}

func (fr *frame) mapDelete(m *symMap, k value) {
	i := fr.mapFind(m, k)
	if i < 0 {
		return
	}
	if ks, ok := keyStr(m.keys[i]); ok {
		delete(m.idx, ks)
	}
	m.keys[i] = deletedKey{}
	m.vals[i] = nil
	m.dead++
}

func (fr *frame) lookup(in *ssa.Lookup, x, k value) value {
	tt := fr.p.w.tt
	switch x := x.(type) {
	case *symMap:
		fr.readMap(x)
		i := fr.mapFind(x, k)
		var v value
		if i >= 0 {
			v = copyVal(x.vals[i])
		} else {
			v = fr.p.w.zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return tuple{v, tt.Bool(i >= 0)}
		}
		return v
	case string:
		return tt.Const(8, uint64(x[fr.index(k.(*Term), in.Index.Type(), len(x))]))
	case *symStr:
		return x.b[fr.index(k.(*Term), in.Index.Type(), len(x.b))]
	}
	panic(unsupported{fmt.Sprintf("lookup in %T", x)})
}

type iter interface {
	next(fr *frame) value
}

type mapIter struct {
	m     *symMap
	order []int
	pos   int
	start int
}

func (it *mapIter) next(fr *frame) value {
	tt := fr.p.w.tt
	if it.m == nil {
		return tuple{tt.fls, nil, nil}
	}
	fr.readMap(it.m)
	for {
		var i int
		if it.pos < len(it.order) {
			i = it.order[it.pos]
		} else {
			// entries added during iteration: may or may not be visited; we visit them not.
			return tuple{tt.fls, nil, nil}
		}
		it.pos++
		if i < len(it.m.keys) {
			if _, d := it.m.keys[i].(deletedKey); d {
				continue
			}
			return tuple{tt.tru, it.m.keys[i], copyVal(it.m.vals[i])}
		}
	}
}

type strIter struct {
	s   string
	pos int
}

func (it *strIter) next(fr *frame) value {
	tt := fr.p.w.tt
	if it.pos >= len(it.s) {
		return tuple{tt.fls, nil, nil}
	}
	r, n := utf8.DecodeRuneInString(it.s[it.pos:])
	v := tuple{tt.tru, tt.Const(64, uint64(it.pos)), tt.Const(32, uint64(r))}
	it.pos += n
	return v
}

type symStrIter struct {
	b   []*Term
	pos int
}

func (it *symStrIter) next(fr *frame) value {
	tt := fr.p.w.tt
	if it.pos >= len(it.b) {
		return tuple{tt.fls, nil, nil}
	}
	b := it.b[it.pos]
	// only ASCII is modelled
	if !fr.p.branch(tt.ULt(b, tt.Const(8, 0x80))) {
		panic(unsupported{"range over non-ASCII symbolic string"})
	}
	v := tuple{tt.tru, tt.Const(64, uint64(it.pos)), tt.Zext(b, 32)}
	it.pos++
	return v
}

func (fr *frame) rangeIter(x value) value {
	switch x := x.(type) {
	case *symMap:
		it := &mapIter{m: x}
		if x != nil {
			for i := range x.keys {
				if _, d := x.keys[i].(deletedKey); !d {
					it.order = append(it.order, i)
				}
			}
			fr.p.permute(it.order)
		}
		return it
	case string:
		return &strIter{s: x}
	case *symStr:
		return &symStrIter{b: x.b}
	}
	panic(unsupported{fmt.Sprintf("range over %T", x)})
}

// permute reorders according to the map-order mode of the path.
func (p *path) permute(o []int) {
	if p.mapOrder == 0 || len(o) < 2 || len(o) > p.mapOrder {
		return
	}
	for i := 0; i < len(o)-1; i++ {
		j := i + p.choose(fmt.Sprintf("maporder"), len(o)-i)
		v := o[j]
		copy(o[i+1:j+1], o[i:j])
		o[i] = v
	}
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
