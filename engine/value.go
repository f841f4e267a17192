package main

import (
	"fmt"
	"go/types"
	"reflect"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type value interface{}
type structure []value
type array []value
type tuple []value

// iface is a Go interface value; t==nil means nil interface.
type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

// native is a function implemented by the engine and callable from interpreted code.
type native struct {
	name string
	fn   func(fr *frame, args []value) value
}

// symStr is a string of concrete length with symbolic bytes.
type symStr struct{ b []*Term }

// opaqueStr is a string whose content is not modelled (log/error text).
type opaqueStr struct{ desc string }

// symMap is an association list; key equality may fork.
type symMap struct {
	kt, vt types.Type
	keys   []value
	vals   []value
	idx    map[string]int // concrete string keys / consts
	dead   int
	ver    int
}

type badPtr struct{}

func (e *symMap) len() int {
	if e == nil {
		return 0
	}
	return len(e.keys) - e.dead
}

type deletedKey struct{}

// keyStr gives an index key for fully concrete scalar/string keys.
func keyStr(v value) (string, bool) {
	switch v := v.(type) {
	case string:
		return "s" + v, true
	case *Term:
		if v.isConst() {
			return fmt.Sprintf("t%d:%d", v.w, v.val), true
		}
		return "", false
	case *value:
		return fmt.Sprintf("p%p", v), true
	case structure:
		r := "{"
		for _, f := range v {
			s, ok := keyStr(f)
			if !ok {
				return "", false
			}
			r += fmt.Sprintf("%d:%s,", len(s), s)
		}
		return r + "}", true
	case array:
		r := "["
		for _, f := range v {
			s, ok := keyStr(f)
			if !ok {
				return "", false
			}
			r += fmt.Sprintf("%d:%s,", len(s), s)
		}
		return r + "]", true
	case iface:
		if v.t == nil {
			return "n", true
		}
		s, ok := keyStr(v.v)
		return "i" + types.TypeString(v.t, nil) + "/" + s, ok
	case *symChan:
		return fmt.Sprintf("c%p", v), true
	}
	return "", false
}

func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		n := make(structure, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case array:
		n := make(array, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	}
	return v
}

// storeTo writes v into *addr keeping addresses of nested fields stable.
func storeTo(addr *value, v value) {
	switch v := v.(type) {
	case structure:
		if l, ok := (*addr).(structure); ok && len(l) == len(v) {
			for i := range v {
				storeTo(&l[i], v[i])
			}
			return
		}
		*addr = copyVal(v)
	case array:
		if l, ok := (*addr).(array); ok && len(l) == len(v) {
			for i := range v {
				storeTo(&l[i], v[i])
			}
			return
		}
		*addr = copyVal(v)
	default:
		*addr = v
	}
}

func basicWidth(t *types.Basic) (w uint16, signed, float bool) {
	switch t.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, false
	case types.Int8:
		return 8, true, false
	case types.Int16:
		return 16, true, false
	case types.Int32, types.UntypedRune:
		return 32, true, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, false
	case types.Uint8:
		return 8, false, false
	case types.Uint16:
		return 16, false, false
	case types.Uint32:
		return 32, false, false
	case types.Float32:
		return 32, true, true
	case types.Float64, types.UntypedFloat:
		return 64, true, true
	}
	return 999, false, false
}

// zero returns the zero value of t.
func (w *worker) zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Basic:
		switch t.Kind() {
		case types.String, types.UntypedString:
			return ""
		case types.UnsafePointer, types.UntypedNil:
			return (*value)(nil)
		}
		bw, _, _ := basicWidth(t)
		if bw == 999 {
			return nil // complex: unsupported on use
		}
		if bw == 0 {
			return w.tt.fls
		}
		return w.tt.Const(bw, 0)
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return []value(nil)
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = w.zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(array, t.Len())
		for i := range a {
			a[i] = w.zero(t.Elem())
		}
		return a
	case *types.Named:
		return w.zero(t.Underlying())
	case *types.Alias:
		return w.zero(types.Unalias(t))
	case *types.Interface:
		return iface{}
	case *types.Map:
		return (*symMap)(nil)
	case *types.Chan:
		return (*symChan)(nil)
	case *types.Signature:
		return (*closure)(nil)
	case *types.Tuple:
		if t.Len() == 1 {
			return w.zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = w.zero(t.At(i).Type())
		}
		return s
	case *types.TypeParam:
		panic(unsupported{"zero of type param"})
	}
	panic(unsupported{fmt.Sprintf("zero of %T", t)})
}

// ---- append growth identical to the gc runtime ----

type growKey struct {
	size           int64
	ptr            bool
	oldCap, newLen int
}

var stdSizes = types.SizesFor("gc", "amd64")

func hasPointers(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Kind() == types.String || t.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if hasPointers(t.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return t.Len() > 0 && hasPointers(t.Elem())
	}
	return true
}

func (w *worker) growCap(et types.Type, oldCap, newLen int) int {
	size := stdSizes.Sizeof(et)
	ptr := hasPointers(et)
	if size == 0 {
		return newLen
	}
	if newLen > 1<<16 {
		return newLen
	}
	k := growKey{size, ptr, oldCap, newLen}
	if c, ok := w.grow[k]; ok {
		return c
	}
	var rt reflect.Type
	if ptr {
		rt = reflect.ArrayOf(int(size/8), reflect.TypeOf(unsafe.Pointer(nil)))
	} else if size == 1 {
		rt = reflect.TypeOf(byte(0))
	} else {
		rt = reflect.ArrayOf(int(size), reflect.TypeOf(byte(0)))
	}
	s := reflect.MakeSlice(reflect.SliceOf(rt), oldCap, oldCap)
	s = reflect.AppendSlice(s, reflect.MakeSlice(reflect.SliceOf(rt), newLen-oldCap, newLen-oldCap))
	w.grow[k] = s.Cap()
	return s.Cap()
}

// strLen returns the length of a string value.
func strLen(v value) (int, bool) {
	switch v := v.(type) {
	case string:
		return len(v), true
	case *symStr:
		return len(v.b), true
	}
	return 0, false
}

func (w *worker) strBytes(v value) []*Term {
	switch v := v.(type) {
	case string:
		r := make([]*Term, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = w.tt.Const(8, uint64(v[i]))
		}
		return r
	case *symStr:
		return v.b
	}
	panic(unsupported{"bytes of opaque string"})
}

// mkStr builds a string value out of byte terms, concrete if possible.
func mkStr(b []*Term) value {
	for _, t := range b {
		if !t.isConst() {
			return &symStr{b}
		}
	}
	r := make([]byte, len(b))
	for i, t := range b {
		r[i] = byte(t.val)
	}
	return string(r)
}

// unsupported aborts the current path as not encodable.
type unsupported struct{ why string }

// pathEnd aborts the current path silently (assumption false, end of exploration).
type pathEnd struct{ why string }

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v     value
	rt    bool // runtime error
	where string
}

// fatalErr is an unrecoverable error of the interpreted program (e.g. unlock of unlocked mutex).
type fatalErr struct{ msg string }

func (p *path) valStr(v value) string {
	switch v := v.(type) {
	case nil:
		return "<nil>"
	case *Term:
		if v.isConst() {
			return fmt.Sprint(v.val)
		}
		p.w.tt.NewModel()
		return fmt.Sprint(p.w.tt.Eval(v, p.model))
	case string:
		return v
	case *symStr:
		p.w.tt.NewModel()
		r := make([]byte, len(v.b))
		for i, t := range v.b {
			r[i] = byte(p.w.tt.Eval(t, p.model))
		}
		return string(r)
	case *opaqueStr:
		return "<opaque:" + v.desc + ">"
	case iface:
		if v.t == nil {
			return "<nil>"
		}
		return types.TypeString(v.t, func(p *types.Package) string { return p.Name() }) + ":" + p.valStr(v.v)
	case structure:
		s := "{"
		for i, f := range v {
			if i > 0 {
				s += " "
			}
			s += p.valStr(f)
		}
		return s + "}"
	case *value:
		if v == nil {
			return "nil"
		}
		return "&" + p.valStr(*v)
	case []value:
		s := "["
		for i, f := range v {
			if i > 0 {
				s += " "
			}
			if i > 20 {
				s += "..."
				break
			}
			s += p.valStr(f)
		}
		return s + "]"
	}
	return fmt.Sprintf("%T", v)
}
