package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type token64 struct {
	kind string
	v    value
}

func vvIntrinsic(fn *ssa.Function) intrinsic {
	if fn.Synthetic == "package initializer" {
		return nop
	}
	if f, ok := vvFuncs[fn.Name()]; ok {
		return f
	}
	return nil
}

func (fr *frame) boolArgs(v value) []*Term {
	var r []*Term
	for _, x := range v.([]value) {
		r = append(r, x.(*Term))
	}
	return r
}

var vvFuncs map[string]intrinsic

func init() {
	drawW := func(w uint16) intrinsic {
		return func(fr *frame, a []value) value { return fr.p.draw(cstr(a[0]), w) }
	}
	ite := func(fr *frame, a []value) value { return fr.tt().Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)) }
	vvFuncs = map[string]intrinsic{
		"U64": drawW(64), "U32": drawW(32), "U16": drawW(16), "U8": drawW(8), "I64": drawW(64), "F64": drawW(64),
		"Bool": func(fr *frame, a []value) value {
			t := fr.p.draw(cstr(a[0]), 8)
			return fr.tt().Not(fr.tt().Eq(fr.tt().BAnd(t, fr.tt().Const(8, 1)), fr.tt().Const(8, 0)))
		},
		"Int": func(fr *frame, a []value) value {
			t := fr.p.draw(cstr(a[0]), 64)
			tt := fr.tt()
			fr.p.assume(tt.And(tt.SLe(a[1].(*Term), t), tt.SLe(t, a[2].(*Term))))
			return t
		},
		"Bytes": func(fr *frame, a []value) value {
			n := int(cint(a[1]))
			r := make([]value, n)
			for i := range r {
				r[i] = fr.p.draw(fmt.Sprintf("%s[%d]", cstr(a[0]), i), 8)
			}
			return r
		},
		"Str": func(fr *frame, a []value) value {
			n := int(cint(a[1]))
			r := make([]*Term, n)
			for i := range r {
				r[i] = fr.p.draw(fmt.Sprintf("%s[%d]", cstr(a[0]), i), 8)
			}
			return mkStr(r)
		},
		"Choose": func(fr *frame, a []value) value {
			return fr.i64(fr.p.choose(cstr(a[0]), int(cint(a[1]))))
		},
		"Assume": func(fr *frame, a []value) value { fr.p.assume(a[0].(*Term)); return nil },
		"Assert": func(fr *frame, a []value) value {
			msg := "assertion"
			if s, ok := a[1].(string); ok {
				msg = s
			}
			fr.p.assertTerm(fr, a[0].(*Term), msg)
			return nil
		},
		"Fail": func(fr *frame, a []value) value {
			msg := "assertion"
			if s, ok := a[0].(string); ok {
				msg = s
			}
			fr.p.assertTerm(fr, fr.tt().fls, msg)
			panic(pathEnd{"fail"})
		},
		"And": func(fr *frame, a []value) value {
			r := fr.tt().tru
			for _, t := range fr.boolArgs(a[0]) {
				r = fr.tt().And(r, t)
			}
			return r
		},
		"Or": func(fr *frame, a []value) value {
			r := fr.tt().fls
			for _, t := range fr.boolArgs(a[0]) {
				r = fr.tt().Or(r, t)
			}
			return r
		},
		"Not":     func(fr *frame, a []value) value { return fr.tt().Not(a[0].(*Term)) },
		"Implies": func(fr *frame, a []value) value { return fr.tt().Or(fr.tt().Not(a[0].(*Term)), a[1].(*Term)) },
		"Iff":     func(fr *frame, a []value) value { return fr.tt().Eq(a[0].(*Term), a[1].(*Term)) },
		"Ite64":   ite, "Ite32": ite, "IteInt": ite, "IteB": ite,
		"B2I": func(fr *frame, a []value) value { return fr.tt().Ite(a[0].(*Term), fr.i64(1), fr.i64(0)) },
		"Cover": func(fr *frame, a []value) value { fr.p.covers[cstr(a[0])] = true; return nil },
		"Observe": func(fr *frame, a []value) value {
			fr.p.observed = append(fr.p.observed, obsRec{cstr(a[0]), a[1].([]value)})
			return nil
		},
		"Tier": func(fr *frame, a []value) value {
			if fr.p.w.eng.opts.Tier == "thorough" {
				return fr.i64(1)
			}
			return fr.i64(0)
		},
		"Concrete":  func(fr *frame, a []value) value { return fr.u64(fr.p.concretize(a[0].(*Term))) },
		"Symbolic":  func(fr *frame, a []value) value { return fr.tt().tru },
		"Schedules": func(fr *frame, a []value) value { fr.p.schedBudget = int(cint(a[0])); return nil },
		"SchedOff":  func(fr *frame, a []value) value { fr.p.schedOff = cint(a[0]) != 0; return nil },
		"SelectAll": func(fr *frame, a []value) value { fr.p.selectAll = true; return nil },
		"MapOrder":  func(fr *frame, a []value) value { fr.p.mapOrder = int(cint(a[0])); return nil },
		"Races":     func(fr *frame, a []value) value { fr.p.races(fr); return nil },
		"Untracked": func(fr *frame, a []value) value { fr.g.untracked = fr.p.branch(a[0].(*Term)); return nil },
		"HangCheck": func(fr *frame, a []value) value { fr.p.hangIsViolation = true; return nil },
		"Yield":     func(fr *frame, a []value) value { fr.p.schedPoint(fr); return nil },
		"Drain":     func(fr *frame, a []value) value { fr.p.drain(fr); return nil },
		"Note":      func(fr *frame, a []value) value { fr.p.note("%s", fr.p.valStr(a[0])); return nil },
		"Steps": func(fr *frame, a []value) value {
			fr.p.maxSteps = int(cint(a[0]))
			return nil
		},
		"AllocLimit": func(fr *frame, a []value) value { fr.p.allocLimit = int(cint(a[0])); return nil },
		"Guarded": func(fr *frame, a []value) value {
			p := fr.p
			ol, om := p.guardLimit, p.guardMsg
			p.guardLimit, p.guardMsg = a[0].(*Term).val, cstr(a[1])
			p.call(fr, a[2], nil)
			p.guardLimit, p.guardMsg = ol, om
			return nil
		},
		// Caught runs f and reports whether it panicked.
		"Stuck": func(fr *frame, a []value) value { panic(pathEnd{"stuck"}) },
		// Locked reports whether the lock at the pointer in the interface is held.
		"LockFree": func(fr *frame, a []value) value {
			i := a[0].(iface)
			l := fr.p.locks[i.v.(*value)]
			return fr.boolT(l == nil || !l.writer && l.readers == 0)
		},
		"HeldLocks": func(fr *frame, a []value) value {
			n := 0
			for _, l := range fr.p.locks {
				if l.writer || l.readers > 0 {
					n++
				}
			}
			return fr.i64(n)
		},
		"LiveGoroutines": func(fr *frame, a []value) value {
			n := 0
			for _, g := range fr.p.gors[1:] {
				if !g.done {
					n++
				}
			}
			return fr.i64(n)
		},
	}
	// token cells for the msgp model
	cell := func(fr *frame, a []value) value { return &token64{cstr(a[0]), a[1]} }
	for _, p := range []string{"github.com/tinylib/msgp/msgp."} {
		intrinsics[p+"vvCell"] = cell
		intrinsics[p+"vvKind"] = func(fr *frame, a []value) value {
			if t, ok := a[0].(*token64); ok {
				return t.kind
			}
			return ""
		}
		intrinsics[p+"vvGet"] = func(fr *frame, a []value) value {
			return a[0].(*token64).v
		}
	}
	_ = types.Typ
}
