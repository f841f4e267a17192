// Package apih holds the harnesses for the HTTP API's decision functions.
package apih

import (
	"context"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/api"
	"github.com/Vivino/rankdb/vv"
	jwt "github.com/dgrijalva/jwt-go"
	goajwt "github.com/goadesign/goa/middleware/security/jwt"
)

func sz(quick, thorough int) int {
	if vv.Tier() == 1 {
		return thorough
	}
	return quick
}

func withClaims(c jwt.MapClaims) context.Context {
	return goajwt.WithJWT(context.Background(), &jwt.Token{Claims: c})
}

func blank(c byte) bool {
	return vv.Or(c == ' ', c == '\t', c == '\n', c == '\v', c == '\f', c == '\r')
}

// entryMatches: some comma separated entry of s, blanks trimmed, satisfies f,
// which is given the bounds of the trimmed entry. Decided without forking.
// The bytes lo..hi-1 are known to be neither commas nor blanks.
func entryMatches(s string, lo, hi int, f func(from, to int) bool) bool {
	r := false
	n := len(s)
	for i := 0; i <= n; i++ {
		if i > lo && i <= hi {
			continue
		}
		st := i == 0 || s[i-1] == ','
		nocomma := st
		for j := i; j <= n; j++ {
			if j >= lo && j < hi {
				continue
			}
			end := j == n || s[j] == ','
			seg := vv.And(nocomma, end)
			// trimmed bounds a..b
			for a := i; a <= j; a++ {
				for b := a; b <= j; b++ {
					if a == b && a != i {
						continue // an all blank entry: bounds i..i
					}
					if lo < hi && i <= lo && j >= hi && (a > lo || b < hi) {
						continue
					}
					ok := seg
					for k := i; k < a; k++ {
						ok = vv.And(ok, blank(s[k]))
					}
					for k := b; k < j; k++ {
						ok = vv.And(ok, blank(s[k]))
					}
					if a < b {
						ok = vv.And(ok, vv.Not(blank(s[a])), vv.Not(blank(s[b-1])))
					}
					r = vv.Or(r, vv.And(ok, f(a, b)))
				}
			}
			if j < n {
				nocomma = vv.And(nocomma, s[j] != ',')
			}
		}
	}
	return r
}

func ascii(s string) {
	for i := 0; i < len(s); i++ {
		vv.Assume(s[i] < 0x80)
	}
}

// Any restriction string of 0-5 ASCII bytes (thorough: 0-7) and one or two list ids of 0-3
// bytes, next to an arbitrary element restriction.
func VH_C25_lists() {
	s := vv.Str("claim", vv.Choose("claimlen", sz(6, 8)))
	ascii(s)
	ctx := withClaims(jwt.MapClaims{"only_lists": s, "only_elements": "1"})
	n := 1 + vv.Choose("ids", 2)
	want := true
	var ids []rankdb.ListID
	for i := 0; i < n; i++ {
		id := vv.Str("id", vv.Choose("idlen", 4-n+sz(0, 1)))
		ascii(id)
		ids = append(ids, rankdb.ListID(id))
		want = vv.And(want, entryMatches(s, 0, 0, func(a, b int) bool {
			if b-a != len(id) {
				return false
			}
			return s[a:b] == id
		}))
	}
	err := api.HasAccessToList(ctx, ids...)
	if err == nil {
		vv.Assert(want, "C25: access granted to a list that the token does not name")
		vv.Cover("granted")
	} else {
		vv.Assert(vv.Not(want), "C25: access refused to a list that the token names")
		vv.Cover("refused")
	}
}

// decimal: s[a:b] is the unsigned decimal form of id (leading zeros allowed).
func decimal(s string, a, b int, id uint64) bool {
	if a == b {
		return false
	}
	r := true
	for i := a; i < b; i++ {
		r = vv.And(r, s[i] >= '0', s[i] <= '9')
	}
	const max = "18446744073709551615"
	if b-a > len(max) {
		for i := a; i < b-len(max); i++ {
			r = vv.And(r, s[i] == '0')
		}
		a = b - len(max)
	}
	if b-a == len(max) {
		le := true // s[a:b] <= max, from the least significant digit
		for i := len(max) - 1; i >= 0; i-- {
			le = vv.Or(s[a+i] < max[i], vv.And(s[a+i] == max[i], le))
		}
		r = vv.And(r, le)
	}
	v := uint64(0)
	for i := a; i < b; i++ {
		v = v*10 + uint64(s[i]-'0')
	}
	return vv.And(r, v == id)
}

// Any restriction string of 0-4 ASCII bytes (thorough: 0-6) and one or two element ids.
func VH_C25_elements() {
	s := vv.Str("claim", vv.Choose("claimlen", sz(5, 7)))
	ascii(s)
	elements(s, 0, 0)
}

// Restriction strings around the largest 64-bit number: the first 18 digits of
// 2^64 followed by 1-3 arbitrary bytes, optionally preceded by another entry.
func VH_C25_big() {
	const top = "184467440737095516"
	s := top + vv.Str("claim", 1+vv.Choose("claimlen", sz(3, 4)))
	lo, hi := 0, len(top)
	switch vv.Choose("prefix", 3) {
	case 1:
		lo, hi = 2, 2+len(top)
		s = "7," + s
	case 2:
		lo, hi = 1, 2+len(top)
		s = " 0" + s
	}
	ascii(s)
	elements(s, lo, hi)
}

func elements(s string, lo, hi int) {
	ctx := withClaims(jwt.MapClaims{"only_elements": s, "only_lists": "a"})
	n := 1 + vv.Choose("ids", 2)
	want := true
	var ids []rankdb.ElementID
	for i := 0; i < n; i++ {
		id := vv.U64("id")
		ids = append(ids, rankdb.ElementID(id))
		want = vv.And(want, entryMatches(s, lo, hi, func(a, b int) bool { return decimal(s, a, b, id) }))
	}
	err := api.HasAccessToElement(ctx, ids...)
	if err == nil {
		vv.Assert(want, "C25: access granted to an element that the token does not name")
		vv.Cover("granted")
	} else {
		vv.Assert(vv.Not(want), "C25: access refused to an element that the token names")
		vv.Cover("refused")
	}
}

// No token, a token without restriction, or only the other restriction.
func VH_C25_unrestricted() {
	l, e := rankdb.ListID(vv.Str("list", vv.Choose("len", 3))), rankdb.ElementID(vv.U64("id"))
	ctx := context.Background()
	switch vv.Choose("token", 4) {
	case 1:
		ctx = withClaims(jwt.MapClaims{})
	case 2:
		ctx = withClaims(jwt.MapClaims{"only_elements": vv.Str("claim", 2)})
		vv.Assert(api.HasAccessToList(ctx, l, "x") == nil, "C25: list refused without a list restriction")
		return
	case 3:
		ctx = withClaims(jwt.MapClaims{"only_lists": vv.Str("claim", 2)})
		vv.Assert(api.HasAccessToElement(ctx, e, 1) == nil, "C25: element refused without an element restriction")
		return
	}
	vv.Assert(api.HasAccessToList(ctx, l, "x") == nil, "C25: list refused without restriction")
	vv.Assert(api.HasAccessToElement(ctx, e, 1) == nil, "C25: element refused without restriction")
	vv.Cover("free")
}

type otherClaims struct{}

func (otherClaims) Valid() error { return nil }

// A token whose claims cannot be inspected names nothing.
func VH_C25_unknown_claims() {
	ctx := goajwt.WithJWT(context.Background(), &jwt.Token{Claims: otherClaims{}})
	vv.Assert(api.HasAccessToList(ctx, rankdb.ListID(vv.Str("list", 1))) != nil, "C25: list granted by claims of unknown shape")
	vv.Assert(api.HasAccessToElement(ctx, rankdb.ElementID(vv.U64("id"))) != nil, "C25: element granted by claims of unknown shape")
	vv.Cover("refused")
}
