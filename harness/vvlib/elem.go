// Package vvlib holds what several harness groups share.
package vvlib

import (
	"fmt"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/vv"
)

// Elem draws an unconstrained element.
func Elem(name string) rankdb.Element {
	return rankdb.Element{
		Score:      vv.U64(name + ".score"),
		ID:         rankdb.ElementID(vv.U64(name + ".id")),
		TieBreaker: vv.U32(name + ".tie"),
		Updated:    vv.U32(name + ".upd"),
	}
}

// ElemP draws an element whose payload is a one byte tag.
func ElemP(name string, tag byte) rankdb.Element {
	e := Elem(name)
	e.Payload = []byte{tag}
	return e
}

// Elems draws n unconstrained elements.
func Elems(name string, n int) []rankdb.Element {
	r := make([]rankdb.Element, n)
	for i := range r {
		r[i] = Elem(fmt.Sprintf("%s%d", name, i))
	}
	return r
}

// Above is the specification of the ranking order.
func Above(a, b rankdb.Element) bool {
	return vv.Or(a.Score > b.Score,
		vv.And(a.Score == b.Score, vv.Or(a.TieBreaker > b.TieBreaker,
			vv.And(a.TieBreaker == b.TieBreaker, vv.Or(a.Updated < b.Updated,
				vv.And(a.Updated == b.Updated, a.ID < b.ID))))))
}

// Same says that all fields are equal (payloads are compared by content).
func Same(a, b rankdb.Element) bool {
	return vv.And(a.Score == b.Score, a.ID == b.ID, a.TieBreaker == b.TieBreaker, a.Updated == b.Updated, SamePayload(a.Payload, b.Payload))
}

// SameBut is Same ignoring the update time.
func SameBut(a, b rankdb.Element) bool {
	return vv.And(a.Score == b.Score, a.ID == b.ID, a.TieBreaker == b.TieBreaker, SamePayload(a.Payload, b.Payload))
}

// SamePayload compares payload bytes.
func SamePayload(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vv.And(r, a[i] == b[i])
	}
	return r
}

// Count is the number of elements of s equal to e.
func Count(s []rankdb.Element, e rankdb.Element) int {
	n := 0
	for i := range s {
		n += vv.B2I(Same(s[i], e))
	}
	return n
}

// Permutation says that a and b hold the same elements.
func Permutation(a, b []rankdb.Element) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vv.And(r, Count(a, a[i]) == Count(b, a[i]))
	}
	return r
}

// Ordered says that no element ranks above its predecessor.
func Ordered(s []rankdb.Element) bool {
	r := true
	for i := 1; i < len(s); i++ {
		r = vv.And(r, vv.Not(Above(s[i], s[i-1])))
	}
	return r
}

// Strict says that every element ranks strictly above the next.
func Strict(s []rankdb.Element) bool {
	r := true
	for i := 1; i < len(s); i++ {
		r = vv.And(r, Above(s[i-1], s[i]))
	}
	return r
}

// Distinct says that all ids differ.
func Distinct(s []rankdb.Element) bool {
	r := true
	for i := range s {
		for j := 0; j < i; j++ {
			r = vv.And(r, s[i].ID != s[j].ID)
		}
	}
	return r
}

// HasID says that s holds an element with the id.
func HasID(s []rankdb.Element, id rankdb.ElementID) bool {
	r := false
	for i := range s {
		r = vv.Or(r, s[i].ID == id)
	}
	return r
}

// Copy copies a slice of elements (sharing payloads).
func Copy(s []rankdb.Element) []rankdb.Element {
	return append(make([]rankdb.Element, 0, len(s)), s...)
}

// ObserveElems records elements for comparison with native runs.
func ObserveElems(name string, s []rankdb.Element) {
	vv.Observe(name+".n", uint64(len(s)))
	for _, e := range s {
		vv.Observe(name, e.Score, uint64(e.ID), uint64(e.TieBreaker), uint64(e.Updated))
		for _, b := range e.Payload {
			vv.Observe(name+".p", uint64(b))
		}
	}
}
