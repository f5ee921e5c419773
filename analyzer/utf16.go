package main

import (
	"go/types"
)

// Exact models of unicode/utf16, used where more partitions are kept.

func rangeB(l Lin, lo, hi int64) BoolV {
	return BoolV{And: []Con{{l.addc(-lo), ge}, {l.neg().addc(hi), ge}}}
}

func (e *Eng) utf16DecodeRune(args []Value, st *State) []Outcome {
	hi, lo := e.intOf(args[0], types.Typ[types.Int32]), e.intOf(args[1], types.Typ[types.Int32])
	pair := BoolV{And: append(rangeB(hi.L, 0xd800, 0xdbff).And, rangeB(lo.L, 0xdc00, 0xdfff).And...)}
	yes, no := st.split(pair)
	var outs []Outcome
	for _, s := range yes {
		outs = append(outs, Outcome{s, iv(hi.L.addc(-0xd800).scale(1024).add(lo.L).addc(0x10000 - 0xdc00))})
	}
	for _, s := range no {
		outs = append(outs, Outcome{s, ic(0xfffd)})
	}
	return outs
}

// utf16Encode models the encoding of a slice of known, small length; nil when
// it is not one.
func (e *Eng) utf16Encode(src SliceV, st *State) []Outcome {
	const most = 4
	if !src.Len.isConst() || src.Len.c > most || src.Obj == 0 {
		return nil
	}
	type part struct {
		st *State
		u  []Lin
	}
	cur := []part{{st, nil}}
	for i := int64(0); i < src.Len.c; i++ {
		var next []part
		for _, c := range cur {
			for _, r := range c.st.arrRead(c.st.obj(src.Obj).arr, src.Off.addc(i)) {
				x := e.intOf(r.v, types.Typ[types.Int32]).L
				put := func(ss []*State, f func(*State) []Lin) []*State {
					for _, s := range ss {
						next = append(next, part{s, append(append([]Lin(nil), c.u...), f(s)...)})
					}
					return nil
				}
				rest := []*State{r.st}
				step := func(b BoolV, f func(*State) []Lin) {
					var no []*State
					for _, s := range rest {
						y, n := s.split(b)
						put(y, f)
						no = append(no, n...)
					}
					rest = no
				}
				same := func(*State) []Lin { return []Lin{x} }
				step(rangeB(x, 0, 0xd7ff), same)
				step(rangeB(x, 0xe000, 0xffff), same)
				step(rangeB(x, 0x10000, 0x10ffff), func(s *State) []Lin {
					y := x.addc(-0x10000)
					h := s.fdiv(y, 1024)
					return []Lin{h.addc(0xd800), y.sub(h.scale(1024)).addc(0xdc00)}
				})
				put(rest, func(*State) []Lin { return []Lin{lc(0xfffd)} })
			}
		}
		cur = next
	}
	var outs []Outcome
	for _, c := range cur {
		t := types.Typ[types.Uint16]
		o := e.newObj(okArray, t, freshOwner, "utf16.Encode")
		o.arr = &Arr{base: baseZero, elem: t, owner: freshOwner, name: "utf16.Encode"}
		c.st.put(o)
		for i, l := range c.u {
			k := int64(i)
			c.st.arrStore(c.st.obj(o.id), Ov{Lo: lc(k), Hi: lc(k + 1), K: ovSingle, V: iv(l)})
		}
		n := lc(int64(len(c.u)))
		outs = append(outs, Outcome{c.st, SliceV{Obj: o.id, Len: n, Cap: n, Elem: t}})
	}
	return outs
}
