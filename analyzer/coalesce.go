package main

import "golang.org/x/tools/go/ssa"

// coalesce unites partitions that differ only in the value of one linear
// form, and in it cover adjacent intervals. The union is exact: nothing is
// lost by it. It keeps the cases of a switch that share a body in one
// partition.
func (e *Eng) coalesce(states []*ps, names []ssa.Value) []*ps {
	if len(states) < 2 || len(states) > 128 {
		return states
	}
	infos := make([]*coal, len(states))
	for i, s := range states {
		k := ""
		for _, v := range names {
			if x, ok := s.env[v]; ok {
				k += valKey(x) + ";"
			} else {
				k += "-;"
			}
		}
		infos[i] = newCoal(s.st, k)
	}
	dead := make([]bool, len(states))
	merged := false
	for again := true; again; {
		again = false
		for a := range states {
			if dead[a] {
				continue
			}
			for b := range states {
				if a == b || dead[b] || infos[a].key != infos[b].key || len(states[a].defers) != len(states[b].defers) {
					continue
				}
				if cs := unite(infos[a], infos[b]); cs != nil {
					st := *states[a].st
					st.cs = newConSet(cs)
					n := *states[a]
					n.st = &st
					states[a] = &n
					infos[a] = newCoal(&st, infos[a].key)
					dead[b] = true
					again, merged = true, true
				}
			}
		}
	}
	if !merged {
		return states
	}
	var out []*ps
	for i, s := range states {
		if !dead[i] {
			out = append(out, s)
		}
	}
	return out
}

// coalesceOuts does the same for the outcomes of a call.
func (e *Eng) coalesceOuts(outs []Outcome) []Outcome {
	if len(outs) < 2 || len(outs) > 128 {
		return outs
	}
	infos := make([]*coal, len(outs))
	for i, o := range outs {
		k := ""
		if o.ret != nil {
			k = valKey(o.ret)
		}
		infos[i] = newCoal(o.st, k)
	}
	dead := make([]bool, len(outs))
	merged := false
	for again := true; again; {
		again = false
		for a := range outs {
			if dead[a] {
				continue
			}
			for b := range outs {
				if a == b || dead[b] || infos[a].key != infos[b].key {
					continue
				}
				if cs := unite(infos[a], infos[b]); cs != nil {
					if !merged {
						outs = append([]Outcome(nil), outs...)
					}
					st := *outs[a].st
					st.cs = newConSet(cs)
					outs[a].st = &st
					infos[a] = newCoal(&st, infos[a].key)
					dead[b] = true
					again, merged = true, true
				}
			}
		}
	}
	if !merged {
		return outs
	}
	var out []Outcome
	for i, o := range outs {
		if !dead[i] {
			out = append(out, o)
		}
	}
	return out
}

type coal struct {
	st   *State
	key  string
	cons map[string]Con
}

func newCoal(st *State, key string) *coal {
	c := &coal{st: st, key: key, cons: make(map[string]Con, len(st.cs.all))}
	for _, x := range st.cs.all {
		c.cons[x.key()] = x
	}
	return c
}

func sameMem(a, b *State) bool {
	if len(a.mem) != len(b.mem) || len(a.lost) != len(b.lost) || a.dead || b.dead {
		return false
	}
	for id, o := range a.mem {
		if b.mem[id] != o {
			return false
		}
	}
	for k := range a.lost {
		if !b.lost[k] {
			return false
		}
	}
	return true
}

// unite returns the constraints of the union of a and b, or nil when it is not
// known to be exact.
func unite(a, b *coal) []Con {
	// the constraints that differ, all over one form
	var form *Lin
	over := func(c Con) bool {
		l := Lin{t: c.L.t}
		if len(l.t) == 0 {
			return false
		}
		if l.t[0].c < 0 {
			l = l.neg()
		}
		if form == nil {
			form = &l
			return true
		}
		return form.eq(l)
	}
	diff := 0
	for k, c := range a.cons {
		if _, ok := b.cons[k]; !ok {
			if diff++; diff > 40 || !over(c) {
				return nil
			}
		}
	}
	for k, c := range b.cons {
		if _, ok := a.cons[k]; !ok {
			if diff++; diff > 40 || !over(c) {
				return nil
			}
		}
	}
	if !sameMem(a.st, b.st) {
		return nil
	}
	if form == nil {
		return a.st.cs.all
	}
	// all constraints over the form, shared ones too
	isForm := func(c Con) bool { return len(c.L.t) == len(form.t) && over(c) }
	alo, ahi, ok := formRange(a, isForm, *form)
	if !ok {
		return nil
	}
	blo, bhi, ok := formRange(b, isForm, *form)
	if !ok {
		return nil
	}
	if alo > blo {
		alo, ahi, blo, bhi = blo, bhi, alo, ahi
	}
	if ahi != posInf && blo != negInf && ahi+1 < blo {
		return nil
	}
	lo, hi := alo, ahi
	if bhi > hi {
		hi = bhi
	}
	var cs []Con
	for _, c := range a.st.cs.all {
		if !isForm(c) {
			cs = append(cs, c)
		}
	}
	if cs == nil {
		cs = []Con{}
	}
	if lo == hi {
		return append(cs, Con{form.addc(-lo), eq})
	}
	if lo != negInf {
		cs = append(cs, Con{form.addc(-lo), ge})
	}
	if hi != posInf {
		cs = append(cs, Con{form.neg().addc(hi), ge})
	}
	return cs
}

// formRange is the interval of f that the constraints of c over f describe.
func formRange(c *coal, isForm func(Con) bool, f Lin) (lo, hi int64, ok bool) {
	lo, hi = c.st.ival(f)
	ilo, ihi := lo, hi
	var out []int64
	const lim = 1 << 60
	for _, x := range c.st.cs.all {
		if !isForm(x) {
			continue
		}
		if x.L.c > lim || x.L.c < -lim {
			return 0, 0, false
		}
		pos := x.L.t[0].c > 0
		switch x.Op {
		case ge: // f + c >= 0 or -f + c >= 0
			if pos && -x.L.c > lo {
				lo = -x.L.c
			}
			if !pos && x.L.c < hi {
				hi = x.L.c
			}
		case eq:
			v := -x.L.c
			if !pos {
				v = x.L.c
			}
			if v > lo {
				lo = v
			}
			if v < hi {
				hi = v
			}
		case ne:
			v := -x.L.c
			if !pos {
				v = x.L.c
			}
			out = append(out, v)
		}
	}
	for again := true; again; {
		again = false
		for _, v := range out {
			if v == lo && lo <= hi {
				lo++
				again = true
			} else if v == hi && lo <= hi {
				hi--
				again = true
			}
		}
	}
	for _, v := range out {
		if lo < v && v < hi {
			return 0, 0, false
		}
	}
	if lo > hi {
		return 0, 0, false
	}
	// bounds that always hold need no constraint
	if lo == ilo {
		lo = negInf
	}
	if hi == ihi {
		hi = posInf
	}
	return lo, hi, true
}
