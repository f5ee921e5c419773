package main

import (
	"math/rand"
	"testing"
)

func TestLPBrute(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for it := 0; it < 20000; it++ {
		vs := newVars()
		n := 1 + r.Intn(3)
		var v []Var
		for i := 0; i < n; i++ {
			v = append(v, vs.fresh("x", -4, 4))
		}
		var cons []Con
		seed := Lin{}
		for i := 0; i < 1+r.Intn(5); i++ {
			l := lc(int64(r.Intn(13) - 6))
			for _, x := range v {
				l = l.add(lv(x).scale(int64(r.Intn(9) - 4)))
			}
			cons = append(cons, Con{l, op(r.Intn(3))})
			seed = seed.add(l.scale(int64(17 + i*13)))
		}
		obj := Lin{}
		for _, x := range v {
			obj = obj.add(lv(x).scale(int64(r.Intn(9) - 4)))
		}
		sat := false
		best := int64(-1 << 60)
		var rec func(i int, a map[Var]int64)
		ev := func(l Lin, a map[Var]int64) int64 {
			s := l.c
			for _, x := range l.t {
				s += x.c * a[x.v]
			}
			return s
		}
		rec = func(i int, a map[Var]int64) {
			if i == n {
				for _, c := range cons {
					e := ev(c.L, a)
					if c.Op == ge && e < 0 || c.Op == eq && e != 0 || c.Op == ne && e == 0 {
						return
					}
				}
				sat = true
				if x := ev(obj, a); x > best {
					best = x
				}
				return
			}
			for x := int64(-4); x <= 4; x++ {
				a[v[i]] = x
				rec(i+1, a)
			}
		}
		rec(0, map[Var]int64{})
		var seeds []Lin
		for _, c := range cons {
			seeds = append(seeds, c.L)
		}
		got := vs.feasible(cons, seeds...)
		if got != sat {
			if sat {
				t.Fatalf("unsound: it=%d", it)
			}
			t.Logf("incomplete it=%d", it)
		}
		if sat {
			s, ok := vs.sup(cons, obj)
			if !ok || s < best {
				t.Fatalf("sup unsound it=%d got %d,%v want >= %d", it, s, ok, best)
			}
		}
	}
}
