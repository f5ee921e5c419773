package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Modular analysis. An exported function of a library package is analysed
// once, for arbitrary arguments, as a root of its own. Where other code calls
// it, its effect is replaced by a summary inferred from that analysis: linear
// inequalities between the sizes and integers of its arguments and results,
// in each class of results (error or not), and the arguments whose memory it
// writes. Functions without loops, and functions whose effect a summary cannot
// express, are interpreted in place.

type summary struct {
	ok      bool
	why     string
	shares  bool   // results may share memory with the arguments
	writes  []bool // per parameter: the elements of a slice argument may change
	classes []sumClass
}

type sumClass struct {
	forms []sumForm
	// alias: result i is a part of slice argument alias[i]-1
	alias []int
}

// results lists the results of a return value.
func results(ret Value) []Value {
	if t, ok := ret.(TupleV); ok {
		return t.E
	}
	return []Value{ret}
}

// resultAlias finds, for each result, the slice argument that it is part of.
func resultAlias(st *State, args []Value, ret Value) []int {
	rs := results(ret)
	out := make([]int, len(rs))
	for i, r := range rs {
		s, ok := r.(SliceV)
		if !ok || s.Obj == 0 {
			continue
		}
		if m, ok := st.sup(s.Cap); ok && m == 0 {
			continue
		}
		for j, a := range args {
			if b, ok := a.(SliceV); ok && b.Obj == s.Obj {
				out[i] = j + 1
			}
		}
	}
	return out
}

// aliasResult makes results part of the arguments that they are part of.
func aliasResult(e *Eng, cl sumClass, args []Value, ret Value) Value {
	for i, j := range cl.alias {
		if j == 0 {
			continue
		}
		b, ok := args[j-1].(SliceV)
		if !ok {
			continue
		}
		one := func(v Value) Value {
			s, ok := v.(SliceV)
			if !ok {
				return v
			}
			s.Obj = b.Obj
			s.Off = b.Off.add(lv(e.vs.fresh("part", 0, 1<<40)))
			return s
		}
		if t, ok := ret.(TupleV); ok {
			n := TupleV{E: append([]Value(nil), t.E...)}
			n.E[i] = one(n.E[i])
			ret = n
		} else {
			ret = one(ret)
		}
	}
	return ret
}

// sumForm is sum of coef*leaf + c >= 0.
type sumForm struct {
	leaf []int
	coef []int64
	c    int64
}

type leafWalk struct {
	e   *Eng
	st  *State
	out []Lin
}

// leaves lists the integers that describe a value, by type; ok is false when
// the value does not have the shape of its type.
func (w *leafWalk) leaves(t types.Type, v Value, res bool, d int) {
	if opaqueType(t) || d > 4 {
		return
	}
	none := func(n int) {
		for i := 0; i < n; i++ {
			w.out = append(w.out, lv(w.e.vs.fresh("leaf", negInf, posInf)))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			if x, ok := v.(IntV); ok {
				w.out = append(w.out, x.L)
			} else {
				none(1)
			}
		case u.Info()&types.IsString != 0:
			if x, ok := v.(StrV); ok {
				w.out = append(w.out, x.Len)
			} else {
				none(1)
			}
		case u.Info()&types.IsBoolean != 0:
			if x, ok := v.(BoolV); ok {
				switch w.st.decide(x) {
				case 1:
					w.out = append(w.out, lc(1))
				case 0:
					w.out = append(w.out, lc(0))
				default:
					w.out = append(w.out, boolLin(w.e, x))
				}
			} else {
				none(1)
			}
		}
	case *types.Slice:
		if x, ok := v.(SliceV); ok {
			w.out = append(w.out, x.Len, x.Nil)
		} else {
			none(2)
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && d == 0 {
			// the first octets
			for k := int64(0); k < 2; k++ {
				w.out = append(w.out, w.octet(v, k))
			}
		}
	case *types.Interface:
		if x, ok := v.(IfaceV); ok {
			w.out = append(w.out, x.Nil)
		} else {
			none(1)
		}
	case *types.Pointer:
		if x, ok := v.(PtrV); ok {
			w.out = append(w.out, x.Nil)
		} else {
			none(1)
		}
	case *types.Map:
		if x, ok := v.(MapV); ok {
			w.out = append(w.out, x.Nil)
		} else {
			none(1)
		}
	case *types.Struct:
		x, ok := v.(StructV)
		for i := 0; i < u.NumFields(); i++ {
			var f Value
			if ok && i < len(x.F) {
				f = x.F[i]
			}
			w.leaves(u.Field(i).Type(), f, res, d+1)
		}
	}
}

// octet is element k of a slice of bytes, as far as it is known.
func (w *leafWalk) octet(v Value, k int64) Lin {
	if x, ok := v.(SliceV); ok && x.Obj != 0 {
		if o := w.st.obj(x.Obj); o != nil && o.arr != nil {
			if n, ok := w.st.inf(x.Len); o.arr.base == baseInit || ok && n > k {
				if rs := w.st.arrRead(o.arr, x.Off.addc(k)); len(rs) == 1 && rs[0].st == w.st {
					if y, ok := rs[0].v.(IntV); ok {
						return y.L
					}
				}
			}
		}
	}
	return lv(w.e.vs.fresh("octet", 0, 255))
}

// boolLin is the 0/1 variable of a condition of the form v == 1.
func boolLin(e *Eng, b BoolV) Lin {
	if len(b.And) == 1 && !b.Neg && b.And[0].Op == eq && len(b.And[0].L.t) == 1 && b.And[0].L.t[0].c == 1 && b.And[0].L.c == -1 {
		return lv(b.And[0].L.t[0].v)
	}
	return lv(e.vs.fresh("cond", 0, 1))
}

func (p *Prog) loopy(fn *ssa.Function) bool {
	p.loopMu.Lock()
	defer p.loopMu.Unlock()
	return p.loopyRec(fn, map[*ssa.Function]bool{})
}

func (p *Prog) loopyRec(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if r, ok := p.loopMemo[fn]; ok {
		return r
	}
	if seen[fn] {
		return true // recursion
	}
	seen[fn] = true
	r := false
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				r = true
			}
		}
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil && p.inModule(f.Pkg.Pkg) {
					if p.loopyRec(f, seen) {
						r = true
					}
				}
			}
		}
	}
	delete(seen, fn)
	if p.loopMemo == nil {
		p.loopMemo = map[*ssa.Function]bool{}
	}
	p.loopMemo[fn] = r
	return r
}

// summarisable: the function's effect can be expressed by a summary, as far
// as its type tells.
func (p *Prog) summarisable(fn *ssa.Function) bool {
	if fn.Pkg == nil || !p.isLib(fn.Pkg.Pkg.Path()) || fn.Parent() != nil || fn.Synthetic != "" || !isExported(fn) || len(fn.Blocks) == 0 {
		return false
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			switch n.Obj().Name() {
			case "Collector":
				return false
			}
		}
	}
	return p.loopy(fn)
}

type sumCache struct {
	mu sync.Mutex
	m  map[string]*summary
}

func (p *Prog) summaryOf(fn *ssa.Function, e *Eng) *summary {
	key := fn.String()
	p.sums.mu.Lock()
	s := p.sums.m[key]
	p.sums.mu.Unlock()
	if s != nil {
		return s
	}
	if e.sumStack[fn] {
		return &summary{why: "recursive"}
	}
	s = p.summarise(fn, e.sumStack)
	p.sums.mu.Lock()
	if p.sums.m == nil {
		p.sums.m = map[string]*summary{}
	}
	if o := p.sums.m[key]; o != nil {
		s = o
	} else {
		p.sums.m[key] = s
	}
	p.sums.mu.Unlock()
	return s
}

// sumParams lists the trees of the argument leaves: parameters and what
// pointer parameters designate.
func (e *Eng) argLeaves(fn *ssa.Function, args []Value, st *State) []Lin {
	w := &leafWalk{e: e, st: st}
	for i, pr := range fn.Params {
		if pt, ok := pr.Type().Underlying().(*types.Pointer); ok {
			if x, ok := args[i].(PtrV); ok && x.Obj != 0 {
				w.leaves(pt.Elem(), e.peek(st, x), false, 0)
			}
			continue
		}
		w.leaves(pr.Type(), args[i], false, 0)
	}
	return w.out
}

// peek reads what a pointer designates without obligations; nil when unclear.
func (e *Eng) peek(st *State, x PtrV) Value {
	o := st.obj(x.Obj)
	if o == nil || len(x.Path) > 0 && o.kind != okCell || o.kind != okCell {
		return nil
	}
	v := st.cellOf(o)
	for _, pe := range x.Path {
		s, ok := v.(StructV)
		if !ok || pe.Field < 0 || pe.Field >= len(s.F) {
			return nil
		}
		v = s.F[pe.Field]
	}
	return v
}

func (e *Eng) resLeaves(fn *ssa.Function, s *summary, args []Value, ret Value, st *State) []Lin {
	w := &leafWalk{e: e, st: st}
	for i, pr := range fn.Params {
		if pt, ok := pr.Type().Underlying().(*types.Pointer); ok && s.writes[i] {
			if x, ok := args[i].(PtrV); ok && x.Obj != 0 {
				w.leaves(pt.Elem(), e.peek(st, x), true, 0)
			}
		}
	}
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
	case 1:
		w.leaves(rs.At(0).Type(), ret, true, 0)
	default:
		t, _ := ret.(TupleV)
		for i := 0; i < rs.Len(); i++ {
			var v Value
			if i < len(t.E) {
				v = t.E[i]
			}
			w.leaves(rs.At(i).Type(), v, true, 0)
		}
	}
	return w.out
}

func (p *Prog) summarise(fn *ssa.Function, stack map[*ssa.Function]bool) *summary {
	s := &summary{writes: make([]bool, len(fn.Params))}
	bad := func(format string, a ...interface{}) {
		if s.why == "" {
			s.why = fmt.Sprintf(format, a...)
		}
	}
	var args []Value
	setup := func(e *Eng) ([]Value, *State) {
		e.opts.Summ = true
		e.sumStack = map[*ssa.Function]bool{fn: true}
		for f := range stack {
			e.sumStack[f] = true
		}
		e.runInits()
		st := e.newState()
		for i := range fn.Params {
			args = append(args, e.rootArg(fn, i))
		}
		e.hooks.onWrite = func(st *State, fr *Frame, pos token.Pos, obj ObjID, path []PathElem) {
			o := st.obj(obj)
			if o == nil || o.owner.Kind == ownFresh {
				return
			}
			for i, a := range args {
				switch x := a.(type) {
				case PtrV:
					if x.Obj == obj {
						s.writes[i] = true
						return
					}
				case SliceV:
					if x.Obj == obj {
						s.writes[i] = true
						return
					}
				}
			}
			if o.owner.Kind == ownGlobal {
				// package state that can change is unknown to every analysis
				if p.stateVar(o) {
					return
				}
			}
			bad("writes %s at %s", o.owner, p.pos(pos))
		}
		e.hooks.unknownCall = func(fr *Frame, pos token.Pos, what string, st *State) {
			if e.unkSig == nil || !scalarParams(e.unkSig) {
				bad("calls %s", what)
			}
		}
		return args, st
	}
	type oc struct {
		st  *State
		par []Lin
		res []Lin
	}
	after := func(e *Eng, outs []Outcome, args []Value) {
		st0 := e.newState()
		par := e.argLeaves(fn, args, st0)
		groups := map[string][]oc{}
		als := map[string][]int{}
		var keys []string
		// enumerated arguments tell results apart too, and so do empty slices
		// where no error does
		empties := false
		if rs := fn.Signature.Results(); rs.Len() >= 1 && rs.Len() <= 2 {
			_, empties = rs.At(0).Type().Underlying().(*types.Slice)
		}
		enums := func(o Outcome) string {
			k := ""
			for i, pr := range fn.Params {
				if x, ok := args[i].(SliceV); ok && empties {
					if hi, ok := o.st.sup(x.Len); ok && hi == 0 {
						k += fmt.Sprintf("%d:empty;", i)
					}
				}
				if x, ok := args[i].(IntV); ok && enumType(pr.Type()) {
					if lo, ok := o.st.inf(x.L); ok {
						if hi, ok := o.st.sup(x.L); ok && lo == hi {
							k += fmt.Sprintf("%d:%d;", i, lo)
						}
					}
				}
			}
			return k
		}
		keyOf := func(o Outcome, fine bool) string {
			k := e.classKey(fn, o.ret, fine)
			if x, ok := errResult(fn.Signature, o.ret); fine && !(ok && x.Nil.isConst() && x.Nil.c == 0) {
				k += enums(o)
			}
			return k
		}
		fine := true
		distinct := map[string]bool{}
		for _, o := range outs {
			if !o.st.dead {
				distinct[keyOf(o, true)] = true
			}
		}
		fine = len(distinct) <= 8
		for _, o := range outs {
			if o.st.dead {
				continue
			}
			al := resultAlias(o.st, args, o.ret)
			if e.aliasing(fn, args, o, al) {
				s.shares = true
			}
			res := e.resLeaves(fn, s, args, o.ret, o.st)
			k := keyOf(o, fine) + fmt.Sprint(al)
			als[k] = al
			if groups[k] == nil {
				keys = append(keys, k)
			}
			groups[k] = append(groups[k], oc{o.st, par, res})
		}
		sort.Strings(keys)
		for _, k := range keys {
			g := groups[k]
			np, nr := len(par), len(g[0].res)
			c := sumClass{alias: als[k]}
			try := func(f sumForm) bool {
				m := int64(posInf)
				for _, o := range g {
					x := Lin{}
					for i, l := range f.leaf {
						v := Lin{}
						if l < np {
							v = o.par[l]
						} else {
							v = o.res[l-np]
						}
						x = x.add(v.scale(f.coef[i]))
					}
					b, ok := o.st.inf(x)
					if !ok || b < -(1<<41) {
						return false
					}
					if b < m {
						m = b
					}
				}
				if m > 1<<41 {
					return false
				}
				f.c = -m
				c.forms = append(c.forms, f)
				return true
			}
			for r := 0; r < nr; r++ {
				try(sumForm{leaf: []int{np + r}, coef: []int64{1}})
				try(sumForm{leaf: []int{np + r}, coef: []int64{-1}})
			}
			if nr*np <= 240 {
				for r := 0; r < nr; r++ {
					for q := 0; q < np; q++ {
						for _, m := range [][2]int64{{1, 1}, {2, 1}, {1, 2}, {1, 4}, {8, 7}, {7, 8}} {
							try(sumForm{leaf: []int{np + r, q}, coef: []int64{m[0], -m[1]}})
							try(sumForm{leaf: []int{np + r, q}, coef: []int64{-m[0], m[1]}})
						}
						for q2 := 0; q2 < np && np <= 6; q2++ {
							if q2 != q {
								for _, m := range [][2]int64{{8, 7}, {7, 8}} {
									try(sumForm{leaf: []int{np + r, q, q2}, coef: []int64{m[0], -m[1], -1}})
									try(sumForm{leaf: []int{np + r, q, q2}, coef: []int64{-m[0], m[1], 1}})
									try(sumForm{leaf: []int{np + r, q, q2}, coef: []int64{m[0], -m[1], 1}})
									try(sumForm{leaf: []int{np + r, q, q2}, coef: []int64{-m[0], m[1], -1}})
								}
							}
						}
					}
				}
			}
			if nr <= 8 {
				for a := 0; a < nr; a++ {
					for b := 0; b < nr; b++ {
						if a != b {
							try(sumForm{leaf: []int{np + a, np + b}, coef: []int64{1, -1}})
							try(sumForm{leaf: []int{np + a, np + b}, coef: []int64{2, -1}})
							try(sumForm{leaf: []int{np + a, np + b}, coef: []int64{-2, 1}})
						}
					}
				}
			}
			c.forms = e.pruneForms(s, c.forms, par, g[0].res, fn)
			s.classes = append(s.classes, c)
		}
		s.ok = s.why == ""
	}
	res := p.runRoot(Root{fn, fname(fn)}, setup, after)
	for _, x := range res.log {
		if x.site.kind == "undecided" {
			s.ok = false
			bad("undecided: %s", x.site.what)
		}
	}
	return s
}

// stateVar: a package-level variable that is not constant.
func (p *Prog) stateVar(o *Object) bool {
	for g := range p.mutableGlobals() {
		if strings.HasSuffix(o.owner.Name, g.Name()) || strings.Contains(o.owner.Name, g.Name()+".") || strings.Contains(o.owner.Name, g.Name()+"[") {
			return true
		}
	}
	return false
}

// classKey groups outcomes by which results are nil, and boolean results.
// Small integers returned without an error tell results apart too, if fine.
func (e *Eng) classKey(fn *ssa.Function, ret Value, fine bool) string {
	if x, ok := errResult(fn.Signature, ret); ok && !(x.Nil.isConst() && x.Nil.c == 1) {
		fine = false
	}
	vs := []Value{ret}
	if t, ok := ret.(TupleV); ok {
		vs = t.E
	}
	k := ""
	for _, v := range vs {
		switch x := v.(type) {
		case IfaceV:
			k += nilKey(x.Nil)
		case PtrV:
			k += nilKey(x.Nil)
		case BoolV:
			if x.Const {
				k += fmt.Sprint(x.Val)
			} else {
				k += "?"
			}
		case IntV:
			if fine && x.L.isConst() && x.L.c >= 0 && x.L.c < 16 {
				k += fmt.Sprint(x.L.c)
			}
		}
		k += ","
	}
	return k
}

func nilKey(l Lin) string {
	if l.isConst() {
		return fmt.Sprint(l.c)
	}
	return "?"
}

// aliasing: a result refers to memory that existed before the call.
func (e *Eng) aliasing(fn *ssa.Function, args []Value, o Outcome, al []int) bool {
	return e.aliasingOf(fn, args, o, al, func(ob *Object) bool { return ob.owner.Kind == ownParam })
}

// aliasingOf: the results, or what was assigned through pointer arguments, may
// refer to memory of the objects selected.
func (e *Eng) aliasingOf(fn *ssa.Function, args []Value, o Outcome, al []int, sel func(ob *Object) bool) bool {
	found := false
	seen := map[ObjID]bool{}
	own := "" // the parameter whose own memory does not count
	var visit func(v Value, d int)
	visit = func(v Value, d int) {
		if x, ok := v.(SliceV); ok {
			if m, ok := o.st.sup(x.Cap); ok && m == 0 {
				return
			}
		}
		if x, ok := v.(StructV); ok {
			for _, f := range x.F {
				visit(f, d)
			}
			return
		}
		refs(v, func(id ObjID) {
			if id == 0 || seen[id] || found {
				return
			}
			seen[id] = true
			ob := o.st.obj(id)
			if ob == nil {
				return
			}
			if ob.kind == okGhost || ob.kind == okMap {
				return
			}
			if sel(ob) && (own == "" || !ownedBy(ob, own)) {
				found = true
				return
			}
			for _, a := range ob.alias {
				if ao := o.st.obj(a); ao != nil && sel(ao) && (own == "" || !ownedBy(ao, own)) {
					found = true
					return
				}
			}
			if d > 4 {
				return
			}
			if ob.cell != nil {
				visit(ob.cell, d+1)
			}
			if ob.arr != nil {
				if x := ob.arr.owner; x != nil && hasRefs(ob.arr.elem) {
					// elements that are not told apart
					po := &Object{kind: okArray, owner: x, typ: ob.arr.elem}
					if sel(po) && (own == "" || !ownedBy(po, own)) {
						found = true
						return
					}
				}
				for i := range ob.arr.ovs {
					if ob.arr.ovs[i].V != nil {
						visit(ob.arr.ovs[i].V, d+1)
					}
				}
			}
		})
	}
	vs := []Value{o.ret}
	if t, ok := o.ret.(TupleV); ok {
		vs = t.E
	}
	for i, v := range vs {
		if al[i] != 0 {
			continue
		}
		if x, ok := v.(IfaceV); ok && (x.Typ == nil || x.Typ.String() == "error") {
			continue
		}
		visit(v, 0)
	}
	for i, a := range args {
		if x, ok := a.(PtrV); ok && x.Obj != 0 {
			if v := e.peek(o.st, x); v != nil && o.st.mem[x.Obj] != nil {
				// fields that were not assigned keep their memory, and what
				// was reachable from the argument may stay so
				own, seen = fn.Params[i].Name(), map[ObjID]bool{}
				w := e.peek(&State{e: e}, x)
				if w != nil && valKey(w) == valKey(v) {
					continue
				}
				visitChanged(v, w, func(y Value) { visit(y, 0) })
			}
		}
	}
	return found
}

func visitChanged(v, w Value, f func(Value)) {
	a, ok1 := v.(StructV)
	b, ok2 := w.(StructV)
	if ok1 && ok2 && len(a.F) == len(b.F) {
		for i := range a.F {
			visitChanged(a.F[i], b.F[i], f)
		}
		return
	}
	if w != nil && valKey(v) == valKey(w) {
		return
	}
	f(v)
}

// callSummary applies a summary at a call.
func (e *Eng) callSummary(fr *Frame, c ssa.CallInstruction, fn *ssa.Function, s *summary, args []Value, st *State) []Outcome {
	e.stats.summaries++
	p := &ps{st: st}
	pos := token.NoPos
	if c != nil {
		pos = c.Pos()
	}
	par := e.argLeaves(fn, args, st)
	for i, a := range args {
		if x, ok := a.(PtrV); ok {
			if !e.oblige(p, fr, pos, "nil", "pointer argument of "+fn.Name()+" must not be nil", Con{x.Nil, eq}) {
				return nil
			}
		}
		if r, ok := argRange[fname(fn)][i]; ok {
			if x, ok := a.(IntV); ok {
				if !e.oblige(p, fr, pos, "range", fmt.Sprintf("argument %d of %s at least %d", i, fn.Name(), r[0]), Con{x.L.addc(-r[0]), ge}) ||
					!e.oblige(p, fr, pos, "range", fmt.Sprintf("argument %d of %s at most %d", i, fn.Name(), r[1]), Con{x.L.neg().addc(r[1]), ge}) {
					return nil
				}
			}
		}
	}
	st = p.st
	var outs []Outcome
	for k, cl := range s.classes {
		q := st
		if k < len(s.classes)-1 {
			q = st.clone()
		}
		for i, a := range args {
			switch x := a.(type) {
			case PtrV:
				if pt, ok := fn.Params[i].Type().Underlying().(*types.Pointer); ok && x.Obj != 0 && s.writes[i] {
					owner := freshOwner
					if s.shares {
						owner = &Owner{Kind: ownParam, Name: "arguments of " + fn.Name()}
					}
					v := e.newSym(pt.Elem(), "after "+fn.Name(), owner, false)
					e.onWrite(q, fr, pos, x.Obj, x.Path)
					q.store(x, v)
				}
			case SliceV:
				if s.writes[i] && x.Obj != 0 {
					e.onWrite(q, fr, pos, x.Obj, nil)
					o := *q.obj(x.Obj)
					a := *o.arr
					a.ovs = append(append([]Ov(nil), a.ovs...), Ov{Lo: x.Off, Hi: x.Off.add(x.Len), K: ovUnknown})
					o.arr = &a
					q.mem[o.id] = &o
				}
			}
		}
		ret := e.sumResult(fn, s)
		ret = aliasResult(e, cl, args, ret)
		res := e.resLeaves(fn, s, args, ret, q)
		np := len(par)
		ok := true
		for _, f := range cl.forms {
			x := lc(f.c)
			for i, l := range f.leaf {
				var v Lin
				if l < np {
					v = par[l]
				} else if l-np < len(res) {
					v = res[l-np]
				} else {
					x = Lin{}
					break
				}
				x = x.add(v.scale(f.coef[i]))
			}
			if !q.add(Con{x, ge}) {
				ok = false
				break
			}
		}
		if !ok || q.dead || !e.vs.feasible(q.cs.all, lc(0)) {
			continue
		}
		ret = sharpen(q, ret)
		q.note("%s: result class %d of %s", e.p.pos(pos), k, fn.Name())
		outs = append(outs, Outcome{q, ret})
	}
	return outs
}

// sumResult is an unknown result.
func (e *Eng) sumResult(fn *ssa.Function, s *summary) Value {
	rs := fn.Signature.Results()
	one := func(t types.Type, name string) Value {
		owner := freshOwner
		if s.shares {
			owner = &Owner{Kind: ownParam, Name: "arguments of " + fn.Name()}
		} else if !scalarSlice(t) {
			owner = &Owner{Kind: ownUnknown, Name: "result of " + fn.Name()}
		}
		return e.newSym(t, name, owner, false)
	}
	switch rs.Len() {
	case 0:
		return TupleV{}
	case 1:
		return one(rs.At(0).Type(), fn.Name()+"()")
	}
	t := TupleV{}
	for i := 0; i < rs.Len(); i++ {
		t.E = append(t.E, one(rs.At(i).Type(), fmt.Sprintf("%s()#%d", fn.Name(), i)))
	}
	return t
}

func scalarSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		_, isStr := t.Underlying().(*types.Struct)
		return !isStr
	}
	_, ok = s.Elem().Underlying().(*types.Basic)
	return ok
}

// sharpen replaces nil flags and truth values that the constraints decide.
func sharpen(st *State, v Value) Value {
	fix := func(l Lin) Lin {
		if l.isConst() {
			return l
		}
		if lo, ok := st.inf(l); ok {
			if hi, ok := st.sup(l); ok && lo == hi {
				return lc(lo)
			}
		}
		return l
	}
	switch x := v.(type) {
	case TupleV:
		n := TupleV{E: make([]Value, len(x.E))}
		for i := range x.E {
			n.E[i] = sharpen(st, x.E[i])
		}
		return n
	case IfaceV:
		x.Nil = fix(x.Nil)
		return x
	case PtrV:
		x.Nil = fix(x.Nil)
		return x
	case MapV:
		x.Nil = fix(x.Nil)
		return x
	case BoolV:
		switch st.decide(x) {
		case 1:
			return bconst(true)
		case 0:
			return bconst(false)
		}
		return x
	case SliceV:
		x.Nil = fix(x.Nil)
		if x.Nil.isConst() && x.Nil.c == 1 {
			return nilSlice(x.Elem)
		}
		return x
	}
	return v
}

// precompute builds the summaries bottom up.
func (p *Prog) precompute() {
	level := map[*ssa.Function]int{}
	var lvl func(f *ssa.Function, seen map[*ssa.Function]bool) int
	lvl = func(f *ssa.Function, seen map[*ssa.Function]bool) int {
		if n, ok := level[f]; ok {
			return n
		}
		if seen[f] {
			return 0
		}
		seen[f] = true
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && p.inModule(g.Pkg.Pkg) {
						if m := lvl(g, seen) + 1; m > n {
							n = m
						}
					}
				}
			}
		}
		delete(seen, f)
		level[f] = n
		return n
	}
	by := map[int][]*ssa.Function{}
	max := 0
	for _, f := range p.fns {
		if p.summarisable(f) {
			n := lvl(f, map[*ssa.Function]bool{})
			by[n] = append(by[n], f)
			if n > max {
				max = n
			}
		}
	}
	for n := 0; n <= max; n++ {
		fs := by[n]
		parallel(len(fs), func(i int) {
			p.summaryOf(fs[i], &Eng{p: p})
		})
	}
}

// pruneForms drops inequalities that follow from the others and from the
// types of the leaves.
func (e *Eng) pruneForms(s *summary, fs []sumForm, par, res []Lin, fn *ssa.Function) []sumForm {
	// stand-ins for the leaves
	vs := e.vs
	np := len(par)

	var args []Value
	for i := range fn.Params {
		args = append(args, e.rootArg(fn, i))
	}
	st := e.newState()
	pl := e.argLeaves(fn, args, st)
	ret := e.sumResult(fn, s)
	rl := e.resLeaves(fn, s, args, ret, st)

	if len(pl) != np || len(rl) != len(res) {
		return fs
	}
	// pointees are both argument and result: different values
	for i := range rl {
		lo, hi := vs.ival(rl[i])
		rl[i] = lv(vs.fresh("res", lo, hi))
	}
	lin := func(f sumForm) Lin {
		x := lc(f.c)
		for i, l := range f.leaf {
			if l < np {
				x = x.add(pl[l].scale(f.coef[i]))
			} else {
				x = x.add(rl[l-np].scale(f.coef[i]))
			}
		}
		return x
	}
	var keep []sumForm
	// unary first (they are listed first), equalities before inequalities
	order := append([]sumForm(nil), fs...)
	sort.SliceStable(order, func(i, j int) bool { return len(order[i].leaf) < len(order[j].leaf) })
	var cur []Con
	for _, f := range order {
		x := lin(f)
		if lo, _ := vs.ival(x); lo >= 0 {
			continue
		}
		if b, ok := vs.inf(cur, x); ok && b >= 0 {
			continue
		}
		keep = append(keep, f)
		cur = append(cur, Con{x, ge})
	}
	// drop those implied by later ones
	for i := len(keep) - 1; i >= 0; i-- {
		var o []Con
		for j := range keep {
			if j != i {
				o = append(o, Con{lin(keep[j]), ge})
			}
		}
		if b, ok := vs.inf(o, lin(keep[i])); ok && b >= 0 {
			keep = append(keep[:i:i], keep[i+1:]...)
		}
	}
	return keep
}

// scalarParams: a call with this signature cannot reach the caller's memory.
func scalarParams(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	return true
}
