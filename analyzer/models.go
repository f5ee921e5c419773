package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dispatch performs a call.
func (e *Eng) dispatch(fr *Frame, c ssa.CallInstruction, fv Value, args []Value, st *State) []Outcome {
	cc := c.Common()
	pos := c.Pos()
	q := &ps{st: st}
	if cc.IsInvoke() {
		v, ok := fv.(IfaceV)
		if !ok {
			e.fail("method call on %T at %s", fv, e.p.pos(pos))
		}
		if !e.oblige(q, fr, pos, "nil", "interface in method call must not be nil", Con{v.Nil, eq}) {
			return nil
		}
		return e.invoke(fr, c, v, cc.Method, args, q.st)
	}
	f, ok := fv.(FuncV)
	if !ok {
		e.fail("call of %T at %s", fv, e.p.pos(pos))
	}
	if f.Built != nil {
		return e.builtin(fr, c, f.Built.Name(), args, st)
	}
	if f.Fn != nil {
		return e.callKnown(fr, c, f.Fn, args, f.Bind, st)
	}
	if !e.oblige(q, fr, pos, "nil", "function called must not be nil", Con{f.Nil, eq}) {
		return nil
	}
	st = q.st
	sig := cc.Signature()
	if e.closedSig(sig) {
		return e.callCandidates(fr, c, sig, args, st)
	}
	if e.hooks.dynCall != nil {
		e.hooks.dynCall(fr, pos, args, st)
	}
	if e.hooks.unknownCall != nil {
		e.unkSig = sig
		e.hooks.unknownCall(fr, pos, "function value of type "+sig.String(), st)
	}
	e.havocArgs(st, sig, args)
	return []Outcome{{st, e.havocResult(sig, "callback")}}
}

// closedSig: only module code can supply a function of this signature.
func (e *Eng) closedSig(sig *types.Signature) bool {
	found := false
	var walk func(t types.Type, d int)
	walk = func(t types.Type, d int) {
		if d > 4 || found {
			return
		}
		switch u := t.(type) {
		case *types.Named:
			if u.Obj().Pkg() != nil && e.p.inModule(u.Obj().Pkg()) && !u.Obj().Exported() {
				found = true
			}
		case *types.Pointer:
			walk(u.Elem(), d+1)
		case *types.Slice:
			walk(u.Elem(), d+1)
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		walk(sig.Params().At(i).Type(), 0)
	}
	for i := 0; i < sig.Results().Len(); i++ {
		walk(sig.Results().At(i).Type(), 0)
	}
	return found
}

// callCandidates calls every module function of the signature whose address
// is taken.
func (e *Eng) callCandidates(fr *Frame, c ssa.CallInstruction, sig *types.Signature, args []Value, st *State) []Outcome {
	var outs []Outcome
	n := 0
	for _, fn := range e.p.addrTaken() {
		if !types.Identical(types.NewSignatureType(nil, nil, nil, fn.Signature.Params(), fn.Signature.Results(), fn.Signature.Variadic()),
			types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) || fn.Signature.Recv() != nil {
			continue
		}
		n++
		var bind []Value
		for _, fvr := range fn.FreeVars {
			bind = append(bind, e.symBinding(fvr))
		}
		outs = append(outs, e.callKnown(fr, c, fn, args, bind, st.clone())...)
	}
	if n == 0 {
		e.fail("no function of type %s at %s", sig, e.p.pos(c.Pos()))
	}
	return outs
}

func (e *Eng) symBinding(fv *ssa.FreeVar) Value {
	if pt, ok := fv.Type().(*types.Pointer); ok {
		v := e.newSym(pt, fv.Name(), freshOwner, true).(PtrV)
		o := *e.initObj[v.Obj]
		if o.kind == okCell {
			o.cell = e.newSym(pt.Elem(), fv.Name(), &Owner{Kind: ownParam, Name: fv.Name()}, true)
			e.initObj[v.Obj] = &o
		}
		return v
	}
	return e.newSym(fv.Type(), fv.Name(), &Owner{Kind: ownParam, Name: fv.Name()}, true)
}

// addrTaken lists the module functions used as values.
func (p *Prog) addrTaken() []*ssa.Function {
	if p.taken != nil {
		return p.taken
	}
	seen := map[*ssa.Function]bool{}
	note := func(v ssa.Value) {
		switch x := v.(type) {
		case *ssa.Function:
			if len(x.Blocks) > 0 && x.Pkg != nil && p.inModule(x.Pkg.Pkg) {
				seen[x] = true
			}
		case *ssa.MakeClosure:
			seen[x.Fn.(*ssa.Function)] = true
		}
	}
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					seen[mc.Fn.(*ssa.Function)] = true
				}
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil && *op != callee {
						note(*op)
					}
				}
				if callee != nil {
					for _, a := range in.(ssa.CallInstruction).Common().Args {
						note(a)
					}
				}
			}
		}
	}
	for f := range seen {
		p.taken = append(p.taken, f)
	}
	sort.Slice(p.taken, func(i, j int) bool { return p.taken[i].Pos() < p.taken[j].Pos() })
	return p.taken
}

func (e *Eng) invoke(fr *Frame, c ssa.CallInstruction, v IfaceV, m *types.Func, args []Value, st *State) []Outcome {
	sig := m.Type().(*types.Signature)
	if v.Dyn == errorStringType {
		return []Outcome{{st, e.havocResult(sig, "Error()")}}
	}
	if v.Dyn != nil {
		fn := e.p.ssa.LookupMethod(v.Dyn, m.Pkg(), m.Name())
		if fn == nil {
			e.fail("no method %s of %s", m.Name(), v.Dyn)
		}
		return e.callKnown(fr, c, fn, append([]Value{v.Val}, args...), nil, st)
	}
	if !m.Exported() && e.p.inModule(m.Pkg()) {
		var outs []Outcome
		impls := e.p.implementers(v.Typ, m)
		if len(impls) == 0 {
			e.fail("no implementation of %s", m.FullName())
		}
		for _, t := range impls {
			excluded := false
			for _, n := range v.Not {
				if types.Identical(n, t) {
					excluded = true
				}
			}
			if excluded {
				continue
			}
			fn := e.p.ssa.LookupMethod(t, m.Pkg(), m.Name())
			key := fmt.Sprintf("as%d:%s", v.ID, t.String())
			rv, ok := e.asserted[key]
			if !ok {
				rv = e.newSym(t, "impl", &Owner{Kind: ownParam, Name: "option"}, true)
				e.asserted[key] = rv
			}
			outs = append(outs, e.callKnown(fr, c, fn, append([]Value{rv}, args...), nil, st.clone())...)
		}
		return outs
	}
	if e.hooks.unknownCall != nil {
		e.unkSig = sig
		e.hooks.unknownCall(fr, c.Pos(), "method "+m.FullName(), st)
	}
	if e.hooks.dynInvoke != nil {
		e.hooks.dynInvoke(fr, c.Pos(), args, st)
	}
	e.havocArgs(st, sig, args)
	return []Outcome{{st, e.havocResult(sig, m.Name()+"()")}}
}

// implementers of an interface with unexported methods: module types only.
func (p *Prog) implementers(it types.Type, m *types.Func) []types.Type {
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	for _, q := range p.order {
		sc := q.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if types.IsInterface(t) {
				continue
			}
			if types.Implements(t, iface) {
				out = append(out, t)
			} else if types.Implements(types.NewPointer(t), iface) {
				out = append(out, types.NewPointer(t))
			}
		}
	}
	return out
}

var callbackOwner = &Owner{Kind: ownUnknown, Name: "set by an option or callback"}

// havocArgs forgets what an unknown callee may change: the memory its pointer
// arguments designate.
func (e *Eng) havocArgs(st *State, sig *types.Signature, args []Value) {
	for i, a := range args {
		p, ok := a.(PtrV)
		if !ok || p.Obj == 0 {
			continue
		}
		var t types.Type
		if k := sig.Params().Len(); i < k {
			t = sig.Params().At(i).Type()
		}
		pt, ok := t.(*types.Pointer)
		if !ok {
			continue
		}
		v := e.newSym(pt.Elem(), "altered by callee", callbackOwner, false)
		v = nonNilIfaces(v)
		// fields that the module never assigns and others cannot
		if w, ok := v.(StructV); ok {
			if old, ok := e.peek(st, p).(StructV); ok && len(old.F) == len(w.F) {
				for i := range w.F {
					if e.p.neverWritten(pt.Elem(), i) {
						w.F[i] = old.F[i]
					}
				}
			}
		}
		st.store(p, v)
	}
}

func nonNilIfaces(v Value) Value {
	switch x := v.(type) {
	case StructV:
		n := StructV{F: append([]Value(nil), x.F...)}
		for i := range n.F {
			if fi, ok := n.F[i].(IfaceV); ok && fi.Typ != nil && fi.Typ.String() == "error" {
				continue
			}
			n.F[i] = nonNilIfaces(n.F[i])
		}
		return n
	case IfaceV:
		x.Nil = Lin{}
		return x
	}
	return v
}

func (e *Eng) havocResult(sig *types.Signature, name string) Value {
	return e.havocResultT(sig, name, false)
}

func (e *Eng) havocResultT(sig *types.Signature, name string, top bool) Value {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return TupleV{}
	case 1:
		return e.newSym(r.At(0).Type(), name, freshOwner, top)
	}
	t := TupleV{}
	for i := 0; i < r.Len(); i++ {
		t.E = append(t.E, e.newSym(r.At(i).Type(), fmt.Sprintf("%s#%d", name, i), freshOwner, false))
	}
	return t
}

// callKnown calls a resolved function: module code is interpreted, library
// functions are modelled.
func (e *Eng) callKnown(fr *Frame, c ssa.CallInstruction, fn *ssa.Function, args, bind []Value, st *State) []Outcome {
	outs := e.callKnown1(fr, c, fn, args, bind, st)
	if e.hooks.called != nil && !e.initRun {
		for _, o := range outs {
			if !o.st.dead {
				e.hooks.called(fr, fn, o)
			}
		}
	}
	return outs
}

func (e *Eng) callKnown1(fr *Frame, c ssa.CallInstruction, fn *ssa.Function, args, bind []Value, st *State) []Outcome {
	if e.hooks.call != nil {
		if outs, ok := e.hooks.call(fr, c, fn, args, st); ok {
			return outs
		}
	}
	if isHarness(fn) {
		if outs, ok := e.prim(fr, c, fn, args, st); ok {
			return outs
		}
	}
	inMod := fn.Pkg != nil && e.p.inModule(fn.Pkg.Pkg)
	if fn.Pkg == nil && len(fn.Blocks) > 0 {
		// wrappers, bound methods, thunks and instantiations
		if o := fn.Object(); o == nil || o.Pkg() == nil || e.p.inModule(o.Pkg()) || fn.Synthetic != "" {
			inMod = true
		}
	}
	if inMod && len(fn.Blocks) > 0 {
		if e.opts.Modular != nil && fr != nil && e.opts.Modular(fn) {
			return e.modular(fr, fn, args, st)
		}
		if e.opts.Summ && fr != nil && !e.initRun && (e.opts.Inline == nil || !e.opts.Inline(fn)) && e.p.summarisable(fn) {
			if s := e.p.summaryOf(fn, e); s.ok {
				return e.callSummary(fr, c, fn, s, args, st)
			}
		}
		return e.callFunc(fr, fn, args, bind, st, c)
	}
	return e.external(fr, c, fn, args, st)
}

// modular replaces a module function by its signature: it is analysed on its
// own, for every argument.
func (e *Eng) modular(fr *Frame, fn *ssa.Function, args []Value, st *State) []Outcome {
	sig := fn.Signature
	off := 0
	if sig.Recv() != nil {
		off = 1
		if p, ok := args[0].(PtrV); ok && p.Obj != 0 {
			if pt, ok := sig.Recv().Type().(*types.Pointer); ok {
				st.store(p, e.newSym(pt.Elem(), "receiver of "+fn.Name(), freshOwner, false))
			}
		}
	}
	e.havocArgs(st, sig, args[off:])
	v := e.havocResult(sig, fn.Name()+"()")
	if m, ok := v.(MapV); ok {
		m.Nil = Lin{}
		v = m
	}
	return []Outcome{{st, v}}
}

// ---- builtins

func (e *Eng) builtin(fr *Frame, c ssa.CallInstruction, name string, args []Value, st *State) []Outcome {
	cc := c.Common()
	pos := c.Pos()
	ret := func(s *State, v Value) []Outcome { return []Outcome{{s, v}} }
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case SliceV:
			if name == "cap" {
				return ret(st, iv(x.Cap))
			}
			return ret(st, iv(x.Len))
		case StrV:
			return ret(st, iv(x.Len))
		case MapV:
			if x.Obj == 0 {
				return ret(st, ic(0))
			}
			e.onLoad(st, fr, pos, x.Obj, nil)
			o := st.obj(x.Obj)
			if !o.mp.unknown {
				ks := map[string]bool{}
				all := true
				for i, k := range o.mp.keys {
					if kv, ok := k.(IntV); ok && kv.L.isConst() {
						if o.mp.vals[i] == nil {
							delete(ks, k.(IntV).L.key())
						} else {
							ks[kv.L.key()] = true
						}
					} else {
						all = false
					}
				}
				if all {
					return ret(st, ic(int64(len(ks))))
				}
			}
			return ret(st, iv(lv(e.vs.fresh("len(map)", 0, lenMax))))
		case ArrV:
			return ret(st, ic(cc.Args[0].Type().Underlying().(*types.Array).Len()))
		case PtrV:
			return ret(st, ic(cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		}
		return ret(st, iv(lv(e.vs.fresh(name, 0, lenMax))))
	case "append":
		a, ok := args[0].(SliceV)
		if !ok {
			e.fail("append to %T", args[0])
		}
		if len(args) == 1 {
			return ret(st, a)
		}
		switch b := args[1].(type) {
		case SliceV:
			var src *Arr
			if b.Obj != 0 {
				src = st.obj(b.Obj).arr
			}
			return e.doAppend(fr, pos, st, a, b.Len, src, b.Off)
		case StrV:
			return e.doAppend(fr, pos, st, a, b.Len, b.Bytes, b.Off)
		}
		e.fail("append of %T", args[1])
	case "copy":
		d, ok := args[0].(SliceV)
		if !ok {
			e.fail("copy to %T", args[0])
		}
		var n, off Lin
		var src *Arr
		switch b := args[1].(type) {
		case SliceV:
			n, off = b.Len, b.Off
			if b.Obj != 0 {
				src = st.obj(b.Obj).arr
			}
		case StrV:
			n, off, src = b.Len, b.Off, b.Bytes
		}
		var outs []Outcome
		yes, no := st.splitCon(Con{d.Len.sub(n), ge})
		do := func(s *State, k Lin) {
			if d.Obj != 0 && src != nil && !s.entails(Con{k, eq}) {
				e.onWrite(s, fr, pos, d.Obj, nil)
				s.arrStore(s.obj(d.Obj), Ov{Lo: d.Off, Hi: d.Off.add(k), K: ovCopy, Src: src, Delta: off.sub(d.Off)})
			}
			outs = append(outs, Outcome{s, iv(k)})
		}
		for _, s := range yes {
			do(s, n)
		}
		for _, s := range no {
			do(s, d.Len)
		}
		return outs
	case "delete":
		m, ok := args[0].(MapV)
		if !ok || m.Obj == 0 {
			return ret(st, TupleV{})
		}
		e.onWrite(st, fr, pos, m.Obj, nil)
		if e.hooks.mapKey != nil {
			e.hooks.mapKey(st, fr, pos, m, args[1], nil, "delete")
		}
		o := *st.obj(m.Obj)
		mc := *o.mp
		mc.keys = append(append([]Value(nil), mc.keys...), args[1])
		mc.vals = append(append([]Value(nil), mc.vals...), nil)
		mc.sum = nil
		o.mp = &mc
		st.put(&o)
		return ret(st, TupleV{})
	case "min", "max":
		cur := args[0]
		if _, ok := cur.(IntV); !ok {
			return ret(st, e.newSym(c.Value().Type(), name, freshOwner, false))
		}
		outs := []Outcome{{st, cur}}
		for _, b := range args[1:] {
			var next []Outcome
			for _, o := range outs {
				x, y := o.ret.(IntV), b.(IntV)
				yes, no := o.st.splitCon(Con{y.L.sub(x.L), ge}) // x <= y
				if name == "max" {
					yes, no = no, yes
				}
				for _, s := range yes {
					next = append(next, Outcome{s, x})
				}
				for _, s := range no {
					next = append(next, Outcome{s, y})
				}
			}
			outs = next
		}
		return outs
	case "clear":
		switch x := args[0].(type) {
		case MapV:
			if x.Obj != 0 {
				e.onWrite(st, fr, pos, x.Obj, nil)
				o := *st.obj(x.Obj)
				o.mp = &MapC{}
				st.put(&o)
			}
		case SliceV:
			if x.Obj != 0 {
				e.onWrite(st, fr, pos, x.Obj, nil)
				st.arrStore(st.obj(x.Obj), Ov{Lo: x.Off, Hi: x.Off.add(x.Len), K: ovCopy, Src: &Arr{base: baseZero, elem: x.Elem, owner: freshOwner}})
			}
		}
		return ret(st, TupleV{})
	case "print", "println":
		return ret(st, TupleV{})
	case "recover":
		return ret(st, nilIface())
	case "ssa:wrapnilchk":
		q := &ps{st: st}
		if p, ok := args[0].(PtrV); ok {
			if !e.oblige(q, fr, pos, "nil", "pointer receiver must not be nil", Con{p.Nil, eq}) {
				return nil
			}
		}
		return ret(q.st, args[0])
	}
	e.fail("builtin %s", name)
	return nil
}

// doAppend models append(a, b...), with b given by length and content.
func (e *Eng) doAppend(fr *Frame, pos token.Pos, st *State, a SliceV, n Lin, src *Arr, soff Lin) []Outcome {
	if st.entails(Con{n, eq}) {
		return []Outcome{{st, a}}
	}
	if src == nil {
		src = &Arr{base: baseUnknown, elem: a.Elem, owner: freshOwner}
	}
	start := a.Off.add(a.Len)
	nl := a.Len.add(n)
	end := a.Off.add(nl)
	some := st.entails(Con{n.addc(-1), ge}) // at least one element
	nilL := a.Nil
	if some {
		nilL = Lin{}
	} else if !nilL.isConst() || nilL.c != 0 {
		z := e.vs.fresh("nil", 0, 1)
		st.add(Con{a.Nil.sub(lv(z)), ge})
		st.add(Con{lv(z).sub(a.Nil).add(n), ge})
		nilL = lv(z)
	}
	ovs := func(arr *Arr) *Arr {
		if n.isConst() && n.c <= 16 && (len(src.ovs) > 0 || src.base == baseStr) && n.c > 0 {
			// element by element when the source is explicit
			all := true
			var vals []Value
			for i := int64(0); i < n.c; i++ {
				v, ok := explicitElem(src, soff.addc(i))
				if !ok {
					all = false
					break
				}
				vals = append(vals, v)
			}
			if all {
				for i, v := range vals {
					arr = arr.with(Ov{Lo: start.addc(int64(i)), Hi: start.addc(int64(i) + 1), K: ovSingle, V: v})
				}
				return arr
			}
		}
		return arr.with(Ov{Lo: start, Hi: end, K: ovCopy, Src: src, Delta: soff.sub(start)})
	}
	if a.Obj != 0 && st.leq(nl, a.Cap) {
		e.onWrite(st, fr, pos, a.Obj, []PathElem{{Field: -1, Idx: start}})
		o := st.obj(a.Obj)
		m := *o
		old := o.arr
		m.arr = ovs(old)
		st.setObj(&m)
		for _, al := range o.alias {
			if ao := st.obj(al); ao != nil {
				k := *ao
				k.arr = ao.arr.with(Ov{Lo: start, Hi: end, K: ovUnknown})
				st.setObj(&k)
			}
		}
		return []Outcome{{st, SliceV{Obj: a.Obj, Off: a.Off, Len: nl, Cap: a.Cap, Nil: nilL, Elem: a.Elem}}}
	}
	no := e.newObj(okArray, a.Elem, freshOwner, "append at "+e.p.pos(pos))
	base := &Arr{base: baseZero, elem: a.Elem, owner: freshOwner, name: no.site}
	var old *Object
	if a.Obj != 0 {
		old = st.obj(a.Obj)
		if !st.entails(Con{a.Len, eq}) {
			base = old.arr
		}
	}
	no.arr = ovs(base)
	c := e.vs.fresh("cap", 0, lenMax*2)
	st.add(Con{lv(c).sub(nl), ge})
	grown := a.Obj == 0 || st.lt(a.Cap, nl)
	if !grown {
		if old.owner.Kind != ownFresh {
			no.owner = old.owner
		}
		// the write may land in the old backing array, if there is room for
		// at least one element
		if e.hooks.onWrite != nil {
			some := st.clone()
			some.add(Con{n.addc(-1), ge})
			if some.add(Con{a.Cap.sub(nl), ge}) && some.assume(Con{n.addc(-1), ge}) {
				e.onWrite(some, fr, pos, a.Obj, []PathElem{{Field: -1, Idx: start}})
			}
		}
		m := *old
		m.arr = old.arr.with(Ov{Lo: start, Hi: end, K: ovUnknown})
		no.alias = append([]ObjID{a.Obj}, old.alias...)
		no.aliasCap = append([]Lin{lc(lenMax * 2)}, old.aliasCap...)
		m.alias = append(append([]ObjID(nil), old.alias...), no.id)
		m.aliasCap = append(append([]Lin(nil), old.aliasCap...), lc(lenMax*2))
		st.setObj(&m)
		for _, al := range old.alias {
			if ao := st.obj(al); ao != nil {
				k := *ao
				k.arr = ao.arr.with(Ov{Lo: start, Hi: end, K: ovUnknown})
				k.alias = append(append([]ObjID(nil), ao.alias...), no.id)
				k.aliasCap = append(append([]Lin(nil), ao.aliasCap...), lc(lenMax*2))
				st.setObj(&k)
			}
		}
	}
	st.put(no)
	return []Outcome{{st, SliceV{Obj: no.id, Off: a.Off, Len: nl, Cap: lv(c), Nil: nilL, Elem: a.Elem}}}
}

// explicitElem finds an element stored at exactly this index.
func explicitElem(a *Arr, idx Lin) (Value, bool) {
	if a.base == baseStr && len(a.ovs) == 0 && idx.isConst() && idx.c >= 0 && idx.c < int64(len(a.str)) {
		return ic(int64(a.str[idx.c])), true
	}
	for i := len(a.ovs) - 1; i >= 0; i-- {
		o := &a.ovs[i]
		if o.K != ovSingle {
			return nil, false
		}
		if o.Lo.eq(idx) {
			return o.V, true
		}
		if d := o.Lo.sub(idx); !d.isConst() {
			return nil, false
		}
	}
	return nil, false
}

// ---- locks (ghost state)

func (e *Eng) lockObj(p PtrV) ObjID {
	k := fmt.Sprintf("%d%s", p.Obj, pathStr(e.vs, p.Path))
	if id, ok := e.locks[k]; ok {
		return id
	}
	o := e.newInit(okGhost, nil, freshOwner, "lock "+k)
	o.cell = ic(0)
	e.locks[k] = o.id
	e.lockNames[k] = e.ownerName(p)
	return o.id
}

func (e *Eng) lockState(st *State, id ObjID) int64 {
	v, ok := st.obj(id).cell.(IntV)
	if ok && v.L.isConst() {
		return v.L.c
	}
	return -1
}

func (e *Eng) setLock(st *State, id ObjID, v int64) {
	o := *st.obj(id)
	o.cell = ic(v)
	st.put(&o)
}

// heldLocks counts the locks that are (or may be) held.
func (e *Eng) heldLocks(st *State) (held []string) {
	var ks []string
	for k := range e.locks {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if e.lockState(st, e.locks[k]) != 0 && !e.onces[e.locks[k]] {
			held = append(held, k)
		}
	}
	return
}

func (e *Eng) lockOp(fr *Frame, pos token.Pos, op string, p PtrV, st *State) []Outcome {
	id := e.lockObj(p)
	s := e.lockState(st, id)
	switch op {
	case "Lock", "RLock":
		if e.hooks.lockOp != nil {
			e.hooks.lockOp(st, op)
		}
		e.record(st, fr, pos, "lock", "mutex is not already held by this goroutine when locked", s == 0, Con{})
		e.setLock(st, id, lockMode(op))
		return []Outcome{{st, TupleV{}}}
	case "Unlock", "RUnlock":
		e.record(st, fr, pos, "lock", "mutex is held when unlocked", s == lockMode(op), Con{})
		e.setLock(st, id, 0)
		return []Outcome{{st, TupleV{}}}
	case "TryLock", "TryRLock":
		t := st.clone()
		e.setLock(t, id, lockMode(op))
		return []Outcome{{t, bconst(true)}, {st, bconst(false)}}
	}
	return []Outcome{{st, TupleV{}}}
}

// ownerName is a name of a location that is the same in every analysis.
func (e *Eng) ownerName(p PtrV) string {
	for g, id := range e.globals {
		if id == p.Obj {
			return g.String() + pathStr(e.vs, p.Path)
		}
	}
	o := e.initObj[p.Obj]
	if o == nil {
		return fmt.Sprintf("local%d%s", p.Obj, pathStr(e.vs, p.Path))
	}
	t := ""
	if o.typ != nil {
		t = o.typ.String()
	}
	return o.owner.Name + ":" + t + pathStr(e.vs, p.Path)
}

// lockMode: 1 exclusive, 2 shared
func lockMode(op string) int64 {
	if strings.Contains(op, "R") {
		return 2
	}
	return 1
}

// onceDo models sync.Once: its ghost state is 1 inside the callback and 2 once
// Do has returned.
func (e *Eng) onceDo(fr *Frame, c ssa.CallInstruction, pos token.Pos, p PtrV, f FuncV, st *State) []Outcome {
	id := e.lockObj(p)
	e.onces[id] = true
	s := e.lockState(st, id)
	e.record(st, fr, pos, "lock", "sync.Once is not entered from its own callback", s != 1, Con{})
	if s == 2 {
		return []Outcome{{st, TupleV{}}}
	}
	var outs []Outcome
	done := st.clone()
	e.setLock(done, id, 2)
	outs = append(outs, Outcome{done, TupleV{}})
	e.setLock(st, id, 1)
	var res []Outcome
	if f.Fn != nil {
		res = e.callKnown(fr, c, f.Fn, nil, f.Bind, st)
	} else {
		if e.hooks.unknownCall != nil {
			e.unkSig = nil
			e.hooks.unknownCall(fr, pos, "sync.Once callback", st)
		}
		res = []Outcome{{st, nil}}
	}
	for _, o := range res {
		e.setLock(o.st, id, 2)
		outs = append(outs, Outcome{o.st, TupleV{}})
	}
	return outs
}

// heldSet lists the locks held in a state, by canonical name and mode.
func (e *Eng) heldSet(st *State) map[string]int64 {
	out := map[string]int64{}
	for k, id := range e.locks {
		if m := e.lockState(st, id); m > 0 {
			out[e.lockNames[k]] = m
		}
	}
	return out
}

// ---- library models

func (e *Eng) inRange(name string, lo, hi int64) Value { return iv(lv(e.vs.fresh(name, lo, hi))) }

func (e *Eng) newError(fr *Frame) Value {
	e.nid++
	return IfaceV{Dyn: errorStringType, ID: e.nid, Val: OpaqueV{}}
}

func (e *Eng) newPtr(st *State, elem types.Type, v Value, site string) PtrV {
	o := e.newObj(okCell, elem, freshOwner, site)
	o.cell = v
	st.put(o)
	return PtrV{Obj: o.id}
}

func (e *Eng) external(fr *Frame, c ssa.CallInstruction, fn *ssa.Function, args []Value, st *State) []Outcome {
	name := fn.String()
	pos := c.Pos()
	sig := fn.Signature
	ret := func(v Value) []Outcome { return []Outcome{{st, v}} }
	q := &ps{st: st}
	switch {
	case strings.HasSuffix(name, ".init") && sig.Params().Len() == 0:
		return ret(TupleV{})
	case strings.HasPrefix(name, "(*sync.Mutex)."), strings.HasPrefix(name, "(*sync.RWMutex)."):
		p, ok := args[0].(PtrV)
		if !ok || !e.oblige(q, fr, pos, "nil", "mutex must not be nil", Con{p.Nil, eq}) {
			return nil
		}
		return e.lockOp(fr, pos, fn.Name(), p, st)
	case name == "(*sync.Once).Do":
		p, ok := args[0].(PtrV)
		if !ok || !e.oblige(q, fr, pos, "nil", "sync.Once must not be nil", Con{p.Nil, eq}) {
			return nil
		}
		f, _ := args[1].(FuncV)
		return e.onceDo(fr, c, pos, p, f, q.st)
	case name == "time.AfterFunc":
		rt := sig.Results().At(0).Type().(*types.Pointer).Elem()
		t := e.newPtr(st, rt, e.newSym(rt, "timer", freshOwner, false), "timer")
		if e.hooks.afterFunc != nil {
			e.hooks.afterFunc(fr, c, args, t, st)
		}
		// the callback runs later, without the locks held here
		if f, ok := args[1].(FuncV); ok {
			for _, later := range []bool{false, true} {
				if later && e.hooks.threadStart == nil {
					break
				}
				s := st.clone()
				for _, id := range e.locks {
					if !e.onces[id] {
						e.setLock(s, id, 0)
					}
				}
				e.asyncHavoc(s)
				if e.hooks.threadStart != nil {
					e.timerBase = e.nobj
					e.hooks.threadStart(s, later)
				}
				cf := &Frame{fn: fn, up: nil, call: nil, depth: fr.depth, timer: true}
				var outs []Outcome
				if f.Fn != nil {
					outs = e.callKnown(cf, c, f.Fn, nil, f.Bind, s)
				} else if e.hooks.unknownCall != nil || e.hooks.dynCall != nil {
					if e.hooks.dynCall != nil {
						e.hooks.dynCall(cf, pos, nil, s)
					}
					if e.hooks.unknownCall != nil {
						e.unkSig = nil
						e.hooks.unknownCall(fr, pos, "timer callback", s)
					}
				}
				for _, o := range outs {
					if e.hooks.threadEnd != nil && !o.st.dead {
						e.hooks.threadEnd(cf, pos, o.st, later)
					}
					e.endOfThread(fr, pos, o.st, "timer callback")
				}
			}
		}
		return ret(t)
	case name == "(*time.Timer).Stop", name == "(*time.Timer).Reset":
		p, ok := args[0].(PtrV)
		if !ok || !e.oblige(q, fr, pos, "nil", "timer must not be nil", Con{p.Nil, eq}) {
			return nil
		}
		if e.hooks.timer != nil {
			e.hooks.timer(fr, c, fn.Name(), p, q.st)
		}
		res := e.freshBool(fn.Name())
		if e.hooks.timerOp != nil {
			e.hooks.timerOp(fr, pos, fn.Name(), p, q.st, res)
		}
		return []Outcome{{q.st, res}}
	case name == "errors.New", name == "fmt.Errorf":
		return ret(e.newError(fr))
	case name == "fmt.Sprintf", name == "fmt.Sprint", name == "fmt.Sprintln":
		return ret(e.sprintf(st, name, args))
	case name == "strconv.Itoa", name == "strconv.FormatInt", name == "strconv.FormatUint":
		s := e.newStr("formatted", freshOwner)
		verb := "%d"
		if len(args) > 1 {
			verb = ""
			if b, ok := args[1].(IntV); ok && b.L.isConst() {
				verb = map[int64]string{2: "%b", 8: "%o", 10: "%d", 16: "%x"}[b.L.c]
			}
		}
		if verb != "" {
			s.Fmt, s.Parts = verb, []StrKey{{args[0]}}
		}
		return ret(s)
	case name == "strings.Join":
		s := e.newStr(fn.Name(), freshOwner)
		sl, ok := args[0].(SliceV)
		sep, ok2 := args[1].(StrV)
		if !ok || !ok2 || !sl.Len.isConst() || sl.Len.c > maxParts {
			return ret(s)
		}
		var of []StrV
		for i := int64(0); i < sl.Len.c; i++ {
			rs := st.arrRead(st.obj(sl.Obj).arr, sl.Off.addc(i))
			x, ok := StrV{}, false
			if len(rs) == 1 {
				x, ok = rs[0].v.(StrV)
			}
			if !ok {
				return ret(s)
			}
			if i > 0 {
				of = append(of, sep)
			}
			of = append(of, x)
		}
		return ret(describe(s, of...))
	case name == "(time.Time).Format", name == "(time.Time).String":
		return ret(e.newStr(fn.Name(), freshOwner))
	case name == "encoding/hex.EncodeToString":
		s := e.newStr("hex", freshOwner)
		if b, ok := args[0].(SliceV); ok {
			s.Len = b.Len.scale(2)
		}
		return ret(s)
	case name == "encoding/hex.DecodeString":
		v := e.havocResult(sig, "hex").(TupleV)
		b := v.E[0].(SliceV)
		if s, ok := args[0].(StrV); ok {
			st.add(Con{s.Len.sub(b.Len.scale(2)), ge})
		}
		return ret(v)
	case strings.HasPrefix(name, "(encoding/binary.bigEndian)."), strings.HasPrefix(name, "(encoding/binary.littleEndian)."):
		return e.endian(fr, pos, fn.Name(), strings.Contains(name, "big"), args, st)
	case strings.HasPrefix(name, "(*bytes.Buffer)."), name == "bytes.NewBuffer", name == "bytes.NewBufferString":
		if o, ok := e.buffer(fr, pos, fn, args, st); ok {
			return o
		}
	case strings.HasPrefix(name, "sync/atomic."), strings.HasPrefix(name, "(*sync/atomic."):
		if p, ok := args[0].(PtrV); ok {
			if !e.oblige(q, fr, pos, "nil", "atomic operand must not be nil", Con{p.Nil, eq}) {
				return nil
			}
		}
		return []Outcome{{q.st, e.havocResult(sig, "atomic")}}
	case name == "unicode/utf16.IsSurrogate":
		r := e.intOf(args[0], types.Typ[types.Int32])
		return ret(BoolV{And: []Con{{r.L.addc(-0xd800), ge}, {r.L.neg().addc(0xdfff), ge}}})
	case name == "unicode/utf16.DecodeRune" && e.opts.Deep:
		return e.utf16DecodeRune(args, st)
	case name == "unicode/utf16.DecodeRune", name == "unicode.ToUpper", name == "unicode.ToLower":
		return ret(e.inRange("rune", 0, 0x10ffff))
	case name == "unicode/utf16.EncodeRune":
		return ret(TupleV{E: []Value{e.inRange("r1", 0xd800, 0xffff), e.inRange("r2", 0xdc00, 0xffff)}})
	case name == "unicode/utf16.Encode", name == "unicode/utf16.Decode":
		if b, ok := args[0].(SliceV); ok && fn.Name() == "Encode" && e.opts.Deep {
			if outs := e.utf16Encode(b, st); outs != nil {
				return outs
			}
		}
		v := e.havocResult(sig, fn.Name()).(SliceV)
		if b, ok := args[0].(SliceV); ok {
			if fn.Name() == "Encode" {
				st.add(Con{v.Len.sub(b.Len), ge})
				st.add(Con{b.Len.scale(2).sub(v.Len), ge})
			} else {
				st.add(Con{b.Len.sub(v.Len), ge})
				st.add(Con{v.Len.scale(2).sub(b.Len), ge})
			}
		}
		return ret(v)
	case strings.HasPrefix(name, "unicode/utf8."):
		switch fn.Name() {
		case "RuneCount", "RuneCountInString":
			v := e.vs.fresh("runes", 0, lenMax)
			n := e.lenOf(args[0])
			st.add(Con{n.sub(lv(v)), ge})
			st.add(Con{lv(v).scale(4).sub(n), ge})
			return ret(iv(lv(v)))
		case "DecodeRune", "DecodeRuneInString", "DecodeLastRune", "DecodeLastRuneInString":
			n := e.lenOf(args[0])
			w := e.vs.fresh("width", 0, 4)
			st.add(Con{n.sub(lv(w)), ge})
			var outs []Outcome
			yes, no := st.splitCon(Con{n.addc(-1), ge})
			for _, s := range yes {
				s.add(Con{lv(w).addc(-1), ge})
				outs = append(outs, Outcome{s, TupleV{E: []Value{e.inRange("rune", 0, 0x10ffff), iv(lv(w))}}})
			}
			for _, s := range no {
				outs = append(outs, Outcome{s, TupleV{E: []Value{ic(0xfffd), ic(0)}}})
			}
			return outs
		case "RuneLen":
			return ret(e.inRange("runelen", -1, 4))
		}
	case strings.HasPrefix(name, "(time.Duration)."):
		if fn.Name() == "Hours" || fn.Name() == "Minutes" || fn.Name() == "Seconds" {
			return ret(FloatV{})
		}
	case strings.HasPrefix(name, "(time.Time)."):
		if v, ok := e.timeModel(fn.Name(), sig, args); ok {
			return ret(v)
		}
	case name == "time.FixedZone":
		v := e.newSym(sig.Results().At(0).Type(), "zone", freshOwner, true)
		return ret(v)
	case name == "time.Date":
		if p, ok := args[7].(PtrV); ok {
			if !e.oblige(q, fr, pos, "nil", "location must not be nil", Con{p.Nil, eq}) {
				return nil
			}
		}
		return []Outcome{{q.st, e.havocResult(sig, "time")}}
	case name == "bytes.Equal", name == "bytes.Compare", name == "strings.Contains", name == "strings.HasPrefix":
		return ret(e.havocResult(sig, fn.Name()))
	}
	// anything else: unknown result; slices handed to it may be written
	if e.hooks.unknownCall != nil && hasFuncArg(sig) {
		e.unkSig = nil
		e.hooks.unknownCall(fr, pos, name, st)
	}
	if !pureExternal(name) {
		for i, a := range args {
			if s, ok := a.(SliceV); ok && s.Obj != 0 {
				_ = i
				e.onWrite(st, fr, pos, s.Obj, nil)
				st.arrStore(st.obj(s.Obj), Ov{Lo: s.Off, Hi: s.Off.add(s.Len), K: ovUnknown})
			}
		}
		off := 0
		if sig.Recv() != nil {
			off = 1
		}
		if len(args) >= off {
			e.havocArgs(st, sig, args[off:])
		}
	}
	if e.stats.unknownExt == nil {
		e.stats.unknownExt = map[string]int{}
	}
	e.stats.unknownExt[name]++
	return ret(e.havocResult(sig, fn.Name()+"()"))
}

func hasFuncArg(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

func pureExternal(name string) bool {
	for _, p := range []string{"strings.", "strconv.", "bytes.", "fmt.", "errors.", "math.", "math/bits.", "unicode.", "unicode/utf8.", "unicode/utf16.", "encoding/hex.EncodeToString", "encoding/hex.Dump", "log.", "flag.", "os.", "(time.", "time.", "(*strings.", "(*flag."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (e *Eng) lenOf(v Value) Lin {
	switch x := v.(type) {
	case SliceV:
		return x.Len
	case StrV:
		return x.Len
	}
	return lv(e.vs.fresh("len", 0, lenMax))
}

func (e *Eng) timeModel(m string, sig *types.Signature, args []Value) (Value, bool) {
	key := "time." + m + valKey(args[0])
	mk := func(lo, hi int64) (Value, bool) {
		if v, ok := e.initVal[key]; ok {
			return v, true
		}
		v := e.inRange(m, lo, hi)
		e.initVal[key] = v
		return v, true
	}
	switch m {
	case "Year":
		return mk(-1<<40, 1<<40)
	case "Month":
		return mk(1, 12)
	case "Day":
		return mk(1, 31)
	case "Hour":
		return mk(0, 23)
	case "Minute", "Second":
		return mk(0, 59)
	case "YearDay":
		return mk(1, 366)
	case "Nanosecond":
		return mk(0, 999999999)
	case "Zone":
		if v, ok := e.initVal[key]; ok {
			return v, true
		}
		v := TupleV{E: []Value{e.newStr("zone", freshOwner), e.inRange("offset", -1<<31, 1<<31)}}
		e.initVal[key] = v
		return v, true
	}
	return nil, false
}

// sprintf builds a string whose identity is its format and operands.
func (e *Eng) sprintf(st *State, name string, args []Value) Value {
	s := e.newStr("formatted", freshOwner)
	var va Value
	f := ""
	if name == "fmt.Sprintf" {
		va = args[1]
		if fs, ok := args[0].(StrV); ok && fs.Const != nil {
			f = *fs.Const
		} else {
			return s
		}
	} else {
		va = args[0]
	}
	sl, ok := va.(SliceV)
	if !ok || !sl.Len.isConst() {
		return s
	}
	var parts []StrKey
	for i := int64(0); i < sl.Len.c; i++ {
		rs := st.arrRead(st.obj(sl.Obj).arr, sl.Off.addc(i))
		if len(rs) != 1 {
			return s
		}
		parts = append(parts, StrKey{rs[0].v})
	}
	f, parts = format(name, f, parts)
	if len(parts) > 0 && len(parts) <= maxParts && len(f) < 400 {
		s.Fmt, s.Parts = f, parts
	}
	return s
}

func (e *Eng) endian(fr *Frame, pos token.Pos, m string, big bool, args []Value, st *State) []Outcome {
	// args[0] is the receiver
	n := map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8, "PutUint16": 2, "PutUint32": 4, "PutUint64": 8}[m]
	if n == 0 || len(args) < 2 {
		e.fail("encoding/binary method %s", m)
	}
	b, ok := args[1].(SliceV)
	if !ok {
		e.fail("encoding/binary on %T", args[1])
	}
	q := &ps{st: st}
	if !e.oblige(q, fr, pos, "bounds", fmt.Sprintf("slice given to %s has at least %d elements", m, n), Con{b.Len.addc(-n), ge}) {
		return nil
	}
	st = q.st
	if b.Obj == 0 {
		return nil
	}
	if strings.HasPrefix(m, "Put") {
		v := e.intOf(args[2], types.Typ[types.Uint64])
		e.onWrite(st, fr, pos, b.Obj, nil)
		for i := int64(0); i < n; i++ {
			sh := i
			if big {
				sh = n - 1 - i
			}
			x := st.shr(v.L, int(sh)*8)
			bv := st.wrap(iv(x), types.Typ[types.Uint8])
			st.arrStore(st.obj(b.Obj), Ov{Lo: b.Off.addc(i), Hi: b.Off.addc(i + 1), K: ovSingle, V: bv})
		}
		return []Outcome{{st, TupleV{}}}
	}
	if n == 8 {
		return []Outcome{{st, e.inRange("uint64", 0, posInf)}}
	}
	cur := []valSt{{st, ic(0)}}
	for i := int64(0); i < n; i++ {
		var next []valSt
		for _, c := range cur {
			for _, r := range c.st.arrRead(c.st.obj(b.Obj).arr, b.Off.addc(i)) {
				x := e.intOf(r.v, types.Typ[types.Uint8])
				sh := i
				if big {
					sh = n - 1 - i
				}
				next = append(next, valSt{r.st, iv(c.v.(IntV).L.add(x.L.scale(1 << uint(8*sh))))})
			}
		}
		cur = next
	}
	var outs []Outcome
	for _, c := range cur {
		outs = append(outs, Outcome{c.st, c.v})
	}
	return outs
}

// buffer models bytes.Buffer as (buf []byte, off int).
func (e *Eng) buffer(fr *Frame, pos token.Pos, fn *ssa.Function, args []Value, st *State) ([]Outcome, bool) {
	sig := fn.Signature
	if fn.Name() == "NewBuffer" || fn.Name() == "NewBufferString" {
		rt := sig.Results().At(0).Type().(*types.Pointer).Elem()
		z := e.zero(rt).(StructV)
		f := append([]Value(nil), z.F...)
		f[0] = args[0]
		if s, ok := args[0].(StrV); ok {
			o := e.newObj(okArray, types.Typ[types.Uint8], freshOwner, "buffer")
			o.arr = s.Bytes
			st.put(o)
			f[0] = SliceV{Obj: o.id, Off: s.Off, Len: s.Len, Cap: s.Len, Elem: types.Typ[types.Uint8]}
		}
		return []Outcome{{st, e.newPtr(st, rt, StructV{F: f}, "bytes.Buffer")}}, true
	}
	p, ok := args[0].(PtrV)
	if !ok {
		return nil, false
	}
	q := &ps{st: st}
	if !e.oblige(q, fr, pos, "nil", "buffer must not be nil", Con{p.Nil, eq}) {
		return nil, true
	}
	st = q.st
	var outs []Outcome
	for _, r := range st.load(p) {
		sv, ok := r.v.(StructV)
		if !ok || len(sv.F) < 2 {
			return nil, false
		}
		st := r.st
		buf, ok1 := sv.F[0].(SliceV)
		off, ok2 := sv.F[1].(IntV)
		if !ok1 || !ok2 {
			return nil, false
		}
		avail := buf.Len.sub(off.L)
		set := func(s *State, b SliceV, o Lin) {
			n := StructV{F: append([]Value(nil), sv.F...)}
			n.F[0], n.F[1] = b, iv(o)
			s.store(p, n)
		}
		rest := SliceV{Obj: buf.Obj, Off: buf.Off.add(off.L), Len: avail, Cap: buf.Cap.sub(off.L), Nil: buf.Nil, Elem: buf.Elem}
		switch fn.Name() {
		case "Len":
			outs = append(outs, Outcome{st, iv(avail)})
		case "Bytes":
			outs = append(outs, Outcome{st, rest})
		case "String":
			s := e.newStr("buffer", freshOwner)
			s.Len = avail
			outs = append(outs, Outcome{st, s})
		case "Next":
			n := e.intOf(args[1], types.Typ[types.Int])
			q := &ps{st: st}
			if !e.oblige(q, fr, pos, "bounds", "Buffer.Next needs a non-negative count", Con{n.L, ge}) {
				continue
			}
			yes, no := q.st.splitCon(Con{avail.sub(n.L), ge})
			do := func(s *State, k Lin) {
				set(s, buf, off.L.add(k))
				x := rest
				x.Len = k
				outs = append(outs, Outcome{s, x})
			}
			for _, s := range yes {
				do(s, n.L)
			}
			for _, s := range no {
				do(s, avail)
			}
		case "ReadByte":
			yes, no := st.splitCon(Con{avail.addc(-1), ge})
			for _, s := range yes {
				if buf.Obj == 0 {
					continue
				}
				for _, v := range s.arrRead(s.obj(buf.Obj).arr, rest.Off) {
					set(v.st, buf, off.L.addc(1))
					outs = append(outs, Outcome{v.st, TupleV{E: []Value{v.v, nilIface()}}})
				}
			}
			for _, s := range no {
				x := buf
				x.Len = Lin{}
				set(s, x, Lin{})
				outs = append(outs, Outcome{s, TupleV{E: []Value{ic(0), e.eof(s)}}})
			}
		case "WriteByte", "Write", "WriteString":
			var os []Outcome
			if fn.Name() == "WriteByte" {
				arr := &Arr{base: baseZero, elem: types.Typ[types.Uint8], owner: freshOwner, ovs: []Ov{{Lo: lc(0), Hi: lc(1), K: ovSingle, V: args[1]}}}
				os = e.doAppend(fr, pos, st, buf, lc(1), arr, lc(0))
			} else if s, ok := args[1].(SliceV); ok {
				var src *Arr
				if s.Obj != 0 {
					src = st.obj(s.Obj).arr
				}
				os = e.doAppend(fr, pos, st, buf, s.Len, src, s.Off)
			} else if s, ok := args[1].(StrV); ok {
				os = e.doAppend(fr, pos, st, buf, s.Len, s.Bytes, s.Off)
			}
			for _, o := range os {
				set(o.st, o.ret.(SliceV), off.L)
				if fn.Name() == "WriteByte" {
					outs = append(outs, Outcome{o.st, nilIface()})
				} else {
					outs = append(outs, Outcome{o.st, TupleV{E: []Value{iv(e.lenOf(args[1])), nilIface()}}})
				}
			}
		case "Reset":
			x := buf
			x.Len = Lin{}
			set(st, x, Lin{})
			outs = append(outs, Outcome{st, TupleV{}})
		case "Truncate":
			n := e.intOf(args[1], types.Typ[types.Int])
			q := &ps{st: st}
			if !e.oblige(q, fr, pos, "bounds", "Buffer.Truncate within the unread length", Con{n.L, ge}, Con{avail.sub(n.L), ge}) {
				continue
			}
			x := buf
			x.Len = off.L.add(n.L)
			set(q.st, x, off.L)
			outs = append(outs, Outcome{q.st, TupleV{}})
		default:
			return nil, false
		}
	}
	return outs, true
}

// eof is io.EOF.
func (e *Eng) eof(st *State) Value {
	if v, ok := e.initVal["io.EOF"]; ok {
		return v
	}
	v := e.newError(nil)
	e.initVal["io.EOF"] = v
	return v
}

// asyncHavoc prepares the state in which a callback runs later.
func (e *Eng) asyncHavoc(st *State) {
	if e.hooks.async != nil {
		e.hooks.async(st)
	}
}

// endOfThread: locks must be released when a goroutine or root ends.
func (e *Eng) endOfThread(fr *Frame, pos token.Pos, st *State, what string) {
	h := e.heldLocks(st)
	e.record(st, fr, pos, "lock-leak", "every mutex is released when "+what+" ends", len(h) == 0, Con{})
}
