package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Properties of the Collector: lock discipline and atomicity, the life of
// timers, the identity of sets, and freedom from effects on errors.

// collector is the exploration of the methods of Collector.
type collector struct {
	ls  *locksets
	res []RootResult
}

func isCollectorMethod(f *ssa.Function) bool {
	rc := f.Signature.Recv()
	if rc == nil {
		return false
	}
	p, ok := rc.Type().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Collector" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath
}

func (e *Eng) ghostSet(st *State, name string, v Value) {
	o := *e.ghost(st, name)
	o.cell = v
	st.put(&o)
}

func (e *Eng) ghostAdd(st *State, name string, d Lin) {
	if v, ok := e.ghost(st, name).cell.(IntV); ok {
		e.ghostSet(st, name, iv(v.L.add(d)))
	}
}

func (e *Eng) ghostL(st *State, name string) Lin {
	if v, ok := e.ghost(st, name).cell.(IntV); ok {
		return v.L
	}
	return lv(e.vs.fresh("ghost", negInf, posInf))
}

// inTimer: the frame runs in the callback of a timer.
func inTimer(fr *Frame) bool {
	for f := fr; f != nil; f = f.up {
		if f.timer {
			return true
		}
	}
	return false
}

// memName names memory by type, the same in every analysis.
func memName(o *Object, path []PathElem) string {
	t := "?"
	if o.typ != nil {
		t = strings.ReplaceAll(o.typ.String(), modPath, "sms")
	}
	switch o.kind {
	case okArray:
		return "elements of type " + t
	case okMap:
		return t
	}
	if len(path) > 0 && path[0].Field >= 0 {
		if s, ok := o.typ.Underlying().(*types.Struct); ok && path[0].Field < s.NumFields() {
			return t + "." + s.Field(path[0].Field).Name()
		}
	}
	return t
}

// timerField is the timer kept in a cell, if there is one.
func (e *Eng) timerField(st *State, o *Object) (PtrV, bool) {
	if o == nil || o.kind != okCell || o.typ == nil {
		return PtrV{}, false
	}
	s, ok := o.typ.Underlying().(*types.Struct)
	if !ok {
		return PtrV{}, false
	}
	v, ok := e.peek(st, PtrV{Obj: o.id}).(StructV)
	if !ok {
		return PtrV{}, false
	}
	for i := 0; i < s.NumFields() && i < len(v.F); i++ {
		if s.Field(i).Type().String() == "*time.Timer" {
			p, ok := v.F[i].(PtrV)
			return p, ok
		}
	}
	return PtrV{}, false
}

// setOf finds the structure with a timer that holds the array.
func (e *Eng) setOf(st *State, arr ObjID) *Object {
	look := func(id ObjID) *Object {
		o := st.obj(id)
		if o == nil || o.kind != okCell {
			return nil
		}
		if _, ok := e.timerField(st, o); !ok {
			return nil
		}
		v, ok := e.peek(st, PtrV{Obj: id}).(StructV)
		if !ok {
			return nil
		}
		for _, f := range v.F {
			if s, ok := f.(SliceV); ok && s.Obj == arr {
				return o
			}
		}
		return nil
	}
	for id := ObjID(1); int(id) <= e.nobj; id++ {
		if o := look(id); o != nil {
			return o
		}
	}
	return nil
}

func durationField(t types.Type) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	n := -1
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Type().String() == "time.Duration" {
			if n >= 0 {
				return -1
			}
			n = i
		}
	}
	return n
}

func (e *Eng) setDuration(st *State, recv PtrV) (Lin, bool) {
	o := st.obj(recv.Obj)
	if o == nil {
		return Lin{}, false
	}
	i := durationField(o.typ)
	v, ok := e.peek(st, recv).(StructV)
	if i < 0 || !ok || i >= len(v.F) {
		return Lin{}, false
	}
	d, ok := v.F[i].(IntV)
	return d.L, ok
}

func (c *Ctx) runCollector() *collector {
	p := c.p
	p.addrTaken()
	p.mutableGlobals()
	p.precompute()
	k := &collector{}
	var rs []Root
	for _, r := range p.apiRoots() {
		if isCollectorMethod(r.fn) {
			rs = append(rs, r)
		}
	}
	for round := 0; ; round++ {
		p.invMu.Lock()
		p.invChanged = false
		p.invMu.Unlock()
		k.ls = newLocksets()
		k.res = make([]RootResult, len(rs))
		parallel(len(rs), func(i int) {
			r := rs[i]
			k.res[i] = p.runRoot(r, func(e *Eng) ([]Value, *State) {
				e.opts.Summ = true
				e.opts.Deep = true
				e.opts.MaxStates = 256
				e.opts.Inline = func(fn *ssa.Function) bool { return fn.Pkg != nil && fn.Pkg.Pkg.Path() == modPath }
				k.hook(e, r)
				return nil, nil
			}, func(e *Eng, outs []Outcome, args []Value) { k.after(e, r, outs, args) })
		})
		p.invMu.Lock()
		ch := p.invChanged
		p.invMu.Unlock()
		if !ch || round > 6 {
			break
		}
	}
	b, q := 0, 0
	for _, r := range k.res {
		b += r.eng.stats.blocks
		q += r.eng.stats.queries
	}
	c.rep.count("methods_of_Collector", len(rs))
	c.rep.count("abstract_block_executions", b)
	c.rep.count("entailment_queries", q)
	if len(rs) == 0 {
		c.rep.viol("no-collector", "", "the module has no type Collector with exported methods")
	}
	return k
}

func (k *collector) hook(e *Eng, r Root) {
	for _, g := range []string{"effects", "deletes", "inserts", "pending", "stops", "starts", "acquired", "handled", "started", "extended", "expiring", "concatinfo", "smstype", "exhausted"} {
		e.ghost(&State{e: e}, g)
	}
	e.hooks.ghosts = true
	name := r.fn.Params[0].Name()
	owned := func(o *Object) bool {
		return o != nil && o.owner.Kind == ownParam && (ownedBy(o, name) || e.rootArgs != nil && isObj(e.rootArgs[0], o.id))
	}
	ownsAny := func(st *State, obj ObjID) *Object {
		o := st.obj(obj)
		if owned(o) {
			return o
		}
		if o != nil {
			for _, a := range o.alias {
				if x := st.obj(a); owned(x) {
					return x
				}
			}
		}
		return nil
	}
	isTPDUElem := func(o *Object) bool {
		return o != nil && o.kind == okArray && o.typ != nil && o.typ.String() == "*"+modPath+"/encoding/tpdu.TPDU"
	}
	acc := func(write bool) func(st *State, fr *Frame, pos token.Pos, obj ObjID, path []PathElem) {
		return func(st *State, fr *Frame, pos token.Pos, obj ObjID, path []PathElem) {
			o := ownsAny(st, obj)
			if write && o != nil {
				e.ghostAdd(st, "effects", lc(1))
			}
			if o == nil && inTimer(fr) {
				// memory of the call that started the timer is shared too
				if x := st.obj(obj); x != nil && x.kind != okGhost && int(obj) <= e.timerBase {
					o = x
					if x.kind == okCell {
						if _, st := x.typ.Underlying().(*types.Struct); !st {
							o = nil // a captured variable
						}
					}
				}
			}
			if o != nil && e.quiet == 0 {
				k.ls.access(memName(o, path), write, e, st, fr, pos)
			}
			if x := st.obj(obj); write && isTPDUElem(x) && len(path) > 0 && path[0].Field < 0 {
				set := e.setOf(st, obj)
				if set == nil {
					return
				}
				if v, ok := e.peek(st, PtrV{Obj: set.id}).(StructV); ok {
					for _, f := range v.F {
						if s, ok := f.(SliceV); ok && s.Obj == obj {
							e.ghostSet(st, "extended", s)
						}
					}
				}
				t, _ := e.timerField(st, set)
				stopped := st.entails(Con{t.Nil.addc(-1), eq})
				if !stopped && t.Obj != 0 {
					stopped = st.entails(Con{e.ghostL(st, fmt.Sprintf("stopped %d", t.Obj)).addc(-1), eq})
				}
				e.recordMsg(st, fr, pos, "timer", "a set is only extended when its timer has been stopped before it fired", stopped, "a segment is added while the timer of the set may have fired")
				ci, ok := e.ghost(st, "concatinfo").cell.(TupleV)
				if !ok || len(ci.E) < 2 {
					e.recordMsg(st, fr, pos, "place", "a segment is stored at the place its number gives", false, "the place does not come from the concatenation information")
					return
				}
				seq, _ := ci.E[1].(IntV)
				e.recordMsg(st, fr, pos, "place", "a segment is stored at the place its number gives", st.entails(Con{path[0].Idx.sub(seq.L).addc(1), eq}), "the place is not the number less one")
				free := true
				for _, v := range st.clone().arrRead(x.arr, path[0].Idx) {
					if pv, ok := v.v.(PtrV); !ok || !v.st.entails(Con{pv.Nil.addc(-1), eq}) {
						free = false
					}
				}
				e.recordMsg(st, fr, pos, "place", "no segment is overwritten", free, "the place may be taken")
			}
		}
	}
	e.hooks.onWrite = acc(true)
	e.hooks.onLoad = acc(false)
	e.hooks.mapKey = func(st *State, fr *Frame, pos token.Pos, m MapV, key, val Value, op string) {
		o := ownsAny(st, m.Obj)
		if o == nil {
			if s, ok := val.(SliceV); ok && op == "update" {
				x := ownsAny(st, s.Obj)
				e.recordMsg(st, fr, pos, "share", "the slices of the collector are not put in other maps", x == nil, "a slice that the collector still uses is stored in a map")
			}
			return
		}
		switch op {
		case "delete":
			e.ghostAdd(st, "deletes", lc(1))
		case "update":
			e.ghostAdd(st, "inserts", lc(1))
		}
		if !inTimer(fr) {
			e.checkKey(st, fr, pos, key)
		}
	}
	e.hooks.rangeNext = func(st *State, fr *Frame, pos token.Pos, m MapV, v Value) {
		if ownsAny(st, m.Obj) == nil {
			return
		}
		if v == nil {
			e.ghostSet(st, "exhausted", ic(1))
			return
		}
		if p, ok := v.(PtrV); ok {
			if t, ok := e.timerField(st, st.obj(p.Obj)); ok {
				e.ghostAdd(st, "pending", lc(1).sub(t.Nil))
			}
		}
	}
	e.hooks.called = func(fr *Frame, fn *ssa.Function, o Outcome) {
		if fn.Name() == "ConcatInfo" && fn.Signature.Results().Len() == 4 && (fr == nil || !strings.HasPrefix(fr.fn.Name(), "ConcatInfo")) {
			e.ghostSet(o.st, "concatinfo", o.ret)
		}
		if fn.Name() == "SmsType" && fn.Signature.Results().Len() == 1 {
			e.ghostSet(o.st, "smstype", o.ret)
		}
	}
	e.hooks.lockOp = func(st *State, op string) {
		if op == "Lock" || op == "RLock" {
			e.ghostAdd(st, "acquired", lc(1))
		}
	}
	e.hooks.timerOp = func(fr *Frame, pos token.Pos, op string, t PtrV, st *State, result Value) {
		if inTimer(fr) {
			return
		}
		e.ghostAdd(st, "effects", lc(1))
		if op == "Stop" {
			e.ghostAdd(st, "stops", lc(1))
			if b, ok := result.(BoolV); ok {
				e.ghostSet(st, fmt.Sprintf("stopped %d", t.Obj), iv(boolLin(e, b)))
			}
		} else {
			e.recordMsg(st, fr, pos, "timer", "timers are stopped or started, not reset", false, "Timer."+op+" is used on a timer that may have fired")
		}
	}
	e.hooks.afterFunc = func(fr *Frame, ci ssa.CallInstruction, args []Value, t PtrV, st *State) {
		e.ghostAdd(st, "effects", lc(1))
		e.ghostAdd(st, "starts", lc(1))
		e.ghostSet(st, "started", t)
		recv, _ := e.rootArgs[0].(PtrV)
		d, ok := e.setDuration(st, recv)
		x, isInt := args[0].(IntV)
		e.recordMsg(st, fr, ci.Pos(), "timer", "the timer runs for the duration configured", ok && isInt && st.entails(Con{x.L.sub(d), eq}), "another duration is used")
	}
	e.hooks.dynCall = func(fr *Frame, pos token.Pos, args []Value, st *State) {
		if len(e.heldSet(st)) > 0 || len(e.heldLocks(st)) > 0 {
			e.recordMsg(st, fr, pos, "handler", "user supplied functions are called without the lock", false, "a user supplied function is called with the lock of the collector held")
		} else {
			e.recordMsg(st, fr, pos, "handler", "user supplied functions are called without the lock", true, "")
		}
		if !inTimer(fr) {
			e.ghostAdd(st, "effects", lc(1))
			e.recordMsg(st, fr, pos, "handler", "the expiry handler is called by the timer only", false, "a user supplied function is called by an operation itself")
			return
		}
		e.ghostAdd(st, "handled", lc(1))
		ok := false
		for _, a := range args {
			if s, is := a.(SliceV); is {
				w, has := e.ghost(st, "expiring").cell.(SliceV)
				ok = has && w.Obj == s.Obj && s.Off.eq(w.Off) && st.entails(Con{s.Len.sub(w.Len), eq})
			}
		}
		e.recordMsg(st, fr, pos, "expiry", "the handler is given the segments of the set that expired", ok, "the handler is given something else")
	}
	e.hooks.threadStart = func(st *State, later bool) bool {
		if later {
			// the collector may have changed since: the set is no longer there
			for id := ObjID(1); int(id) <= e.nobj; id++ {
				o := st.obj(id)
				if o != nil && o.kind == okMap && owned(o) {
					n := *o
					n.mp = &MapC{unknown: true, later: true}
					st.put(&n)
				}
			}
		}
		// the set the timer belongs to: the one the segment was stored in
		e.ghostSet(st, "expiring", e.ghost(st, "extended").cell)
		for _, g := range []string{"deletes", "inserts", "effects", "handled", "acquired"} {
			e.ghostSet(st, g, ic(0))
		}
		return true
	}
	e.hooks.threadEnd = func(fr *Frame, pos token.Pos, st *State, later bool) {
		del := e.ghostL(st, "deletes")
		if later {
			e.recordMsg(st, fr, pos, "expiry", "expiry leaves a set alone that has taken the place of the one that expired", st.entails(Con{del, eq}), "the entry is removed although it may hold another set")
		} else {
			e.recordMsg(st, fr, pos, "expiry", "the set that expired is removed", st.entails(Con{del.addc(-1), eq}), "the set stays in the collector")
		}
		e.recordMsg(st, fr, pos, "expiry", "expiry adds nothing to the collector", st.entails(Con{e.ghostL(st, "inserts"), eq}), "an entry is added")
		// the handler is called when there is one
		h := Lin{}
		found := false
		recv, _ := e.rootArgs[0].(PtrV)
		if v, ok := e.peek(st, recv).(StructV); ok {
			for _, f := range v.F {
				if x, ok := f.(FuncV); ok {
					h, found = x.Nil, true
				}
			}
		}
		if found {
			n := e.ghostL(st, "handled")
			e.recordMsg(st, fr, pos, "expiry", "the handler is called exactly once, when there is one", st.entails(Con{n.add(h).addc(-1), eq}), "the handler is not called, or more than once")
		}
		e.recordMsg(st, fr, pos, "atomic", "an operation is one critical section", st.entails(Con{e.ghostL(st, "acquired").neg().addc(1), ge}), "the lock is released and taken again")
	}
}

// ghostKey tells states apart by the events recorded in them.
func (e *Eng) ghostKey(st *State) string {
	if !e.hooks.ghosts {
		return ""
	}
	k := ""
	for _, n := range []string{"effects", "deletes", "inserts", "stops", "starts", "handled", "extended", "exhausted"} {
		switch x := e.ghost(st, n).cell.(type) {
		case IntV:
			if x.L.isConst() {
				k += fmt.Sprint(x.L.c)
			}
		case SliceV:
			k += fmt.Sprint("o", x.Obj)
		}
		k += ";"
	}
	return k
}

func isObj(v Value, id ObjID) bool {
	p, ok := v.(PtrV)
	return ok && p.Obj == id
}

// checkKey: the key of the set distinguishes messages by type, address,
// reference and number of segments.
func (e *Eng) checkKey(st *State, fr *Frame, pos token.Pos, key Value) {
	if e.rootArgs == nil || len(e.rootArgs) < 2 {
		return
	}
	comps, inj := keyParts(key)
	e.recordMsg(st, fr, pos, "key", "the key keeps its components apart", inj, "different components can give the same key")
	hasInt := func(l Lin) bool {
		for _, c := range comps {
			if x, ok := c.(IntV); ok && st.entails(Con{x.L.sub(l), eq}) {
				return true
			}
		}
		return false
	}
	ci, _ := e.ghost(st, "concatinfo").cell.(TupleV)
	if len(ci.E) != 4 {
		e.recordMsg(st, fr, pos, "key", "the key has the reference and the number of segments", false, "they do not come from the concatenation information")
		return
	}
	n, _ := ci.E[0].(IntV)
	ref, _ := ci.E[2].(IntV)
	e.recordMsg(st, fr, pos, "key", "the key has the number of segments", hasInt(n.L), "it is missing")
	e.recordMsg(st, fr, pos, "key", "the key has the concatenation reference", hasInt(ref.L), "it is missing")
	stv, ok := e.ghost(st, "smstype").cell.(IntV)
	if !ok {
		e.recordMsg(st, fr, pos, "key", "the key has the message type", false, "the message type is not determined")
		return
	}
	e.recordMsg(st, fr, pos, "key", "the key has the message type", hasInt(stv.L) || st.isConstIn(stv.L), "it is missing")
	// the address of the other party
	pdu, pt := e.rootArgs[1], fr.root().fn.Params[1].Type()
	if p, ok := pdu.(PtrV); ok {
		pdu, pt = e.peek(st, p), pt.Underlying().(*types.Pointer).Elem()
	}
	addr := func(f string) (toa Lin, s StrV, ok bool) {
		a, at, ok1 := fieldOf(pdu, pt, f)
		if !ok1 {
			return
		}
		x, _, ok2 := fieldOf(a, at, "TOA")
		y, _, ok3 := fieldOf(a, at, "Addr")
		xi, ok4 := x.(IntV)
		ys, ok5 := y.(StrV)
		return xi.L, ys, ok2 && ok3 && ok4 && ok5
	}
	want := func(f string) bool {
		t, s, ok := addr(f)
		if !ok || !hasInt(t) {
			return false
		}
		for _, c := range comps {
			if x, ok := c.(StrV); ok && valKey(x) == valKey(s) {
				return true
			}
		}
		return false
	}
	sub := e.constOf("encoding/tpdu", "SmsSubmit")
	isSub, notSub := st.clone(), st.clone()
	ok1 := !isSub.assume(Con{stv.L.addc(-sub), eq}) || want("DA")
	ok2 := !notSub.assume(Con{stv.L.addc(-sub), ne}) || want("OA")
	e.recordMsg(st, fr, pos, "key", "the key has the address of the other party: the destination of a submit, the originator otherwise", ok1 && ok2, "the number, or its type, is missing")
}

func (st *State) isConstIn(l Lin) bool {
	lo, ok := st.inf(l)
	if !ok {
		return false
	}
	hi, ok := st.sup(l)
	return ok && lo == hi
}

func fieldOf(v Value, t types.Type, name string) (Value, types.Type, bool) {
	s, ok := v.(StructV)
	u, ok2 := t.Underlying().(*types.Struct)
	if !ok || !ok2 {
		return nil, nil, false
	}
	for i := 0; i < u.NumFields() && i < len(s.F); i++ {
		if u.Field(i).Name() == name {
			return s.F[i], u.Field(i).Type(), true
		}
	}
	return nil, nil, false
}

func (e *Eng) constOf(pkg, name string) int64 {
	for _, pk := range e.p.order {
		if pk.PkgPath == modPath+"/"+pkg {
			if c, ok := pk.Types.Scope().Lookup(name).(*types.Const); ok {
				if v, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
					return v
				}
			}
		}
	}
	return negInf / 4
}

// keyParts lists what a key is made of, and whether different components
// always give different keys.
func keyParts(k Value) (out []Value, injective bool) {
	switch x := k.(type) {
	case IntV:
		return []Value{x}, true
	case IfaceV:
		return keyParts(x.Val)
	case StructV:
		inj := true
		for _, f := range x.F {
			o, ok := keyParts(f)
			out = append(out, o...)
			inj = inj && ok
		}
		return out, inj
	case ArrV:
		return nil, false
	case StrV:
		if x.Fmt == "" {
			return []Value{x}, true
		}
		for _, p := range x.Parts {
			v := p.V
			if i, ok := v.(IfaceV); ok {
				v = i.Val
			}
			out = append(out, v)
		}
		return out, keepsApart(x.Fmt)
	}
	return nil, false
}

func (k *collector) after(e *Eng, r Root, outs []Outcome, args []Value) {
	sig := r.fn.Signature
	fr := &Frame{fn: r.fn}
	pos := r.fn.Pos()
	name := r.fn.Params[0].Name()
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		st := o.st
		eff := e.ghostL(st, "effects")
		e.recordMsg(st, fr, pos, "atomic", "an operation is one critical section", st.entails(Con{e.ghostL(st, "acquired").neg().addc(1), ge}), "the lock is released and taken again")
		pend := e.ghostL(st, "pending").sub(e.ghostL(st, "stops"))
		if r.fn.Name() == "Close" {
			t := st.clone()
			e.recordMsg(t, fr, pos, "timer", "Close stops the timer of every set", t.entails(Con{pend, eq}) && (t.entails(Con{eff, eq}) || t.entails(Con{e.ghostL(st, "exhausted").addc(-1), eq})), "a timer may keep running")
		}
		// containers of the collector are not handed out while in use
		al := make([]int, 8)
		shares := e.aliasingOf(r.fn, args, o, al, func(ob *Object) bool {
			return (ob.kind == okArray || ob.kind == okMap) && ob.owner.Kind == ownParam && ownedBy(ob, name) && !strings.Contains(ob.owner.Name, "].")
		})
		if shares {
			shares = !st.entails(Con{e.ghostL(st, "deletes").addc(-1), ge})
		}
		e.recordMsg(st, fr, pos, "share", "results do not share the containers of the collector", !shares, "the result refers to a container that the collector still uses")
		ev, ok := errResult(sig, o.ret)
		if !ok {
			if sig.Results().Len() > 0 {
				e.recordMsg(st, fr, pos, "effect", "inspecting the collector does not change it", st.entails(Con{eff, eq}), "the collector is changed")
			}
			continue
		}
		t := st.clone()
		if t.assume(Con{ev.Nil, eq}) {
			e.recordMsg(t, fr, pos, "effect", "an operation that fails leaves the collector as it was", t.entails(Con{eff, eq}), "the collector, or a timer, is changed before the error is returned")
		}
		res, ok := o.ret.(TupleV)
		if !ok || len(res.E) != 2 {
			continue
		}
		d, ok := res.E[0].(SliceV)
		if !ok {
			continue
		}
		t = st.clone()
		if !t.assume(Con{ev.Nil.addc(-1), eq}) {
			continue
		}
		starts := e.ghostL(st, "starts")
		// complete
		w := t.clone()
		if w.assume(Con{d.Len.addc(-1), ge}) {
			e.recordMsg(w, fr, pos, "timer", "no timer is left running for a set that is complete", w.entails(Con{starts, eq}), "a timer is started for a set that is returned")
			n := lc(1)
			whole := w.entails(Con{d.Len.addc(-1), eq}) && w.entails(Con{eff, eq})
			if ci, ok := e.ghost(st, "concatinfo").cell.(TupleV); ok && len(ci.E) == 4 && !whole {
				if x, ok := ci.E[0].(IntV); ok {
					n = x.L
					whole = w.entails(Con{d.Len.sub(n), eq})
				}
				// a set leaves the collector when it is returned
				e.recordMsg(w, fr, pos, "share", "a set that is returned has left the collector", w.entails(Con{e.ghostL(st, "deletes").addc(-1), ge}), "the set stays in the collector")
			}
			e.recordMsg(w, fr, pos, "whole", "what is returned is a message of one segment, or as many segments as the message has", whole, "the number of segments is another")
		}
		// pending
		w = t.clone()
		if w.assume(Con{d.Len, eq}) {
			recv, _ := args[0].(PtrV)
			dur, ok := e.setDuration(w, recv)
			if !ok {
				e.recordMsg(w, fr, pos, "timer", "the duration configured is known", false, "the collector has no single field for it")
				continue
			}
			zero, some := w.clone(), w.clone()
			if zero.assume(Con{dur, eq}) {
				e.recordMsg(zero, fr, pos, "timer", "no timer is started when the duration is zero", zero.entails(Con{starts, eq}), "a timer is started")
			}
			if some.assume(Con{dur, ne}) {
				e.recordMsg(some, fr, pos, "timer", "a set that is not complete has one timer running", some.entails(Con{starts.addc(-1), eq}), "no timer is started, or several")
				kept := false
				if tp, ok := e.ghost(st, "started").cell.(PtrV); ok {
					if x, ok := e.ghost(st, "extended").cell.(SliceV); ok {
						if set := e.setOf(some, x.Obj); set != nil {
							if y, ok := e.timerField(some, set); ok && y.Obj == tp.Obj {
								kept = true
							}
						}
					}
				}
				e.recordMsg(some, fr, pos, "timer", "the set keeps its timer", kept, "the timer started is not kept with the set")
			}
		}
	}
}

func init() {
	rule := "abstract interpretation of every exported method of Collector and of the timer callbacks it starts, for arbitrary segments and collector contents; "
	use := func(c *Ctx, kinds ...string) *collector {
		c.rep.Assume = append(engineAssume, "time.Timer.Stop reports whether it prevented the callback; map entries are distinct sets")
		k := c.runCollector()
		want := map[string]bool{}
		for _, x := range kinds {
			want[x] = true
		}
		c.absorbIf(k.res, func(Root) bool { return true }, func(x string) bool { return want[x] })
		return k
	}
	register("C20", "proof", func(c *Ctx) {
		c.rep.Rule = rule + "obligations: every field, map and array of the collector that is ever written after construction is accessed with the collector's mutex held; each operation and callback is one critical section, which ends with it; no user supplied function is called inside one; results share no map or slice that the collector still uses"
		k := use(c, "handler", "atomic", "share", "lock", "lock-leak")
		k.ls.report(c)
	})
	register("C21", "proof", func(c *Ctx) {
		c.rep.Rule = rule + "obligations: a segment is stored only in a set whose timer is nil or was stopped with success; each path that leaves a set incomplete starts one timer of the configured duration and keeps it with the set, every other path starts none; the callback removes the set when it is still there and nothing otherwise, and calls the handler once with its segments; Close stops as many timers as there are"
		use(c, "timer", "expiry")
	})
	register("C22", "proof", func(c *Ctx) {
		c.rep.Rule = rule + "obligations: every key looked up, stored or deleted has as components the message type, the type and digits of the address, the reference and the number of segments, kept apart injectively; a segment is stored at the place of its number, which is free; what is returned has the number of segments announced"
		use(c, "key", "place", "whole")
	})
	register("C23", "proof", func(c *Ctx) {
		c.rep.Rule = rule + "obligations: on every path that returns an error, and in Pipes, nothing reachable from the collector is written, no entry is added or removed, and no timer is started or stopped"
		use(c, "effect")
	})
}
