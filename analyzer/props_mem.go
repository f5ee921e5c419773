package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ownerAt lists the owned (not fresh) objects that memory of obj may be, with
// path the place within it when known.
func (st *State) ownersAt(obj ObjID, path []PathElem) []*Object {
	o := st.obj(obj)
	if o == nil {
		return nil
	}
	var out []*Object
	if o.owner.Kind != ownFresh {
		out = append(out, o)
	}
	for i, al := range o.alias {
		a := st.obj(al)
		if a == nil || a.owner.Kind == ownFresh {
			continue
		}
		if i < len(o.aliasCap) && len(path) > 0 && path[0].Field < 0 && st.entails(Con{path[0].Idx.sub(o.aliasCap[i]), ge}) {
			continue
		}
		out = append(out, a)
	}
	return out
}

// paramOf is the argument whose memory an object belongs to.
func paramOf(e *Eng, r Root, o *Object) (i int, direct bool) {
	for i, p := range r.fn.Params {
		if x, ok := e.rootArgs[i].(PtrV); ok && x.Obj == o.id {
			return i, true
		}
		if ownedBy(o, p.Name()) {
			return i, false
		}
	}
	return -1, false
}

// ownedBy: the memory is reachable from the parameter.
func ownedBy(o *Object, p string) bool {
	name := o.owner.Name
	return name == p || strings.HasPrefix(name, p+".") || strings.HasPrefix(name, p+"[") || strings.HasPrefix(name, "*"+p)
}

// builderType: the memory reachable from a pointer to such a type belongs to
// the object being built or operated on.
func builderType(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok {
		return false
	}
	switch n.Obj().Name() {
	case "Collector", "Encoder", "DecodeConfig", "UnmarshalConfig", "Counter":
		return true
	}
	return false
}

// documentedDst: arguments that an operation is documented to write to.
var documentedDst = map[string]map[int]bool{
	"encoding/semioctet.Decode": {0: true},
}

func init() {
	register("C14", "proof", func(c *Ctx) {
		c.rep.Rule = engineRule + "obligations: no store, append, copy, map update or library call writes into a slice, array or map reachable from an argument (the object a pointer argument points at is the operation's own result; the buffer documented as destination is excepted)"
		c.rep.Assume = engineAssume
		res := c.runAPI(func(e *Eng, r Root) {
			e.hooks.onWrite = func(st *State, fr *Frame, pos token.Pos, obj ObjID, path []PathElem) {
				bad := ""
				for _, o := range st.ownersAt(obj, path) {
					if o.owner.Kind != ownParam && o.owner.Kind != ownUnknown {
						continue
					}
					i, direct := paramOf(e, r, o)
					if i >= 0 {
						if direct && o.kind == okCell || builderType(r.fn.Params[i].Type()) || documentedDst[r.name][i] {
							continue
						}
					}
					bad = o.owner.String()
				}
				e.recordMsg(st, fr, pos, "write", "no write into memory of the caller's arguments", bad == "", "writes "+bad)
			}
		}, nil)
		c.absorbIf(res, func(Root) bool { return true }, func(k string) bool { return k == "write" })
	})
	register("C15", "proof", func(c *Ctx) {
		c.rep.Rule = engineRule + "obligations: at every return of an operation that unmarshals octets or decodes a message, neither the result nor anything assigned through the receiver shares memory with the arguments"
		c.rep.Assume = engineAssume
		res := c.runAPI(nil, func(e *Eng, r Root, outs []Outcome, args []Value) {
			if !strings.Contains(r.fn.Name(), "Unmarshal") && r.name != "sms.Decode" {
				return
			}
			n := 8
			al := make([]int, n)
			for _, o := range outs {
				if o.st.dead {
					continue
				}
				e.recordMsg(o.st, &Frame{fn: r.fn}, r.fn.Pos(), "alias", "the result shares no memory with the source", !e.aliasingOf(r.fn, args, o, al, func(ob *Object) bool {
					if ob.owner.Kind != ownParam {
						return false
					}
					i, direct := paramOf(e, r, ob)
					if i < 0 || direct {
						return i < 0
					}
					_, ptr := r.fn.Params[i].Type().Underlying().(*types.Pointer)
					return !ptr
				}), "the result, or a field assigned, refers to memory of the arguments")
			}
		})
		c.absorbIf(res, func(Root) bool { return true }, func(k string) bool { return k == "alias" })
	})
	register("C18", "proof", func(c *Ctx) {
		c.rep.Rule = engineRule + "obligations: every package-level variable that changes after initialisation is accessed with one same mutex held (exclusively for writes; or written only by a sync.Once callback and read after it); maps and arrays reachable from package-level variables are never written; a Counter is accessed by a single atomic operation per call, or under a mutex"
		c.rep.Assume = append(engineAssume, "data race freedom is judged by lock sets; memory published under a lock and never written again is safe to read")
		ls := newLocksets()
		sh := &sharedFields{writes: map[string]string{}}
		res := c.runAPI(func(e *Eng, r Root) {
			e.hooks.dynInvoke = func(fr *Frame, pos token.Pos, args []Value, st *State) {
				if e.quiet == 0 {
					sh.invoke(e, r, fr, pos, args, st)
				}
			}
			counter := -1
			if rc := r.fn.Signature.Recv(); rc != nil && strings.HasSuffix(rc.Type().String(), "sms.Counter") {
				counter = 0
			}
			acc := func(write bool) func(st *State, fr *Frame, pos token.Pos, obj ObjID, path []PathElem) {
				return func(st *State, fr *Frame, pos token.Pos, obj ObjID, path []PathElem) {
					o := st.obj(obj)
					if o == nil {
						return
					}
					if write {
						sh.write(e, r, pos, o, path, st)
					}
					if counter == 0 && o.owner.Kind == ownParam {
						held := len(e.heldSet(st)) > 0
						e.recordMsg(st, fr, pos, "counter", "counter accessed atomically or under a mutex", held, "the counter's value is accessed without synchronisation")
						return
					}
					for _, x := range st.ownersAt(obj, path) {
						if x.owner.Kind != ownGlobal {
							continue
						}
						if x.kind == okArray || x.kind == okMap {
							if write {
								e.recordMsg(st, fr, pos, "global", "no write into a table reachable from a package-level variable", false, "writes "+x.owner.String())
							}
							continue
						}
						g := e.globalOf(x.id)
						if g == "" {
							// a cell reached through a pointer: may be any
							// variable of its type whose address is taken
							mc := e.p.mutableCell(x)
							if write {
								e.recordMsg(st, fr, pos, "global", "no write into memory reachable from a package-level variable", mc, "writes "+x.owner.String())
							}
							if mc {
								ls.access("cells of "+x.typ.String(), write, e, st, fr, pos)
							}
							continue
						}
						if e.p.mutableNamed(g) {
							ls.access(g, write, e, st, fr, pos)
							if x.typ != nil {
								ls.typeOf(g, x.typ.String())
							}
						}
					}
				}
			}
			e.hooks.onWrite = acc(true)
			e.hooks.onLoad = acc(false)
		}, nil)
		c.absorbIf(res, func(Root) bool { return true }, func(k string) bool { return k == "global" || k == "counter" })
		ls.report(c)
		sh.report(c)
		c.counterAtomics()
	})
}

// sharedFields: an operation on a copy of a value shares the arrays of its
// slices with concurrent operations on other copies. Options are applied to
// the copy; those that write to the array of a slice (appending to it in
// place) may only be given one that has no room left.
type sharedFields struct {
	mu     sync.Mutex
	writes map[string]string // type and field -> where an option writes in place
	gives  []given
}

type given struct {
	field, pos, fn string
	full           bool
}

// optionTarget: the struct that a method of an option is given to alter.
func optionTarget(fn *ssa.Function) (*ssa.Parameter, *types.Named) {
	if fn.Signature.Recv() == nil || len(fn.Params) != 2 {
		return nil, nil
	}
	p, ok := fn.Params[1].Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	n, ok := p.Elem().(*types.Named)
	if !ok {
		return nil, nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil, nil
	}
	return fn.Params[1], n
}

func (s *sharedFields) write(e *Eng, r Root, pos token.Pos, o *Object, path []PathElem, st *State) {
	p, n := optionTarget(r.fn)
	if p == nil || o.kind != okArray {
		return
	}
	for _, x := range st.ownersAt(o.id, path) {
		if x.kind != okArray || x.owner.Kind != ownParam || !ownedBy(x, p.Name()) {
			continue
		}
		u := n.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if f, ok := u.Field(i).Type().Underlying().(*types.Slice); ok && x.typ != nil && types.Identical(f.Elem(), x.typ) {
				s.mu.Lock()
				s.writes[n.String()+"."+u.Field(i).Name()] = e.p.pos(pos)
				s.mu.Unlock()
			}
		}
	}
}

func (s *sharedFields) invoke(e *Eng, r Root, fr *Frame, pos token.Pos, args []Value, st *State) {
	rc := r.fn.Signature.Recv()
	if rc == nil {
		return
	}
	for _, a := range args {
		p, ok := a.(PtrV)
		if !ok || len(p.Path) > 0 || st.obj(p.Obj) == nil || st.obj(p.Obj).typ == nil || !types.Identical(st.obj(p.Obj).typ, rc.Type()) {
			continue
		}
		n, ok := rc.Type().(*types.Named)
		v, ok2 := e.peek(st, p).(StructV)
		if !ok || !ok2 {
			continue
		}
		u, _ := n.Underlying().(*types.Struct)
		for i, f := range v.F {
			x, ok := f.(SliceV)
			if !ok || x.Obj == 0 || u == nil {
				continue
			}
			// before any option: after one, the slice is as before or the
			// option's own
			o, shared := st.obj(x.Obj), false
			if t := st.clone(); o != nil && t.assume(Con{x.Cap.sub(x.Len).addc(-1), ge}) {
				shared = o.owner.Kind == ownParam && ownedBy(o, r.fn.Params[0].Name())
			}
			s.mu.Lock()
			s.gives = append(s.gives, given{n.String() + "." + u.Field(i).Name(), e.p.pos(pos), fname(r.fn), !shared})
			s.mu.Unlock()
		}
	}
}

func (s *sharedFields) report(c *Ctx) {
	seen := map[string]bool{}
	for _, g := range s.gives {
		w := s.writes[g.field]
		if g.full || w == "" {
			c.rep.ok(1)
			continue
		}
		k := "shared-storage|" + g.fn + "|" + g.field
		if !seen[k] {
			seen[k] = true
			c.rep.viol(k, g.pos, "%s applies options to a copy whose slice %s may have room left, which concurrent calls share; an option writes there (%s)", g.fn, g.field, w)
		}
	}
}

// locksets gathers, per variable, the locks held at every access.
type locksets struct {
	mu   sync.Mutex
	vars map[string]map[string]*lsAcc // variable -> access site
	typ  map[string]string
}

type lsAcc struct {
	write bool
	held  map[string]int64
	once  map[string]bool
	pos   string
	fn    string
	n     int
}

func newLocksets() *locksets {
	return &locksets{vars: map[string]map[string]*lsAcc{}, typ: map[string]string{}}
}

func (l *locksets) typeOf(v, t string) {
	l.mu.Lock()
	l.typ[v] = t
	l.mu.Unlock()
}

func (l *locksets) access(v string, write bool, e *Eng, st *State, fr *Frame, pos token.Pos) {
	held := map[string]int64{}
	for k, m := range e.heldSet(st) {
		// mode 1: exclusive or inside the Once; 2: shared or after the Once
		if m == 1 || !write {
			held[k] = m
		}
	}
	site := e.p.pos(pos)
	key := site
	if write {
		key += "w"
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.vars[v] == nil {
		l.vars[v] = map[string]*lsAcc{}
	}
	a := l.vars[v][key]
	if a == nil {
		a = &lsAcc{write: write, held: held, pos: site, fn: fname(fr.fn)}
		l.vars[v][key] = a
	} else {
		for k := range a.held {
			if held[k] == 0 {
				delete(a.held, k)
			}
		}
	}
	a.n++
}

func (l *locksets) report(c *Ctx) {
	// cells written through pointers: any variable of that type
	for v, t := range l.typ {
		if w := l.vars["cells of "+t]; w != nil {
			for k, a := range w {
				l.vars[v]["*"+k] = a
			}
		}
	}
	var vs []string
	for v := range l.vars {
		vs = append(vs, v)
	}
	sort.Strings(vs)
	for _, v := range vs {
		if strings.HasPrefix(v, "cells of ") {
			continue
		}
		var common map[string]bool
		var ks []string
		for k := range l.vars[v] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		written := false
		for _, k := range ks {
			a := l.vars[v][k]
			written = written || a.write
			if common == nil {
				common = map[string]bool{}
				for h := range a.held {
					common[h] = true
				}
				continue
			}
			for h := range common {
				if a.held[h] == 0 {
					delete(common, h)
				}
			}
		}
		if len(common) > 0 || !written {
			c.rep.ok(len(ks))
			c.rep.sample("%s: %d access sites, all with %s held", v, len(ks), strings.Join(sortedKeys(common), ", "))
			continue
		}
		// name an access site without the lock the others hold
		count := map[string]int{}
		for _, k := range ks {
			for h := range l.vars[v][k].held {
				count[h]++
			}
		}
		best := ""
		for h, n := range count {
			if best == "" || n > count[best] || n == count[best] && h < best {
				best = h
			}
		}
		for _, k := range ks {
			a := l.vars[v][k]
			if best == "" || a.held[best] == 0 {
				op := "read"
				if a.write {
					op = "written"
				}
				why := "no lock is held"
				if best != "" {
					why = "the other accesses hold " + best
				}
				c.rep.viol("lockset|"+v+"|"+a.fn+"|"+op, a.pos, "package-level variable %s is %s in %s: %s", v, op, a.fn, why)
			} else {
				c.rep.ok(1)
			}
		}
	}
	c.rep.count("variables_shared", len(vs))
}

// globalOf names the package-level variable an object is, if it is one.
func (e *Eng) globalOf(id ObjID) string {
	for g, o := range e.globals {
		if o == id {
			return g.String()
		}
	}
	return ""
}

func (p *Prog) mutableNamed(name string) bool {
	for g := range p.mutableGlobals() {
		if g.String() == name {
			return true
		}
	}
	return false
}

// mutableCell: the cell may be a package-level variable that changes.
func (p *Prog) mutableCell(o *Object) bool {
	if o.typ == nil {
		return false
	}
	for g := range p.mutableGlobals() {
		if types.Identical(g.Type().(*types.Pointer).Elem(), o.typ) {
			return true
		}
	}
	return false
}

// counterAtomics: the methods of Counter perform one atomic access each.
func (c *Ctx) counterAtomics() {
	for _, r := range c.p.apiRoots() {
		rc := r.fn.Signature.Recv()
		if rc == nil || !strings.HasSuffix(rc.Type().String(), "sms.Counter") {
			continue
		}
		r := r
		res := c.p.runRoot(r, func(e *Eng) ([]Value, *State) {
			n := func(st *State) *Object { return e.ghost(st, "atomics") }
			e.hooks.call = func(fr *Frame, ci ssa.CallInstruction, fn *ssa.Function, args []Value, st *State) ([]Outcome, bool) {
				nm := fn.String()
				if fn.Name() != "init" && (strings.HasPrefix(nm, "sync/atomic.") || strings.HasPrefix(nm, "(*sync/atomic.")) {
					o := *n(st)
					if v, ok := o.cell.(IntV); ok {
						o.cell = iv(v.L.addc(1))
					}
					st.put(&o)
				}
				return nil, false
			}
			return nil, nil
		}, func(e *Eng, outs []Outcome, args []Value) {
			for _, o := range outs {
				if o.st.dead {
					continue
				}
				v, _ := e.ghost(o.st, "atomics").cell.(IntV)
				locked := len(e.locks) > 0
				e.recordMsg(o.st, &Frame{fn: r.fn}, r.fn.Pos(), "counter", "one atomic access per call, so that the value returned is the one this call produced", locked || o.st.entails(Con{v.L.addc(-1), eq}), "the call performs several atomic operations, or none")
			}
		})
		c.absorbIf([]RootResult{res}, func(Root) bool { return true }, func(k string) bool { return k == "counter" })
	}
}

// ghost is an analysis variable that is part of the state (0 initially).
func (e *Eng) ghost(st *State, name string) *Object {
	id, ok := e.ghosts[name]
	if !ok {
		o := e.newInit(okGhost, nil, freshOwner, "ghost "+name)
		o.cell = ic(0)
		e.ghosts[name] = o.id
		id = o.id
	}
	return st.obj(id)
}
