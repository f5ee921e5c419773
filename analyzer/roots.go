package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// runInits interprets the package initialisers, giving the package-level
// variables their initial values. Variables that change later are unknown.
func (e *Eng) runInits() {
	st := e.newState()
	e.initRun = true
	e.quiet++
	for _, q := range e.p.order {
		if !e.p.isLib(q.PkgPath) && !strings.Contains(q.PkgPath, "zz_verif") {
			continue
		}
		fn := e.p.spkg[q.PkgPath].Func("init")
		outs := e.callFunc(nil, fn, nil, nil, st, nil)
		if len(outs) != 1 {
			e.fail("package initialisation of %s has %d outcomes", q.PkgPath, len(outs))
		}
		st = outs[0].st
	}
	e.quiet--
	e.initRun = false
	for id, o := range st.mem {
		e.initObj[id] = o
	}
	for _, c := range st.cs.all {
		e.initCons = append(e.initCons, c)
	}
	mut := e.p.mutableGlobals()
	for g, id := range e.globals {
		if !e.opts.Exact && mut[g] {
			o := *e.initObj[id]
			if o.kind == okCell {
				was := o.cell
				o.cell = e.newSym(o.typ, o.site, o.owner, false)
				if m, ok := was.(MapV); ok && m.Nil.isConst() && m.Nil.c == 0 {
					// a map variable that is initialised never becomes nil:
					// every store to it is checked
					n := o.cell.(MapV)
					n.Nil = lc(0)
					o.cell = n
					e.nonNil[id] = true
				}
				e.initObj[id] = &o
			}
		}
	}
}

// mutableGlobals: variables written outside the initialisers, or whose
// address is used other than to load.
func (p *Prog) mutableGlobals() map[*ssa.Global]bool {
	p.mutOnce.Do(func() {
		p.mut = map[*ssa.Global]bool{}
		scan := func(f *ssa.Function, init bool) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if op == nil {
							continue
						}
						g, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						switch x := in.(type) {
						case *ssa.UnOp:
							continue
						case *ssa.Store:
							if x.Addr == g && init {
								continue
							}
						case *ssa.FieldAddr, *ssa.IndexAddr:
							if init || onlyLoaded(in.(ssa.Value)) {
								continue
							}
						}
						p.mut[g] = true
					}
				}
			}
		}
		for _, f := range p.fns {
			scan(f, f.Synthetic == "package initializer")
		}
		for _, sp := range p.spkg {
			scan(sp.Func("init"), true)
		}
	})
	return p.mut
}

func onlyLoaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !onlyLoaded(x) {
				return false
			}
		case *ssa.IndexAddr:
			if !onlyLoaded(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// symArg is an arbitrary argument.
func (e *Eng) symArg(t types.Type, name string) Value {
	v := e.newSym(t, name, &Owner{Kind: ownParam, Name: name}, true)
	if p, ok := v.(PtrV); ok {
		if et := t.Underlying().(*types.Pointer).Elem(); e.constructed(et) {
			o := *e.initObj[p.Obj]
			o.cell = e.madeValue(et, name)
			e.initObj[p.Obj] = &o
		}
	} else if e.constructed(t) {
		v = e.madeValue(t, name)
	}
	return v
}

// limits of integer arguments that the documentation states.
var argRange = map[string]map[int][2]int64{
	"encoding/gsm7.Pack7Bit":       {1: {0, 6}},
	"encoding/gsm7.Unpack7Bit":     {1: {0, 6}},
	"encoding/gsm7.Pack7BitUSSD":   {1: {0, 6}},
	"encoding/gsm7.Unpack7BitUSSD": {1: {0, 6}},
}

func (e *Eng) rootArg(fn *ssa.Function, i int) Value {
	pr := fn.Params[i]
	if r, ok := argRange[fname(fn)][i]; ok {
		return iv(lv(e.vs.fresh(pr.Name(), r[0], r[1])))
	}
	return e.symArg(pr.Type(), pr.Name())
}

// constructed types have a constructor which callers must use (documented).
func (e *Eng) constructed(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath {
		return false
	}
	return n.Obj().Name() == "Collector" || n.Obj().Name() == "Encoder"
}

func (e *Eng) madeValue(t types.Type, name string) Value {
	v := e.newSym(t, name, &Owner{Kind: ownParam, Name: name, Made: true}, false)
	v = nonNilIfaces(v)
	if s, ok := v.(StructV); ok {
		for i := range s.F {
			if st, ok := t.Underlying().(*types.Struct); ok && e.p.neverWritten(t, i) {
				s.F[i] = e.zero(st.Field(i).Type())
				continue
			}
			if m, ok := s.F[i].(MapV); ok {
				m.Nil = Lin{}
				s.F[i] = m
			}
		}
	}
	return v
}

// neverWritten: no code of the module assigns the unexported field, so that
// it keeps its zero value.
func (p *Prog) neverWritten(t types.Type, field int) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	st := n.Underlying().(*types.Struct)
	if st.Field(field).Exported() {
		return false
	}
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.FieldAddr)
				if !ok || x.Field != field {
					continue
				}
				if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), t) && !onlyLoaded(x) {
					return false
				}
			}
		}
	}
	return true
}

// Root is one analysis entry point.
type Root struct {
	fn   *ssa.Function
	name string
}

// apiRoots lists every exported function and method of the library packages.
func (p *Prog) apiRoots() []Root {
	var out []Root
	for _, f := range p.fns {
		if f.Pkg == nil || !p.isLib(f.Pkg.Pkg.Path()) || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		if strings.HasPrefix(f.Name(), "init") {
			continue
		}
		if !isExported(f) {
			continue
		}
		out = append(out, Root{f, fname(f)})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func isExported(f *ssa.Function) bool {
	o := f.Object()
	if o == nil || !o.Exported() {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok && !n.Obj().Exported() {
			// unexported types with exported methods are reached through
			// exported interfaces
			return true
		}
	}
	return true
}

// RootResult is what one root's analysis gave.
type RootResult struct {
	root Root
	log  []recEntry
	eng  *Eng
	outs []Outcome
	wall time.Duration
}

// runRoot analyses one entry point. setup may adjust the engine and build the
// arguments; after sees the outcomes.
func (p *Prog) runRoot(r Root, setup func(e *Eng) (args []Value, st *State), after func(e *Eng, outs []Outcome, args []Value)) (res RootResult) {
	rec := &Recorder{}
	e := newEng(p, rec, r.name)
	e.budget = 400000
	res.root, res.eng = r, e
	t0 := time.Now()
	e.t0 = t0
	defer func() {
		res.wall = time.Since(t0)
		res.log = rec.log
		if o := recover(); o != nil {
			msg := ""
			switch x := o.(type) {
			case undecided:
				msg = x.msg
			case linOverflow:
				msg = "coefficient overflow in the analysis domain"
				if os.Getenv("SMSVERIF_DEBUG") != "" {
					debug.PrintStack()
				}
			default:
				msg = fmt.Sprint(o)
				if os.Getenv("SMSVERIF_DEBUG") != "" {
					debug.PrintStack()
				}
			}
			res.log = append(res.log, recEntry{site: obSite{fn: fname(r.fn), pos: p.pos(r.fn.Pos()), kind: "undecided", what: msg}, ok: false, root: r.name})
		}
	}()
	var args []Value
	var st *State
	if setup != nil {
		args, st = setup(e)
	}
	if args == nil {
		if st == nil {
			e.runInits()
			st = e.newState()
		}
		for i := range r.fn.Params {
			args = append(args, e.rootArg(r.fn, i))
		}
	}
	e.rootArgs = args
	res.outs = e.callFunc(nil, r.fn, args, nil, st, nil)
	for _, o := range res.outs {
		if !o.st.dead {
			e.endOfThread(&Frame{fn: r.fn}, r.fn.Pos(), o.st, fname(r.fn))
		}
	}
	if after != nil {
		after(e, res.outs, args)
	}
	return
}

// parallel runs n jobs on all cores.
func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// nilFlag is the flag telling whether a map is nil.
func nilFlag(v Value) (Lin, bool) {
	if m, ok := v.(MapV); ok {
		return m.Nil, true
	}
	return Lin{}, false
}

// keepsNonNil: the object written to may be a package variable that must not
// become nil.
func (e *Eng) keepsNonNil(st *State, id ObjID, t types.Type) bool {
	if e.nonNil[id] {
		return true
	}
	o := st.obj(id)
	if o == nil || o.owner.Kind == ownFresh {
		return false
	}
	for _, g := range e.globals {
		if id == g {
			return false // a variable that may be nil
		}
	}
	for g := range e.nonNil {
		if types.Identical(e.initObj[g].typ, t) {
			return true
		}
	}
	return false
}
