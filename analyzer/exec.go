package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Eng is one analysis run from one root.
type Eng struct {
	p         *Prog
	vs        *Vars
	nobj      int
	nid       int
	initObj   map[ObjID]*Object
	nonNil    map[ObjID]bool // package variables initialised to a non-nil value
	initVal   map[string]Value
	loads     map[Var]*loadInfo
	oloads    map[ObjID]*loadInfo
	cloads    map[Var]*cellLoad
	coloads   map[ObjID]*cellLoad
	loadIdx   map[ObjID][]Lin
	loadFirst map[string][2]int
	globals   map[*ssa.Global]ObjID
	globV     map[string]Value
	asserted  map[string]Value

	quiet    int // >0: obligations are not recorded (fixpoint iteration)
	rec      *Recorder
	root     string
	opts     Opts
	hooks    Hooks
	initCons []Con
	locks    map[string]ObjID
	stats    struct {
		queries, calls, loops, blocks, maxStates, obligations, joins, summaries int
		unknownExt                                                              map[string]int
	}
	budget    int
	t0        time.Time
	initRun   bool
	loopCache map[*ssa.Function]*loopInfo
	live      map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	harness   bool
	joinAt    string
	unkSig    *types.Signature
	usedInv   bool
	published map[ObjID]bool
	rootArgs  []Value
	onces     map[ObjID]bool
	ghosts    map[string]ObjID
	tableOf   map[ObjID]Lin // see tables.go
	convOf    map[ObjID]convTables
	lockNames map[string]string
	sumStack  map[*ssa.Function]bool
	timerBase int
	depth     int
}

// Opts selects behaviour of one root.
type Opts struct {
	MaxStates int // merge pressure at joins
	Modular   func(fn *ssa.Function) bool
	MapDesc   bool
	Summ      bool // use summaries of exported functions
	Inline    func(fn *ssa.Function) bool
	Exact     bool // package variables have exactly their initial values
	Deep      bool // more partitions are kept in code without loops
	MergeErrs bool // harness checks that do not look at what failed
}

// Frame is one activation record of the abstract call stack.
type Frame struct {
	fn    *ssa.Function
	up    *Frame
	call  ssa.CallInstruction
	depth int
	errs  bool
	timer bool // runs in the callback of a timer
}

func (fr *Frame) root() *Frame {
	for fr.up != nil {
		fr = fr.up
	}
	return fr
}

func (fr *Frame) stack(p *Prog) string {
	var s []string
	for f := fr; f != nil; f = f.up {
		n := f.fn.RelString(nil)
		n = strings.ReplaceAll(n, modPath+"/", "")
		n = strings.ReplaceAll(n, modPath, "sms")
		if f.call != nil {
			n += " (called at " + p.pos(f.call.Pos()) + ")"
		}
		s = append(s, n)
	}
	return strings.Join(s, " <- ")
}

// ps is a state within one activation.
type ps struct {
	st     *State
	env    map[ssa.Value]Value
	defers []deferred
}

type deferred struct {
	call *ssa.Defer
	fn   Value
	args []Value
}

func (p *ps) clone() *ps {
	n := &ps{st: p.st.clone(), env: make(map[ssa.Value]Value, len(p.env)+8), defers: p.defers}
	for k, v := range p.env {
		n.env[k] = v
	}
	return n
}

func (p *ps) withState(st *State) *ps {
	if st == p.st {
		return p
	}
	n := &ps{st: st, env: make(map[ssa.Value]Value, len(p.env)+8), defers: p.defers}
	for k, v := range p.env {
		n.env[k] = v
	}
	return n
}

// Outcome of a call.
type Outcome struct {
	st  *State
	ret Value
}

func newEng(p *Prog, rec *Recorder, root string) *Eng {
	e := &Eng{p: p, vs: newVars(), rec: rec, root: root}
	e.initObj = map[ObjID]*Object{}
	e.nonNil = map[ObjID]bool{}
	e.initVal = map[string]Value{}
	e.loads = map[Var]*loadInfo{}
	e.oloads = map[ObjID]*loadInfo{}
	e.cloads = map[Var]*cellLoad{}
	e.coloads = map[ObjID]*cellLoad{}
	e.loadIdx = map[ObjID][]Lin{}
	e.loadFirst = map[string][2]int{}
	e.globals = map[*ssa.Global]ObjID{}
	e.globV = map[string]Value{}
	e.asserted = map[string]Value{}
	e.locks = map[string]ObjID{}
	e.onces = map[ObjID]bool{}
	e.ghosts = map[string]ObjID{}
	e.lockNames = map[string]string{}
	e.loopCache = map[*ssa.Function]*loopInfo{}
	e.opts.MaxStates = 64
	return e
}

func (e *Eng) newState() *State {
	return &State{e: e, cs: newConSet(e.initCons), mem: map[ObjID]*Object{}}
}

// undecided is raised when the analysis leaves its supported fragment.
type undecided struct{ msg string }

func (e *Eng) fail(format string, a ...interface{}) {
	panic(undecided{fmt.Sprintf(format, a...)})
}

// ---- obligations

// oblige records an obligation that must be entailed; it returns the state
// with the obligation assumed (nil when that is impossible).
func (e *Eng) oblige(p *ps, fr *Frame, pos token.Pos, kind, what string, cons ...Con) bool {
	ok := true
	var bad Con
	for _, c := range cons {
		if !p.st.entails(c) {
			ok = false
			bad = c
			break
		}
	}
	e.record(p.st, fr, pos, kind, what, ok, bad)
	if !ok {
		for _, c := range cons {
			if !p.st.assume(c) {
				return false
			}
		}
	}
	return true
}

func (e *Eng) record(st *State, fr *Frame, pos token.Pos, kind, what string, ok bool, bad Con) {
	if e.quiet > 0 || e.initRun {
		return
	}
	e.stats.obligations++
	detail := ""
	if !ok && bad.L.t != nil {
		detail = "cannot establish " + e.vs.conStr(bad)
	}
	e.rec.add(e, st, fr, pos, kind, what, ok, detail)
}

// ---- values of operands

func (e *Eng) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return bconst(constant.BoolVal(c.Value))
	case constant.String:
		return conStrV(constant.StringVal(c.Value))
	case constant.Int:
		if isInt(t) {
			if n, ok := constant.Int64Val(c.Value); ok {
				return ic(n)
			}
			if u, ok := constant.Uint64Val(c.Value); ok {
				_ = u
				return iv(lv(e.vs.fresh(c.Value.String(), math.MaxInt64-1, posInf)))
			}
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return FloatV{}
		}
	case constant.Float:
		if isInt(t) {
			if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return ic(n)
			}
		}
		return FloatV{}
	}
	return OpaqueV{T: t}
}

func (e *Eng) get(p *ps, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return FuncV{Fn: x}
	case *ssa.Builtin:
		return FuncV{Built: x}
	case *ssa.Global:
		return PtrV{Obj: e.globalObj(p.st, x)}
	}
	r, ok := p.env[v]
	if !ok {
		e.fail("no value for %s in %s", v.Name(), v.Parent())
	}
	return r
}

func (e *Eng) globalObj(st *State, g *ssa.Global) ObjID {
	if id, ok := e.globals[g]; ok {
		return id
	}
	et := g.Type().(*types.Pointer).Elem()
	name := g.Name()
	if g.Pkg != nil {
		name = g.Pkg.Pkg.Name() + "." + name
	}
	owner := &Owner{Kind: ownGlobal, Name: name}
	if at, isArr := et.Underlying().(*types.Array); isArr {
		o := e.newInit(okArray, at.Elem(), owner, name)
		e.globals[g] = o.id
		if e.initRun {
			o.arr = &Arr{base: baseZero, elem: at.Elem(), owner: owner, name: name}
		}
		return o.id
	}
	o := e.newInit(okCell, et, owner, name)
	e.globals[g] = o.id
	if g.Pkg == nil || !e.p.inModule(g.Pkg.Pkg) {
		// external variable: errors are distinct non-nil values
		if types.Identical(et, types.Universe.Lookup("error").Type()) {
			o.cell = e.newError(nil)
			if name == "io.EOF" {
				o.cell = e.eof(st)
			}
		} else {
			o.cell = e.newSym(et, name, owner, true)
		}
		return o.id
	}
	if e.initRun {
		o.cell = e.zero(et)
	}
	return o.id
}

var errorStringType types.Type = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, nil, "errorString", nil), types.NewStruct(nil, nil), nil))

func asInt(v Value) (IntV, bool) {
	i, ok := v.(IntV)
	return i, ok
}

func (e *Eng) intOf(v Value, t types.Type) IntV {
	switch x := v.(type) {
	case IntV:
		return x
	}
	lo, hi, ok := typeBounds(t)
	if !ok {
		lo, hi = negInf, posInf
	}
	return iv(lv(e.vs.fresh("opaque", lo, hi)))
}

// ---- functions

func (e *Eng) deep(fn *ssa.Function) bool {
	return e.opts.Deep
}

const maxDepth = 60

// callFunc runs fn on args.
func (e *Eng) callFunc(fr *Frame, fn *ssa.Function, args []Value, bind []Value, st *State, call ssa.CallInstruction) []Outcome {
	e.stats.calls++
	d := 0
	if fr != nil {
		d = fr.depth + 1
	}
	n := 0
	for f := fr; f != nil; f = f.up {
		if f.fn == fn {
			n++
		}
	}
	if d > maxDepth || n > 1 {
		e.record(st, fr, fn.Pos(), "recursion", "recursive call of "+fn.String()+" not bounded by the analysis", false, Con{})
		return []Outcome{{st, e.havocResult(fn.Signature, fn.String())}}
	}
	nf := &Frame{fn: fn, up: fr, call: call, depth: d}
	p := &ps{st: st, env: map[ssa.Value]Value{}}
	for i, pr := range fn.Params {
		p.env[pr] = args[i]
	}
	for i, fv := range fn.FreeVars {
		p.env[fv] = bind[i]
	}
	r := &run{e: e, fr: nf, li: e.loopsOf(fn)}
	r.small = (len(fn.Blocks) <= 12 || e.deep(fn)) && len(r.li.byHeader) == 0
	r.exec(nil, fn.Blocks[0], []*ps{p})
	outs := e.coalesceOuts(r.outs)
	max := 24
	if e.deep(fn) {
		max = 96
		if e.opts.MergeErrs {
			max = 400
		}
		if e.opts.MergeErrs && !isHarness(fn) {
			// which error it was is of no interest
			var good, bad []Outcome
			for _, o := range outs {
				if x, ok := errResult(fn.Signature, o.ret); ok && x.Nil.isConst() && x.Nil.c == 0 {
					bad = append(bad, o)
				} else {
					good = append(good, o)
				}
			}
			if len(bad) > 2 {
				outs = append(good, e.mergeOutcomes(bad, 2)...)
			}
		}
	}
	if len(outs) > max {
		outs = e.mergeOutcomes(outs, max)
	}
	return outs
}

// run is the interpretation of one activation.
type run struct {
	e     *Eng
	fr    *Frame
	li    *loopInfo
	outs  []Outcome
	small bool // few blocks, no loops: more partitions are kept
}

type edgeState struct {
	from, to *ssa.BasicBlock
	p        *ps
}

// exec interprets region (nil: the whole function body) from block start.
// It returns the states on edges back to the region header and on edges that
// leave the region. Returns of the function accumulate in r.outs.
func (r *run) exec(region *loop, start *ssa.BasicBlock, in []*ps) (back, exits []edgeState) {
	e := r.e
	pend := map[*ssa.BasicBlock][]*ps{start: in}
	order := r.li.rpo
	for _, b := range order {
		if region != nil && !region.blocks[b] {
			continue
		}
		states := pend[b]
		if len(states) == 0 {
			continue
		}
		delete(pend, b)
		deliver := func(es []edgeState) {
			for _, x := range es {
				if region != nil && x.to == region.header {
					back = append(back, x)
				} else if region != nil && !region.blocks[x.to] {
					exits = append(exits, x)
				} else {
					pend[x.to] = append(pend[x.to], x.p)
				}
			}
		}
		if len(states) > 1 {
			states = e.coalesce(states, sortedLive(e.liveAt(r.fr.fn)[b]))
		}
		if l := r.li.byHeader[b]; l != nil && (region == nil || l != region) {
			states = e.pressure(r, b, states, e.opts.MaxStates/4)
			deliver(r.loop(l, states))
			continue
		}
		if len(states) > 1 {
			max := e.opts.MaxStates
			if r.small || e.deep(r.fr.fn) && region == nil {
				max *= 4
			}
			states = e.pressure(r, b, states, max)
		}
		if len(states) > e.stats.maxStates {
			e.stats.maxStates = len(states)
		}
		for _, s := range states {
			deliver(r.block(b, s))
		}
	}
	for b, s := range pend {
		if len(s) > 0 {
			e.fail("irreducible control flow in %s at block %d", r.fr.fn, b.Index)
		}
	}
	return
}

// edge moves a state along from->to, evaluating phis.
func (r *run) edge(from, to *ssa.BasicBlock, p *ps) edgeState {
	k := -1
	for i, pr := range to.Preds {
		if pr == from {
			k = i
		}
	}
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, r.e.get(p, ph.Edges[k]))
	}
	for i, ph := range phis {
		p.env[ph] = vals[i]
	}
	return edgeState{from, to, p}
}

func (r *run) block(b *ssa.BasicBlock, p *ps) []edgeState {
	e := r.e
	e.stats.blocks++
	if e.budget > 0 && e.stats.blocks > e.budget {
		e.fail("analysis budget exceeded (%d blocks)", e.budget)
	}
	if dbgLimit > 0 && time.Since(e.t0) > dbgLimit {
		e.fail("debugging time limit in %s; %s", r.fr.fn, r.fr.stack(e.p))
	}
	states := []*ps{p}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			var out []edgeState
			for _, s := range states {
				out = append(out, r.edge(b, b.Succs[0], s))
			}
			return out
		case *ssa.If:
			var out []edgeState
			for _, s := range states {
				c, ok := e.get(s, x.Cond).(BoolV)
				if !ok {
					c = bcon(Con{lv(e.vs.fresh("cond", 0, 1)).addc(-1), eq})
				}
				yes, no := s.st.split(c)
				both := len(yes) > 0 && len(no) > 0
				for _, y := range yes {
					n := s.withState(y)
					if both || len(yes) > 1 {
						n = &ps{st: y, env: copyEnv(s.env), defers: s.defers}
						y.note("%s: true", e.p.pos(x.Cond.Pos()))
					}
					out = append(out, r.edge(b, b.Succs[0], n))
				}
				for _, y := range no {
					n := s.withState(y)
					if both || len(no) > 1 {
						n = &ps{st: y, env: copyEnv(s.env), defers: s.defers}
						y.note("%s: false", e.p.pos(x.Cond.Pos()))
					}
					out = append(out, r.edge(b, b.Succs[1], n))
				}
			}
			return out
		case *ssa.Return:
			for _, s := range states {
				var v Value
				switch len(x.Results) {
				case 0:
					v = TupleV{}
				case 1:
					v = e.get(s, x.Results[0])
				default:
					t := TupleV{}
					for _, rv := range x.Results {
						t.E = append(t.E, e.get(s, rv))
					}
					v = t
				}
				e.onReturn(r.fr, s, x, v)
				r.outs = append(r.outs, Outcome{s.st, v})
			}
			return nil
		case *ssa.Panic:
			for _, s := range states {
				e.record(s.st, r.fr, x.Pos(), "panic", "explicit panic reachable", false, Con{})
			}
			return nil
		case *ssa.RunDefers:
			var next []*ps
			for _, s := range states {
				cur := []*State{s.st}
				for i := len(s.defers) - 1; i >= 0; i-- {
					d := s.defers[i]
					var n []*State
					for _, c := range cur {
						for _, o := range e.dispatch(r.fr, d.call, d.fn, d.args, c) {
							n = append(n, o.st)
						}
					}
					cur = n
				}
				for _, c := range cur {
					q := s.withState(c)
					if len(cur) > 1 {
						q = &ps{st: c, env: copyEnv(s.env)}
					}
					q.defers = nil
					next = append(next, q)
				}
			}
			states = next
		default:
			var next []*ps
			for _, s := range states {
				next = append(next, r.instr(in, s)...)
			}
			states = next
		}
		if len(states) == 0 {
			return nil
		}
	}
	return nil
}

func copyEnv(m map[ssa.Value]Value) map[ssa.Value]Value {
	n := make(map[ssa.Value]Value, len(m)+8)
	for k, v := range m {
		n[k] = v
	}
	return n
}

// bindAll gives each resulting state its value for v.
func bindAll(p *ps, v ssa.Value, rs []valSt) []*ps {
	out := make([]*ps, 0, len(rs))
	for _, r := range rs {
		if r.st.dead {
			continue
		}
		n := p
		if len(rs) > 1 {
			n = &ps{st: r.st, env: copyEnv(p.env), defers: p.defers}
		} else {
			n.st = r.st
		}
		n.env[v] = r.v
		out = append(out, n)
	}
	return out
}

func one(p *ps, v ssa.Value, x Value) []*ps {
	p.env[v] = x
	return []*ps{p}
}

func (r *run) nonNil(p *ps, v PtrV, pos token.Pos, what string) bool {
	return r.e.oblige(p, r.fr, pos, "nil", what+" must not be nil", Con{v.Nil, eq})
}

func (r *run) instr(in ssa.Instruction, p *ps) []*ps {
	e := r.e
	switch x := in.(type) {
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		site := x.Comment
		if site == "" {
			site = "alloc"
		}
		if at, ok := et.Underlying().(*types.Array); ok {
			o := e.newObj(okArray, at.Elem(), freshOwner, site)
			o.arr = &Arr{base: baseZero, elem: at.Elem(), owner: freshOwner, name: site}
			p.st.put(o)
			return one(p, x, PtrV{Obj: o.id})
		}
		o := e.newObj(okCell, et, freshOwner, site)
		o.cell = e.zero(et)
		p.st.put(o)
		return one(p, x, PtrV{Obj: o.id})
	case *ssa.BinOp:
		return bindAll(p, x, r.binop(x, p))
	case *ssa.UnOp:
		return r.unop(x, p)
	case *ssa.ChangeType:
		v := e.get(p, x.X)
		if s, ok := v.(SliceV); ok {
			if st, ok := x.Type().Underlying().(*types.Slice); ok {
				s.Elem = st.Elem()
			}
			v = s
		}
		return one(p, x, v)
	case *ssa.ChangeInterface:
		return one(p, x, e.get(p, x.X))
	case *ssa.Convert:
		return bindAll(p, x, r.convert(x, p))
	case *ssa.MultiConvert:
		e.fail("generic conversion in %s", r.fr.fn)
	case *ssa.MakeInterface:
		return one(p, x, IfaceV{Dyn: x.X.Type(), Val: e.get(p, x.X)})
	case *ssa.MakeClosure:
		f := FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, e.get(p, b))
		}
		return one(p, x, f)
	case *ssa.MakeMap:
		o := e.newObj(okMap, x.Type(), freshOwner, "make map")
		o.mp = &MapC{}
		p.st.put(o)
		return one(p, x, MapV{Obj: o.id})
	case *ssa.MakeSlice:
		n := e.intOf(e.get(p, x.Len), x.Len.Type())
		c := e.intOf(e.get(p, x.Cap), x.Cap.Type())
		if !e.oblige(p, r.fr, x.Pos(), "make", "make([]T, len, cap) needs 0 <= len <= cap", Con{n.L, ge}, Con{c.L.sub(n.L), ge}) {
			return nil
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		o := e.newObj(okArray, et, freshOwner, "make "+e.p.pos(x.Pos()))
		o.arr = &Arr{base: baseZero, elem: et, owner: freshOwner, name: o.site}
		p.st.put(o)
		return one(p, x, SliceV{Obj: o.id, Len: n.L, Cap: c.L, Elem: et})
	case *ssa.MakeChan:
		return one(p, x, OpaqueV{T: x.Type()})
	case *ssa.Extract:
		t, ok := e.get(p, x.Tuple).(TupleV)
		if !ok || x.Index >= len(t.E) {
			return one(p, x, e.newSym(x.Type(), "extract", freshOwner, false))
		}
		return one(p, x, t.E[x.Index])
	case *ssa.Field:
		s, ok := e.get(p, x.X).(StructV)
		if !ok {
			return one(p, x, e.newSym(x.Type(), "field", freshOwner, false))
		}
		return one(p, x, s.F[x.Field])
	case *ssa.FieldAddr:
		v, ok := e.get(p, x.X).(PtrV)
		if !ok {
			e.fail("FieldAddr of %T at %s", e.get(p, x.X), e.p.pos(x.Pos()))
		}
		if !r.nonNil(p, v, x.Pos(), "pointer in field selection") {
			return nil
		}
		n := PtrV{Obj: v.Obj, Path: append(append([]PathElem(nil), v.Path...), PathElem{Field: x.Field})}
		return one(p, x, n)
	case *ssa.Index:
		return r.index(x, p)
	case *ssa.IndexAddr:
		return r.indexAddr(x, p)
	case *ssa.Lookup:
		return r.lookup(x, p)
	case *ssa.MapUpdate:
		return r.mapUpdate(x, p)
	case *ssa.Range:
		o := e.newObj(okCell, types.Typ[types.Int], freshOwner, "iterator")
		o.cell = ic(0)
		p.st.put(o)
		return one(p, x, IterV{X: e.get(p, x.X), Obj: o.id})
	case *ssa.Next:
		return bindAll(p, x, r.next(x, p))
	case *ssa.Slice:
		return r.slice(x, p)
	case *ssa.SliceToArrayPointer:
		e.fail("slice to array pointer conversion in %s", r.fr.fn)
	case *ssa.Store:
		a, ok := e.get(p, x.Addr).(PtrV)
		if !ok {
			e.fail("store through %T", e.get(p, x.Addr))
		}
		if !r.nonNil(p, a, x.Pos(), "pointer written through") {
			return nil
		}
		v := e.get(p, x.Val)
		e.onWrite(p.st, r.fr, x.Pos(), a.Obj, a.Path)
		if !e.initRun {
			e.checkEntryStore(p.st, a, v)
		}
		if !e.initRun && len(a.Path) == 0 {
			if n, ok := nilFlag(v); ok && e.keepsNonNil(p.st, a.Obj, x.Val.Type()) {
				if !e.oblige(p, r.fr, x.Pos(), "nil", "package variable that is initialised must not become nil", Con{n, eq}) {
					return nil
				}
			}
		}
		var out []*ps
		res := p.st.store(a, v)
		for _, s := range res {
			if s.dead {
				continue
			}
			n := p
			if len(res) > 1 {
				n = &ps{st: s, env: copyEnv(p.env), defers: p.defers}
			} else {
				n.st = s
			}
			out = append(out, n)
		}
		return out
	case *ssa.TypeAssert:
		return r.typeAssert(x, p)
	case *ssa.Call:
		fv, args := r.callee(x, p)
		outs := e.dispatch(r.fr, x, fv, args, p.st)
		var out []*ps
		for _, o := range outs {
			if o.st.dead {
				continue
			}
			n := p
			if len(outs) > 1 {
				n = &ps{st: o.st, env: copyEnv(p.env), defers: p.defers}
			} else {
				n.st = o.st
			}
			n.env[x] = o.ret
			e.afterCall(r.fr, n, x)
			out = append(out, n)
		}
		return out
	case *ssa.Defer:
		fv, args := r.callee(x, p)
		p.defers = append(append([]deferred(nil), p.defers...), deferred{x, fv, args})
		return []*ps{p}
	case *ssa.Go:
		fv, args := r.callee(x, p)
		s := p.st.clone()
		e.dispatch(r.fr, x, fv, args, s)
		return []*ps{p}
	case *ssa.Send, *ssa.Select:
		e.fail("channel operation in %s", r.fr.fn)
	}
	e.fail("unsupported instruction %T in %s", in, r.fr.fn)
	return nil
}

func (r *run) callee(c ssa.CallInstruction, p *ps) (Value, []Value) {
	cc := c.Common()
	var args []Value
	for _, a := range cc.Args {
		args = append(args, r.e.get(p, a))
	}
	return r.e.get(p, cc.Value), args
}

// ---- operators

func (r *run) binop(x *ssa.BinOp, p *ps) []valSt {
	e := r.e
	a, b := e.get(p, x.X), e.get(p, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		if ab, ok := a.(BoolV); ok && !ab.Const {
			if bb, ok := b.(BoolV); ok && !bb.Const {
				// compared conditions: by cases of the first
				t, f := p.st.split(ab)
				var out []valSt
				for _, s := range t {
					if x.Op == token.NEQ {
						out = append(out, valSt{s, bb.not()})
					} else {
						out = append(out, valSt{s, bb})
					}
				}
				for _, s := range f {
					if x.Op == token.NEQ {
						out = append(out, valSt{s, bb})
					} else {
						out = append(out, valSt{s, bb.not()})
					}
				}
				return out
			}
		}
		c := e.equalV(p.st, a, b)
		if x.Op == token.NEQ {
			c = c.not()
		}
		return []valSt{{p.st, c}}
	}
	t := x.X.Type()
	if isInt(t) {
		ai, bi := e.intOf(a, t), e.intOf(b, x.Y.Type())
		switch x.Op {
		case token.LSS:
			return []valSt{{p.st, cmpV(bi.L.sub(ai.L).addc(-1))}}
		case token.LEQ:
			return []valSt{{p.st, cmpV(bi.L.sub(ai.L))}}
		case token.GTR:
			return []valSt{{p.st, cmpV(ai.L.sub(bi.L).addc(-1))}}
		case token.GEQ:
			return []valSt{{p.st, cmpV(ai.L.sub(bi.L))}}
		}
		return r.arith(x, p, ai, bi)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			as, ok1 := a.(StrV)
			bs, ok2 := b.(StrV)
			if ok1 && ok2 && x.Op == token.ADD {
				return []valSt{{p.st, e.concat(p.st, as, bs)}}
			}
			if ok1 && ok2 && as.Const != nil && bs.Const != nil {
				var v bool
				switch x.Op {
				case token.LSS:
					v = *as.Const < *bs.Const
				case token.LEQ:
					v = *as.Const <= *bs.Const
				case token.GTR:
					v = *as.Const > *bs.Const
				case token.GEQ:
					v = *as.Const >= *bs.Const
				}
				return []valSt{{p.st, bconst(v)}}
			}
		}
	}
	return []valSt{{p.st, e.newSym(x.Type(), "op", freshOwner, false)}}
}

func cmpV(l Lin) BoolV {
	if l.isConst() {
		return bconst(l.c >= 0)
	}
	return bcon(Con{l, ge})
}

func (e *Eng) concat(st *State, a, b StrV) StrV {
	if a.Const != nil && b.Const != nil {
		return conStrV(*a.Const + *b.Const)
	}
	e.nid++
	arr := &Arr{base: baseZero, elem: types.Typ[types.Uint8], owner: freshOwner, name: "string"}
	n := a.Len.add(b.Len)
	arr.ovs = []Ov{
		{Lo: lc(0), Hi: a.Len, K: ovCopy, Src: a.Bytes, Delta: a.Off},
		{Lo: a.Len, Hi: n, K: ovCopy, Src: b.Bytes, Delta: b.Off.sub(a.Len)},
	}
	return describe(StrV{Len: n, Bytes: arr, ID: e.nid}, a, b)
}

func (r *run) arith(x *ssa.BinOp, p *ps, a, b IntV) []valSt {
	e, st, t := r.e, p.st, x.Type()
	res := func(v IntV) []valSt { return []valSt{{st, st.wrapArith(v, t)}} }
	fresh := func(name string) Lin {
		lo, hi, _ := typeBounds(t)
		return lv(e.vs.fresh(name, lo, hi))
	}
	defer func() {
		if o := recover(); o != nil {
			if _, ok := o.(linOverflow); ok {
				panic(undecided{"integer overflow in the analysis domain at " + e.p.pos(x.Pos())})
			}
			panic(o)
		}
	}()
	switch x.Op {
	case token.ADD:
		v := IntV{L: a.L.add(b.L)}
		if ma, mb := st.cheapMask(a), st.cheapMask(b); ma&mb == 0 {
			v.Has, v.Ones = true, ma|mb
		}
		return res(v)
	case token.SUB:
		return res(IntV{L: a.L.sub(b.L)})
	case token.MUL:
		if b.L.isConst() {
			return res(IntV{L: a.L.scale(b.L.c)})
		}
		if a.L.isConst() {
			return res(IntV{L: b.L.scale(a.L.c)})
		}
		for k := 0; k < 2; k++ {
			if lo, ok := st.inf(b.L); ok {
				if hi, ok := st.sup(b.L); ok && lo == hi {
					return res(IntV{L: a.L.scale(lo)})
				}
			}
			a, b = b, a
		}
		al, ok1 := st.inf(a.L)
		ah, ok2 := st.sup(a.L)
		bl, ok3 := st.inf(b.L)
		bh, ok4 := st.sup(b.L)
		if ok1 && ok2 && ok3 && ok4 {
			c := []int64{mulSat(al, bl), mulSat(al, bh), mulSat(ah, bl), mulSat(ah, bh)}
			sort.Slice(c, func(i, j int) bool { return c[i] < c[j] })
			v := lv(e.vs.fresh("product", c[0], c[3]))
			return res(IntV{L: v})
		}
		return res(IntV{L: fresh("product")})
	case token.QUO, token.REM:
		if !e.oblige(p, r.fr, x.Pos(), "div", "divisor must not be zero", Con{b.L, ne}) {
			return nil
		}
		st = p.st
		k := int64(0)
		if b.L.isConst() {
			k = b.L.c
		} else if lo, ok := st.inf(b.L); ok {
			if hi, ok := st.sup(b.L); ok && lo == hi {
				k = lo
			}
		}
		if k == 0 {
			// unknown divisor
			if x.Op == token.REM {
				v := e.vs.fresh("rem", negInf, posInf)
				if st.entails(Con{a.L, ge}) {
					v = e.vs.fresh("rem", 0, posInf)
					st.add(Con{a.L.sub(lv(v)), ge})
				}
				if st.entails(Con{b.L.addc(-1), ge}) {
					st.add(Con{b.L.sub(lv(v)).addc(-1), ge})
					st.add(Con{b.L.add(lv(v)).addc(-1), ge})
				}
				return []valSt{{st, iv(lv(v))}}
			}
			if st.entails(Con{a.L, ge}) && st.entails(Con{b.L.addc(-1), ge}) {
				v := e.vs.fresh("quot", 0, posInf)
				st.add(Con{a.L.sub(lv(v)), ge})
				return []valSt{{st, iv(lv(v))}}
			}
			return []valSt{{st, iv(fresh("quot"))}}
		}
		var out []valSt
		emit := func(s *State, neg bool) {
			l := a.L
			if neg {
				l = l.neg()
			}
			kk := k
			if kk < 0 {
				kk = -kk
			}
			q := s.fdiv(l, kk)
			s.add(Con{q, ge})
			if x.Op == token.QUO {
				if neg != (k < 0) {
					q = q.neg()
				}
				if kk == 1 {
					out = append(out, valSt{s, s.wrap(IntV{L: q}, t)})
				} else { // no overflow
					out = append(out, valSt{s, IntV{L: q}})
				}
				return
			}
			rem := l.sub(q.scale(kk))
			if neg {
				rem = rem.neg()
			}
			out = append(out, valSt{s, IntV{L: rem}})
		}
		yes, no := st.splitCon(Con{a.L, ge})
		for _, s := range yes {
			emit(s, false)
		}
		for _, s := range no {
			emit(s, true)
		}
		return out
	case token.AND:
		if a.L.isConst() {
			a, b = b, a
		}
		if b.L.isConst() && b.L.c >= 0 {
			v := st.andMask(a.L, uint64(b.L.c))
			v.Ones &= st.cheapMask(a)
			return res(v)
		}
		if b.L.isConst() { // x & negative = x - (x & ^c)
			v := st.andMask(a.L, uint64(^b.L.c))
			return res(IntV{L: a.L.sub(v.L)})
		}
		m := st.onesMask(a) & st.onesMask(b)
		v := e.vs.fresh("and", 0, posInf)
		if st.entails(Con{a.L, ge}) && st.entails(Con{b.L, ge}) {
			st.add(Con{a.L.sub(lv(v)), ge})
			st.add(Con{b.L.sub(lv(v)), ge})
			return res(IntV{L: lv(v), Ones: m, Has: true})
		}
		return res(IntV{L: fresh("and")})
	case token.AND_NOT:
		if b.L.isConst() && b.L.c >= 0 {
			v := st.andMask(a.L, uint64(b.L.c))
			o := IntV{L: a.L.sub(v.L), Ones: st.cheapMask(a) &^ uint64(b.L.c), Has: true}
			return res(o)
		}
		if st.entails(Con{a.L, ge}) {
			v := e.vs.fresh("andnot", 0, posInf)
			st.add(Con{a.L.sub(lv(v)), ge})
			return res(IntV{L: lv(v), Ones: st.onesMask(a), Has: true})
		}
		return res(IntV{L: fresh("andnot")})
	case token.OR, token.XOR:
		if a.L.isConst() {
			a, b = b, a
		}
		if b.L.isConst() && b.L.c >= 0 {
			v := st.andMask(a.L, uint64(b.L.c))
			k := int64(1)
			if x.Op == token.XOR {
				k = 2
			}
			o := IntV{L: a.L.add(b.L).sub(v.L.scale(k)), Ones: st.cheapMask(a) | uint64(b.L.c), Has: true}
			return res(o)
		}
		ma, mb := st.onesMask(a), st.onesMask(b)
		if ma&mb == 0 {
			return res(IntV{L: a.L.add(b.L), Ones: ma | mb, Has: true})
		}
		if st.entails(Con{a.L, ge}) && st.entails(Con{b.L, ge}) {
			v := e.vs.fresh("bits", 0, posInf)
			if x.Op == token.OR {
				st.add(Con{lv(v).sub(a.L), ge})
				st.add(Con{lv(v).sub(b.L), ge})
			}
			st.add(Con{a.L.add(b.L).sub(lv(v)), ge})
			m := ma | mb
			if m != ^uint64(0) && m < 1<<62 {
				st.add(Con{lv(v).neg().addc(int64(m)), ge})
			}
			return res(IntV{L: lv(v), Ones: m, Has: true})
		}
		return res(IntV{L: fresh("bits")})
	case token.SHL:
		if !st.entails(Con{b.L, ge}) {
			if !e.oblige(p, r.fr, x.Pos(), "shift", "shift count must not be negative", Con{b.L, ge}) {
				return nil
			}
		}
		if b.L.isConst() {
			if b.L.c < 62 {
				return res(IntV{L: a.L.scale(1 << uint(b.L.c)), Ones: st.cheapMask(a) << uint(b.L.c), Has: true})
			}
			return res(IntV{L: fresh("shl")})
		}
		return res(IntV{L: fresh("shl")})
	case token.SHR:
		if !st.entails(Con{b.L, ge}) {
			if !e.oblige(p, r.fr, x.Pos(), "shift", "shift count must not be negative", Con{b.L, ge}) {
				return nil
			}
		}
		if b.L.isConst() {
			if b.L.c < 62 {
				o := IntV{L: st.fdiv(a.L, int64(1)<<uint(b.L.c))}
				if m := st.cheapMask(a); m != ^uint64(0) {
					o.Ones, o.Has = m>>uint(b.L.c), true
				}
				return res(o)
			}
			return res(IntV{L: fresh("shr")})
		}
		if st.entails(Con{a.L, ge}) {
			v := e.vs.fresh("shr", 0, posInf)
			st.add(Con{a.L.sub(lv(v)), ge})
			return res(IntV{L: lv(v)})
		}
		return res(IntV{L: fresh("shr")})
	}
	return res(IntV{L: fresh("op")})
}

// cheapMask is onesMask without solver queries.
func (st *State) cheapMask(v IntV) uint64 {
	m := ^uint64(0)
	if v.Has {
		m = v.Ones
	}
	if v.L.isConst() {
		if v.L.c >= 0 {
			return uint64(v.L.c)
		}
		return m
	}
	lo, hi := st.ival(v.L)
	if lo >= 0 && hi != posInf {
		return st.onesMaskIval(v, m, hi)
	}
	return m
}

func (st *State) onesMaskIval(v IntV, m uint64, hi int64) uint64 {
	n := uint(0)
	for h := uint64(hi); h != 0; h >>= 1 {
		n++
	}
	m &= 1<<n - 1
	if g := v.L.gcd(); g > 1 {
		tz := uint(0)
		for g&1 == 0 && (v.L.c>>tz)&1 == 0 {
			g >>= 1
			tz++
		}
		m &^= 1<<tz - 1
	}
	return m
}

func (e *Eng) freshBool(name string) BoolV {
	return bcon(Con{lv(e.vs.fresh(name, 0, 1)).addc(-1), eq})
}

// equalV: a == b as an abstract boolean.
func (e *Eng) equalV(st *State, a, b Value) BoolV {
	eqc := func(l Lin) BoolV {
		if l.isConst() {
			return bconst(l.c == 0)
		}
		return bcon(Con{l, eq})
	}
	switch x := a.(type) {
	case IntV:
		if y, ok := b.(IntV); ok {
			return eqc(x.L.sub(y.L))
		}
	case BoolV:
		if y, ok := b.(BoolV); ok {
			if x.Const {
				x, y = y, x
			}
			if y.Const {
				if y.Val {
					return x
				}
				return x.not()
			}
			dx, dy := st.decide(x), st.decide(y)
			if dx >= 0 && dy >= 0 {
				return bconst(dx == dy)
			}
		}
	case StrV:
		if y, ok := b.(StrV); ok {
			if x.Const != nil && y.Const != nil {
				return bconst(*x.Const == *y.Const)
			}
			if x.Const == nil {
				x, y = y, x
			}
			if x.Const != nil {
				if *x.Const == "" {
					return eqc(y.Len)
				}
			} else if x.ID != 0 && x.ID == y.ID {
				return bconst(true)
			}
			return e.freshBool("string==")
		}
	case SliceV:
		if y, ok := b.(SliceV); ok {
			if y.Nil.isConst() && y.Nil.c == 1 {
				return eqc(x.Nil.addc(-1))
			}
			return eqc(y.Nil.addc(-1))
		}
	case MapV:
		if y, ok := b.(MapV); ok {
			if y.Nil.isConst() && y.Nil.c == 1 {
				return eqc(x.Nil.addc(-1))
			}
			return eqc(y.Nil.addc(-1))
		}
	case FuncV:
		if y, ok := b.(FuncV); ok {
			if y.Nil.isConst() && y.Nil.c == 1 {
				return eqc(x.Nil.addc(-1))
			}
			return eqc(y.Nil.addc(-1))
		}
	case PtrV:
		if y, ok := b.(PtrV); ok {
			if y.Nil.isConst() && y.Nil.c == 1 {
				return eqc(x.Nil.addc(-1))
			}
			if x.Nil.isConst() && x.Nil.c == 1 {
				return eqc(y.Nil.addc(-1))
			}
			if x.Obj == y.Obj && pathStr(e.vs, x.Path) == pathStr(e.vs, y.Path) {
				if x.Nil.eq(y.Nil) {
					return bconst(true)
				}
			}
			if x.Obj != y.Obj && x.Nil.isConst() && y.Nil.isConst() {
				ox, oy := st.obj(x.Obj), st.obj(y.Obj)
				if ox != nil && oy != nil && (ox.owner.Kind == ownFresh && e.initObj[x.Obj] == nil || oy.owner.Kind == ownFresh && e.initObj[y.Obj] == nil) {
					return bconst(false)
				}
			}
			return e.freshBool("pointer==")
		}
	case IfaceV:
		if y, ok := b.(IfaceV); ok {
			if y.Nil.isConst() && y.Nil.c == 1 {
				return eqc(x.Nil.addc(-1))
			}
			if x.Nil.isConst() && x.Nil.c == 1 {
				return eqc(y.Nil.addc(-1))
			}
			if x.ID != 0 && x.ID == y.ID {
				return bconst(true)
			}
			if x.Dyn != nil && y.Dyn != nil && x.Nil.isConst() && y.Nil.isConst() {
				if !types.Identical(x.Dyn, y.Dyn) {
					return bconst(false)
				}
				if x.Dyn == errorStringType && x.ID != 0 && y.ID != 0 {
					return bconst(x.ID == y.ID)
				}
			}
			return e.freshBool("interface==")
		}
	case StructV:
		if y, ok := b.(StructV); ok && len(x.F) == len(y.F) {
			r := BoolV{}
			for i := range x.F {
				c := e.equalV(st, x.F[i], y.F[i])
				if c.Const {
					if !c.Val {
						return bconst(false)
					}
					continue
				}
				if c.Neg {
					return e.freshBool("struct==")
				}
				r.And = append(r.And, c.And...)
			}
			if len(r.And) == 0 {
				return bconst(true)
			}
			return r
		}
	}
	return e.freshBool("==")
}

func (r *run) unop(x *ssa.UnOp, p *ps) []*ps {
	e := r.e
	v := e.get(p, x.X)
	switch x.Op {
	case token.MUL:
		ptr, ok := v.(PtrV)
		if !ok {
			e.fail("load through %T at %s", v, e.p.pos(x.Pos()))
		}
		if !r.nonNil(p, ptr, x.Pos(), "pointer dereferenced") {
			return nil
		}
		e.onLoad(p.st, r.fr, x.Pos(), ptr.Obj, ptr.Path)
		rs := p.st.load(ptr)
		for i := range rs {
			if av, ok := rs[i].v.(ArrV); ok && av.N < 0 {
				av.N = x.Type().Underlying().(*types.Array).Len()
				rs[i].v = av
			}
			if _, bad := rs[i].v.(OpaqueV); bad {
				if _, isb := x.Type().Underlying().(*types.Chan); !isb {
					rs[i].v = e.newSym(x.Type(), "load", &Owner{Kind: ownUnknown, Name: "load"}, false)
				}
			}
		}
		return bindAll(p, x, rs)
	case token.NOT:
		if b, ok := v.(BoolV); ok {
			return one(p, x, b.not())
		}
		return one(p, x, e.freshBool("not"))
	case token.SUB:
		if i, ok := v.(IntV); ok {
			return one(p, x, p.st.wrapArith(IntV{L: i.L.neg()}, x.Type()))
		}
		return one(p, x, v)
	case token.XOR:
		if i, ok := v.(IntV); ok {
			return one(p, x, p.st.wrap(IntV{L: i.L.neg().addc(-1)}, x.Type()))
		}
	case token.ARROW:
		e.fail("channel receive in %s", r.fr.fn)
	}
	return one(p, x, e.newSym(x.Type(), "unop", freshOwner, false))
}

func (r *run) convert(x *ssa.Convert, p *ps) []valSt {
	e, st := r.e, p.st
	v := e.get(p, x.X)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	ret := func(v Value) []valSt { return []valSt{{st, v}} }
	if isInt(x.X.Type()) && isInt(x.Type()) {
		return ret(st.wrap(e.intOf(v, x.X.Type()), x.Type()))
	}
	tb, toBasic := to.(*types.Basic)
	fb, fromBasic := from.(*types.Basic)
	if toBasic && tb.Info()&types.IsString != 0 {
		if fromBasic && fb.Info()&types.IsInteger != 0 {
			// string(rune)
			s := e.newStr("string(rune)", freshOwner)
			st.add(Con{s.Len.addc(-1), ge})
			st.add(Con{s.Len.neg().addc(4), ge})
			return ret(s)
		}
		if fromBasic && fb.Info()&types.IsString != 0 {
			return ret(v)
		}
		if sl, ok := v.(SliceV); ok {
			if isByte(sl.Elem) {
				if sl.Obj == 0 {
					return ret(conStrV(""))
				}
				e.nid++
				return ret(StrV{Len: sl.Len, Bytes: st.obj(sl.Obj).arr, Off: sl.Off, ID: e.nid})
			}
			// []rune -> string
			s := e.newStr("string(runes)", freshOwner)
			st.add(Con{sl.Len.scale(4).sub(s.Len), ge})
			st.add(Con{s.Len.sub(sl.Len), ge})
			return ret(s)
		}
		return ret(e.newStr("string", freshOwner))
	}
	if sl, ok := to.(*types.Slice); ok {
		if s, ok := v.(StrV); ok {
			o := e.newObj(okArray, sl.Elem(), freshOwner, "converted string")
			o.arr = &Arr{base: baseZero, elem: sl.Elem(), owner: freshOwner, name: "converted string"}
			if isByte(sl.Elem()) {
				if !s.Len.isConst() || s.Len.c > 0 {
					o.arr.ovs = []Ov{{Lo: lc(0), Hi: s.Len, K: ovCopy, Src: s.Bytes, Delta: s.Off}}
				}
				st.put(o)
				c := e.vs.fresh("cap", 0, lenMax)
				st.add(Con{lv(c).sub(s.Len), ge})
				return ret(SliceV{Obj: o.id, Len: s.Len, Cap: lv(c), Elem: sl.Elem()})
			}
			o.arr.base = baseUnknown
			if s.Const != nil {
				o.arr.base = baseZero
				rs := []rune(*s.Const)
				for i, c := range rs {
					o.arr = o.arr.with(Ov{Lo: lc(int64(i)), Hi: lc(int64(i) + 1), K: ovSingle, V: ic(int64(c))})
				}
				st.put(o)
				return ret(SliceV{Obj: o.id, Len: lc(int64(len(rs))), Cap: lc(int64(len(rs))), Elem: sl.Elem()})
			}
			st.put(o)
			n := e.vs.fresh("runes", 0, lenMax)
			st.add(Con{s.Len.sub(lv(n)), ge})
			st.add(Con{lv(n).scale(4).sub(s.Len), ge})
			return ret(SliceV{Obj: o.id, Len: lv(n), Cap: lv(n), Elem: sl.Elem()})
		}
		return ret(v)
	}
	if toBasic && tb.Info()&types.IsInteger != 0 {
		return ret(e.newSym(x.Type(), "converted", freshOwner, false))
	}
	if toBasic && tb.Info()&types.IsFloat != 0 {
		return ret(FloatV{})
	}
	return ret(v)
}

func (r *run) index(x *ssa.Index, p *ps) []*ps {
	e := r.e
	i := e.intOf(e.get(p, x.Index), x.Index.Type())
	switch a := e.get(p, x.X).(type) {
	case ArrV:
		n := x.X.Type().Underlying().(*types.Array).Len()
		if !e.oblige(p, r.fr, x.Pos(), "bounds", "array index in range", Con{i.L, ge}, Con{i.L.neg().addc(n - 1), ge}) {
			return nil
		}
		return bindAll(p, x, p.st.arrRead(a.A, i.L))
	case StrV:
		if !e.oblige(p, r.fr, x.Pos(), "bounds", "string index in range", Con{i.L, ge}, Con{a.Len.sub(i.L).addc(-1), ge}) {
			return nil
		}
		return bindAll(p, x, p.st.arrRead(a.Bytes, a.Off.add(i.L)))
	}
	return one(p, x, e.newSym(x.Type(), "index", freshOwner, true))
}

func (r *run) indexAddr(x *ssa.IndexAddr, p *ps) []*ps {
	e := r.e
	i := e.intOf(e.get(p, x.Index), x.Index.Type())
	switch a := e.get(p, x.X).(type) {
	case SliceV:
		if !e.oblige(p, r.fr, x.Pos(), "bounds", "slice index in range", Con{i.L, ge}, Con{a.Len.sub(i.L).addc(-1), ge}) {
			return nil
		}
		if a.Obj == 0 {
			return nil
		}
		return one(p, x, PtrV{Obj: a.Obj, Path: []PathElem{{Field: -1, Idx: a.Off.add(i.L)}}})
	case PtrV:
		if !r.nonNil(p, a, x.Pos(), "array pointer") {
			return nil
		}
		n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !e.oblige(p, r.fr, x.Pos(), "bounds", "array index in range", Con{i.L, ge}, Con{i.L.neg().addc(n - 1), ge}) {
			return nil
		}
		return one(p, x, PtrV{Obj: a.Obj, Path: append(append([]PathElem(nil), a.Path...), PathElem{Field: -1, Idx: i.L})})
	}
	e.fail("IndexAddr of %T at %s", e.get(p, x.X), e.p.pos(x.Pos()))
	return nil
}

func (r *run) slice(x *ssa.Slice, p *ps) []*ps {
	e := r.e
	v := e.get(p, x.X)
	opt := func(s ssa.Value) (Lin, bool) {
		if s == nil {
			return Lin{}, false
		}
		return e.intOf(e.get(p, s), s.Type()).L, true
	}
	lo, _ := opt(x.Low)
	switch a := v.(type) {
	case StrV:
		hi, ok := opt(x.High)
		if !ok {
			hi = a.Len
		}
		if !e.oblige(p, r.fr, x.Pos(), "bounds", "string slice bounds in range", Con{lo, ge}, Con{hi.sub(lo), ge}, Con{a.Len.sub(hi), ge}) {
			return nil
		}
		if a.Const != nil && lo.isConst() && hi.isConst() {
			return one(p, x, conStrV((*a.Const)[lo.c:hi.c]))
		}
		e.nid++
		return one(p, x, StrV{Len: hi.sub(lo), Bytes: a.Bytes, Off: a.Off.add(lo), ID: e.nid})
	case SliceV:
		hi, ok := opt(x.High)
		if !ok {
			hi = a.Len
		}
		max, ok3 := opt(x.Max)
		if !ok3 {
			max = a.Cap
		}
		cons := []Con{{lo, ge}, {hi.sub(lo), ge}, {max.sub(hi), ge}}
		if ok3 {
			cons = append(cons, Con{a.Cap.sub(max), ge})
		}
		if !e.oblige(p, r.fr, x.Pos(), "bounds", "slice bounds in range", cons...) {
			return nil
		}
		n := SliceV{Obj: a.Obj, Off: a.Off.add(lo), Len: hi.sub(lo), Cap: max.sub(lo), Nil: a.Nil, Elem: a.Elem}
		return one(p, x, n)
	case PtrV:
		if !r.nonNil(p, a, x.Pos(), "array pointer") {
			return nil
		}
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		hi, ok := opt(x.High)
		if !ok {
			hi = lc(at.Len())
		}
		max, ok3 := opt(x.Max)
		if !ok3 {
			max = lc(at.Len())
		}
		if !e.oblige(p, r.fr, x.Pos(), "bounds", "array slice bounds in range", Con{lo, ge}, Con{hi.sub(lo), ge}, Con{max.sub(hi), ge}, Con{max.neg().addc(at.Len()), ge}) {
			return nil
		}
		if len(a.Path) != 0 {
			e.fail("slice of an array inside another object at %s", e.p.pos(x.Pos()))
		}
		return one(p, x, SliceV{Obj: a.Obj, Off: lo, Len: hi.sub(lo), Cap: max.sub(lo), Elem: at.Elem()})
	}
	e.fail("Slice of %T at %s", v, e.p.pos(x.Pos()))
	return nil
}

// ---- maps

func (r *run) lookup(x *ssa.Lookup, p *ps) []*ps {
	e := r.e
	if s, ok := e.get(p, x.X).(StrV); ok {
		i := e.intOf(e.get(p, x.Index), x.Index.Type())
		if !e.oblige(p, r.fr, x.Pos(), "bounds", "string index in range", Con{i.L, ge}, Con{s.Len.sub(i.L).addc(-1), ge}) {
			return nil
		}
		return bindAll(p, x, p.st.arrRead(s.Bytes, s.Off.add(i.L)))
	}
	mt := x.X.Type().Underlying().(*types.Map)
	mk := func(v Value, ok bool) Value {
		if x.CommaOk {
			return TupleV{E: []Value{v, bconst(ok)}}
		}
		return v
	}
	m, ok := e.get(p, x.X).(MapV)
	if !ok {
		e.fail("Lookup in %T", e.get(p, x.X))
	}
	if m.Obj != 0 {
		e.onLoad(p.st, r.fr, x.Pos(), m.Obj, nil)
	}
	k := e.get(p, x.Index)
	if e.hooks.mapKey != nil && m.Obj != 0 {
		e.hooks.mapKey(p.st, r.fr, x.Pos(), m, k, nil, "lookup")
	}
	var out []valSt
	for _, rr := range e.mapLookup(p.st, m, mt, k) {
		out = append(out, valSt{rr.st, mk(rr.v, rr.found)})
	}
	return bindAll(p, x, out)
}

type mapRes struct {
	st    *State
	v     Value
	found bool
}

func (e *Eng) mapLookup(st *State, m MapV, mt *types.Map, k Value) []mapRes {
	zero := e.zero(mt.Elem())
	if m.Obj == 0 || st.isTrue01(m.Nil) {
		return []mapRes{{st, zero, false}}
	}
	o := st.obj(m.Obj)
	var out []mapRes
	cur := st.clone()
	// listed entries, latest first
	n := len(o.mp.keys)
	if ki, ok := k.(IntV); ok && n > 16 && !ki.L.isConst() {
		// large table: summarise
		if lo, hi, ok := mapHull(o.mp); ok {
			f := st.clone()
			v := e.vs.fresh("entry", lo, hi)
			out = append(out, mapRes{f, iv(lv(v)), true})
			return append(out, mapRes{st.clone(), zero, false})
		}
	}
	if ki, ok := k.(IntV); ok && n > 4 && !ki.L.isConst() && !o.mp.unknown {
		if lo, hi, ok := mapHull(o.mp); ok {
			f := st.clone()
			v := e.vs.fresh("entry", lo, hi)
			out = append(out, mapRes{f, iv(lv(v)), true})
			return append(out, mapRes{st.clone(), zero, false})
		}
	}
	for i := n - 1; i >= 0 && !cur.dead; i-- {
		b := e.equalV(cur, k, o.mp.keys[i])
		yes, no := cur.split(b)
		for _, y := range yes {
			if o.mp.vals[i] == nil { // deleted
				out = append(out, mapRes{y, zero, false})
				continue
			}
			out = append(out, mapRes{y, o.mp.vals[i], true})
		}
		if len(no) == 0 {
			return out
		}
		cur = no[0]
	}
	if o.mp.unknown {
		f := cur.clone()
		var v Value
		if pt, ok := mt.Elem().Underlying().(*types.Pointer); ok && o.mp.later {
			v = e.newPtr(f, pt.Elem(), e.newSym(pt.Elem(), "later map entry", freshOwner, true), "map entry")
			e.assumeEntry(f, mt, k, v)
			out = append(out, mapRes{f, v, true})
			return append(out, mapRes{cur, zero, false})
		}
		key := fmt.Sprintf("map%d:%s", m.Obj, e.keyStr(k))
		if len(o.mp.keys) == 0 && e.initObj[m.Obj] != nil {
			if w, ok := e.initVal[key]; ok {
				v = w
			} else {
				v = e.newSym(mt.Elem(), "map entry", o.owner, true)
				e.initVal[key] = v
			}
		} else {
			v = e.newSym(mt.Elem(), "map entry", o.owner, true)
		}
		e.assumeEntry(f, mt, k, v)
		if e.hooks.ghosts {
			// remember what the lookup found
			learn := func(s *State, v Value) {
				o := *s.obj(m.Obj)
				mc := *o.mp
				mc.keys = append(append([]Value(nil), mc.keys...), k)
				mc.vals = append(append([]Value(nil), mc.vals...), v)
				o.mp = &mc
				s.put(&o)
			}
			learn(f, v)
			cur = cur.clone()
			learn(cur, nil)
		}
		out = append(out, mapRes{f, v, true})
	}
	return append(out, mapRes{cur, zero, false})
}

// constEntries lists the entries of a map with constant integer keys, in key
// order (ascending or descending).
func constEntries(m *MapC, desc bool) ([]int64, []Value, bool) {
	if m.unknown {
		return nil, nil, false
	}
	cur := map[int64]Value{}
	for i, k := range m.keys {
		ki, ok := k.(IntV)
		if !ok || !ki.L.isConst() {
			return nil, nil, false
		}
		if m.vals[i] == nil {
			delete(cur, ki.L.c)
		} else {
			cur[ki.L.c] = m.vals[i]
		}
	}
	var ks []int64
	for k := range cur {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(a, b int) bool { return (ks[a] < ks[b]) != desc })
	var vs []Value
	for _, k := range ks {
		vs = append(vs, cur[k])
	}
	return ks, vs, true
}

func mapHull(m *MapC) (lo, hi int64, ok bool) {
	if len(m.vals) == 0 || m.unknown {
		return 0, 0, false
	}
	if m.sum == nil {
		s := &mapSum{valLo: posInf, valHi: negInf, ok: true}
		for _, v := range m.vals {
			if v == nil {
				continue
			}
			i, isI := v.(IntV)
			if !isI || !i.L.isConst() {
				s.ok = false
				break
			}
			if i.L.c < s.valLo {
				s.valLo = i.L.c
			}
			if i.L.c > s.valHi {
				s.valHi = i.L.c
			}
		}
		m.sum = s
	}
	return m.sum.valLo, m.sum.valHi, m.sum.ok
}

func (e *Eng) keyStr(v Value) string {
	switch x := v.(type) {
	case IntV:
		return x.L.key()
	case StrV:
		if x.Const != nil {
			return "\"" + *x.Const
		}
		if x.Fmt != "" {
			s := "f" + x.Fmt
			for _, q := range x.Parts {
				s += "|" + e.keyStr(q.V)
			}
			return s
		}
		return fmt.Sprintf("s%d", x.ID)
	case IfaceV:
		return "i" + e.keyStr(x.Val)
	case BoolV:
		return fmt.Sprintf("b%v", x)
	case StructV:
		s := "{"
		for _, f := range x.F {
			s += e.keyStr(f) + ","
		}
		return s
	}
	e.nid++
	return fmt.Sprintf("?%d", e.nid)
}

func (r *run) mapUpdate(x *ssa.MapUpdate, p *ps) []*ps {
	e := r.e
	m, ok := e.get(p, x.Map).(MapV)
	if !ok {
		e.fail("MapUpdate of %T", e.get(p, x.Map))
	}
	if !e.oblige(p, r.fr, x.Pos(), "nilmap", "map written must not be nil", Con{m.Nil, eq}) || m.Obj == 0 {
		return nil
	}
	e.onWrite(p.st, r.fr, x.Pos(), m.Obj, nil)
	o := *p.st.obj(m.Obj)
	mc := *o.mp
	k, v := e.get(p, x.Key), e.get(p, x.Value)
	if e.hooks.mapKey != nil && !e.initRun {
		e.hooks.mapKey(p.st, r.fr, x.Pos(), m, k, v, "update")
	}
	o = *p.st.obj(m.Obj)
	if !e.initRun {
		if mt, ok := x.Map.Type().Underlying().(*types.Map); ok {
			e.checkEntry(p.st, mt, k, v)
		}
	}
	if !e.initRun && !e.opts.Exact && len(mc.keys) >= 24 {
		mc.keys, mc.vals, mc.unknown = nil, nil, true
	}
	mc.keys = append(append([]Value(nil), mc.keys...), k)
	mc.vals = append(append([]Value(nil), mc.vals...), v)
	mc.sum = nil
	o.mp = &mc
	p.st.put(&o)
	return []*ps{p}
}

func (r *run) next(x *ssa.Next, p *ps) []valSt {
	e, st := r.e, p.st
	it, ok := e.get(p, x.Iter).(IterV)
	if !ok {
		e.fail("Next of %T", e.get(p, x.Iter))
	}
	if s, ok := it.X.(StrV); ok {
		o := st.obj(it.Obj)
		pos := o.cell.(IntV)
		var out []valSt
		yes, no := st.splitCon(Con{s.Len.sub(pos.L).addc(-1), ge})
		for _, y := range yes {
			w := e.vs.fresh("width", 1, 4)
			np := pos.L.add(lv(w))
			y.add(Con{s.Len.sub(np), ge})
			n := *y.obj(it.Obj)
			n.cell = iv(np)
			y.put(&n)
			ru := e.vs.fresh("rune", 0, 0x10ffff)
			out = append(out, valSt{y, TupleV{E: []Value{bconst(true), pos, iv(lv(ru))}}})
		}
		for _, n := range no {
			out = append(out, valSt{n, TupleV{E: []Value{bconst(false), ic(0), ic(0)}}})
		}
		return out
	}
	m := it.X.(MapV)
	tt := x.Type().(*types.Tuple)
	var kt, vt types.Type = tt.At(1).Type(), tt.At(2).Type()
	done := valSt{st.clone(), nil}
	zv := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return OpaqueV{}
		}
		return e.zero(t)
	}
	done.v = TupleV{E: []Value{bconst(false), zv(kt), zv(vt)}}
	if m.Obj == 0 {
		return []valSt{done}
	}
	if r.fr != nil {
		e.onLoad(st, r.fr, x.Pos(), m.Obj, nil)
	}
	o := st.obj(m.Obj)
	if len(o.mp.keys) == 0 && !o.mp.unknown {
		return []valSt{done}
	}
	if e.initRun || e.opts.Exact {
		if ks, vs, ok := constEntries(o.mp, e.opts.MapDesc); ok {
			it0 := st.obj(it.Obj)
			i := it0.cell.(IntV).L
			if i.isConst() {
				if int(i.c) >= len(ks) {
					return []valSt{done}
				}
				n := *it0
				n.cell = ic(i.c + 1)
				st.put(&n)
				return []valSt{{st, TupleV{E: []Value{bconst(true), ic(ks[i.c]), vs[i.c]}}}}
			}
		}
	}
	sym := func(t types.Type, name string) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return OpaqueV{}
		}
		return e.newSym(t, name, o.owner, true)
	}
	mt := o.typ.Underlying().(*types.Map)
	y := st.clone()
	k := sym(kt, "key")
	var v Value = OpaqueV{}
	if b, ok := vt.(*types.Basic); !ok || b.Kind() != types.Invalid {
		if lo, hi, ok := mapHull(o.mp); ok {
			v = iv(lv(e.vs.fresh("entry", lo, hi)))
		} else {
			v = sym(mt.Elem(), "entry")
		}
	}
	if e.hooks.rangeNext != nil && r.fr != nil {
		e.hooks.rangeNext(y, r.fr, x.Pos(), m, v)
		e.hooks.rangeNext(done.st, r.fr, x.Pos(), m, nil)
	}
	return []valSt{{y, TupleV{E: []Value{bconst(true), k, v}}}, done}
}

// ---- interfaces

func (r *run) typeAssert(x *ssa.TypeAssert, p *ps) []*ps {
	e := r.e
	v, ok := e.get(p, x.X).(IfaceV)
	if !ok {
		e.fail("TypeAssert of %T", e.get(p, x.X))
	}
	at := x.AssertedType
	iface, toIface := at.Underlying().(*types.Interface)
	mk := func(val Value, ok bool) Value {
		if x.CommaOk {
			return TupleV{E: []Value{val, bconst(ok)}}
		}
		return val
	}
	var out []valSt
	yes := func(s *State, val Value) {
		if e.hooks.asserted != nil {
			e.hooks.asserted(s, at)
		}
		out = append(out, valSt{s, mk(val, true)})
	}
	no := func(s *State) {
		if x.CommaOk {
			out = append(out, valSt{s, mk(e.zero(at), false)})
			return
		}
		q := p.withState(s)
		e.record(q.st, r.fr, x.Pos(), "typeassert", "type assertion must succeed", false, Con{})
	}
	nn, isn := p.st.splitCon(Con{v.Nil, eq})
	for _, s := range isn {
		no(s)
	}
	for _, s := range nn {
		if v.Dyn != nil {
			match := false
			if toIface {
				match = types.Implements(v.Dyn, iface)
			} else {
				match = types.Identical(v.Dyn, at)
			}
			if match {
				if toIface {
					yes(s, v)
				} else {
					yes(s, v.Val)
				}
			} else {
				no(s)
			}
			continue
		}
		excluded := false
		for _, t := range v.Not {
			if types.Identical(t, at) {
				excluded = true
			}
		}
		if !excluded {
			key := fmt.Sprintf("as%d:%s", v.ID, at.String())
			val, ok := e.asserted[key]
			if !ok {
				if toIface {
					nv := v
					nv.Nil = Lin{}
					val = nv
				} else {
					val = e.newSym(at, "asserted", &Owner{Kind: ownUnknown, Name: "asserted"}, true)
				}
				e.asserted[key] = val
			}
			yes(s.clone(), val)
		}
		no(s)
	}
	return bindAll(p, x, out)
}

var dbgLimit = func() time.Duration {
	d, _ := time.ParseDuration(os.Getenv("SMSVERIF_LIMIT"))
	return d
}()

// recordMsg records an obligation with an explanation.
func (e *Eng) recordMsg(st *State, fr *Frame, pos token.Pos, kind, what string, ok bool, detail string) {
	if e.quiet > 0 || e.initRun {
		return
	}
	e.stats.obligations++
	e.rec.add(e, st, fr, pos, kind, what, ok, detail)
}
