package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- obligations recorded by the abstract interpreter

// obSite is one proof obligation of the source: a rule at a construct.
type obSite struct {
	fn   string // the function whose code carries the obligation
	pos  string
	kind string
	what string
}

type recEntry struct {
	site   obSite
	ok     bool
	detail string
	stack  string
	trail  []string
	root   string
}

// Recorder collects obligations. It supports transactions, as an abandoned
// unrolling of a loop does not count.
type Recorder struct {
	log  []recEntry
	keep func(kind string) bool
}

func (r *Recorder) mark() int      { return len(r.log) }
func (r *Recorder) rollback(n int) { r.log = r.log[:n] }

func (r *Recorder) add(e *Eng, st *State, fr *Frame, pos token.Pos, kind, what string, ok bool, detail string) {
	if r.keep != nil && !r.keep(kind) {
		return
	}
	x := recEntry{site: obSite{fn: "-", pos: e.p.pos(pos), kind: kind, what: what}, ok: ok, root: e.root}
	if fr != nil {
		x.site.fn = fname(fr.fn)
	}
	if !ok {
		x.detail = detail
		x.stack = fr.stack(e.p)
		for t := st.trail; t != nil && len(x.trail) < 14; t = t.up {
			x.trail = append(x.trail, t.msg)
		}
	}
	r.log = append(r.log, x)
}

// ---- hooks of the interpreter

// Hooks let a property attach obligations to program events.
type Hooks struct {
	onReturn  func(fr *Frame, p *ps, x *ssa.Return, v Value)
	afterCall func(fr *Frame, p *ps, x *ssa.Call)
	onWrite   func(st *State, fr *Frame, pos token.Pos, obj ObjID, path []PathElem)
	onLoad    func(st *State, fr *Frame, pos token.Pos, obj ObjID, path []PathElem)
	// call intercepts a call before the models; handled=false: continue
	call func(fr *Frame, c ssa.CallInstruction, fn *ssa.Function, args []Value, st *State) ([]Outcome, bool)
	// unknownCall is told of a call of a function value which is not module code
	unknownCall func(fr *Frame, pos token.Pos, what string, st *State)
	// dynInvoke is told of the arguments of a method of unknown dynamic type
	dynInvoke func(fr *Frame, pos token.Pos, args []Value, st *State)
	afterFunc func(fr *Frame, c ssa.CallInstruction, args []Value, t PtrV, st *State)
	timer     func(fr *Frame, c ssa.CallInstruction, op string, t PtrV, st *State)
	async     func(st *State)
	// mapKey is told of lookups, updates and deletions of map entries
	mapKey    func(st *State, fr *Frame, pos token.Pos, m MapV, key, val Value, op string)
	rangeNext func(st *State, fr *Frame, pos token.Pos, m MapV, v Value)
	called    func(fr *Frame, fn *ssa.Function, o Outcome)
	lockOp    func(st *State, op string)
	timerOp   func(fr *Frame, pos token.Pos, op string, t PtrV, st *State, result Value)
	// dynCall is told of calls of unknown functions, with their arguments
	dynCall func(fr *Frame, pos token.Pos, args []Value, st *State)
	// ghosts: the hooks change the state, so they run while invariants are
	// being inferred too
	ghosts      bool
	threadStart func(st *State, later bool) bool
	threadEnd   func(fr *Frame, pos token.Pos, st *State, later bool)
	// asserted is told of a successful assertion of an interface to a type
	asserted func(st *State, t types.Type)
}

func (e *Eng) onReturn(fr *Frame, p *ps, x *ssa.Return, v Value) {
	if e.hooks.onReturn != nil {
		e.hooks.onReturn(fr, p, x, v)
	}
}

func (e *Eng) afterCall(fr *Frame, p *ps, x *ssa.Call) {
	if e.hooks.afterCall != nil {
		e.hooks.afterCall(fr, p, x)
	}
}

func (e *Eng) onWrite(st *State, fr *Frame, pos token.Pos, obj ObjID, path []PathElem) {
	if e.hooks.onWrite != nil && (e.quiet == 0 || e.hooks.ghosts) && !e.initRun {
		e.hooks.onWrite(st, fr, pos, obj, path)
	}
}

func (e *Eng) onLoad(st *State, fr *Frame, pos token.Pos, obj ObjID, path []PathElem) {
	if e.hooks.onLoad != nil && e.quiet == 0 && !e.initRun {
		e.hooks.onLoad(st, fr, pos, obj, path)
	}
}

// ---- results of a check

// Viol is one violation found by a check.
type Viol struct {
	Key string // stable: rule and construct, no line numbers
	Pos string
	Msg string
}

// Report is the result of one check.
type Report struct {
	Prop        string
	Viols       []Viol
	Obligations int
	Discharged  int
	Rule        string
	Samples     []string
	Stats       map[string]interface{}
	Assume      []string
	Explain     string
	Trusted     []string
	seen        map[string]bool
}

func newReport(prop string) *Report {
	return &Report{Prop: prop, Stats: map[string]interface{}{}, seen: map[string]bool{}}
}

func (r *Report) ok(n int) {
	r.Obligations += n
	r.Discharged += n
}

func (r *Report) sample(format string, a ...interface{}) {
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, a...))
	}
}

// viol reports a failed obligation (once per key).
func (r *Report) viol(key, pos, format string, a ...interface{}) {
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	r.Obligations++
	r.Viols = append(r.Viols, Viol{key, pos, fmt.Sprintf(format, a...)})
}

// check adds one obligation.
func (r *Report) check(ok bool, key, pos, format string, a ...interface{}) bool {
	if ok {
		r.ok(1)
		return true
	}
	r.viol(key, pos, format, a...)
	return false
}

func (r *Report) count(name string, n int) {
	c, _ := r.Stats[name].(int)
	r.Stats[name] = c + n
}

// absorb turns recorded obligations into the report.
func (r *Report) absorb(log []recEntry) {
	type agg struct {
		site obSite
		n    int
		bad  *recEntry
	}
	m := map[obSite]*agg{}
	var order []*agg
	for i := range log {
		x := &log[i]
		a := m[x.site]
		if a == nil {
			a = &agg{site: x.site}
			m[x.site] = a
			order = append(order, a)
		}
		a.n++
		if !x.ok && (a.bad == nil || len(x.stack) < len(a.bad.stack)) {
			a.bad = x
		}
	}
	sort.SliceStable(order, func(i, j int) bool { return order[i].site.pos < order[j].site.pos })
	for i, a := range order {
		r.count("contexts", a.n)
		if a.bad == nil {
			r.ok(1)
			if i%(len(order)/8+1) == 0 {
				r.sample("%s %s in %s: %s (discharged in %d contexts)", a.site.pos, a.site.kind, a.site.fn, a.site.what, a.n)
			}
			continue
		}
		key := a.site.kind + "|" + a.site.fn + "|" + a.site.what
		msg := fmt.Sprintf("[%s] in %s: %s", a.site.kind, a.site.fn, a.site.what)
		if a.bad.detail != "" {
			msg += "; " + a.bad.detail
		}
		msg += "; analysed from " + a.bad.root
		if a.bad.stack != "" {
			msg += "; call path: " + a.bad.stack
		}
		if len(a.bad.trail) > 0 {
			msg += "; branches (latest first): " + strings.Join(a.bad.trail, ", ")
		}
		r.viol(key, a.site.pos, "%s", msg)
	}
}
