package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	rpo      []*ssa.BasicBlock
	byHeader map[*ssa.BasicBlock]*loop
}

func (e *Eng) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := e.loopCache[fn]; ok {
		return li
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	idx := map[*ssa.BasicBlock]int{}
	for i := len(post) - 1; i >= 0; i-- {
		idx[post[i]] = len(li.rpo)
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				if idx[s] <= idx[b] {
					e.fail("irreducible control flow in %s", fn)
				}
				continue
			}
			l := li.byHeader[s]
			if l == nil {
				l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				li.byHeader[s] = l
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
	// a block order in which a loop's blocks precede what follows the loop:
	// reverse post-order does this for reducible graphs as the loop is
	// interpreted as a unit from its header
	e.loopCache[fn] = li
	return li
}

func (e *Eng) isRange(l *loop) bool {
	for _, in := range l.header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

const (
	unrollMax  = 20
	unrollBig  = 400
	genRounds  = 14
	unrollPart = 24
)

// loop interprets a whole loop for each entry partition.
func (r *run) loop(l *loop, states []*ps) []edgeState {
	var out []edgeState
	for _, s := range states {
		out = append(out, r.loopOne(l, s)...)
	}
	return out
}

func (r *run) loopOne(l *loop, s *ps) []edgeState {
	e := r.e
	e.stats.loops++
	// 1. complete unrolling, when the number of iterations is decided
	mark, nouts, budget := e.rec.mark(), len(r.outs), e.stats.blocks
	_ = budget
	cur := []*ps{s.clone()}
	var exits []edgeState
	ok := false
	for iter := 0; iter < unrollBig; iter++ {
		back, ex := r.exec(l, l.header, cur)
		exits = append(exits, ex...)
		if len(back) == 0 {
			ok = true
			break
		}
		undecided := false
		for _, x := range ex {
			if x.from == l.header {
				undecided = true
			}
		}
		if undecided || iter >= unrollMax && len(back) > 1 || len(back) > unrollPart || len(exits) > 4*unrollPart || len(r.outs)-nouts > 4*unrollPart {
			break
		}
		cur = nil
		for _, b := range back {
			cur = append(cur, b.p)
		}
	}
	if ok {
		return exits
	}
	e.rec.rollback(mark)
	r.outs = r.outs[:nouts]
	return r.generalise(l, s)
}

// quietly runs f without recording and without keeping function outcomes.
func (r *run) quietly(f func()) {
	e := r.e
	mark, nouts := e.rec.mark(), len(r.outs)
	e.quiet++
	f()
	e.quiet--
	e.rec.rollback(mark)
	r.outs = r.outs[:nouts]
}

// generalise computes a loop invariant over slots and template inequalities
// and interprets the body once more from it.
func (r *run) generalise(l *loop, s *ps) []edgeState {
	e := r.e
	live := e.liveAt(r.fr.fn)[l.header]
	names := sortedLive(live)
	fixed := len(e.vs.info)
	fixedObj, fixedID := e.nobj, e.nid
	base := s.st
	places, placeObjs, kept := map[string]Var{}, map[string]ObjID{}, map[string]Value{}
	kvar := e.vs.fresh("iter", 0, posInf)

	// the invariant under construction
	type pt struct {
		st  *State
		env map[ssa.Value]Value
	}
	entry := pt{base, map[ssa.Value]Value{}}
	for _, v := range names {
		if x, ok := s.env[v]; ok {
			entry.env[v] = x
		}
	}
	strides := map[Var]*stride{}
	bounds := map[string]*tform{} // template inequalities by form key
	var forder []string
	var backs []edgeState

	runBody := func(inv *ps, record bool) (back, ex []edgeState) {
		return r.exec(l, l.header, []*ps{inv})
	}

	inv := &ps{st: base.clone(), env: copyEnv(entry.env), defers: s.defers}
	var inst []*slotInst // per slot: entry and back values
	stable := false
	var prevKey string
	for round := 0; ; round++ {
		if round > genRounds {
			e.fail("no loop invariant found for the loop at %s in %s", e.p.pos(loopPos(l)), r.fr.fn)
		}
		backs = nil
		r.quietly(func() {
			b, _ := runBody(&ps{st: inv.st.clone(), env: copyEnv(inv.env), defers: s.defers}, false)
			for _, x := range b {
				if !x.p.st.dead {
					backs = append(backs, x)
				}
			}
		})
		if len(backs) == 0 && round == 0 {
			stable = true
			break
		}
		// join entry and backs
		src := []*State{base}
		for _, b := range backs {
			src = append(src, b.p.st)
		}
		jj := newJoiner(e, src)
		jj.fixed = fixed
		jj.loop = true
		jj.fixedObj, jj.fixedID = fixedObj, fixedID
		jj.out = &State{e: e, mem: map[ObjID]*Object{}, cs: base.cs, trail: &trail{base.trail, "loop at " + e.p.pos(loopPos(l))}, lost: base.lost}
		// keep the slots of earlier rounds: same place, same variable
		jj.place, jj.placeObj, jj.keep = places, placeObjs, kept
		jj.memory()
		env := map[ssa.Value]Value{}
		for _, v := range names {
			ev, ok := entry.env[v]
			if !ok {
				continue
			}
			col := []Value{ev}
			same := true
			k0 := valKey(ev)
			for _, b := range backs {
				bv, ok := b.p.env[v]
				if !ok {
					e.fail("no value for %s at a back edge in %s", v.Name(), r.fr.fn)
				}
				col = append(col, bv)
				if valKey(bv) != k0 {
					same = false
				}
			}
			if same {
				env[v] = ev
				jj.keepObjs(ev)
				continue
			}
			env[v] = jj.value(v.Name()+valName(v), v.Type(), col)
		}
		var lvals []Value
		for _, v := range names {
			if x, ok := env[v]; ok {
				lvals = append(lvals, x)
			}
		}
		jj.closure(lvals)
		jj.symAlias()
		jj.collect(lvals)
		slots := jj.slots
		// the ghost iteration counter
		inst = nil
		for _, sl := range slots {
			inst = append(inst, &slotInst{sl.v, sl.vals[0], sl.vals[1:]})
		}
		kin := &slotInst{kvar, lc(0), nil}
		for range backs {
			kin.back = append(kin.back, lv(kvar).addc(1))
		}
		inst = append(inst, kin)
		// candidate forms
		for _, f := range r.candidateForms(base, backs, inst, fixed, kvar) {
			k := f.key()
			if bounds[k] == nil && len(forder) < maxForms {
				bounds[k] = &tform{f: f}
				forder = append(forder, k)
			}
		}
		changed := r.findStrides(strides, inst, kvar, fixed)
		// bounds of the forms: entry first, then weakened by the back edges
		for _, k := range forder {
			t := bounds[k]
			if t.dead {
				continue
			}
			for _, x := range t.f.t {
				known := e.vs.stableVar(x.v, fixed)
				for _, sl := range inst {
					if sl.v == x.v {
						known = true
					}
				}
				if !known {
					t.dead = true
				}
			}
			if t.init && !t.dead && !base.entails(Con{substInst(t.f, inst, -1).addc(-t.b), ge}) {
				t.dead = true
			}
			if t.dead {
				changed = true
				continue
			}
			if !t.init {
				m, ok := base.inf(substInst(t.f, inst, -1))
				t.init = true
				changed = true
				if !ok || m < negInf/4 || m > posInf/4 {
					t.dead = true
					continue
				}
				t.b = m
				continue // tested against the back edges next round
			}
			for i, b := range backs {
				at := substInst(t.f, inst, i)
				if b.p.st.entails(Con{at.addc(-t.b), ge}) {
					continue
				}
				changed = true
				t.weak++
				m, ok := b.p.st.inf(at)
				if t.weak > 2 || !ok || m < negInf/4 {
					t.dead = true
					break
				}
				if m < t.b {
					t.b = m
				}
			}
		}
		st := jj.out
		for _, sl := range inst {
			if x := strides[sl.v]; x != nil && x.g > 1 {
				st.add(Con{lv(sl.v).sub(sl.entry).sub(lv(x.q).scale(x.g)), eq})
			}
		}
		for _, k := range forder {
			t := bounds[k]
			if t.dead || !t.init {
				continue
			}
			if c := (Con{t.f.addc(-t.b), ge}); !st.entails(c) {
				st.add(c)
			}
		}
		key := stateKey(st, env, names)
		inv = &ps{st: st, env: env, defers: s.defers}
		if !changed && key == prevKey {
			stable = true
			break
		}
		if loopDebug {
			for i := range backs {
				for _, sl := range inst {
					fmt.Printf("   back %d: %s -> %s\n", i, e.vs.str(lv(sl.v)), e.vs.str(sl.back[i]))
				}
				for _, c := range backs[i].p.st.cs.all {
					fmt.Printf("     bcon %s\n", e.vs.conStr(c))
				}
			}
			fmt.Printf("== loop %s round %d changed=%v\n", e.p.pos(loopPos(l)), round, changed)
			for _, v := range names {
				if x, ok := env[v]; ok {
					fmt.Printf("  %s = %s\n", v.Name(), valKey(x))
				}
			}
			for _, c := range st.cs.all {
				fmt.Printf("  con %s\n", e.vs.conStr(c))
			}
			for _, id := range sortedObjs(st) {
				o := st.mem[id]
				if base.obj(id) != o {
					d := ""
					switch {
					case o.cell != nil:
						d = valKey(o.cell)
					case o.arr != nil:
						d = arrKey(o.arr)
					}
					fmt.Printf("  obj %d %s %s %s\n", id, o.site, d, fmt.Sprint(o.alias))
				}
			}
		}
		prevKey = key
	}
	_ = stable
	// termination: a ranking function over the slots
	r.ranking(l, inv, inst, backs, kvar)
	// final pass
	final := &ps{st: inv.st.clone(), env: copyEnv(inv.env), defers: s.defers}
	_, exits := r.exec(l, l.header, []*ps{final})
	return exits
}

var loopDebug = os.Getenv("SMSVERIF_LOOP") != ""

func sortedObjs(st *State) []ObjID {
	var ids []ObjID
	for id := range st.mem {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
	return ids
}

// stride records that a slot differs from its value at entry by a multiple of
// g, namely g*q.
type stride struct {
	g int64
	q Var
}

// findStrides updates the strides of the slots whose every change is a known
// constant. A slot that changes by the same constant every time is related to
// the iteration counter instead.
func (r *run) findStrides(m map[Var]*stride, inst []*slotInst, kvar Var, fixed int) (changed bool) {
	e := r.e
	for _, s := range inst {
		if s.v == kvar {
			continue
		}
		old := m[s.v]
		if old != nil && old.g == 1 {
			continue
		}
		g, ok := int64(0), len(s.back) > 1 || old != nil
		for _, x := range s.entry.t {
			if !e.vs.stableVar(x.v, fixed) {
				ok = false
			}
		}
		same := true
		first := int64(0)
		for i, b := range s.back {
			d := b.sub(lv(s.v))
			if !d.isConst() {
				ok = false
				break
			}
			g = gcd64(g, d.c)
			if i == 0 {
				first = d.c
			} else if d.c != first {
				same = false
			}
		}
		if old == nil && (same || !ok || g < 2 || g > 1<<16) {
			continue
		}
		if !ok || g != 0 && g < 2 {
			m[s.v] = &stride{g: 1}
			changed = changed || old != nil
			continue
		}
		if old == nil {
			m[s.v] = &stride{g: g, q: e.vs.fresh("stride", negInf, posInf)}
			changed = true
			continue
		}
		if h := gcd64(old.g, g); h != old.g {
			old.g = h
			changed = true
		}
	}
	return
}

const maxForms = 400

type tform struct {
	f    Lin
	b    int64
	init bool
	dead bool
	weak int
}

type slotInst struct {
	v     Var
	entry Lin
	back  []Lin
}

// substInst rewrites the slots by their entry (i = -1) or back edge values,
// simultaneously.
func substInst(f Lin, inst []*slotInst, i int) Lin {
	r := lc(f.c)
	for _, x := range f.t {
		done := false
		for _, s := range inst {
			if s.v == x.v {
				v := s.entry
				if i >= 0 {
					v = s.back[i]
				}
				r = r.add(v.scale(x.c))
				done = true
				break
			}
		}
		if !done {
			r = r.add(Lin{t: []term{x}})
		}
	}
	return r
}

func valName(v ssa.Value) string {
	if ph, ok := v.(*ssa.Phi); ok && ph.Comment != "" {
		return "(" + ph.Comment + ")"
	}
	return ""
}

func loopPos(l *loop) token.Pos {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func stateKey(st *State, env map[ssa.Value]Value, names []ssa.Value) string {
	var sb strings.Builder
	for _, v := range names {
		if x, ok := env[v]; ok {
			sb.WriteString(v.Name())
			sb.WriteString(valKey(x))
			sb.WriteByte('\n')
		}
	}
	for _, c := range st.cs.all {
		sb.WriteString(c.key())
		sb.WriteByte(';')
	}
	n := 0
	for id, o := range st.mem {
		// order independent digest
		h := 0
		s := fmt.Sprint(id)
		switch {
		case o.cell != nil:
			s += valKey(o.cell)
		case o.arr != nil:
			s += arrKey(o.arr)
		case o.mp != nil:
			s += mapKeyC(o.mp)
		}
		for _, c := range s {
			h = h*31 + int(c)
		}
		n += h
	}
	fmt.Fprint(&sb, n)
	return sb.String()
}

// candidateForms proposes linear forms whose infima may be invariant.
func (r *run) candidateForms(base *State, backs []edgeState, inst []*slotInst, fixed int, kvar Var) []Lin {
	e := r.e
	isSlot := map[Var]bool{}
	for _, s := range inst {
		isSlot[s.v] = true
	}
	var forms []Lin
	seen := map[string]bool{}
	add := func(l Lin) {
		l.c = 0
		if len(l.t) == 0 {
			return
		}
		has := false
		for _, x := range l.t {
			if isSlot[x.v] {
				has = true
			} else if !e.vs.stableVar(x.v, fixed) {
				return
			}
		}
		if !has {
			return
		}
		if g := l.gcd(); g > 1 {
			c := Con{l, ge}
			c, _, _ = c.tidy()
			l = c.L
			l.c = 0
		}
		k := l.key()
		if !seen[k] {
			seen[k] = true
			forms = append(forms, l)
		}
	}
	stable := func(l Lin) bool {
		for _, x := range l.t {
			if !e.vs.stableVar(x.v, fixed) {
				return false
			}
		}
		return true
	}
	type dl struct {
		ok     bool
		d      int64
		lo, hi int64
		hasLo  bool
		hasHi  bool
	}
	deltas := make([]dl, len(inst))
	for n, s := range inst {
		d := dl{ok: true, hasLo: true, hasHi: true, lo: posInf, hi: negInf}
		for i, b := range s.back {
			x := b.sub(lv(s.v))
			if !x.isConst() || (i > 0 && x.c != d.d) {
				d.ok = false
			}
			d.d = x.c
			if m, ok := backs[i].p.st.inf(x); ok {
				if m < d.lo {
					d.lo = m
				}
			} else {
				d.hasLo = false
			}
			if m, ok := backs[i].p.st.sup(x); ok {
				if m > d.hi {
					d.hi = m
				}
			} else {
				d.hasHi = false
			}
		}
		if len(s.back) == 0 {
			d = dl{}
		}
		deltas[n] = d
	}
	k := lv(kvar)
	for n, s := range inst {
		v := lv(s.v)
		add(v)
		add(v.neg())
		if stable(s.entry) {
			d := v.sub(s.entry)
			add(d)
			add(d.neg())
			if s.v != kvar {
				x := deltas[n]
				if x.ok {
					add(d.sub(k.scale(x.d)))
					add(k.scale(x.d).sub(d))
				} else {
					if x.hasLo && x.lo > -1<<20 && x.lo < 1<<20 {
						add(d.sub(k.scale(x.lo)))
					}
					if x.hasHi && x.hi > -1<<20 && x.hi < 1<<20 {
						add(k.scale(x.hi).sub(d))
					}
				}
			}
		}
	}
	// slots that take unrelated values
	wild := make([]bool, len(inst))
	for n, s := range inst {
		for i, b := range s.back {
			for _, x := range b.t {
				if isSlot[x.v] || e.vs.stableVar(x.v, fixed) {
					continue
				}
				seen := len(e.vs.info[x.v].ax) > 0 || e.vs.info[x.v].k != 0
				for _, c := range backs[i].p.st.cs.all {
					if c.L.coef(x.v) != 0 && len(c.L.t) > 1 {
						seen = true
					}
				}
				if !seen {
					wild[n] = true
				}
			}
		}
	}
	ntame := 0
	for n := range inst {
		if !wild[n] {
			ntame++
		}
	}
	// pairs of slots that move together
	for a := range inst {
		for b := range inst {
			if wild[a] || wild[b] {
				continue
			}
			if a == b || inst[a].v == kvar || inst[b].v == kvar {
				continue
			}
			same := true
			for i := range inst[a].back {
				da := inst[a].back[i].sub(lv(inst[a].v))
				db := inst[b].back[i].sub(lv(inst[b].v))
				if !da.eq(db) {
					same = false
				}
			}
			x := lv(inst[a].v).sub(lv(inst[b].v))
			if same && stable(inst[a].entry) && stable(inst[b].entry) {
				x = x.sub(inst[a].entry).add(inst[b].entry)
				add(x)
				continue
			}
			if ntame > 10 {
				continue
			}
			add(x)
			if stable(inst[a].entry) && stable(inst[b].entry) {
				x = x.sub(inst[a].entry).add(inst[b].entry)
				add(x)
			}
		}
	}
	// proportional movement: c_a*delta_b == c_b*delta_a with symbolic deltas
	for a := range inst {
		for b := range inst {
			if a == b || wild[a] || wild[b] || inst[a].v == kvar || inst[b].v == kvar || len(inst[a].back) == 0 {
				continue
			}
			if !stable(inst[a].entry) || !stable(inst[b].entry) {
				continue
			}
			for _, m := range []int64{2, 3, 4, 7, 8} {
				all := true
				for i := range inst[a].back {
					da := inst[a].back[i].sub(lv(inst[a].v))
					db := inst[b].back[i].sub(lv(inst[b].v))
					if !da.eq(db.scale(m)) {
						all = false
					}
				}
				if all {
					x := lv(inst[a].v).sub(inst[a].entry).sub(lv(inst[b].v).sub(inst[b].entry).scale(m))
					add(x)
					add(x.neg())
				}
			}
		}
	}
	// affine relations: the slots' movements on all back edges lie in a
	// space whose orthogonal complement gives the invariants
	for _, f := range affineForms(backs, inst, stable) {
		add(f)
		add(f.neg())
	}
	// the image of body constraints under moves s' = o + c between slots
	nimg := 0
	for i, b := range backs {
		for _, s := range inst {
			bv := s.back[i]
			if len(bv.t) != 1 || bv.t[0].c != 1 || bv.t[0].v == s.v || !isSlot[bv.t[0].v] {
				continue
			}
			o := bv.t[0].v
			for _, c := range b.p.st.cs.all {
				if c.Op == ne || c.L.coef(o) == 0 || nimg > 60 || len(c.L.t) > 3 {
					continue
				}
				nimg++
				x := c.L.subst(o, lv(s.v).addc(-bv.c))
				add(x)
				if c.Op == eq {
					add(x.neg())
				}
			}
		}
	}
	// constraints met in the body, as guards of the loop
	have := map[string]bool{}
	for _, c := range base.cs.all {
		have[c.key()] = true
	}
	nb := 0
	for _, b := range backs {
		for _, c := range b.p.st.cs.all {
			if have[c.key()] || nb > 400 {
				continue
			}
			have[c.key()] = true
			nb++
			if c.Op == ne {
				add(c.L)
				add(c.L.neg())
				continue
			}
			add(c.L)
			if c.Op == eq {
				add(c.L.neg())
			}
		}
	}
	// constraints at entry that mention the entry value of a slot
	for _, s := range inst {
		if len(s.entry.t) != 1 || abs64(s.entry.t[0].c) != 1 {
			continue
		}
		ev := s.entry.t[0].v
		for _, c := range base.cs.all {
			if k := c.L.coef(ev); k != 0 && c.Op != ne {
				// ev = (v - c)/±1
				x := lv(s.v).addc(-s.entry.c).scale(s.entry.t[0].c)
				add(c.L.subst(ev, x))
				if c.Op == eq {
					add(c.L.subst(ev, x).neg())
				}
			}
		}
		for _, a := range e.vs.info[ev].ax {
			x := lv(s.v).addc(-s.entry.c).scale(s.entry.t[0].c)
			add(a.L.subst(ev, x))
		}
	}
	return forms
}

// ranking finds a function that decreases on every back edge and is bounded
// below there; the obligation fails when there is none.
func (r *run) ranking(l *loop, inv *ps, inst []*slotInst, backs []edgeState, from Var) {
	e := r.e
	pos := loopPos(l)
	what := "loop terminates"
	if len(backs) == 0 {
		e.record(inv.st, r.fr, pos, "termination", what, true, Con{})
		return
	}
	if e.isRange(l) {
		ok := true
		// a range over a map the body does not insert into ends
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if mu, is := in.(*ssa.MapUpdate); is {
					for _, h := range l.header.Instrs {
						if nx, is := h.(*ssa.Next); is {
							if rg, is := nx.Iter.(*ssa.Range); is && types.Identical(rg.X.Type(), mu.Map.Type()) && !isStringType(rg.X.Type()) && !freshMap(mu.Map) {
								ok = false
							}
						}
					}
				}
			}
		}
		if ok {
			e.record(inv.st, r.fr, pos, "termination", what+" (range over a map or string)", true, Con{})
			return
		}
	}
	var cands []Lin
	seen := map[string]bool{}
	slotv := map[Var]bool{}
	add := func(x Lin) {
		x.c = 0
		if len(x.t) == 0 || seen[x.key()] {
			return
		}
		seen[x.key()] = true
		for _, y := range x.t {
			if !slotv[y.v] && y.v >= from {
				return // not a function of the state at the loop head
			}
		}
		cands = append(cands, x)
	}
	for _, s := range inst {
		slotv[s.v] = true
	}
	for _, s := range inst {
		add(lv(s.v))
		add(lv(s.v).neg())
	}
	for _, b := range backs {
		for _, c := range b.p.st.cs.all {
			for _, x := range c.L.t {
				if slotv[x.v] {
					add(c.L)
					add(c.L.neg())
					break
				}
			}
		}
	}
	todo := make([]bool, len(backs))
	left := len(backs)
	// lexicographic: a form that decreases strictly on some back edges, is
	// bounded there, and does not increase on the others
	for left > 0 {
		found := false
		for _, f := range cands {
			strict := 0
			mono := true
			var which []int
			for i, b := range backs {
				if todo[i] {
					continue
				}
				at := substInst(f, inst, i)
				d := f.sub(at) // decrease
				if b.p.st.entails(Con{d.addc(-1), ge}) {
					e.vs.open = from
					_, ok := e.vs.inf(b.p.st.cs.all, f)
					e.vs.open = 0
					if ok {
						strict++
						which = append(which, i)
						continue
					}
				}
				if !b.p.st.entails(Con{d, ge}) {
					mono = false
					break
				}
			}
			if mono && strict > 0 {
				if loopDebug {
					fmt.Println("   ranked by", e.vs.str(f))
				}
				for _, i := range which {
					todo[i] = true
					left--
				}
				found = true
				break
			}
		}
		if !found {
			break
		}
	}
	e.record(inv.st, r.fr, pos, "termination", what, left == 0, Con{})
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// freshMap: the map is made in this function.
func freshMap(v ssa.Value) bool {
	_, ok := v.(*ssa.MakeMap)
	return ok
}

// affineForms computes candidate affine equalities between the slots: the
// null space of the matrix of their constant movements.
func affineForms(backs []edgeState, inst []*slotInst, stable func(Lin) bool) []Lin {
	if len(backs) == 0 || len(backs) > 24 {
		return nil
	}
	// each movement is a linear form over the variables of the back edge's
	// state, reduced by the equalities that hold there; a combination of slots
	// is invariant when all coefficients of its movement vanish
	var cols []int
	type mv struct {
		c int64
		t map[Var]rat
	}
	delta := make([][]mv, len(inst))
	red := make([]*eqSys, len(backs))
	for n, s := range inst {
		if !stable(s.entry) {
			continue
		}
		ok := true
		for i := range backs {
			x := s.back[i].sub(lv(s.v))
			d := mv{c: x.c}
			if !x.isConst() {
				lo, ok1 := backs[i].p.st.inf(x)
				hi, ok2 := int64(0), false
				if ok1 {
					hi, ok2 = backs[i].p.st.sup(x)
				}
				if ok1 && ok2 && lo == hi {
					d.c = lo
				} else {
					if red[i] == nil {
						red[i] = newEqSys(backs[i].p.st.cs.all)
					}
					c, t := red[i].reduce(x)
					if !c.isInt() || len(t) > 8 {
						ok = false
						break
					}
					d = mv{c: c.n, t: t}
				}
			}
			if d.c < -1<<16 || d.c > 1<<16 {
				ok = false
				break
			}
			delta[n] = append(delta[n], d)
		}
		if ok {
			cols = append(cols, n)
		}
	}
	if len(cols) < 2 || len(cols) > 16 {
		return nil
	}
	// rows: distinct movement vectors
	var rows [][]int64
	seen := map[string]bool{}
	addRow := func(row []int64) {
		key := fmt.Sprint(row)
		if !seen[key] {
			seen[key] = true
			rows = append(rows, row)
		}
	}
	for i := range backs {
		row := make([]int64, len(cols))
		var vars []Var
		hasVar := map[Var]bool{}
		for k, n := range cols {
			row[k] = delta[n][i].c
			for v := range delta[n][i].t {
				if !hasVar[v] {
					hasVar[v] = true
					vars = append(vars, v)
				}
			}
		}
		addRow(row)
		sort.Slice(vars, func(a, b int) bool { return vars[a] < vars[b] })
		for _, v := range vars {
			m := int64(1)
			for _, n := range cols {
				if x, ok := delta[n][i].t[v]; ok {
					if x.b != nil || x.d > 1<<16 || m > 1<<16 {
						return nil
					}
					m = m / gcd64(m, x.d) * x.d
				}
			}
			row := make([]int64, len(cols))
			for k, n := range cols {
				if x, ok := delta[n][i].t[v]; ok {
					y := x.n * (m / x.d)
					if x.n > 1<<20 || x.n < -1<<20 || y > 1<<20 || y < -1<<20 {
						return nil
					}
					row[k] = y
				}
			}
			addRow(row)
		}
	}
	// integer row echelon form
	var piv []int
	r := 0
	for c := 0; c < len(cols) && r < len(rows); c++ {
		p := -1
		for i := r; i < len(rows); i++ {
			if rows[i][c] != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		rows[r], rows[p] = rows[p], rows[r]
		for i := range rows {
			if i == r || rows[i][c] == 0 {
				continue
			}
			a, b := rows[r][c], rows[i][c]
			g := int64(0)
			for k := range rows[i] {
				rows[i][k] = rows[i][k]*a - rows[r][k]*b
				g = gcd64(g, abs64(rows[i][k]))
			}
			if g > 1 {
				for k := range rows[i] {
					rows[i][k] /= g
				}
			}
			for k := range rows[i] {
				if abs64(rows[i][k]) > 1<<24 {
					return nil
				}
			}
		}
		piv = append(piv, c)
		r++
	}
	isPiv := map[int]bool{}
	for _, c := range piv {
		isPiv[c] = true
	}
	var out []Lin
	for f := range cols {
		if isPiv[f] {
			continue
		}
		// free column f = 1 (scaled), pivots solve
		m := int64(1)
		for i := range piv {
			a := abs64(rows[i][piv[i]])
			if rows[i][f] != 0 {
				m = m / gcd64(m, a) * a
			}
			if m > 1<<20 {
				break
			}
		}
		if m > 1<<20 {
			continue
		}
		x := lv(inst[cols[f]].v).sub(inst[cols[f]].entry).scale(m)
		bad := false
		for i, c := range piv {
			if rows[i][f] == 0 {
				continue
			}
			q := -rows[i][f] * m / rows[i][c]
			if abs64(q) > 1<<16 {
				bad = true
				break
			}
			x = x.add(lv(inst[cols[c]].v).sub(inst[cols[c]].entry).scale(q))
		}
		if !bad {
			out = append(out, x)
		}
	}
	return out
}

// eqSys is a set of equalities solved for one variable each.
type eqSys struct {
	order []Var
	rows  map[Var]map[Var]rat // v = sum of the row, constant under variable 0
}

func newEqSys(cs []Con) *eqSys {
	q := &eqSys{rows: map[Var]map[Var]rat{}}
	have := map[string]bool{}
	for _, c := range cs {
		if c.Op == ge {
			have[c.L.key()] = true
		}
	}
	n := 0
	for _, c := range cs {
		if c.Op == ne || c.Op == ge && !have[c.L.neg().key()] {
			continue
		}
		if n++; n > 60 {
			break
		}
		k, t := q.reduce(c.L)
		if len(t) == 0 {
			continue
		}
		// solve for the latest variable
		var v Var
		for x := range t {
			if x > v {
				v = x
			}
		}
		row := map[Var]rat{}
		f := t[v]
		for x, y := range t {
			if x != v {
				row[x] = y.mul(f.inv()).neg()
			}
		}
		if !k.isZero() {
			row[0] = k.mul(f.inv()).neg()
		}
		for w, r := range q.rows {
			if y, ok := r[v]; ok {
				delete(r, v)
				q.addTo(r, row, y)
				q.rows[w] = r
			}
		}
		q.rows[v] = row
	}
	return q
}

func (q *eqSys) addTo(r, row map[Var]rat, f rat) {
	for x, y := range row {
		z := y.mul(f)
		if o, ok := r[x]; ok {
			z = z.add(o)
		}
		if z.isZero() {
			delete(r, x)
		} else {
			r[x] = z
		}
	}
}

// reduce rewrites l by the equalities.
func (q *eqSys) reduce(l Lin) (rat, map[Var]rat) {
	r := map[Var]rat{}
	for _, x := range l.t {
		if row, ok := q.rows[x.v]; ok {
			q.addTo(r, row, ri(x.c))
		} else {
			q.addTo(r, map[Var]rat{x.v: rone}, ri(x.c))
		}
	}
	c := ri(l.c)
	if x, ok := r[0]; ok {
		c = c.add(x)
		delete(r, 0)
	}
	return c, r
}
