package main

// An exact rational simplex with integer branching. It implements the two
// operations the relational (linear constraint) abstract domain needs:
// emptiness of a constraint set and the supremum of an affine form over it.

type bnd struct {
	ok bool
	v  rat
}

type spx struct {
	lo, hi []bnd
	val    []rat
	rowOf  []int
	basic  []int
	rows   [][]rat
	nvars  int // structural variables (must be integers)
	steps  int
}

func (s *spx) clone() *spx {
	c := &spx{nvars: s.nvars, steps: s.steps}
	c.lo = append([]bnd(nil), s.lo...)
	c.hi = append([]bnd(nil), s.hi...)
	c.val = append([]rat(nil), s.val...)
	c.rowOf = append([]int(nil), s.rowOf...)
	c.basic = append([]int(nil), s.basic...)
	c.rows = make([][]rat, len(s.rows))
	for i, r := range s.rows {
		c.rows[i] = append([]rat(nil), r...)
	}
	return c
}

func newSpx(n int) *spx {
	s := &spx{nvars: n}
	s.lo = make([]bnd, n)
	s.hi = make([]bnd, n)
	s.val = make([]rat, n)
	s.rowOf = make([]int, n)
	for i := range s.rowOf {
		s.rowOf[i] = -1
		s.val[i] = rzero
	}
	return s
}

// addRow adds slack = sum(co) with bounds and returns its column.
func (s *spx) addRow(co map[int]rat, lo, hi bnd) int {
	id := len(s.val)
	for i := range s.rows {
		s.rows[i] = append(s.rows[i], rzero)
	}
	row := make([]rat, id+1)
	for i := range row {
		row[i] = rzero
	}
	v := rzero
	for j, c := range co {
		if r := s.rowOf[j]; r >= 0 {
			for k, x := range s.rows[r] {
				if !x.isZero() {
					row[k] = row[k].add(c.mul(x))
				}
			}
		} else {
			row[j] = row[j].add(c)
		}
		v = v.add(c.mul(s.val[j]))
	}
	s.lo = append(s.lo, lo)
	s.hi = append(s.hi, hi)
	s.val = append(s.val, v)
	s.rowOf = append(s.rowOf, len(s.rows))
	s.basic = append(s.basic, id)
	s.rows = append(s.rows, row)
	return id
}

func (s *spx) setNonbasic(j int, v rat) {
	d := v.sub(s.val[j])
	if d.isZero() {
		return
	}
	s.val[j] = v
	for i, r := range s.rows {
		if !r[j].isZero() {
			b := s.basic[i]
			s.val[b] = s.val[b].add(r[j].mul(d))
		}
	}
}

// settle puts nonbasic variables within their bounds.
func (s *spx) settle() bool {
	for j := range s.val {
		if s.lo[j].ok && s.hi[j].ok && s.lo[j].v.cmp(s.hi[j].v) > 0 {
			return false
		}
		if s.rowOf[j] >= 0 {
			continue
		}
		if s.lo[j].ok && s.val[j].cmp(s.lo[j].v) < 0 {
			s.setNonbasic(j, s.lo[j].v)
		} else if s.hi[j].ok && s.val[j].cmp(s.hi[j].v) > 0 {
			s.setNonbasic(j, s.hi[j].v)
		}
	}
	return true
}

func (s *spx) pivot(r, j int) {
	b := s.basic[r]
	row := s.rows[r]
	inv := row[j].inv()
	nr := make([]rat, len(row))
	for k, x := range row {
		if k == j || x.isZero() {
			nr[k] = rzero
		} else {
			nr[k] = x.mul(inv).neg()
		}
	}
	nr[b] = inv
	s.rows[r] = nr
	s.basic[r] = j
	s.rowOf[j] = r
	s.rowOf[b] = -1
	for i := range s.rows {
		if i == r {
			continue
		}
		ri := s.rows[i]
		c := ri[j]
		if c.isZero() {
			continue
		}
		ri[j] = rzero
		for k, x := range nr {
			if !x.isZero() {
				ri[k] = ri[k].add(c.mul(x))
			}
		}
	}
	s.steps++
}

const maxSteps = 4000

// check returns feasible, known.
func (s *spx) check() (bool, bool) {
	if !s.settle() {
		return false, true
	}
	for {
		if s.steps > maxSteps {
			return true, false
		}
		r, up := -1, false
		bi := -1
		for i, b := range s.basic {
			if s.lo[b].ok && s.val[b].cmp(s.lo[b].v) < 0 {
				if bi < 0 || b < bi {
					r, up, bi = i, true, b
				}
			} else if s.hi[b].ok && s.val[b].cmp(s.hi[b].v) > 0 {
				if bi < 0 || b < bi {
					r, up, bi = i, false, b
				}
			}
		}
		if r < 0 {
			return true, true
		}
		row := s.rows[r]
		j := -1
		for k, a := range row {
			if a.isZero() || s.rowOf[k] >= 0 {
				continue
			}
			pos := (a.sign() > 0) == up
			if pos && (!s.hi[k].ok || s.val[k].cmp(s.hi[k].v) < 0) || !pos && (!s.lo[k].ok || s.val[k].cmp(s.lo[k].v) > 0) {
				j = k
				break
			}
		}
		if j < 0 {
			return false, true
		}
		target := s.hi[bi].v
		if up {
			target = s.lo[bi].v
		}
		th := target.sub(s.val[bi]).mul(row[j].inv())
		s.val[bi] = target
		s.val[j] = s.val[j].add(th)
		for i, rr := range s.rows {
			if i != r && !rr[j].isZero() {
				b := s.basic[i]
				s.val[b] = s.val[b].add(rr[j].mul(th))
			}
		}
		s.pivot(r, j)
	}
}

// maximize z (a column) from a feasible point. bounded=false: no supremum.
func (s *spx) maximize(z int) (v rat, bounded, known bool) {
	if s.rowOf[z] < 0 {
		// make z basic by a degenerate pivot
		r := -1
		for i := range s.rows {
			if !s.rows[i][z].isZero() {
				r = i
				break
			}
		}
		if r < 0 {
			if s.hi[z].ok {
				return s.hi[z].v, true, true
			}
			return rzero, false, true
		}
		s.pivot(r, z)
		// entering the basis keeps the values; the leaving variable keeps a
		// value within its bounds
	}
	for {
		if s.steps > maxSteps {
			return rzero, false, false
		}
		zr := s.rowOf[z]
		if zr < 0 {
			return s.val[z], true, true
		}
		row := s.rows[zr]
		j, dir := -1, rone
		for k, a := range row {
			if a.isZero() || s.rowOf[k] >= 0 {
				continue
			}
			if a.sign() > 0 && (!s.hi[k].ok || s.val[k].cmp(s.hi[k].v) < 0) {
				j, dir = k, rone
				break
			}
			if a.sign() < 0 && (!s.lo[k].ok || s.val[k].cmp(s.lo[k].v) > 0) {
				j, dir = k, ri(-1)
				break
			}
		}
		if j < 0 {
			return s.val[z], true, true
		}
		var lim rat
		haveLim := false
		lr := -1
		lrTarget := rzero
		if dir.sign() > 0 && s.hi[j].ok {
			lim, haveLim = s.hi[j].v.sub(s.val[j]), true
		} else if dir.sign() < 0 && s.lo[j].ok {
			lim, haveLim = s.val[j].sub(s.lo[j].v), true
		}
		for i, rr := range s.rows {
			c := rr[j].mul(dir)
			if c.isZero() {
				continue
			}
			b := s.basic[i]
			var t, tg rat
			if c.sign() > 0 {
				if !s.hi[b].ok {
					continue
				}
				tg = s.hi[b].v
				t = tg.sub(s.val[b]).mul(c.inv())
			} else {
				if !s.lo[b].ok {
					continue
				}
				tg = s.lo[b].v
				t = tg.sub(s.val[b]).mul(c.inv())
			}
			cm := -1
			if haveLim {
				cm = t.cmp(lim)
			}
			if cm < 0 || (cm == 0 && lr >= 0 && b < s.basic[lr]) {
				lim, haveLim, lr, lrTarget = t, true, i, tg
			}
		}
		if !haveLim {
			return rzero, false, true
		}
		if lr < 0 {
			s.setNonbasic(j, s.val[j].add(dir.mul(lim)))
			s.steps++
			continue
		}
		b := s.basic[lr]
		s.setNonbasic(j, s.val[j].add(dir.mul(lim)))
		s.val[b] = lrTarget
		s.pivot(lr, j)
	}
}

// lp is a preprocessed problem over a slice of the constraint set.
type lp struct {
	vs    *Vars
	cols  map[Var]int
	order []Var
	s     *spx
	nes   []Lin
	bad   bool
	elim  []elimEq // substitutions in order
}

type elimEq struct {
	v Var
	e Lin
}

func (p *lp) reduce(l Lin) Lin {
	for _, x := range p.elim {
		l = l.subst(x.v, x.e)
	}
	return l
}

// huge: the constraint mentions the assumed limit of lengths
func huge(l Lin) bool {
	if l.c >= lenMax || l.c <= -lenMax {
		return true
	}
	for _, x := range l.t {
		if x.c >= lenMax || x.c <= -lenMax {
			return true
		}
	}
	return false
}

// buildLP selects the constraints connected with seed and builds a tableau.
func (vs *Vars) buildLP(cons []Con, seeds ...Lin) *lp {
	p := &lp{vs: vs, cols: map[Var]int{}}
	in := map[Var]bool{}
	var queue []Var
	addL := func(l Lin) {
		for _, x := range l.t {
			if !in[x.v] {
				in[x.v] = true
				queue = append(queue, x.v)
			}
		}
	}
	for _, s := range seeds {
		addL(s)
	}
	byVar := map[Var][]int{}
	for i, c := range cons {
		if vs.open != 0 && huge(c.L) {
			continue
		}
		for _, x := range c.L.t {
			byVar[x.v] = append(byVar[x.v], i)
			// a variable defined by others connects the constraint with them
			for _, a := range vs.info[x.v].ax {
				for _, y := range a.L.t {
					if y.v != x.v {
						if k := byVar[y.v]; len(k) == 0 || k[len(k)-1] != i {
							byVar[y.v] = append(k, i)
						}
					}
				}
			}
		}
	}
	used := map[int]bool{}
	var act []Con
	for len(queue) > 0 {
		v := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		for _, a := range vs.info[v].ax {
			if vs.open != 0 && huge(a.L) {
				continue
			}
			act = append(act, a)
			addL(a.L)
		}
		for _, i := range byVar[v] {
			if !used[i] {
				used[i] = true
				act = append(act, cons[i])
				addL(cons[i].L)
			}
		}
	}
	// Gaussian elimination of unit-coefficient equalities
	type bound struct {
		v      Var
		lo, hi int64
	}
	var extra []Con
	for v := range in {
		b := vs.info[v]
		if vs.open != 0 && v >= vs.open && b.hi >= lenMax {
			b.hi = posInf
		}
		if b.lo != negInf {
			extra = append(extra, Con{lv(v).addc(-b.lo), ge})
		}
		if b.hi != posInf {
			extra = append(extra, Con{lv(v).neg().addc(b.hi), ge})
		}
	}
	act = append(act, extra...)
	for {
		pick, pv := -1, Var(0)
		for i, c := range act {
			if c.Op != eq {
				continue
			}
			for _, x := range c.L.t {
				if x.c == 1 || x.c == -1 {
					pick, pv = i, x.v
					break
				}
			}
			if pick >= 0 {
				break
			}
		}
		if pick < 0 {
			break
		}
		c := act[pick]
		k := c.L.coef(pv)
		rest := c.L.sub(lv(pv).scale(k)) // k*pv + rest = 0
		e := rest.scale(-k)              // k = ±1
		p.elim = append(p.elim, elimEq{pv, e})
		out := act[:0:0]
		for i, d := range act {
			if i == pick {
				continue
			}
			d.L = d.L.subst(pv, e)
			d2, triv, bad := d.tidy()
			if bad {
				p.bad = true
				return p
			}
			if !triv {
				out = append(out, d2)
			}
		}
		act = out
		delete(in, pv)
	}
	col := func(v Var) int {
		if j, ok := p.cols[v]; ok {
			return j
		}
		j := len(p.order)
		p.cols[v] = j
		p.order = append(p.order, v)
		return j
	}
	type rowT struct {
		t      []term
		lo, hi bnd
	}
	rows := map[string]*rowT{}
	var rorder []string
	type sb struct{ lo, hi bnd }
	sbs := map[Var]*sb{}
	tight := func(b *bnd, v rat, lower bool) {
		if !b.ok || (lower && v.cmp(b.v) > 0) || (!lower && v.cmp(b.v) < 0) {
			b.ok, b.v = true, v
		}
	}
	for _, c := range act {
		c, triv, bad := c.tidy()
		if bad {
			p.bad = true
			return p
		}
		if triv {
			continue
		}
		if c.Op == ne {
			p.nes = append(p.nes, c.L)
			for _, x := range c.L.t {
				col(x.v)
			}
			continue
		}
		if len(c.L.t) == 1 {
			x := c.L.t[0]
			b := sbs[x.v]
			if b == nil {
				b = &sb{}
				sbs[x.v] = b
			}
			col(x.v)
			// tidy: coefficient is ±1
			if c.Op == eq {
				tight(&b.lo, ri(-c.L.c*x.c), true)
				tight(&b.hi, ri(-c.L.c*x.c), false)
			} else if x.c > 0 {
				tight(&b.lo, ri(-c.L.c), true)
			} else {
				tight(&b.hi, ri(c.L.c), false)
			}
			continue
		}
		// canonical direction: first coefficient positive
		neg := c.L.t[0].c < 0
		l := c.L
		if neg {
			l = l.neg()
		}
		key := Lin{t: l.t}.key()
		r := rows[key]
		if r == nil {
			r = &rowT{t: l.t}
			rows[key] = r
			rorder = append(rorder, key)
		}
		switch {
		case c.Op == eq:
			tight(&r.lo, ri(-l.c), true)
			tight(&r.hi, ri(-l.c), false)
		case !neg:
			tight(&r.lo, ri(-l.c), true)
		default:
			// c.L = -l >= 0  => l.t + l.c <= 0
			tight(&r.hi, ri(-l.c), false)
		}
		for _, x := range l.t {
			col(x.v)
		}
	}
	for _, sl := range seeds {
		for _, x := range p.reduce(sl).t {
			col(x.v)
		}
	}
	s := newSpx(len(p.order))
	for v, b := range sbs {
		j := p.cols[v]
		s.lo[j], s.hi[j] = b.lo, b.hi
	}
	for _, k := range rorder {
		r := rows[k]
		co := map[int]rat{}
		for _, x := range r.t {
			co[p.cols[x.v]] = ri(x.c)
		}
		s.addRow(co, r.lo, r.hi)
	}
	p.s = s
	return p
}

// evalAt evaluates l at the current point.
func (p *lp) evalAt(s *spx, l Lin) rat {
	v := ri(l.c)
	for _, x := range l.t {
		v = v.add(ri(x.c).mul(s.val[p.cols[x.v]]))
	}
	return v
}

type bbBudget struct{ nodes int }

// intFeasible decides integer feasibility; unknown counts as feasible.
func (p *lp) intFeasible(s *spx, depth int, bud *bbBudget) bool {
	ok, known := s.check()
	if !ok && known {
		return false
	}
	if !known {
		return true
	}
	bud.nodes--
	if depth <= 0 || bud.nodes <= 0 {
		return true
	}
	for j := 0; j < s.nvars; j++ {
		if s.val[j].isInt() {
			continue
		}
		f := s.val[j].floor()
		a := s.clone()
		a.steps = 0
		tightHi(a, j, f)
		if p.intFeasible(a, depth-1, bud) {
			return true
		}
		b := s.clone()
		b.steps = 0
		tightLo(b, j, f.add(rone))
		return p.intFeasible(b, depth-1, bud)
	}
	for _, l := range p.nes {
		if !p.evalAt(s, l).isZero() {
			continue
		}
		co := map[int]rat{}
		for _, x := range l.t {
			co[p.cols[x.v]] = ri(x.c)
		}
		a := s.clone()
		a.steps = 0
		a.addRow(co, bnd{true, ri(1 - l.c)}, bnd{})
		if p.intFeasible(a, depth-1, bud) {
			return true
		}
		b := s.clone()
		b.steps = 0
		b.addRow(co, bnd{}, bnd{true, ri(-1 - l.c)})
		return p.intFeasible(b, depth-1, bud)
	}
	return true
}

func tightHi(s *spx, j int, v rat) {
	if !s.hi[j].ok || s.hi[j].v.cmp(v) > 0 {
		s.hi[j] = bnd{true, v}
	}
}

func tightLo(s *spx, j int, v rat) {
	if !s.lo[j].ok || s.lo[j].v.cmp(v) < 0 {
		s.lo[j] = bnd{true, v}
	}
}

const (
	bbDepth = 14
	bbNodes = 60
)

// feasible: may the constraints connected with seeds hold? (sound: true when
// unsure). The rest of the set is assumed satisfiable.
func (vs *Vars) feasible(cons []Con, seeds ...Lin) bool {
	p := vs.buildLP(cons, seeds...)
	if p.bad {
		return false
	}
	return p.intFeasible(p.s, bbDepth, &bbBudget{bbNodes})
}

// sup returns an upper bound of e (exact for the rational relaxation,
// rounded down), ok=false when there is none.
func (vs *Vars) sup(cons []Con, e Lin) (int64, bool) {
	if e.isConst() {
		return e.c, true
	}
	p := vs.buildLP(cons, e)
	if p.bad {
		return negInf, true
	}
	r := p.reduce(e)
	if r.isConst() {
		return r.c, true
	}
	co := map[int]rat{}
	for _, x := range r.t {
		co[p.cols[x.v]] = ri(x.c)
	}
	z := p.s.addRow(co, bnd{}, bnd{})
	ok, known := p.s.check()
	if !known {
		return 0, false
	}
	if !ok {
		return negInf, true
	}
	v, bounded, known := p.s.maximize(z)
	if !bounded || !known {
		return 0, false
	}
	n, good := v.floor().int64()
	if !good {
		return 0, false
	}
	return satAdd(n, r.c), true
}

func (vs *Vars) inf(cons []Con, e Lin) (int64, bool) {
	v, ok := vs.sup(cons, e.neg())
	if v == negInf {
		return posInf, ok
	}
	return -v, ok
}
