package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Var is a symbolic integer: an unknown but fixed mathematical integer.
type Var int32

const (
	negInf = math.MinInt64
	posInf = math.MaxInt64
)

type varInfo struct {
	name   string
	lo, hi int64 // intrinsic bounds, negInf/posInf when absent
	// q = floor(num/k) when k != 0
	num Lin
	k   int64
	ax  []Con // further axioms that always hold
	seq int
}

// Vars is the table of symbolic variables of one analysis run (one root).
type Vars struct {
	info []varInfo
	divs map[string]Var
	memo map[string]Var
	// open, when set, makes the assumed limit of the lengths of the variables
	// from it on unavailable, so that it does not bound a loop
	open Var
}

var varMu sync.Mutex

func newVars() *Vars {
	return &Vars{info: make([]varInfo, 1), divs: map[string]Var{}, memo: map[string]Var{}}
}

func (vs *Vars) fresh(name string, lo, hi int64) Var {
	vs.info = append(vs.info, varInfo{name: name, lo: lo, hi: hi})
	return Var(len(vs.info) - 1)
}

type term struct {
	v Var
	c int64
}

// Lin is an affine expression over Vars.
type Lin struct {
	c int64
	t []term
}

func lc(c int64) Lin { return Lin{c: c} }
func lv(v Var) Lin   { return Lin{t: []term{{v, 1}}} }

func (a Lin) isConst() bool { return len(a.t) == 0 }

func satAdd(a, b int64) int64 {
	c := a + b
	if a > 0 && b > 0 && c < 0 {
		return posInf
	}
	if a < 0 && b < 0 && c >= 0 {
		return negInf
	}
	return c
}

// linOverflow is raised (as a panic caught by the evaluator) when coefficients
// leave the exactly representable range.
type linOverflow struct{}

func chkAdd(a, b int64) int64 {
	c := a + b
	if (a > 0 && b > 0 && c < 0) || (a < 0 && b < 0 && c >= 0) {
		panic(linOverflow{})
	}
	return c
}

func chkMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	c := a * b
	if c/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		panic(linOverflow{})
	}
	return c
}

func (a Lin) add(b Lin) Lin {
	if len(b.t) == 0 {
		return Lin{c: chkAdd(a.c, b.c), t: a.t}
	}
	if len(a.t) == 0 {
		return Lin{c: chkAdd(a.c, b.c), t: b.t}
	}
	t := make([]term, 0, len(a.t)+len(b.t))
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || (i < len(a.t) && a.t[i].v < b.t[j].v):
			t = append(t, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].v < a.t[i].v:
			t = append(t, b.t[j])
			j++
		default:
			if c := chkAdd(a.t[i].c, b.t[j].c); c != 0 {
				t = append(t, term{a.t[i].v, c})
			}
			i++
			j++
		}
	}
	return Lin{c: chkAdd(a.c, b.c), t: t}
}

func (a Lin) scale(k int64) Lin {
	if k == 0 {
		return Lin{}
	}
	if k == 1 {
		return a
	}
	t := make([]term, len(a.t))
	for i, x := range a.t {
		t[i] = term{x.v, chkMul(x.c, k)}
	}
	return Lin{c: chkMul(a.c, k), t: t}
}

func (a Lin) neg() Lin         { return a.scale(-1) }
func (a Lin) sub(b Lin) Lin    { return a.add(b.scale(-1)) }
func (a Lin) addc(c int64) Lin { return Lin{c: chkAdd(a.c, c), t: a.t} }
func (a Lin) coef(v Var) int64 {
	for _, x := range a.t {
		if x.v == v {
			return x.c
		}
	}
	return 0
}

func (a Lin) eq(b Lin) bool {
	if a.c != b.c || len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

// subst replaces v by e.
func (a Lin) subst(v Var, e Lin) Lin {
	k := a.coef(v)
	if k == 0 {
		return a
	}
	t := make([]term, 0, len(a.t))
	for _, x := range a.t {
		if x.v != v {
			t = append(t, x)
		}
	}
	return Lin{c: a.c, t: t}.add(e.scale(k))
}

func (a Lin) key() string {
	var sb strings.Builder
	sb.WriteString(strconv.FormatInt(a.c, 10))
	for _, x := range a.t {
		sb.WriteByte('+')
		sb.WriteString(strconv.FormatInt(x.c, 10))
		sb.WriteByte('v')
		sb.WriteString(strconv.Itoa(int(x.v)))
	}
	return sb.String()
}

func (vs *Vars) str(a Lin) string {
	if len(a.t) == 0 {
		return strconv.FormatInt(a.c, 10)
	}
	var sb strings.Builder
	for i, x := range a.t {
		c := x.c
		if i > 0 {
			if c < 0 {
				sb.WriteString(" - ")
				c = -c
			} else {
				sb.WriteString(" + ")
			}
		} else if c < 0 {
			sb.WriteString("-")
			c = -c
		}
		if c != 1 {
			fmt.Fprintf(&sb, "%d*", c)
		}
		sb.WriteString(vs.vname(x.v))
	}
	if a.c > 0 {
		fmt.Fprintf(&sb, " + %d", a.c)
	} else if a.c < 0 {
		fmt.Fprintf(&sb, " - %d", -a.c)
	}
	return sb.String()
}

func (vs *Vars) vname(v Var) string {
	in := &vs.info[v]
	if in.k != 0 {
		return fmt.Sprintf("[(%s)/%d]", vs.str(in.num), in.k)
	}
	return in.name
}

// gcd of the variable coefficients (0 when constant).
func (a Lin) gcd() int64 {
	g := int64(0)
	for _, x := range a.t {
		g = gcd64(g, x.c)
		if g == 1 {
			return 1
		}
	}
	return g
}

// bounds by intervals over the intrinsic variable bounds.
func (vs *Vars) ival(a Lin) (lo, hi int64) {
	lo, hi = a.c, a.c
	for _, x := range a.t {
		in := &vs.info[x.v]
		l, h := mulSat(in.lo, x.c), mulSat(in.hi, x.c)
		if x.c < 0 {
			l, h = h, l
		}
		lo, hi = addLo(lo, l), addHi(hi, h)
	}
	return
}

func mulSat(b, c int64) int64 {
	if b == negInf || b == posInf {
		if (b == posInf) == (c > 0) {
			return posInf
		}
		return negInf
	}
	r, ok := mulOK(b, c)
	if !ok {
		if (b > 0) == (c > 0) {
			return posInf
		}
		return negInf
	}
	return r
}

func addLo(a, b int64) int64 {
	if a == negInf || b == negInf {
		return negInf
	}
	if a == posInf || b == posInf {
		return posInf
	}
	return satAdd(a, b)
}

func addHi(a, b int64) int64 {
	if a == posInf || b == posInf {
		return posInf
	}
	if a == negInf || b == negInf {
		return negInf
	}
	return satAdd(a, b)
}

// ---- constraints

type op uint8

const (
	ge op = iota // L >= 0
	eq           // L == 0
	ne           // L != 0
)

// Con is one constraint of the relational domain.
type Con struct {
	L  Lin
	Op op
}

func (c Con) key() string {
	return string('0'+byte(c.Op)) + c.L.key()
}

func (vs *Vars) conStr(c Con) string {
	o := ">="
	switch c.Op {
	case eq:
		o = "=="
	case ne:
		o = "!="
	}
	return vs.str(c.L) + " " + o + " 0"
}

func floorDiv64(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// tidy divides by the gcd with integer tightening. ok=false: unsatisfiable;
// triv: always true.
func (c Con) tidy() (r Con, triv, bad bool) {
	if len(c.L.t) == 0 {
		switch c.Op {
		case ge:
			triv = c.L.c >= 0
		case eq:
			triv = c.L.c == 0
		case ne:
			triv = c.L.c != 0
		}
		return c, triv, !triv
	}
	g := c.L.gcd()
	if g > 1 {
		t := make([]term, len(c.L.t))
		for i, x := range c.L.t {
			t[i] = term{x.v, x.c / g}
		}
		switch c.Op {
		case ge:
			c = Con{Lin{floorDiv64(c.L.c, g), t}, ge}
		case eq:
			if c.L.c%g != 0 {
				return c, false, true
			}
			c = Con{Lin{c.L.c / g, t}, eq}
		case ne:
			if c.L.c%g != 0 {
				return c, true, false
			}
			c = Con{Lin{c.L.c / g, t}, ne}
		}
	}
	if c.Op != ge && c.L.t[0].c < 0 {
		c.L = c.L.neg()
	}
	return c, false, false
}

// negate returns the disjuncts of the negation.
func (c Con) negate() []Con {
	switch c.Op {
	case ge:
		return []Con{{c.L.neg().addc(-1), ge}}
	case eq:
		return []Con{{c.L, ne}}
	}
	return []Con{{c.L, eq}}
}

// divVar returns the canonical variable floor(e/k), k > 0, for an e already
// reduced (see fdiv in state.go).
func (vs *Vars) divVar(e Lin, k int64) Var {
	key := strconv.FormatInt(k, 10) + "|" + e.key()
	if v, ok := vs.divs[key]; ok {
		return v
	}
	lo, hi := vs.ival(e)
	if lo != negInf {
		lo = floorDiv64(lo, k)
	}
	if hi != posInf {
		hi = floorDiv64(hi, k)
	}
	v := vs.fresh("div", lo, hi)
	in := &vs.info[v]
	in.num, in.k = e, k
	q := lv(v).scale(k)
	in.ax = []Con{{e.sub(q), ge}, {q.addc(k - 1).sub(e), ge}}
	// exact nesting axioms between quotients of one expression
	ek := e.key()
	var ks []int64
	for okey := range vs.divs {
		i := strings.IndexByte(okey, '|')
		if okey[i+1:] == ek {
			k2, _ := strconv.ParseInt(okey[:i], 10, 64)
			ks = append(ks, k2)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k2 := range ks {
		w := vs.divs[strconv.FormatInt(k2, 10)+"|"+ek]
		small, big, r := v, w, int64(0)
		if k2%k == 0 {
			r = k2 / k
		} else if k%k2 == 0 {
			small, big, r = w, v, k/k2
		} else {
			continue
		}
		d := lv(small).sub(lv(big).scale(r))
		vs.info[v].ax = append(vs.info[v].ax, Con{d, ge}, Con{d.neg().addc(r - 1), ge})
	}
	vs.divs[key] = v
	return v
}
