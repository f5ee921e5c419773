package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"strconv"
	"strings"
)

// lenMax bounds every length and capacity: no slice or string in the analysed
// executions is longer than 2^40.
const lenMax = int64(1) << 40

// conSet is an immutable constraint set with an entailment memo.
type conSet struct {
	all  []Con
	keys map[string]bool
	memo map[string]int8
	smem map[string]supRes
}

type supRes struct {
	v  int64
	ok bool
}

func newConSet(all []Con) *conSet {
	return &conSet{all: all, memo: map[string]int8{}, smem: map[string]supRes{}}
}

// trail is a linked list of branch decisions, for diagnostics.
type trail struct {
	up  *trail
	msg string
}

// State is one abstract state (one trace partition): memory and constraints.
type State struct {
	e     *Eng
	cs    *conSet
	mem   map[ObjID]*Object
	trail *trail
	dead  bool
	lost  map[string]bool // types whose initial memory may have been modified unseen
}

func (st *State) clone() *State {
	n := *st
	n.mem = make(map[ObjID]*Object, len(st.mem)+4)
	for k, v := range st.mem {
		n.mem[k] = v
	}
	return &n
}

func (st *State) loseKey(k string) {
	if st.lost[k] {
		return
	}
	m := map[string]bool{k: true}
	for x := range st.lost {
		m[x] = true
	}
	st.lost = m
}

func lostKey(o *Object) string {
	if o.typ == nil {
		return fmt.Sprint(o.kind)
	}
	return fmt.Sprint(o.kind, o.typ.String())
}

func (st *State) lose(o *Object) { st.loseKey(lostKey(o)) }

func (st *State) isLost(o *Object) bool {
	return len(st.lost) > 0 && st.e.initObj[o.id] == o && st.lost[lostKey(o)]
}

func (st *State) note(format string, a ...interface{}) {
	st.trail = &trail{st.trail, fmt.Sprintf(format, a...)}
}

// quickIval computes an interval from intrinsic bounds and the single
// variable constraints.
func (st *State) ival(l Lin) (int64, int64) { return st.e.vs.ival(l) }

// add asserts c. It returns false when the state is now known empty.
func (st *State) add(c Con) bool {
	if st.dead {
		return false
	}
	c, triv, bad := c.tidy()
	if bad {
		st.dead = true
		return false
	}
	if triv {
		return true
	}
	if c.Op == ge {
		if lo, _ := st.ival(c.L); lo >= 0 {
			return true
		}
		if _, hi := st.ival(c.L); hi < 0 {
			st.dead = true
			return false
		}
	}
	if c.Op == ne {
		switch lo, hi := st.ival(c.L); {
		case lo == 0 && hi == 0:
			st.dead = true
			return false
		case lo > 0 || hi < 0:
			return true
		case lo == 0:
			c, _, _ = Con{c.L.addc(-1), ge}.tidy()
		case hi == 0:
			c, _, _ = Con{c.L.neg().addc(-1), ge}.tidy()
		}
	}
	k := c.key()
	for i := range st.cs.all {
		if st.cs.all[i].key() == k {
			return true
		}
	}
	all := make([]Con, len(st.cs.all)+1)
	copy(all, st.cs.all)
	all[len(all)-1] = c
	st.cs = newConSet(all)
	return true
}

// assume asserts c and checks the result is satisfiable.
func (st *State) assume(c Con) bool {
	if !st.add(c) {
		return false
	}
	if !st.e.vs.feasibleQ(st.cs, c) {
		st.dead = true
		return false
	}
	return true
}

func (vs *Vars) feasibleQ(cs *conSet, c Con) bool {
	// the constraint is already part of cs
	return vs.feasible(cs.all, c.L)
}

// entails: c holds in every concrete state described by st.
func (st *State) entails(c Con) bool {
	if st.dead {
		return true
	}
	c, triv, bad := c.tidy()
	if triv {
		return true
	}
	if bad {
		return false
	}
	lo, hi := st.ival(c.L)
	switch c.Op {
	case ge:
		if lo >= 0 {
			return true
		}
		if hi < 0 {
			return false
		}
	case eq:
		if lo > 0 || hi < 0 {
			return false
		}
	case ne:
		if lo > 0 || hi < 0 {
			return true
		}
	}
	k := c.key()
	if r, ok := st.cs.memo[k]; ok {
		return r == 1
	}
	r := st.entailsSlow(c)
	if r {
		st.cs.memo[k] = 1
	} else {
		st.cs.memo[k] = 0
	}
	return r
}

func (st *State) entailsSlow(c Con) bool {
	st.e.stats.queries++
	switch c.Op {
	case ge:
		neg := Con{c.L.neg().addc(-1), ge}
		return !st.e.vs.feasible(append(append(make([]Con, 0, len(st.cs.all)+1), st.cs.all...), neg), c.L)
	case eq:
		return st.entails(Con{c.L, ge}) && st.entails(Con{c.L.neg(), ge})
	case ne:
		pos := Con{c.L, eq}
		return !st.e.vs.feasible(append(append(make([]Con, 0, len(st.cs.all)+1), st.cs.all...), pos), c.L)
	}
	return false
}

func (st *State) sup(l Lin) (int64, bool) {
	if l.isConst() {
		return l.c, true
	}
	k := l.key()
	if r, ok := st.cs.smem[k]; ok {
		return r.v, r.ok
	}
	st.e.stats.queries++
	v, ok := st.e.vs.sup(st.cs.all, l)
	st.cs.smem[k] = supRes{v, ok}
	return v, ok
}

func (st *State) inf(l Lin) (int64, bool) {
	v, ok := st.sup(l.neg())
	return -v, ok
}

func (st *State) leq(a, b Lin) bool { return st.entails(Con{b.sub(a), ge}) }
func (st *State) lt(a, b Lin) bool  { return st.entails(Con{b.sub(a).addc(-1), ge}) }
func (st *State) equal(a, b Lin) bool {
	if a.eq(b) {
		return true
	}
	return st.entails(Con{a.sub(b), eq})
}
func (st *State) isTrue01(l Lin) bool  { return st.entails(Con{l.addc(-1), eq}) }
func (st *State) isFalse01(l Lin) bool { return st.entails(Con{l, eq}) }

// decide: 1 entailed, 0 refuted, -1 unknown.
func (st *State) decide(b BoolV) int {
	if b.Const {
		if b.Val {
			return 1
		}
		return 0
	}
	all, none := true, false
	for _, c := range b.And {
		if !st.entails(c) {
			all = false
			ref := true
			for _, n := range c.negate() {
				if !st.entails(n) {
					ref = false
				}
			}
			if ref {
				none = true
			}
		}
	}
	r := -1
	if all {
		r = 1
	} else if none {
		r = 0
	}
	if b.Neg && r >= 0 {
		r = 1 - r
	}
	return r
}

// split returns the feasible states in which b is true / false.
func (st *State) split(b BoolV) (t, f []*State) {
	if b.Const {
		if b.Val {
			return []*State{st}, nil
		}
		return nil, []*State{st}
	}
	s := st.clone()
	ok := true
	for _, c := range b.And {
		if !s.assume(c) {
			ok = false
			break
		}
	}
	var yes, no []*State
	if ok {
		yes = []*State{s}
	}
	pre := st.clone()
	for _, c := range b.And {
		for _, n := range c.negate() {
			ns := pre.clone()
			if ns.assume(n) {
				no = append(no, ns)
			}
		}
		if !pre.add(c) {
			break
		}
	}
	if b.Neg {
		return no, yes
	}
	return yes, no
}

func (st *State) splitCon(c Con) (t, f []*State) { return st.split(bcon(c)) }

// ---- integer division with constant divisors

// fdiv returns floor(e/k) as a linear expression (exactly).
func (st *State) fdiv(e Lin, k int64) Lin {
	if k == 1 {
		return e
	}
	// extract the part divisible by k
	var qt, rt []term
	for _, x := range e.t {
		// c*v = k*n*v + m*v with a small m
		n, m := int64(0), x.c
		if m >= k || m <= -k {
			n = floorDiv64(x.c, k)
			m = x.c - n*k
			if m > k/2 {
				n, m = n+1, m-k
			}
		}
		if n != 0 {
			qt = append(qt, term{x.v, n})
		}
		if m != 0 {
			rt = append(rt, term{x.v, m})
		}
	}
	qc := floorDiv64(e.c, k)
	q := Lin{c: qc, t: qt}
	r := Lin{c: e.c - qc*k, t: rt}
	if len(r.t) == 0 {
		return q
	}
	vs := st.e.vs
	// a single term c*v + r.c : reduce the gcd
	g := gcd64(r.gcd(), k)
	if g > 1 {
		// floor((g*a + c)/ (g*b)) = floor((a + floor(c/g))/b)
		t := make([]term, len(r.t))
		for i, x := range r.t {
			t[i] = term{x.v, x.c / g}
		}
		r = Lin{c: floorDiv64(r.c, g), t: t}
		k = k / g
		if k == 1 {
			return q.add(r)
		}
		return q.add(st.fdiv(r, k))
	}
	// constant quotient?
	lo, hi := vs.ival(r)
	if lo == negInf || hi == posInf || floorDiv64(lo, k) != floorDiv64(hi, k) {
		if l, ok := st.inf(r); ok {
			if h, ok := st.sup(r); ok {
				lo, hi = l, h
			}
		}
	}
	if lo != negInf && hi != posInf && floorDiv64(lo, k) == floorDiv64(hi, k) {
		return q.addc(floorDiv64(lo, k))
	}
	// nested quotient: floor((floor(n/k1)+c)/k) = floor((n+c*k1)/(k1*k))
	if len(r.t) == 1 && r.t[0].c == 1 {
		in := &vs.info[r.t[0].v]
		if in.k != 0 && in.k < 1<<30 && k < 1<<30 {
			num := in.num.addc(r.c * in.k)
			return q.add(st.fdiv(num, in.k*k))
		}
	}
	dv := vs.divVar(r, k)
	if st.e.opts.Deep {
		st.sameQuotient(r, k, dv)
	}
	return q.add(lv(dv))
}

// sameQuotient looks for a variable x that is known to be the quotient of r
// by k, and adds that it equals dv, which linear reasoning over the rationals
// misses.
func (st *State) sameQuotient(r Lin, k int64, dv Var) {
	if len(r.t) > 3 {
		return
	}
	tried := map[Var]bool{dv: true}
next:
	for _, c := range st.cs.all {
		if len(c.L.t) != len(r.t)+1 {
			continue
		}
		var x Var
		found := false
		sign := int64(0)
		for _, t := range c.L.t {
			rc := r.coef(t.v)
			if rc == 0 {
				if found || (t.c != k && t.c != -k) {
					continue next
				}
				x, found = t.v, true
				s := -t.c / k
				if sign != 0 && sign != s {
					continue next
				}
				sign = s
				continue
			}
			if t.c != rc && t.c != -rc {
				continue next
			}
			s := t.c / rc
			if sign != 0 && sign != s {
				continue next
			}
			sign = s
		}
		if !found || tried[x] {
			continue
		}
		tried[x] = true
		// sign*(r' - k*x) + c.L.c >= 0, with r = r' + r.c
		var d int64
		if sign > 0 {
			d = floorDiv64(r.c-c.L.c, k)
		} else {
			d = -floorDiv64(-(r.c + c.L.c - k + 1), k)
		}
		e := r.sub(lv(x).scale(k)).addc(-d * k)
		if st.entails(Con{e, ge}) && st.entails(Con{e.neg().addc(k - 1), ge}) {
			st.add(Con{lv(dv).sub(lv(x)).addc(-d), eq})
			return
		}
	}
}

// onesMask over-approximates the set bits of a non-negative value.
func (st *State) onesMask(v IntV) uint64 {
	m := ^uint64(0)
	if v.Has {
		m = v.Ones
	}
	if v.L.isConst() {
		if v.L.c >= 0 {
			return uint64(v.L.c)
		}
		return m
	}
	lo, hi := st.ival(v.L)
	if lo < 0 || hi == posInf {
		if l, ok := st.inf(v.L); ok {
			lo = l
		}
		if h, ok := st.sup(v.L); ok {
			hi = h
		}
	} else if h, ok := st.sup(v.L); ok && h < hi {
		hi = h
	}
	if lo >= 0 && hi != posInf && hi >= 0 {
		b := bits.Len64(uint64(hi))
		if b < 64 {
			m &= 1<<uint(b) - 1
		}
		g := v.L.gcd()
		if g > 1 {
			tz := bits.TrailingZeros64(uint64(g))
			if v.L.c != 0 {
				if t := bits.TrailingZeros64(uint64(abs64(v.L.c))); t < tz {
					tz = t
				}
			}
			m &^= 1<<uint(tz) - 1
		}
	}
	return m
}

// andMask returns v & mask for v >= 0, exactly.
func (st *State) andMask(l Lin, mask uint64) IntV {
	if mask == 0 {
		return ic(0)
	}
	r := Lin{}
	m := mask
	for m != 0 {
		a := bits.TrailingZeros64(m)
		b := a
		for b < 64 && m&(1<<uint(b)) != 0 {
			b++
		}
		// run [a,b): 2^a*(floor(x/2^a) - 2^(b-a)*floor(x/2^b))
		p := st.shr(l, a)
		if b < 62 {
			p = p.sub(st.shr(l, b).scale(int64(1) << uint(b-a)))
		}
		r = r.add(p.scale(int64(1) << uint(a)))
		if b >= 64 {
			break
		}
		m &^= (1<<uint(b) - 1) &^ (1<<uint(a) - 1)
	}
	return IntV{L: r, Ones: mask, Has: true}
}

func (st *State) shr(l Lin, n int) Lin {
	if n == 0 {
		return l
	}
	if n >= 62 {
		lo, hi := st.ival(l)
		if lo >= 0 && hi != posInf {
			return lc(0)
		}
		return lv(st.e.vs.fresh("shr", 0, 3))
	}
	return st.fdiv(l, int64(1)<<uint(n))
}

// wrapArith is wrap for the result of arithmetic. Values of type int are
// sizes, positions and counters; they are taken as mathematical integers (no
// analysed execution reaches 2^63).
func (st *State) wrapArith(v IntV, t types.Type) IntV {
	if b, ok := types.Unalias(t).(*types.Basic); ok && b.Kind() == types.Int {
		return v
	}
	return st.wrap(v, t)
}

// wrap reduces l to the range of an integer type.
func (st *State) wrap(v IntV, t types.Type) IntV {
	lo, hi, _ := typeBounds(t)
	l, h := st.ival(v.L)
	if (lo == negInf || l >= lo) && (hi == posInf || h <= hi) {
		if (lo != negInf || l != negInf) && (hi != posInf || h != posInf) {
			return v
		}
	}
	if v.L.isConst() && (lo == negInf || v.L.c >= lo) && (hi == posInf || v.L.c <= hi) {
		return v
	}
	bitsN, signed := intWidth(t)
	if bitsN == 64 {
		// the mathematical value is kept when provably in range
		inr := true
		if !signed {
			inr = st.entails(Con{v.L, ge})
		}
		if inr {
			ok1, ok2 := l != negInf, h != posInf
			if !ok1 {
				if x, ok := st.inf(v.L); ok && x > negInf/2 {
					ok1 = true
				}
			}
			if !ok2 {
				if x, ok := st.sup(v.L); ok && x < posInf/2 {
					ok2 = true
				}
			}
			if len(v.L.t) == 1 && v.L.t[0].c == 1 && v.L.c == 0 {
				// a bare variable of the type itself
				return v
			}
			if ok1 && ok2 {
				return v
			}
		}
		flo := int64(negInf)
		if !signed {
			flo = 0
		}
		return iv(lv(st.e.vs.fresh("wrapped", flo, posInf)))
	}
	if st.entails(Con{v.L.addc(-lo), ge}) && st.entails(Con{v.L.neg().addc(hi), ge}) {
		return v
	}
	m := int64(1) << bitsN
	if !signed {
		r := v.L.sub(st.fdiv(v.L, m).scale(m))
		o := IntV{L: r}
		if v.Has {
			o.Has, o.Ones = true, v.Ones&uint64(m-1)
		}
		return o
	}
	sh := v.L.addc(m / 2)
	return iv(sh.sub(st.fdiv(sh, m).scale(m)).addc(-m / 2))
}

// ---- objects

func (e *Eng) newObj(k objKind, t types.Type, owner *Owner, site string) *Object {
	e.nobj++
	return &Object{id: ObjID(e.nobj), kind: k, typ: t, owner: owner, site: site}
}

func (st *State) put(o *Object) { st.mem[o.id] = o }

func (st *State) obj(id ObjID) *Object {
	if o, ok := st.mem[id]; ok {
		return o
	}
	return st.e.initObj[id]
}

// newInit registers an object that exists in the initial state.
func (e *Eng) newInit(k objKind, t types.Type, owner *Owner, site string) *Object {
	o := e.newObj(k, t, owner, site)
	if k == okArray {
		o.arr = &Arr{base: baseInit, obj: o.id, elem: t, owner: owner, name: site}
	}
	e.initObj[o.id] = o
	return o
}

// loadInfo describes a variable standing for an initial memory cell of an
// array element.
type loadInfo struct {
	arr  *Arr
	idx  Lin
	leaf int
}

// initElem is the initial element idx of an initial array (memoised).
func (e *Eng) initElem(a *Arr, idx Lin) Value {
	key := "el" + strconv.Itoa(int(a.obj)) + "@" + idx.key()
	if v, ok := e.initVal[key]; ok {
		return v
	}
	nm := a.name + "[" + e.vs.str(idx) + "]"
	first := len(e.vs.info)
	fobj := e.nobj
	top := true
	if _, ptr := a.elem.Underlying().(*types.Pointer); ptr && a.owner != nil && a.owner.Made {
		top = false
	}
	v := e.newSym(a.elem, nm, a.owner, top)
	for i := first; i < len(e.vs.info); i++ {
		e.loads[Var(i)] = &loadInfo{a, idx, i - first}
	}
	for i := fobj + 1; i <= e.nobj; i++ {
		e.oloads[ObjID(i)] = &loadInfo{a, idx, i - fobj}
	}
	e.initVal[key] = v
	e.loadIdx[a.obj] = append(e.loadIdx[a.obj], idx)
	e.loadFirst[key] = [2]int{first, fobj}
	return v
}

// newSym makes a fully unknown value of a type. top: pointers, interfaces and
// functions are non-nil (arguments and elements, as documented preconditions).
func (e *Eng) newSym(t types.Type, name string, owner *Owner, top bool) Value {
	vs := e.vs
	nilv := func() Lin {
		if top {
			return lc(0)
		}
		return lv(vs.fresh(name+".nil", 0, 1))
	}
	if opaqueType(t) {
		e.nid++
		return OpaqueV{t, e.nid}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			lo, hi, _ := typeBounds(t)
			return iv(lv(vs.fresh(name, lo, hi)))
		case u.Info()&types.IsBoolean != 0:
			b := vs.fresh(name, 0, 1)
			return bcon(Con{lv(b).addc(-1), eq})
		case u.Info()&types.IsString != 0:
			return e.newStr(name, owner)
		case u.Info()&types.IsFloat != 0:
			return FloatV{}
		}
		return OpaqueV{T: t}
	case *types.Slice:
		n := vs.fresh("len("+name+")", 0, lenMax)
		c := vs.fresh("cap("+name+")", 0, lenMax)
		z := vs.fresh(name+".isnil", 0, 1)
		// cap >= len ; len <= BIG*(1-z) ; cap likewise
		in := &vs.info[c]
		in.ax = append(in.ax, Con{lv(c).sub(lv(n)), ge})
		vs.info[z].ax = append(vs.info[z].ax, Con{lv(z).neg().addc(1).scale(lenMax).sub(lv(c)), ge}, Con{lv(c).sub(lv(n)), ge})
		o := e.newInit(okArray, u.Elem(), owner, name)
		return SliceV{Obj: o.id, Len: lv(n), Cap: lv(c), Nil: lv(z), Elem: u.Elem()}
	case *types.Pointer:
		nl := nilv()
		k := okCell
		if _, isArr := u.Elem().Underlying().(*types.Array); isArr {
			k = okArray
		}
		et := u.Elem()
		if k == okArray {
			et = et.Underlying().(*types.Array).Elem()
		}
		o := e.newInit(k, et, owner, "*"+name)
		return PtrV{Obj: o.id, Nil: nl}
	case *types.Interface:
		nl := nilv()
		if optionType(t) {
			nl = lc(0)
		}
		e.nid++
		g := e.newInit(okGhost, nil, freshOwner, name)
		g.cell = ic(0)
		return IfaceV{Nil: nl, ID: e.nid, Typ: t, Obj: g.id}
	case *types.Signature:
		e.nid++
		nl := nilv()
		if optionType(t) {
			nl = lc(0)
		}
		return FuncV{Nil: nl, Unknown: true, ID: e.nid}
	case *types.Struct:
		s := StructV{F: make([]Value, u.NumFields())}
		for i := range s.F {
			s.F[i] = e.newSym(u.Field(i).Type(), name+"."+u.Field(i).Name(), owner, false)
		}
		return s
	case *types.Array:
		o := e.newInit(okArray, u.Elem(), owner, name)
		return ArrV{A: o.arr, N: u.Len()}
	case *types.Map:
		o := e.newInit(okMap, t, owner, name)
		o.mp = &MapC{unknown: true, n: lv(vs.fresh("len("+name+")", 0, lenMax))}
		return MapV{Obj: o.id, Nil: nilv()}
	case *types.Tuple:
		tv := TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.E = append(tv.E, e.newSym(u.At(i).Type(), fmt.Sprintf("%s#%d", name, i), owner, false))
		}
		return tv
	}
	return OpaqueV{T: t}
}

func (e *Eng) newStr(name string, owner *Owner) StrV {
	n := e.vs.fresh("len("+name+")", 0, lenMax)
	o := e.newInit(okArray, types.Typ[types.Uint8], &Owner{Kind: ownFresh}, name)
	e.nid++
	return StrV{Len: lv(n), Bytes: o.arr, ID: e.nid}
}

// zero returns the zero value of t.
func (e *Eng) zero(t types.Type) Value {
	if opaqueType(t) {
		return OpaqueV{T: t}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return ic(0)
		case u.Info()&types.IsBoolean != 0:
			return bconst(false)
		case u.Info()&types.IsString != 0:
			return conStrV("")
		case u.Info()&types.IsFloat != 0:
			return FloatV{}
		case u.Kind() == types.UnsafePointer:
			return PtrV{Nil: lc(1)}
		}
		return OpaqueV{T: t}
	case *types.Slice:
		return nilSlice(u.Elem())
	case *types.Pointer:
		return PtrV{Nil: lc(1)}
	case *types.Interface:
		return nilIface()
	case *types.Signature:
		return FuncV{Nil: lc(1)}
	case *types.Map:
		return MapV{Nil: lc(1)}
	case *types.Struct:
		s := StructV{F: make([]Value, u.NumFields())}
		for i := range s.F {
			s.F[i] = e.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return ArrV{A: &Arr{base: baseZero, elem: u.Elem(), owner: freshOwner}, N: u.Len()}
	case *types.Tuple:
		tv := TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.E = append(tv.E, e.zero(u.At(i).Type()))
		}
		return tv
	}
	return OpaqueV{T: t}
}

func conStrV(s string) StrV {
	return StrV{Len: lc(int64(len(s))), Const: &s, Bytes: &Arr{base: baseStr, str: s, elem: types.Typ[types.Uint8], owner: freshOwner}}
}

// ---- array reads

type valSt struct {
	st *State
	v  Value
}

// arrRead reads element idx, forking when which overlay applies is undecided.
func (st *State) arrRead(a *Arr, idx Lin) []valSt {
	return st.arrReadFrom(a, idx, len(a.ovs))
}

func (st *State) arrReadFrom(a *Arr, idx Lin, top int) []valSt {
	for i := top - 1; i >= 0; i-- {
		o := &a.ovs[i]
		if o.K == ovSingle && idx.eq(o.Lo) {
			return []valSt{{st, o.V}}
		}
		if st.lt(idx, o.Lo) || st.leq(o.Hi, idx) {
			continue
		}
		if st.leq(o.Lo, idx) && st.lt(idx, o.Hi) {
			return st.ovRead(a, o, idx)
		}
		// undecided: split into below, in, above
		var out []valSt
		in := st.clone()
		if in.assume(Con{idx.sub(o.Lo), ge}) && in.assume(Con{o.Hi.sub(idx).addc(-1), ge}) {
			out = append(out, in.ovRead(a, o, idx)...)
		}
		below := st.clone()
		if below.assume(Con{o.Lo.sub(idx).addc(-1), ge}) {
			out = append(out, below.arrReadFrom(a, idx, i)...)
		}
		above := st.clone()
		if above.assume(Con{idx.sub(o.Hi), ge}) && above.add(Con{idx.sub(o.Lo), ge}) {
			out = append(out, above.arrReadFrom(a, idx, i)...)
		}
		return out
	}
	e := st.e
	switch a.base {
	case baseZero:
		return []valSt{{st, e.zero(a.elem)}}
	case baseStr:
		if idx.isConst() {
			if idx.c >= 0 && idx.c < int64(len(a.str)) {
				return []valSt{{st, ic(int64(a.str[idx.c]))}}
			}
			return []valSt{{st, ic(0)}}
		}
		if len(a.str) <= 16 {
			var out []valSt
			for i := 0; i < len(a.str); i++ {
				s := st.clone()
				if s.assume(Con{idx.addc(-int64(i)), eq}) {
					out = append(out, valSt{s, ic(int64(a.str[i]))})
				}
			}
			return out
		}
		lo, hi := int64(255), int64(0)
		for i := 0; i < len(a.str); i++ {
			if c := int64(a.str[i]); c < lo {
				lo = c
			}
			if c := int64(a.str[i]); c > hi {
				hi = c
			}
		}
		return []valSt{{st, iv(lv(e.vs.fresh("strbyte", lo, hi)))}}
	case baseInit:
		// reuse an index known equal
		if !idx.isConst() || len(e.loadIdx[a.obj]) > 0 {
			ks := e.loadIdx[a.obj]
			n := 0
			for j := len(ks) - 1; j >= 0 && (n < 12 || n < 60 && e.opts.Deep); j-- {
				if ks[j].eq(idx) {
					break
				}
				n++
				if st.equal(ks[j], idx) {
					idx = ks[j]
					break
				}
			}
		}
		return []valSt{{st, e.initElem(a, idx)}}
	}
	return []valSt{{st, e.newSym(a.elem, "unknown("+a.name+")", &Owner{Kind: ownUnknown, Name: a.name}, false)}}
}

func (st *State) ovRead(a *Arr, o *Ov, idx Lin) []valSt {
	switch o.K {
	case ovSingle:
		return []valSt{{st, o.V}}
	case ovCopy:
		return st.arrRead(o.Src, idx.add(o.Delta))
	case ovTmpl:
		return o.T.instantiate(st, a, idx)
	}
	own := a.owner
	if own == nil {
		own = freshOwner
	}
	return []valSt{{st, st.e.newSym(a.elem, "some("+a.name+")", &Owner{Kind: ownUnknown, Name: a.name}, false)}}
}

// ---- loads and stores through paths

func (st *State) cellOf(o *Object) Value {
	if o.cell == nil {
		if st.isLost(o) {
			return st.e.newSym(o.typ, "modified("+o.site+")", o.owner, false)
		}
		key := "cell" + strconv.Itoa(int(o.id))
		v, ok := st.e.initVal[key]
		if !ok {
			first := len(st.e.vs.info)
			fobj := st.e.nobj
			v = st.e.newSym(o.typ, o.site, o.owner, false)
			st.e.initVal[key] = v
			// inherit load provenance so templates can be re-indexed
			if li := st.e.oloads[o.id]; li != nil {
				for i := first; i < len(st.e.vs.info); i++ {
					st.e.cloads[Var(i)] = &cellLoad{o.id, i - first}
				}
				for i := fobj + 1; i <= st.e.nobj; i++ {
					st.e.coloads[ObjID(i)] = &cellLoad{o.id, i - fobj}
				}
			}
		}
		return v
	}
	return o.cell
}

type cellLoad struct {
	obj  ObjID
	leaf int
}

func (st *State) load(p PtrV) []valSt {
	o := st.obj(p.Obj)
	if o == nil {
		return []valSt{{st, OpaqueV{}}}
	}
	if o.kind == okArray {
		if st.isLost(o) && o.arr.base == baseInit {
			n := *o
			n.arr = &Arr{base: baseUnknown, elem: o.arr.elem, owner: o.arr.owner, name: o.arr.name}
			o = &n
		}
		if len(p.Path) == 0 {
			// whole array value
			return []valSt{{st, ArrV{A: o.arr, N: -1}}}
		}
		var out []valSt
		for _, r := range st.arrRead(o.arr, p.Path[0].Idx) {
			out = append(out, r.st.loadPath(r.v, p.Path[1:])...)
		}
		return out
	}
	return st.loadPath(st.cellOf(o), p.Path)
}

func (st *State) loadPath(v Value, path []PathElem) []valSt {
	for i, pe := range path {
		switch x := v.(type) {
		case StructV:
			if pe.Field < 0 || pe.Field >= len(x.F) {
				return []valSt{{st, OpaqueV{}}}
			}
			v = x.F[pe.Field]
		case ArrV:
			var out []valSt
			for _, r := range st.arrRead(x.A, pe.Idx) {
				out = append(out, r.st.loadPath(r.v, path[i+1:])...)
			}
			return out
		default:
			return []valSt{{st, OpaqueV{}}}
		}
	}
	return []valSt{{st, v}}
}

// storePath returns v with the element at path replaced.
func (st *State) storePath(v Value, path []PathElem, nv Value) []valSt {
	if len(path) == 0 {
		return []valSt{{st, nv}}
	}
	switch x := v.(type) {
	case StructV:
		f := path[0].Field
		if f < 0 || f >= len(x.F) {
			return []valSt{{st, v}}
		}
		var out []valSt
		for _, r := range st.storePath(x.F[f], path[1:], nv) {
			n := StructV{F: append([]Value(nil), x.F...)}
			n.F[f] = r.v
			out = append(out, valSt{r.st, n})
		}
		return out
	case ArrV:
		idx := path[0].Idx
		if len(path) == 1 {
			return []valSt{{st, ArrV{A: x.A.with(Ov{Lo: idx, Hi: idx.addc(1), K: ovSingle, V: nv}), N: x.N}}}
		}
		var out []valSt
		for _, r := range st.arrRead(x.A, idx) {
			for _, r2 := range r.st.storePath(r.v, path[1:], nv) {
				out = append(out, valSt{r2.st, ArrV{A: x.A.with(Ov{Lo: idx, Hi: idx.addc(1), K: ovSingle, V: r2.v}), N: x.N}})
			}
		}
		return out
	}
	return []valSt{{st, v}}
}

func (st *State) setObj(o *Object) { st.mem[o.id] = o }

// store writes through p (already checked non-nil).
func (st *State) store(p PtrV, nv Value) []*State {
	o := st.obj(p.Obj)
	if o == nil {
		return []*State{st}
	}
	var out []*State
	if o.kind == okArray {
		if len(p.Path) == 0 {
			if av, ok := nv.(ArrV); ok {
				n := *o
				n.arr = av.A
				st.setObj(&n)
			}
			return []*State{st}
		}
		idx := p.Path[0].Idx
		if len(p.Path) == 1 {
			st.arrStore(o, Ov{Lo: idx, Hi: idx.addc(1), K: ovSingle, V: nv})
			return []*State{st}
		}
		for _, r := range st.arrRead(o.arr, idx) {
			for _, r2 := range r.st.storePath(r.v, p.Path[1:], nv) {
				r2.st.arrStore(r2.st.obj(p.Obj), Ov{Lo: idx, Hi: idx.addc(1), K: ovSingle, V: r2.v})
				out = append(out, r2.st)
			}
		}
		return out
	}
	for _, r := range st.storePath(st.cellOf(o), p.Path, nv) {
		n := *r.st.obj(p.Obj)
		n.cell = r.v
		r.st.setObj(&n)
		out = append(out, r.st)
	}
	return out
}

// arrStore adds an overlay to an array object, weakly updating the objects
// whose memory it may share.
func (st *State) arrStore(o *Object, ov Ov) {
	n := *o
	n.arr = o.arr.with(ov)
	st.setObj(&n)
	for i, a := range o.alias {
		ao := st.obj(a)
		if ao == nil {
			continue
		}
		hi := ov.Hi
		c := o.aliasCap[i]
		if st.leq(c, ov.Lo) {
			continue
		}
		m := *ao
		m.arr = ao.arr.with(Ov{Lo: ov.Lo, Hi: hi, K: ovUnknown})
		st.setObj(&m)
	}
}

// optionType: the named interface and function types of the module. Their
// unknown values are taken to be non-nil, as passing nil for one is outside
// the API.
func optionType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}
