package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// joiner computes an upper bound of several abstract states (trace
// partitions). Places where they differ become slots: fresh variables, each
// with its value in every source state.
type joiner struct {
	e     *Eng
	src   []*State
	out   *State
	slots []*slot
	memo  map[string]Lin
	objs  map[string]ObjID
	fixed int // variables below this exist in every source
	depth int
	// loop joins: places keep their slot and summary object between rounds
	loop     bool
	place    map[string]Var
	placeObj map[string]ObjID
	keep     map[string]Value
	fixedObj int
	fixedID  int
	dropped  map[ObjID][]ObjID
}

// perIter: the object belongs to one iteration of the loop being joined.
func (j *joiner) perIter(a ObjID) bool {
	if !j.loop || int(a) <= j.fixedObj || j.isPlaceObj(a) {
		return false
	}
	o := j.e.initObj[a]
	return o == nil || (o.owner == freshOwner || o.owner == callbackOwner) && j.e.oloads[a] == nil && j.e.coloads[a] == nil
}

// stableArr: the content means the same in every iteration.
func (j *joiner) stableArr(a *Arr) bool {
	if a == nil {
		return true
	}
	if a.base == baseInit && j.perIter(a.obj) {
		return false
	}
	for i := range a.ovs {
		if !j.stableOv(&a.ovs[i]) {
			return false
		}
	}
	return true
}

func (j *joiner) stableOv(o *Ov) bool {
	if !j.stable(o.Lo) || !j.stable(o.Hi) {
		return false
	}
	switch o.K {
	case ovSingle:
		return j.stableVal(o.V)
	case ovCopy:
		return j.stable(o.Delta) && j.stableArr(o.Src)
	case ovTmpl:
		return false
	}
	return true
}

func (j *joiner) stableVal(v Value) bool {
	switch x := v.(type) {
	case IntV:
		return j.stable(x.L)
	case BoolV:
		for _, c := range x.And {
			if !j.stable(c.L) {
				return false
			}
		}
		return true
	case StrV:
		return j.stable(x.Len) && j.stable(x.Off) && x.ID <= j.fixedID && j.stableArr(x.Bytes)
	case SliceV:
		return j.stable(x.Off) && j.stable(x.Len) && j.stable(x.Cap) && j.stable(x.Nil) && !j.perIter(x.Obj)
	case PtrV:
		for _, p := range x.Path {
			if p.Field < 0 && !j.stable(p.Idx) {
				return false
			}
		}
		return j.stable(x.Nil) && !j.perIter(x.Obj)
	case MapV:
		return j.stable(x.Nil) && !j.perIter(x.Obj)
	case IfaceV:
		return j.stable(x.Nil) && x.ID <= j.fixedID && (x.Val == nil || j.stableVal(x.Val))
	case FuncV:
		for _, b := range x.Bind {
			if !j.stableVal(b) {
				return false
			}
		}
		return j.stable(x.Nil) && x.ID <= j.fixedID
	case StructV:
		for _, f := range x.F {
			if !j.stableVal(f) {
				return false
			}
		}
		return true
	case TupleV:
		for _, f := range x.E {
			if !j.stableVal(f) {
				return false
			}
		}
		return true
	case ArrV:
		return j.stableArr(x.A)
	case OpaqueV:
		return x.ID <= j.fixedID
	case FloatV:
		return true
	}
	return false
}

type slot struct {
	v    Var
	vals []Lin
}

func newJoiner(e *Eng, src []*State) *joiner {
	return &joiner{e: e, src: src, memo: map[string]Lin{}, objs: map[string]ObjID{}}
}

func (j *joiner) lin(name string, ls []Lin, lo, hi int64) Lin {
	same := true
	for _, l := range ls[1:] {
		if !l.eq(ls[0]) {
			same = false
			break
		}
	}
	if same && (!j.loop || j.stable(ls[0])) {
		return ls[0]
	}
	k := linsKey(ls)
	if l, ok := j.memo[k]; ok {
		return l
	}
	// a constant offset of an existing slot?
	for _, s := range j.slots {
		d := ls[0].sub(s.vals[0])
		if !d.isConst() {
			continue
		}
		all := true
		for i := range ls {
			if !ls[i].sub(s.vals[i]).eq(d) {
				all = false
				break
			}
		}
		if all {
			l := lv(s.v).add(d)
			j.memo[k] = l
			return l
		}
	}
	v, ok := Var(0), false
	if j.place != nil {
		v, ok = j.place[name]
		if ok {
			// weaken the intrinsic bounds when needed
			in := &j.e.vs.info[v]
			if lo < in.lo || hi > in.hi {
				ok = false
			}
		}
	}
	if !ok {
		if j.place != nil {
			// loops: only the bounds of the type are intrinsic
			if lo > 0 {
				lo = 0
			}
			if hi != 1 || lo != 0 {
				hi = posInf
			}
			if lo < 0 {
				lo = negInf
			}
		}
		v = j.e.vs.fresh(name, lo, hi)
		if j.place != nil {
			j.place[name] = v
		}
	}
	j.slots = append(j.slots, &slot{v, append([]Lin(nil), ls...)})
	l := lv(v)
	j.memo[k] = l
	return l
}

func linsKey(ls []Lin) string {
	var sb strings.Builder
	for _, l := range ls {
		sb.WriteString(l.key())
		sb.WriteByte(';')
	}
	return sb.String()
}

// hull of the intrinsic bounds.
func (j *joiner) bounds(ls []Lin) (int64, int64) {
	lo, hi := int64(posInf), int64(negInf)
	for _, l := range ls {
		a, b := j.e.vs.ival(l)
		if a < lo {
			lo = a
		}
		if b > hi {
			hi = b
		}
	}
	return lo, hi
}

func (j *joiner) typed(name string, ls []Lin, t types.Type) Lin {
	lo, hi := j.bounds(ls)
	if t != nil {
		if a, b, ok := typeBounds(t); ok {
			if a > lo {
				lo = a
			}
			if b < hi {
				hi = b
			}
		}
	}
	return j.lin(name, ls, lo, hi)
}

func (j *joiner) nat(name string, ls []Lin) Lin {
	lo, hi := j.bounds(ls)
	if lo < 0 {
		lo = 0
	}
	return j.lin(name, ls, lo, hi)
}

func (j *joiner) bit(name string, ls []Lin) Lin {
	return j.lin(name, ls, 0, 1)
}

// value joins the values of one place.
func (j *joiner) value(name string, t types.Type, vs []Value) Value {
	e := j.e
	j.depth++
	defer func() { j.depth-- }()
	if j.depth > 12 {
		return j.unknown(name, t)
	}
	switch x := vs[0].(type) {
	case IntV:
		ls := make([]Lin, len(vs))
		var ones uint64
		has := true
		for i, v := range vs {
			y, ok := v.(IntV)
			if !ok {
				return j.unknown(name, t)
			}
			ls[i] = y.L
			if y.Has {
				ones |= y.Ones
			} else if y.L.isConst() && y.L.c >= 0 {
				ones |= uint64(y.L.c)
			} else {
				has = false
			}
		}
		l := j.typed(name, ls, t)
		if has {
			return IntV{L: l, Ones: ones, Has: true}
		}
		return IntV{L: l}
	case BoolV:
		ls := make([]Lin, len(vs))
		same := true
		for i, v := range vs {
			y, ok := v.(BoolV)
			if !ok {
				return j.unknown(name, t)
			}
			if boolKey(y) != boolKey(x) {
				same = false
			}
			switch j.src[i].decide(y) {
			case 1:
				ls[i] = lc(1)
			case 0:
				ls[i] = lc(0)
			default:
				// a fresh 0/1 variable stands for the condition
				ls[i] = lv(e.vs.fresh(name+"?", 0, 1))
			}
		}
		if same && (!j.loop || j.stableVal(x)) {
			return x
		}
		l := j.bit(name, ls)
		if l.isConst() {
			return bconst(l.c == 1)
		}
		return bcon(Con{l.addc(-1), eq})
	case FloatV:
		return x
	case StrV:
		ls := make([]Lin, len(vs))
		same := true
		for i, v := range vs {
			y, ok := v.(StrV)
			if !ok {
				return j.unknown(name, t)
			}
			ls[i] = y.Len
			if !sameStr(x, y) {
				same = false
			}
		}
		if same && (!j.loop || j.stableVal(x)) {
			return x
		}
		s, ok := j.kept(name).(StrV)
		if !ok {
			s = e.newStr(name, freshOwner)
			j.setKept(name, s)
		}
		s.Len = j.nat("len("+name+")", ls)
		return s
	case SliceV:
		n := len(vs)
		offs, lens, caps, nils := make([]Lin, n), make([]Lin, n), make([]Lin, n), make([]Lin, n)
		ids := make([]ObjID, n)
		for i, v := range vs {
			y, ok := v.(SliceV)
			if !ok {
				return j.unknown(name, t)
			}
			offs[i], lens[i], caps[i], nils[i], ids[i] = y.Off, y.Len, y.Cap, y.Nil, y.Obj
		}
		// nil slices have no coordinates of their own: give them the others'
		for i := range vs {
			if ids[i] == 0 {
				for k := range vs {
					if ids[k] != 0 && offs[k].isConst() {
						offs[i] = offs[k]
					}
				}
			}
		}
		r := SliceV{Elem: x.Elem}
		r.Off = j.nat("off("+name+")", offs)
		r.Len = j.nat("len("+name+")", lens)
		r.Cap = j.nat("cap("+name+")", caps)
		r.Nil = j.bit("nil("+name+")", nils)
		r.Obj = j.object(name, ids, true)
		j.out.sliceShape(r)
		return r
	case PtrV:
		n := len(vs)
		nils := make([]Lin, n)
		ids := make([]ObjID, n)
		for i, v := range vs {
			y, ok := v.(PtrV)
			if !ok {
				return j.unknown(name, t)
			}
			nils[i], ids[i] = y.Nil, y.Obj
		}
		r := PtrV{Nil: j.bit("nil("+name+")", nils)}
		// paths
		var ref PtrV
		for i, v := range vs {
			if ids[i] != 0 {
				ref = v.(PtrV)
				break
			}
		}
		for k := range ref.Path {
			pe := PathElem{Field: ref.Path[k].Field}
			ls := make([]Lin, n)
			for i, v := range vs {
				y := v.(PtrV)
				if y.Obj == 0 {
					ls[i] = ref.Path[k].Idx
					continue
				}
				if len(y.Path) != len(ref.Path) || y.Path[k].Field != pe.Field {
					return j.unknown(name, t)
				}
				ls[i] = y.Path[k].Idx
			}
			if pe.Field < 0 {
				pe.Idx = j.nat("idx("+name+")", ls)
			}
			r.Path = append(r.Path, pe)
		}
		r.Obj = j.object(name, ids, false)
		return r
	case IfaceV:
		nils := make([]Lin, len(vs))
		var dyn types.Type
		sameDyn, sameID := true, true
		var inner []Value
		for i, v := range vs {
			y, ok := v.(IfaceV)
			if !ok {
				return j.unknown(name, t)
			}
			nils[i] = y.Nil
			if y.Nil.isConst() && y.Nil.c == 1 {
				inner = append(inner, nil)
				continue
			}
			inner = append(inner, y.Val)
			if y.ID == 0 || x.ID != y.ID {
				sameID = false
			}
			if dyn == nil && y.Dyn != nil {
				dyn = y.Dyn
			}
			if y.Dyn == nil || !types.Identical(y.Dyn, dyn) {
				sameDyn = false
			}
		}
		nl := j.bit("nil("+name+")", nils)
		if sameID && x.ID != 0 && (!j.loop || x.ID <= j.fixedID) {
			r := x
			r.Nil = nl
			return r
		}
		if dyn == nil && sameDyn { // all nil
			return IfaceV{Nil: nl}
		}
		if dyn != nil && sameDyn {
			// fill the nil ones
			var ref Value
			for _, v := range inner {
				if v != nil {
					ref = v
				}
			}
			for i := range inner {
				if inner[i] == nil {
					inner[i] = ref
				}
			}
			r := IfaceV{Nil: nl, Dyn: dyn}
			if ref != nil {
				r.Val = j.value(name, dyn, inner)
			}
			return r
		}
		it := t
		if it == nil {
			it = x.Typ
		}
		r, ok := j.kept(name).(IfaceV)
		if !ok {
			e.nid++
			r = IfaceV{ID: e.nid, Typ: it}
			j.setKept(name, r)
		}
		r.Nil = nl
		return r
	case FuncV:
		same := true
		nils := make([]Lin, len(vs))
		for i, v := range vs {
			y, ok := v.(FuncV)
			if !ok {
				return j.unknown(name, t)
			}
			nils[i] = y.Nil
			if y.Fn != x.Fn || y.Built != x.Built || y.ID != x.ID || len(y.Bind) != len(x.Bind) {
				same = false
			}
		}
		if j.loop && x.ID > j.fixedID {
			same = false
		}
		if same && len(x.Bind) == 0 {
			x.Nil = j.bit("nil("+name+")", nils)
			return x
		}
		if same {
			r := x
			r.Bind = nil
			for k := range x.Bind {
				var bs []Value
				for _, v := range vs {
					bs = append(bs, v.(FuncV).Bind[k])
				}
				r.Bind = append(r.Bind, j.value(name, nil, bs))
			}
			return r
		}
		r, ok := j.kept(name).(FuncV)
		if !ok {
			e.nid++
			r = FuncV{Unknown: true, ID: e.nid}
			j.setKept(name, r)
		}
		r.Nil = j.bit("nil("+name+")", nils)
		return r
	case StructV:
		var st *types.Struct
		if t != nil {
			st, _ = t.Underlying().(*types.Struct)
		}
		r := StructV{F: make([]Value, len(x.F))}
		for k := range x.F {
			fs := make([]Value, len(vs))
			for i, v := range vs {
				y, ok := v.(StructV)
				if !ok || len(y.F) != len(x.F) {
					return j.unknown(name, t)
				}
				fs[i] = y.F[k]
			}
			fn, ft := fmt.Sprintf("%s.%d", name, k), types.Type(nil)
			if st != nil && k < st.NumFields() {
				fn, ft = name+"."+st.Field(k).Name(), st.Field(k).Type()
			}
			r.F[k] = j.value(fn, ft, fs)
		}
		return r
	case TupleV:
		var tt *types.Tuple
		if t != nil {
			tt, _ = t.(*types.Tuple)
		}
		r := TupleV{E: make([]Value, len(x.E))}
		for k := range x.E {
			fs := make([]Value, len(vs))
			for i, v := range vs {
				y, ok := v.(TupleV)
				if !ok || len(y.E) != len(x.E) {
					return j.unknown(name, t)
				}
				fs[i] = y.E[k]
			}
			var et types.Type
			if tt != nil && k < tt.Len() {
				et = tt.At(k).Type()
			}
			r.E[k] = j.value(fmt.Sprintf("%s#%d", name, k), et, fs)
		}
		return r
	case ArrV:
		as := make([]*Arr, len(vs))
		for i, v := range vs {
			y, ok := v.(ArrV)
			if !ok || y.N != x.N {
				return j.unknown(name, t)
			}
			as[i] = y.A
		}
		return ArrV{A: j.arr(as), N: x.N}
	case MapV:
		nils := make([]Lin, len(vs))
		ids := make([]ObjID, len(vs))
		for i, v := range vs {
			y, ok := v.(MapV)
			if !ok {
				return j.unknown(name, t)
			}
			nils[i], ids[i] = y.Nil, y.Obj
		}
		return MapV{Nil: j.bit("nil("+name+")", nils), Obj: j.object(name, ids, false)}
	case IterV:
		for _, v := range vs {
			y, ok := v.(IterV)
			if !ok || y.Obj != x.Obj {
				return j.unknown(name, t)
			}
		}
		return x
	case OpaqueV:
		for _, v := range vs {
			if y, ok := v.(OpaqueV); !ok || y != x {
				return j.unknown(name, t)
			}
		}
		if j.loop && x.ID > j.fixedID {
			return j.unknown(name, t)
		}
		return x
	}
	return j.unknown(name, t)
}

func (j *joiner) unknown(name string, t types.Type) Value {
	if t == nil {
		return OpaqueV{}
	}
	if v := j.kept(name + "!" + t.String()); v != nil {
		return v
	}
	v := j.e.newSym(t, name, &Owner{Kind: ownUnknown, Name: name}, false)
	j.setKept(name+"!"+t.String(), v)
	return v
}

func (j *joiner) kept(place string) Value {
	if j.keep == nil {
		return nil
	}
	return j.keep[place]
}

func (j *joiner) setKept(place string, v Value) {
	if j.keep != nil {
		j.keep[place] = v
	}
}

func boolKey(b BoolV) string {
	s := fmt.Sprintf("%v%v%v", b.Const, b.Val, b.Neg)
	for _, c := range b.And {
		s += "|" + c.key()
	}
	return s
}

func sameStr(a, b StrV) bool {
	if a.Const != nil && b.Const != nil {
		return *a.Const == *b.Const
	}
	if a.Const != nil || b.Const != nil {
		return false
	}
	return a.ID != 0 && a.ID == b.ID && a.Len.eq(b.Len)
}

// object joins object identities; different ones become a summary object.
func (j *joiner) isPlaceObj(id ObjID) bool {
	for _, p := range j.placeObj {
		if p == id {
			return true
		}
	}
	return false
}

// symAlias makes the may-share relation symmetric.
func (j *joiner) symAlias() {
	// summaries that covered the same memory of one iteration
	for _, l := range j.dropped {
		for _, a := range l {
			for _, b := range l {
				oa := j.out.mem[a]
				if a == b || oa == nil || j.out.mem[b] == nil {
					continue
				}
				has := false
				for _, x := range oa.alias {
					if x == b {
						has = true
					}
				}
				if !has {
					n := *oa
					n.alias = append(append([]ObjID(nil), n.alias...), b)
					n.aliasCap = append(append([]Lin(nil), n.aliasCap...), lc(lenMax))
					j.out.mem[a] = &n
				}
			}
		}
	}
	var ids []ObjID
	for id, o := range j.out.mem {
		if len(o.alias) > 0 {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
	for _, id := range ids {
		for _, a := range j.out.mem[id].alias {
			ao := j.out.obj(a)
			if ao == nil || a == id {
				continue
			}
			found := false
			for _, b := range ao.alias {
				if b == id {
					found = true
				}
			}
			if !found {
				n := *ao
				n.alias = append(append([]ObjID(nil), n.alias...), id)
				n.aliasCap = append(append([]Lin(nil), n.aliasCap...), lc(lenMax))
				j.out.mem[a] = &n
			}
		}
	}
}

func (j *joiner) object(name string, ids []ObjID, sl bool) ObjID {
	first := ObjID(0)
	same := true
	for _, id := range ids {
		if id == 0 {
			continue
		}
		if first == 0 {
			first = id
		} else if id != first {
			same = false
		}
	}
	if first == 0 {
		return 0
	}
	if same && j.perIter(first) {
		same = false
	}
	if same {
		// the object must exist in the result
		if _, ok := j.out.mem[first]; !ok && j.e.initObj[first] == nil {
			var o *Object
			for i, id := range ids {
				if id == first {
					o = j.src[i].obj(first)
				}
			}
			if o != nil {
				j.out.mem[first] = o
			}
		}
		return first
	}
	key := fmt.Sprint(ids)
	if id, ok := j.objs[key]; ok {
		return id
	}
	e := j.e
	o := &Object{kind: okCell, site: name}
	if id, ok := j.placeObj[name]; ok {
		o.id = id
	} else {
		o = e.newObj(okCell, nil, nil, name)
		if j.placeObj != nil {
			j.placeObj[name] = o.id
		}
	}
	j.objs[key] = o.id
	var arrs []*Arr
	var cells []Value
	seen := map[ObjID]bool{}
	var maps bool
	for i, id := range ids {
		var so *Object
		if id == 0 {
			arrs = append(arrs, nil)
			cells = append(cells, nil)
			continue
		}
		so = j.src[i].obj(id)
		if so == nil {
			// a place that does not exist in this source (behind a nil
			// pointer) borrows the content of another
			for _, q := range j.src {
				if so = q.obj(id); so != nil {
					break
				}
			}
		}
		if so == nil {
			e.fail("join: object %d (%s) missing: %v src %d/%d", id, name, ids, i, len(j.src))
		}
		o.kind, o.typ = so.kind, so.typ
		o.owner = joinOwner(o.owner, so.owner)
		if so.kind == okMap {
			maps = true
			arrs = append(arrs, nil)
			cells = append(cells, nil)
		} else if so.kind == okArray {
			arrs = append(arrs, so.arr)
			cells = append(cells, nil)
		} else {
			arrs = append(arrs, nil)
			cells = append(cells, j.src[i].cellOf(so))
		}
		seen[o.id] = true
		drop := func(a ObjID) bool {
			if !j.perIter(a) {
				return false
			}
			if j.dropped == nil {
				j.dropped = map[ObjID][]ObjID{}
			}
			j.dropped[a] = append(j.dropped[a], o.id)
			return true
		}
		if !seen[id] && !drop(id) {
			seen[id] = true
			o.alias = append(o.alias, id)
			o.aliasCap = append(o.aliasCap, lc(lenMax))
			for k, a := range so.alias {
				if !seen[a] && !drop(a) {
					seen[a] = true
					o.alias = append(o.alias, a)
					o.aliasCap = append(o.aliasCap, so.aliasCap[k])
				}
			}
		}
	}
	if maps {
		o.mp = &MapC{unknown: true}
		j.out.mem[o.id] = o
		return o.id
	}
	if o.kind == okArray {
		o.arr = j.arrP(arrs)
		j.out.mem[o.id] = o
		return o.id
	}
	var ref Value
	for _, c := range cells {
		if c != nil {
			ref = c
		}
	}
	for i := range cells {
		if cells[i] == nil {
			cells[i] = ref
		}
	}
	o.cell = j.value("*"+name, o.typ, cells)
	j.out.mem[o.id] = o
	return o.id
}

// hasRefs: values of the type refer to memory that can be written.
func hasRefs(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Pointer, *types.Map, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return hasRefs(u.Elem())
	}
	return false
}

// contentOwner: to whom the memory belongs that the overlaid values of an
// array refer to.
func (st *State) contentOwner(a *Arr, ovs []Ov, seen map[ObjID]bool) *Owner {
	own := freshOwner
	if a == nil || !hasRefs(a.elem) {
		return own
	}
	if seen == nil {
		seen = map[ObjID]bool{}
	}
	var val func(v Value)
	val = func(v Value) {
		refs(v, func(id ObjID) {
			if id == 0 || seen[id] || len(seen) > 64 {
				return
			}
			seen[id] = true
			o := st.obj(id)
			if o == nil || o.kind == okGhost {
				return
			}
			own = joinOwner(own, o.owner)
			for _, al := range o.alias {
				if x := st.obj(al); x != nil {
					own = joinOwner(own, x.owner)
				}
			}
			if o.cell != nil {
				val(o.cell)
			}
			if o.arr != nil {
				own = joinOwner(own, st.contentOwner(o.arr, o.arr.ovs, seen))
				if hasRefs(o.arr.elem) && o.arr.owner != nil {
					own = joinOwner(own, o.arr.owner)
				}
			}
		})
	}
	for i := range ovs {
		switch o := &ovs[i]; o.K {
		case ovSingle:
			if o.V != nil {
				val(o.V)
			}
		case ovCopy:
			if o.Src != nil {
				if o.Src.owner != nil {
					own = joinOwner(own, o.Src.owner)
				}
				own = joinOwner(own, st.contentOwner(o.Src, o.Src.ovs, seen))
			}
		}
	}
	return own
}

func joinOwner(a, b *Owner) *Owner {
	if a == nil || a == b {
		return b
	}
	if a.Kind == b.Kind && a.Name == b.Name {
		return a
	}
	if a.Kind == ownFresh {
		return b
	}
	if b.Kind == ownFresh {
		return a
	}
	if a.Kind == ownUnknown {
		return a
	}
	if b.Kind == ownUnknown {
		return b
	}
	n := a.Name
	if !strings.Contains(n, b.Name) {
		n += " or " + b.Name
	}
	return &Owner{Kind: a.Kind, Name: n}
}

// arrP joins array contents; nil entries (no array) impose nothing.
func (j *joiner) arrP(as []*Arr) *Arr {
	var idx []int
	for i, a := range as {
		if a != nil {
			idx = append(idx, i)
		}
	}
	have := make([]*Arr, len(idx))
	srcs := make([]*State, len(idx))
	for k, i := range idx {
		have[k], srcs[k] = as[i], j.src[i]
	}
	return j.arrIn(have, srcs)
}

func (j *joiner) arr(as []*Arr) *Arr { return j.arrIn(as, j.src) }

func (j *joiner) arrIn(as []*Arr, src []*State) *Arr {
	if len(as) == 0 {
		return &Arr{base: baseZero, elem: types.Typ[types.Uint8], owner: freshOwner}
	}
	same := true
	for _, a := range as[1:] {
		if a != as[0] {
			same = false
		}
	}
	if same && (!j.loop || j.stableArr(as[0])) {
		return as[0]
	}
	k0 := arrKey(as[0])
	same = true
	for _, a := range as[1:] {
		if arrKey(a) != k0 {
			same = false
			break
		}
	}
	if same && (!j.loop || j.stableArr(as[0])) {
		return as[0]
	}
	n := &Arr{base: as[0].base, obj: as[0].obj, elem: as[0].elem, owner: as[0].owner, name: as[0].name, str: as[0].str}
	for _, a := range as[1:] {
		if a.base != n.base || a.obj != n.obj || a.str != n.str {
			n.base = baseUnknown
		}
		if a.elem != nil {
			n.elem = a.elem
		}
		n.owner = joinOwner(n.owner, a.owner)
	}
	if n.base == baseInit && j.perIter(n.obj) {
		n.base = baseUnknown
	}
	if n.base == baseUnknown {
		n.obj = 0
		for i, a := range as {
			n.owner = joinOwner(n.owner, src[i].contentOwner(a, a.ovs, nil))
		}
		return n
	}
	// common overlay prefix
	k := 0
	for {
		ok := true
		var key string
		for i, a := range as {
			if k >= len(a.ovs) {
				ok = false
				break
			}
			q := ovKey(&a.ovs[k])
			if i == 0 {
				key = q
			} else if q != key {
				ok = false
				break
			}
		}
		if ok && j.loop && !j.stableOv(&as[0].ovs[k]) {
			ok = false
		}
		if !ok {
			break
		}
		k++
	}
	n.ovs = append([]Ov(nil), as[0].ovs[:k]...)
	for i, a := range as {
		n.owner = joinOwner(n.owner, src[i].contentOwner(a, a.ovs, nil))
	}
	// the rest becomes unknown above a verified lower bound
	var cands []Lin
	for _, a := range as {
		for _, o := range a.ovs[k:] {
			if j.stable(o.Lo) {
				cands = append(cands, o.Lo)
			}
		}
	}
	lo := lc(negInf / 4)
	for _, c := range cands {
		ok := true
		for i, a := range as {
			for _, o := range a.ovs[k:] {
				if !src[i].leq(c, o.Lo) {
					ok = false
				}
			}
		}
		if ok {
			lo = c
			break
		}
	}
	// the new overlay hides earlier ones above the bound
	for len(n.ovs) > 0 {
		o := n.ovs[len(n.ovs)-1]
		d := o.Lo.sub(lo)
		if !(d.isConst() && d.c >= 0) && lo.c > negInf/8 {
			break
		}
		if o.K == ovUnknown && o.Lo.eq(lo) {
			return n
		}
		n.ovs = n.ovs[:len(n.ovs)-1]
	}
	n.ovs = append(n.ovs, Ov{Lo: lo, Hi: lc(lenMax * 2), K: ovUnknown})
	return n
}

// stable: the expression means the same in every source state.
func (j *joiner) stable(l Lin) bool {
	for _, x := range l.t {
		if !j.e.vs.stableVar(x.v, j.fixed) {
			return false
		}
	}
	return true
}

func (vs *Vars) stableVar(v Var, fixed int) bool {
	if int(v) < fixed {
		return true
	}
	if vs.info[v].k != 0 {
		for _, x := range vs.info[v].num.t {
			if !vs.stableVar(x.v, fixed) {
				return false
			}
		}
		return true
	}
	return false
}

func arrKey(a *Arr) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d,%d,%s", a.base, a.obj, a.str)
	for i := range a.ovs {
		sb.WriteString(ovKey(&a.ovs[i]))
	}
	return sb.String()
}

func ovKey(o *Ov) string {
	s := fmt.Sprintf("{%d %s %s", o.K, o.Lo.key(), o.Hi.key())
	switch o.K {
	case ovSingle:
		s += valKey(o.V)
	case ovCopy:
		s += fmt.Sprintf("%p%s", o.Src, o.Delta.key())
	case ovTmpl:
		s += fmt.Sprintf("%p", o.T)
	}
	return s + "}"
}

// valKey is a structural key of a value.
func valKey(v Value) string {
	switch x := v.(type) {
	case nil:
		return "-"
	case IntV:
		return "I" + x.L.key()
	case BoolV:
		return "B" + boolKey(x)
	case StrV:
		if x.Const != nil {
			return "S\"" + *x.Const
		}
		return fmt.Sprintf("S%d:%s:%p%s", x.ID, x.Len.key(), x.Bytes, x.Off.key())
	case SliceV:
		return fmt.Sprintf("L%d,%s,%s,%s,%s", x.Obj, x.Off.key(), x.Len.key(), x.Cap.key(), x.Nil.key())
	case PtrV:
		return fmt.Sprintf("P%d%s,%s", x.Obj, pathStr(nil, x.Path), x.Nil.key())
	case IfaceV:
		d := ""
		if x.Dyn != nil {
			d = x.Dyn.String()
		}
		return fmt.Sprintf("F%s,%s,%d,%s", x.Nil.key(), d, x.ID, valKey(x.Val))
	case FuncV:
		s := fmt.Sprintf("f%p,%d,%s", x.Fn, x.ID, x.Nil.key())
		for _, b := range x.Bind {
			s += valKey(b)
		}
		return s
	case StructV:
		s := "{"
		for _, f := range x.F {
			s += valKey(f) + ","
		}
		return s + "}"
	case TupleV:
		s := "("
		for _, f := range x.E {
			s += valKey(f) + ","
		}
		return s + ")"
	case ArrV:
		return "A" + arrKey(x.A)
	case MapV:
		return fmt.Sprintf("M%d,%s", x.Obj, x.Nil.key())
	case IterV:
		return fmt.Sprintf("R%d", x.Obj)
	case FloatV:
		return "fl"
	case OpaqueV:
		return fmt.Sprintf("?%d", x.ID)
	}
	return fmt.Sprintf("?%T", v)
}

func mapKeyC(m *MapC) string {
	s := fmt.Sprint(m.unknown)
	for i := range m.keys {
		s += valKey(m.keys[i]) + "=" + valKey(m.vals[i]) + ";"
	}
	return s
}

// memory joins the memories of the sources into j.out.
func (j *joiner) memory() {
	e := j.e
	ids := map[ObjID]bool{}
	for _, s := range j.src {
		for id := range s.mem {
			ids[id] = true
		}
	}
	var order []ObjID
	for id := range ids {
		order = append(order, id)
	}
	sort.Slice(order, func(a, b int) bool { return order[a] < order[b] })
	for _, id := range order {
		var os []*Object
		missing := false
		same := true
		for _, s := range j.src {
			o := s.obj(id)
			if o == nil {
				missing = true
				break
			}
			if len(os) > 0 && o != os[0] {
				same = false
			}
			os = append(os, o)
		}
		if missing {
			continue // only reachable through values that differ
		}
		if same {
			j.out.mem[id] = os[0]
			continue
		}
		n := *os[0]
		if j.loop && int(id) > j.fixedObj && e.initObj[id] != nil {
			// initial memory named by a value of one iteration
			for _, o := range os {
				if o != e.initObj[id] {
					j.out.lose(o)
				}
			}
			continue
		}
		switch n.kind {
		case okCell, okGhost:
			vs := make([]Value, len(os))
			key := ""
			same := true
			for i, o := range os {
				if n.kind == okGhost && o.cell == nil {
					vs[i] = ic(0)
				} else {
					vs[i] = j.src[i].cellOf(o)
				}
				k := valKey(vs[i])
				if i == 0 {
					key = k
				} else if k != key {
					same = false
				}
			}
			if same {
				n.cell = vs[0]
			} else {
				n.cell = j.value(fmt.Sprintf("o%d:%s", id, n.site), n.typ, vs)
			}
		case okArray:
			as := make([]*Arr, len(os))
			for i, o := range os {
				as[i] = o.arr
			}
			n.arr = j.arr(as)
		case okMap:
			key := mapKeyC(os[0].mp)
			same := true
			for _, o := range os[1:] {
				if mapKeyC(o.mp) != key {
					same = false
				}
			}
			if !same {
				n.mp = &MapC{unknown: true}
			}
		}
		for _, o := range os[1:] {
			n.owner = joinOwner(n.owner, o.owner)
			for k, a := range o.alias {
				found := false
				for _, b := range n.alias {
					if a == b {
						found = true
					}
				}
				if !found {
					n.alias = append(append([]ObjID(nil), n.alias...), a)
					n.aliasCap = append(append([]Lin(nil), n.aliasCap...), o.aliasCap[k])
				}
			}
		}
		j.out.mem[id] = &n
	}
	for _, s := range j.src {
		for k := range s.lost {
			j.out.loseKey(k)
		}
	}
}

// ---- join of partitions (no loop): constraints

// joinStates joins states with parallel value vectors. types may be nil.
func (e *Eng) joinStates(src []*State, names []string, typs []types.Type, vals [][]Value) (*State, []Value) {
	if len(src) == 1 {
		return src[0], vals[0]
	}
	j := newJoiner(e, src)
	j.fixed = 0
	j.out = &State{e: e, mem: map[ObjID]*Object{}, trail: &trail{nil, fmt.Sprintf("(join of %d partitions%s)", len(src), e.joinAt)}}
	for _, s := range src {
		for k := range s.lost {
			j.out.loseKey(k)
		}
	}
	// constraints common to all sources
	cnt := map[string]int{}
	for _, s := range src {
		seen := map[string]bool{}
		for _, c := range s.cs.all {
			k := c.key()
			if !seen[k] {
				seen[k] = true
				cnt[k]++
			}
		}
	}
	var common, rest []Con
	seen := map[string]bool{}
	for _, s := range src {
		for _, c := range s.cs.all {
			k := c.key()
			if seen[k] {
				continue
			}
			seen[k] = true
			if cnt[k] == len(src) {
				common = append(common, c)
			} else {
				rest = append(rest, c)
			}
		}
	}
	j.out.cs = newConSet(common)
	// variables of the common part are meaningful in every source
	j.fixed = len(e.vs.info)
	j.memory()
	out := make([]Value, len(vals[0]))
	for k := range out {
		col := make([]Value, len(src))
		same := true
		for i := range src {
			col[i] = vals[i][k]
			if i > 0 && valKey(col[i]) != valKey(col[0]) {
				same = false
			}
		}
		if same {
			// objects it refers to must exist
			out[k] = col[0]
			j.keepObjs(col[0])
			continue
		}
		var t types.Type
		if typs != nil {
			t = typs[k]
		}
		out[k] = j.value(names[k], t, col)
	}
	// inequalities of single sources that hold in all
	for _, c := range rest {
		if c.Op == ne {
			continue
		}
		cs := []Con{c}
		if c.Op == eq {
			cs = []Con{{c.L, ge}, {c.L.neg(), ge}}
		}
		for _, q := range cs {
			ok := true
			for _, s := range src {
				if !s.entails(q) {
					ok = false
					break
				}
			}
			if ok {
				j.out.add(q)
			}
		}
	}
	j.hull(nil)
	j.closure(out)
	j.symAlias()
	return j.out, out
}

func (j *joiner) keepObjs(v Value) {
	switch x := v.(type) {
	case SliceV:
		j.object("", []ObjID{x.Obj}, true)
	case PtrV:
		j.object("", []ObjID{x.Obj}, false)
	case MapV:
		j.object("", []ObjID{x.Obj}, false)
	case IfaceV:
		j.keepObjs(x.Val)
	case StructV:
		for _, f := range x.F {
			j.keepObjs(f)
		}
	case TupleV:
		for _, f := range x.E {
			j.keepObjs(f)
		}
	case FuncV:
		for _, f := range x.Bind {
			j.keepObjs(f)
		}
	}
}

// at rewrites a form over slots into source i.
func (j *joiner) at(f Lin, i int) Lin {
	for _, s := range j.slots {
		f = f.subst(s.v, s.vals[i])
	}
	return f
}

// hull adds template inequalities over the slots that hold in all sources.
func (j *joiner) hull(extra []Lin) {
	var forms []Lin
	seen := map[string]bool{}
	addF := func(l Lin) {
		l.c = 0
		if len(l.t) == 0 {
			return
		}
		k := l.key()
		if !seen[k] {
			seen[k] = true
			forms = append(forms, l)
		}
	}
	for _, s := range j.slots {
		addF(lv(s.v))
		addF(lv(s.v).neg())
		for _, l := range s.vals {
			if !l.isConst() {
				addF(lv(s.v).sub(l))
				addF(l.sub(lv(s.v)))
			}
		}
	}
	if len(j.slots) <= 12 {
		for a := range j.slots {
			for b := a + 1; b < len(j.slots); b++ {
				d := lv(j.slots[a].v).sub(lv(j.slots[b].v))
				addF(d)
				addF(d.neg())
			}
		}
	}
	for _, f := range extra {
		addF(f)
	}
	for _, f := range forms {
		b := int64(posInf)
		for i, s := range j.src {
			m, ok := s.inf(j.at(f, i))
			if !ok {
				b = negInf
				break
			}
			if m < b {
				b = m
			}
		}
		if b > negInf/4 && b < posInf/4 {
			j.out.add(Con{f.addc(-b), ge})
		}
	}
}

// pressure joins partitions at b when there are more than max.
func (e *Eng) pressure(r *run, b *ssa.BasicBlock, states []*ps, max int) []*ps {
	var alive []*ps
	for _, s := range states {
		if !s.st.dead {
			alive = append(alive, s)
		}
	}
	states = alive
	if len(states) <= max && (max > e.opts.MaxStates || len(states) <= softStates || e.hooks.ghosts) {
		return states
	}
	e.stats.joins++
	live := e.liveAt(r.fr.fn)[b]
	names := sortedLive(live)
	group := func(level int) map[string][]*ps {
		g := map[string][]*ps{}
		for _, s := range states {
			k := e.ghostKey(s.st)
			for _, v := range names {
				x, ok := s.env[v]
				if !ok {
					k += "-;"
					continue
				}
				if y, ok := x.(IntV); ok && level < 2 && !y.L.isConst() {
					// an integer of a few values, decided in this partition
					if lo, hi := s.st.ival(y.L); hi-lo < 16 || enumType(v.Type()) {
						if a, ok := s.st.inf(y.L); ok {
							if b, ok := s.st.sup(y.L); ok {
								if a == b {
									x = IntV{L: lc(a)}
								} else {
									k += fmt.Sprint(a, "..", b)
								}
							}
						}
					}
				}
				if level < 0 {
					k += valKey(x) + ";"
				} else {
					if y, ok := x.(IntV); ok && level == 1 && y.L.isConst() {
						k += fmt.Sprint(y.L.c) + ";"
						continue
					}
					k += shape(x, level) + ";"
				}
			}
			g[k] = append(g[k], s)
		}
		return g
	}
	for level := -1; ; level++ {
		g := group(level)
		if level < 0 && len(g) == len(states) {
			if len(states) <= max {
				return states
			}
			continue
		}
		if len(g) > max && level >= 0 && level < 2 {
			continue
		}
		var keys []string
		for k := range g {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var out []*ps
		for _, k := range keys {
			grp := g[k]
			if len(grp) == 1 {
				out = append(out, grp[0])
				continue
			}
			var src []*State
			var vals [][]Value
			var ns []string
			var ts []types.Type
			for _, v := range names {
				if _, ok := grp[0].env[v]; ok {
					ns = append(ns, v.Name())
					ts = append(ts, v.Type())
				}
			}
			for _, s := range grp {
				src = append(src, s.st)
				var row []Value
				for _, v := range names {
					if x, ok := s.env[v]; ok {
						row = append(row, x)
					}
				}
				vals = append(vals, row)
			}
			e.joinAt = " at " + e.p.pos(blockPos(b))
			st, vs := e.joinStates(src, ns, ts, vals)
			e.joinAt = ""
			n := &ps{st: st, env: map[ssa.Value]Value{}, defers: grp[0].defers}
			k := 0
			for _, v := range names {
				if _, ok := grp[0].env[v]; ok {
					n.env[v] = vs[k]
					k++
				}
			}
			out = append(out, n)
		}
		if level < 0 && len(out) > max {
			states = out
			continue
		}
		return out
	}
}

// softStates: more partitions than this are joined when they agree on all
// live values.
const softStates = 4

// shape is what must agree for values to be joined without losing structure.
func shape(v Value, level int) string {
	switch x := v.(type) {
	case IfaceV:
		s := "F"
		if x.Nil.isConst() {
			s += fmt.Sprint(x.Nil.c)
		}
		if level < 2 && x.Dyn != nil {
			s += x.Dyn.String()
		}
		if level < 1 {
			s += fmt.Sprint(x.ID)
		}
		return s
	case BoolV:
		if level < 2 && x.Const {
			return fmt.Sprint(x.Val)
		}
		return "b"
	case PtrV:
		if level < 2 {
			return fmt.Sprintf("P%d", x.Obj)
		}
		return "P"
	case SliceV:
		if level < 1 {
			return fmt.Sprintf("L%d", x.Obj)
		}
		return "L"
	case IntV:
		if level < 1 && x.L.isConst() {
			return fmt.Sprint(x.L.c)
		}
		return "I"
	case TupleV:
		s := ""
		for _, f := range x.E {
			s += shape(f, level)
		}
		return s
	case StructV:
		s := ""
		for _, f := range x.F {
			s += shape(f, level)
		}
		return s
	}
	return "."
}

// mergeOutcomes reduces the number of outcomes of a call.
func (e *Eng) mergeOutcomes(outs []Outcome, n int) []Outcome {
	var alive []Outcome
	for _, o := range outs {
		if !o.st.dead {
			alive = append(alive, o)
		}
	}
	outs = alive
	if len(outs) <= n {
		return outs
	}
	e.stats.joins++
	for level := 0; ; level++ {
		g := map[string][]Outcome{}
		var keys []string
		for _, o := range outs {
			k := shape(o.ret, level)
			if g[k] == nil {
				keys = append(keys, k)
			}
			g[k] = append(g[k], o)
		}
		if len(keys) > n && level < 2 {
			continue
		}
		var res []Outcome
		for _, k := range keys {
			grp := g[k]
			if len(grp) == 1 {
				res = append(res, grp[0])
				continue
			}
			var src []*State
			var vals [][]Value
			for _, o := range grp {
				src = append(src, o.st)
				vals = append(vals, []Value{o.ret})
			}
			st, vs := e.joinStates(src, []string{"result"}, []types.Type{nil}, vals)
			res = append(res, Outcome{st, vs[0]})
		}
		return res
	}
}

// ---- liveness

func sortedLive(m map[ssa.Value]bool) []ssa.Value {
	var r []ssa.Value
	for v := range m {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool {
		if len(r[i].Name()) != len(r[j].Name()) {
			return len(r[i].Name()) < len(r[j].Name())
		}
		return r[i].Name() < r[j].Name()
	})
	return r
}

// liveAt gives the values needed from the start of each block (its phis
// included).
func (e *Eng) liveAt(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l := e.live[fn]; l != nil {
		return l
	}
	if e.live == nil {
		e.live = map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}
	}
	isLocal := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				k := -1
				for n, pr := range s.Preds {
					if pr == b {
						k = n
					}
				}
				for v := range in[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					live[v] = true
				}
				for _, x := range s.Instrs {
					ph, ok := x.(*ssa.Phi)
					if !ok {
						break
					}
					if isLocal(ph.Edges[k]) {
						live[ph.Edges[k]] = true
					}
				}
			}
			for n := len(b.Instrs) - 1; n >= 0; n-- {
				x := b.Instrs[n]
				if _, ok := x.(*ssa.Phi); ok {
					continue // stays live at the block start when used
				}
				if v, ok := x.(ssa.Value); ok {
					delete(live, v)
				}
				for _, op := range x.Operands(nil) {
					if op != nil && *op != nil && isLocal(*op) {
						live[*op] = true
					}
				}
			}
			if len(live) != len(in[b]) {
				in[b] = live
				changed = true
			}
		}
	}
	e.live[fn] = in
	return in
}

// refs calls f for every object a value refers to.
func refs(v Value, f func(ObjID)) {
	switch x := v.(type) {
	case SliceV:
		f(x.Obj)
	case PtrV:
		f(x.Obj)
	case MapV:
		f(x.Obj)
	case IterV:
		f(x.Obj)
	case IfaceV:
		f(x.Obj)
		refs(x.Val, f)
	case StructV:
		for _, y := range x.F {
			refs(y, f)
		}
	case TupleV:
		for _, y := range x.E {
			refs(y, f)
		}
	case FuncV:
		for _, y := range x.Bind {
			refs(y, f)
		}
	case ArrV:
		arrRefs(x.A, f)
	case StrV:
		if x.Bytes != nil {
			arrRefs(x.Bytes, f)
		}
	}
}

func arrRefs(a *Arr, f func(ObjID)) {
	if a == nil {
		return
	}
	for i := range a.ovs {
		if a.ovs[i].V != nil {
			refs(a.ovs[i].V, f)
		}
		if a.ovs[i].Src != nil {
			arrRefs(a.ovs[i].Src, f)
		}
	}
}

// closure makes sure that every object the joined state refers to exists in
// it.
func (j *joiner) closure(vals []Value) {
	e := j.e
	var work []ObjID
	note := func(id ObjID) {
		if id == 0 || j.out.obj(id) != nil {
			return
		}
		for _, s := range j.src {
			o := s.obj(id)
			if o == nil {
				continue
			}
			if j.loop && int(id) > j.fixedObj {
				// memory of one iteration: content unknown
				n := *o
				switch n.kind {
				case okCell:
					own := n.owner
					if n.cell != nil {
						own = joinOwner(own, s.contentOwner(&Arr{elem: n.typ}, []Ov{{K: ovSingle, V: n.cell}}, nil))
					}
					n.cell = e.newSym(n.typ, n.site, own, false)
				case okArray:
					n.arr = &Arr{base: baseUnknown, elem: o.arr.elem, owner: joinOwner(o.arr.owner, s.contentOwner(o.arr, o.arr.ovs, nil)), name: o.arr.name}
				case okMap:
					n.mp = &MapC{unknown: true}
				}
				o = &n
			}
			j.out.mem[id] = o
			work = append(work, id)
			return
		}
	}
	for _, v := range vals {
		refs(v, note)
	}
	var ids []ObjID
	for id := range j.out.mem {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
	work = append(work, ids...)
	for len(work) > 0 {
		o := j.out.mem[work[0]]
		work = work[1:]
		refs(o.cell, note)
		arrRefs(o.arr, note)
		if o.mp != nil {
			for i := range o.mp.keys {
				refs(o.mp.keys[i], note)
				refs(o.mp.vals[i], note)
			}
			refs(o.mp.elem, note)
		}
	}
}

// unclosed finds a dangling reference (debugging aid).
func (st *State) unclosed(vals ...Value) string {
	bad := ""
	for id, o := range st.mem {
		chk := func(r ObjID) {
			if r != 0 && st.obj(r) == nil {
				bad = fmt.Sprintf("object %d (%s) refers to missing %d", id, o.site, r)
			}
		}
		refs(o.cell, chk)
		arrRefs(o.arr, chk)
	}
	for _, v := range vals {
		refs(v, func(r ObjID) {
			if r != 0 && st.obj(r) == nil {
				bad = fmt.Sprintf("value %s refers to missing %d", valKey(v), r)
			}
		})
	}
	return bad
}

// sliceShape asserts what holds of every slice.
func (st *State) sliceShape(s SliceV) {
	if s.Cap.isConst() && s.Len.isConst() {
		return
	}
	st.add(Con{s.Cap.sub(s.Len), ge})
	st.add(Con{s.Len, ge})
	if !s.Nil.isConst() {
		st.add(Con{s.Nil.neg().addc(1).scale(lenMax * 2).sub(s.Cap), ge})
	}
}

// collect drops the memory of one iteration that only may-share lists refer
// to. What it owned is noted on what it may share memory with.
func (j *joiner) collect(vals []Value) {
	reach := map[ObjID]bool{}
	var work []ObjID
	note := func(id ObjID) {
		if id != 0 && !reach[id] {
			reach[id] = true
			work = append(work, id)
		}
	}
	for _, v := range vals {
		refs(v, note)
	}
	for id := range j.out.mem {
		if int(id) <= j.fixedObj {
			note(id)
		}
	}
	for len(work) > 0 {
		o := j.out.mem[work[0]]
		work = work[1:]
		if o == nil {
			continue
		}
		refs(o.cell, note)
		arrRefs(o.arr, note)
		if o.mp != nil {
			for i := range o.mp.keys {
				refs(o.mp.keys[i], note)
				refs(o.mp.vals[i], note)
			}
			refs(o.mp.elem, note)
		}
	}
	gone := func(id ObjID) bool { return int(id) > j.fixedObj && !reach[id] && j.out.mem[id] != nil }
	for id, o := range j.out.mem {
		drop := false
		for _, a := range o.alias {
			if gone(a) {
				drop = true
			}
		}
		if !drop || gone(id) {
			continue
		}
		n := *o
		n.alias, n.aliasCap = nil, nil
		for i, a := range o.alias {
			if gone(a) {
				if ao := j.out.mem[a]; n.owner.Kind == ownFresh && ao.owner.Kind != ownFresh {
					n.owner = ao.owner
				}
				continue
			}
			n.alias = append(n.alias, a)
			n.aliasCap = append(n.aliasCap, o.aliasCap[i])
		}
		j.out.mem[id] = &n
	}
	for id := range j.out.mem {
		if gone(id) {
			defer delete(j.out.mem, id)
		}
	}
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return b.Parent().Pos()
}

func enumType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	b, ok := n.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
