package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Invariants of the entries of maps in the heap: the length of a slice in an
// entry equals an integer that the key of the entry determines. Candidates
// are assumed at lookups and checked at every update of a map of that type;
// those that an update does not preserve are dropped and the analysis is
// repeated, until all that remain are preserved.

// keyComps lists the integers that a key determines.
func keyComps(k Value) map[string]Lin {
	out := map[string]Lin{}
	switch x := k.(type) {
	case IntV:
		out["key"] = x.L
	case StructV:
		for i, f := range x.F {
			if v, ok := f.(IntV); ok {
				out[fmt.Sprintf("field %d", i)] = v.L
			}
		}
	case StrV:
		// a number of a string from which its operands can be told
		if x.Fmt == "" || !keepsApart(x.Fmt) {
			break
		}
		toks, _ := parseFmt(x.Fmt)
		n := 0
		for i, t := range toks {
			if t.verb == 0 {
				continue
			}
			if v, ok := intPart(x.Parts[n]); ok && t.verb == 'd' {
				out[fmt.Sprintf("number %d of %q", n, x.Fmt)] = v
				if i == len(toks)-1 && i > 0 {
					out["last number"] = v
				}
				if i == 0 && len(toks) > 1 {
					out["first number"] = v
				}
			}
			n++
		}
	}
	return out
}

func intPart(k StrKey) (Lin, bool) {
	v := k.V
	if i, ok := v.(IfaceV); ok {
		v = i.Val
	}
	if i, ok := v.(IntV); ok {
		return i.L, true
	}
	return Lin{}, false
}

// entrySlices lists the slices of a map entry: of a struct or of what a
// pointer designates.
func (st *State) entrySlices(v Value) (map[string]SliceV, string) {
	out := map[string]SliceV{}
	t := ""
	if p, ok := v.(PtrV); ok {
		o := st.obj(p.Obj)
		if o == nil || o.kind != okCell || len(p.Path) > 0 {
			return nil, ""
		}
		t = o.typ.String()
		v = st.cellOf(o)
	}
	s, ok := v.(StructV)
	if !ok {
		return nil, ""
	}
	for i, f := range s.F {
		if x, ok := f.(SliceV); ok {
			out[fmt.Sprint(i)] = x
		}
	}
	return out, t
}

func (e *Eng) assumeEntry(st *State, mt *types.Map, k, v Value) {
	if _, ok := v.(PtrV); !ok {
		return
	}
	sl, t := st.entrySlices(v)
	if len(sl) == 0 || !strings.HasPrefix(t, modPath) {
		return
	}
	for cn, c := range keyComps(k) {
		for sn, s := range sl {
			key := t + "." + sn + " has the length given by the " + cn + " of the key"
			e.p.invMu.Lock()
			dropped := e.p.invDropped[key] || e.p.invDropped[t] || strings.HasPrefix(cn, "number") && e.p.invDropped[t+" format"]
			e.p.invMu.Unlock()
			if !dropped {
				e.usedInv = true
				st.add(Con{s.Len.sub(c), eq})
			}
		}
	}
}

func (e *Eng) dropInv(key string) {
	e.p.invMu.Lock()
	defer e.p.invMu.Unlock()
	if !e.p.invDropped[key] {
		if e.p.invDropped == nil {
			e.p.invDropped = map[string]bool{}
		}
		e.p.invDropped[key] = true
		e.p.invChanged = true
	}
}

func (e *Eng) checkEntry(st *State, mt *types.Map, k, v Value) {
	p, ok := v.(PtrV)
	if !ok {
		return
	}
	sl, t := st.entrySlices(v)
	if t == "" {
		t = mt.Elem().Underlying().(*types.Pointer).Elem().String()
	}
	if !strings.HasPrefix(t, modPath) {
		return
	}
	if len(sl) == 0 {
		e.dropInv(t)
	}
	comps := keyComps(k)
	names := []string{"key", "first number", "last number", "field 0", "field 1", "field 2", "field 3", "field 4", "field 5", "field 6", "field 7"}
	if x, ok := k.(StrV); ok {
		// different formats could give the same key
		e.p.invMu.Lock()
		if e.p.invFmt == nil {
			e.p.invFmt = map[string]string{}
		}
		f, seen := e.p.invFmt[t]
		if !seen {
			e.p.invFmt[t] = x.Fmt
		}
		e.p.invMu.Unlock()
		if x.Fmt == "" || seen && f != x.Fmt {
			e.dropInv(t + " format")
		}
		for cn := range comps {
			if strings.HasPrefix(cn, "number") {
				names = append(names, cn)
			}
		}
	}
	for _, cn := range names {
		c, ok := comps[cn]
		for sn, s := range sl {
			if !ok || !st.entails(Con{s.Len.sub(c), eq}) {
				e.dropInv(t + "." + sn + " has the length given by the " + cn + " of the key")
			}
		}
	}
	if e.published == nil {
		e.published = map[ObjID]bool{}
	}
	e.published[p.Obj] = true
}

// checkEntryStore: a slice of a map entry is replaced.
func (e *Eng) checkEntryStore(st *State, a PtrV, v Value) {
	o := st.obj(a.Obj)
	if o == nil || o.kind != okCell || o.typ == nil || !strings.HasPrefix(o.typ.String(), modPath) {
		return
	}
	if o.owner.Kind == ownFresh && !e.published[a.Obj] {
		return
	}
	switch v.(type) {
	case SliceV, StructV:
	default:
		return
	}
	if e.entryType(o.typ) {
		e.dropInv(o.typ.String())
	}
}

// entryType: pointers to the type are the elements of some map type of the
// module.
func (e *Eng) entryType(t types.Type) bool {
	for _, pk := range e.p.order {
		if pk.TypesInfo == nil {
			continue
		}
		for _, tv := range pk.TypesInfo.Types {
			if m, ok := tv.Type.Underlying().(*types.Map); ok {
				if p, ok := m.Elem().(*types.Pointer); ok && types.Identical(p.Elem(), t) {
					return true
				}
			}
		}
	}
	return false
}
