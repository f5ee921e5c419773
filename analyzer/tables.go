package main

import (
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The harnesses about character tables do not look into the tables. Obtaining
// one yields a map known only by its language, and what a conversion returns
// is known by the languages of the tables it used.

type convTables struct {
	locking, shift Lin
}

func inPkg(fn *ssa.Function, suffix string) bool {
	return fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), suffix)
}

// tableHook is the hook for calls.
func (e *Eng) tableHook(fr *Frame, c ssa.CallInstruction, fn *ssa.Function, args []Value, st *State) ([]Outcome, bool) {
	name := fn.Name()
	sig := fn.Signature
	if inPkg(fn, "/gsm7/charset") && sig.Recv() == nil && sig.Results().Len() == 1 {
		mt, ok := sig.Results().At(0).Type().Underlying().(*types.Map)
		if !ok || !strings.HasSuffix(name, "coder") {
			return nil, false
		}
		nli := lc(0)
		if len(args) == 1 {
			nli = e.intOf(args[0], types.Typ[types.Int]).L
		}
		o := e.newObj(okMap, mt, freshOwner, "table")
		o.mp = &MapC{unknown: true}
		st.put(o)
		if e.tableOf == nil {
			e.tableOf = map[ObjID]Lin{}
			e.convOf = map[ObjID]convTables{}
		}
		e.tableOf[o.id] = nli
		return []Outcome{{st, MapV{Obj: o.id}}}, true
	}
	if inPkg(fn, "/encoding/gsm7") && (name == "Encode" || name == "Decode") && sig.Recv() != nil {
		var v Value = args[0]
		if p, ok := v.(PtrV); ok {
			vs := st.load(p)
			if len(vs) != 1 {
				return nil, false
			}
			v = vs[0].v
		}
		s, ok := v.(StructV)
		if !ok || len(s.F) < 2 {
			return nil, false
		}
		t := sig.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		ut := t.Underlying().(*types.Struct)
		lang := func(f string) (Lin, bool) {
			for i := 0; i < ut.NumFields(); i++ {
				if ut.Field(i).Name() == f {
					m, ok := s.F[i].(MapV)
					if !ok {
						return Lin{}, false
					}
					l, ok := e.tableOf[m.Obj]
					return l, ok
				}
			}
			return Lin{}, false
		}
		l, ok1 := lang("set")
		x, ok2 := lang("ext")
		rt := e.havocResult(sig, "text").(TupleV)
		if b, ok := rt.E[0].(SliceV); ok && ok1 && ok2 {
			e.convOf[b.Obj] = convTables{l, x}
			e.ghostSet(st, "locking", iv(l))
			e.ghostSet(st, "shift", iv(x))
		} else {
			e.ghostSet(st, "locking", iv(lv(e.vs.fresh("ghost", negInf, posInf))))
			e.ghostSet(st, "shift", iv(lv(e.vs.fresh("ghost", negInf, posInf))))
		}
		return []Outcome{{st, rt}}, true
	}
	if isHarness(fn) && (name == "lockingOf" || name == "shiftOf") {
		if b, ok := args[0].(SliceV); ok {
			if t, ok := e.convOf[b.Obj]; ok {
				if name == "lockingOf" {
					return []Outcome{{st, iv(t.locking)}}, true
				}
				return []Outcome{{st, iv(t.shift)}}, true
			}
		}
		return []Outcome{{st, e.inRange("language", negInf, posInf)}}, true
	}
	if isHarness(fn) && (name == "lastLocking" || name == "lastShift") {
		return []Outcome{{st, iv(e.ghostL(st, strings.ToLower(name[4:])))}}, true
	}
	return nil, false
}
