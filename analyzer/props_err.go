package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// errResult is the last result, when it is an error.
func errResult(sig *types.Signature, v Value) (IfaceV, bool) {
	k := sig.Results().Len()
	if k == 0 || !isErrorType(sig.Results().At(k-1).Type()) {
		return IfaceV{}, false
	}
	if k > 1 {
		t, ok := v.(TupleV)
		if !ok || len(t.E) != k {
			return IfaceV{}, false
		}
		v = t.E[k-1]
	}
	x, ok := v.(IfaceV)
	return x, ok
}

func nilLinOf(v Value) (Lin, bool) {
	switch x := v.(type) {
	case PtrV:
		return x.Nil, true
	case SliceV:
		return x.Nil, true
	case MapV:
		return x.Nil, true
	case IfaceV:
		return x.Nil, true
	}
	return Lin{}, false
}

// partialResult: operations documented to return what they did before the
// error.
var partialResult = map[string]bool{
	"encoding/ucs2.Decode":         true, // the runes before a dangling surrogate
	"encoding/tpdu.DecodeUserData": true, // likewise
	"encoding/semioctet.Decode":    true, // the destination and the octets read
}

// documentedFallback: the caller documents what happens instead of the error.
func documentedFallback(fr *Frame, callee string) bool {
	// an unknown coding scheme reads as the default alphabet
	if strings.HasSuffix(callee, ".Alphabet") {
		return true
	}
	// text that one alphabet cannot represent is encoded with the next
	for f := fr; f != nil; f = f.up {
		if fname(f.fn) == "encoding/tpdu.EncodeUserData" && strings.HasPrefix(callee, "encoding/gsm7.") {
			return true
		}
	}
	return false
}

func calleeName(c *ssa.CallCommon) string {
	if f := c.StaticCallee(); f != nil {
		return fname(f)
	}
	if c.IsInvoke() {
		return "method " + c.Method.Name()
	}
	return "function value"
}

func init() {
	register("C16", "proof", func(c *Ctx) {
		c.rep.Rule = engineRule + "obligations, at every return of an exported function or method whose last result is an error: with an error, the other results are nil, empty or zero (operations documented to return partial results excepted); without one, pointer results are not nil"
		c.rep.Assume = engineAssume
		res := c.runAPI(nil, func(e *Eng, r Root, outs []Outcome, args []Value) {
			sig := r.fn.Signature
			k := sig.Results().Len()
			if k < 2 || !isErrorType(sig.Results().At(k-1).Type()) {
				return
			}
			fr := &Frame{fn: r.fn}
			for _, o := range outs {
				if o.st.dead {
					continue
				}
				ev, ok := errResult(sig, o.ret)
				if !ok {
					e.recordMsg(o.st, fr, r.fn.Pos(), "xor", "results are known", false, "result is not known")
					continue
				}
				for i := 0; i < k-1; i++ {
					v := o.ret.(TupleV).E[i]
					switch x := v.(type) {
					case PtrV:
						// nil exactly when there is an error
						e.recordMsg(o.st, fr, r.fn.Pos(), "xor", "pointer result is nil exactly when an error is returned", o.st.entails(Con{x.Nil.add(ev.Nil).addc(-1), eq}), "a nil pointer without an error, or a value with one")
					case SliceV:
						if partialResult[r.name] {
							continue
						}
						t := o.st.clone()
						if !t.assume(Con{ev.Nil, eq}) {
							e.recordMsg(o.st, fr, r.fn.Pos(), "xor", "no partial result is returned with an error", true, "")
							continue
						}
						e.recordMsg(t, fr, r.fn.Pos(), "xor", "no partial result is returned with an error", t.entails(Con{x.Len, eq}), "a slice that need not be empty is returned with an error")
					case StrV:
						t := o.st.clone()
						if !t.assume(Con{ev.Nil, eq}) {
							e.recordMsg(o.st, fr, r.fn.Pos(), "xor", "no partial result is returned with an error", true, "")
							continue
						}
						e.recordMsg(t, fr, r.fn.Pos(), "xor", "no partial result is returned with an error", t.entails(Con{x.Len, eq}), "a string that need not be empty is returned with an error")
					}
				}
			}
		})
		c.absorbIf(res, func(Root) bool { return true }, func(k string) bool { return k == "xor" })
	})
	register("C17", "proof", func(c *Ctx) {
		c.rep.Rule = engineRule + "obligations, at every return of an exported function or method whose last result is an error: if any call made on the path (of the module, of the standard library, of an option) returned an error, then the error result is not nil; documented fallbacks are excepted: an undefined coding scheme reads as the default alphabet, EncodeUserData tries the next alphabet, Decode carries an unpaired surrogate over to the next segment"
		c.rep.Assume = engineAssume
		res := c.runAPI(func(e *Eng, r Root) {
			e.hooks.afterCall = func(fr *Frame, p *ps, x *ssa.Call) {
				callee := calleeName(x.Common())
				if callee == "errors.As" || callee == "errors.Is" {
					if b, ok := p.env[x].(BoolV); ok {
						e.ghostClear(p.st, "pending", b)
					}
					return
				}
				if _, ok := x.Common().Value.(*ssa.Builtin); ok {
					return
				}
				ev, ok := errResult(x.Common().Signature(), p.env[x])
				if !ok || documentedFallback(fr, callee) || ev.Nil.isConst() && ev.Nil.c == 1 {
					return
				}
				if callee == "errors.New" || callee == "fmt.Errorf" || strings.HasSuffix(callee, "Error") && x.Common().Signature().Results().Len() == 1 {
					return // constructors
				}
				e.ghostOr(p.st, "pending", ev.Nil)
			}
			e.hooks.asserted = func(st *State, t types.Type) {
				if n, ok := t.(*types.Named); ok && n.Obj().Name() == "ErrDanglingSurrogate" {
					o := *e.ghost(st, "pending")
					o.cell = ic(0)
					st.put(&o)
				}
			}
		}, func(e *Eng, r Root, outs []Outcome, args []Value) {
			sig := r.fn.Signature
			k := sig.Results().Len()
			fr := &Frame{fn: r.fn}
			if k == 0 {
				// an operation that cannot return an error keeps it
				for _, o := range outs {
					if o.st.dead {
						continue
					}
					g, ok := e.ghost(o.st, "pending").cell.(IntV)
					kept := ok && o.st.entails(Con{g.L, eq})
					for _, a := range args {
						if p, isp := a.(PtrV); isp && p.Obj != 0 && ok {
							for _, f := range errFields(p.elemType(e), e.peek(o.st, p)) {
								kept = kept || o.st.entails(Con{lc(1).sub(f.Nil).sub(g.L), ge})
							}
						}
					}
					e.recordMsg(o.st, fr, r.fn.Pos(), "swallow", "an error of a step is kept", kept, "a step may fail without that being recorded")
				}
				return
			}
			if !isErrorType(sig.Results().At(k - 1).Type()) {
				return
			}
			for _, o := range outs {
				if o.st.dead {
					continue
				}
				ev, ok := errResult(sig, o.ret)
				// errors kept by options
				for _, ob := range o.st.mem {
					if ob.kind != okCell || ob.typ == nil {
						continue
					}
					for _, f := range errFields(ob.typ, ob.cell) {
						e.recordMsg(o.st, fr, r.fn.Pos(), "swallow", "an error kept by an option is reported", ok && o.st.entails(Con{f.Nil.sub(ev.Nil), ge}), "an option may have failed without the operation returning an error")
					}
				}
				g, ok2 := e.ghost(o.st, "pending").cell.(IntV)
				e.recordMsg(o.st, fr, r.fn.Pos(), "swallow", "an error of a step is reported", ok && ok2 && o.st.entails(Con{lc(1).sub(ev.Nil).sub(g.L), ge}), "a step may fail without the operation returning an error")
			}
		})
		c.absorbIf(res, func(Root) bool { return true }, func(k string) bool { return k == "swallow" })
	})
}

// errFields are the error fields of a struct of the module.
func errFields(t types.Type, v Value) (out []IfaceV) {
	if t == nil {
		return
	}
	s, ok := t.Underlying().(*types.Struct)
	sv, ok2 := v.(StructV)
	if !ok || !ok2 {
		return
	}
	for i := 0; i < s.NumFields() && i < len(sv.F); i++ {
		if isErrorType(s.Field(i).Type()) {
			if x, ok := sv.F[i].(IfaceV); ok {
				out = append(out, x)
			}
		}
	}
	return
}

func (p PtrV) elemType(e *Eng) types.Type {
	if o := e.initObj[p.Obj]; o != nil && len(p.Path) == 0 {
		return o.typ
	}
	return nil
}

// ghostOr sets a 0/1 ghost where the flag (0: an error) says so.
func (e *Eng) ghostOr(st *State, name string, isNil Lin) {
	o := *e.ghost(st, name)
	g, ok := o.cell.(IntV)
	switch {
	case isNil.isConst() && isNil.c == 0 || !ok:
		o.cell = ic(1)
	case isNil.isConst():
		return
	default:
		v := e.vs.fresh(name, 0, 1)
		st.add(Con{lv(v).sub(g.L), ge})
		st.add(Con{lv(v).add(isNil).addc(-1), ge})
		st.add(Con{g.L.sub(isNil).addc(1).sub(lv(v)), ge})
		o.cell = iv(lv(v))
	}
	st.put(&o)
}

// ghostClear resets a 0/1 ghost where b holds.
func (e *Eng) ghostClear(st *State, name string, b BoolV) {
	o := *e.ghost(st, name)
	g, ok := o.cell.(IntV)
	if !ok {
		return
	}
	if b.Const {
		if b.Val {
			o.cell = ic(0)
			st.put(&o)
		}
		return
	}
	v := e.vs.fresh(name, 0, 1)
	st.add(Con{g.L.sub(lv(v)), ge})
	st.add(Con{lv(v).add(boolLin(e, b)).sub(g.L), ge})
	o.cell = iv(lv(v))
	st.put(&o)
}
