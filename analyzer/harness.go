package main

import (
	"embed"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

//go:embed harness/*.txt
var harnessFS embed.FS

// generated are the harnesses that are not files; the argument is whether to
// go deep.
var generated = map[string]func(bool) string{"c08": c08Harness, "c09": c09Harness, "c10": c10Harness, "c13": c13Harness, "c19": c19Harness}

const harnessDir = "internal/zz_verif"

// harness lists the overlay files: the primitives and those of the check.
func harness(id string) func() (map[string]string, error) {
	return func() (map[string]string, error) {
		out := map[string]string{}
		for _, n := range []string{"prim", strings.ToLower(id)} {
			if g := generated[n]; g != nil {
				out[harnessDir+"/"+n+".go"] = g(os.Getenv("VERIF_TIER") == "thorough")
				continue
			}
			b, err := harnessFS.ReadFile("harness/" + n + ".go.txt")
			if err != nil {
				return nil, err
			}
			out[harnessDir+"/"+n+".go"] = string(b)
		}
		return out, nil
	}
}

func isHarness(f *ssa.Function) bool {
	return f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/"+harnessDir)
}

// prim interprets the primitives of the harness.
func (e *Eng) prim(fr *Frame, c ssa.CallInstruction, fn *ssa.Function, args []Value, st *State) ([]Outcome, bool) {
	switch fn.Name() {
	case "assert":
		what := "?"
		if s, ok := c.Common().Args[1].(*ssa.Const); ok {
			what = strings.Trim(s.Value.ExactString(), `"`)
		}
		b, _ := args[0].(BoolV)
		ok := st.decide(b) == 1
		e.recordMsg(st, fr, c.Pos(), "assert", what, ok, "this does not hold for every argument, or cannot be decided")
		if !ok && os.Getenv("SMSVERIF_DUMP") != "" {
			println("ASSERT", what)
			for _, c := range st.cs.all {
				println("   ", e.vs.str(c.L), c.Op)
			}
		}
		t, _ := st.split(b)
		var outs []Outcome
		for _, s := range t {
			outs = append(outs, Outcome{s, TupleV{}})
		}
		return outs, true
	case "assume":
		b, _ := args[0].(BoolV)
		t, _ := st.split(b)
		var outs []Outcome
		for _, s := range t {
			outs = append(outs, Outcome{s, TupleV{}})
		}
		return outs, true
	}
	return nil, false
}

// runHarness interprets the harness functions of the check.
func (c *Ctx) runHarness(inline func(*ssa.Function) bool, mergeErrs bool) {
	p := c.p
	p.addrTaken()
	p.mutableGlobals()
	var rs []Root
	for _, f := range p.fns {
		if isHarness(f) && strings.HasPrefix(f.Name(), c.rep.Prop+"_") {
			if d := os.Getenv("SMSVERIF_FN"); d == "" || strings.Contains(f.Name(), d) {
				rs = append(rs, Root{f, f.Name()})
			}
		}
	}
	var res []RootResult
	for round := 0; ; round++ {
		p.invMu.Lock()
		p.invChanged = false
		p.invMu.Unlock()
		res = make([]RootResult, len(rs))
		parallel(len(rs), func(i int) {
			res[i] = p.runRoot(rs[i], func(e *Eng) ([]Value, *State) {
				e.opts.Summ = true
				e.opts.Deep = true
				e.opts.MergeErrs = mergeErrs
				e.opts.Inline = inline
				if c.rep.Prop == "C19" {
					e.hooks.call = e.tableHook
					e.ghost(&State{e: e}, "locking")
					e.ghost(&State{e: e}, "shift")
				}
				if strings.Contains(rs[i].name, "_fits") {
					// which values are accepted
					e.opts.MergeErrs = false
					e.opts.Inline = func(f *ssa.Function) bool {
						n := f.RelString(nil)
						return inline(f) || strings.Contains(n, "Address).MarshalBinary") || strings.Contains(n, "UserDataHeader).MarshalBinary") || strings.Contains(n, "/semioctet.")
					}
				}
				return nil, nil
			}, nil)
		})
		p.invMu.Lock()
		ch := p.invChanged
		p.invMu.Unlock()
		if !ch || round > 6 {
			break
		}
	}
	// an assertion that no path reaches proves nothing
	reached := map[string]bool{}
	for _, r := range res {
		for _, x := range r.log {
			reached[x.site.pos] = true
		}
	}
	for _, r := range rs {
		for _, b := range r.fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil && f.Name() == "assert" && isHarness(f) && !reached[p.pos(ci.Pos())] {
						what := ""
						if s, ok := ci.Common().Args[1].(*ssa.Const); ok {
							what = strings.Trim(s.Value.ExactString(), "`\"")
						}
						c.rep.viol("unreachable|"+r.name+"|"+what, p.pos(ci.Pos()), "no path reaches the assertion \"%s\" in %s: the operations before it always fail", what, r.name)
					}
				}
			}
		}
	}
	var log []recEntry
	n := 0
	for _, r := range res {
		for _, x := range r.log {
			if x.site.kind == "undecided" || x.site.kind == "assert" {
				log = append(log, x)
				n++
			}
		}
	}
	c.rep.absorb(log)
	c.rep.count("assertion_functions", len(rs))
	c.rep.count("assertions_reached", n)
}

const harnessRule = "abstract interpretation of the SSA form of the library called with arbitrary arguments (linear relations, exact masks and shifts, trace partitioning, inferred invariants and summaries) against assertions that state the property independently; obligations: every assertion holds on every path that reaches it; assertions: "

func init() {
	h := func(id, what string, inline ...string) {
		level := "proof"
		if generated[strings.ToLower(id)] != nil {
			level = "other" // bounded
		}
		register(id, level, func(c *Ctx) {
			c.rep.Rule = harnessRule + what
			c.rep.Assume = engineAssume
			c.runHarness(func(f *ssa.Function) bool {
				n := f.RelString(nil)
				for _, x := range inline {
					if strings.Contains(n, x) {
						return true
					}
				}
				return false
			}, id == "C04" || id == "C05")
		}).overlay = harness(id)
	}
	h("C04", "the layout of 3GPP TS 23.040 9.2.2: the octets from which each field of each type of TPDU is decoded, and that the lengths account for every octet", "TPDU)")
	h("C05", "the layout of 3GPP TS 23.040 9.2.2: the octet to which each field of each type of TPDU is written, and that the lengths account for every octet", "TPDU)", "ValidityPeriod).MarshalBinary")
	h("C06", "position of every flag and field of the first octet and parameter indicator (3GPP TS 23.040), and that setters alter only their own bits")
	h("C08", "3GPP TS 23.038 section 6.1.2: the bits each septet takes, fill and spare bits, numbers of octets and septets, the USSD filler; septets, octets arbitrary, for each number of fill bits", "/gsm7.")
	h("C09", "UTF-16 in big-endian octets (3GPP TS 23.038 section 6.2.3): the characters that units stand for and the units of characters; arbitrary units, for each sequence of classes", "/ucs2.")
	h("C10", "segmentation (3GPP TS 23.040 section 9.2.3.24.1): the octets or septets each segment holds, its capacity, its concatenation element, and the fields it keeps; contents arbitrary, for each length, alphabet and header", "TPDU)", "tpdu.")
	h("C11", "the type, alphabet, template, addresses, references and language elements that options select, for one call and for later ones", "sms.", "tpdu.")
	h("C12", "the coding groups of 3GPP TS 23.038 section 4: alphabet, class and compression of every DCS, and that setters alter only their own bits")
	h("C13", "totals, numbers and references that agree in every segment, and no others; the octets of the joined text", "sms.", "tpdu.")
	h("C19", "the locking and shift table each conversion of 7 bit text uses, against the language elements of the header and the options; text arbitrary, for each combination of options", "sms.", "tpdu.", "/gsm7.")
	h("C29", "3GPP TS 23.040 9.2.3.24: lengths, order and bounds of the elements of the header, and concatenation elements", "UserDataHeader)", "InformationElement)")
	h("C30", "3GPP TS 23.040 9.1.2.5: type and length of addresses, and the frame of an SMSC address and TPDU", "Address)", "PDU)", "pdumode.", "/semioctet.")
	h("C27", "BCD octets and semi-octets: digits, signs, range checks, inverses, lengths", "/bcd.", "/semioctet.")
	h("C28", "validity periods: the relative format of 3GPP TS 23.040 9.2.3.12.1, enhanced formats, field lengths", "ValidityPeriod", "/bcd.")
}
