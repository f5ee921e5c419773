package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// checkDef is one registered check.
type checkDef struct {
	id      string
	level   string
	overlay func() (map[string]string, error)
	run     func(c *Ctx)
}

var checks = map[string]*checkDef{}

func register(id, level string, run func(c *Ctx)) *checkDef {
	d := &checkDef{id: id, level: level, run: run}
	checks[id] = d
	return d
}

// Ctx is one run of a check.
type Ctx struct {
	p    *Prog
	rep  *Report
	tier string
	seed int
	t0   time.Time
	api  *apiRun
}

func verifDir() string {
	if d := os.Getenv("SMSVERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

var shared *Prog

// shareProg loads the program; consecutive checks of one process share it.
func shareProg(share bool, ov map[string]string) (*Prog, error) {
	if share && shared != nil {
		return shared, nil
	}
	p, err := loadProg(ov)
	if share && err == nil {
		shared = p
	}
	return p, err
}

// runCheck runs one check, writes its evidence and returns the exit code.
func runCheck(id string) int {
	d := checks[id]
	if d == nil {
		fmt.Println("unknown check", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &Ctx{rep: newReport(id), tier: tier, seed: seed, t0: time.Now()}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if o := recover(); o != nil {
				msg := fmt.Sprint(o)
				if u, ok := o.(undecided); ok {
					msg = u.msg
				} else if os.Getenv("SMSVERIF_DEBUG") != "" {
					debug.PrintStack()
				}
				c.rep.viol("undecided|analysis", "-", "the analysis did not complete: %s", msg)
			}
		}()
		ov := map[string]string{}
		if d.overlay != nil {
			var err error
			if ov, err = d.overlay(); err != nil {
				c.rep.viol("undecided|harness", "-", "harness: %v", err)
				return
			}
		}
		p, err := shareProg(d.overlay == nil, ov)
		if err != nil {
			c.rep.viol("undecided|load", "-", "%v", err)
			return
		}
		c.p = p
		d.run(c)
		if c.rep.Obligations == 0 {
			c.rep.viol("undecided|vacuous", "-", "no obligation was found in the source")
		}
	}()
	limit := 780 * time.Second
	select {
	case <-done:
	case <-time.After(limit):
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, "evidence/"+id+".replay.txt")
		fmt.Println("undecided: the analysis did not complete within", limit)
		writeEvidence(d, &Ctx{rep: newReport(id), tier: tier, seed: seed, t0: c.t0}, 1)
		return 1
	}
	return c.finish(d)
}

func (c *Ctx) finish(d *checkDef) int {
	known := knownFindings()
	var bad []Viol
	for _, v := range c.rep.Viols {
		if w, ok := known[c.rep.Prop+" "+v.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.rep.Prop, w)
			continue
		}
		bad = append(bad, v)
	}
	writeEvidence(d, c, len(bad))
	fmt.Printf("property %s: %d obligations, %d discharged, %.1f s\n", c.rep.Prop, c.rep.Obligations, c.rep.Discharged, time.Since(c.t0).Seconds())
	if len(bad) == 0 {
		return 0
	}
	var sb strings.Builder
	for _, v := range bad {
		fmt.Fprintf(&sb, "%s: %s\n  key: %s\n", v.Pos, v.Msg, v.Key)
	}
	file := filepath.Join(verifDir(), "evidence", c.rep.Prop+".replay.txt")
	_ = os.WriteFile(file, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.rep.Prop, file)
	return 1
}

func writeEvidence(d *checkDef, c *Ctx, bad int) {
	r := c.rep
	cov := map[string]interface{}{}
	for k, v := range r.Stats {
		cov[k] = v
	}
	cov["obligations"] = r.Obligations
	cov["discharged"] = r.Discharged
	cov["rule"] = r.Rule
	cov["samples"] = r.Samples
	if len(r.Samples) == 0 {
		cov["samples"] = []string{}
	}
	cov["explanation"] = r.Explain
	if r.Explain == "" {
		cov["explanation"] = r.Rule
	}
	cov["checker_cmd"] = "bash check.sh " + r.Prop
	tb := append([]string{"go/types and x/tools/go/ssa (type-checked program and SSA form)", "the analyzer in /verif/analyzer"}, r.Trusted...)
	cov["trusted_base"] = tb
	ev := map[string]interface{}{
		"property": r.Prop, "tier": c.tier, "seed": c.seed, "level": d.level,
		"coverage": cov, "wall_s": time.Since(c.t0).Seconds(), "violations": bad,
	}
	if len(r.Assume) > 0 {
		ev["assumptions"] = r.Assume
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		b = []byte("{}")
	}
	dir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(dir, 0o755)
	_ = os.WriteFile(filepath.Join(dir, r.Prop+".json"), b, 0o644)
}

// knownFindings maps "property key" to a description. Lines:
//
//	known: property=<id> key=<key> :: <description>
//	fixed: property=<id> <commit> <what failed>     (suppresses nothing)
func knownFindings() map[string]string {
	out := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < i {
			continue
		}
		out[l[:i]+" "+l[i+5:j]] = l[j+4:]
	}
	return out
}

// ---- analysis of the whole API

// apiRun holds the analysis of every exported function and method.
type apiRun struct {
	res []RootResult
}

// apiRoots analyses every exported function and method. setup may add hooks.
func (c *Ctx) runAPI(setup func(e *Eng, r Root), after func(e *Eng, r Root, outs []Outcome, args []Value)) []RootResult {
	p := c.p
	p.addrTaken()
	p.mutableGlobals()
	p.precompute()
	rs := p.apiRoots()
	var res []RootResult
	for round := 0; ; round++ {
		p.invMu.Lock()
		p.invChanged = false
		p.invMu.Unlock()
		res = make([]RootResult, len(rs))
		parallel(len(rs), func(i int) {
			r := rs[i]
			res[i] = p.runRoot(r, func(e *Eng) ([]Value, *State) {
				e.opts.Summ = true
				if setup != nil {
					setup(e, r)
				}
				return nil, nil
			}, func(e *Eng, outs []Outcome, args []Value) {
				if after != nil {
					after(e, r, outs, args)
				}
			})
		})
		p.invMu.Lock()
		ch := p.invChanged
		p.invMu.Unlock()
		if !ch || round > 6 {
			break
		}
	}
	q, b, l, s := 0, 0, 0, 0
	for _, r := range res {
		q += r.eng.stats.queries
		b += r.eng.stats.blocks
		l += r.eng.stats.loops
		s += r.eng.stats.summaries
	}
	c.rep.count("functions_analysed_as_entry_points", len(rs))
	c.rep.count("abstract_block_executions", b)
	c.rep.count("loops_interpreted", l)
	c.rep.count("entailment_queries", q)
	c.rep.count("summary_applications", s)
	return res
}

// absorbIf takes the obligations of the kinds wanted of the roots wanted.
func (c *Ctx) absorbIf(res []RootResult, root func(r Root) bool, kind func(k string) bool) {
	var log []recEntry
	for _, r := range res {
		if !root(r.root) {
			continue
		}
		for _, x := range r.log {
			if x.site.kind == "undecided" || kind(x.site.kind) {
				log = append(log, x)
			}
		}
	}
	c.rep.absorb(log)
}

// reach lists the functions that may be called, directly or not, from roots.
func (p *Prog) reach(roots []*ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !out[f] {
			out[f] = true
			work = append(work, f)
		}
	}
	for _, f := range roots {
		add(f)
	}
	byName := map[string][]*ssa.Function{}
	for _, f := range p.fns {
		if f.Signature.Recv() != nil {
			byName[f.Name()] = append(byName[f.Name()], f)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, a := range f.AnonFuncs {
			add(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if cc.IsInvoke() {
						for _, g := range byName[cc.Method.Name()] {
							add(g)
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g.Pkg != nil && p.inModule(g.Pkg.Pkg) {
						add(g)
					}
				}
			}
		}
	}
	return out
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
