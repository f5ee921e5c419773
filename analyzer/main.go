package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "check" {
		rc := 0
		for _, id := range os.Args[2:] {
			if x := runCheck(id); x > rc {
				rc = x
			}
		}
		os.Exit(rc)
	}
	if len(os.Args) > 1 && os.Args[1] == "roots" {
		p, err := loadProg(nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		pat := ""
		if len(os.Args) > 2 {
			pat = os.Args[2]
		}
		var rs []Root
		for _, r := range p.apiRoots() {
			if strings.Contains(r.name, pat) {
				rs = append(rs, r)
			}
		}
		p.addrTaken()
		p.mutableGlobals()
		t0 := time.Now()
		p.precompute()
		fmt.Println("summaries", time.Since(t0))
		var ks []string
		for k := range p.sums.m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			s := p.sums.m[k]
			fmt.Printf("  sum %v %s %s", s.ok, k, s.why)
			for _, c := range s.classes {
				fmt.Printf(" %d", len(c.forms))
			}
			fmt.Println()
		}
		res := make([]RootResult, len(rs))
		parallel(len(rs), func(i int) {
			res[i] = p.runRoot(rs[i], func(e *Eng) ([]Value, *State) { e.opts.Summ = true; return nil, nil }, nil)
			if d := res[i].wall; d > 3*time.Second {
				fmt.Fprintln(os.Stderr, "done", rs[i].name, d)
			}
		})
		sort.Slice(res, func(i, j int) bool { return res[i].wall > res[j].wall })
		rep := newReport("x")
		for i, r := range res {
			if i < 12 {
				fmt.Printf("%-60s %8v outs=%d q=%d blocks=%d maxStates=%d joins=%d loops=%d ext=%v\n", r.root.name, r.wall.Round(time.Millisecond), len(r.outs), r.eng.stats.queries, r.eng.stats.blocks, r.eng.stats.maxStates, r.eng.stats.joins, r.eng.stats.loops, r.eng.stats.unknownExt)
			}
			rep.absorb(r.log)
		}
		fmt.Println("obligations", rep.Obligations, "discharged", rep.Discharged)
		for _, v := range rep.Viols {
			fmt.Println(v.Pos, v.Msg)
		}
	}
}
