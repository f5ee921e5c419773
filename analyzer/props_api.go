package main

import (
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var decodeName = regexp.MustCompile(`Unmarshal|Decode|Unpack|Collect|Complete|Pipes|Close|ConcatInfo|UDHL|IEs?$|SmsType|Alphabet|Closed|DecoderOption`)

const engineRule = "abstract interpretation of the SSA form of every exported function and method, for arbitrary arguments and heap contents: " +
	"linear-inequality relations between integers, lengths and nil flags, bounded trace partitioning, inferred loop invariants, and inferred modular summaries; "

var engineAssume = []string{
	"pointer receivers, options, callbacks, Counters and the elements of []*TPDU arguments are not nil; Collector and Encoder are made by their constructors",
	"distinct arguments do not share memory; lengths are at most 2^40; sums of sizes and counters do not overflow a 64-bit int",
	"the fill bits argument of the septet packing functions is 0..6, as documented",
	"functions of the standard library meet their documentation; running out of memory is not modelled",
}

func panicKind(k string) bool {
	switch k {
	case "nil", "bounds", "div", "make", "nilmap", "range", "shift", "panic", "typeassert":
		return true
	}
	return false
}

func isDecodeRoot(r Root) bool {
	return decodeName.MatchString(r.fn.Name())
}

func (c *Ctx) decodeReach() map[*ssa.Function]bool {
	var roots []*ssa.Function
	for _, r := range c.p.apiRoots() {
		if isDecodeRoot(r) {
			roots = append(roots, r.fn)
		}
	}
	return c.p.reach(roots)
}

func (c *Ctx) encodeReach() map[*ssa.Function]bool {
	var roots []*ssa.Function
	for _, r := range c.p.apiRoots() {
		if !isDecodeRoot(r) {
			roots = append(roots, r.fn)
		}
	}
	return c.p.reach(roots)
}

func init() {
	register("C01", "proof", func(c *Ctx) {
		c.rep.Rule = engineRule + "obligations: every index, slice bound, division, shift, make, map write, nil dereference, type assertion and explicit panic reachable from decoding is safe"
		c.rep.Assume = engineAssume
		in := c.decodeReach()
		res := c.runAPI(nil, nil)
		c.absorbIf(res, func(r Root) bool { return in[r.fn] }, panicKind)
	})
	register("C02", "proof", func(c *Ctx) {
		c.rep.Rule = engineRule + "obligations: every index, slice bound, division, shift, make, map write, nil dereference, type assertion and explicit panic reachable from encoding is safe"
		c.rep.Assume = engineAssume
		in := c.encodeReach()
		res := c.runAPI(nil, nil)
		c.absorbIf(res, func(r Root) bool { return in[r.fn] }, panicKind)
	})
	register("C03", "proof", func(c *Ctx) {
		c.rep.Rule = engineRule + "obligations: every loop reached has a linear ranking function that decreases on each back edge and is bounded below (or ranges over a finite map or string), there is no unbounded recursion, and no mutex is locked again by the goroutine that holds it"
		c.rep.Assume = append(engineAssume, "user supplied options, callbacks and Counters return")
		res := c.runAPI(nil, nil)
		c.absorbIf(res, func(r Root) bool { return true }, func(k string) bool {
			return k == "termination" || k == "recursion" || k == "lock"
		})
	})
}

func lastElem(s string) string { return s[strings.LastIndex(s, "/")+1:] }
