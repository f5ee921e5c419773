package main

import (
	"fmt"
	"strings"
)

// The assertions of C08 are generated: one function for every number of
// septets or octets and every number of fill bits, the contents arbitrary.

const c08Limit = 160 // septets in a message

func c08Lengths(thorough bool) []int {
	var ns []int
	for n := 1; n <= c08Limit; n++ {
		// all remainders modulo 8 several times over, and the lengths around
		// the capacity of one message
		if n <= 32 || n >= c08Limit-9 || thorough {
			ns = append(ns, n)
		}
	}
	return ns
}

// septet is the value of the i'th septet of the packed array v, as 3GPP TS
// 23.038 section 6.1.2.1 places it: from bit fill+7i, counted from the least
// significant bit of the first octet.
func septet(i, fill int, v string) string {
	q, off := (fill+7*i)/8, (fill+7*i)%8
	switch {
	case off == 0:
		return fmt.Sprintf("int(%s[%d])%%128", v, q)
	case off == 1:
		return fmt.Sprintf("int(%s[%d])/2", v, q)
	}
	return fmt.Sprintf("int(%s[%d])/%d+int(%s[%d])%%%d*%d", v, q, 1<<off, v, q+1, 1<<(off-1), 1<<(8-off))
}

func c08Harness(thorough bool) string {
	var b strings.Builder
	w := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	w("package zz_verif\n\nimport \"github.com/warthog618/sms/encoding/gsm7\"\n")
	for f := 0; f <= 6; f++ {
		for _, n := range c08Lengths(thorough) {
			l := (7*n + f + 7) / 8
			used := (7*n + f) % 8

			w("func C08_pack_f%d_n%d(u [%d]byte) {", f, n, n)
			for i := 0; i < n; i++ {
				w("\tassume(u[%d] < 128)", i)
			}
			w("\tp := gsm7.Pack7Bit(u[:], %d)", f)
			w("\tassert(len(p) == %d, \"length of the packed array\")", l)
			if f != 0 {
				w("\tassert(int(p[0])%%%d == 0, \"fill bits are zero\")", 1<<f)
			}
			if used != 0 {
				w("\tassert(int(p[%d]) < %d, \"spare bits are zero\")", l-1, 1<<used)
			}
			for i := 0; i < n; i++ {
				w("\tassert(%s == int(u[%d]), \"position of septet %d\")", septet(i, f, "p"), i, i)
			}
			w("}\n")

			w("func C08_unpack_f%d_n%d(p [%d]byte) {", f, n, n)
			w("\tu := gsm7.Unpack7Bit(p[:], %d)", f)
			m := (8*n - f) / 7
			w("\tassert(len(u) == %d, \"number of septets unpacked\")", m)
			for i := 0; i < m; i++ {
				w("\tassert(int(u[%d]) == %s, \"septet %d unpacked\")", i, septet(i, f, "p"), i)
			}
			w("}\n")

			if n > 18 {
				continue
			}
			// the filler of 23.038 6.1.2.3
			w("func C08_ussd_f%d_n%d(u [%d]byte) {", f, n, n)
			for i := 0; i < n; i++ {
				w("\tassume(u[%d] < 128)", i)
			}
			w("\tp := gsm7.Pack7BitUSSD(u[:], %d)", f)
			switch used {
			case 0:
				w("\tif u[%d] == 13 {", n-1)
				w("\t\tassert(len(p) == %d && p[%d] == 13, \"a CR that ends on an octet boundary is followed by another\")", l+1, l)
				w("\t} else {")
				w("\t\tassert(len(p) == %d, \"no filler without need\")", l)
				w("\t}")
			case 1:
				w("\tassert(len(p) == %d && p[%d]/2 == 13, \"seven spare bits are filled with CR\")", l, l-1)
			default:
				w("\tassert(len(p) == %d && int(p[%d]) < %d, \"fewer spare bits are zero\")", l, l-1, 1<<used)
			}
			for i := 0; i < n; i++ {
				w("\tassert(%s == int(u[%d]), \"position of septet %d under filler\")", septet(i, f, "p"), i, i)
			}
			// A message that ends in two CR, the first of which ends on an octet
			// boundary, cannot be told from one that ends in one.
			if n > 1 && (7*(n-1)+f)%8 == 0 {
				w("\tassume(u[%d] != 13 || u[%d] != 13)", n-1, n-2)
			}
			w("\tv := gsm7.Unpack7BitUSSD(p, %d)", f)
			w("\tassert(len(v) == %d, \"the filler is removed, and only it\")", n)
			for i := 0; i < n; i++ {
				w("\tassert(v[%d] == u[%d], \"septet %d read back\")", i, i, i)
			}
			w("}\n")
		}
	}
	return b.String()
}
