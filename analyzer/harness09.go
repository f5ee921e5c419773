package main

import (
	"fmt"
	"strings"
)

// The assertions of C09 are generated: one function for every sequence of
// classes of units (characters) up to a length, the units arbitrary within
// their class.

// product calls f with every sequence of n numbers below k.
func product(n, k int, f func([]int)) {
	s := make([]int, n)
	var rec func(int)
	rec = func(i int) {
		if i == n {
			f(s)
			return
		}
		for s[i] = 0; s[i] < k; s[i]++ {
			rec(i + 1)
		}
	}
	rec(0)
}

func c09Harness(thorough bool) string {
	units, chars := 4, 3
	if thorough {
		units, chars = 6, 4
	}
	var b strings.Builder
	w := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	w("package zz_verif\n\nimport \"github.com/warthog618/sms/encoding/ucs2\"\n")

	// units: below the surrogates, above them, first and second of a pair
	bounds := [][2]int{{0, 0xd7ff}, {0xe000, 0xffff}, {0xd800, 0xdbff}, {0xdc00, 0xdfff}}
	for n := 1; n <= units; n++ {
		product(n, 4, func(cl []int) {
			name := strings.Trim(strings.ReplaceAll(fmt.Sprint(cl), " ", ""), "[]")
			w("func C09_decode_%s(p [%d]byte) {", name, 2*n)
			for i, c := range cl {
				w("\tu%d := int(p[%d])*256 + int(p[%d])", i, 2*i, 2*i+1)
				w("\tassume(u%d >= %d && u%d <= %d)", i, bounds[c][0], i, bounds[c][1])
			}
			w("\tr, err := ucs2.Decode(p[:])")
			var want []string
			cut := false
			for i := 0; i < n; i++ {
				switch {
				case cl[i] < 2:
					want = append(want, fmt.Sprintf("u%d", i))
				case i == n-1:
					cut = true
				case cl[i] == 2 && cl[i+1] == 3:
					want = append(want, fmt.Sprintf("(u%d-0xd800)*1024+u%d-0xdc00+0x10000", i, i+1))
					i++
				default:
					want = append(want, "0xfffd")
				}
			}
			if cut {
				w("\tassert(err != nil, \"half a pair at the end is an error\")")
			} else {
				w("\tassert(err == nil, \"no error\")")
			}
			w("\tassert(len(r) == %d, \"as many characters as the units stand for\")", len(want))
			for i, x := range want {
				w("\tassert(int(r[%d]) == %s, \"character %d\")", i, x, i)
			}
			for i := range cl {
				w("\t_ = u%d", i)
			}
			w("}\n")
		})
	}
	w(`func C09_odd(p []byte) {
	assume(len(p)%%2 == 1)
	r, err := ucs2.Decode(p)
	assert(err != nil && len(r) == 0, "an odd number of octets is an error")
}
`)
	// characters: of the first plane below and above the surrogates, of the
	// others, and none
	cbounds := [][2]int{{0, 0xd7ff}, {0xe000, 0xffff}, {0x10000, 0x10ffff}, {0xd800, 0xdfff}, {-1 << 31, -1}, {0x110000, 1<<31 - 1}}
	for n := 1; n <= chars; n++ {
		product(n, len(cbounds), func(cl []int) {
			name := strings.Trim(strings.ReplaceAll(fmt.Sprint(cl), " ", ""), "[]")
			w("func C09_encode_%s(s [%d]rune) {", name, n)
			for i, c := range cl {
				w("\tassume(s[%d] >= %d && s[%d] <= %d)", i, cbounds[c][0], i, cbounds[c][1])
			}
			w("\tp := ucs2.Encode(s[:])")
			k := 0
			valid := true
			for _, c := range cl {
				k += 2
				if c == 2 {
					k += 2
				}
				valid = valid && c < 3
			}
			w("\tassert(len(p) == %d, \"a unit for each character of the first plane, two for others\")", k)
			k = 0
			for i, c := range cl {
				u := fmt.Sprintf("int(p[%d])*256+int(p[%d])", k, k+1)
				k += 2
				switch {
				case c < 2:
					w("\tassert(%s == int(s[%d]), \"unit of character %d\")", u, i, i)
				case c == 2:
					v := fmt.Sprintf("int(p[%d])*256+int(p[%d])", k, k+1)
					k += 2
					w("\tassert(%s >= 0xd800 && %s < 0xdc00 && %s >= 0xdc00 && %s < 0xe000, \"pair of character %d\")", u, u, v, v, i)
					w("\tassert((%s-0xd800)*1024+%s-0xdc00+0x10000 == int(s[%d]), \"value of the pair of character %d\")", u, v, i, i)
				default:
					w("\tassert(%s == 0xfffd, \"replacement of what is not character %d\")", u, i)
				}
			}
			if valid {
				w("\tr, err := ucs2.Decode(p)")
				w("\tassert(err == nil && len(r) == %d, \"what is encoded decodes\")", n)
				for i := 0; i < n; i++ {
					w("\tassert(r[%d] == s[%d], \"character %d read back\")", i, i, i)
				}
			}
			w("}\n")
		})
	}
	return b.String()
}
