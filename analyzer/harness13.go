package main

import (
	"fmt"
	"strings"
)

// The assertions of C13 are generated: one function for each number of
// segments and kind of concatenation element in each, contents arbitrary.

func c13Harness(thorough bool) string {
	var b strings.Builder
	w := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	w(`package zz_verif

import (
	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func C13_complete_none() {
	assert(!sms.IsCompleteMessage(nil), "nothing is not a message")
}
`)
	most := 3
	if thorough {
		most = 5
	}
	for n := 1; n <= most; n++ {
		// none, 8 bit reference, 16 bit reference, malformed, preceded by
		// another element
		product(n, 5, func(kinds []int) {
			name := strings.Trim(strings.ReplaceAll(fmt.Sprint(kinds), " ", ""), "[]")
			w("func C13_complete_%s(d [%d][4]byte, id byte) {", name, n)
			w("\tassume(id != 0 && id != 8)")
			all := true
			var refs []string
			for i, k := range kinds {
				w("\tx%d := tpdu.TPDU{}", i)
				switch k {
				case 0:
					all = false
				case 1:
					w("\tx%d.UDH = tpdu.UserDataHeader{{ID: 0, Data: []byte{d[%d][0], d[%d][1], d[%d][2]}}}", i, i, i, i)
				case 2:
					w("\tx%d.UDH = tpdu.UserDataHeader{{ID: 8, Data: []byte{d[%d][3], d[%d][0], d[%d][1], d[%d][2]}}}", i, i, i, i, i)
				case 3:
					all = false
					w("\tx%d.UDH = tpdu.UserDataHeader{{ID: 0, Data: []byte{d[%d][0], %d}}}", i, i, n)
				case 4:
					w("\tx%d.UDH = tpdu.UserDataHeader{{ID: id, Data: []byte{d[%d][3]}}, {ID: 0, Data: []byte{d[%d][0], d[%d][1], d[%d][2]}}}", i, i, i, i, i)
				}
				r := fmt.Sprintf("int(d[%d][0])", i)
				if k == 2 {
					r = fmt.Sprintf("(int(d[%d][3])*256+int(d[%d][0]))", i, i)
				}
				refs = append(refs, r)
			}
			w("\tc := sms.IsCompleteMessage([]*tpdu.TPDU{%s})", list("&x%d", n))
			switch {
			case !all && n == 1:
				w("\tassert(c, \"a single segment without concatenation is complete\")")
			case !all:
				w("\tassert(!c, \"a segment without concatenation is not part of several\")")
			default:
				var conds []string
				for i := range kinds {
					conds = append(conds, fmt.Sprintf("int(d[%d][1]) == %d", i, n), fmt.Sprintf("int(d[%d][2]) == %d", i, i+1))
					if i > 0 {
						conds = append(conds, fmt.Sprintf("%s == %s", refs[i], refs[0]))
					}
				}
				// each condition is necessary, and together they suffice
				for _, x := range conds {
					w("\tif !(%s) {\n\t\tassert(!c, \"not complete unless %s\")\n\t\treturn\n\t}", x, x)
				}
				w("\tassert(c, \"complete when the totals, numbers and references agree\")")
			}
			w("}\n")
		})
	}
	// the text of a message is that of its segments, in order
	sizes := [][]int{{0}, {1}, {5}, {2, 3}, {0, 2}, {3, 0}, {1, 1, 1}, {140, 7}, {2, 0, 3, 1}}
	for k, sz := range sizes {
		var ps []string
		for i, n := range sz {
			ps = append(ps, fmt.Sprintf("m%d [%d]byte", i, n))
		}
		w("func C13_text8_%d(%s, id byte) {", k, strings.Join(ps, ", "))
		for i := range sz {
			w("\tx%d := tpdu.TPDU{DCS: 4, UD: m%d[:]}", i, i)
			w("\tx%d.SetUDH(tpdu.UserDataHeader{{ID: 0, Data: []byte{id, %d, %d}}})", i, len(sz), i+1)
		}
		w("\tb, err := sms.Decode([]*tpdu.TPDU{%s})", list("&x%d", len(sz)))
		w("\tassert(err == nil, \"octets decode\")")
		n := 0
		for _, s := range sz {
			n += s
		}
		w("\tassert(len(b) == %d, \"length of the message\")", n)
		n = 0
		for i, s := range sz {
			for j := 0; j < s; j++ {
				w("\tassert(b[%d] == m%d[%d], \"octet %d of segment %d\")", n, i, j, j, i)
				n++
			}
		}
		w("}\n")
	}
	return b.String()
}

func list(f string, n int) string {
	var s []string
	for i := 0; i < n; i++ {
		s = append(s, fmt.Sprintf(f, i))
	}
	return strings.Join(s, ", ")
}
