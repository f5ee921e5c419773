package main

import (
	"fmt"
	"strings"
)

// The assertions of C10 are generated: one function for each alphabet, size of
// the template's own header, width of the reference, length of the message and
// what lies at the boundaries; contents, reference and template arbitrary.

func c10Harness(thorough bool) string {
	var b strings.Builder
	w := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	w(`package zz_verif

import "github.com/warthog618/sms/encoding/tpdu"

type c10ctr struct{ n int }

func (c *c10ctr) Count() int { return c.n }
`)
	fn := 0
	gen := func(alpha string, ie int, wide bool, deliver bool, n int, split []int) bool {
		udhl := 0
		if ie >= 0 {
			udhl = ie + 2
		}
		block := func(udhl int) int {
			o := 140
			if udhl > 0 {
				o -= udhl + 1
			}
			switch alpha {
			case "7":
				if udhl == 0 {
					return 160
				}
				return (140*8 - ((udhl+1)*8+6)/7*7) / 7
			case "u":
				return o / 2 * 2
			}
			return o
		}
		one := block(udhl)
		cl := 5
		if wide {
			cl = 6
		}
		many := block(udhl + cl)
		// where the segments start
		starts := []int{0}
		var pre []string
		if n > one {
			for {
				at := starts[len(starts)-1] + many
				if at >= n {
					break
				}
				k := len(starts) - 1
				moved := k < len(split) && split[k] == 1
				switch {
				case alpha == "7" && moved:
					// an escaped septet would be split
					pre = append(pre, fmt.Sprintf("m[%d] == 0x1b && m[%d] != 0x1b", at-1, at-2))
					at--
				case alpha == "7":
					pre = append(pre, fmt.Sprintf("m[%d] != 0x1b", at-1))
				case alpha == "u" && moved:
					// a pair would be split
					pre = append(pre, fmt.Sprintf("m[%d] >= 0xd8 && m[%d] < 0xdc", at-2, at-2))
					at -= 2
				case alpha == "u":
					pre = append(pre, fmt.Sprintf("(m[%d] < 0xd8 || m[%d] >= 0xdc)", at-2, at-2))
				case moved:
					return false
				}
				starts = append(starts, at)
			}
			if len(split) > len(starts)-1 {
				return false
			}
		} else if len(split) > 0 {
			return false
		}
		fn++
		data := ie
		if ie < 0 {
			data = 0
		}
		w("func C10_%s_%d(m [%d]byte, id byte, d [%d]byte, fo, dcs, pid, mr byte, ref int) {", alpha, fn, n, data)
		st := "SmsSubmit"
		if deliver {
			st = "SmsDeliver"
		}
		w("\tt := tpdu.TPDU{FirstOctet: tpdu.FirstOctet(fo), PID: pid, MR: mr}")
		w("\tif t.SetSmsType(tpdu.%s) != nil {\n\t\treturn\n\t}", st)
		w("\tt.DCS = %s", map[string]string{"7": "0", "8": "4", "u": "8"}[alpha])
		if ie >= 0 {
			w("\tassume(id != 0 && id != 8)")
			w("\tt.SetUDH(tpdu.UserDataHeader{{ID: id, Data: d[:]}})")
		}
		for _, c := range pre {
			w("\tassume(%s)", c)
		}
		opts := ", tpdu.WithConcatRef(&c10ctr{ref}), tpdu.WithMR(&c10ctr{int(mr) + 1})"
		if wide {
			opts += ", tpdu.With16BitConcatRef"
		}
		w("\ts := t.Segment(m[:]%s)", opts)
		w("\tassert(len(s) == %d, \"number of segments\")", len(starts))
		for i, from := range starts {
			if len(starts) > 8 && i > 2 && i < len(starts)-2 && (i < 126 || i > 128) && i != len(starts)/2 {
				continue // of many segments, those where an octet or its sign is full
			}
			to := n
			if i+1 < len(starts) {
				to = starts[i+1]
			}
			w("\tassert(len(s[%d].UD) == %d, \"length of segment %d\")", i, to-from, i)
			for _, k := range []int{from, from + 1, (from + to) / 2, to - 2, to - 1} {
				if k >= from && k < to {
					w("\tassert(s[%d].UD[%d] == m[%d], \"content of segment %d at %d\")", i, k-from, k, i, k-from)
				}
			}
			w("\tassert(s[%d].PID == pid && s[%d].DCS == t.DCS && s[%d].Direction == t.Direction, \"fields of the template in segment %d\")", i, i, i, i)
			w("\tassert(s[%d].MR == mr+1, \"message reference of segment %d\")", i, i)
			w("\tassert(s[%d].FirstOctet&^tpdu.FoUDHI == t.FirstOctet&^tpdu.FoUDHI, \"first octet of segment %d\")", i, i)
			if n <= one {
				w("\tassert(s[0].FirstOctet == t.FirstOctet, \"header indicator of a single segment\")")
				if ie < 0 {
					w("\tassert(len(s[0].UDH) == 0, \"no header in a single segment\")")
				} else {
					w("\tassert(len(s[0].UDH) == 1, \"only the header of the template in a single segment\")")
				}
				continue
			}
			w("\tassert(s[%d].UDHI(), \"header indicator of segment %d\")", i, i)
			x := 0
			if ie >= 0 {
				x = 1
				w("\tassert(len(s[%d].UDH) == 2 && s[%d].UDH[0].ID == id && len(s[%d].UDH[0].Data) == %d, \"header of the template in segment %d\")", i, i, i, data, i)
				for k := 0; k < data; k++ {
					if data > 8 && len(starts) > 8 && k > 0 && k < data-1 {
						continue
					}
					w("\tassert(s[%d].UDH[0].Data[%d] == d[%d], \"header of the template in segment %d at %d\")", i, k, k, i, k)
				}
			} else {
				w("\tassert(len(s[%d].UDH) == 1, \"header of segment %d\")", i, i)
			}
			e := fmt.Sprintf("s[%d].UDH[%d]", i, x)
			if wide {
				w("\tassert(%s.ID == 8 && len(%s.Data) == 4, \"16 bit concatenation element of segment %d\")", e, e, i)
				w("\tassert(%s.Data[0] == byte(ref>>8) && %s.Data[1] == byte(ref), \"reference of segment %d\")", e, e, i)
				w("\tassert(%s.Data[2] == %d && %s.Data[3] == %d, \"numbers of segment %d\")", e, len(starts), e, i+1, i)
			} else {
				w("\tassert(%s.ID == 0 && len(%s.Data) == 3, \"concatenation element of segment %d\")", e, e, i)
				w("\tassert(%s.Data[0] == byte(ref), \"reference of segment %d\")", e, i)
				w("\tassert(%s.Data[1] == %d && %s.Data[2] == %d, \"numbers of segment %d\")", e, len(starts), e, i+1, i)
			}
		}
		if ie >= 0 {
			w("\tassert(len(t.UDH) == 1, \"the template keeps its header\")")
		}
		w("}\n")
		return true
	}
	ies := []int{-1, 0, 1, 3}
	if thorough {
		ies = []int{-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 20, 60, 120}
	}
	for _, alpha := range []string{"7", "8", "u"} {
		for _, ie := range ies {
			for _, wide := range []bool{false, true} {
				// lengths: around one segment, and around multiples of what
				// segments hold
				udhl := 0
				if ie >= 0 {
					udhl = ie + 2
				}
				o, u := 140, udhl+7
				if wide {
					u++
				}
				if udhl == 0 {
					u--
				}
				_ = o
				step := 1
				cap1, capn := 140-udhl-1, 140-u+0
				if udhl == 0 {
					cap1 = 140
				}
				if wide {
					capn = 140 - (udhl + 6 + 1)
				} else {
					capn = 140 - (udhl + 5 + 1)
				}
				switch alpha {
				case "7":
					cap1, capn = cap1*8/7, capn*8/7
				case "u":
					cap1, capn, step = cap1/2*2, capn/2*2, 2
				}
				seen := map[int]bool{}
				for _, n := range []int{step, cap1 - step, cap1, cap1 + step, 2*capn - step, 2 * capn, 2*capn + step, 3 * capn, 3*capn + step} {
					if n <= 0 || seen[n] {
						continue
					}
					seen[n] = true
					for _, sp := range [][]int{nil, {1}, {0, 1}, {1, 1}, {0, 0, 1}} {
						gen(alpha, ie, wide, false, n, sp)
					}
					if n == cap1 || n == cap1+step {
						gen(alpha, ie, wide, true, n, nil)
					}
				}
			}
		}
	}
	// many segments, which a large header of the template leaves few octets
	counts := []int{17, 130, 255}
	if thorough {
		counts = []int{9, 16, 17, 33, 64, 65, 100, 127, 128, 129, 130, 200, 254, 255}
	}
	for _, wide := range []bool{false, true} {
		for _, count := range counts {
			ie := 128 // leaves 4 octets
			if wide {
				ie--
			}
			gen("8", ie, wide, false, 4*count, nil)
			gen("8", ie, wide, false, 4*count-1, nil)
		}
		// more than the element can number
		ie := 128
		if wide {
			ie--
		}
		for _, n := range []int{4*255 + 1, 4 * 256, 4*256 + 1, 4*271 + 1} {
			fn++
			w("func C10_over_%d(m [%d]byte, d [%d]byte, id byte, ref int) {", fn, n, ie)
			w("\tassume(id != 0 && id != 8)")
			w("\tt := tpdu.TPDU{FirstOctet: 1, Direction: tpdu.MO, DCS: 4}")
			w("\tt.SetUDH(tpdu.UserDataHeader{{ID: id, Data: d[:]}})")
			opts := ", tpdu.WithConcatRef(&c10ctr{ref})"
			if wide {
				opts += ", tpdu.With16BitConcatRef"
			}
			w("\tassert(len(t.Segment(m[:]%s)) == 0, \"more segments than can be numbered\")\n}\n", opts)
		}
	}
	return b.String()
}
