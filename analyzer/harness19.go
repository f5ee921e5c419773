package main

import (
	"fmt"
	"strings"
)

// The assertions of C19 are generated for each language that a header may
// name and each kind of option.

func c19Harness(thorough bool) string {
	var b strings.Builder
	w := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	w(`package zz_verif

import (
	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

// lockingOf and shiftOf are the languages of the tables with which b was
// converted; 0 stands for the default tables.
func lockingOf(b []byte) int { return 0 }
func shiftOf(b []byte) int   { return 0 }

// lastLocking and lastShift are those of the last conversion.
func lastLocking() int { return 0 }
func lastShift() int   { return 0 }

// c19header checks that the header names the tables used for ud.
func c19header(ud tpdu.UserData, udh tpdu.UserDataHeader, a tpdu.Alphabet) (l, x int) {
	if a != tpdu.Alpha7Bit {
		return 0, 0
	}
	for i := 0; i < len(udh); i++ {
		if udh[i].ID == 25 {
			assert(l == 0, "one element for the locking table")
			l = int(udh[i].Data[0])
		} else {
			assert(udh[i].ID == 24 && x == 0, "one element for the shift table")
			x = int(udh[i].Data[0])
		}
	}
	if len(ud) > 0 {
		assert(lockingOf(ud) == l, "the locking table used is the one that the header names")
		assert(shiftOf(ud) == x, "the shift table used is the one that the header names")
	}
	return l, x
}
`)
	// encoding
	k := 0
	opt := []struct{ name, args, lock, shift string }{
		{"none", "", "", ""},
		{"default", "tpdu.WithCharset()", "", ""},
		{"locking", "tpdu.WithLockingCharset(n1, n2)", "l == n1 || l == n2", ""},
		{"shift", "tpdu.WithShiftCharset(n1, n2)", "", "x == n1 || x == n2"},
		{"both", "tpdu.WithCharset(n1, n2)", "l == n1 || l == n2", "x == n1 || x == n2"},
		{"apart", "tpdu.WithLockingCharset(n1), tpdu.WithShiftCharset(n2)", "l == n1", "x == n2"},
		{"apart2", "tpdu.WithShiftCharset(n2), tpdu.WithLockingCharset(n1)", "l == n1", "x == n2"},
		{"twice", "tpdu.WithLockingCharset(n1), tpdu.WithLockingCharset(n2)", "l == n1 || l == n2", ""},
		{"all", "tpdu.WithAllCharsets", "l >= 1 && l <= 13", "x >= 1 && x <= 13"},
	}
	or0 := func(c, v string) string {
		if c == "" {
			return v + " == 0"
		}
		return v + " == 0 || " + c
	}
	for _, o := range opt {
		w("func C19_encode_%s(msg []byte, n1, n2 int) {", o.name)
		w("\tassume(n1 >= 1 && n1 <= 13 && n2 >= 1 && n2 <= 13)")
		w("\tud, udh, a := tpdu.EncodeUserData(msg%s)", pre(", ", o.args))
		w("\tl, x := c19header(ud, udh, a)")
		w("\tassert(%s, \"locking tables that the options allow\")", or0(o.lock, "l"))
		w("\tassert(%s, \"shift tables that the options allow\")", or0(o.shift, "x"))
		w("}\n")
		// the same through an Encoder
		for _, call := range []string{"p, err := sms.Encode(msg%s)", "p, err := sms.NewEncoder(%s).Encode(msg)", "p, err := sms.NewEncoder().Encode(msg%s)"} {
			args := strings.ReplaceAll(o.args, "tpdu.", "sms.")
			if !strings.Contains(call, "r(%") {
				args = pre(", ", args)
			}
			k++
			w("func C19_encoder_%s_%d(msg []byte, n1, n2 int) {", o.name, k)
			w("\tassume(n1 >= 1 && n1 <= 13 && n2 >= 1 && n2 <= 13)")
			w("\t"+call, args)
			w("\tif err != nil || len(p) != 1 {\n\t\treturn\n\t}")
			w("\ta, _ := p[0].Alphabet()")
			w("\tl, x := c19header(p[0].UD, p[0].UDH, a)")
			w("\tassert(%s, \"locking tables that the options allow\")", or0(o.lock, "l"))
			w("\tassert(%s, \"shift tables that the options allow\")", or0(o.shift, "x"))
			w("}\n")
		}
	}
	// decoding
	for nli := 0; nli < 256; nli++ {
		for k, o := range []struct {
			args        string
			lock, shift bool
		}{
			{"", false, false},
			{"tpdu.WithAllCharsets", true, true},
			{fmt.Sprintf("tpdu.WithCharset(%d)", nli), true, true},
			{fmt.Sprintf("tpdu.WithLockingCharset(%d)", nli), true, false},
			{fmt.Sprintf("tpdu.WithShiftCharset(%d)", nli), false, true},
			{fmt.Sprintf("tpdu.WithCharset(%d)", nli+1), false, false},
			{fmt.Sprintf("tpdu.WithShiftCharset(%d), tpdu.WithLockingCharset(%d)", nli, nli+1), false, true},
			{fmt.Sprintf("tpdu.WithCharset(%d, %d)", nli+1, nli), true, true},
			{fmt.Sprintf("tpdu.WithLockingCharset(%d, %d)", nli+1, nli), true, false},
			{fmt.Sprintf("tpdu.WithShiftCharset(%d, %d)", nli+1, nli), false, true},
		} {
			if nli > 15 && k != 1 && (!thorough || k > 2) {
				continue
			}
			lock, shift := 0, 0
			known := nli >= 1 && nli <= 13
			if o.lock && (known || k != 1) {
				lock = nli
			}
			if o.shift && (known || k != 1) {
				shift = nli
			}
			for _, h := range []struct {
				name, udh   string
				lock, shift int
			}{
				{"none", "", 0, 0},
				{"locking", fmt.Sprintf("{ID: 25, Data: []byte{%d}}", nli), lock, 0},
				{"shift", fmt.Sprintf("{ID: 24, Data: []byte{%d}}", nli), 0, shift},
				{"both", fmt.Sprintf("{ID: 24, Data: []byte{%d}}, {ID: 25, Data: []byte{%d}}", nli, nli), lock, shift},
				{"concat", fmt.Sprintf("{ID: 25, Data: []byte{%d}}, {ID: 0, Data: []byte{id, 2, 1}}", nli), lock, 0},
				{"other", fmt.Sprintf("{ID: id, Data: []byte{%d}}", nli), 0, 0},
				{"empty", "{ID: 24, Data: []byte{}}, {ID: 25, Data: []byte{}}", 0, 0},
			} {
				if nli > 15 && h.name != "locking" && h.name != "shift" && (!thorough || h.name != "both") {
					continue
				}
				w("func C19_decode_%d_%d_%s(ud []byte, id byte) {", nli, k, h.name)
				w("\tassume(id != 24 && id != 25)")
				w("\tb, _ := tpdu.DecodeUserData(ud, tpdu.UserDataHeader{%s}, tpdu.Alpha7Bit%s)", h.udh, pre(", ", o.args))
				w("\tif len(b) == 0 {\n\t\treturn\n\t}")
				w("\tassert(lockingOf(b) == %d, \"locking table with language %d, option %d, header %s\")", h.lock, nli, k, h.name)
				w("\tassert(shiftOf(b) == %d, \"shift table with language %d, option %d, header %s\")", h.shift, nli, k, h.name)
				w("}\n")
				// the same of a message; all languages are the default here
				args, dl, ds := strings.ReplaceAll(o.args, "tpdu.", "sms."), h.lock, h.shift
				if k == 0 {
					args = "sms.WithDefaultCharset"
				}
				w("func C19_message_%d_%d_%s(ud []byte, id byte) {", nli, k, h.name)
				w("\tassume(id != 24 && id != 25 && len(ud) > 0)")
				w("\tt := tpdu.TPDU{UD: ud, UDH: tpdu.UserDataHeader{%s}}", h.udh)
				w("\t_, _ = sms.Decode([]*tpdu.TPDU{&t}%s)", pre(", ", args))
				w("\tassert(lastLocking() == %d, \"locking table of a message with language %d, option %d, header %s\")", dl, nli, k, h.name)
				w("\tassert(lastShift() == %d, \"shift table of a message with language %d, option %d, header %s\")", ds, nli, k, h.name)
				if k == 1 {
					w("\t_, _ = sms.Decode([]*tpdu.TPDU{&t})")
					w("\tassert(lastLocking() == %d && lastShift() == %d, \"all languages by default, with language %d, header %s\")", dl, ds, nli, h.name)
				}
				w("}\n")
			}
		}
	}
	return b.String()
}

func pre(p, s string) string {
	if s == "" {
		return ""
	}
	return p + s
}
