package main

import (
	"go/types"
	"strings"
)

// Formatted strings: a string built by fmt.Sprintf, by conversions of
// numbers and by concatenation is described by a normal form of its format
// and the operands, so that strings built in different ways from the same
// parts are described alike.

const maxParts = 16

type fmtTok struct {
	lit  string // literal text, when verb is 0
	text string // the directive as written
	verb byte
}

func parseFmt(f string) ([]fmtTok, bool) {
	var out []fmtTok
	lit := func(s string) {
		if n := len(out); n > 0 && out[n-1].verb == 0 {
			out[n-1].lit += s
		} else {
			out = append(out, fmtTok{lit: s})
		}
	}
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			lit(f[i:])
			break
		}
		if j > 0 {
			lit(f[i : i+j])
		}
		i += j
		j = i + 1
		for j < len(f) && strings.IndexByte("0123456789+-# .", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return nil, false
		}
		switch {
		case f[j] == '%' && j == i+1:
			lit("%")
		case f[j] >= 'a' && f[j] <= 'z' || f[j] >= 'A' && f[j] <= 'Z':
			out = append(out, fmtTok{text: f[i : j+1], verb: f[j]})
		default:
			return nil, false // indexed or starred operands
		}
		i = j + 1
	}
	return out, true
}

func escFmt(s string) string { return strings.ReplaceAll(s, "%", "%%") }

// plainInt: values of the type print as decimal numbers.
func plainInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && types.NewMethodSet(t).Len() == 0
}

func plainStr(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0 && types.NewMethodSet(t).Len() == 0
}

// fmtOf describes a string.
func fmtOf(s StrV) (string, []StrKey) {
	switch {
	case s.Const != nil:
		return escFmt(*s.Const), nil
	case s.Fmt != "":
		return s.Fmt, s.Parts
	}
	return "%s", []StrKey{{s}}
}

// operand describes how an operand of Sprint or of a directive prints.
func operand(dir fmtTok, p StrKey) (string, []StrKey) {
	v := p.V
	var t types.Type
	if i, ok := v.(IfaceV); ok {
		v, t = i.Val, i.Dyn
	}
	if dir.text == "%s" || dir.text == "%v" {
		if s, ok := v.(StrV); ok && plainStr(t) {
			return fmtOf(s)
		}
		if _, ok := v.(IntV); ok && plainInt(t) && dir.verb == 'v' {
			return "%d", []StrKey{p}
		}
	}
	return dir.text, []StrKey{p}
}

// format gives the normal form; opaque forms start with "!".
func format(name, f string, parts []StrKey) (string, []StrKey) {
	var out strings.Builder
	var op []StrKey
	put := func(s string, p []StrKey) {
		out.WriteString(s)
		op = append(op, p...)
	}
	if name != "fmt.Sprintf" {
		str := func(p StrKey) bool {
			v := p.V
			if i, ok := v.(IfaceV); ok {
				v = i.Val
			}
			_, ok := v.(StrV)
			return ok
		}
		for i, p := range parts {
			if i > 0 && (name == "fmt.Sprintln" || !str(parts[i-1]) && !str(p)) {
				put(" ", nil)
			}
			put(operand(fmtTok{text: "%v", verb: 'v'}, p))
		}
		if name == "fmt.Sprintln" {
			put("\n", nil)
		}
		return out.String(), op
	}
	toks, ok := parseFmt(f)
	n := 0
	for _, t := range toks {
		if t.verb == 0 {
			put(escFmt(t.lit), nil)
			continue
		}
		if n >= len(parts) {
			ok = false
			break
		}
		put(operand(t, parts[n]))
		n++
	}
	if !ok || n != len(parts) {
		return "!" + f, parts
	}
	return out.String(), op
}

// describe gives the concatenation of strings its description, when one of
// them is built from numbers or text that is known.
func describe(s StrV, of ...StrV) StrV {
	f, parts := "", []StrKey(nil)
	for _, x := range of {
		g, p := fmtOf(x)
		if strings.HasPrefix(g, "!") {
			return s
		}
		f += g
		parts = append(parts, p...)
	}
	if len(parts) > 0 && len(parts) <= maxParts && len(f) < 400 {
		s.Fmt, s.Parts = f, parts
	}
	return s
}

// keepsApart: operands that differ give strings that differ. Numbers are
// separated by characters that cannot be part of one, and there is at most
// one string of arbitrary contents.
func keepsApart(f string) bool {
	if strings.HasPrefix(f, "!") {
		return false
	}
	toks, ok := parseFmt(f)
	if !ok {
		return false
	}
	strs := 0
	for i, t := range toks {
		if t.verb == 0 {
			if i > 0 && strings.IndexByte("0123456789abcdefABCDEF", t.lit[0]) >= 0 && toks[i-1].verb != 's' {
				return false
			}
			if i+1 < len(toks) && strings.IndexByte("0123456789abcdefABCDEF-+", t.lit[len(t.lit)-1]) >= 0 {
				return false
			}
			continue
		}
		if i > 0 && toks[i-1].verb != 0 {
			return false
		}
		switch t.verb {
		case 'd', 'x', 'X', 'o', 'b':
		case 's', 'v':
			if len(t.text) != 2 {
				return false // padded or cut short
			}
			strs++
		default:
			return false
		}
	}
	return strs <= 1
}
