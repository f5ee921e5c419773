package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ObjID names one abstract memory object.
type ObjID int32

// Value is an abstract value. All values are immutable.
type Value interface{}

// IntV is an integer of any Go integer type, as a mathematical integer.
type IntV struct {
	L    Lin
	Ones uint64 // over-approximation of the bits that can be set, when HasOnes
	Has  bool
}

// BoolV is either a constant or a conjunction of constraints (possibly
// negated as a whole).
type BoolV struct {
	Const bool
	Val   bool
	And   []Con
	Neg   bool
}

// FloatV is an unknown float (floats are not tracked).
type FloatV struct{}

// StrV is a string. Bytes, when not nil, is its content: byte i of the string
// is element Off+i of Bytes.
type StrV struct {
	Len   Lin
	Const *string
	Bytes *Arr
	Off   Lin
	ID    int      // identity of an unknown string, 0 = none
	Parts []StrKey // how a formatted string was built (injective key)
	Fmt   string
}

// StrKey is one formatted component of a string key.
type StrKey struct{ V Value }

// SliceV is a slice; Obj==0 means the backing array is absent (nil slice).
type SliceV struct {
	Obj           ObjID
	Off, Len, Cap Lin
	Nil           Lin // 0/1
	Elem          types.Type
}

// PtrV points at Path within Obj.
type PtrV struct {
	Obj  ObjID
	Path []PathElem
	Nil  Lin
}

// PathElem is a field selection or an array index.
type PathElem struct {
	Field int // >= 0: field
	Idx   Lin // when Field < 0
}

// IfaceV is an interface value.
type IfaceV struct {
	Nil Lin
	Dyn types.Type // dynamic type when known
	Val Value
	ID  int          // identity of an unknown interface value
	Not []types.Type // dynamic types excluded
	Typ types.Type   // static interface type for unknown values
	Obj ObjID        // ghost cell of an unknown interface value (call counter)
}

// FuncV is a set of possible functions.
type FuncV struct {
	Nil     Lin
	Fn      *ssa.Function
	Bind    []Value
	Unknown bool
	Built   *ssa.Builtin
	ID      int
}

// StructV is a struct value.
type StructV struct {
	F []Value
}

// ArrV is a fixed size array value.
type ArrV struct {
	A *Arr
	N int64
}

// TupleV is a multi-value result.
type TupleV struct{ E []Value }

// MapV is a map.
type MapV struct {
	Obj ObjID
	Nil Lin
}

// ChanV, and anything else not modelled.
type OpaqueV struct {
	T  types.Type
	ID int // identity; 0: the zero value
}

// opaqueType: library types the analysis does not look into.
func opaqueType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "time.Time", "time.Location", "sync.Mutex", "sync.RWMutex":
		return true
	}
	return false
}

// IterV is a map or string iterator (ssa.Range).
type IterV struct {
	X   Value
	Pos Lin
	Obj ObjID // cell holding the position
}

// ---- memory

type ownerKind uint8

const (
	ownFresh   ownerKind = iota // allocated by the code under analysis
	ownParam                    // reachable from an argument of the root
	ownGlobal                   // reachable from a package-level variable
	ownUnknown                  // escaped / unknown
)

// Owner says to whom a memory object belongs.
type Owner struct {
	Kind ownerKind
	Name string
	Made bool // state of an object with a constructor: elements may be nil
}

func (o *Owner) String() string {
	switch o.Kind {
	case ownParam:
		return "caller memory reachable from " + o.Name
	case ownGlobal:
		return "package state " + o.Name
	case ownUnknown:
		return "memory of unknown origin (" + o.Name + ")"
	}
	return "fresh memory"
}

var freshOwner = &Owner{Kind: ownFresh}

type objKind uint8

const (
	okCell objKind = iota
	okArray
	okMap
	okGhost
)

// Object is an abstract memory object; immutable, replaced on write.
type Object struct {
	id       ObjID
	kind     objKind
	typ      types.Type // cell: its type; array: element type; map: map type
	owner    *Owner
	site     string
	cell     Value // cell
	arr      *Arr  // array
	mp       *MapC
	alias    []ObjID // objects whose memory this one may share (append in place)
	aliasCap []Lin   // only below this coordinate
	pos      int     // creation sequence
}

// Arr is array content: a base plus overlays, later ones win.
type Arr struct {
	base  arrBase
	obj   ObjID // for baseInit: the object whose initial content this is
	elem  types.Type
	owner *Owner
	name  string
	ovs   []Ov
	str   string // baseStr
}

type arrBase uint8

const (
	baseZero arrBase = iota
	baseInit
	baseUnknown
	baseStr // a constant string
)

type ovKind uint8

const (
	ovSingle ovKind = iota
	ovCopy
	ovTmpl
	ovUnknown
)

// Ov overlays [Lo,Hi).
type Ov struct {
	Lo, Hi Lin
	K      ovKind
	V      Value // single
	Src    *Arr  // copy: index i reads Src[i+Delta]
	Delta  Lin
	T      *TmplSet
}

// TmplSet is reserved for region summaries.
type TmplSet struct{}

func (t *TmplSet) instantiate(st *State, a *Arr, idx Lin) []valSt {
	return []valSt{{st, st.e.newSym(a.elem, "some", freshOwner, false)}}
}

// MapC is map content.
type MapC struct {
	unknown  bool // entries beyond the listed ones may exist
	later    bool // entries are none of those seen before
	constant bool
	keys     []Value
	vals     []Value
	elem     Value // template for unknown entries (nil: fresh unknown)
	inv      *mapInv
	sum      *mapSum
	n        Lin
}

type mapSum struct {
	valLo, valHi int64
	ok           bool
}

type mapInv struct{}

func (a *Arr) with(o Ov) *Arr {
	n := *a
	// an overlay at syntactically the same place replaces the last one
	if k := len(a.ovs); k > 0 && o.K == ovSingle {
		l := a.ovs[k-1]
		if l.K == ovSingle && l.Lo.eq(o.Lo) {
			n.ovs = append(append([]Ov(nil), a.ovs[:k-1]...), o)
			return &n
		}
	}
	n.ovs = append(append(make([]Ov, 0, len(a.ovs)+1), a.ovs...), o)
	return &n
}

// ---- small constructors

func iv(l Lin) IntV       { return IntV{L: l} }
func ic(c int64) IntV     { return IntV{L: lc(c)} }
func bconst(b bool) BoolV { return BoolV{Const: true, Val: b} }
func bcon(c Con) BoolV    { return BoolV{And: []Con{c}} }
func (b BoolV) not() BoolV {
	if b.Const {
		return bconst(!b.Val)
	}
	b.Neg = !b.Neg
	if len(b.And) == 1 && b.Neg {
		if n := b.And[0].negate(); len(n) == 1 {
			return BoolV{And: n}
		}
	}
	return b
}

func nilIface() IfaceV { return IfaceV{Nil: lc(1)} }

func nilSlice(elem types.Type) SliceV { return SliceV{Nil: lc(1), Elem: elem} }

func typeBounds(t types.Type) (lo, hi int64, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -1 << 15, 1<<15 - 1, true
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1, true
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 1<<16 - 1, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, posInf, true
	}
	return negInf, posInf, true
}

func intWidth(t types.Type) (bits uint, signed bool) {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func pathStr(vs *Vars, p []PathElem) string {
	var sb strings.Builder
	for _, e := range p {
		if e.Field >= 0 {
			fmt.Fprintf(&sb, ".%d", e.Field)
		} else {
			fmt.Fprintf(&sb, "[%s]", e.Idx.key())
		}
	}
	return sb.String()
}
