package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, *Agg, Ptr, Slice, Iface, FuncV, Tuple, Str, *Opaque, nil (zero-size)
type Value interface{}

// Agg is a struct or array value; treated as immutable (updates copy).
type Agg struct{ E []Value }

// Ptr addresses a cell: object plus a path of field/element indices. Obj 0 is nil.
type Ptr struct {
	Obj  int
	Path string // encoded path "/i/j"
	Cast *Cast  // reinterpreted memory (unsafe)
	Sym  *Term  // symbolic last index (element of the array at Path)
	Rest string // path below the symbolic element
}

// Cast: pointer to elemW-bit words laid over an array of srcW-bit scalars starting at byte offset Off.
type Cast struct {
	SrcW int   // width of underlying array elements
	Off  *Term // byte offset of the pointed-to cell from the start of the array at Path
	T    types.Type
}

type Slice struct {
	Obj           int // 0: nil slice
	Path          string
	Off, Len, Cap *Term
	Cast          *Cast
}

type Iface struct {
	T types.Type // nil: nil interface
	V Value
}
type FuncV struct {
	Fn    *ssa.Function
	Binds []Value
	Nat   string // native intrinsic name
}
type Tuple []Value

// Str is a string with known length; bytes are terms.
type Str struct{ B []*Term }

// Opaque is a value of an abstract domain (big integers, field or group elements, hash states ...).
type Opaque struct {
	Kind string
	X    interface{}
}

// Rope is the content of an array object whose length may be symbolic.
type Rope struct {
	P []Piece
}
type Piece struct {
	Cells []Value // concrete cells, or
	Sym   string  // named symbolic array
	Rep   Value   // repeated value
	Off   *Term   // first index into Sym
	Len   *Term   // length of the piece (also set for Cells)
	W     int     // element width for Sym
}

type Object struct {
	T    types.Type
	V    Value // *Agg, scalar, *Rope, *Opaque
	Name string
	RO   bool // may not be written (checked)
}

func path(p string, i int) string { return fmt.Sprintf("%s/%d", p, i) }
func splitPath(p string) []int {
	if p == "" {
		return nil
	}
	var out []int
	n := 0
	for i := 1; i < len(p); i++ {
		if p[i] == '/' {
			out = append(out, n)
			n = 0
			continue
		}
		n = n*10 + int(p[i]-'0')
	}
	return append(out, n)
}

func I64(v int64) *Term { return Const(64, uint64(v)) }

func widthOf(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 1
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	return 0
}
func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// Zero value of a type.
func (ex *Exec) Zero(t types.Type) Value {
	if k := ex.opaqueType(t); k != "" {
		if z, ok := ex.OpaqueZero[k]; ok {
			return z()
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.String || u.Kind() == types.UntypedString {
			return Str{}
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if w := widthOf(t); w > 0 {
			return Const(w, 0)
		}
		return &Opaque{Kind: "basic:" + u.Name()}
	case *types.Struct:
		a := &Agg{E: make([]Value, u.NumFields())}
		for i := range a.E {
			a.E[i] = ex.Zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		a := &Agg{E: make([]Value, u.Len())}
		if u.Len() > 0 {
			z := ex.Zero(u.Elem())
			for i := range a.E {
				a.E[i] = z
			}
		}
		return a
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{Off: I64(0), Len: I64(0), Cap: I64(0)}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return FuncV{}
	case *types.Map:
		return &Opaque{Kind: "nilmap"}
	case *types.Chan:
		return &Opaque{Kind: "nilchan"}
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = ex.Zero(u.At(i).Type())
		}
		return tp
	}
	panic("zero of " + t.String())
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func (ex *Exec) opaqueType(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		s := typeName(n)
		if k, ok := ex.OpaqueTypes[s]; ok {
			return k
		}
	}
	return ""
}

func showVal(v Value) string {
	switch x := v.(type) {
	case *Term:
		return Show(x, 3)
	case *Agg:
		var s []string
		for i, e := range x.E {
			if i > 8 {
				s = append(s, "...")
				break
			}
			s = append(s, showVal(e))
		}
		return "{" + strings.Join(s, " ") + "}"
	case Ptr:
		return fmt.Sprintf("&%d%s", x.Obj, x.Path)
	case Slice:
		return fmt.Sprintf("slice(%d%s off=%s len=%s)", x.Obj, x.Path, Show(x.Off, 2), Show(x.Len, 2))
	case Iface:
		if x.T == nil {
			return "nil-iface"
		}
		return "iface(" + x.T.String() + "," + showVal(x.V) + ")"
	case FuncV:
		if x.Fn != nil {
			return x.Fn.String()
		}
		return "func:" + x.Nat
	case Str:
		if s, ok := x.Conc(); ok {
			return fmt.Sprintf("%q", s)
		}
		return "str"
	case Tuple:
		var s []string
		for _, e := range x {
			s = append(s, showVal(e))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case *Opaque:
		return fmt.Sprintf("<%s %v>", x.Kind, x.X)
	case *Rope:
		return fmt.Sprintf("rope%v", len(x.P))
	}
	return fmt.Sprintf("%v", v)
}

func (s Str) Conc() (string, bool) {
	b := make([]byte, len(s.B))
	for i, t := range s.B {
		if !t.IsConst() {
			return "", false
		}
		b[i] = byte(t.C)
	}
	return string(b), true
}
func StrOf(s string) Str {
	b := make([]*Term, len(s))
	for i := range b {
		b[i] = Const(8, uint64(s[i]))
	}
	return Str{b}
}
