package main

// Hash-consed bit-vector terms. Every machine integer of the verified code is a
// term of its width (1..64); booleans are width-1 terms. Arithmetic is modulo
// 2^width, exactly as in Go: no machine integer is treated as mathematical here.

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OLin    // sum coef[i]*arg[i] + C (mod 2^w)
	OMul    // arg0*arg1 low
	OMulHi  // unsigned high word
	OAddC   // carry out of a+b+c (64-bit), value 0/1, width 64
	OSubB   // borrow out of a-b-c
	OAnd    // n-ary
	OOr     // n-ary
	OXor    // n-ary with constant C
	OConcat // args high..low
	OExtract
	OSext
	OShl // variable
	OLshr
	OAshr
	OIte
	OEq
	OUlt
	OSlt
	OUDiv
	OURem
	OSDiv
	OSRem
	OUF // uninterpreted function/select: Name, args
)

type Term struct {
	Op   Op
	W    int
	C    uint64
	Lo   int // extract low bit
	Name string
	Args []*Term
	Coef []uint64
	ID   int
	x    interface{} // attached data for UF terms (shared, not part of identity unless in Name)
}

// Terms are hash-consed: equal terms are the same pointer. Identifiers are never reused.
var termTab = map[uint64][]*Term{}
var termNext int
var termLog []uint64 // hashes in creation order while a mark is set
var termMarked bool

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func termHash(t *Term) uint64 {
	h := uint64(14695981039346656037)
	mix := func(v uint64) {
		h ^= v
		h *= 0x9E3779B97F4A7C15
		h ^= h >> 29
	}
	mix(uint64(t.Op)<<32 | uint64(t.W)<<16 | uint64(t.Lo))
	mix(t.C)
	for i := 0; i < len(t.Name); i++ {
		h = (h ^ uint64(t.Name[i])) * 1099511628211
	}
	for i, a := range t.Args {
		mix(uint64(a.ID))
		if t.Coef != nil {
			mix(t.Coef[i])
		}
	}
	return h
}

func sameNode(a, b *Term) bool {
	if a.Op != b.Op || a.W != b.W || a.C != b.C || a.Lo != b.Lo || a.Name != b.Name || len(a.Args) != len(b.Args) || len(a.Coef) != len(b.Coef) {
		return false
	}
	for i, x := range a.Args {
		if x != b.Args[i] {
			return false
		}
	}
	for i, x := range a.Coef {
		if x != b.Coef[i] {
			return false
		}
	}
	return true
}

func intern(t *Term) *Term {
	h := termHash(t)
	for _, o := range termTab[h] {
		if sameNode(o, t) {
			return o
		}
	}
	t.ID = termNext
	termNext++
	termTab[h] = append(termTab[h], t)
	if termMarked {
		termLog = append(termLog, h)
	}
	return t
}

// termRelease forgets the terms created since the last call (or the first); terms still held stay valid, but
// structurally equal terms built later are different objects.
func termRelease() {
	if len(termLog) < 2000000 {
		return
	}
	if termMarked {
		lim := termFloor
		for _, h := range termLog {
			l := termTab[h][:0]
			for _, t := range termTab[h] {
				if t.ID < lim {
					l = append(l, t)
				}
			}
			if len(l) == 0 {
				delete(termTab, h)
			} else {
				termTab[h] = l
			}
		}
		for k, t := range constTab {
			if t.ID >= lim {
				delete(constTab, k)
			}
		}
		varsCache = map[*Term]map[*Term]bool{}
	}
	termLog = termLog[:0]
}

var termFloor int

// termMark starts a region whose terms termRelease may forget; termUnmark ends it.
func termMark()   { termMarked, termFloor, termLog = true, termNext, nil }
func termUnmark() { termMarked, termLog = false, nil }

var constTab = map[[2]uint64]*Term{}

func Const(w int, v uint64) *Term {
	v &= mask(w)
	k := [2]uint64{uint64(w), v}
	if t, ok := constTab[k]; ok {
		return t
	}
	t := intern(&Term{Op: OConst, W: w, C: v})
	constTab[k] = t
	return t
}
func Var(w int, name string) *Term {
	return intern(&Term{Op: OVar, W: w, Name: name})
}

var freshN = map[string]int{}

func Fresh(w int, name string) *Term {
	freshN[name]++
	return Var(w, fmt.Sprintf("%s!%d", name, freshN[name]))
}
func UF(w int, name string, args ...*Term) *Term {
	return intern(&Term{Op: OUF, W: w, Name: name, Args: args})
}

func True() *Term  { return Const(1, 1) }
func False() *Term { return Const(1, 0) }
func Bool(b bool) *Term {
	if b {
		return True()
	}
	return False()
}
func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t.Op == OConst && t.W == 1 && t.C == 1 }
func (t *Term) IsFalse() bool { return t.Op == OConst && t.W == 1 && t.C == 0 }
func (t *Term) Signed() int64 {
	v := t.C
	if t.W < 64 && v>>(uint(t.W)-1)&1 == 1 {
		v |= ^mask(t.W)
	}
	return int64(v)
}

// ---- linear combinations ----

type lin struct {
	w int
	c uint64
	m map[*Term]uint64
}

func newLin(w int) *lin { return &lin{w: w, m: map[*Term]uint64{}} }
func (l *lin) add(t *Term, k uint64) {
	k &= mask(l.w)
	if k == 0 {
		return
	}
	switch t.Op {
	case OConst:
		l.c += t.C * k
		return
	case OLin:
		l.c += t.C * k
		for i, a := range t.Args {
			l.addAtom(a, t.Coef[i]*k)
		}
		return
	case OConcat:
		// zero-extended low part, multiplied by enough to lose the extension
		if f := t.Args[0]; len(t.Args) == 2 && f.IsConst() && f.C == 0 && f.W < 64 && bits.TrailingZeros64(k) >= f.W {
			y := t.Args[1]
			if y.Op == OExtract && y.Lo == 0 && y.Args[0].W == t.W {
				l.add(y.Args[0], k)
				return
			}
			if y.Op == OLin {
				l.c += y.C * k
				for i, x := range y.Args {
					if x.Op == OExtract && x.Lo == 0 && x.Args[0].W == t.W {
						l.add(x.Args[0], y.Coef[i]*k)
					} else {
						l.add(Zext(x, t.W), y.Coef[i]*k)
					}
				}
				return
			}
		}
		// x ++ 0...0  ==> (zext x) * 2^k when it is the left shift form: handled as shift coefficient
		last := t.Args[len(t.Args)-1]
		if last.IsConst() && last.W < 64 {
			l.c += last.C * k
			// high part: value = zext(rest) << last.W ; only if the rest fills (mod 2^w no info lost)
			rest := t.Args[:len(t.Args)-1]
			if len(rest) == 1 && rest[0].Op == OExtract && rest[0].Lo == 0 && rest[0].Args[0].W == t.W {
				l.add(rest[0].Args[0], k<<uint(last.W))
				return
			}
			if len(rest) == 1 && rest[0].Op == OLin {
				// (sum of low parts) << s is the sum of the shifted terms
				kk := k << uint(last.W)
				l.c += rest[0].C * kk
				for i, x := range rest[0].Args {
					co := rest[0].Coef[i]
					if x.Op == OExtract && x.Lo == 0 && x.Args[0].W == t.W {
						l.add(x.Args[0], co*kk)
					} else {
						l.add(Zext(x, t.W), co*kk)
					}
				}
				return
			}
			inner := Zext(Concat(rest...), t.W)
			l.add(inner, k<<uint(last.W))
			return
		}
	case OExtract:
		// extract of low bits of a wider linear term keeps linear structure
		if t.Lo == 0 && t.Args[0].Op == OLin {
			a := t.Args[0]
			l.c += a.C * k
			for i, x := range a.Args {
				l.add(Extract(x, 0, t.W), a.Coef[i]*k)
			}
			return
		}
	}
	l.addAtom(t, k)
}
func (l *lin) addAtom(t *Term, k uint64) {
	n := (l.m[t] + k) & mask(l.w)
	if n == 0 {
		delete(l.m, t)
	} else {
		l.m[t] = n
	}
}
func (l *lin) term() *Term {
	c := l.c & mask(l.w)
	if len(l.m) == 0 {
		return Const(l.w, c)
	}
	args := make([]*Term, 0, len(l.m))
	for t := range l.m {
		args = append(args, t)
	}
	sort.Slice(args, func(i, j int) bool { return args[i].ID < args[j].ID })
	if len(args) == 1 && c == 0 {
		k := l.m[args[0]]
		if k == 1 {
			return args[0]
		}
		// power of two: as shift (concat) form
		if k&(k-1) == 0 {
			s := bits.TrailingZeros64(k)
			return Concat(Extract(args[0], 0, l.w-s), Const(s, 0))
		}
	}
	// disjoint concat pieces: sum of non-overlapping parts becomes concat
	if len(args) >= 2 || c != 0 {
		parts := make([]*Term, 0, len(args)+1)
		ok := true
		for _, a := range args {
			k := l.m[a]
			if k&(k-1) != 0 {
				ok = false
				break
			}
			s := bits.TrailingZeros64(k)
			var p *Term
			if s == 0 {
				p = a
			} else {
				p = Concat(Extract(a, 0, l.w-s), Const(s, 0))
			}
			parts = append(parts, p)
		}
		if ok {
			if c != 0 {
				parts = append(parts, Const(l.w, c))
			}
			if r := disjointJoin(l.w, parts); r != nil {
				return r
			}
		}
	}
	coef := make([]uint64, len(args))
	for i, a := range args {
		coef[i] = l.m[a]
	}
	// (-1 * b + 0) for 1-bit-range handled elsewhere
	return intern(&Term{Op: OLin, W: l.w, C: c, Args: args, Coef: coef})
}

func Add(a, b *Term) *Term {
	chkW(a, b)
	if a.W == 1 {
		return Xor(a, b)
	}
	l := newLin(a.W)
	l.add(a, 1)
	l.add(b, 1)
	return l.term()
}
func Sub(a, b *Term) *Term {
	chkW(a, b)
	if a.W == 1 {
		return Xor(a, b)
	}
	l := newLin(a.W)
	l.add(a, 1)
	l.add(b, mask(a.W))
	return l.term()
}
func MulC(a *Term, k uint64) *Term {
	l := newLin(a.W)
	l.add(a, k)
	return l.term()
}
func Neg(a *Term) *Term { return Sub(Const(a.W, 0), a) }

func chkW(a, b *Term) {
	if a.W != b.W {
		panic(fmt.Sprintf("width mismatch %d %d: %s | %s", a.W, b.W, Show(a, 3), Show(b, 3)))
	}
}

// boolOf returns the width-1 term b when t's value is always 0 or 1 and t = zext(b).
func boolOf(t *Term) *Term {
	if t.W == 1 {
		return t
	}
	if t.Op == OConcat && len(t.Args) == 2 && t.Args[0].IsConst() && t.Args[0].C == 0 && t.Args[1].W == 1 {
		return t.Args[1]
	}
	return nil
}

func Mul(a, b *Term) *Term {
	chkW(a, b)
	if a.W == 1 {
		return And(a, b)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if x := boolOf(a); x != nil && b.C != 1 {
			return Ite(x, b, Const(a.W, 0))
		}
		if a.Op == OIte && a.Args[1].IsConst() && a.Args[2].IsConst() {
			return Ite(a.Args[0], Const(a.W, a.Args[1].C*b.C), Const(a.W, a.Args[2].C*b.C))
		}
		return MulC(a, b.C)
	}
	if x := boolOf(a); x != nil {
		return Ite(x, b, Const(a.W, 0))
	}
	if x := boolOf(b); x != nil {
		return Ite(x, a, Const(a.W, 0))
	}
	// pull power-of-two / constant factors out: (k*x)*y = k*(x*y)
	fa, ka := factor(a)
	fb, kb := factor(b)
	if ka*kb&mask(a.W) != 1 {
		return MulC(Mul(fa, fb), ka*kb)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return intern(&Term{Op: OMul, W: a.W, Args: []*Term{a, b}})
}

// factor splits t into k * x with x carrying no constant multiplier.
func factor(t *Term) (*Term, uint64) {
	if t.Op == OLin && t.C == 0 && len(t.Args) == 1 {
		return t.Args[0], t.Coef[0]
	}
	return t, 1
}

func MulHi(a, b *Term) *Term {
	chkW(a, b)
	if a.IsConst() && b.IsConst() {
		if a.W == 64 {
			hi, _ := bits.Mul64(a.C, b.C)
			return Const(64, hi)
		}
		return Const(a.W, a.C*b.C>>uint(a.W))
	}
	if a.IsConst() && a.C <= 1 || b.IsConst() && b.C <= 1 {
		return Const(a.W, 0)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return intern(&Term{Op: OMulHi, W: a.W, Args: []*Term{a, b}})
}

// AddCarry returns the carry out of x+y+c (c in {0,1}) as a width-1 term.
func AddCarry(x, y, c *Term) *Term {
	w := x.W
	if c.W != 1 {
		if b := boolOf(c); b != nil {
			c = b
		} else {
			c = Extract(c, 0, 1)
		}
	}
	if x.IsConst() && y.IsConst() && c.IsConst() {
		s, k := bits.Add64(x.C, y.C, c.C)
		if w < 64 {
			return Bool(s>>uint(w) != 0)
		}
		return Const(1, k)
	}
	if x.IsConst() {
		x, y = y, x
	}
	if y.IsConst() && y.C == 0 && c.IsFalse() {
		return False()
	}
	if !y.IsConst() && x.ID > y.ID {
		x, y = y, x
	}
	return intern(&Term{Op: OAddC, W: 1, Args: []*Term{x, y, c}})
}
func SubBorrow(x, y, c *Term) *Term {
	w := x.W
	if c.W != 1 {
		if b := boolOf(c); b != nil {
			c = b
		} else {
			c = Extract(c, 0, 1)
		}
	}
	if x.IsConst() && y.IsConst() && c.IsConst() {
		return Bool(x.C < y.C || (x.C == y.C && c.C == 1))
	}
	if y.IsConst() && y.C == 0 && c.IsFalse() {
		return False()
	}
	if c.IsFalse() {
		return Ult(x, y)
	}
	_ = w
	return intern(&Term{Op: OSubB, W: 1, Args: []*Term{x, y, c}})
}

// ---- concat / extract ----

func Concat(parts ...*Term) *Term {
	var out []*Term
	var push func(p *Term)
	push = func(p *Term) {
		if p.W == 0 {
			return
		}
		if p.Op == OConcat {
			for _, q := range p.Args {
				push(q)
			}
			return
		}
		if n := len(out); n > 0 {
			l := out[n-1]
			if l.IsConst() && p.IsConst() && l.W+p.W <= 64 {
				out[n-1] = Const(l.W+p.W, l.C<<uint(p.W)|p.C)
				return
			}
			// adjacent extracts of the same term
			lb, ll, lw := extParts(l)
			pb, pl, pw := extParts(p)
			if lb == pb && ll == pl+pw && lb != nil && !lb.IsConst() {
				out[n-1] = Extract(lb, pl, lw+pw)
				return
			}
			if l.Op == OExtract && l.Args[0].Op == OLin && l.Lo >= p.W && Extract(l.Args[0], l.Lo-p.W, p.W) == p {
				out[n-1] = Extract(l.Args[0], l.Lo-p.W, l.W+p.W)
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		push(p)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, p := range out {
		w += p.W
	}
	if w > 64 {
		panic("concat wider than 64")
	}
	// sign bit / mask idioms are left alone
	return intern(&Term{Op: OConcat, W: w, Args: out})
}

func extParts(t *Term) (*Term, int, int) {
	if t.Op == OExtract {
		return t.Args[0], t.Lo, t.W
	}
	return t, 0, t.W
}

func Extract(t *Term, lo, n int) *Term {
	if n == 0 {
		return &Term{W: 0}
	}
	if n < 0 || lo < 0 || lo+n > t.W {
		panic(fmt.Sprintf("bad extract lo=%d n=%d w=%d", lo, n, t.W))
	}
	if lo == 0 && n == t.W {
		return t
	}
	switch t.Op {
	case OConst:
		return Const(n, t.C>>uint(lo))
	case OExtract:
		return Extract(t.Args[0], t.Lo+lo, n)
	case OConcat:
		var out []*Term
		pos := t.W
		for _, p := range t.Args {
			hi := pos
			l := pos - p.W
			pos = l
			// overlap of [l,hi) with [lo,lo+n)
			a, b := max(l, lo), min(hi, lo+n)
			if a < b {
				out = append(out, Extract(p, a-l, b-a))
			}
		}
		return Concat(out...)
	case OSext:
		x := t.Args[0]
		if lo+n <= x.W {
			return Extract(x, lo, n)
		}
		if lo == 0 {
			return Sext(x, n)
		}
	case OIte:
		if t.Args[1].IsConst() || t.Args[2].IsConst() {
			return Ite(t.Args[0], Extract(t.Args[1], lo, n), Extract(t.Args[2], lo, n))
		}
	case OAnd, OOr, OXor:
		// distribute when it simplifies (an argument is a concat/const that splits)
		simp := false
		for _, a := range t.Args {
			if a.Op == OConst || a.Op == OConcat && constOverlap(a, lo, n) {
				simp = true
			}
		}
		if simp {
			args := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				args[i] = Extract(a, lo, n)
			}
			switch t.Op {
			case OAnd:
				return And(args...)
			case OOr:
				return Or(args...)
			default:
				args = append(args, Const(n, t.C>>uint(lo)))
				return Xor(args...)
			}
		}
	case OLin:
		if lo > 0 {
			// all coefficients multiples of 2^k: no carry out of the low k bits
			k := 63
			for _, c := range t.Coef {
				k = min(k, bits.TrailingZeros64(c))
			}
			if k >= lo {
				k = lo
				l := newLin(t.W - k)
				l.c = t.C >> uint(k)
				for i, a := range t.Args {
					l.add(Extract(a, 0, t.W-k), t.Coef[i]>>uint(k))
				}
				return Extract(l.term(), lo-k, n)
			}
		}
		if lo == 0 {
			l := newLin(n)
			l.c = t.C
			for i, a := range t.Args {
				l.add(Extract(a, 0, n), t.Coef[i])
			}
			return l.term()
		}
	case OMul:
		if lo == 0 {
			return Mul(Extract(t.Args[0], 0, n), Extract(t.Args[1], 0, n))
		}
	}
	return intern(&Term{Op: OExtract, W: n, Lo: lo, Args: []*Term{t}})
}

// constOverlap: does a constant piece of the concat overlap bits [lo,lo+n)?
func constOverlap(t *Term, lo, n int) bool {
	pos := t.W
	for _, p := range t.Args {
		pos -= p.W
		if p.IsConst() && max(pos, lo) < min(pos+p.W, lo+n) {
			return true
		}
	}
	return false
}

func Zext(t *Term, w int) *Term {
	if w == t.W {
		return t
	}
	if w < t.W {
		return Extract(t, 0, w)
	}
	if t.Op == OIte && t.Args[1].IsConst() && t.Args[2].IsConst() {
		return Ite(t.Args[0], Const(w, t.Args[1].C), Const(w, t.Args[2].C))
	}
	return Concat(Const(w-t.W, 0), t)
}

func topZeros(t *Term) int { // number of known-zero top bits
	if t.IsConst() {
		return t.W - bits.Len64(t.C)
	}
	if t.Op == OConcat && t.Args[0].IsConst() && t.Args[0].C == 0 {
		return t.Args[0].W
	}
	return 0
}

func Sext(t *Term, w int) *Term {
	if w == t.W {
		return t
	}
	if w < t.W {
		return Extract(t, 0, w)
	}
	if t.IsConst() {
		return Const(w, uint64(t.Signed()))
	}
	if topZeros(t) > 0 {
		return Zext(t, w)
	}
	if t.Op == OSext {
		return Sext(t.Args[0], w)
	}
	if t.Op == OIte && t.Args[1].IsConst() && t.Args[2].IsConst() {
		return Ite(t.Args[0], Sext(t.Args[1], w), Sext(t.Args[2], w))
	}
	if t.W == 1 {
		return Ite(t, Const(w, ^uint64(0)), Const(w, 0))
	}
	return intern(&Term{Op: OSext, W: w, Args: []*Term{t}})
}

// splitPts: boundaries of concat pieces
func pieces(t *Term) []int {
	if t.Op == OConcat {
		var r []int
		pos := t.W
		for _, p := range t.Args {
			pos -= p.W
			r = append(r, pos)
		}
		return r
	}
	return []int{0}
}

func zeroPiece(t *Term) bool { return t.IsConst() && t.C == 0 }

// disjointJoin merges terms that occupy disjoint bit ranges into one concat; nil if they overlap.
func disjointJoin(w int, ts []*Term) *Term {
	any := false
	for _, t := range ts {
		if t.Op == OConcat || t.Op == OConst {
			any = true
		}
	}
	if !any || len(ts) < 2 {
		return nil
	}
	for _, t := range ts {
		if t.Op != OConcat && t.Op != OConst {
			return nil // covers every bit
		}
	}
	cuts := map[int]bool{0: true}
	for _, t := range ts {
		if t.Op == OConst {
			// cut constants at boundaries of zero runs
			for i := 1; i < w; i++ {
				if (t.C>>uint(i)&1 == 0) != (t.C>>uint(i-1)&1 == 0) {
					cuts[i] = true
				}
			}
			continue
		}
		pos := t.W
		if t.Op == OConcat {
			for _, p := range t.Args {
				pos -= p.W
				cuts[pos] = true
			}
		}
	}
	var cs []int
	for c := range cuts {
		cs = append(cs, c)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(cs)))
	hi := w
	var out []*Term
	for _, c := range cs {
		n := hi - c
		var sel *Term
		for _, t := range ts {
			p := Extract(t, c, n)
			if zeroPiece(p) {
				continue
			}
			if sel != nil {
				return nil
			}
			sel = p
		}
		if sel == nil {
			sel = Const(n, 0)
		}
		out = append(out, sel)
		hi = c
	}
	return Concat(out...)
}

// ---- bitwise ----

func flat(op Op, args []*Term) []*Term {
	var out []*Term
	for _, a := range args {
		if a.Op == op {
			out = append(out, a.Args...)
		} else {
			out = append(out, a)
		}
	}
	return out
}

func sortTerms(a []*Term) { sort.Slice(a, func(i, j int) bool { return a[i].ID < a[j].ID }) }

func And(args ...*Term) *Term {
	if len(args) == 0 {
		return True()
	}
	w := args[0].W
	c := mask(w)
	set := map[*Term]bool{}
	var xs []*Term
	for _, a := range flat(OAnd, args) {
		if a.W != w {
			panic("and width")
		}
		if a.IsConst() {
			c &= a.C
			continue
		}
		if !set[a] {
			set[a] = true
			xs = append(xs, a)
		}
	}
	if c == 0 {
		return Const(w, 0)
	}
	for _, a := range xs {
		if set[Not(a)] {
			return Const(w, 0)
		}
	}
	if len(xs) == 0 {
		return Const(w, c)
	}
	// masks: ite(c, ones, 0) & x
	for i, a := range xs {
		if a.Op == OIte && len(xs) > 1 && isMaskIte(a) {
			rest := append([]*Term{}, xs[:i]...)
			rest = append(rest, xs[i+1:]...)
			rest = append(rest, Const(w, c))
			r := And(rest...)
			if a.Args[1].IsConst() && a.Args[1].C == mask(w) {
				return Ite(a.Args[0], r, Const(w, 0))
			}
			return Ite(a.Args[0], Const(w, 0), r)
		}
	}
	if len(xs) == 1 && c == mask(w) {
		return xs[0]
	}
	if c != mask(w) {
		// split by runs of the mask
		var x *Term
		if len(xs) == 1 {
			x = xs[0]
		} else {
			sortTerms(xs)
			x = And(xs...)
		}
		if x.Op == OIte && (x.Args[1].IsConst() || x.Args[2].IsConst()) {
			return Ite(x.Args[0], And(x.Args[1], Const(w, c)), And(x.Args[2], Const(w, c)))
		}
		var out []*Term
		hi := w
		for hi > 0 {
			b := c >> uint(hi-1) & 1
			lo := hi - 1
			for lo > 0 && c>>uint(lo-1)&1 == b {
				lo--
			}
			if b == 1 {
				out = append(out, Extract(x, lo, hi-lo))
			} else {
				out = append(out, Const(hi-lo, 0))
			}
			hi = lo
		}
		return Concat(out...)
	}
	// concat alignment with zero pieces
	if r := bitwiseSplit(OAnd, w, xs); r != nil {
		return r
	}
	sortTerms(xs)
	return intern(&Term{Op: OAnd, W: w, Args: xs})
}

func isMaskIte(a *Term) bool {
	return a.Op == OIte && a.Args[1].IsConst() && a.Args[2].IsConst() &&
		((a.Args[1].C == mask(a.W) && a.Args[2].C == 0) || (a.Args[2].C == mask(a.W) && a.Args[1].C == 0))
}

// bitwiseSplit: if any argument is a concat, split all at its boundaries when every piece simplifies.
func bitwiseSplit(op Op, w int, xs []*Term) *Term {
	cuts := map[int]bool{0: true}
	n := 0
	for _, t := range xs {
		if t.Op == OConcat {
			n++
			for _, p := range pieces(t) {
				cuts[p] = true
			}
		}
	}
	if n == 0 || w == 1 {
		return nil
	}
	// only split when at least one concat has a constant piece (otherwise rotations would be torn apart)
	hasC := false
	for _, t := range xs {
		if t.Op == OConcat {
			for _, p := range t.Args {
				if p.IsConst() {
					hasC = true
				}
			}
		}
	}
	if !hasC {
		return nil
	}
	var cs []int
	for c := range cuts {
		cs = append(cs, c)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(cs)))
	hi := w
	var out []*Term
	for _, c := range cs {
		var ps []*Term
		for _, t := range xs {
			ps = append(ps, Extract(t, c, hi-c))
		}
		switch op {
		case OAnd:
			out = append(out, And(ps...))
		case OOr:
			out = append(out, Or(ps...))
		case OXor:
			out = append(out, Xor(ps...))
		}
		hi = c
	}
	return Concat(out...)
}

func Or(args ...*Term) *Term {
	w := args[0].W
	var c uint64
	set := map[*Term]bool{}
	var xs []*Term
	for _, a := range flat(OOr, args) {
		if a.W != w {
			panic("or width")
		}
		if a.IsConst() {
			c |= a.C
			continue
		}
		if !set[a] {
			set[a] = true
			xs = append(xs, a)
		}
	}
	if c == mask(w) || len(xs) == 0 {
		return Const(w, c)
	}
	for _, a := range xs {
		if set[Not(a)] {
			return Const(w, mask(w))
		}
	}
	if len(xs) == 1 && c == 0 {
		return xs[0]
	}
	if r := iteJoin(w, xs, c, Or); r != nil {
		return r
	}
	all := xs
	if c != 0 {
		all = append(append([]*Term{}, xs...), Const(w, c))
	}
	if r := disjointJoin(w, all); r != nil {
		return r
	}
	if c != 0 && w > 1 {
		// split at runs of c
		var x *Term
		if len(xs) == 1 {
			x = xs[0]
		} else {
			x = Or(xs...)
		}
		var out []*Term
		hi := w
		for hi > 0 {
			b := c >> uint(hi-1) & 1
			lo := hi - 1
			for lo > 0 && c>>uint(lo-1)&1 == b {
				lo--
			}
			if b == 0 {
				out = append(out, Extract(x, lo, hi-lo))
			} else {
				out = append(out, Const(hi-lo, mask(hi-lo)))
			}
			hi = lo
		}
		return Concat(out...)
	}
	if r := bitwiseSplit(OOr, w, xs); r != nil {
		return r
	}
	sortTerms(xs)
	return intern(&Term{Op: OOr, W: w, Args: xs})
}

// iteJoin: ite(c,a,0) op ite(c,0,b) = ite(c,a,b)
func iteJoin(w int, xs []*Term, c uint64, op func(...*Term) *Term) *Term {
	for i, a := range xs {
		if a.Op != OIte || !(zeroPiece(a.Args[1]) || zeroPiece(a.Args[2])) {
			continue
		}
		for j := i + 1; j < len(xs); j++ {
			b := xs[j]
			if b.Op != OIte || b.Args[0] != a.Args[0] {
				continue
			}
			rest := []*Term{}
			for k, x := range xs {
				if k != i && k != j {
					rest = append(rest, x)
				}
			}
			m := Ite(a.Args[0], op(a.Args[1], b.Args[1]), op(a.Args[2], b.Args[2]))
			if len(rest) == 0 && c == 0 {
				return m
			}
			rest = append(rest, m)
			if c != 0 {
				rest = append(rest, Const(w, c))
			}
			return op(rest...)
		}
	}
	return nil
}

func Xor(args ...*Term) *Term {
	w := args[0].W
	var c uint64
	cnt := map[*Term]bool{}
	for _, a := range args {
		if a.W != w {
			panic("xor width")
		}
		switch a.Op {
		case OConst:
			c ^= a.C
		case OXor:
			c ^= a.C
			for _, x := range a.Args {
				if cnt[x] {
					delete(cnt, x)
				} else {
					cnt[x] = true
				}
			}
		default:
			if cnt[a] {
				delete(cnt, a)
			} else {
				cnt[a] = true
			}
		}
	}
	if len(cnt) == 0 {
		return Const(w, c)
	}
	xs := make([]*Term, 0, len(cnt))
	for x := range cnt {
		xs = append(xs, x)
	}
	sortTerms(xs)
	if len(xs) == 1 && c == 0 {
		return xs[0]
	}
	if len(xs) == 1 {
		x := xs[0]
		if x.Op == OIte && x.Args[1].IsConst() && x.Args[2].IsConst() {
			return Ite(x.Args[0], Const(w, x.Args[1].C^c), Const(w, x.Args[2].C^c))
		}
	}
	if r := iteJoin(w, xs, c, Xor); r != nil {
		return r
	}
	all := xs
	if c != 0 && len(xs) >= 1 {
		all = append(append([]*Term{}, xs...), Const(w, c))
	}
	if len(all) >= 2 {
		if r := disjointJoin(w, all); r != nil {
			return r
		}
	}
	if len(xs) > 1 {
		if r := bitwiseSplit(OXor, w, all); r != nil {
			return r
		}
	}
	return intern(&Term{Op: OXor, W: w, C: c & mask(w), Args: xs})
}

func Not(a *Term) *Term {
	if a.W == 1 {
		switch a.Op {
		case OConst:
			return Const(1, a.C^1)
		}
	}
	if a.Op == OConst {
		return Const(a.W, ^a.C)
	}
	if a.Op == OIte && a.Args[1].IsConst() && a.Args[2].IsConst() {
		return Ite(a.Args[0], Const(a.W, ^a.Args[1].C), Const(a.W, ^a.Args[2].C))
	}
	if a.Op == OXor && len(a.Args) == 1 && a.C == mask(a.W) {
		return a.Args[0]
	}
	return Xor(a, Const(a.W, mask(a.W)))
}

// ---- shifts ----

func ShlC(a *Term, k int) *Term {
	if k >= a.W {
		return Const(a.W, 0)
	}
	if k == 0 {
		return a
	}
	if a.Op == OLin || a.Op == OMul {
		return MulC(a, uint64(1)<<uint(k))
	}
	if a.Op == OIte && a.Args[1].IsConst() && a.Args[2].IsConst() {
		return Ite(a.Args[0], ShlC(a.Args[1], k), ShlC(a.Args[2], k))
	}
	return Concat(Extract(a, 0, a.W-k), Const(k, 0))
}
func LshrC(a *Term, k int) *Term {
	if k >= a.W {
		return Const(a.W, 0)
	}
	if k == 0 {
		return a
	}
	return Zext(Extract(a, k, a.W-k), a.W)
}
func AshrC(a *Term, k int) *Term {
	if k >= a.W {
		k = a.W - 1
	}
	if k == 0 {
		return a
	}
	return Sext(Extract(a, k, a.W-k), a.W)
}

// Shl etc with a variable count term (unsigned count of any width)
func Shift(op Op, a, n *Term) *Term {
	if n.IsConst() {
		k := a.W
		if n.C < uint64(a.W) {
			k = int(n.C)
		}
		switch op {
		case OShl:
			return ShlC(a, k)
		case OLshr:
			return LshrC(a, k)
		default:
			return AshrC(a, k)
		}
	}
	// widen / clip the count to a.W bits, saturating
	if n.Op == OIte && n.Args[1].IsConst() && n.Args[2].IsConst() {
		return Ite(n.Args[0], Shift(op, a, n.Args[1]), Shift(op, a, n.Args[2]))
	}
	cnt := n
	if n.W < a.W {
		cnt = Zext(n, a.W)
	} else if n.W > a.W {
		big := Not(Ult(n, Const(n.W, uint64(a.W))))
		cnt = Ite(big, Const(a.W, uint64(a.W)), Extract(n, 0, a.W))
	}
	if a.IsConst() && a.C == 0 {
		return a
	}
	return intern(&Term{Op: op, W: a.W, Args: []*Term{a, cnt}})
}

// ---- ite, comparisons ----

func Ite(c, a, b *Term) *Term {
	chkW(a, b)
	if c.IsTrue() {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	if c.Op == OXor && len(c.Args) == 1 && c.C == 1 {
		return Ite(c.Args[0], b, a)
	}
	if a.W == 1 {
		if a.IsTrue() && b.IsFalse() {
			return c
		}
		if a.IsFalse() && b.IsTrue() {
			return Not(c)
		}
		if a.IsTrue() {
			return Or(c, b)
		}
		if a.IsFalse() {
			return And(Not(c), b)
		}
		if b.IsTrue() {
			return Or(Not(c), a)
		}
		if b.IsFalse() {
			return And(c, a)
		}
	} else if a.IsConst() && b.IsConst() {
		if a.C == 1 && b.C == 0 {
			return Zext(c, a.W)
		}
		if a.C == 0 && b.C == 1 {
			return Zext(Not(c), a.W)
		}
	}
	if a.Op == OIte && a.Args[0] == c {
		return Ite(c, a.Args[1], b)
	}
	if b.Op == OIte && b.Args[0] == c {
		return Ite(c, a, b.Args[2])
	}
	// nested with shared branch: ite(c, ite(d,x,y), y) = ite(c&d, x, y)
	if a.Op == OIte && a.Args[2] == b {
		return Ite(And(c, a.Args[0]), a.Args[1], b)
	}
	if a.Op == OIte && a.Args[1] == b {
		return Ite(And(c, Not(a.Args[0])), a.Args[2], b)
	}
	if b.Op == OIte && b.Args[1] == a {
		return Ite(Or(c, b.Args[0]), a, b.Args[2])
	}
	return intern(&Term{Op: OIte, W: a.W, Args: []*Term{c, a, b}})
}

func Eq(a, b *Term) *Term {
	chkW(a, b)
	if a == b {
		return True()
	}
	if a.IsConst() && b.IsConst() {
		return Bool(a.C == b.C)
	}
	if a.W == 1 {
		return Not(Xor(a, b))
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		switch a.Op {
		case OIte:
			if a.Args[1].IsConst() || a.Args[2].IsConst() {
				return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
			}
		case OConcat:
			var cs []*Term
			pos := a.W
			for _, p := range a.Args {
				pos -= p.W
				cs = append(cs, Eq(p, Const(p.W, b.C>>uint(pos))))
			}
			return And(cs...)
		case OLin:
			// const offset; single variable with odd coefficient
			if len(a.Args) == 1 && a.Coef[0]&1 == 1 {
				inv := invMod2k(a.Coef[0], a.W)
				return Eq(a.Args[0], Const(a.W, (b.C-a.C)*inv))
			}
			if a.C != 0 {
				l := newLin(a.W)
				l.add(a, 1)
				l.c = 0
				return Eq(l.term(), Const(a.W, b.C-a.C))
			}
		case OXor:
			if a.C != 0 {
				return Eq(Xor(a, Const(a.W, a.C)), Const(a.W, b.C^a.C))
			}
		case OOr:
			if b.C == 0 {
				var cs []*Term
				for _, x := range a.Args {
					cs = append(cs, Eq(x, Const(a.W, 0)))
				}
				return And(cs...)
			}
		case OSext:
			x := a.Args[0]
			if Sext(Const(x.W, b.C), a.W).C != b.C {
				return False()
			}
			return Eq(x, Const(x.W, b.C))
		}
	} else {
		// move differences: a-b == 0 when linear structure simplifies
		if a.Op == OLin || b.Op == OLin {
			d := Sub(a, b)
			if d.IsConst() {
				return Bool(d.C == 0)
			}
			if d.Op != OLin || len(d.Args) < 2 || d.C == 0 && len(d.Args) <= 2 && a.Op != b.Op {
				if d.Op != OLin {
					return Eq(d, Const(d.W, 0))
				}
			}
		}
		if a.Op == OConcat && b.Op == OConcat && len(a.Args) == len(b.Args) {
			same := true
			for i := range a.Args {
				if a.Args[i].W != b.Args[i].W {
					same = false
				}
			}
			if same {
				var cs []*Term
				for i := range a.Args {
					cs = append(cs, Eq(a.Args[i], b.Args[i]))
				}
				return And(cs...)
			}
		}
	}
	if !b.IsConst() && a.ID > b.ID {
		a, b = b, a
	}
	return intern(&Term{Op: OEq, W: 1, Args: []*Term{a, b}})
}

func invMod2k(a uint64, w int) uint64 {
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x & mask(w)
}

func Ult(a, b *Term) *Term {
	chkW(a, b)
	if a == b {
		return False()
	}
	if a.IsConst() && b.IsConst() {
		return Bool(a.C < b.C)
	}
	if b.IsConst() && b.C == 0 {
		return False()
	}
	if a.IsConst() && a.C == mask(a.W) {
		return False()
	}
	ha, hb := urange(a), urange(b)
	if ha.hi < hb.lo {
		return True()
	}
	if ha.lo >= hb.hi {
		return False()
	}
	if b.IsConst() && b.C == 1 {
		return Eq(a, Const(a.W, 0))
	}
	if a.IsConst() && a.C == 0 {
		return Not(Eq(b, a))
	}
	// common zero-extension
	za, zb := topZeros(a), topZeros(b)
	if z := min(za, zb); z > 0 && z < a.W {
		return Ult(Extract(a, 0, a.W-z), Extract(b, 0, b.W-z))
	}
	if b.IsConst() && a.Op == OIte && (a.Args[1].IsConst() || a.Args[2].IsConst()) {
		return Ite(a.Args[0], Ult(a.Args[1], b), Ult(a.Args[2], b))
	}
	if a.IsConst() && b.Op == OIte && (b.Args[1].IsConst() || b.Args[2].IsConst()) {
		return Ite(b.Args[0], Ult(a, b.Args[1]), Ult(a, b.Args[2]))
	}
	return intern(&Term{Op: OUlt, W: 1, Args: []*Term{a, b}})
}

type urng struct{ lo, hi uint64 }

// curRange holds path-specific bounds while a term is examined under a path condition.
var curRange map[*Term]urng
var curSkip *Term

func urange(t *Term) urng {
	r := urange0(t)
	if curRange != nil && t != curSkip {
		if q, ok := curRange[t]; ok {
			r.lo, r.hi = max(r.lo, q.lo), min(r.hi, q.hi)
			if r.lo > r.hi { // contradictory path: any answer is sound, keep it well-formed
				r.hi = r.lo
			}
		}
	}
	return r
}

func urange0(t *Term) urng {
	switch t.Op {
	case OConst:
		return urng{t.C, t.C}
	case OConcat:
		// product of pieces
		var lo, hi uint64
		for _, p := range t.Args {
			r := urange(p)
			lo = lo<<uint(p.W) | r.lo
			hi = hi<<uint(p.W) | r.hi
		}
		return urng{lo, hi}
	case OExtract:
		if r := urange(t.Args[0]); t.Lo == 0 && r.hi <= mask(t.W) {
			return r
		}
	case OIte:
		a, b := urange(t.Args[1]), urange(t.Args[2])
		return urng{min(a.lo, b.lo), max(a.hi, b.hi)}
	case OVar, OUF:
		if r, ok := varRange[t]; ok {
			return r
		}
	case OLin:
		// linear combination read with signed coefficients; exact when the integer value stays in range
		sg := func(c uint64) int64 {
			if t.W < 64 && c>>uint(t.W-1) != 0 {
				return int64(c | ^mask(t.W))
			}
			return int64(c)
		}
		const lim = int64(1) << 61
		lo, hi := sg(t.C), sg(t.C)
		if lo > lim || lo < -lim {
			return urng{0, mask(t.W)}
		}
		for i, a := range t.Args {
			r := urange(a)
			k := sg(t.Coef[i])
			ak := uint64(k)
			if k < 0 {
				ak = uint64(-k)
			}
			h, l := bits.Mul64(r.hi, ak)
			if h != 0 || l > uint64(lim) {
				return urng{0, mask(t.W)}
			}
			if k >= 0 {
				lo += int64(r.lo) * k
				hi += int64(l)
			} else {
				lo -= int64(l)
				hi += int64(r.lo) * k
			}
			if hi > lim || lo < -lim {
				return urng{0, mask(t.W)}
			}
		}
		if lo < 0 || uint64(hi) > mask(t.W) {
			return urng{0, mask(t.W)}
		}
		return urng{uint64(lo), uint64(hi)}
	}
	return urng{0, mask(t.W)}
}

// declared ranges of variables (assumed by whoever creates the variable; emitted as solver facts)
var varRange = map[*Term]urng{}

func Slt(a, b *Term) *Term {
	chkW(a, b)
	if a == b {
		return False()
	}
	if a.IsConst() && b.IsConst() {
		return Bool(a.Signed() < b.Signed())
	}
	half := uint64(1) << uint(a.W-1)
	ra, rb := urange(a), urange(b)
	if ra.hi < half && rb.hi < half {
		return Ult(a, b)
	}
	if ra.hi < half && rb.lo >= half {
		return False()
	}
	if ra.lo >= half && rb.hi < half {
		return True()
	}
	if a.Op == OSext && b.IsConst() {
		x := a.Args[0]
		lo, hi := -(int64(1) << uint(x.W-1)), int64(1)<<uint(x.W-1)-1
		if b.Signed() > hi {
			return True()
		}
		if b.Signed() <= lo {
			return False()
		}
		return Slt(x, Const(x.W, b.C))
	}
	if b.IsConst() && b.C == 0 {
		return Extract(a, a.W-1, 1)
	}
	if b.IsConst() && a.Op == OIte && (a.Args[1].IsConst() || a.Args[2].IsConst()) {
		return Ite(a.Args[0], Slt(a.Args[1], b), Slt(a.Args[2], b))
	}
	return intern(&Term{Op: OSlt, W: 1, Args: []*Term{a, b}})
}
func Ule(a, b *Term) *Term { return Not(Ult(b, a)) }
func Sle(a, b *Term) *Term { return Not(Slt(b, a)) }

func DivRem(op Op, a, b *Term) *Term {
	chkW(a, b)
	if a.IsConst() && b.IsConst() && b.C != 0 {
		switch op {
		case OUDiv:
			return Const(a.W, a.C/b.C)
		case OURem:
			return Const(a.W, a.C%b.C)
		case OSDiv:
			if b.Signed() == -1 {
				return Neg(a)
			}
			return Const(a.W, uint64(a.Signed()/b.Signed()))
		case OSRem:
			if b.Signed() == -1 {
				return Const(a.W, 0)
			}
			return Const(a.W, uint64(a.Signed()%b.Signed()))
		}
	}
	if b.IsConst() && b.C != 0 && b.C&(b.C-1) == 0 && b.Signed() > 0 {
		k := bits.TrailingZeros64(b.C)
		nonneg := op == OUDiv || op == OURem || urange(a).hi < uint64(1)<<uint(a.W-1)
		if nonneg {
			if q, r := linDiv(a, b.C); q != nil {
				if op == OUDiv || op == OSDiv {
					return q
				}
				return r
			}
			if op == OUDiv || op == OSDiv {
				return unZext(LshrC(a, k))
			}
			return unZext(And(a, Const(a.W, b.C-1)))
		}
	}
	if b.IsConst() && b.C != 0 && (op == OUDiv || op == OURem || (b.Signed() > 0 && urange(a).hi < uint64(1)<<uint(a.W-1))) {
		// (k*b*x + c) div b for non-overflowing linear terms
		if op == OSDiv {
			op = OUDiv
		}
		if op == OSRem {
			op = OURem
		}
		if op == OURem && urange(a).hi < b.C {
			return a
		}
		if op == OUDiv && urange(a).hi < b.C {
			return Const(a.W, 0)
		}
		if q, r := linDiv(a, b.C); q != nil {
			if op == OUDiv {
				return q
			}
			return r
		}
	}
	return intern(&Term{Op: op, W: a.W, Args: []*Term{a, b}})
}

// unZext drops a zero extension of the low bits of a term that is known to fit.
func unZext(t *Term) *Term {
	if t.Op == OConcat && len(t.Args) == 2 && t.Args[0].IsConst() && t.Args[0].C == 0 {
		x := t.Args[1]
		if x.Op == OExtract && x.Lo == 0 && x.Args[0].W == t.W && urange(x.Args[0]).hi < uint64(1)<<uint(x.W) {
			return x.Args[0]
		}
	}
	return t
}

// linDiv divides a non-wrapping linear term by constant d when all coefficients split as d*q + 0
// except a remainder part provably < d.
func linDiv(a *Term, d uint64) (q, r *Term) {
	l := newLin(a.W)
	l.add(a, 1)
	if len(l.m) == 0 || len(l.m) == 1 && l.m[a] == 1 {
		return nil, nil
	}
	// the sum must not wrap (over the naturals, except for a constant taken off a provably larger sum)
	sum := new(big.Int)
	for x, k := range l.m {
		sum.Add(sum, new(big.Int).Mul(new(big.Int).SetUint64(k), new(big.Int).SetUint64(urange(x).hi)))
	}
	c := l.c & mask(a.W)
	negC := false
	if int64(signExt(c, a.W)) < 0 {
		negC = true
		c = -signExt(c, a.W)
		if urange(a).hi > mask(a.W)>>1 || c%d != 0 || c > uint64(1)<<40 {
			return nil, nil
		}
	} else {
		sum.Add(sum, new(big.Int).SetUint64(c))
	}
	if sum.BitLen() > a.W-1 {
		return nil, nil
	}
	ql, rl := newLin(a.W), newLin(a.W)
	for x, k := range l.m {
		if k%d == 0 {
			ql.add(x, k/d)
		} else {
			rl.add(x, k)
		}
	}
	if negC {
		ql.c = -(c / d) & mask(a.W)
	} else {
		ql.c = c / d
		rl.c = c % d
	}
	rt := rl.term()
	if urange(rt).hi >= d {
		return nil, nil
	}
	return ql.term(), rt
}

// Show prints a term to the given depth.
func Show(t *Term, depth int) string {
	if t == nil {
		return "<nil>"
	}
	switch t.Op {
	case OConst:
		if t.W == 1 {
			return fmt.Sprint(t.C == 1)
		}
		return fmt.Sprintf("0x%x:%d", t.C, t.W)
	case OVar:
		return t.Name
	}
	if depth == 0 {
		return fmt.Sprintf("#%d", t.ID)
	}
	var a []string
	for i, x := range t.Args {
		s := Show(x, depth-1)
		if t.Coef != nil {
			s = fmt.Sprintf("%d*%s", int64(signExt(t.Coef[i], t.W)), s)
		}
		a = append(a, s)
	}
	if t.C != 0 {
		a = append(a, fmt.Sprintf("c=0x%x", t.C))
	}
	n := opName[t.Op]
	if t.Name != "" {
		n = t.Name
	}
	if t.Op == OExtract {
		n = fmt.Sprintf("ext[%d+%d]", t.Lo, t.W)
	}
	return n + "(" + strings.Join(a, ", ") + ")"
}

func signExt(v uint64, w int) uint64 {
	if w < 64 && v>>(uint(w)-1)&1 == 1 {
		v |= ^mask(w)
	}
	return v
}

var opName = map[Op]string{OLin: "lin", OMul: "mul", OMulHi: "mulhi", OAddC: "addc", OSubB: "subb", OAnd: "and", OOr: "or", OXor: "xor", OConcat: "cat", OExtract: "ext", OSext: "sext", OShl: "shl", OLshr: "lshr", OAshr: "ashr", OIte: "ite", OEq: "eq", OUlt: "ult", OSlt: "slt", OUDiv: "udiv", OURem: "urem", OSDiv: "sdiv", OSRem: "srem", OUF: "uf"}
