package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// ---- abstract domain of math/big integers ----
//
// A *big.Int points to an object holding an immutable *Z: a polynomial with integer coefficients over atoms.
// Atoms are interned: input byte strings read as integers, residues x mod N, inverses, square roots,
// coordinates of group elements, nonces.

type zatom struct {
	id     int
	kind   string // be, mod, inv, sqrt, X, Y, rnd, u64, div
	name   string
	lo, hi *big.Int
	rope   []Piece  // be
	arg    *Z       // mod, inv, sqrt
	n      *big.Int // modulus
	pt     *EPt     // X, Y
	cmps   map[string]*big.Int
	t      *Term // bit: the boolean it equals
}

type Z struct {
	id  int
	key string
	m   []zmon
}
type zmon struct {
	c *big.Int
	a []*zatom // sorted by id, with repetition
}

var (
	zatoms   = map[string]*zatom{}
	zatomIDs []*zatom
	zTab     = map[string]*Z{}
	zByID    []*Z
	zNegs    = map[*Term]zcmp{} // boolean atoms and the polynomial they speak about
	zZeros   = map[*Term]zcmp{}
	zLens    = map[int]*Term{}
)

type zcmp struct{ d *Z }

func zAtom(kind, name string, lo, hi *big.Int) *zatom {
	k := kind + ":" + name
	if a := zatoms[k]; a != nil {
		return a
	}
	a := &zatom{id: len(zatomIDs), kind: kind, name: name, lo: lo, hi: hi, cmps: map[string]*big.Int{}}
	zatoms[k] = a
	zatomIDs = append(zatomIDs, a)
	return a
}

func monKey(a []*zatom) string {
	var b strings.Builder
	for _, x := range a {
		fmt.Fprintf(&b, "*%d", x.id)
	}
	return b.String()
}

func zPoly(ms map[string]*zmon) *Z {
	var ks []string
	for k, m := range ms {
		if m.c.Sign() != 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var b strings.Builder
	z := &Z{}
	for _, k := range ks {
		m := ms[k]
		fmt.Fprintf(&b, "%s%s+", m.c, k)
		z.m = append(z.m, *m)
	}
	z.key = b.String()
	if o := zTab[z.key]; o != nil {
		return o
	}
	z.id = len(zByID)
	zByID = append(zByID, z)
	zTab[z.key] = z
	return z
}

func ZC(v *big.Int) *Z { return zPoly(map[string]*zmon{"": {c: new(big.Int).Set(v)}}) }
func ZI(v int64) *Z    { return ZC(big.NewInt(v)) }
func zOf(a *zatom) *Z {
	return zPoly(map[string]*zmon{monKey([]*zatom{a}): {c: big.NewInt(1), a: []*zatom{a}}})
}

func (z *Z) isConst() (*big.Int, bool) {
	if len(z.m) == 0 {
		return new(big.Int), true
	}
	if len(z.m) == 1 && len(z.m[0].a) == 0 {
		return z.m[0].c, true
	}
	return nil, false
}

// single returns the atom when z is exactly one atom.
func (z *Z) single() *zatom {
	if len(z.m) == 1 && len(z.m[0].a) == 1 && z.m[0].c.Cmp(big.NewInt(1)) == 0 {
		return z.m[0].a[0]
	}
	return nil
}

func zAddTo(ms map[string]*zmon, z *Z, k *big.Int) {
	for _, m := range z.m {
		key := monKey(m.a)
		e := ms[key]
		if e == nil {
			e = &zmon{c: new(big.Int), a: m.a}
			ms[key] = e
		}
		e.c.Add(e.c, new(big.Int).Mul(m.c, k))
	}
}
func ZAdd(x, y *Z) *Z { return ZLin(x, 1, y, 1) }
func ZSub(x, y *Z) *Z { return ZLin(x, 1, y, -1) }
func ZLin(x *Z, a int64, y *Z, b int64) *Z {
	ms := map[string]*zmon{}
	zAddTo(ms, x, big.NewInt(a))
	zAddTo(ms, y, big.NewInt(b))
	return zPoly(ms)
}
func ZScale(x *Z, k *big.Int) *Z {
	ms := map[string]*zmon{}
	zAddTo(ms, x, k)
	return zPoly(ms)
}

func mulMons(x, y []*zatom) []*zatom {
	a := append(append([]*zatom{}, x...), y...)
	sort.Slice(a, func(i, j int) bool { return a[i].id < a[j].id })
	return a
}

func ZMul(x, y *Z) *Z { return zMulMod(x, y, nil) }
func zMulMod(x, y *Z, n *big.Int) *Z {
	ms := map[string]*zmon{}
	if len(x.m)*len(y.m) > 4000000 {
		unsup("polynomial too large (%d x %d)", len(x.m), len(y.m))
	}
	for _, p := range x.m {
		for _, q := range y.m {
			a := mulMons(p.a, q.a)
			k := monKey(a)
			e := ms[k]
			if e == nil {
				e = &zmon{c: new(big.Int), a: a}
				ms[k] = e
			}
			e.c.Add(e.c, new(big.Int).Mul(p.c, q.c))
			if n != nil {
				e.c.Mod(e.c, n)
			}
		}
	}
	return zPoly(ms)
}

// nf is the normal form of z modulo n: residues mod n are replaced by what they are residues of.
func (z *Z) nf(n *big.Int) *Z {
	for round := 0; ; round++ {
		again := false
		ms := map[string]*zmon{}
		for _, m := range z.m {
			var rest []*zatom
			p := ZC(new(big.Int).Mod(m.c, n))
			// a * inv(c*a + rest) = c^-1 * (1 - rest * inv(c*a + rest)): the argument is invertible where the atom exists
			mas := m.a
			for _, v := range m.a {
				if v.kind != "inv" || v.n.Cmp(n) != 0 || again {
					continue
				}
				l := v.arg.lead()
				if l == nil {
					continue
				}
				for i, a := range m.a {
					if a != l.a[0] {
						continue
					}
					ci := new(big.Int).ModInverse(l.c, n)
					rest := ZSub(v.arg, zPoly(map[string]*zmon{monKey(l.a): {c: l.c, a: l.a}}))
					p = zMulMod(p, ZSub(ZI(1), ZMul(rest, zOf(v))).cmod(n), n)
					p = zMulMod(p, ZC(ci), n)
					mas = append(append([]*zatom{}, m.a[:i]...), m.a[i+1:]...)
					for j, b := range mas {
						if b == v {
							mas = append(append([]*zatom{}, mas[:j]...), mas[j+1:]...)
							break
						}
					}
					again = true
					break
				}
				if again {
					break
				}
			}
			for _, a := range mas {
				if a.kind == "mod" && a.n.Cmp(n) == 0 {
					p = zMulMod(p, a.arg, n)
					again = true
				} else {
					rest = append(rest, a)
				}
			}
			if len(rest) > 0 {
				p = zMulMod(p, zPoly(map[string]*zmon{monKey(rest): {c: big.NewInt(1), a: rest}}), n)
			}
			zAddTo(ms, p, big.NewInt(1))
		}
		for _, m := range ms {
			m.c.Mod(m.c, n)
		}
		z = zPoly(ms)
		if !again {
			return z
		}
	}
}

type zrng struct{ lo, hi *big.Int } // nil: unbounded

// rangeOf bounds z under the facts of st.
func (st *State) zrange(z *Z) zrng {
	lo, hi := new(big.Int), new(big.Int)
	for _, m := range z.m {
		ml, mh := big.NewInt(1), big.NewInt(1)
		for _, a := range m.a {
			al, ah := st.arange(a)
			// all atoms are bounded
			c := []*big.Int{new(big.Int).Mul(ml, al), new(big.Int).Mul(ml, ah), new(big.Int).Mul(mh, al), new(big.Int).Mul(mh, ah)}
			ml, mh = c[0], c[0]
			for _, x := range c[1:] {
				if x.Cmp(ml) < 0 {
					ml = x
				}
				if x.Cmp(mh) > 0 {
					mh = x
				}
			}
		}
		a, b := new(big.Int).Mul(ml, m.c), new(big.Int).Mul(mh, m.c)
		if m.c.Sign() < 0 {
			a, b = b, a
		}
		lo.Add(lo, a)
		hi.Add(hi, b)
	}
	return zrng{lo, hi}
}

func (st *State) arange(a *zatom) (lo, hi *big.Int) {
	lo, hi = a.lo, a.hi
	if st == nil {
		return
	}
	for key, c := range a.cmps {
		// comparison of the atom with the constant c
		d := zTab[key]
		_ = d
		n, z := zNegTerm(d), zZeroTerm(d)
		switch st.decide(n) {
		case 1: // a < c
			if t := new(big.Int).Sub(c, big.NewInt(1)); t.Cmp(hi) < 0 {
				hi = t
			}
		case 0: // a >= c
			l := c
			if st.decide(z) == 0 {
				l = new(big.Int).Add(c, big.NewInt(1))
			}
			if l.Cmp(lo) > 0 {
				lo = l
			}
		}
		if st.decide(z) == 1 {
			lo, hi = c, c
		}
	}
	if a.lo.Sign() == 0 && lo.Sign() == 0 {
		if z := zOf(a); st.decide(zZeroTerm(z)) == 0 {
			lo = big.NewInt(1)
		}
	}
	if len(zLens) > 0 {
		if l := zLens[zOf(a).id]; l != nil {
			r := st.urange(l)
			if m := new(big.Int).Lsh(big.NewInt(1), uint(8*r.hi)); m.Cmp(hi) <= 0 {
				hi = m.Sub(m, big.NewInt(1))
			}
			if r.lo > 0 {
				if m := new(big.Int).Lsh(big.NewInt(1), uint(8*(r.lo-1))); m.Cmp(lo) > 0 {
					lo = m
				}
			}
		}
	}
	return
}

func zNegTerm(d *Z) *Term {
	t := UF(1, fmt.Sprintf("z<0:%d", d.id))
	zNegs[t] = zcmp{d}
	return t
}
func zZeroTerm(d *Z) *Term {
	t := And(Not(zNegTerm(d)), UF(1, fmt.Sprintf("z=0:%d", d.id)))
	return t
}

// zSign gives the conditions "z < 0" and "z = 0".
func (ex *Exec) zSign(st *State, z *Z) (neg, zero *Term) {
	r := st.zrange(z)
	if r.lo.Sign() == 0 && r.hi.Sign() == 0 {
		return False(), True()
	}
	if r.lo.Sign() > 0 {
		return False(), False()
	}
	if r.hi.Sign() < 0 {
		return True(), False()
	}
	// canonical: positive leading (non-constant) coefficient, no common content
	flip := false
	for _, m := range z.m {
		if len(m.a) > 0 {
			flip = m.c.Sign() < 0
			break
		}
	}
	w := z
	if flip {
		w = ZScale(z, big.NewInt(-1))
		r.lo, r.hi = new(big.Int).Neg(r.hi), new(big.Int).Neg(r.lo)
	}
	// remember comparisons of one atom with a constant
	if len(w.m) <= 2 {
		var at *zatom
		c := new(big.Int)
		ok := true
		for _, m := range w.m {
			switch {
			case len(m.a) == 0:
				c.Neg(m.c)
			case len(m.a) == 1 && m.c.Cmp(big.NewInt(1)) == 0:
				at = m.a[0]
			default:
				ok = false
			}
		}
		if ok && at != nil {
			at.cmps[w.key] = c
			if c.Sign() == 0 {
				if e := ex.zZeroAtom(at); e != nil {
					return False(), e
				}
			}
		}
	}
	if len(w.m) <= 2 {
		c := new(big.Int)
		var at *zatom
		for _, m := range w.m {
			if len(m.a) == 0 {
				c.Neg(m.c)
			} else if len(m.a) == 1 && m.a[0].kind == "bit" && m.c.Cmp(big.NewInt(1)) == 0 {
				at = m.a[0]
			}
		}
		if at != nil && (c.Sign() == 0 || c.Cmp(big.NewInt(1)) == 0) {
			n, zr := False(), Not(at.t)
			if c.Sign() != 0 {
				n, zr = Not(at.t), at.t
			}
			if flip {
				return And(Not(n), Not(zr)), zr
			}
			return n, zr
		}
	}
	n, zr := zNegTerm(w), zZeroTerm(w)
	if r.lo.Sign() >= 0 {
		n = False()
		if st.decide(zNegTerm(w)) != 0 {
			st.assume(Not(zNegTerm(w)))
		}
	}
	if r.hi.Sign() < 0 {
		zr = False()
	}
	if flip {
		return And(Not(n), Not(zr)), zr
	}
	return n, zr
}

// zZeroAtom: the condition that an atom is zero, where the group theory of its origin says more.
func (ex *Exec) zZeroAtom(a *zatom) *Term {
	switch a.kind {
	case "X":
		return Or(a.pt.inf(), UF(1, fmt.Sprintf("xzero:%d", a.id)))
	case "Y":
		return a.pt.inf()
	}
	return nil
}

func (z *Z) String() string {
	var p []string
	for _, m := range z.m {
		s := m.c.String()
		for _, a := range m.a {
			s += "*" + a.show()
		}
		p = append(p, s)
	}
	if len(p) == 0 {
		return "0"
	}
	return strings.Join(p, "+")
}
func (a *zatom) show() string {
	switch a.kind {
	case "mod":
		return fmt.Sprintf("((%s) mod %s)", a.arg, shortN(a.n))
	case "inv", "inv0":
		return fmt.Sprintf("inv(%s)", a.arg)
	case "sqrt":
		return fmt.Sprintf("sqrt(%s)", a.arg)
	case "X", "Y":
		return a.kind + "(" + a.pt.String() + ")"
	}
	n := a.name
	if len(n) > 40 {
		n = n[:40]
	}
	return a.kind + ":" + n
}
func shortN(n *big.Int) string { s := n.Text(16); return s[:4] + ".." + s[len(s)-4:] }

// ZMod is z mod n (Euclidean, n a positive constant).
func (ex *Exec) ZMod(st *State, z *Z, n *big.Int) *Z {
	if c, ok := z.isConst(); ok {
		return ZC(new(big.Int).Mod(c, n))
	}
	r := st.zrange(z)
	if r.lo.Sign() >= 0 && r.hi.Cmp(n) < 0 {
		return z
	}
	if n.Cmp(big.NewInt(2)) == 0 {
		p := ex.zParity(z)
		if p.IsConst() {
			return ZI(int64(p.C))
		}
		a := zAtom("bit", fmt.Sprintf("%d", p.ID), new(big.Int), big.NewInt(1))
		a.t = p
		return zOf(a)
	}
	f := z.nf(n)
	if _, ok := f.isConst(); ok {
		return f
	}
	r = st.zrange(f)
	if r.lo.Sign() >= 0 && r.hi.Cmp(n) < 0 {
		return f
	}
	a := zAtom("mod", fmt.Sprintf("%d:%s", f.id, n), new(big.Int), new(big.Int).Sub(n, big.NewInt(1)))
	a.arg, a.n = f, n
	return zOf(a)
}

// cmod reduces the coefficients.
func (z *Z) cmod(n *big.Int) *Z {
	ms := map[string]*zmon{}
	for _, m := range z.m {
		ms[monKey(m.a)] = &zmon{c: new(big.Int).Mod(m.c, n), a: m.a}
	}
	return zPoly(ms)
}

// lead is the monomial of a single atom with the largest id, if its coefficient is nonzero.
func (z *Z) lead() *zmon {
	var r *zmon
	for i := range z.m {
		m := &z.m[i]
		if len(m.a) == 1 && (r == nil || m.a[0].id > r.a[0].id) {
			r = m
		}
	}
	return r
}

// ZInv is the inverse of z modulo the prime n, 0 for 0.
func (ex *Exec) ZInv(st *State, z *Z, n *big.Int) *Z {
	f := z.nf(n)
	if c, ok := f.isConst(); ok {
		v := new(big.Int).ModInverse(c, n)
		if v == nil {
			v = new(big.Int)
		}
		return ZC(v)
	}
	_, zero := ex.zSign(st, ex.ZMod(st, z, n))
	if !ex.must(st, Not(zero)) {
		a := zAtom("inv0", fmt.Sprintf("%d:%s", f.id, n), new(big.Int), new(big.Int).Sub(n, big.NewInt(1)))
		a.arg, a.n = f, n
		return zOf(a)
	}
	if len(f.m) == 1 { // the inverse of a product
		for _, m := range f.m {
			r := ZC(new(big.Int).ModInverse(m.c, n))
			for _, a := range m.a {
				if a.kind == "inv" && a.n.Cmp(n) == 0 {
					r = zMulMod(r, a.arg, n)
					continue
				}
				b := zAtom("inv", fmt.Sprintf("%d:%s", zOf(a).id, n), big.NewInt(1), new(big.Int).Sub(n, big.NewInt(1)))
				b.arg, b.n = zOf(a), n
				r = zMulMod(r, zOf(b), n)
			}
			r = r.nf(n)
			if w := r.single(); w != nil && w.kind == "inv" {
				return r
			}
			return ex.ZMod(st, r, n)
		}
	}
	a := zAtom("inv", fmt.Sprintf("%d:%s", f.id, n), big.NewInt(1), new(big.Int).Sub(n, big.NewInt(1)))
	a.arg, a.n = f, n
	return zOf(a)
}

var zLenOf = map[*Term]int{} // path-specific length symbols: integer id + 1

const zW = 64 // byte width of the fixed-size big-endian view of an integer

func (st *State) zLen(ex *Exec, z *Z) *Term {
	t := zLens[z.id]
	if t == nil {
		r := (*State)(nil).zrange(z)
		if r.lo.Sign() < 0 {
			// nonnegative only under the facts of this path: the length symbol is named after the range it has here
			r = st.zrange(z)
			if r.lo.Sign() < 0 {
				unsup("Bytes of a possibly negative integer %s", z)
			}
			lo, hi := uint64((r.lo.BitLen()+7)/8), uint64((r.hi.BitLen()+7)/8)
			if hi > zW {
				unsup("Bytes of an integer of %d bytes", hi)
			}
			t = Var(64, fmt.Sprintf("zlen:%d:%d:%d", z.id, lo, hi))
			zLenOf[t] = z.id + 1
			varRange[t] = urng{lo, hi}
			return t
		}
		n := (r.hi.BitLen() + 7) / 8
		if n > zW {
			unsup("Bytes of an integer of %d bytes", n)
		}
		t = Var(64, fmt.Sprintf("zlen:%d", z.id))
		varRange[t] = urng{uint64((r.lo.BitLen() + 7) / 8), uint64(n)}
		zLens[z.id] = t
	}
	return t
}

// zBytes is the minimal big-endian encoding.
func (ex *Exec) zBytes(st *State, z *Z) (ps []Piece, n *Term) {
	if c, ok := z.isConst(); ok {
		var cs []Value
		for _, b := range new(big.Int).Abs(c).Bytes() {
			cs = append(cs, Const(8, uint64(b)))
		}
		if len(cs) == 0 {
			return nil, I64(0)
		}
		return []Piece{cellsPiece(cs)}, I64(int64(len(cs)))
	}
	if r := st.zrange(z); r.lo.Sign() < 0 {
		z = nil
		unsup("Bytes of a possibly negative integer")
	}
	l := st.zLen(ex, z)
	if r := st.urange(l); r.lo == r.hi {
		l = Const(64, r.lo)
		if r.lo == 0 {
			return nil, l
		}
	}
	return []Piece{{Sym: fmt.Sprintf("BE:%d", z.id), Off: Sub(I64(zW), l), Len: l, W: 8}}, l
}

// zByte is byte i of the w-byte big-endian encoding of z.
func (ex *Exec) zByte(st *State, z *Z, w, i int) *Term {
	if c, ok := z.isConst(); ok {
		return Const(8, new(big.Int).Rsh(c, uint(8*(w-1-i))).Uint64()&0xff)
	}
	return ex.canonByte(st, UF(8, fmt.Sprintf("BE:%d", z.id), I64(int64(zW-w+i))))
}

// canonByte rewrites a byte of a fixed-width big-endian view to its canonical form.
func (ex *Exec) canonByte(st *State, t *Term) *Term {
	if t.Op != OUF || !strings.HasPrefix(t.Name, "BE:") || len(t.Args) != 1 || !t.Args[0].IsConst() {
		return t
	}
	var id int
	fmt.Sscanf(t.Name, "BE:%d", &id)
	z := zByID[id]
	i := int(t.Args[0].C)
	r := st.zrange(z)
	if i < zW-(r.hi.BitLen()+7)/8 {
		return Const(8, 0)
	}
	if l := zLens[id]; l != nil {
		if u := st.urange(l); i < zW-int(u.hi) {
			return Const(8, 0)
		}
	}
	if a := z.single(); a != nil && a.kind == "be" {
		// the bytes of the string the integer was read from
		n := 0
		for _, p := range a.rope {
			if !p.Len.IsConst() {
				return t
			}
			n += int(p.Len.C)
		}
		k := i - (zW - n)
		if k < 0 {
			return Const(8, 0)
		}
		for _, p := range a.rope {
			if k < int(p.Len.C) {
				return pieceAt(p, I64(int64(k))).(*Term)
			}
			k -= int(p.Len.C)
		}
	}
	return t
}

// ---- byte strings ----

// normBytes is the canonical form of a byte string under the facts of st: single cells, and pieces of symbolic length.
func (ex *Exec) normBytes(st *State, ps []Piece) []Piece {
	m := st.singles()
	sub := func(t *Term) *Term {
		if t == nil || len(m) == 0 || t.IsConst() {
			return t
		}
		return Subst(t, m)
	}
	var out []Piece
	put := func(p Piece) {
		if p.Len.IsConst() && p.Len.C == 0 {
			return
		}
		if p.Len.IsConst() && p.Len.C <= 1<<16 && p.Cells == nil {
			p = cellsPiece(expandPiece(p))
		}
		if p.Cells != nil {
			c := make([]Value, len(p.Cells))
			for i, v := range p.Cells {
				c[i] = ex.canonByte(st, sub(v.(*Term)))
			}
			p = cellsPiece(c)
		}
		if n := len(out); n > 0 {
			q := &out[n-1]
			switch {
			case q.Cells != nil && p.Cells != nil:
				out[n-1] = cellsPiece(append(append([]Value{}, q.Cells...), p.Cells...))
				return
			case q.Sym != "" && q.Sym == p.Sym && Add(q.Off, q.Len) == p.Off:
				q.Len = Add(q.Len, p.Len)
				return
			case q.Rep != nil && p.Rep != nil && q.Rep == p.Rep:
				q.Len = Add(q.Len, p.Len)
				return
			}
			// cells continued by, or continuing, a symbolic piece of the same array
			if q.Cells != nil && p.Sym != "" {
				k := len(q.Cells)
				for k > 0 && q.Cells[k-1].(*Term) == UF(p.W, p.Sym, Sub(p.Off, I64(1))) {
					k--
					p.Off, p.Len = Sub(p.Off, I64(1)), Add(p.Len, I64(1))
				}
				if k == 0 {
					out = out[:n-1]
				} else if k < len(q.Cells) {
					out[n-1] = cellsPiece(q.Cells[:k])
				}
			}
			if q.Sym != "" && p.Cells != nil {
				k := 0
				for k < len(p.Cells) && p.Cells[k].(*Term) == UF(q.W, q.Sym, Add(q.Off, q.Len)) {
					q.Len = Add(q.Len, I64(1))
					k++
				}
				if k == len(p.Cells) {
					return
				}
				p = cellsPiece(p.Cells[k:])
			}
		}
		out = append(out, p)
	}
	for _, p := range ps {
		p.Off, p.Len = sub(p.Off), sub(p.Len)
		put(p)
	}
	return out
}

// bytesAtom names a byte string: equal strings (as far as the normal form sees) get equal terms.
func (ex *Exec) bytesAtom(st *State, ps []Piece) *Term {
	ps = ex.normBytes(st, ps)
	var sk strings.Builder
	var args []*Term
	for _, p := range ps {
		switch {
		case p.Cells != nil:
			fmt.Fprintf(&sk, "c%d,", len(p.Cells))
			for _, c := range p.Cells {
				args = append(args, c.(*Term))
			}
		case p.Sym != "":
			fmt.Fprintf(&sk, "s(%s),", p.Sym)
			args = append(args, p.Off, p.Len)
		default:
			sk.WriteString("r,")
			args = append(args, p.Rep.(*Term), p.Len)
		}
	}
	return UF(64, "bytes:"+sk.String(), args...)
}

func constBytes(ps []Piece) ([]byte, bool) {
	var b []byte
	for _, p := range ps {
		if p.Cells == nil {
			return nil, false
		}
		for _, c := range p.Cells {
			t, ok := c.(*Term)
			if !ok || !t.IsConst() {
				return nil, false
			}
			b = append(b, byte(t.C))
		}
	}
	return b, true
}

// zSetBytes reads a byte string as a big-endian integer.
func (ex *Exec) zSetBytes(st *State, ps []Piece) *Z {
	ps = ex.normBytes(st, ps)
	for len(ps) > 0 {
		p := ps[0]
		if p.Cells != nil {
			k := 0
			for k < len(p.Cells) && p.Cells[k].(*Term).IsConst() && p.Cells[k].(*Term).C == 0 {
				k++
			}
			if k == len(p.Cells) {
				ps = ps[1:]
				continue
			}
			if k > 0 {
				ps = append([]Piece{cellsPiece(p.Cells[k:])}, ps[1:]...)
			}
			break
		}
		if p.Rep != nil && p.Rep.(*Term).IsConst() && p.Rep.(*Term).C == 0 {
			ps = ps[1:]
			continue
		}
		break
	}
	if len(ps) == 0 {
		return ZI(0)
	}
	if b, ok := constBytes(ps); ok {
		return ZC(new(big.Int).SetBytes(b))
	}
	// the encoding of an integer, read back
	if len(ps) == 1 && strings.HasPrefix(ps[0].Sym, "BE:") && Add(ps[0].Off, ps[0].Len) == I64(zW) {
		var id int
		fmt.Sscanf(ps[0].Sym, "BE:%d", &id)
		z := zByID[id]
		if ps[0].Len == zLens[id] || zLenOf[ps[0].Len] == id+1 {
			return z
		}
	}
	if len(ps) == 1 && ps[0].Cells != nil {
		c := ps[0].Cells
		if t, ok := c[0].(*Term); ok && t.Op == OUF && strings.HasPrefix(t.Name, "BE:") {
			var id int
			fmt.Sscanf(t.Name, "BE:%d", &id)
			z := zByID[id]
			n := len(c)
			same := (st.zrange(z).hi.BitLen()+7)/8 <= n
			if l := zLens[id]; l != nil && st.urange(l).hi <= uint64(n) {
				same = true
			}
			for i, v := range c {
				if v.(*Term) != UF(8, t.Name, I64(int64(zW-n+i))) {
					same = false
				}
			}
			if same {
				return z
			}
		}
	}
	total, known := 0, true
	for _, p := range ps {
		if !p.Len.IsConst() {
			known = false
			u := st.urange(p.Len)
			if u.hi > zW {
				unsup("SetBytes of an unbounded string")
			}
			total += int(u.hi)
			continue
		}
		total += int(p.Len.C)
	}
	_ = known
	key := ex.bytesAtom(st, ps)
	hi := new(big.Int).Lsh(big.NewInt(1), uint(8*total))
	a := zAtom("be", fmt.Sprintf("%d", key.ID), new(big.Int), hi.Sub(hi, big.NewInt(1)))
	a.rope = ps
	return zOf(a)
}

// ---- math/big natives ----

func (ex *Exec) zGet(st *State, v Value) *Z {
	p, ok := v.(Ptr)
	if !ok || p.Obj == 0 {
		panic(zNil{})
	}
	o, ok := ex.Load(st, p).(*Opaque)
	if !ok || o.Kind != "Z" {
		unsup("big.Int holds %s", showVal(ex.Load(st, p)))
	}
	return o.X.(*Z)
}

type zNil struct{}

func (ex *Exec) zPut(st *State, v Value, z *Z) {
	p, ok := v.(Ptr)
	if !ok || p.Obj == 0 {
		panic(zNil{})
	}
	ex.Store(st, p, &Opaque{Kind: "Z", X: z})
}

func (ex *Exec) zNew(st *State, site string, z *Z) Ptr {
	id := ex.Alloc(st, site+".big", bigIntType(ex), &Opaque{Kind: "Z", X: z})
	return Ptr{Obj: id}
}

var bigT types.Type

func bigIntType(ex *Exec) types.Type {
	if bigT == nil {
		for _, p := range ex.Prog.AllPackages() {
			if p.Pkg.Path() == "math/big" {
				bigT = p.Pkg.Scope().Lookup("Int").Type()
			}
		}
	}
	return bigT
}

// useZ installs the integer domain.
func useZ(ex *Exec) {
	ex.OpaqueTypes["math/big.Int"] = "Z"
	ex.OpaqueZero["Z"] = func() Value { return &Opaque{Kind: "Z", X: ZI(0)} }
	def := func(name string, f func(st *State, c *CallCtx) []Outcome) {
		ex.Natives["(*math/big.Int)."+name] = func(ex *Exec, st *State, c *CallCtx) (outs []Outcome) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(zNil); ok {
						outs = []Outcome{{St: st, Panic: "nil pointer dereference (nil *big.Int in " + name + ")"}}
						return
					}
					panic(r)
				}
			}()
			return f(st, c)
		}
	}
	un := func(name string, f func(st *State, x *Z, c *CallCtx) *Z) {
		def(name, func(st *State, c *CallCtx) []Outcome {
			ex.zPut(st, c.Args[0], f(st, ex.zGet(st, c.Args[1]), c))
			return ret(st, c.Args[0])
		})
	}
	bin := func(name string, f func(st *State, x, y *Z) *Z) {
		def(name, func(st *State, c *CallCtx) []Outcome {
			ex.zPut(st, c.Args[0], f(st, ex.zGet(st, c.Args[1]), ex.zGet(st, c.Args[2])))
			return ret(st, c.Args[0])
		})
	}
	konst := func(z *Z, what string) *big.Int {
		v, ok := z.isConst()
		if !ok {
			unsup("%s by a symbolic integer %s", what, z)
		}
		return v
	}
	un("Set", func(st *State, x *Z, c *CallCtx) *Z { return x })
	un("Neg", func(st *State, x *Z, c *CallCtx) *Z { return ZScale(x, big.NewInt(-1)) })
	bin("Add", func(st *State, x, y *Z) *Z { return ZAdd(x, y) })
	bin("Sub", func(st *State, x, y *Z) *Z { return ZSub(x, y) })
	bin("Mul", func(st *State, x, y *Z) *Z { return ZMul(x, y) })
	divc := func(st *State, x *Z, n *big.Int) *Z {
		if c, ok := x.isConst(); ok {
			return ZC(new(big.Int).Div(c, n))
		}
		unsup("quotient of symbolic %s", x)
		return nil
	}
	def("Mod", func(st *State, c *CallCtx) []Outcome {
		x, n := ex.zGet(st, c.Args[1]), konst(ex.zGet(st, c.Args[2]), "Mod")
		if n.Sign() <= 0 {
			unsup("Mod by %s", n)
		}
		ex.zPut(st, c.Args[0], ex.ZMod(st, x, n))
		return ret(st, c.Args[0])
	})
	for _, nm := range []string{"Div", "Quo"} {
		def(nm, func(st *State, c *CallCtx) []Outcome {
			ex.zPut(st, c.Args[0], divc(st, ex.zGet(st, c.Args[1]), konst(ex.zGet(st, c.Args[2]), "Div")))
			return ret(st, c.Args[0])
		})
	}
	def("Lsh", func(st *State, c *CallCtx) []Outcome {
		n := T(c.Args[2])
		if !n.IsConst() {
			unsup("Lsh by a symbolic amount")
		}
		ex.zPut(st, c.Args[0], ZScale(ex.zGet(st, c.Args[1]), new(big.Int).Lsh(big.NewInt(1), uint(n.C))))
		return ret(st, c.Args[0])
	})
	def("Rsh", func(st *State, c *CallCtx) []Outcome {
		n := T(c.Args[2])
		x := ex.zGet(st, c.Args[1])
		if !n.IsConst() {
			unsup("Rsh by a symbolic amount")
		}
		if n.C > 0 {
			x = divc(st, x, new(big.Int).Lsh(big.NewInt(1), uint(n.C)))
		}
		ex.zPut(st, c.Args[0], x)
		return ret(st, c.Args[0])
	})
	def("SetBytes", func(st *State, c *CallCtx) []Outcome {
		ex.zPut(st, c.Args[0], ex.zSetBytes(st, ex.SliceView(st, c.Args[1].(Slice))))
		return ret(st, c.Args[0])
	})
	small := func(st *State, t *Term, signed bool) *Z {
		if t.IsConst() {
			if signed {
				return ZI(t.Signed())
			}
			return ZC(new(big.Int).SetUint64(t.C))
		}
		if signed && st.urange(t).hi >= 1<<63 {
			unsup("SetInt64 of a symbolic signed value")
		}
		u := st.urange(t)
		a := zAtom("u64", fmt.Sprintf("%d", t.ID), new(big.Int).SetUint64(u.lo), new(big.Int).SetUint64(u.hi))
		return zOf(a)
	}
	def("SetInt64", func(st *State, c *CallCtx) []Outcome {
		ex.zPut(st, c.Args[0], small(st, T(c.Args[1]), true))
		return ret(st, c.Args[0])
	})
	def("SetUint64", func(st *State, c *CallCtx) []Outcome {
		ex.zPut(st, c.Args[0], small(st, T(c.Args[1]), false))
		return ret(st, c.Args[0])
	})
	ex.Natives["math/big.NewInt"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		return ret(st, ex.zNew(st, c.Path, small(st, T(c.Args[0]), true)))
	}
	def("SetString", func(st *State, c *CallCtx) []Outcome {
		s, ok := c.Args[1].(Str).Conc()
		if !ok || !T(c.Args[2]).IsConst() {
			unsup("SetString of a symbolic string")
		}
		v, ok := new(big.Int).SetString(s, int(T(c.Args[2]).C))
		if !ok {
			return ret(st, Ptr{}, Const(1, 0))
		}
		ex.zPut(st, c.Args[0], ZC(v))
		return ret(st, c.Args[0], Const(1, 1))
	})
	def("ModInverse", func(st *State, c *CallCtx) []Outcome {
		x, n := ex.zGet(st, c.Args[1]), konst(ex.zGet(st, c.Args[2]), "ModInverse")
		if !n.ProbablyPrime(20) {
			unsup("ModInverse modulo a composite")
		}
		var outs []Outcome
		splitMod(ex, st, x, n, func(st *State, x *Z) {
			_, zero := ex.zSign(st, ex.ZMod(st, x, n))
			fork2(ex, st, zero, func(s *State) { // no inverse: nil, receiver unchanged
				outs = append(outs, Outcome{St: s, Ret: Tuple{Ptr{}}})
			}, func(s *State) {
				ex.zPut(s, c.Args[0], ex.ZInv(s, x, n))
				outs = append(outs, Outcome{St: s, Ret: Tuple{c.Args[0]}})
			})
		})
		return outs
	})
	def("Exp", func(st *State, c *CallCtx) []Outcome {
		x, e, n := ex.zGet(st, c.Args[1]), ex.zGet(st, c.Args[2]), konst(ex.zGet(st, c.Args[3]), "Exp")
		k, ok := e.isConst()
		if !ok || k.Sign() < 0 || n.Sign() <= 0 {
			unsup("Exp with exponent %s", e)
		}
		if cx, ok := x.isConst(); ok {
			ex.zPut(st, c.Args[0], ZC(new(big.Int).Exp(cx, k, n)))
			return ret(st, c.Args[0])
		}
		if n.ProbablyPrime(20) && new(big.Int).Add(k, big.NewInt(2)).Cmp(n) == 0 {
			ex.zPut(st, c.Args[0], ex.ZInv(st, x, n)) // Fermat
			return ret(st, c.Args[0])
		}
		if k.BitLen() <= 6 {
			r := ZI(1)
			f := x.nf(n)
			for i := int64(0); i < k.Int64(); i++ {
				r = zMulMod(r, f, n)
			}
			ex.zPut(st, c.Args[0], ex.ZMod(st, r, n))
			return ret(st, c.Args[0])
		}
		f := x.nf(n)
		a := zAtom("exp", fmt.Sprintf("%d:%s:%s", f.id, k, n), new(big.Int), new(big.Int).Sub(n, big.NewInt(1)))
		a.arg, a.n = f, n
		ex.zPut(st, c.Args[0], zOf(a))
		return ret(st, c.Args[0])
	})
	def("ModSqrt", func(st *State, c *CallCtx) []Outcome {
		x, n := ex.zGet(st, c.Args[1]), konst(ex.zGet(st, c.Args[2]), "ModSqrt")
		r, sq := ex.ZSqrt(st, x, n)
		var outs []Outcome
		fork2(ex, st, sq, func(s *State) {
			ex.zPut(s, c.Args[0], r)
			outs = append(outs, Outcome{St: s, Ret: Tuple{c.Args[0]}})
		}, func(s *State) {
			outs = append(outs, Outcome{St: s, Ret: Tuple{Ptr{}}})
		})
		return outs
	})
	sgn := func(st *State, z *Z) *Term {
		n, zr := ex.zSign(st, z)
		return Ite(n, Const(64, ^uint64(0)), Ite(zr, I64(0), I64(1)))
	}
	def("Sign", func(st *State, c *CallCtx) []Outcome { return ret(st, sgn(st, ex.zGet(st, c.Args[0]))) })
	def("Cmp", func(st *State, c *CallCtx) []Outcome {
		return ret(st, sgn(st, ZSub(ex.zGet(st, c.Args[0]), ex.zGet(st, c.Args[1]))))
	})
	def("Bytes", func(st *State, c *CallCtx) []Outcome {
		z := ex.zGet(st, c.Args[0])
		out := func(st *State, z *Z) []Outcome {
			ps, n := ex.zBytes(st, z)
			if len(ps) == 0 {
				id := ex.Alloc(st, c.Path+".bytes", types.NewArray(types.Typ[types.Uint8], 0), &Agg{})
				return ret(st, Slice{Obj: id, Off: I64(0), Len: I64(0), Cap: I64(0)})
			}
			id := ex.Alloc(st, c.Path+".bytes", types.NewSlice(types.Typ[types.Uint8]), &Rope{P: ps})
			return ret(st, Slice{Obj: id, Off: I64(0), Len: n, Cap: n})
		}
		if a := z.single(); ex.SplitZero && a != nil {
			_, zero := ex.zSign(st, z)
			var outs []Outcome
			fork2(ex, st, zero, func(s *State) { outs = append(outs, out(s, ZI(0))...) }, func(s *State) {
				s.assume(Ule(I64(1), s.zLen(ex, z)))
				outs = append(outs, out(s, z)...)
			})
			return outs
		}
		return out(st, z)
	})
	def("FillBytes", func(st *State, c *CallCtx) []Outcome {
		s := c.Args[1].(Slice)
		z := ex.zGet(st, c.Args[0])
		if !s.Len.IsConst() {
			unsup("FillBytes of symbolic length")
		}
		if a := z.single(); a != nil && a.pt != nil {
			if _, zero := ex.zSign(st, z); st.decide(zero) == 1 {
				z = ZI(0)
			}
		}
		w := int(s.Len.C)
		if r := st.zrange(z); r.lo.Sign() < 0 || r.hi.BitLen() > 8*w {
			unsup("FillBytes may overflow")
		}
		var cs []Value
		for i := 0; i < w; i++ {
			cs = append(cs, ex.zByte(st, z, w, i))
		}
		ex.writeSlice(st, s, s.Len, []Piece{cellsPiece(cs)}, c.Path)
		return ret(st, s)
	})
	def("BitLen", func(st *State, c *CallCtx) []Outcome {
		z := ex.zGet(st, c.Args[0])
		if v, ok := z.isConst(); ok {
			return ret(st, I64(int64(v.BitLen())))
		}
		t := Var(64, fmt.Sprintf("zbits:%d", z.id))
		r := st.zrange(z)
		varRange[t] = urng{uint64(r.lo.BitLen()), uint64(r.hi.BitLen())}
		return ret(st, t)
	})
	def("Bit", func(st *State, c *CallCtx) []Outcome {
		z, i := ex.zGet(st, c.Args[0]), T(c.Args[1])
		if v, ok := z.isConst(); ok && i.IsConst() {
			return ret(st, Const(64, uint64(v.Bit(int(i.C)))))
		}
		if !i.IsConst() || i.C != 0 {
			unsup("Bit(%s) of a symbolic integer", Show(i, 2))
		}
		return ret(st, Zext(ex.zParity(z), 64))
	})
	def("Uint64", func(st *State, c *CallCtx) []Outcome {
		z := ex.zGet(st, c.Args[0])
		if v, ok := z.isConst(); ok {
			return ret(st, Const(64, v.Uint64()))
		}
		unsup("Uint64 of %s", z)
		return nil
	})
	def("Int64", ex.Natives64(def))
	def("Bits", func(st *State, c *CallCtx) []Outcome {
		v, ok := ex.zGet(st, c.Args[0]).isConst()
		if !ok {
			unsup("Bits of a symbolic integer")
		}
		var cs []Value
		for _, w := range v.Bits() {
			cs = append(cs, Const(64, uint64(w)))
		}
		n := I64(int64(len(cs)))
		id := ex.Alloc(st, c.Path+".bits", types.NewArray(types.Typ[types.Uint], int64(len(cs))), &Agg{E: cs})
		return ret(st, Slice{Obj: id, Off: I64(0), Len: n, Cap: n})
	})
	def("IsInt64", func(st *State, c *CallCtx) []Outcome {
		z := ex.zGet(st, c.Args[0])
		if v, ok := z.isConst(); ok {
			return ret(st, Bool(v.IsInt64()))
		}
		unsup("IsInt64 of %s", z)
		return nil
	})
}

func (ex *Exec) Natives64(_ interface{}) func(st *State, c *CallCtx) []Outcome {
	return func(st *State, c *CallCtx) []Outcome {
		z := ex.zGet(st, c.Args[0])
		if v, ok := z.isConst(); ok {
			return ret(st, Const(64, uint64(v.Int64())))
		}
		unsup("Int64 of %s", z)
		return nil
	}
}

// zParity is the least significant bit.
func (ex *Exec) zParity(z *Z) *Term {
	p := False()
	for _, m := range z.m {
		if m.c.Bit(0) == 0 {
			continue
		}
		b := True()
		for _, a := range m.a {
			if a.kind == "be" {
				// the last byte of the string
				q := a.rope[len(a.rope)-1]
				if t, ok := pieceAt(q, Sub(q.Len, I64(1))).(*Term); ok && (q.Len.IsConst() || q.Cells == nil) {
					b = And(b, Extract(t, 0, 1))
					continue
				}
			}
			b = And(b, UF(1, fmt.Sprintf("parity:%d", a.id)))
		}
		p = Xor(p, b)
	}
	return p
}

// ZSqrt: a square root of x modulo the prime n, and the condition that one exists.
func (ex *Exec) ZSqrt(st *State, x *Z, n *big.Int) (*Z, *Term) {
	f := x.nf(n)
	if c, ok := f.isConst(); ok {
		r := new(big.Int).ModSqrt(c, n)
		if r == nil {
			return ZI(0), False()
		}
		return ZC(r), True()
	}
	lo := new(big.Int)
	if c := curveRHS(f, n); c != nil {
		lo = big.NewInt(1) // no finite point has y = 0: the group order is odd
	}
	a := zAtom("sqrt", fmt.Sprintf("%d:%s", f.id, n), lo, new(big.Int).Sub(n, big.NewInt(1)))
	a.arg, a.n = f, n
	return zOf(a), UF(1, fmt.Sprintf("issquare:%d:%s", f.id, n))
}

// fork2 runs t where c holds and f where it does not.
func fork2(ex *Exec, st *State, c *Term, t, f func(s *State)) {
	switch st.decide(c) {
	case 1:
		t(st)
		return
	case 0:
		f(st)
		return
	}
	ft, ff := ex.feasible(st, c), ex.feasible(st, Not(c))
	s2 := st
	if ft && ff {
		s2 = st.clone()
	}
	if ft {
		st.assume(c)
		t(st)
	}
	if ff {
		s2.assume(Not(c))
		f(s2)
	}
}

// splitMod distinguishes whether an integer read from a byte string of the modulus's width is below the modulus.
func splitMod(ex *Exec, st *State, x *Z, n *big.Int, f func(st *State, x *Z)) {
	if a := x.single(); a != nil && a.kind == "be" {
		if r := st.zrange(x); r.lo.Sign() >= 0 && r.hi.Cmp(n) >= 0 && r.hi.BitLen() <= n.BitLen() && new(big.Int).Rsh(r.hi, 1).Cmp(n) < 0 {
			neg, _ := ex.zSign(st, ZSub(x, ZC(n)))
			fork2(ex, st, neg, func(s *State) { f(s, x) }, func(s *State) { f(s, ZSub(x, ZC(n))) })
			return
		}
	}
	f(st, x)
}

// curveRHS: f is x^3 + ax + b of one of the curves for some integer x.
func curveRHS(f *Z, n *big.Int) *ECurve {
	for _, c := range ecs {
		if c.P.Cmp(n) != 0 {
			continue
		}
		for _, m := range f.m {
			if len(m.a) == 3 && m.a[0] == m.a[1] && m.a[1] == m.a[2] {
				x := zOf(m.a[0])
				if f == ZAdd(ZMul(x, ZMul(x, x)), ZAdd(ZScale(x, c.A), ZC(c.B))).nf(n) {
					return c
				}
			}
		}
	}
	return nil
}
