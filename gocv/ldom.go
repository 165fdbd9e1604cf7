package main

import (
	"fmt"
	"go/types"
	"maps"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- exact integer reasoning about machine words ----
//
// A bit-vector term is translated into an integer polynomial over atoms: the input words and quotients
// floor(R/2^k) of polynomials, together with bounds. Translation is exact: where the machine operation
// could wrap, an explicit quotient for the wrap appears, so no machine arithmetic is taken as mathematical.

type latom struct {
	id     int
	name   string
	lo, hi *big.Int
	R      *LP // floor(R / 2^k)
	k      int
	bool   bool
}
type lmon struct {
	a []int
	c *big.Int
}
type LP struct {
	m map[string]*lmon
}

// LDom is one translation context (one function call).
type LDom struct {
	atoms                  []*latom
	byKey                  map[string]*latom
	vars                   map[*Term]*LP
	memo                   map[*Term]*LP
	memoU                  map[*Term]*LP
	sel                    map[*Term]bool // conditions decided in the current case
	facts                  []lfact
	elim                   []lelim
	conds                  []*Term // undecided conditions met
	asm                    bool    // carry chains that restart on sums of other chains
	noMerge, tryDeep, deep bool    // combine facts through any of their variables
	lim                    int     // polynomials with more monomials are given a name
	names                  []lelim
	lets                   *letTab
}
type lelim struct { // atom a equals p
	a int
	p *LP
}
type lfact struct {
	p      *LP
	lo, hi *big.Int
}

func NewLDom() *LDom {
	return &LDom{byKey: map[string]*latom{}, vars: map[*Term]*LP{}, memo: map[*Term]*LP{}, memoU: map[*Term]*LP{}, sel: map[*Term]bool{}}
}

func lkey(a []int) string {
	b := make([]byte, 0, 4*len(a))
	for _, x := range a {
		b = append(b, byte(x>>16), byte(x>>8), byte(x))
	}
	return string(b)
}
func LC(v *big.Int) *LP {
	p := &LP{m: map[string]*lmon{}}
	if v.Sign() != 0 {
		p.m[""] = &lmon{nil, new(big.Int).Set(v)}
	}
	return p
}
func LI(v int64) *LP { return LC(big.NewInt(v)) }
func (p *LP) addMul(q *LP, k *big.Int) {
	for s, m := range q.m {
		e := p.m[s]
		if e == nil {
			e = &lmon{m.a, new(big.Int)}
			p.m[s] = e
		}
		e.c.Add(e.c, new(big.Int).Mul(m.c, k))
		if e.c.Sign() == 0 {
			delete(p.m, s)
		}
	}
}
func (p *LP) clone() *LP { r := LI(0); r.addMul(p, big1); return r }

var big1 = big.NewInt(1)

func LAdd(p, q *LP) *LP { r := p.clone(); r.addMul(q, big1); return r }
func LSub(p, q *LP) *LP { r := p.clone(); r.addMul(q, big.NewInt(-1)); return r }
func LScale(p *LP, k *big.Int) *LP {
	r := LI(0)
	r.addMul(p, k)
	return r
}
func LMul(p, q *LP) *LP {
	r := LI(0)
	for _, x := range p.m {
		for _, y := range q.m {
			a := append(append(make([]int, 0, len(x.a)+len(y.a)), x.a...), y.a...)
			sort.Ints(a)
			k := lkey(a)
			e := r.m[k]
			if e == nil {
				e = &lmon{a, new(big.Int)}
				r.m[k] = e
			}
			e.c.Add(e.c, new(big.Int).Mul(x.c, y.c))
			if e.c.Sign() == 0 {
				delete(r.m, k)
			}
		}
	}
	return r
}
func (p *LP) isConst() (*big.Int, bool) {
	if len(p.m) == 0 {
		return new(big.Int), true
	}
	if len(p.m) == 1 {
		if m := p.m[""]; m != nil {
			return m.c, true
		}
	}
	return nil, false
}
func (p *LP) keys() []string {
	ks := make([]string, 0, len(p.m))
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
func (p *LP) key() string {
	var b strings.Builder
	for _, k := range p.keys() {
		fmt.Fprintf(&b, "%x*%s+", k, p.m[k].c)
	}
	return b.String()
}
func (d *LDom) show(p *LP) string {
	var s []string
	for _, k := range p.keys() {
		m := p.m[k]
		t := m.c.String()
		for _, a := range m.a {
			t += "*" + d.atoms[a].name
		}
		s = append(s, t)
		if len(s) > 12 {
			s = append(s, "...")
			break
		}
	}
	return strings.Join(s, " + ")
}
func (d *LDom) atom(name string, lo, hi *big.Int) *latom {
	a := &latom{id: len(d.atoms), name: name, lo: lo, hi: hi}
	d.atoms = append(d.atoms, a)
	return a
}
func (d *LDom) poly(a *latom) *LP {
	return &LP{m: map[string]*lmon{lkey([]int{a.id}): {[]int{a.id}, big.NewInt(1)}}}
}

// Bind declares an input word with bounds.
func (d *LDom) Bind(t *Term, name string, lo, hi *big.Int) *LP {
	p := d.poly(d.atom(name, lo, hi))
	d.vars[t] = p
	return p
}

// BindTo declares that an input word equals a polynomial.
func (d *LDom) BindTo(t *Term, p *LP) { d.vars[t] = p }

func p2(k int) *big.Int { return new(big.Int).Lsh(big1, uint(k)) }

func fdiv(a, b *big.Int) *big.Int { // floor division, b > 0
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m)
	return q
}

// rng bounds p by interval arithmetic, using the defining inequality of quotients and the facts of the case.
func (d *LDom) rng(p *LP) (lo, hi *big.Int) {
	r := &lrat{den: big.NewInt(1), p: p}
	l, h := d.rngRat(r, 0)
	// integer-valued: round inwards
	lo = new(big.Int).Neg(fdiv(new(big.Int).Neg(l.Num()), l.Denom()))
	hi = fdiv(h.Num(), h.Denom())
	return
}

type lrat struct { // p / den
	den *big.Int
	p   *LP
}

func (d *LDom) naive(r *lrat) (*big.Rat, *big.Rat) {
	lo, hi := new(big.Int), new(big.Int)
	for _, m := range r.p.m {
		a, b := big1, big1
		for i := 0; i < len(m.a); {
			j := i
			for j < len(m.a) && m.a[j] == m.a[i] {
				j++
			}
			x := d.atoms[m.a[i]]
			l, h := x.lo, x.hi
			for k := i; k < j; k++ {
				c := []*big.Int{new(big.Int).Mul(a, l), new(big.Int).Mul(a, h), new(big.Int).Mul(b, l), new(big.Int).Mul(b, h)}
				a, b = c[0], c[0]
				for _, v := range c {
					if v.Cmp(a) < 0 {
						a = v
					}
					if v.Cmp(b) > 0 {
						b = v
					}
				}
			}
			if (j-i)%2 == 0 && i == 0 && j == len(m.a) && a.Sign() < 0 {
				a = new(big.Int)
			}
			i = j
		}
		x, y := new(big.Int).Mul(m.c, a), new(big.Int).Mul(m.c, b)
		if x.Cmp(y) > 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	return new(big.Rat).SetFrac(lo, r.den), new(big.Rat).SetFrac(hi, r.den)
}

func (d *LDom) rngRat(r *lrat, depth int) (*big.Rat, *big.Rat) {
	lo, hi := d.naive(r)
	if depth > 40 {
		return lo, hi
	}
	improve := func(l, h *big.Rat) {
		if l.Cmp(lo) > 0 {
			lo = l
		}
		if h.Cmp(hi) < 0 {
			hi = h
		}
	}
	// the most recent quotient occurring linearly
	var best *latom
	for _, m := range r.p.m {
		if len(m.a) == 1 {
			x := d.atoms[m.a[0]]
			if x.R != nil && (best == nil || x.id > best.id) {
				best = x
			}
		}
	}
	if best != nil {
		c := r.p.m[lkey([]int{best.id})].c
		// c*q = (c/2^k) (R - rho), rho in [0, 2^k-1]
		n := LScale(r.p, p2(best.k))
		n.addMul(d.poly(best), new(big.Int).Neg(new(big.Int).Mul(c, p2(best.k))))
		n.addMul(best.R, c)
		g := new(big.Int).Mul(r.den, p2(best.k))
		// reduce the common power of two
		z := -1
		for _, m := range n.m {
			t := int(m.c.TrailingZeroBits())
			if z < 0 || t < z {
				z = t
			}
		}
		if t := int(g.TrailingZeroBits()); z < 0 || t < z {
			z = t
		}
		if z > 0 {
			for _, m := range n.m {
				m.c.Rsh(m.c, uint(z))
			}
			g.Rsh(g, uint(z))
		}
		if len(n.m) <= len(r.p.m)+400 {
			l, h := d.rngRat(&lrat{g, n}, depth+1)
			e := new(big.Rat).SetFrac(new(big.Int).Mul(c, new(big.Int).Sub(p2(best.k), big1)), new(big.Int).Mul(r.den, p2(best.k)))
			l, h = new(big.Rat).Set(l), new(big.Rat).Set(h)
			if c.Sign() > 0 {
				l.Sub(l, e)
			} else {
				h.Sub(h, e)
			}
			improve(l, h)
		}
	}
	if best == nil && len(d.elim) > 0 {
		n := d.eliminate(r.p)
		if len(n.m) < len(r.p.m) {
			improve(d.naive(&lrat{r.den, n}))
		}
	}
	for _, f := range d.facts {
		// cancel the leading monomial of the fact
		var mk string
		for _, k := range f.p.keys() {
			if k != "" && (mk == "" || f.p.m[k].c.CmpAbs(f.p.m[mk].c) > 0) {
				mk = k
			}
		}
		if mk != "" && r.p.m[mk] == nil {
			mk = ""
			if !d.deep {
				continue
			}
			for _, k := range f.p.keys() {
				if k != "" && r.p.m[k] != nil && f.p.m[k].c.CmpAbs(big1) == 0 {
					mk = k
					break
				}
			}
		}
		if mk == "" {
			continue
		}
		u := new(big.Rat).SetFrac(r.p.m[mk].c, new(big.Int).Mul(r.den, f.p.m[mk].c))
		// r - u f
		n := LScale(r.p, f.p.m[mk].c)
		n.addMul(f.p, new(big.Int).Neg(r.p.m[mk].c))
		g := new(big.Int).Mul(r.den, f.p.m[mk].c)
		if g.Sign() < 0 {
			g.Neg(g)
			n = LScale(n, big.NewInt(-1))
		}
		l, h := d.naive(&lrat{g, n})
		if depth < 3 {
			l, h = d.rngRat(&lrat{g, n}, depth+20)
		}
		a, b := new(big.Rat).SetInt(f.lo), new(big.Rat).SetInt(f.hi)
		a.Mul(a, u)
		b.Mul(b, u)
		if a.Cmp(b) > 0 {
			a, b = b, a
		}
		improve(new(big.Rat).Add(l, a), new(big.Rat).Add(h, b))
	}
	return lo, hi
}

// eliminate replaces the eliminated atoms by their definitions.
func (d *LDom) eliminate(p *LP) *LP {
	for _, e := range d.elim {
		n := LI(0)
		for _, m := range p.m {
			c := 0
			var rest []int
			for _, x := range m.a {
				if x == e.a {
					c++
				} else {
					rest = append(rest, x)
				}
			}
			t := &LP{m: map[string]*lmon{lkey(rest): {rest, m.c}}}
			for ; c > 0; c-- {
				t = LMul(t, e.p)
			}
			n.addMul(t, big1)
		}
		p = n
	}
	return p
}

// Number introduces an input number in [0, max] spread over words of w bits, least significant first.
func (d *LDom) Number(name string, ts []*Term, w int, max *big.Int) *LP {
	A := d.poly(d.atom(name, new(big.Int), max))
	sum := LI(0)
	var first *latom
	rest := A.clone()
	for i, t := range ts {
		hi := new(big.Int).Sub(p2(w), big1)
		if i == len(ts)-1 {
			if m := new(big.Int).Rsh(max, uint(w*i)); m.Cmp(hi) < 0 {
				hi = m
			}
		}
		a := d.atom(fmt.Sprintf("%s%d", name, i), new(big.Int), hi)
		d.vars[t] = d.poly(a)
		sum.addMul(d.poly(a), p2(w*i))
		if i == 0 {
			first = a
		} else {
			rest.addMul(d.poly(a), new(big.Int).Neg(p2(w*i)))
		}
	}
	d.elim = append(d.elim, lelim{first.id, rest})
	return sum
}

// Sum is the number spread over words of w bits.
func (d *LDom) Sum(ts []*Term, w int) *LP {
	r := LI(0)
	for i, t := range ts {
		r.addMul(d.unsignedOf(t), p2(w*i))
	}
	return r
}

// floor returns floor(p / 2^k).
func (d *LDom) floor(p *LP, k int) *LP { return d.floorIn(p, k, true) }

func (d *LDom) floorIn(p *LP, k int, merge bool) *LP {
	if k == 0 {
		return p
	}
	M := p2(k)
	A, R := LI(0), LI(0)
	for s, m := range p.m {
		q, r := new(big.Int).DivMod(m.c, M, new(big.Int))
		if s != "" && r.Sign() != 0 && d.tryDeep { // the representative nearest to zero
			if h := new(big.Int).Sub(r, M); r.CmpAbs(h) > 0 {
				q, r = q.Add(q, big1), h
			}
			R.m[s] = &lmon{m.a, r}
			if q.Sign() != 0 {
				A.m[s] = &lmon{m.a, q}
			}
			continue
		}
		if s != "" && r.Sign() != 0 {
			R.m[s] = &lmon{m.a, m.c}
			continue
		}
		if q.Sign() != 0 {
			A.m[s] = &lmon{m.a, q}
		}
		if r.Sign() != 0 {
			R.m[s] = &lmon{m.a, r}
		}
	}
	if len(R.m) == 0 {
		return A
	}
	if d.lets != nil {
		// floor((2^z N + B) / 2^k) = floor(N / 2^(k-z)) for B in [0, 2^z)
		for z := 1; z < k; z++ {
			N, B := LI(0), LI(0)
			hit := false
			for s, m := range R.m {
				if int(m.c.TrailingZeroBits()) >= z {
					N.m[s] = &lmon{m.a, new(big.Int).Rsh(m.c, uint(z))}
					hit = hit || int(m.c.TrailingZeroBits()) == z
				} else {
					B.m[s] = m
				}
			}
			if !hit {
				continue
			}
			if lo, hi := d.rng(B); lo.Sign() >= 0 && hi.Cmp(p2(z)) < 0 {
				return LAdd(A, d.floorIn(N, k-z, merge))
			}
		}
	}
	if merge && !d.noMerge {
		// floor((N + floor(S/2^a)) / 2^k) = floor((2^a N + S) / 2^(a+k)) for the only quotient of the sum
		var fa *latom
		n := 0
		for _, m := range R.m {
			for _, x := range m.a {
				if d.atoms[x].R != nil {
					n++
					if len(m.a) == 1 && m.c.Cmp(big1) == 0 {
						fa = d.atoms[x]
					}
				}
			}
		}
		if n == 1 && fa != nil {
			N := R.clone()
			delete(N.m, lkey([]int{fa.id}))
			N = LScale(N, p2(fa.k))
			N.addMul(fa.R, big1)
			return LAdd(A, d.floorIn(N, fa.k+k, true))
		}
	}
	lo, hi := d.rng(R)
	l, h := fdiv(lo, M), fdiv(hi, M)
	if l.Cmp(h) == 0 {
		return LAdd(A, LC(l))
	}
	key := fmt.Sprintf("%d:%s", k, R.key())
	a := d.byKey[key]
	if a == nil {
		a = d.atom(fmt.Sprintf("q%d", len(d.atoms)), l, h)
		a.R, a.k = R, k
		d.byKey[key] = a
	}
	return LAdd(A, d.poly(a))
}

// low returns p mod 2^k.
func (d *LDom) low(p *LP, k int) *LP {
	r := LI(0)
	M := p2(k)
	for s, m := range p.m {
		c := new(big.Int).Mod(m.c, M)
		if c.Sign() != 0 {
			// keep small negative coefficients
			if h := new(big.Int).Sub(M, c); h.Cmp(c) < 0 && m.c.Sign() < 0 {
				c = h.Neg(h)
			}
			r.m[s] = &lmon{m.a, c}
		}
	}
	if len(r.m) == 0 {
		return r
	}
	if lo, hi := d.rng(p); lo.Sign() >= 0 && hi.Cmp(M) < 0 {
		return p
	}
	if d.tryDeep { // the quotient that a shift of the same value has
		return LSub(p, LScale(d.floor(p, k), M))
	}
	return LSub(r, LScale(d.floor(r, k), M))
}

func (d *LDom) unsignedOf(t *Term) *LP {
	if !d.tryDeep {
		return d.unsigned1(t)
	}
	if p := d.memoU[t]; p != nil {
		return p
	}
	p := d.unsigned1(t)
	d.memoU[t] = p
	return p
}
func (d *LDom) unsigned1(t *Term) *LP {
	if d.tryDeep && t.Op == OExtract && d.lets == nil {
		if a := t.Args[0]; t.Lo > 0 && t.Lo+t.W == a.W {
			return d.floor(d.unsignedOf(a), t.Lo)
		}
		return d.T(t) // a residue
	}
	p := d.T(t)
	if t.Op == OUF && isWordUF(t.Name) {
		return p
	}
	if lo, hi := d.rng(p); lo.Sign() >= 0 && hi.Cmp(p2(t.W)) < 0 {
		return p
	}
	if d.tryDeep {
		d.deep = true
		lo, hi := d.rng(p)
		d.deep = false
		if lo.Sign() >= 0 && hi.Cmp(p2(t.W)) < 0 {
			return p
		}
	}
	return d.low(p, t.W)
}
func (d *LDom) signedOf(t *Term) *LP {
	p := d.T(t)
	h := p2(t.W - 1)
	if lo, hi := d.rng(p); lo.Cmp(new(big.Int).Neg(h)) >= 0 && hi.Cmp(h) < 0 {
		return p
	}
	return LSub(d.low(LAdd(p, LC(h)), t.W), LC(h))
}

// name introduces an atom-free copy when the polynomial is already simple.
func (d *LDom) T(t *Term) *LP {
	if p := d.memo[t]; p != nil {
		return p
	}
	p := d.tr(t)
	d.memo[t] = p
	return p
}

// nameIt gives a long polynomial a name.
func (d *LDom) nameIt(p *LP) *LP {
	if d.lim > 0 && len(p.m) > d.lim {
		lo, hi := d.rng(p)
		a := d.atom(fmt.Sprintf("w%d", len(d.atoms)), lo, hi)
		d.names = append(d.names, lelim{a.id, p})
		p = d.poly(a)
	}
	return p
}

// expand replaces names by what they stand for.
func (d *LDom) expand(p *LP) *LP {
	for i := len(d.names) - 1; i >= 0; i-- {
		p = substAtom(p, d.names[i].a, d.names[i].p)
	}
	return p
}

func substAtom(p *LP, a int, q *LP) *LP {
	hit := false
	for _, m := range p.m {
		for _, x := range m.a {
			hit = hit || x == a
		}
	}
	if !hit {
		return p
	}
	n := LI(0)
	for _, m := range p.m {
		c := 0
		var rest []int
		for _, x := range m.a {
			if x == a {
				c++
			} else {
				rest = append(rest, x)
			}
		}
		t := &LP{m: map[string]*lmon{lkey(rest): {rest, m.c}}}
		for ; c > 0; c-- {
			t = LMul(t, q)
		}
		n.addMul(t, big1)
	}
	return n
}

// unify replaces quotients that are provably equal to an earlier one (up to a constant).
func (d *LDom) unify(p *LP) *LP {
	for {
		var qs []*latom
		seen := map[int]bool{}
		for _, m := range p.m {
			for _, x := range m.a {
				if a := d.atoms[x]; a.R != nil && !seen[x] {
					seen[x] = true
					qs = append(qs, a)
				}
			}
		}
		sort.Slice(qs, func(i, j int) bool { return qs[i].id > qs[j].id })
		ch := false
		for i := 0; i < len(qs) && !ch; i++ {
			for j := i + 1; j < len(qs); j++ {
				lo, hi := d.rng(LSub(d.poly(qs[i]), d.poly(qs[j])))
				if lo.Cmp(hi) == 0 {
					p = substAtom(p, qs[i].id, LAdd(d.poly(qs[j]), LC(lo)))
					ch = true
					break
				}
			}
		}
		if !ch {
			return p
		}
	}
}

func (d *LDom) cond(c *Term) (bool, bool) {
	if c.IsTrue() {
		return true, true
	}
	if c.IsFalse() {
		return false, true
	}
	if v, ok := d.sel[c]; ok {
		return v, true
	}
	if v, ok := d.sel[Not(c)]; ok {
		return !v, true
	}
	if c.Op == OAnd || c.Op == OOr {
		all := true
		for _, a := range c.Args {
			v, ok := d.cond(a)
			if ok && v == (c.Op == OOr) {
				return v, true
			}
			all = all && ok
		}
		return c.Op == OAnd, all
	}
	if c.Op == OXor && len(c.Args) == 1 && c.C == 1 {
		v, ok := d.cond(c.Args[0])
		return !v, ok
	}
	return false, false
}

// leaf is the first undecided condition of a combination.
func (d *LDom) leaf(c *Term) *Term {
	if c.Op == OAnd || c.Op == OOr || c.Op == OXor && len(c.Args) == 1 && c.C == 1 {
		for _, a := range c.Args {
			if _, ok := d.cond(a); !ok {
				return d.leaf(a)
			}
		}
	}
	return c
}

// tr returns a polynomial congruent to t modulo 2^W.
func (d *LDom) tr(t *Term) *LP {
	if p := d.vars[t]; p != nil {
		return p
	}
	if t.W == 1 {
		if v, ok := d.cond(t); ok {
			if v {
				return LI(1)
			}
			return LI(0)
		}
	}
	if d.lets != nil {
		if def := d.lets.def[t]; def != nil {
			return d.nameIt(d.signedOf(def))
		}
	}
	switch t.Op {
	case OConst:
		if t.W > 1 && t.C>>(uint(t.W)-1) == 1 && t.C > mask(t.W)-(1<<20) {
			return LI(signed64(t))
		}
		return LC(new(big.Int).SetUint64(t.C))
	case OLin:
		r := LC(new(big.Int).SetUint64(t.C))
		if s := int64(signExt(t.C, t.W)); s < 0 {
			r = LI(s)
		}
		for i, a := range t.Args {
			k := int64(signExt(t.Coef[i], t.W))
			if d.lets != nil && a.Op == OConcat && a.Args[0].IsConst() && a.Args[0].C == 0 && a.Args[0].W <= trailz(t.Coef[i]) {
				a = Concat(a.Args[1:]...) // the bits above are shifted out
			}
			r.addMul(d.T(a), big.NewInt(k))
		}
		return r
	case OMul:
		return LMul(d.T(t.Args[0]), d.T(t.Args[1]))
	case OMulHi:
		return d.floorIn(LMul(d.unsignedOf(t.Args[0]), d.unsignedOf(t.Args[1])), t.W, false)
	case OAddC, OSubB:
		x, y, z := d.unsignedOf(t.Args[0]), d.unsignedOf(t.Args[1]), d.unsignedOf(t.Args[2])
		if t.Op == OSubB {
			return LScale(d.chain(LSub(x, y), z, -1), big.NewInt(-1))
		}
		return d.chain(LAdd(x, y), z, 1)
	case OConcat:
		r := LI(0)
		sh := t.W
		for i, a := range t.Args {
			sh -= a.W
			if i == 0 && d.lets != nil { // only its residue counts
				r.addMul(d.T(a), p2(sh))
				continue
			}
			r.addMul(d.unsignedOf(a), p2(sh))
		}
		if d.lets != nil && len(r.m) > 1 && t.W == 64 {
			lim := d.lim
			d.lim = 1
			r = d.nameIt(r)
			if dbgL {
				fmt.Println("named concat", d.show(r), Show(t, 5), d.show(d.names[len(d.names)-1].p))
			}
			d.lim = lim
			return r
		}
		return r
	case OExtract:
		a := t.Args[0]
		if t.Lo == 0 {
			if d.lets != nil {
				return d.T(a)
			}
			return d.low(d.T(a), t.W)
		}
		if t.Lo+t.W == a.W {
			// quotient of the value read as unsigned, or signed when that is how it is bounded
			p := d.T(a)
			if lo, hi := d.rng(p); lo.Sign() < 0 && lo.Cmp(new(big.Int).Neg(p2(a.W-1))) >= 0 && hi.Cmp(p2(a.W-1)) < 0 {
				return d.floor(p, t.Lo)
			}
			return d.floor(d.unsignedOf(a), t.Lo)
		}
		return d.low(d.floor(d.T(a), t.Lo), t.W)
	case OSext:
		return d.signedOf(t.Args[0])
	case OIte:
		if v, ok := d.cond(t.Args[0]); ok {
			if v {
				return d.T(t.Args[1])
			}
			return d.T(t.Args[2])
		}
		d.conds = append(d.conds, t.Args[0])
		panic(needCase{t.Args[0]})
	case OAnd:
		// mask of low or high bits by a constant
		if len(t.Args) == 2 && t.Args[1].IsConst() || len(t.Args) == 2 && t.Args[0].IsConst() {
			x, c := t.Args[0], t.Args[1]
			if x.IsConst() {
				x, c = c, x
			}
			v := c.C
			if v != 0 && v&(v+1) == 0 {
				return d.low(d.T(x), bitlen(v))
			}
			if tz := trailz(v); v>>uint(tz)&(v>>uint(tz)+1) == 0 {
				return LScale(d.low(d.floor(d.T(x), tz), bitlen(v)-tz), p2(tz))
			}
		}
		if t.W > 1 {
			if r := d.constAnd(t); r != nil {
				return r
			}
		}
	case OUF:
		switch t.Name {
		case "ladd":
			x, y, z := d.unsignedOf(t.Args[0]), d.unsignedOf(t.Args[1]), d.unsignedOf(t.Args[2])
			r := LAdd(LAdd(x, y), z)
			r.addMul(d.chain(LAdd(x, y), z, 1), new(big.Int).Neg(p2(64)))
			return r
		case "lsub":
			x, y, z := d.unsignedOf(t.Args[0]), d.unsignedOf(t.Args[1]), d.unsignedOf(t.Args[2])
			r := LSub(LSub(x, y), z)
			r.addMul(d.chain(LSub(x, y), z, -1), new(big.Int).Neg(p2(64)))
			return r
		case "lmul":
			p := LMul(d.unsignedOf(t.Args[0]), d.unsignedOf(t.Args[1]))
			r := p.clone()
			r.addMul(d.floorIn(p, 64, false), new(big.Int).Neg(p2(64)))
			return r
		}
	case OOr:
		// disjoint bit ranges
		r := LI(0)
		var ps []*LP
		for _, a := range t.Args {
			if a.Op == OConst && a.C == 0 {
				continue
			}
			ps = append(ps, d.unsignedOf(a))
		}
		ok := len(ps) > 0 && t.W > 1
		for i, p := range ps {
			for j, q := range ps {
				if i < j && !d.disjoint(p, q) && !d.disjoint(q, p) {
					ok = false
				}
			}
			r.addMul(p, big1)
		}
		if ok {
			return r
		}
		if dbgL {
			for _, p := range ps {
				lo, hi := d.rng(p)
				fmt.Println("or operand", d.show(p), "in", lo, hi)
			}
			d.dump()
		}
	case OXor:
	}
	if t.W == 1 {
		panic(needCase{t})
	}
	// bitwise operation: unknown word of known width
	if dbgL {
		d.dump()
	}
	unsup("integer translation of %s", Show(t, 6))
	return nil
}

// disjoint reports that p is a multiple of a power of two above every value of q.
func (d *LDom) disjoint(p, q *LP) bool {
	z := 64
	for _, m := range p.m {
		if t := int(m.c.TrailingZeroBits()); t < z {
			z = t
		}
	}
	lo, hi := d.rng(q)
	return lo.Sign() >= 0 && hi.Cmp(p2(z)) < 0
}

type needCase struct{ c *Term }

func signed64(t *Term) int64 { return int64(signExt(t.C, t.W)) }
func bitlen(v uint64) int {
	n := 0
	for ; v != 0; v >>= 1 {
		n++
	}
	return n
}
func trailz(v uint64) int {
	n := 0
	for v != 0 && v&1 == 0 {
		v >>= 1
		n++
	}
	return n
}

// chain is floor((x + sgn*z)/2^64) where z is a carry or borrow of the same chain.
func (d *LDom) chain(x, z *LP, sgn int64) *LP {
	r := x.clone()
	r.addMul(z, big.NewInt(sgn))
	if a := d.lead(z, sgn); a != nil {
		N := r.clone()
		N.addMul(d.poly(a), big.NewInt(-1))
		N = LScale(N, p2(a.k))
		N.addMul(a.R, big1)
		return d.floorIn(N, a.k+64, false)
	}
	return d.floorIn(r, 64, d.asm)
}

// lead is the most recent quotient occurring in p linearly with coefficient c (any of 1, -1 when c is 0).
func (d *LDom) lead(p *LP, c int64) *latom {
	var a *latom
	for _, m := range p.m {
		if len(m.a) == 1 && (c == 0 && m.c.CmpAbs(big1) == 0 || c != 0 && m.c.Cmp(big.NewInt(c)) == 0) {
			if x := d.atoms[m.a[0]]; x.R != nil && (a == nil || x.id > a.id) {
				a = x
			}
		}
	}
	return a
}

// Cases runs f for every feasible assignment of the branch conditions it meets.
func (d *LDom) Cases(f func()) {
	n := 0
	var rec func()
	rec = func() {
		n++
		if n > 4096 {
			unsup("too many cases")
		}
		if !d.tryDeep {
			d.memo = map[*Term]*LP{}
		}
		var need *Term
		func() {
			defer func() {
				if r := recover(); r != nil {
					if c, ok := r.(needCase); ok {
						need = c.c
						return
					}
					panic(r)
				}
			}()
			f()
		}()
		if need != nil {
			need = d.leaf(need)
		}
		// conditions inside a condition are decided first
		for again := need != nil; again; {
			again = false
			func() {
				defer func() {
					if r := recover(); r != nil {
						c, ok := r.(needCase)
						if !ok {
							panic(r)
						}
						l := d.leaf(c.c)
						again = l != need
						need = l
					}
				}()
				d.operands(need)
			}()
		}
		if need == nil {
			return
		}
		// what is introduced in a case (with bounds that hold there) does not outlive it
		nf, na, nn := len(d.facts), len(d.atoms), len(d.names)
		keys, m0, m1 := d.byKey, d.memo, d.memoU
		reset := func() {
			d.memo = map[*Term]*LP{}
			if d.tryDeep { // what was translated so far needs no more cases
				d.memo, d.memoU = maps.Clone(m0), maps.Clone(m1)
			}
			d.facts, d.atoms, d.names = d.facts[:nf], d.atoms[:na], d.names[:nn]
			d.byKey = map[string]*latom{}
			for k, a := range keys {
				d.byKey[k] = a
			}
		}
		for _, v := range []bool{false, true} {
			reset()
			if d.learn(need, v) {
				d.sel[need] = v
				rec()
			}
			delete(d.sel, need)
		}
		reset()
	}
	rec()
}

func (d *LDom) fact(p *LP, lo, hi *big.Int) bool {
	l, h := d.rng(p)
	if lo == nil {
		lo = l
	}
	if hi == nil {
		hi = h
	}
	if l.Cmp(hi) > 0 || h.Cmp(lo) < 0 {
		return false
	}
	d.facts = append(d.facts, lfact{p, lo, hi})
	// a bounded quotient bounds its numerator
	if a := d.lead(p, 0); a != nil {
		c := p.m[lkey([]int{a.id})].c
		A := p.clone()
		A.addMul(d.poly(a), new(big.Int).Neg(c))
		N := a.R.clone()
		N.addMul(A, new(big.Int).Mul(c, p2(a.k)))
		l, h := lo, hi
		if c.Sign() < 0 {
			l, h = new(big.Int).Neg(hi), new(big.Int).Neg(lo)
		}
		l, h = new(big.Int).Mul(l, p2(a.k)), new(big.Int).Mul(h, p2(a.k))
		return d.fact(N, l, h.Add(h, new(big.Int).Sub(p2(a.k), big1)))
	}
	return true
}

// word-level results of the multi-precision primitives, kept apart so that carries keep one normal form
func isWordUF(n string) bool { return n == "ladd" || n == "lsub" || n == "lmul" }
func lAddW(x, y, c *Term) *Term {
	if x.IsConst() && y.IsConst() && c.IsConst() {
		return Add(Add(x, y), Zext(c, 64))
	}
	if c.W == 64 && (c.IsConst() || boolOf(c) != nil) {
		c = Extract(c, 0, 1)
	}
	return UF(64, "ladd", x, y, c)
}
func lSubW(x, y, c *Term) *Term {
	if x.IsConst() && y.IsConst() && c.IsConst() {
		return Sub(Sub(x, y), Zext(c, 64))
	}
	return UF(64, "lsub", x, y, c)
}
func lMulW(x, y *Term) *Term {
	if x.IsConst() || y.IsConst() {
		if x.IsConst() && x.C <= 1 || y.IsConst() && y.C <= 1 || x.IsConst() && y.IsConst() {
			return Mul(x, y)
		}
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return UF(64, "lmul", x, y)
}

// operands translates what a condition is about.
func (d *LDom) operands(c *Term) {
	switch c.Op {
	case OEq, OUlt:
		d.unsignedOf(c.Args[0])
		d.unsignedOf(c.Args[1])
	case OSlt:
		d.signedOf(c.Args[0])
		d.signedOf(c.Args[1])
	case OExtract:
		d.T(c.Args[0])
	case OXor, OAnd, OOr:
		for _, a := range c.Args {
			d.operands(a)
		}
	}
}

// learn records what a decided condition says; false when the case is impossible.
func (d *LDom) learn(c *Term, v bool) bool {
	switch c.Op {
	case OEq:
		x := LSub(d.unsignedOf(c.Args[0]), d.unsignedOf(c.Args[1]))
		if v {
			return d.fact(x, new(big.Int), new(big.Int))
		}
		l, h := d.rng(x)
		if l.Sign() >= 0 {
			return d.fact(x, big1, nil)
		}
		if h.Sign() <= 0 {
			return d.fact(x, nil, big.NewInt(-1))
		}
	case OUlt, OSlt:
		var a, b *LP
		if c.Op == OUlt {
			a, b = d.unsignedOf(c.Args[0]), d.unsignedOf(c.Args[1])
		} else {
			a, b = d.signedOf(c.Args[0]), d.signedOf(c.Args[1])
		}
		x := LSub(b, a)
		if v {
			return d.fact(x, big1, nil)
		}
		return d.fact(x, nil, new(big.Int))
	case OExtract:
		x := c.Args[0]
		q := d.low(d.floor(d.T(x), c.Lo), 1)
		w := new(big.Int)
		if v {
			w.SetInt64(1)
		}
		return d.fact(q, w, w)
	case OXor:
		if len(c.Args) == 1 && c.C == 1 {
			return d.learn(c.Args[0], !v)
		}
	case OAddC, OSubB:
		w := new(big.Int)
		if v {
			w.SetInt64(1)
		}
		return d.fact(d.T(c), w, w)
	}
	return true
}

// zeroMod reports whether every coefficient of p is divisible by m.
func lzeroMod(p *LP, m *big.Int) bool {
	for _, x := range p.m {
		if new(big.Int).Mod(x.c, m).Sign() != 0 {
			return false
		}
	}
	return true
}

// ---- symbolic arguments ----

func (ex *Exec) symVal(t types.Type, name string) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w := widthOf(t); w > 0 {
			return Var(w, name)
		}
	case *types.Array:
		a := &Agg{E: make([]Value, u.Len())}
		for i := range a.E {
			a.E[i] = ex.symVal(u.Elem(), fmt.Sprintf("%s.%d", name, i))
		}
		return a
	case *types.Struct:
		a := &Agg{E: make([]Value, u.NumFields())}
		for i := range a.E {
			a.E[i] = ex.symVal(u.Field(i).Type(), fmt.Sprintf("%s.%s", name, u.Field(i).Name()))
		}
		return a
	}
	unsup("symbolic value of %s", t)
	return nil
}

// leafTerms flattens a value into scalar terms.
func leafTerms(v Value) (r []*Term) {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *Agg:
		for _, e := range x.E {
			r = append(r, leafTerms(e)...)
		}
	default:
		unsup("leaf %s", showVal(v))
	}
	return
}

// lcall runs fn with symbolic arguments (pointers to fresh objects; alias[i]=j makes argument i the same object as j)
// and returns its single non-panicking outcome.
type lcallRes struct {
	ex   *Exec
	st   *State
	args []Value
	in   [][]*Term // leaves of each argument before the call
	ret  []Value
}

func (c *Ctx) lcall(ex *Exec, fn *ssa.Function, alias map[int]int, given map[int]Value) *lcallRes {
	name := shortFn(fn)
	st := ex.Base.clone()
	st.visits = map[string]int{}
	r := &lcallRes{ex: ex}
	for i, p := range fn.Params {
		if v, ok := given[i]; ok {
			r.args = append(r.args, v)
			r.in = append(r.in, nil)
			continue
		}
		if j, ok := alias[i]; ok {
			r.args = append(r.args, r.args[j])
			r.in = append(r.in, r.in[j])
			continue
		}
		nm := p.Name()
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
			v := ex.symVal(pt.Elem(), nm)
			r.args = append(r.args, Ptr{Obj: ex.Alloc(st, nm, pt.Elem(), v)})
			r.in = append(r.in, leafTerms(v))
			continue
		}
		v := ex.symVal(p.Type(), nm)
		r.args = append(r.args, v)
		r.in = append(r.in, leafTerms(v))
	}
	outs := ex.Call(fn, r.args, st, "l", 0)
	var live []Outcome
	for _, o := range outs {
		if o.Panic != "" {
			c.Ob("no panic", name, false, "vc", o.Panic+" at "+o.Pos)
			continue
		}
		live = append(live, o)
	}
	if len(live) != 1 {
		unsup("%s: %d outcomes", name, len(live))
	}
	r.st = live[0].St
	r.ret = live[0].Ret
	return r
}

// after returns the leaves of the i-th argument after the call.
func (r *lcallRes) after(i int) []*Term {
	if p, ok := r.args[i].(Ptr); ok {
		return leafTerms(r.ex.Load(r.st, p))
	}
	return leafTerms(r.args[i])
}

var dbgL = os.Getenv("GOCV_L") != ""

func (d *LDom) dump() {
	for c, v := range d.sel {
		fmt.Println("  case", Show(c, 4), v)
	}
	for _, f := range d.facts {
		fmt.Println("  fact", d.show(f.p), "in", f.lo, f.hi)
	}
	for _, a := range d.atoms {
		fmt.Printf("  atom %s [%x,%x]", a.name, a.lo, a.hi)
		if a.R != nil {
			fmt.Printf(" floor(%s / 2^%d)", d.show(a.R), a.k)
		}
		fmt.Println()
	}
}

// letTab names the sums a function computes, so that wide sums are not flattened into their parts.
type letTab struct {
	def map[*Term]*Term
	of  map[*Term]*Term
}

func newLets() *letTab { return &letTab{map[*Term]*Term{}, map[*Term]*Term{}} }

func (ex *Exec) let(t *Term) *Term {
	if ex.Lets == nil || t.W != 64 || t.Op != OLin || len(t.Args) < 2 {
		return t
	}
	if v := ex.Lets.of[t]; v != nil {
		return v
	}
	v := Var(64, fmt.Sprintf("let%d.%d", len(ex.Lets.of), t.ID))
	ex.Lets.of[t], ex.Lets.def[v] = v, t
	return v
}

// constAnd resolves a bitwise and with an operand that is all zeros or all ones here.
func (d *LDom) constAnd(t *Term) *LP {
	for i, a := range t.Args {
		v, ok := d.unsignedOf(a).isConst()
		if !ok {
			continue
		}
		if v.Sign() == 0 {
			return LI(0)
		}
		if v.Cmp(new(big.Int).Sub(p2(t.W), big1)) == 0 && len(t.Args) == 2 {
			return d.T(t.Args[1-i])
		}
	}
	return nil
}

// modFacts uses the equalities of the case to rewrite p.
func (d *LDom) modFacts(p *LP) *LP {
	for _, f := range d.facts {
		if f.lo.Cmp(f.hi) != 0 {
			continue
		}
		for _, k := range f.p.keys() {
			m := f.p.m[k]
			if len(m.a) != 1 || m.c.CmpAbs(big1) != 0 {
				continue
			}
			n := 0
			for _, o := range f.p.m {
				for _, x := range o.a {
					if x == m.a[0] {
						n++
					}
				}
			}
			if n != 1 {
				continue
			}
			rest := LSub(LC(f.lo), f.p)
			rest.addMul(d.poly(d.atoms[m.a[0]]), m.c)
			p = substAtom(p, m.a[0], LScale(rest, m.c))
			break
		}
	}
	return p
}
