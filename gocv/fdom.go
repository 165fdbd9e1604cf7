package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---- ghost values of field elements and group elements held in limbs ----
//
// Code above the limb level is verified against the contracts of the limb level: the limbs of an element are
// opaque tokens naming a ghost value, a polynomial modulo P over ghost atoms. Group elements use the same
// mechanism with the group order as modulus, the value being the multiple of a base point.

type fval struct {
	p *LP
	b int
}
type frule struct {
	lead []int
	rhs  *LP
}
type FDom struct {
	invs  [][2]*LP // a and its inverse atom
	name  string
	P     *big.Int
	w, n  int
	dec   func(ts []uint64) (*LP, bool) // ghost value of constant limbs
	d     *LDom
	vals  []fval
	tab   map[string]int
	rules []frule
	units []*LP
	bools map[*Term]*latom
	boolT map[int]*Term
	zeros []int                 // ids whose vanishing was asked
	pow   bool                  // values are exponents: the product adds
	lev   func(ts []uint64) int // level of constant limbs
}

func NewFDom(name string, P *big.Int, w, n int) *FDom {
	return &FDom{name: name, P: P, w: w, n: n, d: NewLDom(), tab: map[string]int{}, bools: map[*Term]*latom{}, boolT: map[int]*Term{}}
}

// montDec reads constant limbs as a canonical Montgomery representative.
func montDec(P *big.Int, w, n int) func(ts []uint64) (*LP, bool) {
	Ri := new(big.Int).ModInverse(p2(w*n), P)
	return func(ts []uint64) (*LP, bool) {
		v := new(big.Int)
		for i := len(ts) - 1; i >= 0; i-- {
			v.Lsh(v, uint(w)).Or(v, new(big.Int).SetUint64(ts[i]))
		}
		if v.Cmp(P) >= 0 {
			return nil, false
		}
		v.Mul(v, Ri)
		return LC(v.Mod(v, P)), true
	}
}

func (f *FDom) Atom(name string) *LP { return f.d.poly(f.d.atom(name, nil, nil)) }

// Unit declares a ghost polynomial different from zero.
func (f *FDom) Unit(p *LP) *LP { f.units = append(f.units, f.monic(f.red(p))); return p }

// Rule declares that p is zero, used to rewrite its leading monomial.
func (f *FDom) Rule(p *LP) {
	p = f.red(p)
	if len(p.m) == 0 {
		return
	}
	l := p.leadMon()
	ci := new(big.Int).ModInverse(l.c, f.P)
	r := LScale(p, new(big.Int).Neg(ci))
	delete(r.m, lkey(l.a))
	f.rules = append(f.rules, frule{l.a, f.mod(r)})
}

// RuleLead is Rule with a chosen monomial.
func (f *FDom) RuleLead(lead []int, p *LP) {
	p = f.mod(p)
	m := p.m[lkey(lead)]
	if m == nil {
		unsup("rule without its monomial")
	}
	ci := new(big.Int).ModInverse(m.c, f.P)
	r := LScale(p, new(big.Int).Neg(ci))
	delete(r.m, lkey(lead))
	f.rules = append(f.rules, frule{lead, f.mod(r)})
}

func (f *FDom) mod(p *LP) *LP {
	r := LI(0)
	for k, m := range p.m {
		c := new(big.Int).Mod(m.c, f.P)
		if c.Sign() != 0 {
			r.m[k] = &lmon{m.a, c}
		}
	}
	return r
}

func monLess(a, b []int) bool { // graded, then by largest atoms
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := len(a) - 1; i >= 0; i-- {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}
func (p *LP) leadMon() *lmon {
	var b *lmon
	for _, m := range p.m {
		if b == nil || monLess(b.a, m.a) {
			b = m
		}
	}
	return b
}

// monDiv returns a/b as multisets.
func monDiv(a, b []int) ([]int, bool) {
	var r []int
	j := 0
	for _, x := range a {
		if j < len(b) && b[j] == x {
			j++
			continue
		}
		r = append(r, x)
	}
	return r, j == len(b)
}

// red is the normal form modulo P, idempotence of booleans and the rules.
func (f *FDom) red(p *LP) *LP {
	p = f.mod(p)
	for n := 0; n < 2000; n++ {
		ch := false
		r := LI(0)
		for _, m := range p.m {
			a := m.a
			if len(f.boolT) > 0 && len(a) > 1 {
				var q []int
				for i, x := range a {
					if i > 0 && a[i-1] == x && f.boolT[x] != nil {
						continue
					}
					q = append(q, x)
				}
				a = q
			}
			done := false
			for _, u := range f.rules {
				if rest, ok := monDiv(a, u.lead); ok {
					t := LMul(&LP{m: map[string]*lmon{lkey(rest): {rest, m.c}}}, u.rhs)
					r.addMul(t, big1)
					done, ch = true, true
					break
				}
			}
			if !done {
				r.addMul(&LP{m: map[string]*lmon{lkey(a): {a, m.c}}}, big1)
			}
		}
		p = f.mod(r)
		if !ch {
			return p
		}
	}
	unsup("rewriting does not terminate")
	return nil
}

func (f *FDom) monic(p *LP) *LP {
	if l := p.leadMon(); l != nil {
		return f.mod(LScale(p, new(big.Int).ModInverse(l.c, f.P)))
	}
	return p
}

// div is exact division.
func (f *FDom) div(p, u *LP) (*LP, bool) {
	q := LI(0)
	lu := u.leadMon()
	ci := new(big.Int).ModInverse(lu.c, f.P)
	p = f.mod(p)
	for n := 0; len(p.m) > 0; n++ {
		l := p.leadMon()
		rest, ok := monDiv(l.a, lu.a)
		if !ok || n > 4000 {
			return nil, false
		}
		t := &LP{m: map[string]*lmon{lkey(rest): {rest, new(big.Int).Mul(l.c, ci)}}}
		q = f.mod(LAdd(q, t))
		p = f.mod(LSub(p, LMul(t, u)))
	}
	return q, true
}

// strip divides by everything known to be nonzero.
func (f *FDom) strip(p *LP) *LP {
	for again := true; again; {
		again = false
		for _, u := range f.units {
			if _, c := u.isConst(); c {
				continue
			}
			for {
				if _, c := p.isConst(); c {
					return p
				}
				q, ok := f.div(p, u)
				if !ok {
					break
				}
				p, again = q, true
			}
		}
	}
	return p
}

func (f *FDom) id(p *LP, b int) int {
	k := fmt.Sprintf("%d|%s", b, p.key())
	if i, ok := f.tab[k]; ok {
		return i
	}
	i := len(f.vals)
	f.vals = append(f.vals, fval{p, b})
	f.tab[k] = i
	return i
}

// mk returns limbs standing for p.
func (f *FDom) mk(p *LP, b int) []*Term {
	i := f.id(f.red(p), b)
	r := make([]*Term, f.n)
	for j := range r {
		r[j] = UF(f.w, "fe."+f.name, Const(32, uint64(i)), Const(8, uint64(j)))
	}
	return r
}

// Zero reports whether p vanishes: a constant, or an atom of the path condition.
func (f *FDom) Zero(p *LP) *Term {
	p = f.red(p)
	if v, ok := p.isConst(); ok {
		if v.Sign() == 0 {
			return Const(1, 1)
		}
		return Const(1, 0)
	}
	p = f.strip(p)
	if _, ok := p.isConst(); ok {
		return Const(1, 0)
	}
	i := f.id(f.monic(p), -1)
	f.zeros = append(f.zeros, i)
	return UF(1, "fz."+f.name, Const(32, uint64(i)))
}

func (f *FDom) boolAtom(c *Term) *LP {
	if c.IsConst() {
		return LI(int64(c.C))
	}
	if a := f.bools[Not(c)]; a != nil {
		return LSub(LI(1), f.d.poly(a))
	}
	a := f.bools[c]
	if a == nil {
		a = f.d.atom("["+Show(c, 3)+"]", nil, nil)
		f.bools[c] = a
		f.boolT[a.id] = c
	}
	return f.d.poly(a)
}

// get reads limbs back.
func (f *FDom) get(st *State, ts []*Term) fval {
	if len(ts) != f.n {
		unsup("%s element of %d limbs", f.name, len(ts))
	}
	t := ts[0]
	switch {
	case t.Op == OUF && t.Name == "fe."+f.name:
		for j, x := range ts {
			if x.Op != OUF || x.Name != t.Name || x.Args[0] != t.Args[0] || x.Args[1].C != uint64(j) {
				unsup("%s element mixes limbs of different elements", f.name)
			}
		}
		v := f.vals[t.Args[0].C]
		return fval{f.red(v.p), v.b}
	}
	// conditional
	for _, x := range ts {
		if x.Op == OIte {
			c := x.Args[0]
			pick := func(v bool) fval {
				q := make([]*Term, len(ts))
				for j, y := range ts {
					q[j] = y
					if y.Op == OIte && y.Args[0] == c {
						q[j] = y.Args[2]
						if v {
							q[j] = y.Args[1]
						}
					}
				}
				return f.get(st, q)
			}
			if st != nil {
				if k := st.decide(c); k >= 0 {
					return pick(k == 1)
				}
			}
			a, b := pick(true), pick(false)
			bd := a.b
			if b.b > bd {
				bd = b.b
			}
			k := f.boolAtom(c)
			return fval{f.red(LAdd(LMul(k, a.p), LMul(LSub(LI(1), k), b.p))), bd}
		}
	}
	var cs []uint64
	for _, x := range ts {
		if !x.IsConst() {
			unsup("%s limb %s is not an element", f.name, Show(x, 3))
		}
		cs = append(cs, x.C)
	}
	if f.dec != nil {
		if p, ok := f.dec(cs); ok {
			if f.lev != nil {
				return fval{p, f.lev(cs)}
			}
			return fval{p, 0}
		}
	}
	unsup("constant limbs %x are not a canonical %s element", cs, f.name)
	return fval{}
}

// arg reads an argument (a pointer to, or a value of, an element).
func (f *FDom) arg(ex *Exec, st *State, v Value) fval {
	if p, ok := v.(Ptr); ok {
		v = ex.Load(st, p)
	}
	return f.get(st, leafTerms(v))
}
func (f *FDom) put(ex *Exec, st *State, dst Value, p *LP, b int) { putLimbs(ex, st, dst, f.mk(p, b)) }
func putLimbs(ex *Exec, st *State, dst Value, ts []*Term) {
	p := dst.(Ptr)
	q := append([]*Term{}, ts...)
	ex.Store(st, p, unflatten(ex.Load(st, p), &q))
}

// op installs the contract args[dst] := g(args...) .
func (f *FDom) op(ex *Exec, fn string, dst int, src []int, g func(in []*LP) *LP) {
	ex.Contracts[fn] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		var in []*LP
		for _, i := range src {
			in = append(in, f.arg(ex, st, c.Args[i]).p)
		}
		f.put(ex, st, c.Args[dst], g(in), 0)
		return ret(st)
	}
}

// facts of a path: polynomials decided to vanish or not.
func (f *FDom) facts(st *State) (z, nz []*LP) {
	seen := map[int]bool{}
	for _, i := range f.zeros {
		if seen[i] {
			continue
		}
		seen[i] = true
		switch st.decide(UF(1, "fz."+f.name, Const(32, uint64(i)))) {
		case 1:
			z = append(z, f.vals[i].p)
		case 0:
			nz = append(nz, f.vals[i].p)
		}
	}
	return
}

// under runs g with the facts of the path as rules; it is skipped when the path contradicts the declared units.
func (f *FDom) under(st *State, g func()) (ran bool) {
	nr, nu := len(f.rules), len(f.units)
	rs := append([]frule{}, f.rules...)
	defer func() { f.rules = rs[:nr:nr]; f.units = f.units[:nu] }()
	z, nz := f.facts(st)
	us := append(append([]*LP{}, f.units...), nz...)
	f.units = us
	for n := 0; n < 20 && len(z) > 0; n++ {
		var left []*LP
		ch := false
		for _, p := range z {
			p = f.strip(f.red(p))
			if len(p.m) == 0 {
				continue
			}
			if _, c := p.isConst(); c {
				return false
			}
			// solve for an atom occurring once, alone, with constant coefficient
			var pick *lmon
			for _, m := range p.m {
				if len(m.a) != 1 {
					continue
				}
				occ := 0
				for _, o := range p.m {
					for _, x := range o.a {
						if x == m.a[0] {
							occ++
						}
					}
				}
				if occ == 1 && (pick == nil || pick.a[0] < m.a[0]) {
					pick = m
				}
			}
			if pick == nil {
				left = append(left, p)
				continue
			}
			f.RuleLead(pick.a, p)
			ch = true
			f.units = nil
			for _, u := range us {
				u = f.red(u)
				if len(u.m) == 0 {
					return false
				}
				f.units = append(f.units, f.monic(u))
			}
		}
		z = left
		if !ch {
			break
		}
	}
	for _, u := range us {
		if len(f.red(u).m) == 0 {
			return false
		}
	}
	for _, p := range z {
		if _, c := f.strip(f.red(p)).isConst(); c {
			return false
		}
	}
	for _, p := range z {
		f.Rule(f.strip(f.red(p)))
	}
	g()
	return true
}

func (f *FDom) show(p *LP) string {
	var s []string
	for _, k := range p.keys() {
		m := p.m[k]
		t := m.c.String()
		if x := new(big.Int).Sub(f.P, m.c); x.BitLen() < 20 {
			t = "-" + x.String()
		}
		for _, a := range m.a {
			t += "*" + f.d.atoms[a].name
		}
		s = append(s, t)
	}
	sort.Strings(s)
	if len(s) > 10 {
		s = append(s[:10], "...")
	}
	if len(s) == 0 {
		return "0"
	}
	return strings.Join(s, " + ")
}

// fun evaluates a polynomial expression written as a Go closure over LPs.
func fMul(ps ...*LP) *LP {
	r := LI(1)
	for _, p := range ps {
		r = LMul(r, p)
	}
	return r
}
func fPow(p *LP, n int) *LP {
	r := LI(1)
	for ; n > 0; n-- {
		r = LMul(r, p)
	}
	return r
}
func fSum(ps ...*LP) *LP {
	r := LI(0)
	for _, p := range ps {
		r.addMul(p, big1)
	}
	return r
}

// fcall runs fn on given arguments and yields every outcome that returns.
func (c *Ctx) fcall(ex *Exec, name string, pkg, fname string, args []Value, st *State, g func(o Outcome)) {
	fn := c.P.Fn(pkg, fname)
	if fn == nil {
		c.Ob("function under contract exists", pkg+"."+fname, false, "none", "missing")
		return
	}
	n := 0
	ex.splitFn = fn
	for _, o := range ex.Call(fn, args, st, "f", 0) {
		if o.Panic != "" {
			c.Ob("no panic", shortFn(fn), false, "vc", o.Panic+" at "+o.Pos)
			continue
		}
		n++
		g(o)
	}
	c.Ob("returns: "+name, shortFn(fn), n > 0, "vc", "no returning path")
}

// sameZero reports whether the boolean r says that p vanishes.
func (f *FDom) sameZero(ex *Exec, st *State, r *Term, p *LP) bool {
	p = f.red(p)
	if st.decide(r) == 1 || r.IsTrue() {
		return len(p.m) == 0
	}
	q := f.strip(p)
	if _, c := q.isConst(); c && len(p.m) > 0 {
		return r.IsFalse()
	}
	if len(p.m) == 0 {
		q = p
	}
	if r.Op == OUF && r.Name == "fz."+f.name {
		v := f.red(f.vals[r.Args[0].C].p)
		if len(v.m) == 0 || len(q.m) == 0 {
			return len(v.m) == len(q.m)
		}
		return f.monic(f.strip(v)).key() == f.monic(q).key()
	}
	return false
}
