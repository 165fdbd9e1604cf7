package main

import (
	"fmt"
	"hash/fnv"
	"math/bits"
	"math/rand"
	"sort"
	"strings"
	"time"
)

// Rebuild re-applies t's constructor to new arguments.
func Rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case OConst, OVar:
		return t
	case OLin:
		l := newLin(t.W)
		l.c = t.C
		for i := range a {
			l.add(a[i], t.Coef[i])
		}
		return l.term()
	case OMul:
		return Mul(a[0], a[1])
	case OMulHi:
		return MulHi(a[0], a[1])
	case OAddC:
		return AddCarry(a[0], a[1], a[2])
	case OSubB:
		return SubBorrow(a[0], a[1], a[2])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OXor:
		if t.C != 0 {
			a = append(append([]*Term{}, a...), Const(t.W, t.C))
		}
		return Xor(a...)
	case OConcat:
		r := Concat(a...)
		if r.Op == OConcat && len(r.Args) == 2 && r.Args[0].Op == OLin && r.Args[1].IsConst() && r.W == 64 {
			l := newLin(r.W)
			l.add(r, 1)
			return l.term()
		}
		return r
	case OExtract:
		return Extract(a[0], t.Lo, t.W)
	case OSext:
		return Sext(a[0], t.W)
	case OShl, OLshr, OAshr:
		return Shift(t.Op, a[0], a[1])
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OEq:
		return Eq(a[0], a[1])
	case OUlt:
		return Ult(a[0], a[1])
	case OSlt:
		return Slt(a[0], a[1])
	case OUDiv, OURem, OSDiv, OSRem:
		return DivRem(t.Op, a[0], a[1])
	case OUF:
		if strings.HasPrefix(t.Name, "fold:") {
			b := a
			if len(a) == 1 && a[0].Op == OUF && a[0].Name == "pack:" {
				b = a[0].Args
			}
			if b[len(b)-1].IsConst() && b[len(b)-1].C == 0 {
				// no steps: the chaining value itself
				i := 0
				fmt.Sscanf(strings.Split(t.Name, ":")[2], "%d", &i)
				return b[i]
			}
		}
		return UF(t.W, t.Name, a...)
	}
	panic("rebuild")
}

// Subst replaces terms (simultaneously, memoised).
func Subst(t *Term, m map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	a := make([]*Term, len(t.Args))
	ch := false
	for i, x := range t.Args {
		a[i] = Subst(x, m)
		if a[i] != x {
			ch = true
		}
	}
	r := t
	if ch {
		r = Rebuild(t, a)
	}
	m[t] = r
	return r
}

// evalOp computes one node from argument values.
func evalOp(t *Term, v []uint64) uint64 {
	m := mask(t.W)
	sx := func(x uint64, w int) int64 { return int64(signExt(x, w)) }
	switch t.Op {
	case OConst:
		return t.C
	case OLin:
		r := t.C
		for i := range v {
			r += t.Coef[i] * v[i]
		}
		return r & m
	case OMul:
		return v[0] * v[1] & m
	case OMulHi:
		if t.W == 64 {
			h, _ := bits.Mul64(v[0], v[1])
			return h
		}
		return v[0] * v[1] >> uint(t.W) & m
	case OAddC:
		w := t.Args[0].W
		s, c := bits.Add64(v[0], v[1], v[2])
		if w < 64 {
			return s >> uint(w) & 1
		}
		return c
	case OSubB:
		if v[0] < v[1] || v[0] == v[1] && v[2] == 1 {
			return 1
		}
		return 0
	case OAnd:
		r := m
		for _, x := range v {
			r &= x
		}
		return r
	case OOr:
		var r uint64
		for _, x := range v {
			r |= x
		}
		return r
	case OXor:
		r := t.C
		for _, x := range v {
			r ^= x
		}
		return r
	case OConcat:
		var r uint64
		for i, x := range v {
			r = r<<uint(t.Args[i].W) | x
		}
		return r
	case OExtract:
		return v[0] >> uint(t.Lo) & m
	case OSext:
		return uint64(sx(v[0], t.Args[0].W)) & m
	case OShl:
		if v[1] >= uint64(t.W) {
			return 0
		}
		return v[0] << v[1] & m
	case OLshr:
		if v[1] >= uint64(t.W) {
			return 0
		}
		return v[0] >> v[1]
	case OAshr:
		k := v[1]
		if k >= uint64(t.W) {
			k = uint64(t.W) - 1
		}
		return uint64(sx(v[0], t.W)>>k) & m
	case OIte:
		if v[0] == 1 {
			return v[1]
		}
		return v[2]
	case OEq:
		if v[0] == v[1] {
			return 1
		}
		return 0
	case OUlt:
		if v[0] < v[1] {
			return 1
		}
		return 0
	case OSlt:
		w := t.Args[0].W
		if sx(v[0], w) < sx(v[1], w) {
			return 1
		}
		return 0
	case OUDiv:
		if v[1] == 0 {
			return m
		}
		return v[0] / v[1]
	case OURem:
		if v[1] == 0 {
			return v[0]
		}
		return v[0] % v[1]
	case OSDiv, OSRem:
		w := t.W
		if v[1] == 0 {
			if t.Op == OSRem {
				return v[0]
			}
			if sx(v[0], w) >= 0 {
				return m
			}
			return 1
		}
		if sx(v[1], w) == -1 {
			if t.Op == OSRem {
				return 0
			}
			return -v[0] & m
		}
		if t.Op == OSDiv {
			return uint64(sx(v[0], w)/sx(v[1], w)) & m
		}
		return uint64(sx(v[0], w)%sx(v[1], w)) & m
	}
	panic("evalOp")
}

type simulator struct {
	seed uint64
	vals map[*Term]uint64
	asg  map[*Term]uint64 // fixed values for variables
}

func ufHash(name string, seed uint64, v []uint64) uint64 {
	h := fnv.New64a()
	h.Write([]byte(name))
	var b [8]byte
	wr := func(x uint64) {
		for i := range b {
			b[i] = byte(x >> (8 * uint(i)))
		}
		h.Write(b[:])
	}
	wr(seed)
	for _, x := range v {
		wr(x)
	}
	x := h.Sum64()
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 32
	return x
}

func (s *simulator) eval(t *Term) uint64 {
	if v, ok := s.vals[t]; ok {
		return v
	}
	var r uint64
	if t.Op == OConst {
		return t.C
	}
	if v, ok := s.asg[t]; ok {
		r = v & mask(t.W)
		s.vals[t] = r
		return r
	}
	v := make([]uint64, len(t.Args))
	for i, a := range t.Args {
		v[i] = s.eval(a)
	}
	switch t.Op {
	case OVar, OUF:
		r = ufHash(t.Name, s.seed, v)
		if t.Op == OVar || len(v) == 0 {
			// biased values now and then
			switch ufHash(t.Name, s.seed+77, nil) % 8 {
			case 0:
				r &= 3
			case 1:
				r |= ^uint64(3)
			}
		}
		r &= mask(t.W)
		if rg, ok := varRange[t]; ok && (r < rg.lo || r > rg.hi) {
			if rg.hi-rg.lo == ^uint64(0) {
			} else {
				r = rg.lo + r%(rg.hi-rg.lo+1)
			}
		}
	default:
		r = evalOp(t, v)
	}
	s.vals[t] = r
	return r
}

func newSim(seed uint64) *simulator {
	return &simulator{seed: seed, vals: map[*Term]uint64{}, asg: map[*Term]uint64{}}
}

func cone(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out, st []*Term
	st = append(st, ts...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		out = append(out, x)
		st = append(st, x.Args...)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

type EqResult struct {
	OK      bool
	How     string
	Model   map[*Term]uint64
	Seed    uint64 // simulation seed refuting (when Model nil and !OK)
	Refuted bool
}

// ProveEq proves a[i] == b[i] for all i under pc.
func (ex *Exec) ProveEq(pc []*Term, a, b []*Term) EqResult {
	var as, bs []*Term
	for i := range a {
		if a[i] != b[i] {
			as = append(as, a[i])
			bs = append(bs, b[i])
		}
	}
	if len(as) == 0 {
		return EqResult{OK: true, How: "canonical"}
	}
	if ex.smt == nil {
		ex.smt = &SMT{}
	}
	if g, cn := newAig(), cone(append(append([]*Term{}, as...), bs...)); len(cn) < 400000 {
		g.run(append(append([]*Term{}, as...), bs...))
		same := true
		for i := range as {
			same = same && g.term(as[i]) == g.term(bs[i])
		}
		if same {
			return EqResult{OK: true, How: "canonical"}
		}
	}
	// simulation refutation
	const K = 24
	sims := make([]*simulator, 0, K)
	for k := 0; k < K*4 && len(sims) < K; k++ {
		s := newSim(uint64(k) + 1)
		ok := true
		for _, c := range pc {
			if s.eval(c) != 1 {
				ok = false
				break
			}
		}
		if ok {
			sims = append(sims, s)
		}
	}
	for _, s := range sims {
		for i := range as {
			if s.eval(as[i]) != s.eval(bs[i]) {
				return EqResult{Refuted: true, Seed: s.seed, How: "simulation"}
			}
		}
	}
	// with a path condition that simulation misses, obtain a model
	if len(sims) == 0 && len(pc) > 0 {
		r, m := ex.smt.Model(pc, 5000)
		if r == 0 {
			return EqResult{OK: true, How: "infeasible path"}
		}
		if r == 1 {
			s := newSim(1)
			for v, x := range m {
				s.asg[v] = x
			}
			sims = append(sims, s)
			for i := range as {
				if s.eval(as[i]) != s.eval(bs[i]) {
					return EqResult{Refuted: true, Model: m, How: "model"}
				}
			}
		}
	}
	// sweeping
	all := cone(append(append([]*Term{}, as...), bs...))
	rep := map[*Term]*Term{}
	classes := map[string][]*Term{}
	sig := func(t *Term) string {
		b := make([]byte, 0, 8*len(sims)+1)
		b = append(b, byte(t.W))
		for _, s := range sims {
			x := s.eval(t)
			for i := 0; i < 8; i++ {
				b = append(b, byte(x>>(8*uint(i))))
			}
		}
		return string(b)
	}
	deadline := time.Now().Add(60 * time.Second)
	for _, t := range all {
		nt := t
		if len(t.Args) > 0 {
			args := make([]*Term, len(t.Args))
			ch := false
			for i, x := range t.Args {
				args[i] = rep[x]
				if args[i] != x {
					ch = true
				}
			}
			if ch {
				nt = Rebuild(t, args)
			}
		}
		rep[t] = nt
		if nt.IsConst() || nt.Op == OVar {
			continue
		}
		if len(sims) == 0 || t.W == 1 && len(sims) < 16 {
			continue
		}
		k := sig(nt)
		found := false
		for _, c := range classes[k] {
			if c == nt {
				found = true
				break
			}
			if time.Now().After(deadline) {
				break
			}
			if ex.smt.Check([]*Term{Not(Eq(c, nt))}, 300) == 0 {
				rep[t] = c
				found = true
				break
			}
		}
		if !found && len(classes[k]) < 4 {
			classes[k] = append(classes[k], nt)
		}
	}
	var goals []*Term
	for i := range as {
		x, y := rep[as[i]], rep[bs[i]]
		if x != y {
			goals = append(goals, Eq(x, y))
		}
	}
	if len(goals) == 0 {
		return EqResult{OK: true, How: "sweep+z3"}
	}
	for _, g := range goals {
		if g.IsTrue() {
			continue
		}
		q := append(append([]*Term{}, relevantPC(pc, g)...), Not(g))
		r, m := ex.smt.Model(q, 20000)
		if r == 0 {
			continue
		}
		if r == 1 {
			// confirm the model on the original terms
			s := newSim(1)
			for v, x := range m {
				s.asg[v] = x
			}
			bad := false
			for i := range as {
				if s.eval(as[i]) != s.eval(bs[i]) {
					bad = true
				}
			}
			return EqResult{Refuted: bad, Model: m, How: "z3"}
		}
		return EqResult{How: fmt.Sprintf("undecided: %s", Show(g, 3))}
	}
	return EqResult{OK: true, How: "sweep+z3"}
}

var _ = rand.Int

// aig rewrites a term into and/xor form with complements pulled outwards: or(a,b) = not and(not a, not b),
// complements of xor arguments and of rotated words move to the root.
type aig struct {
	base map[*Term]*Term
	neg  map[*Term]bool
}

func newAig() *aig { return &aig{map[*Term]*Term{}, map[*Term]bool{}} }
func (g *aig) term(t *Term) *Term {
	if g.neg[t] {
		return Not(g.base[t])
	}
	return g.base[t]
}
func (g *aig) set(t, r *Term) {
	// split a complement off the result
	n := false
	if r.Op == OXor && r.C>>(uint(r.W)-1) == 1 {
		r, n = Xor(r, Const(r.W, mask(r.W))), true
	}
	g.base[t], g.neg[t] = r, n
}
func (g *aig) run(ts []*Term) {
	for _, t := range cone(ts) {
		if g.base[t] != nil {
			continue
		}
		if len(t.Args) == 0 {
			g.base[t] = t
			continue
		}
		switch t.Op {
		case OXor:
			n := t.C>>(uint(t.W)-1) == 1
			c := t.C
			if n {
				c ^= mask(t.W)
			}
			as := []*Term{Const(t.W, c)}
			for _, a := range t.Args {
				as = append(as, g.base[a])
				n = n != g.neg[a]
			}
			g.set(t, Xor(as...))
			g.neg[t] = g.neg[t] != n
		case OExtract:
			g.set(t, Rebuild(t, []*Term{g.base[t.Args[0]]}))
			g.neg[t] = g.neg[t] != g.neg[t.Args[0]]
		case OConcat:
			same := true
			for _, a := range t.Args {
				if a.IsConst() || g.neg[a] != g.neg[t.Args[0]] {
					same = false
				}
			}
			as := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				if same {
					as[i] = g.base[a]
				} else {
					as[i] = g.term(a)
				}
			}
			g.set(t, Concat(as...))
			if same {
				g.neg[t] = g.neg[t] != g.neg[t.Args[0]]
			}
		case OOr:
			as := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				as[i] = Not(g.term(a))
			}
			g.set(t, And(as...))
			g.neg[t] = !g.neg[t]
		default:
			as := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				as[i] = g.term(a)
			}
			g.set(t, Rebuild(t, as))
		}
	}
}
