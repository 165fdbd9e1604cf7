package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// ---- SM2: windowed and comb multiplication over ghost group elements ----
//
// A coordinate is a row of nine tokens that names a group element (an integer combination of unknown group elements) and
// which coordinate it is: X, Y, Z of some Jacobian form, or x, y of the affine form. The steps of the main loop are
// followed one at a time: at the head of each, the accumulator is arbitrary and the digit of the step concrete.

type sm2Mul struct {
	c     *Ctx
	ex    *Exec
	d     *LDom
	vals  []*LP
	ids   map[string]int
	konst map[string]*big.Int // affine coordinates of known multiples of the generator
	mixed func(acc, q *LP) string
	err   string
	atoms map[string]*LP

	adding bool // reading operands of the complete addition
}

const (
	ptX = "pt.X"
	ptY = "pt.Y"
	ptZ = "pt.Z"
	ptx = "pt.x"
	pty = "pt.y"
	ptJ = "pt.junk"
	pt0 = "pt.zero"
)

func newSm2Mul(c *Ctx) *sm2Mul {
	ex, f := sm2Group(c)
	m := &sm2Mul{c: c, ex: ex, d: NewLDom(), ids: map[string]int{}, atoms: map[string]*LP{}}
	G := func(dst int, src []int) func(ex *Exec, st *State, cc *CallCtx, r *LP) []Outcome {
		return func(ex *Exec, st *State, cc *CallCtx, r *LP) []Outcome {
			m.put(st, cc.Args[dst:dst+3], r)
			return ret(st)
		}
	}
	_ = f
	ex.Contracts[sm2p+"PointDouble"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
		return G(0, nil)(ex, st, cc, LScale(m.get(st, cc.Args[3:6]), big.NewInt(2)))
	}
	ex.Contracts[sm2p+"PointAdd"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
		for i := 0; i < 6; i++ {
			for j := 6; j < 9; j++ {
				if ex.overlapPtr(cc.Args[i], cc.Args[j]) {
					ex.PreFail = append(ex.PreFail, "sm2_stdPointAdd into one of its operands")
					return nil
				}
			}
		}
		m.adding = true
		defer func() { m.adding = false }()
		return G(6, nil)(ex, st, cc, LAdd(m.get(st, cc.Args[0:3]), m.get(st, cc.Args[3:6])))
	}
	ex.Contracts[sm2p+"PointAddMixed"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
		for i := 3; i < 8; i++ {
			for j := 0; j < 3; j++ {
				if ex.overlapPtr(cc.Args[i], cc.Args[j]) {
					ex.PreFail = append(ex.PreFail, "sm2_stdPointAddMixed into one of its operands")
					return nil
				}
			}
		}
		// the sum where the formula holds, and no point otherwise
		acc := m.get(st, cc.Args[3:6])
		q, ok := m.affine(st, cc.Args[6], cc.Args[7])
		why := "the second operand is no point"
		if ok {
			why = m.mixed(acc, q)
		}
		if why != "" {
			m.err = why
			for _, a := range cc.Args[0:3] {
				putLimbs(ex, st, a, m.row(ptJ, LI(0)))
			}
			return ret(st)
		}
		return G(0, nil)(ex, st, cc, LAdd(acc, q))
	}
	ex.Contracts[sm2p+"CopyConditional"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
		t := T(cc.Args[2])
		switch {
		case !t.IsConst() || t.C != 0 && t.C != 0xffffffff:
			unsup("conditional copy under %s", Show(t, 4))
		case t.C != 0:
			putLimbs(ex, st, cc.Args[0], leafTerms(ex.Load(st, cc.Args[1].(Ptr))))
		}
		return ret(st)
	}
	pick := func(st *State, outs []Value, rows []*Term, i uint64) []Outcome {
		for k, o := range outs {
			var r []*Term
			for j := 0; j < 9; j++ {
				t := Const(32, 0)
				if i > 0 {
					t = rows[j+9*k]
				}
				r = append(r, t)
			}
			putLimbs(ex, st, o, r)
		}
		return ret(st)
	}
	ex.Contracts[sm2p+"SelectJacobianPoint"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
		t := T(cc.Args[4])
		if !t.IsConst() || t.C > 15 {
			unsup("table index %s", Show(t, 4))
		}
		rows := leafTerms(ex.Load(st, cc.Args[3].(Ptr)))
		return pick(st, cc.Args[:3], rows[27*t.C:27*t.C+27], t.C)
	}
	ex.Contracts[sm2p+"SelectAffinePoint"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
		t := T(cc.Args[3])
		s := cc.Args[2].(Slice)
		if !t.IsConst() || t.C > 15 || !s.Off.IsConst() || !s.Len.IsConst() || s.Len.C < 270 {
			unsup("table index %s", Show(t, 4))
		}
		rows := leafTerms(ex.Load(st, Ptr{Obj: s.Obj, Path: s.Path}))
		if t.C == 0 {
			return pick(st, cc.Args[:2], nil, 0)
		}
		o := s.Off.C + 18*(t.C-1)
		return pick(st, cc.Args[:2], rows[o:o+18], t.C)
	}
	return m
}

// overlapPtr: the pointers reach a common cell.
func (ex *Exec) overlapPtr(a, b Value) bool {
	p, ok1 := a.(Ptr)
	q, ok2 := b.(Ptr)
	if !ok1 || !ok2 || p.Obj != q.Obj {
		return false
	}
	return fmt.Sprint(p.Path) == fmt.Sprint(q.Path)
}

func (m *sm2Mul) atom(n string) *LP {
	if m.atoms[n] == nil {
		m.atoms[n] = m.d.poly(m.d.atom(n, nil, nil))
	}
	return m.atoms[n]
}

func (m *sm2Mul) row(kind string, p *LP) (r []*Term) {
	k := p.key()
	id, ok := m.ids[k]
	if !ok {
		id = len(m.vals)
		m.ids[k] = id
		m.vals = append(m.vals, p)
	}
	for j := 0; j < 9; j++ {
		r = append(r, UF(32, kind, Const(32, uint64(id)), Const(8, uint64(j))))
	}
	return
}

// put writes a Jacobian form of p.
func (m *sm2Mul) put(st *State, dst []Value, p *LP) {
	ks := []string{ptX, ptY, ptZ}
	if len(p.m) == 0 {
		ks = []string{ptJ, ptJ, pt0}
	}
	for i, k := range ks {
		putLimbs(m.ex, st, dst[i], m.row(k, p))
	}
}

// coord reads a row of tokens.
func (m *sm2Mul) coord(st *State, v Value) (kind string, p *LP, cs []uint64) {
	ts := leafTerms(m.ex.Load(st, v.(Ptr)))
	if cs, ok := constLimbs(ts); ok {
		return "", nil, cs
	}
	t := ts[0]
	for j, x := range ts {
		if x.Op != OUF || x.Name != t.Name || len(x.Args) != 2 || x.Args[0] != t.Args[0] || x.Args[1].C != uint64(j) {
			unsup("a coordinate mixes limbs: %s", Show(x, 3))
		}
	}
	return t.Name, m.vals[t.Args[0].C], nil
}

func sm2Zero(cs []uint64) bool {
	for _, c := range cs {
		if c != 0 {
			return false
		}
	}
	return cs != nil
}

// affine reads an affine point.
func (m *sm2Mul) affine(st *State, x, y Value) (*LP, bool) {
	k1, p1, c1 := m.coord(st, x)
	k2, p2, c2 := m.coord(st, y)
	switch {
	case k1 == ptx && k2 == pty && p1 == p2:
		return p1, true
	case c1 != nil && c2 != nil && !(sm2Zero(c1) && sm2Zero(c2)):
		k, ok := m.konst[sm2Dec(c1).Text(16)+","+sm2Dec(c2).Text(16)]
		if !ok {
			unsup("constant point %x, %x is not the multiple of the generator the comb needs", sm2Dec(c1), sm2Dec(c2))
		}
		return LC(k), true
	}
	return nil, false
}

// get reads a point.
func (m *sm2Mul) get(st *State, v []Value) *LP {
	k3, p3, c3 := m.coord(st, v[2])
	if k3 == pt0 || sm2Zero(c3) {
		return LI(0)
	}
	if c3 != nil {
		if sm2Dec(c3).Cmp(big1) != 0 {
			unsup("coordinate Z is the constant %x", sm2Dec(c3))
		}
		p, ok := m.affine(st, v[0], v[1])
		if !ok {
			// (0, 0, 1) doubles to infinity and becomes the affine (0, 0), but is no operand of the addition
			_, _, c1 := m.coord(st, v[0])
			_, _, c2 := m.coord(st, v[1])
			if !m.adding && sm2Zero(c1) && sm2Zero(c2) {
				return LI(0)
			}
			unsup("not an affine point")
		}
		return p
	}
	k1, p1, _ := m.coord(st, v[0])
	k2, p2, _ := m.coord(st, v[1])
	if k1 != ptX || k2 != ptY || k3 != ptZ || p1 != p2 || p1 != p3 {
		unsup("the coordinates are not those of one point (%s %s %s: %s)", k1, k2, k3, m.err)
	}
	return p1
}

// mainLoop is the last outermost loop of a function that calls something.
func mainLoop(fi *fnInfo) (L *loopInfo) {
	for _, l := range fi.loops {
		calls := false
		for b := range l.body {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil {
					calls = true
				}
			}
		}
		if calls && l.parent == nil && (L == nil || l.header.Index > L.header.Index) {
			L = l
		}
	}
	return
}

// steps proves a multiplication. digits is the number of digit values of a step, place fixes the digit of step i in the
// scalar, acc(i) is the accumulator at the head of step i, and next what one step makes of it.
func (m *sm2Mul) steps(nm string, fn *ssa.Function, st *State, args []Value, out []Value, scalar Ptr, n, digits int,
	place func(i, d int) []*Term, acc func(i int) *LP, next func(i, d int, inf bool) *LP, note func(i, d int), shards int) {
	c, ex := m.c, m.ex
	full := func() []*Term { return place(-1, 0) }
	bad := 0
	ob := func(name string, ok bool, det string) {
		if !ok {
			bad++
		}
		if ok || bad < 8 {
			c.Ob(name, nm, ok, "ghost group", det)
		}
	}
	started := false
	total := 0
	var ends []*LP
	ex.AtHeader = func(fr *frame, e *entry) []*entry {
		if fr.fn != fn || fr.stop != nil || fr.fi.loops[e.blk] != mainLoop(fr.fi) {
			return nil
		}
		if started {
			unsup("the main loop is entered twice")
		}
		started = true
		main := fr.fi.loops[e.blk]
		entry0 := e.st.clone()
		ob("the accumulator starts at infinity", len(m.get(e.st, out).m) == 0, "")
		outObj := map[int]bool{}
		for _, o := range out {
			outObj[o.(Ptr).Obj] = true
		}
		type class struct {
			e   *entry
			inf bool
		}
		key := func(x *entry) string {
			k := ""
			for _, in := range main.header.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				t, ok := fr.get(x, ph).(*Term)
				if !ok || !t.IsConst() {
					unsup("a variable of the main loop is not concrete: %s", showVal(fr.get(x, ph)))
				}
				k += fmt.Sprint(t.C, ",")
			}
			return k
		}
		// general makes the state at the head of step i arbitrary but for the invariant
		general := func(x *entry, i int, inf bool) *entry {
			g := x.fork()
			g.st.resetPC()
			for id, o := range entry0.Heap {
				if now := g.st.Heap[id]; now != o && !outObj[id] && id != scalar.Obj {
					if ts := leafTermsOr(now.V); ts != nil && len(ts) == 9 {
						putLimbs(ex, g.st, Ptr{Obj: id}, m.row(ptJ, LI(0)))
					}
				}
			}
			if !inf {
				m.put(g.st, out, acc(i))
			}
			return g
		}
		set := func(x *entry, ts []*Term) *entry {
			g := x.fork()
			putLimbs(ex, g.st, scalar, ts)
			return g
		}
		cur := []class{{e, true}}
		for i := 0; i < n && bad < 8; i++ {
			nxt := map[string]class{}
			for _, cl := range cur {
				for d := 0; d < digits; d++ {
					if i%shards != c.Shard%shards && d > 1 {
						continue
					}
					note(i, d)
					m.err = ""
					sub := &frame{ex: ex, fn: fn, fi: fr.fi, path: fr.path, args: fr.args, stop: main}
					sub.push(set(cl.e, place(i, d)))
					for len(sub.work) > 0 {
						x := sub.work[len(sub.work)-1]
						sub.work = sub.work[:len(sub.work)-1]
						sub.block(x)
					}
					if len(sub.arrivals) != 1 || sub.exits != 0 || len(sub.outs) != 0 {
						ob("one step comes back to the head of the loop", false, fmt.Sprintf("step %d, digit %d: %d arrivals, %d exits, %d returns", i, d, len(sub.arrivals), sub.exits, len(sub.outs)))
						continue
					}
					x := sub.arrivals[0]
					total++
					got, want := m.get(x.st, out), next(i, d, cl.inf)
					ob("one step: the accumulator moves on by the digits of the step", got.key() == want.key(), fmt.Sprintf("step %d, digit %d: %s, not %s (%s)", i, d, m.d.show(got), m.d.show(want), m.err))
					inf := cl.inf && d == 0
					k := key(x)
					if o, ok := nxt[k]; ok {
						if o.inf != inf {
							ob("the mask tells infinity", false, fmt.Sprintf("step %d, digit %d", i, d))
						}
						continue
					}
					nxt[k] = class{x, inf}
				}
			}
			cur = nil
			for _, cl := range nxt {
				cur = append(cur, class{set(general(cl.e, i+1, cl.inf), full()), cl.inf})
			}
			if len(cur) != 2 {
				ob("two classes of states", false, fmt.Sprintf("step %d: %d", i, len(cur)))
			}
		}
		if bad > 0 {
			return []*entry{}
		}
		var es []*entry
		for _, cl := range cur {
			w := acc(n)
			if cl.inf {
				w = LI(0)
			}
			ends = append(ends, w)
			es = append(es, cl.e)
		}
		return es
	}
	nOut := 0
	keep := map[int]*Object{}
	for id, o := range st.Heap {
		keep[id] = o
	}
	for _, o := range ex.Call(fn, args, st, "f", 0) {
		if o.Panic != "" {
			c.Ob("no panic", nm, false, "vc", o.Panic+" at "+o.Pos)
			continue
		}
		nOut++
		got := m.get(o.St, out)
		okk := false
		for _, w := range ends {
			okk = okk || got.key() == w.key()
		}
		c.Ob("the result is the accumulator after the last step", nm, okk, "ghost group", m.d.show(got))
		for id, was := range keep {
			isOut := id == scalar.Obj
			for _, q := range out {
				isOut = isOut || q.(Ptr).Obj == id
			}
			c.Ob("nothing else is written", nm, isOut || o.St.Heap[id] == was, "frame", "")
		}
	}
	c.Ob("every digit of every step", nm, started && bad == 0 && total > 0 && nOut == 2, "vc", fmt.Sprint(total, nOut))
}

func sm2ScalarMult(c *Ctx) {
	nm := "owcrypt.sm2_stdScalarMult"
	c.guard("exact multiple", nm, func() {
		m := newSm2Mul(c)
		ex := m.ex
		fn := c.P.Fn(".", "sm2_stdScalarMult")
		P, A := m.atom("P"), m.atom("A")
		N := ecs["sm2"].N
		m.mixed = func(acc, q *LP) string { // multiples of a point of order n
			co := func(p *LP) *big.Int {
				if len(p.m) != 1 || p.m[P.keys()[0]] == nil {
					return nil
				}
				return p.m[P.keys()[0]].c
			}
			a, b := co(acc), co(q)
			if a == nil || b == nil {
				return "a sum of points that may coincide"
			}
			for _, x := range []*big.Int{a, b, new(big.Int).Add(a, b), new(big.Int).Sub(a, b)} {
				if new(big.Int).Mod(x, N).Sign() == 0 {
					return "exceptional operands"
				}
			}
			return ""
		}
		ft := c.P.Pkgs[modPath].Type("sm2_stdFieldElement").Type()
		st := ex.Base.clone()
		var out, args []Value
		for i := 0; i < 3; i++ {
			p := Ptr{Obj: ex.Alloc(st, fmt.Sprintf("out%d", i), ft, ex.Zero(ft))}
			putLimbs(ex, st, p, m.row(ptJ, LI(0)))
			out = append(out, p)
		}
		args = append(args, out...)
		for i, k := range []string{ptx, pty} {
			p := Ptr{Obj: ex.Alloc(st, fmt.Sprintf("in%d", i), ft, ex.Zero(ft))}
			putLimbs(ex, st, p, m.row(k, P))
			args = append(args, p)
		}
		bt := types.NewArray(types.Typ[types.Byte], 32)
		sc := Ptr{Obj: ex.Alloc(st, "scalar", bt, ex.symVal(bt, "s0"))}
		nib := func(j int) *Term { return Var(4, fmt.Sprintf("nibble%d", j)) }
		place := func(i, d int) (ts []*Term) {
			at := func(j int) *Term {
				if j == i {
					return Const(4, uint64(d))
				}
				return nib(j)
			}
			for b := 31; b >= 0; b-- { // byte 31-b holds the nibbles 2b and 2b+1, highest first
				ts = append(ts, Concat(at(2*b), at(2*b+1)))
			}
			return
		}
		putLimbs(ex, st, sc, place(-1, 0))
		m.steps(nm, fn, st, append(args, sc), out, sc, 64, 16, place, func(i int) *LP { return A }, func(i, d int, inf bool) *LP {
			r := LScale(P, big.NewInt(int64(d)))
			if !inf {
				r = LAdd(r, LScale(A, big.NewInt(16)))
			}
			return r
		}, func(i, d int) {}, c.NShard)
	})
}

func sm2BaseMult(c *Ctx) {
	nm := "owcrypt.sm2_stdScalarBaseMult"
	c.guard("exact multiple", nm, func() {
		m := newSm2Mul(c)
		ex := m.ex
		fn := c.P.Fn(".", "sm2_stdScalarBaseMult")
		cv := ecs["sm2"]
		m.konst = map[string]*big.Int{}
		for half := 0; half < 2; half++ {
			for d := 1; d < 16; d++ {
				k := new(big.Int)
				for b := 0; b < 4; b++ {
					if d>>b&1 == 1 {
						k.Add(k, p2(64*b+32*half))
					}
				}
				x, y := sm2RefMul(k)
				m.konst[x.Text(16)+","+y.Text(16)] = k
			}
		}
		step, dig := 0, 0
		bit := func(t int) *LP { return m.atom(fmt.Sprintf("k%d", t)) }
		name := map[string]int{}
		for t := 0; t < 256; t++ {
			name[bit(t).keys()[0]] = t
		}
		pos := func(i, lane int) int { return 32*lane + 31 - i }
		m.mixed = func(acc, q *LP) string {
			// acc is a sum of bits of the scalar times distinct powers of two
			if len(acc.m) == 0 {
				return "the accumulator is infinity"
			}
			at := map[int]int{} // power -> bit of the scalar, or -1 for a one
			max := new(big.Int)
			add := func(p *LP) string {
				for _, k := range p.keys() {
					co := p.m[k].c
					max.Add(max, co)
					if co.Sign() <= 0 {
						return "negative coefficient"
					}
					t, ok := name[k]
					if ok {
						e := co.BitLen() - 1
						if _, dup := at[e]; dup || p2(e).Cmp(co) != 0 {
							return "coefficients are not distinct powers of two"
						}
						at[e] = t
						continue
					}
					if len(p.m[k].a) != 0 {
						return "unknown summand"
					}
					for e := 0; e < co.BitLen(); e++ {
						if co.Bit(e) == 0 {
							continue
						}
						if _, dup := at[e]; dup {
							return "powers meet"
						}
						at[e] = -1
					}
				}
				return ""
			}
			if e := add(acc); e != "" {
				return e
			}
			if e := add(q); e != "" { // no power in common: different integers, as neither is zero
				return e
			}
			if max.Cmp(cv.N) < 0 { // both and their sum are below the order
				return ""
			}
			// otherwise the sum is at most the scalar, which is below the order
			for e, t := range at {
				if t == e {
					continue
				}
				one := false
				for l := 0; l < 8; l++ {
					one = one || pos(step, l) == e && dig>>l&1 == 1
				}
				if t != -1 || !one {
					return "the sum may reach the order of the curve"
				}
			}
			return ""
		}
		ft := c.P.Pkgs[modPath].Type("sm2_stdFieldElement").Type()
		st := ex.Base.clone()
		var out []Value
		for i := 0; i < 3; i++ {
			p := Ptr{Obj: ex.Alloc(st, fmt.Sprintf("out%d", i), ft, ex.Zero(ft))}
			putLimbs(ex, st, p, m.row(ptJ, LI(0)))
			out = append(out, p)
		}
		bt := types.NewArray(types.Typ[types.Byte], 32)
		sc := Ptr{Obj: ex.Alloc(st, "scalar", bt, ex.symVal(bt, "s0"))}
		place := func(i, d int) (ts []*Term) {
			fix := map[int]uint64{}
			if i >= 0 {
				for l := 0; l < 8; l++ {
					fix[pos(i, l)] = uint64(d >> l & 1)
				}
			}
			for b := 0; b < 32; b++ {
				var t *Term
				for j := 0; j < 8; j++ {
					x := Var(1, fmt.Sprintf("k%d", 8*b+j))
					if v, ok := fix[8*b+j]; ok {
						x = Const(1, v)
					}
					if t == nil {
						t = x
					} else {
						t = Concat(x, t)
					}
				}
				ts = append(ts, t)
			}
			return
		}
		putLimbs(ex, st, sc, place(-1, 0))
		acc := func(i int) *LP {
			r := LI(0)
			for j := 0; j < i; j++ {
				for l := 0; l < 8; l++ {
					r.addMul(bit(pos(j, l)), p2(32*l+i-1-j))
				}
			}
			return r
		}
		m.steps(nm, fn, st, append(append([]Value{}, out...), sc), out, sc, 32, 256, place, acc, func(i, d int, inf bool) *LP {
			r := LI(0)
			if !inf {
				r = LScale(acc(i), big.NewInt(2))
			}
			for l := 0; l < 8; l++ {
				if d>>l&1 == 1 {
					r = LAdd(r, LC(p2(32*l)))
				}
			}
			return r
		}, func(i, d int) { step, dig = i, d }, c.NShard)
	})
}

// sm2RefMul is the affine multiple of the generator.
func sm2RefMul(k *big.Int) (*big.Int, *big.Int) {
	cv := ecs["sm2"]
	P := cv.P
	var x, y *big.Int
	mod := func(v *big.Int) *big.Int { return v.Mod(v, P) }
	add := func(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
		if x1 == nil {
			return x2, y2
		}
		if x2 == nil {
			return x1, y1
		}
		var l *big.Int
		if x1.Cmp(x2) == 0 {
			if mod(new(big.Int).Add(y1, y2)).Sign() == 0 {
				return nil, nil
			}
			l = new(big.Int).Mul(x1, x1)
			l.Mul(l, big.NewInt(3)).Add(l, cv.A)
			l.Mul(l, new(big.Int).ModInverse(mod(new(big.Int).Lsh(y1, 1)), P))
		} else {
			l = new(big.Int).Sub(y2, y1)
			l.Mul(l, new(big.Int).ModInverse(mod(new(big.Int).Sub(x2, x1)), P))
		}
		mod(l)
		x3 := new(big.Int).Mul(l, l)
		mod(x3.Sub(x3, x1).Sub(x3, x2))
		y3 := new(big.Int).Sub(x1, x3)
		return x3, mod(y3.Mul(y3, l).Sub(y3, y1))
	}
	for i := k.BitLen() - 1; i >= 0; i-- {
		x, y = add(x, y, x, y)
		if k.Bit(i) == 1 {
			x, y = add(x, y, cv.Gx, cv.Gy)
		}
	}
	return x, y
}

// sm2GetScalar proves the reduction of a scalar: little-endian bytes of the number modulo the order.
func sm2GetScalar(c *Ctx) {
	nm := "owcrypt.sm2_stdGetScalar"
	c.guard("reduction", nm, func() {
		ex, _ := sm2Group(c)
		fn := c.P.Fn(".", "sm2_stdGetScalar")
		N := ecs["sm2"].N
		raw, red := &Opaque{Kind: "Z", X: "the number"}, &Opaque{Kind: "Z", X: "the number modulo the order"}
		below, equal := UF(1, "below the order"), UF(1, "equal to the order")
		var vs []*Term
		for i := 0; i < 32; i++ {
			vs = append(vs, Var(8, fmt.Sprintf("v%d", i))) // little-endian
		}
		what := func(st *State, v Value) string {
			p, ok := v.(Ptr)
			if !ok || p.Obj == 0 {
				unsup("nil integer")
			}
			o := ex.Load(st, p).(*Opaque)
			s, _ := o.X.(string)
			return s
		}
		isN := func(st *State, v Value) bool {
			p, ok := v.(Ptr)
			if !ok || p.Obj == 0 {
				return false
			}
			o, _ := ex.Load(st, p).(*Opaque)
			if o == nil {
				return false
			}
			z, ok := o.X.(*Z)
			if !ok {
				return false
			}
			k, ok := z.isConst()
			return ok && k.Cmp(N) == 0
		}
		st := ex.Base.clone()
		a := ex.anyBytes(st, "a", 0, symMax)
		def := func(name string, g func(ex *Exec, st *State, cc *CallCtx) []Outcome) {
			old := ex.Natives["(*math/big.Int)."+name]
			ex.Natives["(*math/big.Int)."+name] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
				if o := g(ex, st, cc); o != nil {
					return o
				}
				return old(ex, st, cc)
			}
		}
		def("SetBytes", func(ex *Exec, st *State, cc *CallCtx) []Outcome {
			s, ok := cc.Args[1].(Slice)
			if !ok || s.Obj != a.Obj || s.Len != a.Len || s.Off != a.Off {
				unsup("reads something else than the scalar")
			}
			ex.Store(st, cc.Args[0].(Ptr), raw)
			return ret(st, cc.Args[0])
		})
		def("Cmp", func(ex *Exec, st *State, cc *CallCtx) []Outcome {
			lt, gt := Const(64, ^uint64(0)), I64(1)
			if isN(st, cc.Args[0]) {
				cc.Args[0], cc.Args[1] = cc.Args[1], cc.Args[0]
				lt, gt = gt, lt
			}
			if !isN(st, cc.Args[1]) {
				unsup("comparison with something else than the order")
			}
			switch what(st, cc.Args[0]) {
			case raw.X.(string):
				var outs []Outcome
				fork2(ex, st, below, func(s *State) { outs = append(outs, Outcome{St: s, Ret: Tuple{lt}}) }, func(s *State) {
					fork2(ex, s, equal, func(s *State) { outs = append(outs, Outcome{St: s, Ret: Tuple{I64(0)}}) }, func(s *State) { outs = append(outs, Outcome{St: s, Ret: Tuple{gt}}) })
				})
				return outs
			case red.X.(string):
				return ret(st, lt)
			}
			return nil
		})
		def("Mod", func(ex *Exec, st *State, cc *CallCtx) []Outcome {
			if what(st, cc.Args[1]) == "" || !isN(st, cc.Args[2]) {
				return nil
			}
			ex.Store(st, cc.Args[0].(Ptr), red)
			return ret(st, cc.Args[0])
		})
		lens := map[int]bool{}
		def("Bytes", func(ex *Exec, st *State, cc *CallCtx) (outs []Outcome) {
			switch w := what(st, cc.Args[0]); {
			case w == "":
				return nil
			case w == raw.X.(string) && st.decide(below) != 1:
				c.Ob("the bytes taken are those of the reduced number", nm, false, "path condition", "the number may reach the order")
				return []Outcome{}
			}
			for n := 0; n <= 32; n++ {
				s := st.clone()
				for i := n; i < 32; i++ {
					s.assume(Eq(vs[i], Const(8, 0)))
				}
				if n > 0 {
					s.assume(Not(Eq(vs[n-1], Const(8, 0))))
				}
				ag := &Agg{}
				for i := n - 1; i >= 0; i-- {
					ag.E = append(ag.E, vs[i])
				}
				lens[n] = true
				id := ex.Alloc(s, "bytes", types.NewArray(types.Typ[types.Uint8], int64(n)), ag)
				outs = append(outs, Outcome{St: s, Ret: Tuple{Slice{Obj: id, Off: I64(0), Len: I64(int64(n)), Cap: I64(int64(n))}}})
			}
			return
		})
		bt := types.NewArray(types.Typ[types.Byte], 32)
		b := Ptr{Obj: ex.Alloc(st, "b", bt, ex.Zero(bt))}
		n := 0
		for _, o := range ex.Call(fn, []Value{b, a}, st, "f", 0) {
			if o.Panic != "" {
				c.Ob("no panic", nm, false, "vc", o.Panic+" at "+o.Pos)
				continue
			}
			n++
			for i, t := range leafTerms(ex.Load(o.St, b)) {
				c.Ob("little-endian bytes of the reduced number", nm, ex.must(o.St, Eq(t, vs[i])), "z3", fmt.Sprintf("byte %d", i))
			}
			c.Ob("operands keep their values", nm, o.St.Heap[a.Obj] == st.Heap[a.Obj], "frame", "")
		}
		c.Ob("every length", nm, len(lens) == 33 && n >= 33, "vc", fmt.Sprint(len(lens), n))
	})
}

// sm2Methods proves ScalarMult and ScalarBaseMult of the curve over the contracts of the functions above.
func sm2Methods(c *Ctx) {
	for _, base := range []bool{false, true} {
		base := base
		name := map[bool]string{false: "ScalarMult", true: "ScalarBaseMult"}[base]
		nm := "owcrypt.sm2_stdCurve." + name
		c.guard("exact multiple", nm, func() {
			m := newSm2Mul(c)
			ex := m.ex
			fn := c.P.Fn(".", "sm2_stdCurve."+name)
			P, R := m.atom("P"), m.atom("the multiple")
			G := m.atom("G")
			st := ex.Base.clone()
			k := ex.anyBytes(st, "k", 0, symMax)
			var ks []*Term
			for i := 0; i < 32; i++ {
				ks = append(ks, Var(8, fmt.Sprintf("k%d", i)))
			}
			gint := func(st *State, v Value) *fint {
				p, ok := v.(Ptr)
				if !ok || p.Obj == 0 {
					unsup("nil integer")
				}
				o, _ := ex.Load(st, p).(*Opaque)
				if o == nil {
					return nil
				}
				x, _ := o.X.(*fint)
				return x
			}
			ex.Contracts[sm2p+"FromBig"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
				x := gint(st, cc.Args[1])
				if x == nil || x.gv == nil {
					unsup("not a coordinate")
				}
				putLimbs(ex, st, cc.Args[0], m.row(map[int]string{10: ptx, 11: pty}[x.part], x.gv))
				return ret(st)
			}
			ex.Contracts[sm2p+"GetScalar"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
				s, ok := cc.Args[1].(Slice)
				if !ok || s.Obj != k.Obj || s.Len != k.Len || s.Off != k.Off {
					unsup("reads something else than the scalar")
				}
				if cs, ok := constLimbs(leafTerms(ex.Load(st, cc.Args[0].(Ptr)))); !ok || !sm2Zero(cs) {
					ex.PreFail = append(ex.PreFail, "sm2_stdGetScalar into bytes that are not zero")
					return nil
				}
				putLimbs(ex, st, cc.Args[0], ks)
				return ret(st)
			}
			mul := func(of *LP) func(ex *Exec, st *State, cc *CallCtx) []Outcome {
				return func(ex *Exec, st *State, cc *CallCtx) []Outcome {
					for i, t := range leafTerms(ex.Load(st, cc.Args[len(cc.Args)-1].(Ptr))) {
						if t != ks[i] {
							unsup("multiplies by something else than the reduced scalar")
						}
					}
					if of == nil {
						p, ok := m.affine(st, cc.Args[3], cc.Args[4])
						if !ok || p != P {
							unsup("multiplies something else than the point")
						}
					}
					m.put(st, cc.Args[0:3], R)
					return ret(st)
				}
			}
			ex.Contracts[sm2p+"ScalarMult"] = mul(nil)
			if base {
				ex.Contracts[sm2p+"ScalarBaseMult"] = mul(G)
			}
			ex.Contracts[sm2p+"ToAffine"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
				p := m.get(st, cc.Args[:3])
				var r []Value
				for i := 0; i < 2; i++ {
					r = append(r, Ptr{Obj: ex.Alloc(st, "xy", bigIntType(ex), &Opaque{Kind: "Z", X: &fint{gv: p, part: 10 + i}})})
				}
				return ret(st, r...)
			}
			args := []Value{ex.Load(st, ex.Load(st, Ptr{Obj: ex.globalObj(c.P.Pkgs[modPath].Var("sm2_std"), st)}).(Ptr))}
			if !base {
				for i := 0; i < 2; i++ {
					args = append(args, Ptr{Obj: ex.Alloc(st, "B", bigIntType(ex), &Opaque{Kind: "Z", X: &fint{gv: P, part: 10 + i}})})
				}
			}
			args = append(args, k)
			keep := map[int]*Object{}
			for id, o := range st.Heap {
				keep[id] = o
			}
			n := 0
			for _, o := range ex.Call(fn, args, st, "f", 0) {
				if o.Panic != "" {
					c.Ob("no panic", nm, false, "vc", o.Panic+" at "+o.Pos)
					continue
				}
				n++
				x, y := gint(o.St, o.Ret[0]), gint(o.St, o.Ret[1])
				c.Ob("the multiple by the reduced scalar", nm, x != nil && y != nil && x.gv == R && y.gv == R && x.part == 10 && y.part == 11, "ghost group", "")
				for id, was := range keep {
					c.Ob("nothing else is written", nm, o.St.Heap[id] == was, "frame", "")
				}
			}
			c.Ob("returns", nm, n > 0, "vc", "")
		})
	}
}
