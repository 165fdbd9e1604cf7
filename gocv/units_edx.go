package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// ---- Ed25519 family: byte strings, scalars and points as ghost values ----
//
// A point is an integer combination of the base point B and of decoded points; its affine coordinates are the atoms
// x(P), y(P) of the field domain. A scalar is an integer polynomial in atoms named by the bytes it was read from.
// The contracts below are what units f02, f03, g04, g04m prove about the functions they replace.

var edL, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

type edSch struct {
	f    *FDom // coordinates
	g    *FDom // points and scalars (integers, represented modulo 2^521-1)
	B    *LP
	pts  []*LP // canonical points that have been named
	scal []*LP
	idx  map[string]uint64
	nz   int
}

func bitsKey(b []*Term) string {
	var s strings.Builder
	for _, t := range b {
		if t.IsConst() {
			fmt.Fprintf(&s, ":#%d", t.C)
			continue
		}
		for i := 0; i < t.W; i++ {
			fmt.Fprintf(&s, ":%d", Extract(t, i, 1).ID)
		}
	}
	return s.String()
}

// bitsEq reports whether two byte strings agree in their first n bits.
func bitsEq(a, b []*Term, n int) bool {
	for i := 0; i < n; i++ {
		x, y := a[i/8], b[i/8]
		if i%8 == 0 && x == y && n-i >= 8 {
			i += 7
			continue
		}
		if Extract(x, i%8, 1) != Extract(y, i%8, 1) {
			return false
		}
	}
	return true
}

// useEd installs the contracts.
func useEd(ex *Exec) *edSch {
	q := &edSch{f: newEdField(), g: NewFDom("edpt", p521, 32, 1), idx: map[string]uint64{}}
	q.B = q.g.named("B")
	f := q.f
	edContracts(ex, f)
	b32 := func(ex *Exec, st *State, v Value) []*Term { return leafTerms(ex.Load(st, v.(Ptr))) }
	lowScalar := func(ex *Exec, st *State, fn string, b []*Term) *LP {
		if !ex.must(st, Eq(Extract(b[31], 7, 1), Const(1, 0))) {
			ex.PreFail = append(ex.PreFail, fn+": scalar of 2^255 or more")
		}
		return q.scalar(b)
	}
	c := ex.Contracts
	c[edPkg+".ScReduce"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		putLimbs(ex, st, c.Args[0], q.reduce(b32(ex, st, c.Args[1])))
		return ret(st)
	}
	c[modPath+"/eddsa.x25519_sc_reduce"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		s := c.Args[0].(Slice)
		if !s.Len.IsConst() || s.Len.C != 64 {
			unsup("x25519_sc_reduce of a slice that is not 64 bytes long")
		}
		a := &Agg{}
		for _, t := range q.reduce(ex.SliceTerms(st, s)) {
			a.E = append(a.E, t)
		}
		return ret(st, a)
	}
	c[edPkg+".ScMulAdd"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		p := LAdd(LMul(q.scalar(b32(ex, st, c.Args[1])), q.scalar(b32(ex, st, c.Args[2]))), q.scalar(b32(ex, st, c.Args[3])))
		putLimbs(ex, st, c.Args[0], q.canon(p))
		return ret(st)
	}
	c[edPkg+".GeScalarMultBase"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		q.put(ex, st, c.Args[0], LMul(lowScalar(ex, st, "GeScalarMultBase", b32(ex, st, c.Args[1])), q.B), true)
		return ret(st)
	}
	c[edPkg+".GeDoubleScalarMultVartime"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		a, b := lowScalar(ex, st, "GeDoubleScalarMultVartime", b32(ex, st, c.Args[1])), lowScalar(ex, st, "GeDoubleScalarMultVartime", b32(ex, st, c.Args[3]))
		q.put(ex, st, c.Args[0], LAdd(LMul(a, q.get(ex, st, c.Args[2])), LMul(b, q.B)), false)
		return ret(st)
	}
	c[edPkg+".GePointAddVarTime"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		a, b := lowScalar(ex, st, "GePointAddVarTime", b32(ex, st, c.Args[1])), lowScalar(ex, st, "GePointAddVarTime", b32(ex, st, c.Args[3]))
		q.put(ex, st, c.Args[0], LAdd(LMul(a, q.get(ex, st, c.Args[2])), LMul(b, q.get(ex, st, c.Args[4]))), false)
		return ret(st)
	}
	for _, k := range []string{"ExtendedGroupElement", "ProjectiveGroupElement"} {
		c[edMeth(k, "ToBytes")] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
			putLimbs(ex, st, c.Args[1], q.enc(q.get(ex, st, c.Args[0])))
			return ret(st)
		}
	}
	dec := func(sgn int64) func(ex *Exec, st *State, c *CallCtx) []Outcome {
		return func(ex *Exec, st *State, c *CallCtx) []Outcome {
			p, ok := q.decode(b32(ex, st, c.Args[1]))
			bad := st.clone()
			var outs []Outcome
			if !ok.IsFalse() && st.decide(ok) != 0 {
				if !ok.IsTrue() {
					st.assume(ok)
				}
				q.put(ex, st, c.Args[0], LScale(p, big.NewInt(sgn)), true)
				outs = append(outs, ret(st, Const(1, 1))...)
			}
			if !ok.IsTrue() && bad.decide(ok) != 1 {
				bad.assume(Not(ok))
				a := ex.Load(bad, c.Args[0].(Ptr)).(*Agg)
				n := &Agg{}
				for i := range a.E {
					q.nz++
					e := &Agg{}
					for _, t := range f.mk(f.named(fmt.Sprintf("junk%d", q.nz)), edKind["ExtendedGroupElement"][i]) {
						e.E = append(e.E, t)
					}
					n.E = append(n.E, e)
				}
				ex.Store(bad, c.Args[0].(Ptr), n)
				outs = append(outs, ret(bad, Const(1, 0))...)
			}
			return outs
		}
	}
	c[edMeth("ExtendedGroupElement", "FromBytes")] = dec(1)
	c[modPath+"/eddsa.geFromBytesNegateVartime"] = dec(-1)
	// the specification's names
	pk := modPath + "/zzspec/prims."
	arr := func(ts []*Term) Value {
		a := &Agg{}
		for _, t := range ts {
			a.E = append(a.E, t)
		}
		return a
	}
	n := ex.Natives
	lt := func(v Value) []*Term { return leafTerms(v) }
	n[pk+"EdBase"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		return ret(st, arr(q.enc(LMul(q.scalar(lt(c.Args[0])), q.B))))
	}
	n[pk+"EdReduce"] = func(ex *Exec, st *State, c *CallCtx) []Outcome { return ret(st, arr(q.reduce(lt(c.Args[0])))) }
	n[pk+"EdMulAdd"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		return ret(st, arr(q.canon(LAdd(LMul(q.scalar(lt(c.Args[0])), q.scalar(lt(c.Args[1]))), q.scalar(lt(c.Args[2]))))))
	}
	n[pk+"EdOn"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		_, ok := q.decode(lt(c.Args[0]))
		return ret(st, ok)
	}
	n[pk+"EdSub"] = func(ex *Exec, st *State, c *CallCtx) []Outcome { // enc(s*B - h*A)
		p, _ := q.decode(lt(c.Args[1]))
		return ret(st, arr(q.enc(LSub(LMul(q.scalar(lt(c.Args[2])), q.B), LMul(q.scalar(lt(c.Args[0])), p)))))
	}
	n[pk+"EdAdd"] = func(ex *Exec, st *State, c *CallCtx) []Outcome { // enc(P + Q), P + Q = 0
		p, _ := q.decode(lt(c.Args[0]))
		r, _ := q.decode(lt(c.Args[1]))
		s := q.g.red(LAdd(p, r))
		x, y := q.xy(s)
		return ret(st, arr(q.enc(s)), And(f.Zero(x), f.Zero(LSub(y, LI(1)))))
	}
	n[pk+"EdNotNeutral"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		p, _ := q.decode(lt(c.Args[0]))
		_, y := q.xy(q.g.red(p))
		f.Unit(LSub(LI(1), y))
		return ret(st)
	}
	n[pk+"EdToMont"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		y := f.edOfBytes(lt(c.Args[0]))
		return ret(st, arr(f.edWords(LMul(f.Inv(st, LSub(LI(1), y)), LAdd(y, LI(1))))))
	}
	n[pk+"EdOfMont"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		u := f.edOfBytes(lt(c.Args[0]))
		return ret(st, arr(f.edWords(LMul(LSub(u, LI(1)), f.Inv(st, LAdd(u, LI(1)))))))
	}
	n[pk+"EdCanonical"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		b := lt(c.Args[0])
		w := f.edWords(f.edOfBytes(b))
		var cs []*Term
		for i := range b {
			cs = append(cs, Eq(b[i], w[i]))
		}
		return ret(st, And(cs...))
	}
	n[pk+"LastRandom"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		s := c.Args[0].(Slice)
		ex.writeSlice(st, s, s.Len, []Piece{{Sym: fmt.Sprintf("rnd%d", st.visits["rndid"]), Off: I64(0), Len: s.Len, W: 8}}, c.Path)
		return ret(st)
	}
	return q
}

// scalar is the integer a little-endian byte string stands for.
func (q *edSch) scalar(b []*Term) *LP {
	for len(b) > 32 {
		n := len(b) - 1
		if !b[n].IsConst() || b[n].C != 0 {
			break
		}
		b = b[:n]
	}
	all := true
	v := new(big.Int)
	for i, t := range b {
		if !t.IsConst() {
			all = false
			break
		}
		v.Add(v, new(big.Int).Lsh(new(big.Int).SetUint64(t.C), uint(8*i)))
	}
	if all {
		return LC(v)
	}
	if t := b[0]; t.Op == OUF && t.Name == "sc.ed" {
		i := t.Args[0].C
		if bitsEq(b, scalarBytes(i), 256) {
			return q.scal[i]
		}
	}
	return q.g.named("int" + bitsKey(b))
}

func scalarBytes(i uint64) []*Term {
	r := make([]*Term, 32)
	for j := range r {
		if j == 31 {
			r[j] = Zext(UF(5, "sc.ed", Const(32, i), Const(8, uint64(j))), 8)
		} else {
			r[j] = UF(8, "sc.ed", Const(32, i), Const(8, uint64(j)))
		}
	}
	return r
}

// canon returns the canonical bytes of p modulo the group order: an integer r with r*B = p*B.
func (q *edSch) canon(p *LP) []*Term {
	p = q.g.red(p)
	if v, ok := p.isConst(); ok {
		v = new(big.Int).Mod(v, edL)
		r := make([]*Term, 32)
		for i := range r {
			r[i] = Const(8, new(big.Int).Rsh(v, uint(8*i)).Uint64()&255)
		}
		return r
	}
	k := p.key()
	i, ok := q.idx[k]
	if !ok {
		i = uint64(len(q.scal))
		q.idx[k] = i
		r := q.g.named("mod:" + k)
		q.scal = append(q.scal, r)
		l := LMul(r, q.B)
		q.g.RuleLead(l.leadMon().a, LSub(l, LMul(p, q.B)))
	}
	return scalarBytes(i)
}
func (q *edSch) reduce(b []*Term) []*Term { return q.canon(q.scalar(b)) }

// sign-normalised point: P = s * canonical
func (q *edSch) norm(p *LP) (*LP, int64) {
	p = q.g.red(p)
	if len(p.m) == 0 {
		return p, 1
	}
	if l := p.leadMon(); l.c.Cmp(new(big.Int).Rsh(p521, 1)) > 0 {
		return q.g.red(LScale(p, big.NewInt(-1))), -1
	}
	return p, 1
}

func (q *edSch) xy(p *LP) (x, y *LP) {
	p, s := q.norm(p)
	if len(p.m) == 0 {
		return LI(0), LI(1)
	}
	k := p.key()
	if q.f.d.byKey["x:"+k] == nil {
		q.pts = append(q.pts, p)
	}
	return LScale(q.f.named("x:"+k), big.NewInt(s)), q.f.named("y:" + k)
}

func (q *edSch) put(ex *Exec, st *State, dst Value, p *LP, ext bool) {
	x, y := q.xy(p)
	q.nz++
	z := q.f.Unit(q.f.Atom(fmt.Sprintf("z%d", q.nz)))
	kind := "ProjectiveGroupElement"
	cs := []*LP{LMul(x, z), LMul(y, z), z}
	if ext {
		kind = "ExtendedGroupElement"
		cs = append(cs, fMul(x, y, z))
	}
	ex.Store(st, dst.(Ptr), q.f.aggL(cs, edKind[kind]))
}

// get finds the point with the given coordinates.
func (q *edSch) get(ex *Exec, st *State, v Value) *LP {
	a := ex.Load(st, v.(Ptr)).(*Agg)
	kind := edKind["ProjectiveGroupElement"]
	if len(a.E) == 4 {
		kind = edKind["ExtendedGroupElement"]
	}
	var c []*LP
	for i := range a.E {
		w := q.f.coordV(st, a, i)
		if w.b > kind[i] {
			ex.PreFail = append(ex.PreFail, fmt.Sprintf("coordinate %d of a point has level %d", i, w.b))
		}
		c = append(c, q.f.red(w.p))
	}
	x, ok1 := q.f.div(c[0], c[2])
	y, ok2 := q.f.div(c[1], c[2])
	bad := func(d string) *LP {
		ex.PreFail = append(ex.PreFail, "operand is not a point: "+d)
		q.nz++
		return q.g.named(fmt.Sprintf("badpoint%d", q.nz))
	}
	if !ok1 || !ok2 {
		return bad("coordinates that are not those of a point")
	}
	x, y = q.f.red(x), q.f.red(y)
	if len(a.E) == 4 {
		if t := q.f.red(LSub(LMul(c[3], c[2]), LMul(c[0], c[1]))); len(t.m) != 0 {
			return bad("T*Z differs from X*Y")
		}
	}
	for _, p := range append([]*LP{LI(0)}, q.pts...) {
		for _, s := range []int64{1, -1} {
			px, py := q.xy(p)
			if LScale(px, big.NewInt(s)).key() == x.key() || q.f.red(LSub(LScale(px, big.NewInt(s)), x)).key() == LI(0).key() {
				if q.f.red(LSub(py, y)).key() == LI(0).key() {
					return LScale(p, big.NewInt(s))
				}
			}
		}
	}
	return bad("unknown coordinates")
}

// enc is the encoding of a point: ordinate and parity of the abscissa.
func (q *edSch) enc(p *LP) []*Term {
	x, y := q.xy(p)
	r := append([]*Term{}, q.f.edWords(y)...)
	r[31] = Concat8(Extract(q.f.edWords(x)[0], 0, 1), Extract(r[31], 0, 7))
	return r
}

// Concat8 joins a top bit and seven low bits.
func Concat8(hi, lo *Term) *Term { return Concat(hi, lo) }

// decode returns the point a string encodes and the condition that it encodes one.
func (q *edSch) decode(b []*Term) (*LP, *Term) {
	for _, p := range q.pts {
		for _, s := range []int64{1, -1} {
			if e := q.enc(LScale(p, big.NewInt(s))); bitsEq(b, e, 256) {
				return LScale(p, big.NewInt(s)), Const(1, 1)
			}
		}
	}
	k := bitsKey(b)
	return q.g.named("pt" + k), UF(1, "eddec"+k)
}

// errAsBool compares a Go error with the specification's success flag.
func errAsBool(ex *Exec, st *State, i int, a, b Value) (bool, string, bool) {
	x, ok := a.(Iface)
	if !ok {
		return false, "", false
	}
	return ex.must(st, Eq(b.(*Term), Bool(x.T == nil))), "error does not agree with the specification", true
}

var edKinds = []struct {
	n    string
	sel  uint64
	pre  string
	kind uint64
}{{"CURVE25519", 0xECC00003, "CURVE25519", 0}, {"ED25519", 0xECC00004, "ED25519", 1}, {"X25519", 0xECC00005, "X25519", 2}}

func init() {
	edSetup := func(ex *Exec) {
		protoSetup(ex)
		useRand(ex)
		useEd(ex)
	}
	pats := []string{".", "./eddsa", "./zzspec/edds"}
	arr32 := func(ex *Exec, n string) Value {
		a := &Agg{}
		for _, t := range freshTerms(32, 8, n) {
			a.E = append(a.E, t)
		}
		return a
	}
	sb := func(ex *Exec, st *State, n string, null bool) Value { return optBytes(ex, st, n, null) }
	unit("d02", pats, 1, func(c *Ctx) {
		for _, n := range []string{"ConvertXToEd", "ConvertEdToX"} {
			n := n
			c.Refine(Refine{Fn: c.P.Fn("eddsa", n), Spec: specFn(c, "edds", n), Setup: edSetup, Same: errAsBool,
				Variants: []Variant{{"any input", func(ex *Exec, st *State) []Value { return []Value{arr32(ex, "in")} }}}})
		}
		for n, s := range map[string]string{"CURVE25519_convert_X_to_Ed": "PubXToEd", "CURVE25519_convert_Ed_to_X": "PubEdToX"} {
			var vs []Variant
			for _, null := range []bool{false, true} {
				null := null
				vs = append(vs, Variant{fmt.Sprintf("nil=%v", null), func(ex *Exec, st *State) []Value { return []Value{sb(ex, st, "in", null)} }})
			}
			c.Refine(Refine{Fn: c.P.Fn(".", n), Spec: specFn(c, "edds", s), Setup: edSetup, Same: errAsBool, Variants: vs})
		}
	})
	unit("d01", pats, 1, func(c *Ctx) {
		// constant-time comparison
		eq32 := func(ex *Exec, st *State, x, y Value) *Term {
			a, b := leafTerms(ex.Load(st, x.(Ptr))), leafTerms(ex.Load(st, y.(Ptr)))
			var cs []*Term
			for i := range a {
				cs = append(cs, Eq(a[i], b[i]))
			}
			return Ite(And(cs...), Const(64, 0), Const(64, ^uint64(0)))
		}
		cmp := c.P.Fn("eddsa", "cryptoVerify32Ref")
		edSetup := func(ex *Exec) {
			edSetup(ex)
			if cmp != nil {
				ex.Contracts[cmp.String()] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
					return ret(st, eq32(ex, st, c.Args[0], c.Args[1]))
				}
			}
		}
		if cmp != nil {
			c.guard("contract checked on every path", "eddsa.cryptoVerify32Ref", func() {
				ex := c.Exec()
				st := ex.Base.clone()
				u8 := types.NewArray(types.Typ[types.Uint8], 32)
				x := Ptr{Obj: ex.Alloc(st, "x", u8, arr32(ex, "x"))}
				y := Ptr{Obj: ex.Alloc(st, "y", u8, arr32(ex, "y"))}
				for _, o := range ex.Run(cmp, []Value{x, y}, st, "cmp") {
					c.Ob("zero exactly for equal strings", "eddsa.cryptoVerify32Ref", o.Panic == "" && ex.must(o.St, Eq(T(o.Ret[0]), eq32(ex, o.St, x, y))), "z3", "")
				}
			})
		}
		for _, k := range edKinds {
			k := k
			var vs, vv []Variant
			for i := 0; i < 3; i++ {
				i := i
				vs = append(vs, Variant{fmt.Sprintf("case %d", i), func(ex *Exec, st *State) []Value {
					return []Value{sb(ex, st, "key", i == 1), sb(ex, st, "msg", i == 2)}
				}})
			}
			for i := 0; i < 4; i++ {
				i := i
				vv = append(vv, Variant{fmt.Sprintf("case %d", i), func(ex *Exec, st *State) []Value {
					return []Value{sb(ex, st, "pub", i == 1), sb(ex, st, "msg", i == 2), sb(ex, st, "sig", i == 3)}
				}})
			}
			kk := func(ex *Exec, st *State, a []Value) []Value { return append([]Value{Const(64, k.kind)}, a...) }
			c.Refine(Refine{Fn: c.P.Fn("eddsa", k.pre+"_sign"), Spec: specFn(c, "edds", "Sign"), Setup: edSetup, Same: errAsBool, Variants: vs, SpecArgs: kk})
			c.Refine(Refine{Fn: c.P.Fn("eddsa", k.pre+"_verify"), Spec: specFn(c, "edds", "Verify"), Setup: edSetup, Variants: vv, SpecArgs: kk})
			c.Refine(Refine{Fn: specFn(c, "edds", "RoundTrip"), Name: "sign then verify: " + k.n, Setup: edSetup,
				Variants: []Variant{{"any key and message", func(ex *Exec, st *State) []Value {
					return []Value{Const(64, k.kind), ex.argBytes(st, "key", I64(32)), sb(ex, st, "msg", false)}
				}}},
				Post: func(ex *Exec, o Outcome, args []Value, ok func(string, bool, string)) {
					ok("a signature verifies under the matching public key", ex.must(o.St, T(o.Ret[0])), Show(T(o.Ret[0]), 6))
				}})
		}
	})
	var nilv = func(null int, names ...string) []Variant { // no argument nil, then each of them
		var vs []Variant
		for i := 0; i <= null; i++ {
			i := i
			vs = append(vs, Variant{fmt.Sprintf("nil argument %d", i), func(ex *Exec, st *State) []Value {
				var r []Value
				for j, n := range names {
					r = append(r, sb(ex, st, n, i == j+1))
				}
				return r
			}})
		}
		return vs
	}
	unit("k01ed", pats, 1, func(c *Ctx) {
		for _, k := range edKinds {
			k := k
			c.Refine(Refine{Fn: c.P.Fn("eddsa", k.pre+"_genPub"), Spec: specFn(c, "edds", "GenPub"), Setup: edSetup, Same: errAsBool, Variants: nilv(1, "key"),
				SpecArgs: func(ex *Exec, st *State, a []Value) []Value { return []Value{Const(64, k.kind), a[0]} }})
			c.Refine(Refine{Fn: c.P.Fn(".", "GenPubkey"), Name: "owcrypt.GenPubkey " + k.n, Spec: specFn(c, "edds", "GenPubkey"), Setup: edSetup, Variants: withSel(nilv(1, "key"), k.sel),
				SpecArgs: func(ex *Exec, st *State, a []Value) []Value { return []Value{Const(64, k.kind), a[0]} }})
		}
	})
	unit("d01api", pats, 1, func(c *Ctx) {
		for _, k := range edKinds {
			k := k
			c.Refine(Refine{Fn: c.P.Fn(".", "Signature"), Name: "owcrypt.Signature " + k.n, Spec: specFn(c, "edds", "SignCode"), Setup: edSetup, Variants: withSel(nilv(3, "key", "id", "msg"), k.sel),
				SpecArgs: func(ex *Exec, st *State, a []Value) []Value { return []Value{Const(64, k.kind), a[0], a[2]} }})
			c.Refine(Refine{Fn: c.P.Fn(".", "Verify"), Name: "owcrypt.Verify " + k.n, Spec: specFn(c, "edds", "VerifyCode"), Setup: edSetup, Variants: withSel(nilv(4, "pub", "id", "msg", "sig"), k.sel),
				SpecArgs: func(ex *Exec, st *State, a []Value) []Value { return []Value{Const(64, k.kind), a[0], a[2], a[3]} }})
		}
	})
	unit("g04api", pats, 1, func(c *Ctx) {
		const sel = 0xECC00004
		drop := func(n int) func(ex *Exec, st *State, a []Value) []Value {
			return func(ex *Exec, st *State, a []Value) []Value { return a[:n] }
		}
		c.Refine(Refine{Fn: c.P.Fn(".", "Point_mulBaseG"), Name: "owcrypt.Point_mulBaseG Ed25519", Spec: specFn(c, "edds", "MulBaseG"), Setup: edSetup, Variants: withSel(nilv(1, "k"), sel), SpecArgs: drop(1)})
		c.Refine(Refine{Fn: c.P.Fn(".", "Point_mulBaseG_add"), Name: "owcrypt.Point_mulBaseG_add Ed25519", Spec: specFn(c, "edds", "MulBaseGAdd"), Setup: edSetup, Variants: withSel(nilv(2, "p", "k"), sel), SpecArgs: drop(2)})
		c.Refine(Refine{Fn: c.P.Fn(".", "Point_add"), Name: "owcrypt.Point_add Ed25519", Spec: specFn(c, "edds", "Add"), Setup: edSetup, Variants: withSel(nilv(2, "p", "q"), sel), SpecArgs: drop(2)})
	})
}

// withSel appends a curve selector to the arguments.
func withSel(vs []Variant, sel uint64) (r []Variant) {
	for _, v := range vs {
		v := v
		r = append(r, Variant{v.Label, func(ex *Exec, st *State) []Value { return append(v.Args(ex, st), Const(32, sel)) }})
	}
	return r
}
