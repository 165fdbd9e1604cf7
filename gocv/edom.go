package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- prime-order elliptic-curve groups ----

// ECurve is a short Weierstrass curve of prime order.
type ECurve struct {
	Name               string
	P, N, A, B, Gx, Gy *big.Int
}

func hexBig(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

var ecs = map[string]*ECurve{
	"secp256k1": {"secp256k1", hexBig("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"), hexBig("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"), big.NewInt(0), big.NewInt(7), hexBig("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), hexBig("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")},
	"secp256r1": {"secp256r1", hexBig("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"), hexBig("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"), big.NewInt(-3), hexBig("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"), hexBig("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"), hexBig("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")},
	"sm2":       {"sm2", hexBig("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF"), hexBig("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123"), big.NewInt(-3), hexBig("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93"), hexBig("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7"), hexBig("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0")},
}

// EPt is a group element: a linear combination of base elements with scalars modulo the group order.
type EPt struct {
	c   *ECurve
	key string
	t   []eterm
}
type eterm struct {
	b *ebase
	k *Z // normal form modulo the order
}
type ebase struct {
	id   int
	name string
	x, y *Z
}

var (
	eptTab  = map[string]*EPt{}
	ebases  = map[string]*ebase{}
	ebaseID int
)

func eBase(c *ECurve, x, y *Z) *ebase {
	k := fmt.Sprintf("%s:%d:%d", c.Name, x.id, y.id)
	if b := ebases[k]; b != nil {
		return b
	}
	ebaseID++
	b := &ebase{id: ebaseID, name: k, x: x, y: y}
	ebases[k] = b
	return b
}

func ePoly(c *ECurve, m map[*ebase]*Z) *EPt {
	var bs []*ebase
	for b, k := range m {
		k = k.nf(c.N)
		m[b] = k
		if len(k.m) > 0 {
			bs = append(bs, b)
		}
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
	p := &EPt{c: c}
	var s strings.Builder
	s.WriteString(c.Name)
	for _, b := range bs {
		p.t = append(p.t, eterm{b, m[b]})
		fmt.Fprintf(&s, "+%d*%d", m[b].id, b.id)
	}
	p.key = s.String()
	if o := eptTab[p.key]; o != nil {
		return o
	}
	eptTab[p.key] = p
	return p
}

func (p *EPt) String() string {
	var s []string
	for _, t := range p.t {
		n := "pt(" + t.b.x.String() + "," + t.b.y.String() + ")"
		if t.b.x == ZC(p.c.Gx) {
			n = "G"
		}
		s = append(s, "["+t.k.String()+"]"+n)
	}
	if s == nil {
		return "O"
	}
	return strings.Join(s, "+")
}

func (p *EPt) isG(b *ebase) bool { return b.x == ZC(p.c.Gx) && b.y == ZC(p.c.Gy) }

func eAdd(p, q *EPt) *EPt {
	m := map[*ebase]*Z{}
	for _, t := range p.t {
		m[t.b] = t.k
	}
	for _, t := range q.t {
		if o := m[t.b]; o != nil {
			m[t.b] = ZAdd(o, t.k)
		} else {
			m[t.b] = t.k
		}
	}
	return ePoly(p.c, m)
}
func eMul(k *Z, p *EPt) *EPt {
	m := map[*ebase]*Z{}
	for _, t := range p.t {
		m[t.b] = zMulMod(k.nf(p.c.N), t.k, p.c.N)
	}
	return ePoly(p.c, m)
}
func eG(c *ECurve) *EPt { return ePoly(c, map[*ebase]*Z{eBase(c, ZC(c.Gx), ZC(c.Gy)): ZI(1)}) }

// inf is the condition that p is the identity.
func (p *EPt) inf() *Term {
	switch len(p.t) {
	case 0:
		return True()
	case 1:
		t := p.t[0]
		var r *Term
		if c, ok := t.k.isConst(); ok {
			r = Bool(c.Sign() == 0)
		} else {
			r = zZeroTerm(t.k) // a normal form modulo a prime: refined by zInf
		}
		if !p.isG(t.b) {
			r = Or(r, eBaseInf(t.b))
		}
		return r
	}
	return UF(1, "inf:"+p.key)
}

// eBaseInf: the pair (0,0) stands for the identity.
func eBaseInf(b *ebase) *Term {
	cx, okx := b.x.isConst()
	cy, oky := b.y.isConst()
	if okx && cx.Sign() != 0 || oky && cy.Sign() != 0 {
		return False()
	}
	zt := func(z *Z, ok bool) *Term {
		if ok {
			return True()
		}
		return And(Not(zNegTerm(z)), zZeroTerm(z))
	}
	return And(zt(b.x, okx), zt(b.y, oky))
}

// einf is inf with the scalar's zero test expressed on its residue, under the facts of st.
func (ex *Exec) einf(st *State, p *EPt) *Term {
	if len(p.t) == 1 {
		t := p.t[0]
		_, z := ex.zSign(st, ex.ZMod(st, t.k, p.c.N))
		if p.isG(t.b) {
			return z
		}
		_, zx := ex.zSign(st, t.b.x)
		_, zy := ex.zSign(st, t.b.y)
		return Or(z, And(zx, zy))
	}
	return p.inf()
}

// coords are the affine coordinates, (0,0) for the identity.
func (ex *Exec) coords(st *State, p *EPt) (*Z, *Z) {
	if len(p.t) == 0 {
		return ZI(0), ZI(0)
	}
	if len(p.t) == 1 {
		if c, ok := p.t[0].k.isConst(); ok && c.Cmp(big.NewInt(1)) == 0 {
			return p.t[0].b.x, p.t[0].b.y
		}
		if c, ok := p.t[0].k.isConst(); ok && (c.Cmp(big.NewInt(-1)) == 0 || new(big.Int).Add(c, big.NewInt(1)).Cmp(p.c.N) == 0) && ex.must(st, Not(ex.einf(st, ePoly(p.c, map[*ebase]*Z{p.t[0].b: ZI(1)})))) {
			return p.t[0].b.x, ZSub(ZC(p.c.P), p.t[0].b.y) // no finite point has y = 0: the order is odd
		}
	}
	hi := new(big.Int).Sub(p.c.P, big.NewInt(1))
	x, y := zAtom("X", p.key, new(big.Int), hi), zAtom("Y", p.key, new(big.Int), hi)
	x.pt, y.pt = p, p
	return zOf(x), zOf(y)
}

// point reads a pair of coordinates as a group element.
func (ex *Exec) point(st *State, c *ECurve, x, y *Z) *EPt {
	if a, b := x.single(), y.single(); a != nil && b != nil && a.kind == "X" && b.kind == "Y" && a.pt == b.pt && a.pt.c == c {
		return a.pt
	}
	if x == ZI(0) && y == ZI(0) {
		return ePoly(c, nil)
	}
	// (X(Q), -Y(Q) mod p) is -Q, the identity included
	if a, b := x.single(), y.single(); a != nil && b != nil && a.kind == "X" && a.pt.c == c && b.kind == "mod" && b.n.Cmp(c.P) == 0 {
		if ya := zAtom("Y", a.pt.key, nil, nil); b.arg == ZScale(zOf(ya), big.NewInt(-1)).nf(c.P) {
			return eMul(ZI(-1), a.pt)
		}
	}
	// (X(Q), p - Y(Q)) is -Q, unless Q is the identity
	if a := x.single(); a != nil && a.kind == "X" && a.pt.c == c {
		if b := ZSub(ZC(c.P), y).single(); b != nil && b.kind == "Y" && b.pt == a.pt && ex.must(st, Not(ex.einf(st, a.pt))) {
			return eMul(ZI(-1), a.pt)
		}
	}
	// (x, p - y) = -(x, y) for a square root y
	if b := ZSub(ZC(c.P), y).single(); b != nil && b.kind == "sqrt" && b.lo.Sign() > 0 && b.n.Cmp(c.P) == 0 {
		return ePoly(c, map[*ebase]*Z{eBase(c, x, zOf(b)): ZI(-1).nf(c.N)})
	}
	return ePoly(c, map[*ebase]*Z{eBase(c, x, y): ZI(1)})
}

// onCurve is the condition that (x,y) is a finite point: canonical coordinates satisfying the equation.
func (ex *Exec) onCurve(st *State, c *ECurve, x, y *Z) *Term { return ex.onCurveEq(st, c, x, y, true) }

// onCurveEq is the curve equation modulo p, with canonical coordinates if canon.
func (ex *Exec) onCurveEq(st *State, c *ECurve, x, y *Z, canon bool) *Term {
	if a, b := x.single(), y.single(); a != nil && b != nil && a.kind == "X" && b.kind == "Y" && a.pt == b.pt && a.pt.c == c {
		return Not(ex.einf(st, a.pt))
	}
	if x == ZC(c.Gx) && y == ZC(c.Gy) {
		return True()
	}
	rhs := ZAdd(ZMul(x, ZMul(x, x)), ZAdd(ZScale(x, c.A), ZC(c.B))).nf(c.P)
	nx := True()
	if canon {
		nx, _ = ex.zSign(st, ZSub(x, ZC(c.P)))
	}
	for _, w := range []*Z{y, ZSub(ZC(c.P), y)} {
		if a := w.single(); a != nil && a.kind == "sqrt" && a.arg == rhs && a.n.Cmp(c.P) == 0 {
			return And(nx, UF(1, fmt.Sprintf("issquare:%d:%s", rhs.id, c.P)))
		}
	}
	ny := True()
	if canon {
		ny, _ = ex.zSign(st, ZSub(y, ZC(c.P)))
	}
	l := ex.ZMod(nil, ZMul(y, y), c.P) // the same terms on every path
	r := ex.ZMod(nil, ZAdd(ZMul(x, ZMul(x, x)), ZAdd(ZScale(x, c.A), ZC(c.B))), c.P)
	_, eq := ex.zSign(st, ZSub(r, l))
	return And(nx, ny, eq)
}

// needPoint is the precondition of the group operations: a point of the curve, or (0,0) for the identity.
func (ex *Exec) needPoint(st *State, c *ECurve, x, y *Z, cc *CallCtx) {
	p := ex.point(st, c, x, y)
	for _, t := range p.t {
		if p.isG(t.b) {
			continue
		}
		if ex.pointOK[t.b] {
			continue
		}
		ok := ex.onCurve(st, c, t.b.x, t.b.y)
		_, zx := ex.zSign(st, t.b.x)
		_, zy := ex.zSign(st, t.b.y)
		if !ex.must(st, Or(ok, And(zx, zy))) {
			ex.PreFail = append(ex.PreFail, fmt.Sprintf("precondition of %s at %s: (%s, %s) is not shown to be on the curve", cc.Fn, cc.Path, t.b.x, t.b.y))
			return
		}
	}
}

// useCurve installs contracts for the group operations of a curve under the given function names.
func useCurve(ex *Exec, c *ECurve, recv string) {
	scalar := func(st *State, v Value) *Z {
		return ex.zSetBytes(st, ex.SliceView(st, v.(Slice)))
	}
	out := func(st *State, cc *CallCtx, p *EPt) []Outcome {
		x, y := ex.coords(st, p)
		return ret(st, ex.zNew(st, cc.Path+".x", x), ex.zNew(st, cc.Path+".y", y))
	}
	wrap := func(name string, f func(st *State, cc *CallCtx) []Outcome) {
		ex.Contracts[recv+"."+name] = func(ex *Exec, st *State, cc *CallCtx) (outs []Outcome) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(zNil); ok {
						outs = []Outcome{{St: st, Panic: "nil pointer dereference (nil *big.Int in " + name + ")"}}
						return
					}
					panic(r)
				}
			}()
			return f(st, cc)
		}
	}
	std := ex.stdCurve
	need := func(st *State, x, y *Z, cc *CallCtx, f func(st *State) []Outcome) []Outcome {
		if !std {
			ex.needPoint(st, c, x, y, cc)
			return f(st)
		}
		// crypto/elliptic panics on operands that are not points
		p := ex.point(st, c, x, y)
		ok := True()
		for _, t := range p.t {
			if !p.isG(t.b) {
				_, zx := ex.zSign(st, t.b.x)
				_, zy := ex.zSign(st, t.b.y)
				ok = And(ok, Or(ex.onCurve(st, c, t.b.x, t.b.y), And(zx, zy)))
			}
		}
		if ok.IsTrue() || ex.must(st, ok) {
			return f(st)
		}
		var outs []Outcome
		fork2(ex, st, ok, func(s *State) { outs = append(outs, f(s)...) }, func(s *State) {
			outs = append(outs, Outcome{St: s, Panic: "crypto/elliptic: attempted operation on invalid point", Pos: cc.Path})
		})
		return outs
	}
	wrap("IsOnCurve", func(st *State, cc *CallCtx) []Outcome {
		// the methods of this repository test the equation only, crypto/elliptic also the ranges
		return ret(st, ex.onCurveEq(st, c, ex.zGet(st, cc.Args[1]), ex.zGet(st, cc.Args[2]), std))
	})
	wrap("ScalarBaseMult", func(st *State, cc *CallCtx) []Outcome {
		return out(st, cc, eMul(scalar(st, cc.Args[1]), eG(c)))
	})
	wrap("ScalarMult", func(st *State, cc *CallCtx) []Outcome {
		x, y := ex.zGet(st, cc.Args[1]), ex.zGet(st, cc.Args[2])
		return need(st, x, y, cc, func(st *State) []Outcome {
			return out(st, cc, eMul(scalar(st, cc.Args[3]), ex.point(st, c, x, y)))
		})
	})
	wrap("Add", func(st *State, cc *CallCtx) []Outcome {
		x, y := ex.zGet(st, cc.Args[1]), ex.zGet(st, cc.Args[2])
		x2, y2 := ex.zGet(st, cc.Args[3]), ex.zGet(st, cc.Args[4])
		return need(st, x, y, cc, func(st *State) []Outcome {
			return need(st, x2, y2, cc, func(st *State) []Outcome {
				return out(st, cc, eAdd(ex.point(st, c, x, y), ex.point(st, c, x2, y2)))
			})
		})
	})
	wrap("Double", func(st *State, cc *CallCtx) []Outcome {
		x, y := ex.zGet(st, cc.Args[1]), ex.zGet(st, cc.Args[2])
		return need(st, x, y, cc, func(st *State) []Outcome {
			return out(st, cc, eMul(ZI(2), ex.point(st, c, x, y)))
		})
	})
}

// ---- hash objects as byte strings ----

type hState struct {
	alg  string
	n    int // digest size
	bs   int
	ps   []Piece
	init []Piece
}

var hashObjT = types.NewNamed(types.NewTypeName(0, nil, "gocvHash", nil), types.Typ[types.Int], nil)

func (ex *Exec) newHash(st *State, site, alg string, n, bs int, key []Piece) Value {
	id := ex.Alloc(st, site+".hash", types.Typ[types.Int], &Opaque{Kind: "hstate", X: &hState{alg: alg, n: n, bs: bs, ps: key, init: key}})
	return Iface{T: hashObjT, V: &Opaque{Kind: "hash", X: id}}
}

func (ex *Exec) digest(st *State, alg string, n int, ps []Piece) []Value {
	a := ex.bytesAtom(st, ps)
	r := make([]Value, n)
	for i := range r {
		r[i] = UF(8, fmt.Sprintf("digest:%s:%d", alg, i), a)
	}
	return r
}

func (ex *Exec) hashOf(st *State, v Value) (*hState, int) {
	id := v.(*Opaque).X.(int)
	return ex.obj(st, id).V.(*Opaque).X.(*hState), id
}

// appendCells returns in ++ cells in fresh memory (or in place where capacity may allow it).
func (ex *Exec) appendCells(st *State, in Slice, cells []Value, site string) []Outcome {
	u8 := types.Typ[types.Uint8]
	if in.Len.IsConst() && in.Len.C == 0 && in.Cap.IsConst() && in.Cap.C == 0 {
		id := ex.Alloc(st, site, types.NewArray(u8, int64(len(cells))), &Agg{E: cells})
		n := I64(int64(len(cells)))
		return ret(st, Slice{Obj: id, Off: I64(0), Len: n, Cap: n})
	}
	tmp := ex.Alloc(st, site+".t", types.NewArray(u8, int64(len(cells))), &Agg{E: cells})
	n := I64(int64(len(cells)))
	fr := &frame{ex: ex, fn: nil}
	_ = fr
	var outs []Outcome
	e := &entry{st: st}
	for _, r := range (&frame{ex: ex}).builtinAppend(e, in, Slice{Obj: tmp, Off: I64(0), Len: n, Cap: n}, u8, site, 0) {
		outs = append(outs, Outcome{St: r.st, Ret: Tuple{r.s}})
	}
	return outs
}

func useHashObjects(ex *Exec) {
	n := ex.Natives
	n["opaque:hash.Write"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		h, id := ex.hashOf(st, c.Args[0])
		s := c.Args[1].(Slice)
		g := *h
		g.ps = ex.normBytes(st, append(append([]Piece{}, h.ps...), ex.SliceView(st, s)...))
		ex.setObj(st, id, &Opaque{Kind: "hstate", X: &g})
		return ret(st, s.Len, Iface{})
	}
	n["opaque:hash.Sum"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		h, _ := ex.hashOf(st, c.Args[0])
		return ex.appendCells(st, c.Args[1].(Slice), ex.digest(st, h.alg, h.n, h.ps), c.Path+".sum")
	}
	n["opaque:hash.Reset"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		h, id := ex.hashOf(st, c.Args[0])
		g := *h
		g.ps = h.init
		ex.setObj(st, id, &Opaque{Kind: "hstate", X: &g})
		return ret(st)
	}
	n["opaque:hash.Size"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		h, _ := ex.hashOf(st, c.Args[0])
		return ret(st, I64(int64(h.n)))
	}
	n["opaque:hash.BlockSize"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		h, _ := ex.hashOf(st, c.Args[0])
		return ret(st, I64(int64(h.bs)))
	}
	ctor := func(name, alg string, sz, bs int, inRepo bool) {
		f := func(ex *Exec, st *State, c *CallCtx) []Outcome {
			return ret(st, ex.newHash(st, c.Path, alg, sz, bs, nil))
		}
		if inRepo {
			ex.Contracts[modPath+"/"+name] = f
		} else {
			n[name] = f
		}
	}
	sum := func(name, alg string, sz int, inRepo, array bool) {
		f := func(ex *Exec, st *State, c *CallCtx) []Outcome {
			d := ex.digest(st, alg, sz, ex.SliceView(st, c.Args[0].(Slice)))
			if array {
				return ret(st, &Agg{E: d})
			}
			return ex.appendCells(st, Slice{Off: I64(0), Len: I64(0), Cap: I64(0)}, d, c.Path+".sum")
		}
		if inRepo {
			ex.Contracts[modPath+"/"+name] = f
		} else {
			n[name] = f
		}
	}
	ctor("crypto/sha256.New", "sha256", 32, 64, false)
	ctor("crypto/sha256.New224", "sha224", 28, 64, false)
	ctor("crypto/sha512.New", "sha512", 64, 128, false)
	ctor("crypto/sha512.New384", "sha384", 48, 128, false)
	ctor("crypto/sha512.New512_256", "sha512/256", 32, 128, false)
	ctor("crypto/md5.New", "md5", 16, 64, false)
	ctor("crypto/sha1.New", "sha1", 20, 64, false)
	ctor("golang.org/x/crypto/md4.New", "md4", 16, 64, false)
	ctor("golang.org/x/crypto/ripemd160.New", "ripemd160", 20, 64, false)
	sum("crypto/sha256.Sum256", "sha256", 32, false, true)
	sum("crypto/sha512.Sum512", "sha512", 64, false, true)
	sum("crypto/md5.Sum", "md5", 16, false, true)
	sum("crypto/sha1.Sum", "sha1", 20, false, true)
	ctor("sm3.New", "sm3", 32, 64, true)
	sum("sm3.Sm3Sum", "sm3", 32, true, false)
	ctor("sha3.NewKeccak256", "keccak256", 32, 136, true)
	ctor("sha3.NewKeccak512", "keccak512", 64, 72, true)
	ctor("sha3.New224", "sha3-224", 28, 144, true)
	ctor("sha3.New256", "sha3-256", 32, 136, true)
	ctor("sha3.New384", "sha3-384", 48, 104, true)
	ctor("sha3.New512", "sha3-512", 64, 72, true)
	sum("sha3.Sum224", "sha3-224", 28, true, true)
	sum("sha3.Sum256", "sha3-256", 32, true, true)
	sum("sha3.Sum384", "sha3-384", 48, true, true)
	sum("sha3.Sum512", "sha3-512", 64, true, true)
	ctor("blake256.New", "blake256", 32, 64, true)
	ctor("blake256.New224", "blake224", 28, 64, true)
	ctor("blake512.New", "blake512", 64, 128, true)
	ctor("blake512.New384", "blake384", 48, 128, true)
	sum("blake256.Sum256", "blake256", 32, true, true)
	sum("blake512.Sum512", "blake512", 64, true, true)
	ctor("blake2s.New256", "blake2s:32", 32, 64, true)
	sum("blake2s.Sum256", "blake2s:32", 32, true, true)
	ctor2 := func(name, alg string, bs, max, dflt int, repo bool, errs bool) {
		f := func(ex *Exec, st *State, c *CallCtx) []Outcome {
			sz := T(c.Args[0])
			key := ex.SliceView(st, c.Args[1].(Slice))
			if !sz.IsConst() {
				if r := st.urange(sz); !(r.lo > uint64(max)) {
					unsup("%s with symbolic digest size %s", name, Show(sz, 3))
				}
				sz = Const(sz.W, uint64(max)+1)
			}
			v := int(sz.Signed())
			if sz.W == 8 {
				v = int(sz.C)
			}
			if v == 0 && dflt > 0 {
				v = dflt
			}
			if v <= 0 || v > max {
				if errs {
					id := ex.Alloc(st, c.Path+".err", types.Typ[types.Int], I64(0))
					return ret(st, Iface{}, Iface{T: types.NewPointer(errT), V: Ptr{Obj: id}})
				}
				return []Outcome{{St: st, Panic: fmt.Sprintf("%s panics for digest size %d", name, v)}}
			}
			a := fmt.Sprintf("%s:%d", alg, v)
			if len(key) > 0 {
				a = fmt.Sprintf("%s:key:%d", a, ex.bytesAtom(st, key).ID)
			}
			h := ex.newHash(st, c.Path, a, v, bs, nil)
			if errs {
				return ret(st, h, Iface{})
			}
			return ret(st, h)
		}
		if repo {
			ex.Contracts[modPath+"/"+name] = f
		} else {
			n[name] = f
		}
	}
	ctor2("golang.org/x/crypto/blake2b.New", "blake2b", 128, 64, 0, false, true)
	ctor2("blake2s.NewMAC", "blake2s", 64, 32, 32, true, false)
	n["crypto/hmac.New"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		f := c.Args[0].(FuncV)
		if f.Fn == nil {
			unsup("hmac over %s", showVal(f))
		}
		outs := ex.Call(f.Fn, nil, st, c.Path, c.Pos)
		if len(outs) != 1 || outs[0].Panic != "" {
			unsup("hmac constructor")
		}
		st = outs[0].St
		h, _ := ex.hashOf(st, outs[0].Ret[0].(Iface).V)
		key := ex.bytesAtom(st, ex.SliceView(st, c.Args[1].(Slice)))
		return ret(st, ex.newHash(st, c.Path, fmt.Sprintf("hmac-%s:key:%d", h.alg, key.ID), h.n, h.bs, nil))
	}
	n["crypto/hmac.Equal"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		return ret(st, ex.bytesEq(st, ex.SliceView(st, c.Args[0].(Slice)), ex.SliceView(st, c.Args[1].(Slice))))
	}
	n["crypto/subtle.ConstantTimeCompare"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		return ret(st, Zext(ex.bytesEq(st, ex.SliceView(st, c.Args[0].(Slice)), ex.SliceView(st, c.Args[1].(Slice))), 64))
	}
	n["bytes.Equal"] = n["crypto/hmac.Equal"]
	n["bytes.Compare"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		eq := ex.bytesEq(st, ex.SliceView(st, c.Args[0].(Slice)), ex.SliceView(st, c.Args[1].(Slice)))
		return ret(st, Ite(eq, I64(0), Ite(UF(1, "bytescmp", eq), I64(1), Const(64, ^uint64(0)))))
	}
}

// bytesEq is the condition that two byte strings are equal.
func (ex *Exec) bytesEq(st *State, a, b []Piece) *Term {
	a, b = ex.normBytes(st, a), ex.normBytes(st, b)
	ln := func(ps []Piece) *Term {
		n := I64(0)
		for _, p := range ps {
			n = Add(n, p.Len)
		}
		return n
	}
	la, lb := ln(a), ln(b)
	le := Eq(la, lb)
	if le.IsFalse() || st.decide(le) == 0 {
		return False()
	}
	if la.IsConst() && lb.IsConst() {
		var cs []*Term
		x, y := []Value{}, []Value{}
		for _, p := range a {
			x = append(x, expandPiece(p)...)
		}
		for _, p := range b {
			y = append(y, expandPiece(p)...)
		}
		for i := range x {
			cs = append(cs, Eq(x[i].(*Term), y[i].(*Term)))
		}
		return And(cs...)
	}
	if len(a) == len(b) {
		same := true
		for i := range a {
			if !samePiece(a[i], b[i]) {
				same = false
			}
		}
		if same {
			return True()
		}
	}
	x, y := ex.bytesAtom(st, a), ex.bytesAtom(st, b)
	if x.ID > y.ID {
		x, y = y, x
	}
	return And(le, UF(1, "byteseq", x, y))
}

func samePiece(p, q Piece) bool {
	if (p.Cells != nil) != (q.Cells != nil) || p.Sym != q.Sym || p.Len != q.Len || p.Off != q.Off {
		return false
	}
	if p.Rep != q.Rep {
		return false
	}
	for i := range p.Cells {
		if p.Cells[i] != q.Cells[i] {
			return false
		}
	}
	return true
}

func fnOf(v Value) *ssa.Function {
	f, _ := v.(FuncV)
	return f.Fn
}
