package main

import (
	"fmt"
	"math/big"
)

// sm2Lens are the plaintext and key lengths the byte loops are unrolled for.
func sm2Lens(max int) []int {
	var r []int
	for n := 0; n <= max; n++ {
		r = append(r, n)
	}
	return append(r, 127, 128, 129, 256)
}

func optBytes(ex *Exec, st *State, name string, null bool) Value {
	if null {
		return nilSlice()
	}
	return ex.anyBytes(st, name, 0, symMax)
}

func init() {
	sel := Const(32, eccSelV["sm2"])
	unit("s02dec", []string{".", "./zzspec/eccs"}, 8, func(c *Ctx) {
		var vs []Variant
		vs = append(vs, Variant{"any key, nil ciphertext", func(ex *Exec, st *State) []Value {
			return []Value{optBytes(ex, st, "prikey", false), nilSlice(), sel}
		}}, Variant{"nil key", func(ex *Exec, st *State) []Value {
			return []Value{nilSlice(), ex.argBytes(st, "ct", I64(100)), sel}
		}}, Variant{"short ciphertext", func(ex *Exec, st *State) []Value {
			return []Value{optBytes(ex, st, "prikey", false), ex.anyBytes(st, "ct", 0, 97), sel}
		}})
		for _, n := range sm2Lens(66)[1:] {
			n := n
			vs = append(vs, Variant{fmt.Sprintf("plaintext of %d bytes", n), func(ex *Exec, st *State) []Value {
				return []Value{optBytes(ex, st, "prikey", false), ex.argBytes(st, "ct", I64(int64(97+n))), sel}
			}})
		}
		c.Bounded("Decryption: plaintexts of 1..66, 127, 128, 129 and 256 bytes (the byte loops are unrolled)")
		c.Refine(Refine{Fn: c.P.Fn(".", "Decryption"), Name: "owcrypt.Decryption[sm2]", Spec: specFn(c, "eccs", "SM2Decrypt"), Setup: eccSetup, Variants: vs,
			SpecArgs: func(ex *Exec, st *State, a []Value) []Value { return a[:2] }})
	})
	unit("s02enc", []string{".", "./zzspec/eccs"}, 8, func(c *Ctx) {
		enc := specFn(c, "eccs", "SM2Encrypt")
		var vs []Variant
		vs = append(vs, Variant{"nil plaintext", func(ex *Exec, st *State) []Value {
			return []Value{optBytes(ex, st, "pub", false), nilSlice(), sel}
		}}, Variant{"nil key", func(ex *Exec, st *State) []Value {
			return []Value{nilSlice(), ex.argBytes(st, "plain", I64(5)), sel}
		}})
		for _, n := range sm2Lens(66) {
			n := n
			vs = append(vs, Variant{fmt.Sprintf("plaintext of %d bytes", n), func(ex *Exec, st *State) []Value {
				return []Value{optBytes(ex, st, "pub", false), ex.argBytes(st, "plain", I64(int64(n))), sel}
			}})
		}
		c.Bounded("Encryption: plaintexts of 0..66, 127, 128, 129 and 256 bytes (the byte loops are unrolled)")
		c.Refine(Refine{Fn: c.P.Fn(".", "Encryption"), Name: "owcrypt.Encryption[sm2]", Setup: func(ex *Exec) { eccSetup(ex); useRand(ex); ex.MustInit(c.P, enc.Pkg.Pkg.Path()) }, Variants: vs,
			Post: func(ex *Exec, o Outcome, args []Value, ok func(string, bool, string)) {
				cv := ecs["sm2"]
				st := o.St
				st.fixLens()
				pub, msg := args[0].(Slice), args[1].(Slice)
				code, out := T(o.Ret[1]), o.Ret[0].(Slice)
				valid := And(Eq(pub.Len, I64(64)), Not(Eq(msg.Len, I64(0))))
				if ex.must(st, Eq(pub.Len, I64(64))) {
					p := pub
					p.Len = I64(64)
					valid = And(valid, ex.onCurve(st, cv, ex.sliceZ(st, p, 0, 32), ex.sliceZ(st, p, 32, 64)))
				}
				if !code.IsConst() || code.C != codeSuccess {
					ok("no ciphertext with an error", out.Obj == 0, showVal(out))
					ok("error only for invalid input", ex.must(st, Or(Not(valid), rdErr())), "code "+Show(code, 3))
					return
				}
				ok("success only for a valid key and plaintext", ex.must(st, valid), "ciphertext for invalid arguments")
				if !out.Len.IsConst() || int(out.Len.C) != 97+int(msg.Len.C) {
					ok("length of the ciphertext", false, showVal(out))
					return
				}
				var k *Z
				if a := ex.sliceZ(st, out, 1, 33).single(); a != nil && a.kind == "X" {
					k = gScalar(cv, zOf(a))
				}
				if k == nil {
					ok("C1 is a multiple of the generator", false, ex.sliceZ(st, out, 1, 33).String())
					return
				}
				_, kz := ex.zSign(st, ex.ZMod(st, k, cv.N))
				ok("nonce is not zero modulo n", ex.must(st, Not(kz)), k.String())
				p := pub
				p.Len = I64(64)
				for _, so := range ex.Run(enc, []Value{p, msg, ex.zNew(st, "k", k)}, st, "spec:enc") {
					if !ex.feasible(so.St, True()) {
						continue
					}
					good, d := ex.sameResult(so.St, out, so.Ret[0])
					ok("ciphertext equals the standard's for its nonce", good, d)
				}
			}})
	})
	unit("s02trip", []string{".", "./zzspec/eccs"}, 4, func(c *Ctx) {
		var vs []Variant
		for _, n := range sm2Lens(66)[1:] {
			n := n
			vs = append(vs, Variant{fmt.Sprintf("plaintext of %d bytes", n), func(ex *Exec, st *State) []Value {
				cv := ecs["sm2"]
				key := ex.argBytes(st, "d", I64(32))
				k := zAtom("rnd", "k!rt", big.NewInt(1), new(big.Int).Sub(cv.N, big.NewInt(1)))
				d := ex.zSetBytes(st, ex.SliceView(st, key))
				st.assume(And(ex.zPos(st, d), ex.zLess(st, d, ZC(cv.N))))
				return []Value{key, ex.argBytes(st, "m", I64(int64(n))), ex.zNew(st, "k", zOf(k))}
			}})
		}
		c.Refine(Refine{Fn: specFn(c, "eccs", "SM2RoundTrip"), Name: "lemma: decryption inverts encryption", Setup: eccSetup, Variants: vs,
			Post: func(ex *Exec, o Outcome, args []Value, ok func(string, bool, string)) {
				st := o.St
				used := T(o.Ret[2])
				if ex.must(st, Not(used)) {
					return
				}
				code := T(o.Ret[1])
				ok("decryption succeeds", code.IsConst() && code.C == codeSuccess, "code "+Show(code, 4)+" under "+showPC(st))
				if code.IsConst() && code.C == codeSuccess {
					good, d := ex.sameResult(st, o.Ret[0], args[1])
					ok("the plaintext is returned", good, d)
				}
			}})
	})
}

func init() {
	sel := Const(32, eccSelV["sm2"])
	any := func(ex *Exec, st *State, null int, names ...string) []Value {
		var r []Value
		for i, n := range names {
			r = append(r, optBytes(ex, st, n, i == null))
		}
		return r
	}
	// a failing call may leave partial results; the specification returns none
	same := func(ex *Exec, st *State, i int, a, b Value) (bool, string, bool) {
		if s, ok := b.(Slice); ok && s.Obj == 0 && i > 0 {
			return true, "", true
		}
		return false, "", false
	}
	keylens := append(sm2Lens(40), 63, 64, 65, 95, 96, 97, 8191, 8192, 8193)
	dropSel := func(ex *Exec, st *State, a []Value) []Value { return a[:len(a)-1] }
	setup := func(c *Ctx) func(ex *Exec) {
		return func(ex *Exec) { eccSetup(ex); useGenPub(ex, c) }
	}
	unit("s03", []string{".", "./zzspec/eccs"}, 8, func(c *Ctx) {
		c.Bounded("key agreement: key lengths of 0..40, 63..65, 95..97, 127..129, 256 and 8191..8193 bytes (the derivation loop is unrolled)")
		var vi, vr []Variant
		for i, kl := range keylens {
			i, kl := i, kl
			null := -1
			if i < 9 {
				null = i - 1
			}
			vi = append(vi, Variant{fmt.Sprintf("keylen=%d", kl), func(ex *Exec, st *State) []Value {
				a := any(ex, st, null, "ida", "idb", "da", "pa", "pb", "ra", "Ra", "Rb", "sin")
				return append(a, Const(16, uint64(kl)), sel)
			}})
			vr = append(vr, Variant{fmt.Sprintf("keylen=%d", kl), func(ex *Exec, st *State) []Value {
				a := any(ex, st, null, "ida", "idb", "db", "pb", "pa", "Ra")
				return append(a, Const(16, uint64(kl)), ex.anyBytes(st, "rb", 0, symMax), sel)
			}})
		}
		c.Refine(Refine{Fn: c.P.Fn(".", "KeyAgreement_initiator_step2"), Spec: specFn(c, "eccs", "KAInitiator"), Setup: setup(c), Variants: vi, SpecArgs: dropSel, Same: same})
		c.Refine(Refine{Fn: c.P.Fn(".", "KeyAgreement_responder_ElGamal_step1"), Spec: specFn(c, "eccs", "KAResponder"), Setup: setup(c), Variants: vr, SpecArgs: dropSel, Same: same})
	})
	unit("s03misc", []string{".", "./zzspec/eccs"}, 4, func(c *Ctx) {
		var v2 []Variant
		for i := 0; i < 3; i++ {
			i := i
			v2 = append(v2, Variant{fmt.Sprint(i), func(ex *Exec, st *State) []Value { return append(any(ex, st, i, "sa", "s2"), sel) }})
		}
		c.Refine(Refine{Fn: c.P.Fn(".", "KeyAgreement_responder_step2"), Spec: specFn(c, "eccs", "KACheck"), Setup: setup(c), Variants: v2, SpecArgs: dropSel})
		if c.Shard == 0 {
			// the ephemeral key pair of the initiator
			one := []Variant{{"", func(ex *Exec, st *State) []Value { return []Value{sel} }}}
			sub := *c
			sub.Shard, sub.NShard = 0, 1
			gp := specFn(c, "eccs", "GenPubkey")
			sub.Refine(Refine{Fn: c.P.Fn(".", "KeyAgreement_initiator_step1"), Setup: func(ex *Exec) { setup(c)(ex); useRand(ex); ex.MustInit(c.P, gp.Pkg.Pkg.Path()) }, Variants: one,
				Post: func(ex *Exec, o Outcome, args []Value, ok func(string, bool, string)) {
					k := o.Ret[0].(Slice)
					ok("ephemeral private key is 32 bytes", k.Len.IsConst() && k.Len.C == 32, showVal(k))
					for _, so := range ex.Run(gp, []Value{eccCurvePtr(ex, o.St, c, "SM2"), k}, o.St, "spec:gp") {
						if ex.feasible(so.St, True()) {
							good, d := ex.sameResult(so.St, o.Ret[1], so.Ret[0])
							ok("ephemeral public key belongs to it", good, d)
						}
					}
				}})
		}
		var vs []Variant
		for _, kl := range []int{0, 1, 16, 31, 32, 33, 64, 65, 100} {
			kl := kl
			vs = append(vs, Variant{fmt.Sprintf("keylen=%d", kl), func(ex *Exec, st *State) []Value {
				cv := ecs["sm2"]
				a := any(ex, st, -1, "ida", "idb")
				for _, n := range []string{"da", "db", "ra", "rb"} {
					k := ex.argBytes(st, n, I64(32))
					z := ex.zSetBytes(st, ex.SliceView(st, k))
					st.assume(And(ex.zPos(st, z), ex.zLess(st, z, ZC(cv.N))))
					a = append(a, k)
				}
				return append(a, Const(16, uint64(kl)))
			}})
		}
		c.Refine(Refine{Fn: specFn(c, "eccs", "KARun"), Name: "lemma: both parties hold the same key and accept each other", Setup: setup(c), Variants: vs,
			Post: func(ex *Exec, o Outcome, args []Value, ok func(string, bool, string)) {
				ok("honest runs agree", ex.must(o.St, T(o.Ret[0])), "keys or confirmations differ under "+showPC(o.St))
			}})
	})
	tr := append([]string{"math/big computes what it names", "crypto/rand and io.ReadFull return bytes (any bytes) or an error", "SM3 enters through the contract property H01 proves"}, eccTrusted...)
	sm2StandIn := "the contracts of the SM2 point arithmetic (property G02, see there), and the byte-loop bounds listed here"
	for _, p := range []*Prop{{ID: "S01", Units: []string{"s01"}}, {ID: "S02", Units: []string{"s02dec", "s02enc", "s02trip"}}, {ID: "S03", Units: []string{"s03", "s03misc"}}} {
		p.Replay, p.Trusted, p.Always = []string{"."}, tr, sm2StandIn
		prop(p)
	}
}

// useGenPub replaces genPublicKey by its contract, which unit k01ecc proves.
func useGenPub(ex *Exec, c *Ctx) {
	gp := specFn(c, "eccs", "GenPubkey")
	spec := map[string]string{}
	for _, s := range eccSel {
		spec[s.Name] = s.Spec
	}
	spec["sm2_std"] = "SM2"
	ex.Contracts[modPath+".genPublicKey"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
		n, ok := cc.Args[1].(Str).Conc()
		if !ok || spec[n] == "" {
			unsup("genPublicKey of curve %s", showVal(cc.Args[1]))
		}
		var r []Outcome
		for _, o := range ex.Run(gp, []Value{eccCurvePtr(ex, st, c, spec[n]), cc.Args[0]}, st, cc.Path+".gp") {
			if !ex.feasible(o.St, True()) {
				continue
			}
			if code := T(o.Ret[1]); code.IsConst() && code.C == codeSuccess {
				r = append(r, Outcome{St: o.St, Ret: Tuple{o.Ret[0], Iface{}}})
			} else {
				r = append(r, Outcome{St: o.St, Ret: Tuple{nilSlice(), ex.Load(o.St, Ptr{Obj: ex.globalObj(c.P.Pkgs[modPath].Var("ErrPrivateKeyIllegal"), o.St)})}})
			}
		}
		return r
	}
}
