package main

import (
	"fmt"
	"go/types"
)

// usePrims replaces the specification primitives by the abstract functions they name.
func usePrims(ex *Exec) {
	pk := modPath + "/zzspec/prims."
	str := func(v Value) string {
		s, ok := v.(Str).Conc()
		if !ok {
			unsup("symbolic algorithm name")
		}
		return s
	}
	sizes := map[string]int{"md4": 16, "md5": 16, "sha1": 20, "ripemd160": 20, "sha256": 32, "sha512": 64, "sm3": 32, "keccak256": 32, "keccak512": 64, "sha3-256": 32, "sha3-512": 64, "blake256": 32, "blake512": 64}
	empty := nilSlice()
	ex.Natives[pk+"Digest"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		a := str(c.Args[0])
		n, ok := sizes[a]
		if !ok {
			unsup("digest %s", a)
		}
		return ex.appendCells(st, empty, ex.digest(st, a, n, ex.SliceView(st, c.Args[1].(Slice))), c.Path+".d")
	}
	ex.Natives[pk+"Cat"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		var ps []Piece
		n := I64(0)
		for _, v := range ex.SliceCells(st, c.Args[0].(Slice)) {
			s := v.(Slice)
			ps = append(ps, ex.SliceView(st, s)...)
			n = Add(n, s.Len)
		}
		id := ex.Alloc(st, c.Path+".cat", types.NewSlice(types.Typ[types.Uint8]), &Rope{P: normPieces(ps)})
		return ret(st, Slice{Obj: id, Off: I64(0), Len: n, Cap: n})
	}
	ex.Natives[pk+"DigestN"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		n := T(c.Args[1])
		if !n.IsConst() {
			unsup("symbolic digest length")
		}
		a := fmt.Sprintf("%s:%d", str(c.Args[0]), n.C)
		return ex.appendCells(st, empty, ex.digest(st, a, int(n.C), ex.SliceView(st, c.Args[2].(Slice))), c.Path+".d")
	}
	ex.Natives[pk+"HMAC"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		a := str(c.Args[0])
		k := ex.bytesAtom(st, ex.SliceView(st, c.Args[1].(Slice)))
		n, ok := sizes[a]
		if !ok {
			unsup("hmac %s", a)
		}
		return ex.appendCells(st, empty, ex.digest(st, fmt.Sprintf("hmac-%s:key:%d", a, k.ID), n, ex.SliceView(st, c.Args[2].(Slice))), c.Path+".d")
	}
}

func protoSetup(ex *Exec) {
	useZ(ex)
	useHashObjects(ex)
	usePrims(ex)
}

func init() {
	unit("hashsel", []string{".", "./zzspec/hsel"}, 8, func(c *Ctx) {
		sel := func() *Term { return Var(32, "sel") }
		var vs []Variant
		for _, nilData := range []bool{false, true} {
			nilData := nilData
			data := func(ex *Exec, st *State) Value {
				if nilData {
					return nilSlice()
				}
				return ex.anyBytes(st, "data", 0, symMax)
			}
			for n := 0; n <= 64; n++ {
				n := n
				vs = append(vs, Variant{fmt.Sprintf("digestLen=%d nil=%v", n, nilData), func(ex *Exec, st *State) []Value {
					return []Value{data(ex, st), Const(16, uint64(n)), sel()}
				}})
			}
			vs = append(vs, Variant{fmt.Sprintf("digestLen>64 nil=%v", nilData), func(ex *Exec, st *State) []Value {
				n := Var(16, "digestLen")
				varRange[n] = urng{65, 65535}
				return []Value{data(ex, st), n, sel()}
			}})
		}
		c.Refine(Refine{Fn: c.P.Fn(".", "Hash"), Name: "owcrypt.Hash", Spec: specFn(c, "hsel", "Hash"), Setup: protoSetup, Variants: vs})
		var hs []Variant
		for i := 0; i < 4; i++ {
			i := i
			hs = append(hs, Variant{fmt.Sprintf("hmac %d", i), func(ex *Exec, st *State) []Value {
				k, d := nilSlice(), nilSlice()
				if i&1 == 0 {
					k = ex.anyBytes(st, "key", 0, symMax)
				}
				if i&2 == 0 {
					d = ex.anyBytes(st, "data", 0, symMax)
				}
				return []Value{k, d, sel()}
			}})
		}
		c.Refine(Refine{Fn: c.P.Fn(".", "Hmac"), Name: "owcrypt.Hmac", Spec: specFn(c, "hsel", "Hmac"), Setup: protoSetup, Variants: hs})
	})
	prop(&Prop{ID: "H05", Units: []string{"hashsel"}, Replay: []string{"."},
		Trusted: []string{"Go standard library and golang.org/x/crypto hashes (MD4, MD5, SHA-1, SHA-2, RIPEMD-160, BLAKE2b) and crypto/hmac compute what they name", "the in-repository hashes compute what they name: their contracts are the properties H01-H04, checked separately"}})
}
