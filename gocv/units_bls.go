package main

import (
	"fmt"
	"math/big"
	"path/filepath"
)

// ---- BLS12-381: base field in assembly ----

var blsP = hexBig("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab")

const blsPkg = modPath + "/bls12_381/bls"

// blsAsm describes a function of arithmetic_x86.s: its pointer arguments (destination first, unless it is also read) and
// what it computes.
type blsAsm struct {
	name string
	args []string // "c" destination only, "a", "b" operand, "A" operand and destination
	max  *big.Int // operands at most this
	e    int      // R^e * out = spec modulo P
	wide bool     // no reduction
	spec func(in []*LP) *LP
	nz   bool // operand not zero
	ord  bool // first operand not smaller
}

func blsAsms() []blsAsm {
	can := new(big.Int).Sub(blsP, big1)
	two := new(big.Int).Sub(new(big.Int).Lsh(blsP, 1), big.NewInt(2))
	add := func(in []*LP) *LP { return LAdd(in[0], in[1]) }
	sub := func(in []*LP) *LP { return LSub(in[0], in[1]) }
	mul := func(in []*LP) *LP { return LMul(in[0], in[1]) }
	dbl := func(in []*LP) *LP { return LScale(in[0], big.NewInt(2)) }
	return []blsAsm{
		{name: "addAssign", args: []string{"A", "b"}, max: can, spec: add},
		{name: "add", args: []string{"c", "a", "b"}, max: can, spec: add},
		{name: "ladd", args: []string{"c", "a", "b"}, max: two, wide: true, spec: add},
		{name: "laddAssign", args: []string{"A", "b"}, max: two, wide: true, spec: add},
		{name: "sub", args: []string{"c", "a", "b"}, max: can, spec: sub},
		{name: "subAssign", args: []string{"A", "b"}, max: can, spec: sub},
		{name: "double", args: []string{"c", "a"}, max: can, spec: dbl},
		{name: "doubleAssign", args: []string{"A"}, max: can, spec: dbl},
		{name: "ldouble", args: []string{"c", "a"}, max: two, wide: true, spec: dbl},
		{name: "_neg", args: []string{"c", "a"}, max: can, nz: true, spec: func(in []*LP) *LP { return LScale(in[0], big.NewInt(-1)) }},
		{name: "mulNoADX", args: []string{"c", "a", "b"}, max: two, e: 1, spec: mul},
		{name: "mulAssignNoADX", args: []string{"A", "b"}, max: two, e: 1, spec: mul},
		{name: "mulADX", args: []string{"c", "a", "b"}, max: two, e: 1, spec: mul},
		{name: "mulAssignADX", args: []string{"A", "b"}, max: two, e: 1, spec: mul},
	}
}

// checkAsm proves one function, with its operands distinct or coinciding in every way.
func (c *Ctx) checkAsm(fs map[string][]asmInstr, glob map[string]*Term, a blsAsm) {
	nm := "bls." + a.name + " (assembly)"
	n := len(a.args)
	// coincidences: argument i uses object obj[i]
	var parts [][]int
	var rec func(p []int, k int)
	rec = func(p []int, k int) {
		if len(p) == n {
			parts = append(parts, append([]int{}, p...))
			return
		}
		for o := 1; o <= k+1; o++ {
			nk := k
			if o > k {
				nk = o
			}
			rec(append(p, o), nk)
		}
	}
	rec(nil, 0)
	for _, part := range parts {
		lab := ""
		if fmt.Sprint(part) != fmt.Sprint([]int{1, 2, 3}[:n]) {
			lab = fmt.Sprintf(" (operands coincide %v)", part)
		}
		c.guard("exact result"+lab, nm, func() {
			ins, ok := fs[a.name]
			if !ok {
				unsup("no assembly for %s", a.name)
			}
			m := &asmMachine{reg: map[string]interface{}{}, mem: map[int]map[int64]*Term{}, size: map[int]int64{asmStack: 4096}, arg: map[int64]interface{}{}, wr: map[int]bool{}, glob: glob}
			d := NewLDom()
			d.asm = true
			num := map[int]*LP{}
			words := map[int][]*Term{}
			for i, o := range part {
				m.arg[int64(8*i)] = asmPtr{o, 0}
				if num[o] == nil {
					m.size[o] = 48
					m.mem[o] = map[int64]*Term{}
					for j := 0; j < 6; j++ {
						t := Var(64, fmt.Sprintf("w%d_%d", o, j))
						m.mem[o][int64(8*j)] = t
						words[o] = append(words[o], t)
					}
					num[o] = d.Number(fmt.Sprintf("a%d_", o), words[o], 64, a.max)
				}
			}
			if err := m.run(ins); err != nil {
				unsup("%v", err)
			}
			var in []*LP
			for i, k := range a.args {
				if k != "c" {
					in = append(in, num[part[i]])
				}
			}
			for o, w := range words {
				if o == part[0] {
					continue
				}
				for j, t := range w {
					c.Ob("operand unchanged", nm, m.mem[o][int64(8*j)] == t, "normal form", "")
				}
			}
			var out []*Term
			for j := 0; j < 6; j++ {
				out = append(out, m.mem[part[0]][int64(8*j)])
			}
			cases := 0
			if a.nz {
				d.fact(num[part[1]], big1, nil)
			}
			if a.ord {
				d.fact(LSub(num[part[0]], num[part[1]]), new(big.Int), nil)
			}
			d.Cases(func() {
				V := d.Sum(out, 64)
				cases++
				eq := LSub(LScale(V, new(big.Int).Exp(p2(384), big.NewInt(int64(a.e)), nil)), a.spec(in))
				ok := lzeroMod(d.unify(eq), blsP)
				if a.wide {
					ok = len(d.unify(eq).m) == 0
				}
				if !ok && dbgL {
					d.dump()
				}
				c.Ob("exact result"+lab, nm, ok, "polynomial identity modulo p", "residue "+d.showMod(eq, blsP))
				if a.wide {
					return
				}
				V = d.unify(V)
				for _, f := range append([]lfact{}, d.facts...) {
					if p := d.unify(f.p); len(p.m) != len(f.p.m) {
						d.fact(p, f.lo, f.hi)
					}
				}
				lo, hi := d.rng(V)
				_, hi2 := d.rng(LSub(V, LC(blsP)))
				c.Ob("result is canonical"+lab, nm, lo.Sign() >= 0 && (hi.Cmp(blsP) < 0 || hi2.Sign() < 0), "interval arithmetic", fmt.Sprintf("result in [%x, %x]", lo, hi))
			})
			c.Ob("some case reachable"+lab, nm, cases > 0, "vc", "")
		})
	}
	c.Func(nm)
}

// blsExec is an executor with the package variables of bls initialised.
func blsExec(c *Ctx) *Exec {
	ex := c.Exec()
	useZ(ex)
	ex.MustInit(c.P, blsPkg)
	return ex
}

func init() {
	unit("f05asm", []string{blsPkg}, 4, func(c *Ctx) {
		fs, err := asmFuncs(filepath.Join(repoDir, "bls12_381", "bls", "arithmetic_x86.s"))
		if err != nil {
			c.Ob("assembly", "bls", false, "none", err.Error())
			return
		}
		glob := map[string]*Term{}
		c.guard("package variables of the assembly", "bls", func() {
			ex := blsExec(c)
			inp, _ := ex.Load(ex.Base, Ptr{Obj: ex.globalObj(c.P.Pkgs[blsPkg].Var("inp"), ex.Base)}).(*Term)
			c.Ob("inp is -1/p modulo 2^64", "bls", inp != nil && inp.IsConst() && new(big.Int).And(new(big.Int).Mul(new(big.Int).SetUint64(inp.C), blsP), new(big.Int).SetUint64(^uint64(0))).Cmp(new(big.Int).SetUint64(^uint64(0))) == 0, "evaluation", "")
			glob["inp+0"] = inp
			ok := true
			for i, t := range leafTerms(ex.Load(ex.Base, Ptr{Obj: ex.globalObj(c.P.Pkgs[blsPkg].Var("modulus"), ex.Base)})) {
				ok = ok && t.IsConst() && t.C == new(big.Int).And(new(big.Int).Rsh(blsP, uint(64*i)), new(big.Int).SetUint64(^uint64(0))).Uint64()
				glob[fmt.Sprintf("modulus+%d", 8*i)] = t
			}
			c.Ob("modulus is p", "bls", ok, "evaluation", "")
		})
		for i, a := range blsAsms() {
			if i%c.NShard == c.Shard {
				c.checkAsm(fs, glob, a)
			}
		}
	})
}
