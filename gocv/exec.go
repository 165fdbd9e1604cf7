package main

// Symbolic executor over go/ssa: the real code of /repo (as typed and compiled to SSA by
// golang.org/x/tools/go/ssa on every run) is executed for all inputs at once.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	Heap   map[int]*Object
	PC     []*Term
	pcset  map[*Term]bool
	rng    map[*Term]urng
	bounds map[*Term]int64 // linear form over the integers -> proven lower bound
	visits map[string]int
	shared bool
}

func (s *State) clone() *State {
	n := &State{Heap: make(map[int]*Object, len(s.Heap)+4), PC: s.PC[:len(s.PC):len(s.PC)], pcset: map[*Term]bool{}, rng: map[*Term]urng{}, visits: map[string]int{}}
	for k, v := range s.Heap {
		n.Heap[k] = v
	}
	for k, v := range s.pcset {
		n.pcset[k] = v
	}
	for k, v := range s.rng {
		n.rng[k] = v
	}
	if len(s.bounds) > 0 {
		n.bounds = make(map[*Term]int64, len(s.bounds))
		for k, v := range s.bounds {
			n.bounds[k] = v
		}
	}
	for k, v := range s.visits {
		n.visits[k] = v
	}
	return n
}

func NewState() *State {
	return &State{Heap: map[int]*Object{}, pcset: map[*Term]bool{}, rng: map[*Term]urng{}, visits: map[string]int{}}
}

// assume adds a condition to the path condition (no feasibility check).
func (s *State) assume(c *Term) {
	if c.IsTrue() || s.pcset[c] {
		return
	}
	if c.Op == OAnd {
		for _, a := range c.Args {
			s.assume(a)
		}
		return
	}
	s.PC = append(s.PC[:len(s.PC):len(s.PC)], c)
	s.pcset[c] = true
	s.learn(c)
	s.addBound(c)
}

func (s *State) learn(c *Term) {
	neg := false
	if c.Op == OXor && len(c.Args) == 1 && c.C == 1 {
		neg = true
		c = c.Args[0]
	}
	upd := func(t *Term, lo, hi uint64) {
		r := s.urange(t)
		if lo > r.lo {
			r.lo = lo
		}
		if hi < r.hi {
			r.hi = hi
		}
		s.rng[t] = r
		// single-variable linear term: propagate to the variable
		if t.Op == OLin && len(t.Args) == 1 {
			k := t.Coef[0]
			x := t.Args[0]
			xr := s.urange(x)
			// valid only when the term does not wrap
			plain := urangeIn(t, s.rng, true)
			if d := -t.C & mask(t.W); d < 1<<32 && k < 1<<16 && d > 0 && xr.hi < 1<<47 && xr.lo*k >= d && t.W == 64 {
				// k*x - d without wrapping
				xr.hi = min(xr.hi, (min(r.hi, 1<<63)+d)/k)
				xr.lo = max(xr.lo, (r.lo+d+k-1)/k)
				s.rng[x] = xr
			} else if k < 1<<32 && plain.hi != mask(t.W) && r.hi >= t.C {
				h := (r.hi - t.C) / k
				l := uint64(0)
				if r.lo > t.C {
					l = (r.lo - t.C + k - 1) / k
				}
				if h < xr.hi {
					xr.hi = h
				}
				if l > xr.lo {
					xr.lo = l
				}
				s.rng[x] = xr
			}
		}
		if t.Op == OConcat && len(t.Args) == 2 && t.Args[1].IsConst() && t.Args[0].Op == OExtract && t.Args[0].Lo == 0 && t.W == 64 {
			// x * 2^k + c
			x := t.Args[0].Args[0]
			k, cc := uint(t.Args[1].W), t.Args[1].C
			xr := s.urange(x)
			if xr.hi <= mask(t.Args[0].W) {
				if r.hi >= cc {
					xr.hi = min(xr.hi, (r.hi-cc)>>k)
				}
				if r.lo > cc {
					xr.lo = max(xr.lo, (r.lo-cc+1<<k-1)>>k)
				}
				s.rng[x] = xr
			}
		}
		if t.Op == OConcat && t.Args[0].IsConst() && t.Args[0].C == 0 && len(t.Args) == 2 {
			x := t.Args[1]
			xr := s.urange(x)
			xr.lo, xr.hi = max(xr.lo, r.lo), min(xr.hi, r.hi)
			s.rng[x] = xr
		}
	}
	switch c.Op {
	case OUlt:
		a, b := c.Args[0], c.Args[1]
		ra, rb := s.urange(a), s.urange(b)
		if !neg { // a < b
			if rb.hi > 0 {
				upd(a, 0, rb.hi-1)
			}
			if ra.lo < mask(a.W) {
				upd(b, ra.lo+1, mask(b.W))
			}
		} else { // a >= b
			upd(a, rb.lo, mask(a.W))
			upd(b, 0, ra.hi)
		}
	case OSlt:
		a, b := c.Args[0], c.Args[1]
		half := uint64(1) << uint(a.W-1)
		ra, rb := s.urange(a), s.urange(b)
		if !neg {
			if ra.hi < half && rb.hi < half {
				upd(a, 0, rb.hi-1)
				upd(b, ra.lo+1, half-1)
			} else if ra.hi < half { // 0<=a<b
				upd(b, ra.lo+1, half-1)
			}
		} else { // a>=b
			if rb.hi < half {
				upd(a, rb.lo, half-1)
				if ra.hi < half {
					upd(b, 0, ra.hi)
				}
			}
		}
	case OEq:
		if !neg && c.Args[1].IsConst() {
			upd(c.Args[0], c.Args[1].C, c.Args[1].C)
		}
		if neg && c.Args[1].IsConst() {
			r := s.urange(c.Args[0])
			if c.Args[1].C == r.lo && r.lo < r.hi {
				upd(c.Args[0], r.lo+1, r.hi)
			} else if c.Args[1].C == r.hi && r.lo < r.hi {
				upd(c.Args[0], r.lo, r.hi-1)
			}
		}
	}
}

// singles returns the variables the path condition determines.
func (s *State) singles() map[*Term]*Term {
	m := map[*Term]*Term{}
	for t, r := range s.rng {
		if t.Op == OVar && t.W == 64 && r.lo == r.hi {
			m[t] = Const(t.W, r.lo)
		}
	}
	return m
}

func (s *State) urange(t *Term) urng { return urangeIn(t, s.rng, false) }

func urangeIn(t *Term, m map[*Term]urng, skipSelf bool) urng {
	old := curRange
	curRange = m
	curSkip = nil
	if skipSelf {
		curSkip = t
	}
	r := urange(t)
	curRange = old
	curSkip = nil
	return r
}

// decide evaluates a boolean term under the path condition without a solver: 1 true, 0 false, -1 unknown.
func (s *State) resetPC() { s.PC, s.pcset, s.rng = nil, map[*Term]bool{}, map[*Term]urng{} }
func (s *State) decide(c *Term) int {
	if c.IsConst() {
		return int(c.C)
	}
	if s.pcset[c] {
		return 1
	}
	if s.pcset[Not(c)] {
		return 0
	}
	switch c.Op {
	case OXor:
		if len(c.Args) == 1 && c.C == 1 {
			d := s.decide(c.Args[0])
			if d >= 0 {
				return 1 - d
			}
		}
	case OAnd:
		all := true
		for _, a := range c.Args {
			d := s.decide(a)
			if d == 0 {
				return 0
			}
			if d < 0 {
				all = false
			}
		}
		if all {
			return 1
		}
	case OOr:
		all := true
		for _, a := range c.Args {
			d := s.decide(a)
			if d == 1 {
				return 1
			}
			if d < 0 {
				all = false
			}
		}
		if all {
			return 0
		}
	case OUlt:
		a, b := s.urange(c.Args[0]), s.urange(c.Args[1])
		if a.hi < b.lo {
			return 1
		}
		if a.lo >= b.hi {
			return 0
		}
		return s.cmpLin(c.Args[0], c.Args[1], false)
	case OSlt:
		x := c.Args[0]
		half := uint64(1) << uint(x.W-1)
		a, b := s.urange(x), s.urange(c.Args[1])
		if a.hi < half && b.hi < half {
			if a.hi < b.lo {
				return 1
			}
			if a.lo >= b.hi {
				return 0
			}
		}
		if a.lo >= half && b.hi < half {
			return 1
		}
		if a.hi < half && b.lo >= half {
			return 0
		}
		return s.cmpLin(x, c.Args[1], true)
	case OEq:
		a, b := s.urange(c.Args[0]), s.urange(c.Args[1])
		if a.hi < b.lo || b.hi < a.lo {
			return 0
		}
		if a.lo == a.hi && b.lo == b.hi && a.lo == b.lo {
			return 1
		}
	}
	return -1
}

// intForm is a 64-bit term read as an exact integer: a linear form with signed coefficients whose
// value provably stays within the signed 64-bit range (so that no wrapping happens).
type intForm struct {
	m      map[*Term]int64
	c      int64
	lo, hi *big.Int
}

func (s *State) intForm(t *Term) *intForm {
	if t.W != 64 {
		return nil
	}
	l := newLin(64)
	l.add(t, 1)
	if len(l.m) > 6 {
		return nil
	}
	f := &intForm{m: map[*Term]int64{}, c: int64(l.c)}
	f.lo, f.hi = big.NewInt(f.c), big.NewInt(f.c)
	for x, k := range l.m {
		r := s.urange(x)
		f.m[x] = int64(k)
		p := new(big.Int).Mul(big.NewInt(int64(k)), new(big.Int).SetUint64(r.lo))
		q := new(big.Int).Mul(big.NewInt(int64(k)), new(big.Int).SetUint64(r.hi))
		if int64(k) < 0 {
			p, q = q, p
		}
		f.lo.Add(f.lo, p)
		f.hi.Add(f.hi, q)
	}
	if f.lo.BitLen() > 62 || f.hi.BitLen() > 62 {
		return nil
	}
	return f
}

// ge0 puts "f >= 0" (f = sum + c) into the form e >= k with coprime coefficients.
func (f *intForm) ge0() (e *Term, k int64) {
	var g int64
	for _, c := range f.m {
		if c < 0 {
			c = -c
		}
		for c != 0 {
			g, c = c, g%c
		}
	}
	if g == 0 {
		return nil, 0
	}
	l := newLin(64)
	for x, c := range f.m {
		if c != 0 {
			l.m[x] = uint64(c / g)
		}
	}
	// e*g + c >= 0  <=>  e >= ceil(-c/g)
	k = -f.c / g
	if -f.c%g > 0 {
		k++
	}
	return l.term(), k
}

func (a *intForm) sub(b *intForm, d int64) *intForm {
	r := &intForm{m: map[*Term]int64{}, c: a.c - b.c + d}
	for x, k := range a.m {
		r.m[x] += k
	}
	for x, k := range b.m {
		r.m[x] -= k
	}
	for x, k := range r.m {
		if k == 0 {
			delete(r.m, x)
		}
	}
	r.lo = new(big.Int).Sub(a.lo, b.hi)
	r.hi = new(big.Int).Sub(a.hi, b.lo)
	return r
}

// interval of the form by the ranges of its atoms
func (s *State) span(f *intForm) (lo, hi *big.Int) {
	lo, hi = big.NewInt(f.c), big.NewInt(f.c)
	for x, k := range f.m {
		r := s.urange(x)
		p := new(big.Int).Mul(big.NewInt(k), new(big.Int).SetUint64(r.lo))
		q := new(big.Int).Mul(big.NewInt(k), new(big.Int).SetUint64(r.hi))
		if k < 0 {
			p, q = q, p
		}
		lo.Add(lo, p)
		hi.Add(hi, q)
	}
	return
}

// nonneg decides f >= 0 (1 yes, 0 no, -1 unknown).
func (s *State) nonneg(f *intForm) int {
	lo, hi := s.span(f)
	if lo.Sign() >= 0 {
		return 1
	}
	if hi.Sign() < 0 {
		return 0
	}
	e, k := f.ge0()
	if e == nil {
		return -1
	}
	if b, ok := s.bounds[e]; ok && b >= k {
		return 1
	}
	// e < k  <=>  -e >= 1-k
	if b, ok := s.bounds[Neg(e)]; ok && b >= 1-k {
		return 0
	}
	return -1
}

// cmpForm returns y - x - 1 for a comparison x < y that reads both sides exactly.
func (s *State) cmpForm(x, y *Term, signed bool) *intForm {
	a, b := s.intForm(x), s.intForm(y)
	if a == nil || b == nil {
		return nil
	}
	if !signed && (s.nonneg(a) != 1 || s.nonneg(b) != 1) {
		return nil
	}
	return b.sub(a, -1)
}

func (s *State) cmpLin(x, y *Term, signed bool) int {
	f := s.cmpForm(x, y, signed)
	if f == nil {
		return -1
	}
	return s.nonneg(f)
}

// addBound records a comparison as a bound on a linear form.
func (s *State) addBound(c *Term) {
	neg := false
	if c.Op == OXor && len(c.Args) == 1 && c.C == 1 {
		neg, c = true, c.Args[0]
	}
	if c.Op != OUlt && c.Op != OSlt {
		return
	}
	f := s.cmpForm(c.Args[0], c.Args[1], c.Op == OSlt)
	if f == nil {
		return
	}
	e, k := f.ge0()
	if e == nil {
		return
	}
	if neg {
		e, k = Neg(e), 1-k
	}
	if s.bounds == nil {
		s.bounds = map[*Term]int64{}
	}
	if b, ok := s.bounds[e]; !ok || b < k {
		s.bounds[e] = k
	}
}

type Outcome struct {
	St    *State
	Ret   Tuple
	Panic string // non-empty: the path ends in a run-time panic
	Pos   string
}

type Native func(ex *Exec, st *State, c *CallCtx) []Outcome

type CallCtx struct {
	Fn   *ssa.Function
	Args []Value
	Path string
	Pos  token.Pos
	Res  *types.Tuple
}

type Exec struct {
	splitFn *ssa.Function
	NoFeas  bool // take both sides of a branch without asking the solver
	// AtHeader sees an entry about to run a loop header; a non-nil answer replaces it
	AtHeader    func(fr *frame, e *entry) []*entry
	NoMerge     bool    // explore paths separately
	SplitZero   bool    // Bytes of a coordinate distinguishes zero
	Lets        *letTab // 64-bit sums are named where they are computed
	Prog        *ssa.Program
	Natives     map[string]Native
	Cut         map[*ssa.Function]*CutSpec
	Contracts   map[string]Native // callee contracts (checked separately)
	OpaqueTypes map[string]string
	OpaqueZero  map[string]func() Value
	objID       map[string]int
	globals     map[*ssa.Global]int
	Base        *State // state after package initialisation
	infos       map[*ssa.Function]*fnInfo
	MaxUnroll   int
	Used        map[string]int // functions executed
	UsedContr   map[string]int
	UsedNat     map[string]int
	Assumes     map[string]bool
	inited      map[*ssa.Package]bool
	InitAllow   func(path string) bool
	Interp      func(path string) bool
	LenVars     []*Term
	EagerAccel  bool // try loop summaries also where the header condition is already decided
	AccelSpecOf func(fr *frame, L *loopInfo, e *entry) *AccelSpec
	Accelerated []string
	smt         *SMT
	trace       bool
	GlobalWrite func(g *ssa.Global, fn *ssa.Function)
	initing     bool
	depth       int
	ModFrame    bool // record writes to RO objects as violations
	Steps       int
	NoSolver    bool
	PreFail     []string // preconditions of contracts not shown at a call
	stdCurve    bool
	RestartRule bool // loops that draw randomness are cut (randdom.go)
	onceDone    map[int]bool
	pointOK     map[*ebase]bool
	GlobalVals  map[string]func(ex *Exec, st *State) Value
}

// Unsupported is thrown (panic) when the code leaves the supported subset.
type Unsupported struct{ Msg string }

func unsup(f string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

func NewExec(prog *ssa.Program) *Exec {
	ex := &Exec{Prog: prog, Natives: map[string]Native{}, Contracts: map[string]Native{}, OpaqueTypes: map[string]string{}, OpaqueZero: map[string]func() Value{},
		objID: map[string]int{}, globals: map[*ssa.Global]int{}, infos: map[*ssa.Function]*fnInfo{}, MaxUnroll: 100000,
		Used: map[string]int{}, UsedContr: map[string]int{}, UsedNat: map[string]int{}, Assumes: map[string]bool{}, inited: map[*ssa.Package]bool{}, onceDone: map[int]bool{}, GlobalVals: map[string]func(ex *Exec, st *State) Value{}}
	ex.Base = NewState()
	return ex
}

// ---------- function info: loops and order ----------

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *loopInfo
	depth  int
	ord    int
}
type fnInfo struct {
	fn    *ssa.Function
	idx   map[ssa.Value]int
	n     int
	loops map[*ssa.BasicBlock]*loopInfo // by header
	of    map[*ssa.BasicBlock]*loopInfo // innermost
	ord   map[*ssa.BasicBlock]int
	byIdx []ssa.Value
	reach map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func (ex *Exec) info(fn *ssa.Function) *fnInfo {
	if fi, ok := ex.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, idx: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}, of: map[*ssa.BasicBlock]*loopInfo{}, ord: map[*ssa.BasicBlock]int{}}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				L := fi.loops[s]
				if L == nil {
					L = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = L
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if L.body[x] {
						continue
					}
					L.body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	var ls []*loopInfo
	for _, L := range fi.loops {
		ls = append(ls, L)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].body) != len(ls[j].body) {
			return len(ls[i].body) > len(ls[j].body)
		}
		return ls[i].header.Index < ls[j].header.Index
	})
	for i, L := range ls {
		for j := i - 1; j >= 0; j-- {
			if ls[j] != L && ls[j].body[L.header] {
				L.parent = ls[j]
				L.depth = ls[j].depth + 1
				break
			}
		}
	}
	for _, L := range ls { // outer to inner
		for b := range L.body {
			fi.of[b] = L
		}
	}
	// hierarchical topological order
	n := 0
	var order func(L *loopInfo, entry *ssa.BasicBlock)
	order = func(L *loopInfo, entry *ssa.BasicBlock) {
		// items: representative block: block itself, or header of child loop
		item := func(b *ssa.BasicBlock) *ssa.BasicBlock {
			x := fi.of[b]
			if x == L {
				return b
			}
			for x != nil && x.parent != L {
				x = x.parent
			}
			if x == nil {
				return nil
			}
			return x.header
		}
		inRegion := func(b *ssa.BasicBlock) bool { return L == nil || L.body[b] }
		seen := map[*ssa.BasicBlock]bool{}
		var post []*ssa.BasicBlock
		var dfs func(it *ssa.BasicBlock)
		dfs = func(it *ssa.BasicBlock) {
			if seen[it] {
				return
			}
			seen[it] = true
			var blocks []*ssa.BasicBlock
			if x := fi.loops[it]; x != nil && x != L && x.parent == L {
				for _, b := range fn.Blocks {
					if x.body[b] {
						blocks = append(blocks, b)
					}
				}
			} else {
				blocks = []*ssa.BasicBlock{it}
			}
			for _, b := range blocks {
				for i := len(b.Succs) - 1; i >= 0; i-- {
					s := b.Succs[i]
					if !inRegion(s) || (L != nil && s == L.header) {
						continue
					}
					t := item(s)
					if t != nil && t != it {
						dfs(t)
					}
				}
			}
			post = append(post, it)
		}
		dfs(entry)
		for i := len(post) - 1; i >= 0; i-- {
			it := post[i]
			if x := fi.loops[it]; x != nil && x != L && x.parent == L {
				x.ord = n
				n++
				order(x, it)
			} else {
				fi.ord[it] = n
				n++
			}
		}
	}
	if len(fn.Blocks) > 0 {
		order(nil, fn.Blocks[0])
	}
	ex.infos[fn] = fi
	return fi
}

// ---------- frames ----------

type entry struct {
	blk     *ssa.BasicBlock
	env     []Value
	st      *State
	iters   []int // iteration counts of enclosing loops, outermost first
	key     []int
	syms    *loopSym // acceleration bookkeeping
	hist    map[*ssa.BasicBlock]*hdrSnap
	defers  []*ssa.Defer
	cut     map[*ssa.BasicBlock]*cutInfo
	noMerge bool
}

type hdrSnap struct {
	env    []Value
	st     *State
	poison map[int]bool // phis (-1-index) and objects the loop may change
	hist   map[*ssa.BasicBlock]*hdrSnap
}
type loopSym struct{}

type frame struct {
	ex            *Exec
	fn            *ssa.Function
	fi            *fnInfo
	path          string
	work          []*entry
	outs          []Outcome
	args          []Value
	stop, noAccel *loopInfo
	noShape       bool
	arrivals      []*entry
	exits         int
}

func (fr *frame) loopsOf(b *ssa.BasicBlock) []*loopInfo {
	var r []*loopInfo
	for L := fr.fi.of[b]; L != nil; L = L.parent {
		r = append([]*loopInfo{L}, r...)
	}
	return r
}

func (fr *frame) mkKey(e *entry) {
	e.key = e.key[:0:0]
	for i, L := range fr.loopsOf(e.blk) {
		e.key = append(e.key, L.ord, e.iters[i])
	}
	e.key = append(e.key, fr.fi.ord[e.blk])
}
func keyLess(a, b []int) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] - b[i]
		}
	}
	return len(a) - len(b)
}

func (fr *frame) push(e *entry) {
	fr.mkKey(e)
	for i, w := range fr.work {
		c := keyLess(w.key, e.key)
		if c == 0 && w.blk == e.blk {
			if m := fr.tryMerge(w, e); m != nil {
				fr.work[i] = m
				return
			}
		}
	}
	i := sort.Search(len(fr.work), func(i int) bool { return keyLess(fr.work[i].key, e.key) > 0 })
	fr.work = append(fr.work, nil)
	copy(fr.work[i+1:], fr.work[i:])
	fr.work[i] = e
	if len(fr.work) > 4000 {
		unsup("path explosion in %s", fr.fn)
	}
}

// Run executes fn on args from st; every outcome has a disjoint path condition.
func (ex *Exec) Run(fn *ssa.Function, args []Value, st *State, path string) []Outcome {
	if len(fn.Blocks) == 0 {
		unsup("no body: %s", fn)
	}
	ex.depth++
	defer func() { ex.depth-- }()
	if ex.depth > 200 {
		unsup("recursion too deep at %s", fn)
	}
	ex.Used[fn.String()]++
	fi := ex.info(fn)
	fr := &frame{ex: ex, fn: fn, fi: fi, path: path, args: args}
	env := make([]Value, fi.n)
	for i, p := range fn.Params {
		env[fi.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		env[fi.idx[p]] = args[len(fn.Params)+i]
	}
	e := &entry{blk: fn.Blocks[0], env: env, st: st}
	if L := fi.of[e.blk]; L != nil {
		e.iters = make([]int, L.depth+1)
	}
	fr.push(e)
	for len(fr.work) > 0 {
		e := fr.work[0]
		fr.work = fr.work[1:]
		fr.block(e)
	}
	if ex.NoMerge || ex.splitFn == fn {
		return fr.outs
	}
	return mergeOutcomes(ex, fn, fr.outs)
}

func (fr *frame) get(e *entry, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.ex.constVal(x)
	case *ssa.Global:
		return Ptr{Obj: fr.ex.globalObj(x, e.st)}
	case *ssa.Function:
		return FuncV{Fn: x}
	case *ssa.Builtin:
		return FuncV{Nat: "builtin:" + x.Name()}
	}
	i, ok := fr.fi.idx[v]
	if !ok {
		unsup("unknown value %s in %s", v, fr.fn)
	}
	r := e.env[i]
	return r
}

func (ex *Exec) globalObj(g *ssa.Global, st *State) int {
	id, ok := ex.globals[g]
	if !ok {
		id = ex.newID("global:" + g.String())
		ex.globals[g] = id
	}
	if _, ok := st.Heap[id]; !ok {
		if b, ok := ex.Base.Heap[id]; ok {
			st.Heap[id] = b
		} else {
			t := g.Type().(*types.Pointer).Elem()
			if !ex.inited[g.Pkg] && g.Name() != "init$guard" {
				if sz := types.SizesFor("gc", "amd64").Sizeof(t); sz != 0 && ex.Interp(g.Pkg.Pkg.Path()) {
					was := ex.initing
					ex.InitPkg(g.Pkg)
					ex.initing = was
					for i, b := range ex.Base.Heap {
						if _, have := st.Heap[i]; !have {
							st.Heap[i] = b
						}
					}
					if _, ok := st.Heap[id]; ok {
						return id
					}
				} else if sz != 0 {
					if v, ok := ex.GlobalVals[g.String()]; ok {
						st.Heap[id] = &Object{T: t, V: v(ex, st), Name: g.String()}
						return id
					}
					unsup("global %s of an uninterpreted package", g)
				}
			}
			o := &Object{T: t, V: ex.Zero(t), Name: g.String()}
			st.Heap[id] = o
		}
	}
	return id
}

func (ex *Exec) newID(k string) int {
	if id, ok := ex.objID[k]; ok {
		return id
	}
	id := len(ex.objID) + 1
	ex.objID[k] = id
	return id
}

// Alloc creates an object whose identity is determined by the allocation site, call path and visit count.
func (ex *Exec) Alloc(st *State, site string, t types.Type, v Value) int {
	n := st.visits[site]
	st.visits[site] = n + 1
	id := ex.newID(fmt.Sprintf("%s#%d", site, n))
	st.Heap[id] = &Object{T: t, V: v, Name: site}
	return id
}

func (ex *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return ex.Zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return StrOf(constant.StringVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			w := widthOf(t)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return Const(w, uint64(i))
			}
			if i, ok := constant.Uint64Val(v); ok {
				return Const(w, i)
			}
			bi, _ := new(big.Int).SetString(v.ExactString(), 10)
			return Const(w, new(big.Int).And(bi, new(big.Int).SetUint64(^uint64(0))).Uint64())
		case u.Info()&types.IsFloat != 0:
			return &Opaque{Kind: "float", X: c.Value.ExactString()}
		}
	}
	unsup("constant %s of type %s", c, t)
	return nil
}

func (fr *frame) set(e *entry, v ssa.Value, x Value) { e.env[fr.fi.idx[v]] = x }

func (fr *frame) pos(p token.Pos) string {
	if !p.IsValid() {
		if fr.fn == nil {
			return "a modelled call"
		}
		return fr.fn.String()
	}
	q := fr.ex.Prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, "/repo/"), q.Line)
}

func (fr *frame) panicOut(st *State, msg string, p token.Pos) {
	fr.outs = append(fr.outs, Outcome{St: st, Panic: msg, Pos: fr.pos(p)})
}

// edge moves e to successor s, evaluating phis; e is consumed.
func (fr *frame) edge(e *entry, s *ssa.BasicBlock) {
	from := e.blk
	// phis
	var pi int
	for i, p := range s.Preds {
		if p == from {
			pi = i
		}
	}
	var phis []*ssa.Phi
	var vals []Value
	for _, in := range s.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, fr.get(e, ph.Edges[pi]))
	}
	for i, ph := range phis {
		fr.set(e, ph, vals[i])
	}
	// iteration vector
	var L *loopInfo = fr.fi.of[s]
	depth := 0
	if L != nil {
		depth = L.depth + 1
	}
	its := make([]int, depth)
	copy(its, e.iters)
	if H := fr.fi.loops[s]; H != nil {
		if H.body[from] {
			its[H.depth] = e.iters[H.depth] + 1
			if its[H.depth] > fr.ex.MaxUnroll {
				unsup("loop in %s (%s) exceeds %d iterations", fr.fn, fr.pos(s.Instrs[0].Pos()), fr.ex.MaxUnroll)
			}
		} else {
			its[H.depth] = 0
		}
	}
	e.blk = s
	e.iters = its
	if fr.stop != nil {
		if s == fr.stop.header {
			fr.arrivals = append(fr.arrivals, e)
			return
		}
		if !fr.stop.body[s] {
			fr.exits++
			if debugExec {
				fmt.Fprintln(os.Stderr, "exit of loop in", fr.fn)
				for _, c := range e.st.PC {
					fmt.Fprintln(os.Stderr, "   pc", Show(c, 6))
				}
			}
			return
		}
	}
	if H := fr.fi.loops[s]; H != nil && fr.ex.Cut != nil {
		if cs := fr.ex.Cut[fr.fn]; cs != nil && (cs.Loops == nil || cs.Loops(H)) {
			n, done := fr.cutLoop(cs, H, e, H.body[from])
			if done {
				return
			}
			fr.push(n)
			return
		}
	}
	if H := fr.fi.loops[s]; H != nil && fr.ex.RestartRule {
		if !H.body[from] {
			fr.snapLoop(H, e)
		} else if fr.restart(H, e) {
			return
		}
	}
	if H := fr.fi.loops[s]; H != nil && H != fr.noAccel && fr.ex.AtHeader == nil {
		es, done := fr.accel(H, e)
		if done {
			for _, x := range es {
				fr.push(x)
			}
			return
		}
	}
	fr.push(e)
}

func (e *entry) fork() *entry {
	n := *e
	n.env = append([]Value(nil), e.env...)
	n.st = e.st.clone()
	n.hist = nil
	if e.hist != nil {
		n.hist = map[*ssa.BasicBlock]*hdrSnap{}
		for k, v := range e.hist {
			n.hist[k] = v
		}
	}
	return &n
}

// branch splits e on c; either side may be nil when infeasible.
func (fr *frame) branch(e *entry, c *Term) (t, f *entry) {
	switch e.st.decide(c) {
	case 1:
		return e, nil
	case 0:
		return nil, e
	}
	ex := fr.ex
	ft, ff := true, true
	if !freshAtom(e.st, c) {
		ft, ff = ex.feasible(e.st, c), ex.feasible(e.st, Not(c))
	}
	if !ft && !ff {
		return nil, nil
	}
	if !ff {
		e.st.assume(c)
		return e, nil
	}
	if !ft {
		e.st.assume(Not(c))
		return nil, e
	}
	g := e.fork()
	e.st.assume(c)
	g.st.assume(Not(c))
	return e, g
}

// freshAtom: c compares a spare-capacity variable the path says nothing about yet with a constant inside its range.
func freshAtom(st *State, c *Term) bool {
	if c.Op == OXor && len(c.Args) == 1 && c.C == 1 {
		c = c.Args[0]
	}
	if c.Op != OUlt && c.Op != OSlt {
		return false
	}
	for i, a := range c.Args {
		b := c.Args[1-i]
		if a.Op == OVar && strings.HasPrefix(a.Name, "spare") && !varsOf(b)[a] && len(relevantPC(st.PC, a)) == 0 {
			return true
		}
	}
	return false
}

// require continues only where c holds; elsewhere the path panics.
func (fr *frame) require(e *entry, c *Term, msg string, p token.Pos) bool {
	t, f := fr.branch(e, c)
	if f != nil {
		fr.panicOut(f.st, msg, p)
	}
	if t == nil {
		return false
	}
	if t != e {
		*e = *t
	}
	return true
}

func (fr *frame) block(e *entry) {
	if fr.ex.AtHeader != nil && fr.fi.loops[e.blk] != nil {
		if es := fr.ex.AtHeader(fr, e); es != nil {
			for _, x := range es {
				fr.runFrom(x, 0)
			}
			return
		}
	}
	fr.runFrom(e, 0)
}

func (fr *frame) runFrom(e *entry, start int) {
	blk := e.blk
	for i := start; i < len(blk.Instrs); i++ {
		in := blk.Instrs[i]
		fr.ex.Steps++
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := fr.get(e, x.Cond).(*Term)
			var t, f *entry
			if fr.ex.NoFeas && e.st.decide(c) < 0 {
				t, f = e, e.fork()
				t.st.assume(c)
				f.st.assume(Not(c))
			} else {
				t, f = fr.branch(e, c)
			}
			if t != nil {
				fr.edge(t, blk.Succs[0])
			}
			if f != nil {
				fr.edge(f, blk.Succs[1])
			}
			return
		case *ssa.Jump:
			fr.edge(e, blk.Succs[0])
			return
		case *ssa.Return:
			var r Tuple
			for _, v := range x.Results {
				r = append(r, fr.get(e, v))
			}
			fr.outs = append(fr.outs, Outcome{St: e.st, Ret: r, Pos: fr.pos(x.Pos())})
			return
		case *ssa.Panic:
			fr.panicOut(e.st, "panic: "+showVal(fr.get(e, x.X)), x.Pos())
			return
		case *ssa.Call:
			outs := fr.call(e, &x.Call, x.Pos(), fmt.Sprintf("%s>%s.%d", fr.path, fr.fn.Name(), instrNo(fr.fi, x)))
			var live []Outcome
			for _, o := range outs {
				if o.Panic != "" {
					fr.outs = append(fr.outs, o)
				} else {
					live = append(live, o)
				}
			}
			if len(live) == 0 {
				return
			}
			for k, o := range live {
				n := e
				if k < len(live)-1 {
					c := *e
					c.env = append([]Value(nil), e.env...)
					n = &c
				}
				n.st = o.St
				switch {
				case x.Call.Signature().Results().Len() == 1:
					fr.set(n, x, o.Ret[0])
				default:
					fr.set(n, x, o.Ret)
				}
				if k < len(live)-1 {
					fr.runFrom(n, i+1)
				}
			}
			continue
		case *ssa.Defer:
			unsup("defer in %s", fr.fn)
		case *ssa.RunDefers:
			continue
		case *ssa.Go, *ssa.Select, *ssa.Send:
			unsup("%T in %s", in, fr.fn)
		case *ssa.Store:
			p := fr.get(e, x.Addr)
			if !fr.store(e, p, fr.get(e, x.Val), x.Pos()) {
				return
			}
		case *ssa.MapUpdate:
			fr.ex.mapUpdate(e.st, fr.get(e, x.Map), fr.get(e, x.Key), fr.get(e, x.Value))
		case ssa.Value:
			v, ok := fr.eval(e, x, in)
			if !ok {
				return
			}
			fr.set(e, x, v)
		default:
			unsup("instruction %T in %s", in, fr.fn)
		}
	}
}

func instrNo(fi *fnInfo, v ssa.Value) int { return fi.idx[v] }

func (fr *frame) eval(e *entry, v ssa.Value, in ssa.Instruction) (Value, bool) {
	ex := fr.ex
	switch x := v.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		site := fmt.Sprintf("%s>%s.a%d", fr.path, fr.fn.Name(), fr.fi.idx[x])
		return Ptr{Obj: ex.Alloc(e.st, site, t, ex.Zero(t))}, true
	case *ssa.BinOp:
		return fr.binop(e, x)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return fr.load(e, fr.get(e, x.X), x.Pos())
		case token.NOT:
			return Not(fr.get(e, x.X).(*Term)), true
		case token.SUB:
			t, ok := fr.get(e, x.X).(*Term)
			if !ok {
				unsup("negation of %T", fr.get(e, x.X))
			}
			return Neg(t), true
		case token.XOR:
			return Not(fr.get(e, x.X).(*Term)), true
		}
		unsup("unop %s", x.Op)
	case *ssa.ChangeType:
		return fr.get(e, x.X), true
	case *ssa.ChangeInterface:
		return fr.get(e, x.X), true
	case *ssa.Convert:
		return fr.convert(e, fr.get(e, x.X), x.X.Type(), x.Type(), x)
	case *ssa.MakeInterface:
		return Iface{T: x.X.Type(), V: fr.get(e, x.X)}, true
	case *ssa.MakeClosure:
		f := FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Binds = append(f.Binds, fr.get(e, b))
		}
		return f, true
	case *ssa.FieldAddr:
		p, ok := fr.get(e, x.X).(Ptr)
		if !ok {
			unsup("field address of %s", showVal(fr.get(e, x.X)))
		}
		if p.Obj == 0 {
			fr.panicOut(e.st, "nil pointer dereference", x.Pos())
			return nil, false
		}
		if p.Sym != nil {
			return Ptr{Obj: p.Obj, Path: p.Path, Sym: p.Sym, Rest: path(p.Rest, x.Field)}, true
		}
		return Ptr{Obj: p.Obj, Path: path(p.Path, x.Field)}, true
	case *ssa.Field:
		a, ok := fr.get(e, x.X).(*Agg)
		if !ok {
			unsup("field of %s", showVal(fr.get(e, x.X)))
		}
		return a.E[x.Field], true
	case *ssa.IndexAddr:
		return fr.indexAddr(e, x)
	case *ssa.Index:
		return fr.index(e, x)
	case *ssa.Lookup:
		return fr.lookup(e, x)
	case *ssa.Slice:
		return fr.slice(e, x)
	case *ssa.MakeSlice:
		return fr.makeSlice(e, x)
	case *ssa.MakeMap:
		site := fmt.Sprintf("%s>%s.m%d", fr.path, fr.fn.Name(), fr.fi.idx[x])
		id := ex.Alloc(e.st, site, x.Type(), &Opaque{Kind: "map", X: map[string]Value{}})
		return Ptr{Obj: id}, true
	case *ssa.Extract:
		return fr.get(e, x.Tuple).(Tuple)[x.Index], true
	case *ssa.TypeAssert:
		return fr.typeAssert(e, x)
	case *ssa.SliceToArrayPointer:
		s := fr.get(e, x.X).(Slice)
		n := x.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !fr.require(e, Sle(I64(n), s.Len), "slice to array pointer: length", x.Pos()) {
			return nil, false
		}
		unsup("slice to array pointer")
	case *ssa.Range:
		return &Opaque{Kind: "range", X: nil}, true
	}
	unsup("value %T (%s) in %s", v, v, fr.fn)
	return nil, false
}

func (fr *frame) binop(e *entry, x *ssa.BinOp) (Value, bool) {
	a, b := fr.get(e, x.X), fr.get(e, x.Y)
	ta, oka := a.(*Term)
	tb, okb := b.(*Term)
	if !oka || !okb {
		switch x.Op {
		case token.EQL, token.NEQ:
			c := fr.ex.eqVal(e.st, a, b)
			if x.Op == token.NEQ {
				c = Not(c)
			}
			return c, true
		case token.ADD:
			if s, ok := a.(Str); ok {
				return Str{append(append([]*Term{}, s.B...), b.(Str).B...)}, true
			}
		}
		if _, ok := a.(*Opaque); ok { // floats etc.
			return &Opaque{Kind: "float"}, true
		}
		unsup("binop %s on %s, %s", x.Op, showVal(a), showVal(b))
	}
	sg := isSigned(x.X.Type())
	switch x.Op {
	case token.ADD:
		return fr.ex.let(Add(ta, tb)), true
	case token.SUB:
		return fr.ex.let(Sub(ta, tb)), true
	case token.MUL:
		return Mul(ta, tb), true
	case token.QUO, token.REM:
		if !fr.require(e, Not(Eq(tb, Const(tb.W, 0))), "integer divide by zero", x.Pos()) {
			return nil, false
		}
		op := OUDiv
		if x.Op == token.QUO && sg {
			op = OSDiv
		} else if x.Op == token.REM && sg {
			op = OSRem
		} else if x.Op == token.REM {
			op = OURem
		}
		old := curRange
		curRange = e.st.rng
		r := DivRem(op, ta, tb)
		curRange = old
		return r, true
	case token.AND:
		return And(ta, tb), true
	case token.OR:
		return Or(ta, tb), true
	case token.XOR:
		return Xor(ta, tb), true
	case token.AND_NOT:
		return And(ta, Not(tb)), true
	case token.SHL, token.SHR:
		if isSigned(x.Y.Type()) {
			if !fr.require(e, Sle(Const(tb.W, 0), tb), "negative shift amount", x.Pos()) {
				return nil, false
			}
		}
		op := OShl
		if x.Op == token.SHR {
			op = OLshr
			if sg {
				op = OAshr
			}
		}
		return Shift(op, ta, tb), true
	case token.EQL:
		return Eq(ta, tb), true
	case token.NEQ:
		return Not(Eq(ta, tb)), true
	case token.LSS:
		if sg {
			return Slt(ta, tb), true
		}
		return Ult(ta, tb), true
	case token.LEQ:
		if sg {
			return Sle(ta, tb), true
		}
		return Ule(ta, tb), true
	case token.GTR:
		if sg {
			return Slt(tb, ta), true
		}
		return Ult(tb, ta), true
	case token.GEQ:
		if sg {
			return Sle(tb, ta), true
		}
		return Ule(tb, ta), true
	}
	unsup("binop %s", x.Op)
	return nil, false
}

// eqVal compares two values of the same Go type.
func (ex *Exec) eqVal(st *State, a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return Eq(x, b.(*Term))
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return Bool(x.Obj == y.Obj && x.Path == y.Path)
		}
	case Slice: // only nil comparisons are legal
		y := b.(Slice)
		if x.Obj == 0 && y.Obj == 0 {
			return True()
		}
		if y.Obj == 0 {
			return Bool(x.Obj == 0)
		}
		return Bool(x.Obj == 0 && y.Obj == 0)
	case Iface:
		y := b.(Iface)
		if x.T == nil || y.T == nil {
			return Bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return False()
		}
		return ex.eqVal(st, x.V, y.V)
	case FuncV:
		y := b.(FuncV)
		return Bool(x.Fn == y.Fn && x.Nat == y.Nat)
	case Str:
		y := b.(Str)
		if len(x.B) != len(y.B) {
			return False()
		}
		r := True()
		for i := range x.B {
			r = And(r, Eq(x.B[i], y.B[i]))
		}
		return r
	case *Agg:
		y := b.(*Agg)
		r := True()
		for i := range x.E {
			r = And(r, ex.eqVal(st, x.E[i], y.E[i]))
		}
		return r
	case *Opaque:
		if y, ok := b.(*Opaque); ok && x.Kind == "nilmap" && y.Kind == "nilmap" {
			return True()
		}
	}
	unsup("comparison of %s and %s", showVal(a), showVal(b))
	return nil
}

func (fr *frame) convert(e *entry, v Value, from, to types.Type, x *ssa.Convert) (Value, bool) {
	ft, tt := from.Underlying(), to.Underlying()
	if t, ok := v.(*Term); ok {
		if w := widthOf(to); w > 0 {
			if w <= t.W {
				return Extract(t, 0, w), true
			}
			if isSigned(from) {
				old := curRange
				curRange = e.st.rng
				defer func() { curRange = old }()
				if urange(t).hi < uint64(1)<<uint(t.W-1) {
					return Zext(t, w), true
				}
				return Sext(t, w), true
			}
			return Zext(t, w), true
		}
		if b, ok := tt.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			unsup("integer to unsafe.Pointer")
		}
		if b, ok := tt.(*types.Basic); ok && b.Info()&types.IsString != 0 && t.IsConst() {
			return StrOf(string(rune(t.C))), true
		}
		if b, ok := tt.(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			if t.IsConst() && t.C < 1<<50 {
				return &Opaque{Kind: "float", X: float64(t.C)}, true
			}
			return &Opaque{Kind: "float"}, true
		}
	}
	switch s := v.(type) {
	case Str:
		if sl, ok := tt.(*types.Slice); ok {
			site := fmt.Sprintf("%s>%s.s%d", fr.path, fr.fn.Name(), fr.fi.idx[x])
			a := &Agg{}
			for _, b := range s.B {
				a.E = append(a.E, b)
			}
			id := fr.ex.Alloc(e.st, site, types.NewArray(sl.Elem(), int64(len(s.B))), a)
			n := I64(int64(len(s.B)))
			return Slice{Obj: id, Off: I64(0), Len: n, Cap: n}, true
		}
		return s, true
	case Slice:
		if b, ok := tt.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if u := e.st.urange(s.Len); u.lo == u.hi {
				s.Len = Const(64, u.lo)
			}
			cells := fr.ex.SliceCells(e.st, s)
			if cells == nil && !(s.Len.IsConst() && s.Len.C == 0) {
				unsup("string of symbolic length")
			}
			var r Str
			for _, c := range cells {
				r.B = append(r.B, c.(*Term))
			}
			return r, true
		}
	case Ptr:
		// unsafe casts
		if tb, ok := tt.(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
			return s, true
		}
		if tp, ok := tt.(*types.Pointer); ok {
			if fb, ok := ft.(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
				if s.Obj == 0 {
					return s, true
				}
				return fr.ex.castPtr(e.st, s, tp.Elem()), true
			}
		}
	case *Opaque:
		if w := widthOf(to); w > 0 && s.Kind == "float" {
			if f, ok := s.X.(float64); ok && f > -1e15 && f < 1e15 {
				return Const(w, uint64(int64(f))), true
			}
			unsup("float to int conversion")
		}
		return s, true
	}
	unsup("conversion %s -> %s", from, to)
	return nil, false
}

func (fr *frame) typeAssert(e *entry, x *ssa.TypeAssert) (Value, bool) {
	i, ok := fr.get(e, x.X).(Iface)
	if !ok {
		unsup("type assert on %s", showVal(fr.get(e, x.X)))
	}
	okv := false
	var v Value
	if i.T != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			okv = types.Implements(i.T, it)
			v = i
		} else {
			okv = types.Identical(i.T, x.AssertedType)
			v = i.V
		}
	}
	if x.CommaOk {
		if !okv {
			v = fr.ex.Zero(x.AssertedType)
		}
		return Tuple{v, Bool(okv)}, true
	}
	if !okv {
		fr.panicOut(e.st, "interface conversion", x.Pos())
		return nil, false
	}
	return v, true
}

var debugExec = os.Getenv("GOCV_DEBUG") != ""
