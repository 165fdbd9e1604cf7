package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- folds: iterated application of a compression step over an array ----

// Fold names an iterated step function. The step itself is the specification code of /verif/spec.
type Fold struct {
	Name  string
	NS    int      // chaining words
	W     int      // width of a chaining word
	BB    int      // bytes per block
	NX    int      // extra parameters (salt, counters ...)
	XStep []uint64 // per-block increment of each extra parameter
	Step  func(h, blk, extra []*Term) []*Term
	Norm  func(extra []*Term) []*Term // canonical representative of equivalent parameters
}

var folds = map[string]*Fold{}

func (f *Fold) bump(extra []*Term, q *Term) []*Term {
	r := make([]*Term, len(extra))
	for i := range extra {
		r[i] = extra[i]
		if f.XStep != nil && f.XStep[i] != 0 {
			r[i] = Add(extra[i], MulC(Extract(q, 0, extra[i].W), f.XStep[i]))
		}
	}
	return f.norm(r)
}

func (f *Fold) norm(x []*Term) []*Term {
	if f.Norm != nil {
		return f.Norm(x)
	}
	return x
}

// CF is one step, kept abstract.
func (f *Fold) CF(h, extra, blk []*Term) []*Term {
	extra = f.norm(extra)
	// collapse onto a preceding fold over the same array
	if fd, sym, off, q, h0, x0 := f.isFold(h); fd {
		if f.eqTerms(extra, f.bump(x0, q)) && consecutive(blk, sym, Add(off, MulC(q, uint64(f.BB)))) {
			return f.N(h0, x0, sym, off, Add(q, I64(1)))
		}
	}
	if debugExec {
		if fd, _, _, q, _, x0 := f.isFold(h); fd {
			fmt.Fprintln(os.Stderr, "no collapse:", Show(extra[0], 9), "vs", Show(f.bump(x0, q)[0], 9))
		}
	}
	if sym, off, ok := symBlock(blk); ok {
		return f.N(h, extra, sym, off, I64(1))
	}
	args := append(append(append([]*Term{}, h...), extra...), blk...)
	r := make([]*Term, f.NS)
	for i := range r {
		r[i] = UF(f.W, fmt.Sprintf("cf:%s:%d", f.Name, i), args...)
	}
	return r
}

func symBlock(blk []*Term) (string, *Term, bool) {
	b := blk[0]
	if b.Op != OUF || len(b.Args) != 1 || b.W != 8 || strings.Contains(b.Name, ":") {
		return "", nil, false
	}
	if !consecutive(blk, b.Name, b.Args[0]) {
		return "", nil, false
	}
	return b.Name, b.Args[0], true
}
func consecutive(blk []*Term, sym string, off *Term) bool {
	for i, b := range blk {
		if b.Op != OUF || b.Name != sym || len(b.Args) != 1 || b.Args[0] != Add(off, I64(int64(i))) {
			return false
		}
	}
	return true
}
func (f *Fold) eqTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func (f *Fold) isFold(h []*Term) (ok bool, sym string, off, q *Term, h0, x0 []*Term) {
	for i, t := range h {
		pre := fmt.Sprintf("fold:%s:%d:", f.Name, i)
		if t.Op != OUF || !strings.HasPrefix(t.Name, pre) {
			return
		}
		if i > 0 && (strings.TrimPrefix(t.Name, pre) != sym || !f.eqTerms(t.Args, h[0].Args)) {
			return false, "", nil, nil, nil, nil
		}
		sym = strings.TrimPrefix(t.Name, pre)
	}
	a := foldArgs(h[0])
	return true, sym, a[len(a)-2], a[len(a)-1], a[:f.NS], a[f.NS : f.NS+f.NX]
}

// pack bundles a long argument list into one term.
func pack(args []*Term) []*Term {
	if len(args) < 16 {
		return args
	}
	return []*Term{UF(64, "pack:", args...)}
}

func foldArgs(t *Term) []*Term {
	if len(t.Args) == 1 && t.Args[0].Op == OUF && t.Args[0].Name == "pack:" {
		return t.Args[0].Args
	}
	return t.Args
}

// N is q steps over sym[off:], kept abstract.
func (f *Fold) N(h, extra []*Term, sym string, off, q *Term) []*Term {
	extra = f.norm(extra)
	if q.IsConst() && q.C == 0 {
		return h
	}
	if fd, s2, o2, q2, h0, x0 := f.isFold(h); fd && s2 == sym && Add(o2, MulC(q2, uint64(f.BB))) == off && f.eqTerms(extra, f.bump(x0, q2)) {
		return f.N(h0, x0, sym, o2, Add(q2, q))
	}
	if debugExec {
		if fd, s2, o2, q2, _, x0 := f.isFold(h); fd {
			fmt.Fprintln(os.Stderr, "no N collapse:", Show(extra[0], 9), "vs", Show(f.bump(x0, q2)[0], 9), s2, sym, Show(Add(o2, MulC(q2, uint64(f.BB))), 5), Show(off, 5), extra[1] == x0[1], extra[2] == x0[2])
		}
	}
	args := pack(append(append(append([]*Term{}, h...), extra...), off, q))
	r := make([]*Term, f.NS)
	for i := range r {
		r[i] = UF(f.W, fmt.Sprintf("fold:%s:%d:%s", f.Name, i, sym), args...)
	}
	return r
}

// Over folds the whole blocks of a view; the number of bytes left over is returned with them.
func (f *Fold) Over(ex *Exec, st *State, h, extra []*Term, ps []Piece) (hh, xx []*Term, rest []*Term, n *Term) {
	n = I64(0)
	var buf []*Term
	flush := func() {
		for len(buf) >= f.BB {
			blk := buf[:f.BB]
			buf = append([]*Term{}, buf[f.BB:]...)
			h = f.CF(h, extra, blk)
			extra = f.bump(extra, I64(1))
			n = Add(n, I64(1))
		}
	}
	queue := append([]Piece{}, ps...)
	for len(queue) > 0 {
		p := queue[0]
		queue = queue[1:]
		if p.Len.IsConst() {
			for _, c := range expandPiece(p) {
				buf = append(buf, c.(*Term))
			}
			flush()
			continue
		}
		if p.Sym == "" {
			unsup("fold over a piece of symbolic length that is not input data")
		}
		if len(buf) > 0 {
			need := I64(int64(f.BB - len(buf)))
			if !ex.must(st, Ule(need, p.Len)) {
				unsup("fold: cannot show that a piece of length %s completes a block", Show(p.Len, 3))
			}
			for i := 0; uint64(i) < need.C; i++ {
				buf = append(buf, pieceAt(p, I64(int64(i))).(*Term))
			}
			flush()
			p.Off = Add(p.Off, need)
			p.Len = Sub(p.Len, need)
			queue = append([]Piece{p}, queue...)
			continue
		}
		old := curRange
		curRange = st.rng
		q := DivRem(OUDiv, p.Len, Const(64, uint64(f.BB)))
		rem := DivRem(OURem, p.Len, Const(64, uint64(f.BB)))
		curRange = old
		if !rem.IsConst() {
			unsup("fold: remainder of %s is not constant", Show(p.Len, 4))
		}
		h = f.N(h, extra, p.Sym, p.Off, q)
		extra = f.bump(extra, q)
		n = Add(n, q)
		off := Add(p.Off, MulC(q, uint64(f.BB)))
		for i := uint64(0); i < rem.C; i++ {
			buf = append(buf, UF(p.W, p.Sym, Add(off, Const(64, i))))
		}
	}
	return h, extra, buf, n
}

// ---- flattening of values into scalar cells ----

func flatten(v Value, out *[]*Term, sk *strings.Builder) {
	switch x := v.(type) {
	case *Term:
		*out = append(*out, x)
		sk.WriteByte('t')
		sk.WriteString(strconv.Itoa(x.W))
		sk.WriteByte(',')
	case *Agg:
		sk.WriteString("{")
		for _, e := range x.E {
			flatten(e, out, sk)
		}
		sk.WriteString("}")
	case Ptr:
		fmt.Fprintf(sk, "p%d%s,", x.Obj, x.Path)
		if x.Sym != nil {
			*out = append(*out, x.Sym)
			sk.WriteString("sym" + x.Rest)
		}
		if x.Cast != nil {
			*out = append(*out, x.Cast.Off)
		}
	case Slice:
		fmt.Fprintf(sk, "s%d%s,", x.Obj, x.Path)
		*out = append(*out, x.Off, x.Len, x.Cap)
	case Iface:
		if x.T == nil {
			sk.WriteString("nil")
		} else {
			sk.WriteString("i" + x.T.String())
			flatten(x.V, out, sk)
		}
	case Str:
		fmt.Fprintf(sk, "str%d", len(x.B))
		*out = append(*out, x.B...)
	case Tuple:
		sk.WriteString("(")
		for _, e := range x {
			flatten(e, out, sk)
		}
		sk.WriteString(")")
	case FuncV:
		sk.WriteString("f" + x.Nat)
		if x.Fn != nil {
			sk.WriteString(x.Fn.String())
		}
		for _, b := range x.Binds {
			flatten(b, out, sk)
		}
	case *Rope:
		sk.WriteString("[")
		for _, p := range x.P {
			fmt.Fprintf(sk, "|%s%v", p.Sym, p.Cells == nil)
			*out = append(*out, p.Len)
			if p.Sym != "" {
				*out = append(*out, p.Off)
			}
			for _, c := range p.Cells {
				flatten(c, out, sk)
			}
			if p.Rep != nil {
				flatten(p.Rep, out, sk)
			}
		}
		sk.WriteString("]")
	case *Opaque:
		fmt.Fprintf(sk, "<%s %p>", x.Kind, x)
	case nil:
		sk.WriteString("nil;")
	default:
		unsup("flatten %T", v)
	}
}

func unflatten(v Value, in *[]*Term) Value {
	pop := func() *Term { t := (*in)[0]; *in = (*in)[1:]; return t }
	switch x := v.(type) {
	case *Term:
		return pop()
	case *Agg:
		n := &Agg{E: make([]Value, len(x.E))}
		for i, e := range x.E {
			n.E[i] = unflatten(e, in)
		}
		return n
	case Ptr:
		if x.Sym != nil {
			x.Sym = pop()
		}
		if x.Cast != nil {
			c := *x.Cast
			c.Off = pop()
			x.Cast = &c
		}
		return x
	case Slice:
		x.Off, x.Len, x.Cap = pop(), pop(), pop()
		return x
	case Iface:
		if x.T != nil {
			x.V = unflatten(x.V, in)
		}
		return x
	case Str:
		n := Str{}
		for range x.B {
			n.B = append(n.B, pop())
		}
		return n
	case Tuple:
		n := make(Tuple, len(x))
		for i := range x {
			n[i] = unflatten(x[i], in)
		}
		return n
	case FuncV:
		n := FuncV{Fn: x.Fn, Nat: x.Nat}
		for _, b := range x.Binds {
			n.Binds = append(n.Binds, unflatten(b, in))
		}
		return n
	case *Rope:
		n := &Rope{}
		for _, p := range x.P {
			q := p
			q.Len = pop()
			if p.Sym != "" {
				q.Off = pop()
			}
			if p.Cells != nil {
				q.Cells = nil
				for _, c := range p.Cells {
					q.Cells = append(q.Cells, unflatten(c, in))
				}
			}
			if p.Rep != nil {
				q.Rep = unflatten(p.Rep, in)
			}
			n.P = append(n.P, q)
		}
		return n
	}
	return v
}

// cellRef names one scalar cell of a loop state.
type cellRef struct {
	obj int // heap object, or -1-envIndex
	k   int // position in the flattened value
}

// LoopHint is a contract-supplied form for cells that are not linear in the iteration number.
type LoopHint struct {
	// Init returns, for the cell's value at loop entry, the form f(k) of the cell after k iterations (nil: not this cell)
	Form func(obj *Object, k int, init *Term) func(k *Term) *Term
}

type AccelSpec struct {
	Fold  *Fold
	Init  []*Term               // chaining value at loop entry, in order
	Extra func(k *Term) []*Term // extra parameters of step k
	Hints []LoopHint
	Log   func(s string, ok bool, how string)
}

type accelState struct {
	cells map[cellRef]*Term
	skel  map[int]string
}

func (fr *frame) snapshot(L *loopInfo, e *entry) accelState {
	s := accelState{map[cellRef]*Term{}, map[int]string{}}
	rec := func(id int, v Value) {
		var ts []*Term
		var sb strings.Builder
		flatten(v, &ts, &sb)
		s.skel[id] = sb.String()
		for k, t := range ts {
			s.cells[cellRef{id, k}] = t
		}
	}
	for _, in := range L.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		i := fr.fi.idx[ph]
		rec(-1-i, e.env[i])
	}
	for id, o := range e.st.Heap {
		rec(id, o.V)
	}
	return s
}

func (fr *frame) withCells(L *loopInfo, e *entry, upd map[cellRef]*Term) *entry {
	n := e.fork()
	byObj := map[int]map[int]*Term{}
	for c, t := range upd {
		if byObj[c.obj] == nil {
			byObj[c.obj] = map[int]*Term{}
		}
		byObj[c.obj][c.k] = t
	}
	for id, m := range byObj {
		var v Value
		if id < 0 {
			v = e.env[-1-id]
		} else {
			v = e.st.Heap[id].V
		}
		var ts []*Term
		var sb strings.Builder
		flatten(v, &ts, &sb)
		ts = append([]*Term{}, ts...)
		for k, t := range m {
			ts[k] = t
		}
		nv := unflatten(v, &ts)
		if id < 0 {
			n.env[-1-id] = nv
		} else {
			o := e.st.Heap[id]
			n.st.Heap[id] = &Object{T: o.T, V: nv, Name: o.Name, RO: o.RO}
		}
	}
	return n
}

// oneIter runs the loop body once from e (at the header); it returns the entries that come back to the header.
func (fr *frame) oneIter(L *loopInfo, e *entry) (arr []*entry, exits int, panics int) {
	sub := &frame{ex: fr.ex, fn: fr.fn, fi: fr.fi, path: fr.path, args: fr.args, stop: L, noAccel: L}
	sub.push(e)
	for len(sub.work) > 0 {
		x := sub.work[0]
		sub.work = sub.work[1:]
		sub.block(x)
		if sub.exits > 0 || len(sub.outs) > 0 {
			// any way out of the loop defeats the candidate trip count
			return sub.arrivals, sub.exits, len(sub.outs)
		}
	}
	return sub.arrivals, sub.exits, len(sub.outs)
}

// condAtHeader evaluates the header's branch condition in e without side effects on e.
func (fr *frame) condAtHeader(L *loopInfo, e *entry) *Term {
	ifi, ok := L.header.Instrs[len(L.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	n := e.fork()
	for _, in := range L.header.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.If:
		case *ssa.BinOp:
			v, ok := fr.eval(n, x, in)
			if !ok {
				return nil
			}
			fr.set(n, x, v)
		case *ssa.UnOp:
			v, ok := fr.eval(n, x, in)
			if !ok {
				return nil
			}
			fr.set(n, x, v)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				outs := fr.builtin(n, b, &x.Call, x.Pos(), "")
				fr.set(n, x, outs[0].Ret[0])
				continue
			}
			return nil
		case ssa.Value:
			v, ok := fr.eval(n, x, in)
			if !ok {
				return nil
			}
			fr.set(n, x, v)
		default:
			return nil
		}
	}
	c, ok := fr.get(n, ifi.Cond).(*Term)
	if !ok {
		return nil
	}
	return c
}

// accel replaces the iterations of a loop whose trip count is symbolic by an inductive summary.
func (fr *frame) accel(L *loopInfo, e *entry) ([]*entry, bool) {
	ex := fr.ex
	if len(ex.LenVars) == 0 {
		return nil, false
	}
	c := fr.condAtHeader(L, e)
	if c == nil {
		return nil, false
	}
	if e.st.decide(c) >= 0 && (!ex.EagerAccel || c.IsConst()) {
		return nil, false
	}
	vars := varsOf(c)
	var lv []*Term
	for _, v := range ex.LenVars {
		if vars[v] {
			lv = append(lv, v)
		}
	}
	if len(lv) == 0 {
		return nil, false
	}
	key := fmt.Sprintf("%s/%d", fr.path, L.header.Index)
	ds := []int64{1, 0, -1}
	if ex.EagerAccel {
		ds = []int64{0, 1, -1}
	}
	for _, v := range lv {
		for _, d := range ds {
			K := Add(v, I64(d))
			if !ex.must(e.st, Sle(I64(0), K)) {
				continue
			}
			fr.noShape = false
			if out := fr.tryAccel(L, e, K, key); out != nil {
				return []*entry{out}, true
			}
			if fr.noShape {
				return nil, false
			}
		}
	}
	return nil, false
}

func (fr *frame) tryAccel(L *loopInfo, e *entry, K *Term, key string) (res *entry) {
	ex := fr.ex
	// a candidate summary that leaves the supported subset is no candidate
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(Unsupported)
			if !ok {
				panic(r)
			}
			if debugExec {
				fmt.Println("accel: unsupported:", u.Msg)
			}
			res = nil
		}
	}()
	s0 := fr.snapshot(L, e)
	e1 := e.fork()
	pos := Slt(I64(0), K)
	if e1.st.decide(pos) == 0 || !ex.feasible(e1.st, pos) {
		return nil
	}
	e1.st.assume(pos)
	arr, exits, pan := fr.oneIter(L, e1)
	if len(arr) != 1 || exits > 0 || pan > 0 {
		return nil
	}
	changed := map[cellRef]bool{}
	diff := func(a *entry) bool {
		s1 := fr.snapshot(L, a)
		grew := false
		for id, sk := range s0.skel {
			if s1.skel[id] != sk {
				if debugExec {
					fmt.Println("accel: shape of", id, "changes", sk, "->", s1.skel[id])
				}
				return false
			}
		}
		for c, t := range s0.cells {
			if s1.cells[c] != t && !changed[c] {
				changed[c] = true
				grew = true
			}
		}
		_ = grew
		return true
	}
	if !diff(arr[0]) {
		fr.noShape = true
		return nil
	}
	var spec *AccelSpec
	if ex.AccelSpecOf != nil {
		spec = ex.AccelSpecOf(fr, L, e)
	}
	s1 := fr.snapshot(L, arr[0])
	j := Fresh(64, "j")
	forms := map[cellRef]func(k *Term) *Term{}
	classify := func(c cellRef) {
		t0, t1 := s0.cells[c], s1.cells[c]
		if spec != nil && c.obj >= 0 {
			for _, h := range spec.Hints {
				if f := h.Form(e.st.Heap[c.obj], c.k, t0); f != nil {
					forms[c] = f
					return
				}
			}
		}
		if t0.W >= 8 {
			d := Sub(t1, t0)
			if d.IsConst() {
				forms[c] = func(k *Term) *Term { return Add(t0, MulC(Extract(k, 0, t0.W), d.C)) }
			}
		}
	}
	for c := range changed {
		classify(c)
		if debugExec {
			fmt.Println("accel: cell", c, Show(s0.cells[c], 4), "->", Show(s1.cells[c], 4), forms[c] != nil)
		}
	}
	var a *entry
	H := map[cellRef]*Term{}
	for round := 0; ; round++ {
		if round > 8 {
			return nil
		}
		upd := map[cellRef]*Term{}
		for c := range changed {
			if f := forms[c]; f != nil {
				upd[c] = f(j)
			} else {
				if H[c] == nil {
					H[c] = Fresh(s0.cells[c].W, fmt.Sprintf("H%d_%d", c.obj, c.k))
				}
				upd[c] = H[c]
			}
		}
		ej := fr.withCells(L, e, upd)
		ej.st.assume(Sle(I64(0), j))
		ej.st.rng[j] = urng{0, ej.st.urange(K).hi}
		ej.st.assume(Slt(j, K))
		arr, exits, pan := fr.oneIter(L, ej)
		if len(arr) != 1 || exits > 0 || pan > 0 {
			if debugExec {
				fmt.Println("accel: generic iteration has", len(arr), "arrivals", exits, "exits", pan, "panics; K=", Show(K, 3))
			}
			return nil
		}
		a = arr[0]
		n := len(changed)
		sj := fr.snapshot(L, a)
		for id, sk := range s0.skel {
			if sj.skel[id] != sk {
				return nil
			}
		}
		for c, t := range s0.cells {
			want := t
			if changed[c] {
				continue
			}
			if sj.cells[c] != want {
				changed[c] = true
			}
		}
		again := len(changed) != n
		// linear and hinted cells must advance as claimed
		for c, f := range forms {
			x, y := sj.cells[c], f(Add(j, I64(1)))
			if x != y {
				if debugExec {
					fmt.Println("accel: linear form", c, Show(x, 6), "vs", Show(y, 6))
				}
				if r := ex.ProveEq(a.st.PC, []*Term{x}, []*Term{y}); !r.OK {
					delete(forms, c)
					again = true
				}
			}
		}
		if !again {
			break
		}
	}
	sj := fr.snapshot(L, a)
	// chaining cells
	final := map[cellRef]*Term{}
	if spec != nil && spec.Fold != nil {
		f := spec.Fold
		order := make([]cellRef, f.NS)
		ok := true
		used := map[cellRef]bool{}
		var all []cellRef
		for c := range H {
			all = append(all, c)
		}
		sort.Slice(all, func(i, k int) bool {
			if (all[i].obj < 0) != (all[k].obj < 0) {
				return all[i].obj < 0
			}
			if all[i].obj != all[k].obj {
				return all[i].obj < all[k].obj
			}
			return all[i].k < all[k].k
		})
		for i := range order {
			found := false
			for _, c := range all {
				if !used[c] && s0.cells[c] == spec.Init[i] {
					order[i], used[c], found = c, true, true
					break
				}
			}
			if !found {
				ok = false
			}
		}
		if ok {
			h := make([]*Term, f.NS)
			nx := make([]*Term, f.NS)
			for i, c := range order {
				h[i] = H[c]
				nx[i] = sj.cells[c]
			}
			sym, base, good := findBlockBase(nx, j, f.BB)
			if fd, s2, off, n, h0, _ := f.isFold(nx); !good && fd && n.IsConst() && n.C == 1 && f.eqTerms(h0, h) {
				sym, base = s2, Sub(off, MulC(j, uint64(f.BB)))
				good = !varsOf(base)[j]
			}
			if good {
				blk := make([]*Term, f.BB)
				off := Add(base, MulC(j, uint64(f.BB)))
				for i := range blk {
					blk[i] = UF(8, sym, Add(off, I64(int64(i))))
				}
				var xj, x0 []*Term
				if spec.Extra != nil {
					xj, x0 = spec.Extra(j), spec.Extra(I64(0))
				}
				want := f.Step(h, blk, xj)
				r := ex.ProveEq(a.st.PC, nx, want)
				if spec.Log != nil {
					spec.Log("loop body equals one step of "+f.Name, r.OK, r.How)
				}
				if r.OK {
					res := f.N(spec.Init, x0, sym, base, K)
					for i, c := range order {
						final[c] = res[i]
					}
				}
			} else if spec.Log != nil {
				spec.Log("loop body reads one block per iteration", false, "no block base found")
			}
		} else if spec.Log != nil {
			spec.Log("chaining cells of "+f.Name+" located", false, "")
		}
	}
	if debugExec {
		fmt.Println("accel: summary with", K, spec != nil, len(H), len(final), len(forms))
	}
	upd := map[cellRef]*Term{}
	for c := range changed {
		switch {
		case forms[c] != nil:
			upd[c] = forms[c](K)
		case final[c] != nil:
			upd[c] = final[c]
		default:
			upd[c] = Fresh(s0.cells[c].W, "havoc")
		}
	}
	out := fr.withCells(L, e, upd)
	for k, v := range a.st.visits {
		if v > out.st.visits[k] {
			out.st.visits[k] = v
		}
	}
	ex.Accelerated = append(ex.Accelerated, fmt.Sprintf("%s header block %d, trip count %s", fr.fn, L.header.Index, Show(K, 3)))
	return out
}

// findBlockBase finds sym and base with every j-dependent byte read at base + BB*j + i, 0 <= i < BB.
func findBlockBase(ts []*Term, j *Term, bb int) (string, *Term, bool) {
	sym := ""
	var base *Term
	lo := int64(1 << 62)
	var idx []*Term
	for _, t := range cone(ts) {
		if t.Op == OUF && t.W == 8 && len(t.Args) == 1 && varsOf(t.Args[0])[j] {
			if sym != "" && t.Name != sym {
				return "", nil, false
			}
			sym = t.Name
			idx = append(idx, Sub(t.Args[0], MulC(j, uint64(bb))))
		}
	}
	if len(idx) == 0 {
		return "", nil, false
	}
	for _, x := range idx {
		d := Sub(x, idx[0])
		if !d.IsConst() {
			return "", nil, false
		}
		if d.Signed() < lo {
			lo = d.Signed()
			base = x
		}
	}
	return sym, base, true
}

var _ = types.Identical
