package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// ---- raw access by path ----

func getPath(v Value, p []int) Value {
	for _, i := range p {
		switch a := v.(type) {
		case *Agg:
			if i >= len(a.E) {
				unsup("path index %d outside aggregate of %d", i, len(a.E))
			}
			v = a.E[i]
		case *Rope:
			v = nil
			pos := 0
			for _, pc := range a.P {
				if !pc.Len.IsConst() {
					unsup("rope read at constant index %d", i)
				}
				n := int(pc.Len.C)
				if i < pos+n {
					v = pieceAt(pc, I64(int64(i-pos)))
					break
				}
				pos += n
			}
			if v == nil {
				unsup("rope read out of range")
			}
		default:
			unsup("path into %s", showVal(v))
		}
	}
	return v
}
func setPath(v Value, p []int, nv Value) Value {
	if len(p) == 0 {
		return nv
	}
	a, ok := v.(*Agg)
	if !ok {
		unsup("path store into %s", showVal(v))
	}
	n := &Agg{E: append([]Value(nil), a.E...)}
	n.E[p[0]] = setPath(a.E[p[0]], p[1:], nv)
	return n
}

func (ex *Exec) obj(st *State, id int) *Object {
	if o, ok := st.Heap[id]; ok {
		return o
	}
	if o, ok := ex.Base.Heap[id]; ok {
		return o
	}
	unsup("dangling object %d", id)
	return nil
}

type ROWrite struct {
	Name string
	Pos  string
	PC   []*Term
}

var roWrites []ROWrite

func (ex *Exec) setObj(st *State, id int, v Value) {
	o := ex.obj(st, id)
	st.Heap[id] = &Object{T: o.T, V: v, Name: o.Name, RO: o.RO}
}

// Load reads memory at p.
func (ex *Exec) Load(st *State, p Ptr) Value {
	o := ex.obj(st, p.Obj)
	if p.Cast != nil {
		return ex.castLoad(st, p)
	}
	if p.Sym != nil {
		base := getPath(o.V, splitPath(p.Path))
		v := ex.readAt(st, base, p.Sym)
		return getPath(v, splitPath(p.Rest))
	}
	if r, ok := o.V.(*Rope); ok && p.Path != "" {
		sp := splitPath(p.Path)
		return getPath(ex.readAt(st, r, I64(int64(sp[0]))), sp[1:])
	}
	return getPath(o.V, splitPath(p.Path))
}

// readAt reads element idx of an array value.
func (ex *Exec) readAt(st *State, base Value, idx *Term) Value {
	switch a := base.(type) {
	case *Agg:
		if idx.IsConst() {
			return a.E[idx.C]
		}
		rg := st.urange(idx)
		var r Value
		for i := len(a.E) - 1; i >= 0; i-- {
			if uint64(i) < rg.lo || uint64(i) > rg.hi {
				continue
			}
			if r == nil {
				r = a.E[i]
				continue
			}
			m, ok := iteVal(Eq(idx, I64(int64(i))), a.E[i], r, nil)
			if !ok {
				unsup("symbolic index into elements that cannot be merged")
			}
			r = m
		}
		return r
	case *Rope:
		pos := I64(0)
		for k, p := range a.P {
			d := Sub(idx, pos)
			if k == len(a.P)-1 || ex.must(st, Slt(d, p.Len)) {
				return pieceAtS(ex, st, p, d)
			}
			if !ex.must(st, Sle(p.Len, d)) {
				unsup("rope index %s not located (piece %d)", Show(idx, 3), k)
			}
			pos = Add(pos, p.Len)
		}
	}
	unsup("read element of %s", showVal(base))
	return nil
}
func pieceAt(p Piece, d *Term) Value {
	switch {
	case p.Cells != nil:
		if !d.IsConst() {
			unsup("symbolic index in cell piece")
		}
		return p.Cells[d.C]
	case p.Sym != "":
		return UF(p.W, p.Sym, Add(p.Off, d))
	default:
		return p.Rep
	}
}
func pieceAtS(ex *Exec, st *State, p Piece, d *Term) Value {
	if p.Cells != nil && !d.IsConst() {
		return ex.readAt(st, &Agg{E: p.Cells}, d)
	}
	return pieceAt(p, d)
}

func (ex *Exec) Store(st *State, p Ptr, v Value) {
	o := ex.obj(st, p.Obj)
	if o.RO {
		roWrites = append(roWrites, ROWrite{o.Name + p.Path, "", st.PC})
	}
	if p.Cast != nil {
		ex.castStore(st, p, v)
		return
	}
	if p.Sym != nil {
		sp := splitPath(p.Path)
		base := getPath(o.V, sp)
		rest := splitPath(p.Rest)
		switch a := base.(type) {
		case *Agg:
			n := &Agg{E: make([]Value, len(a.E))}
			rg := st.urange(p.Sym)
			for i := range a.E {
				if uint64(i) < rg.lo || uint64(i) > rg.hi {
					n.E[i] = a.E[i]
					continue
				}
				m, ok := iteVal(Eq(p.Sym, I64(int64(i))), setPath(a.E[i], rest, v), a.E[i], nil)
				if !ok {
					unsup("symbolic store that cannot be merged")
				}
				n.E[i] = m
			}
			ex.setObj(st, p.Obj, setPath(o.V, sp, n))
			return
		case *Rope:
			if len(rest) > 0 {
				v = setPath(ex.readAt(st, base, p.Sym), rest, v)
			}
			ex.setObj(st, p.Obj, ex.ropeReplace(st, a, p.Sym, I64(1), []Piece{cellsPiece([]Value{v})}))
			return
		}
		unsup("symbolic store")
	}
	if r, ok := o.V.(*Rope); ok && p.Path != "" {
		sp := splitPath(p.Path)
		idx := I64(int64(sp[0]))
		if len(sp) > 1 {
			v = setPath(ex.readAt(st, r, idx), sp[1:], v)
		}
		ex.setObj(st, p.Obj, ex.ropeReplace(st, r, idx, I64(1), []Piece{cellsPiece([]Value{v})}))
		return
	}
	ex.setObj(st, p.Obj, setPath(o.V, splitPath(p.Path), v))
}

func (fr *frame) load(e *entry, v Value, pos token.Pos) (Value, bool) {
	p, ok := v.(Ptr)
	if !ok {
		unsup("load through %s", showVal(v))
	}
	if p.Obj == 0 {
		fr.panicOut(e.st, "nil pointer dereference", pos)
		return nil, false
	}
	return fr.ex.Load(e.st, p), true
}
func (fr *frame) store(e *entry, v Value, x Value, pos token.Pos) bool {
	p, ok := v.(Ptr)
	if !ok {
		unsup("store through %s", showVal(v))
	}
	if p.Obj == 0 {
		fr.panicOut(e.st, "nil pointer dereference", pos)
		return false
	}
	n := len(roWrites)
	fr.ex.Store(e.st, p, x)
	if len(roWrites) > n {
		roWrites[n].Pos = fr.pos(pos)
	}
	if !fr.ex.initing {
		if o := fr.ex.obj(e.st, p.Obj); strings.HasPrefix(o.Name, "github.com/blocktree") || strings.HasPrefix(o.Name, "global:") {
			globalWrites = append(globalWrites, o.Name+" at "+fr.pos(pos))
		}
	}
	return true
}

var globalWrites []string

// ---- unsafe reinterpretation ----

func (ex *Exec) castPtr(st *State, p Ptr, t types.Type) Value {
	sp := splitPath(p.Path)
	var cur Value = ex.obj(st, p.Obj).V
	if p.Cast != nil {
		return Ptr{Obj: p.Obj, Path: p.Path, Cast: &Cast{SrcW: p.Cast.SrcW, Off: p.Cast.Off, T: t}}
	}
	width := func(v Value) int {
		switch a := v.(type) {
		case *Agg:
			w := 0
			for _, x := range a.E {
				y, ok := x.(*Term)
				if !ok || w != 0 && y.W != w {
					return 0
				}
				w = y.W
			}
			return w
		case *Rope:
			for _, q := range a.P {
				if q.W > 0 {
					return q.W
				}
			}
			return 8
		}
		return 0
	}
	if p.Sym != nil && p.Rest == "" {
		if w := width(getPath(cur, sp)); w >= 8 {
			return Ptr{Obj: p.Obj, Path: p.Path, Cast: &Cast{SrcW: w, Off: MulC(p.Sym, uint64(w/8)), T: t}}
		}
	}
	if p.Sym != nil {
		unsup("unsafe cast of %s", showVal(p))
	}
	if v, ok := tryPath(cur, sp); ok {
		if w := width(v); w >= 8 {
			return Ptr{Obj: p.Obj, Path: p.Path, Cast: &Cast{SrcW: w, Off: I64(0), T: t}}
		}
	}
	if len(sp) == 0 {
		unsup("unsafe cast of %s", showVal(p))
	}
	idx := sp[len(sp)-1]
	par := p.Path[:strings.LastIndex(p.Path, "/")]
	if w := width(getPath(cur, splitPath(par))); w >= 8 {
		return Ptr{Obj: p.Obj, Path: par, Cast: &Cast{SrcW: w, Off: I64(int64(idx * w / 8)), T: t}}
	}
	unsup("unsafe cast")
	return nil
}

func tryPath(v Value, sp []int) (r Value, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			ok = false
		}
	}()
	return getPath(v, sp), true
}

func sizeOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return int(u.Len()) * sizeOf(u.Elem())
	case *types.Basic:
		return widthOf(t) / 8
	}
	unsup("sizeof %s", t)
	return 0
}

func (ex *Exec) castByte(st *State, base Value, srcW int, off *Term) *Term {
	if srcW == 8 {
		return ex.readAt(st, base, off).(*Term)
	}
	if !off.IsConst() {
		unsup("symbolic offset through unsafe cast")
	}
	o := int(off.C)
	el := ex.readAt(st, base, I64(int64(o*8/srcW))).(*Term)
	return Extract(el, o*8%srcW, 8)
}
func (ex *Exec) castLen(base Value, srcW int) *Term {
	switch a := base.(type) {
	case *Agg:
		return I64(int64(len(a.E) * srcW / 8))
	case *Rope:
		n := I64(0)
		for _, p := range a.P {
			n = Add(n, p.Len)
		}
		return MulC(n, uint64(srcW/8))
	}
	return I64(0)
}

func (ex *Exec) castLoad(st *State, p Ptr) Value {
	base := getPath(ex.obj(st, p.Obj).V, splitPath(p.Path))
	n := ex.castLen(base, p.Cast.SrcW)
	var rd func(t types.Type, off *Term) Value
	rd = func(t types.Type, off *Term) Value {
		if u, ok := t.Underlying().(*types.Array); ok {
			a := &Agg{}
			for i := 0; i < int(u.Len()); i++ {
				a.E = append(a.E, rd(u.Elem(), Add(off, I64(int64(i*sizeOf(u.Elem()))))))
			}
			return a
		}
		w := widthOf(t)
		if !ex.must(st, Ule(Add(off, I64(int64(w/8))), n)) {
			unsup("unsafe read not provably inside its object: off=%s n=%s bounds=%v", Add(off, I64(int64(w/8))), n, st.bounds)
		}
		var bs []*Term
		for i := w/8 - 1; i >= 0; i-- {
			bs = append(bs, ex.castByte(st, base, p.Cast.SrcW, Add(off, I64(int64(i)))))
		}
		return Concat(bs...)
	}
	return rd(p.Cast.T, p.Cast.Off)
}

func (ex *Exec) castStore(st *State, p Ptr, v Value) {
	o := ex.obj(st, p.Obj)
	sp := splitPath(p.Path)
	t, ok := v.(*Term)
	if !ok {
		unsup("unsafe store of aggregate")
	}
	base, ok := getPath(o.V, sp).(*Agg)
	if !ok || !p.Cast.Off.IsConst() {
		unsup("unsafe store into rope")
	}
	w := t.W
	off0 := int(p.Cast.Off.C)
	if off0+w/8 > len(base.E)*p.Cast.SrcW/8 {
		unsup("unsafe write outside object")
	}
	n := &Agg{E: append([]Value(nil), base.E...)}
	for i := 0; i < w/8; i++ {
		off := off0 + i
		k := off * 8 / p.Cast.SrcW
		b := off * 8 % p.Cast.SrcW
		el := n.E[k].(*Term)
		var parts []*Term
		if el.W-b-8 > 0 {
			parts = append(parts, Extract(el, b+8, el.W-b-8))
		}
		parts = append(parts, Extract(t, i*8, 8))
		if b > 0 {
			parts = append(parts, Extract(el, 0, b))
		}
		n.E[k] = Concat(parts...)
	}
	ex.setObj(st, p.Obj, setPath(o.V, sp, n))
}

// ---- indexing ----

func (fr *frame) boundsCheck(e *entry, idx, n *Term, pos token.Pos) bool {
	// idx as 64-bit signed value: 0 <= idx < n  <=> idx <u n (n >= 0)
	return fr.require(e, Ult(idx, n), "index out of range", pos)
}

func idx64(t *Term, typ types.Type, st *State) *Term {
	if t.W == 64 {
		return t
	}
	if isSigned(typ) {
		if st.urange(t).hi < uint64(1)<<uint(t.W-1) {
			return Zext(t, 64)
		}
		return Sext(t, 64)
	}
	return Zext(t, 64)
}

func (fr *frame) indexAddr(e *entry, x *ssa.IndexAddr) (Value, bool) {
	idx := idx64(fr.get(e, x.Index).(*Term), x.Index.Type(), e.st)
	switch b := fr.get(e, x.X).(type) {
	case Ptr:
		if b.Obj == 0 {
			fr.panicOut(e.st, "nil pointer dereference", x.Pos())
			return nil, false
		}
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !fr.boundsCheck(e, idx, I64(at.Len()), x.Pos()) {
			return nil, false
		}
		if b.Cast != nil {
			return Ptr{Obj: b.Obj, Path: b.Path, Cast: &Cast{b.Cast.SrcW, Add(b.Cast.Off, MulC(idx, uint64(sizeOf(at.Elem())))), at.Elem()}}, true
		}
		if b.Sym != nil {
			if !idx.IsConst() {
				unsup("doubly symbolic index")
			}
			return Ptr{Obj: b.Obj, Path: b.Path, Sym: b.Sym, Rest: path(b.Rest, int(idx.C))}, true
		}
		if idx.IsConst() {
			return Ptr{Obj: b.Obj, Path: path(b.Path, int(idx.C))}, true
		}
		return Ptr{Obj: b.Obj, Path: b.Path, Sym: idx}, true
	case Slice:
		if !fr.boundsCheck(e, idx, b.Len, x.Pos()) {
			return nil, false
		}
		return fr.ex.elemPtr(b, idx), true
	}
	unsup("index address of %s", showVal(fr.get(e, x.X)))
	return nil, false
}

func (ex *Exec) elemPtr(b Slice, idx *Term) Value {
	i := Add(b.Off, idx)
	if b.Cast != nil {
		return Ptr{Obj: b.Obj, Path: b.Path, Cast: &Cast{b.Cast.SrcW, Add(b.Cast.Off, MulC(i, uint64(sizeOf(b.Cast.T)))), b.Cast.T}}
	}
	if i.IsConst() {
		return Ptr{Obj: b.Obj, Path: path(b.Path, int(i.C))}
	}
	return Ptr{Obj: b.Obj, Path: b.Path, Sym: i}
}

func (fr *frame) index(e *entry, x *ssa.Index) (Value, bool) {
	idx := idx64(fr.get(e, x.Index).(*Term), x.Index.Type(), e.st)
	switch b := fr.get(e, x.X).(type) {
	case *Agg:
		if !fr.boundsCheck(e, idx, I64(int64(len(b.E))), x.Pos()) {
			return nil, false
		}
		return fr.ex.readAt(e.st, b, idx), true
	case Str:
		if !fr.boundsCheck(e, idx, I64(int64(len(b.B))), x.Pos()) {
			return nil, false
		}
		a := &Agg{}
		for _, c := range b.B {
			a.E = append(a.E, c)
		}
		return fr.ex.readAt(e.st, a, idx), true
	}
	unsup("index of %s", showVal(fr.get(e, x.X)))
	return nil, false
}

func (fr *frame) lookup(e *entry, x *ssa.Lookup) (Value, bool) {
	switch b := fr.get(e, x.X).(type) {
	case Str:
		idx := idx64(fr.get(e, x.Index).(*Term), x.Index.Type(), e.st)
		if !fr.boundsCheck(e, idx, I64(int64(len(b.B))), x.Pos()) {
			return nil, false
		}
		a := &Agg{}
		for _, c := range b.B {
			a.E = append(a.E, c)
		}
		return fr.ex.readAt(e.st, a, idx), true
	case Ptr:
		m := fr.ex.obj(e.st, b.Obj).V.(*Opaque).X.(map[string]Value)
		k := showVal(fr.get(e, x.Index))
		v, ok := m[k]
		if !ok {
			v = fr.ex.Zero(x.X.Type().Underlying().(*types.Map).Elem())
		}
		if x.CommaOk {
			return Tuple{v, Bool(ok)}, true
		}
		return v, true
	case *Opaque:
		v := fr.ex.Zero(x.X.Type().Underlying().(*types.Map).Elem())
		if x.CommaOk {
			return Tuple{v, Bool(false)}, true
		}
		return v, true
	}
	unsup("lookup in %s", showVal(fr.get(e, x.X)))
	return nil, false
}
func (ex *Exec) mapUpdate(st *State, m, k, v Value) {
	p, ok := m.(Ptr)
	if !ok {
		unsup("map update")
	}
	o := ex.obj(st, p.Obj).V.(*Opaque).X.(map[string]Value)
	n := map[string]Value{}
	for a, b := range o {
		n[a] = b
	}
	n[showVal(k)] = v
	ex.setObj(st, p.Obj, &Opaque{Kind: "map", X: n})
}

// ---- slices ----

func (fr *frame) makeSlice(e *entry, x *ssa.MakeSlice) (Value, bool) {
	n := idx64(fr.get(e, x.Len).(*Term), x.Len.Type(), e.st)
	c := idx64(fr.get(e, x.Cap).(*Term), x.Cap.Type(), e.st)
	const maxLen = 1 << 47
	if !fr.require(e, Ule(n, I64(maxLen)), "makeslice: len out of range", x.Pos()) {
		return nil, false
	}
	if n != c {
		if !fr.require(e, And(Ule(n, c), Ule(c, I64(maxLen))), "makeslice: cap out of range", x.Pos()) {
			return nil, false
		}
	}
	site := fmt.Sprintf("%s>%s.k%d", fr.path, fr.fn.Name(), fr.fi.idx[x])
	el := x.Type().Underlying().(*types.Slice).Elem()
	return fr.ex.newSlice(e.st, site, el, n, c), true
}

func (ex *Exec) newSlice(st *State, site string, el types.Type, n, c *Term) Slice {
	z := ex.Zero(el)
	var v Value
	var t types.Type = types.NewSlice(el)
	if c.IsConst() && c.C <= 1<<20 {
		a := &Agg{E: make([]Value, c.C)}
		for i := range a.E {
			a.E[i] = z
		}
		v = a
		t = types.NewArray(el, int64(c.C))
	} else {
		v = &Rope{P: []Piece{{Rep: z, Len: c, W: widthOf(el)}}}
	}
	id := ex.Alloc(st, site, t, v)
	return Slice{Obj: id, Off: I64(0), Len: n, Cap: c}
}

func (fr *frame) slice(e *entry, x *ssa.Slice) (Value, bool) {
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return idx64(fr.get(e, v).(*Term), v.Type(), e.st)
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = I64(0)
	}
	chk := func(c *Term) bool { return fr.require(e, c, "slice bounds out of range", x.Pos()) }
	switch b := fr.get(e, x.X).(type) {
	case Str:
		n := I64(int64(len(b.B)))
		if hi == nil {
			hi = n
		}
		if !chk(And(Ule(lo, hi), Ule(hi, n))) {
			return nil, false
		}
		if !lo.IsConst() || !hi.IsConst() {
			unsup("symbolic substring")
		}
		return Str{b.B[lo.C:hi.C]}, true
	case Ptr:
		if b.Obj == 0 {
			fr.panicOut(e.st, "nil pointer dereference", x.Pos())
			return nil, false
		}
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := I64(at.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		if !chk(And(Ule(lo, hi), Ule(hi, mx), Ule(mx, n))) {
			return nil, false
		}
		s := Slice{Obj: b.Obj, Path: b.Path, Off: lo, Len: Sub(hi, lo), Cap: Sub(mx, lo)}
		if b.Cast != nil {
			s.Cast = &Cast{b.Cast.SrcW, b.Cast.Off, at.Elem()}
		}
		return s, true
	case Slice:
		if hi == nil {
			hi = b.Len
		}
		if mx == nil {
			mx = b.Cap
		}
		if !chk(And(Ule(lo, hi), Ule(hi, mx), Ule(mx, b.Cap))) {
			return nil, false
		}
		return Slice{Obj: b.Obj, Path: b.Path, Off: Add(b.Off, lo), Len: Sub(hi, lo), Cap: Sub(mx, lo), Cast: b.Cast}, true
	}
	unsup("slice of %s", showVal(fr.get(e, x.X)))
	return nil, false
}

// ---- ropes ----

func cellsPiece(c []Value) Piece {
	w := 0
	if len(c) > 0 {
		if t, ok := c[0].(*Term); ok {
			w = t.W
		}
	}
	return Piece{Cells: c, Len: I64(int64(len(c))), W: w}
}

func toRope(v Value) *Rope {
	switch a := v.(type) {
	case *Rope:
		return a
	case *Agg:
		return &Rope{P: []Piece{cellsPiece(a.E)}}
	}
	unsup("not an array: %s", showVal(v))
	return nil
}

// splitAt cuts the rope so that a piece boundary lies at off; returns the left and right parts.
func (ex *Exec) splitAt(st *State, ps []Piece, off *Term) ([]Piece, []Piece) {
	pos := I64(0)
	for k, p := range ps {
		d := Sub(off, pos)
		if d.IsConst() && d.C == 0 || ex.must(st, Eq(d, I64(0))) {
			return ps[:k:k], ps[k:]
		}
		if d == p.Len {
			return ps[: k+1 : k+1], ps[k+1:]
		}
		within := st.decide(Sle(d, p.Len)) == 1 && st.decide(Slt(d, I64(0))) == 0 && st.decide(Sle(p.Len, d)) != 1
		if !within && ex.must(st, Sle(p.Len, d)) {
			pos = Add(pos, p.Len)
			continue
		}
		if !within && !ex.must(st, Sle(d, p.Len)) {
			unsup("cannot place offset %s in piece of length %s", Show(off, 4), Show(p.Len, 4))
		}
		if p.Cells != nil && !d.IsConst() {
			unsup("symbolic cut of cells at %s", Show(d, 3))
		}
		l, r := p, p
		l.Len, r.Len = d, Sub(p.Len, d)
		if p.Cells != nil {
			l.Cells, r.Cells = p.Cells[:d.C], p.Cells[d.C:]
		}
		if p.Sym != "" {
			r.Off = Add(p.Off, d)
		}
		L := append(ps[:k:k], l)
		R := append([]Piece{r}, ps[k+1:]...)
		return L, R
	}
	return ps, nil
}

func (ex *Exec) view(st *State, v Value, off, n *Term) []Piece {
	if n.IsConst() && n.C == 0 {
		return nil
	}
	if a, ok := v.(*Agg); ok && off.IsConst() && n.IsConst() {
		return []Piece{cellsPiece(a.E[off.C : off.C+n.C])}
	}
	_, r := ex.splitAt(st, toRope(v).P, off)
	l, _ := ex.splitAt(st, r, n)
	if n.IsConst() {
		// the whole view has length n: a single piece of symbolic length is determined
		sum, k, idx := int64(0), 0, 0
		for i, p := range l {
			if p.Len.IsConst() {
				sum += int64(p.Len.C)
			} else {
				k, idx = k+1, i
			}
		}
		if k == 1 && int64(n.C) >= sum {
			l = append([]Piece{}, l...)
			l[idx].Len = I64(int64(n.C) - sum)
		}
	}
	return normPieces(l)
}

func (ex *Exec) ropeReplace(st *State, r *Rope, off, n *Term, ps []Piece) *Rope {
	l, rest := ex.splitAt(st, r.P, off)
	_, rr := ex.splitAt(st, rest, n)
	out := append(append(append([]Piece{}, l...), ps...), rr...)
	return &Rope{P: normPieces(out)}
}

// normPieces merges adjacent pieces and expands short constant-length symbolic pieces.
func normPieces(ps []Piece) []Piece {
	var out []Piece
	for _, p := range ps {
		if p.Len.IsConst() && p.Len.C == 0 {
			continue
		}
		if n := len(out); n > 0 {
			q := &out[n-1]
			switch {
			case q.Cells != nil && p.Cells != nil:
				c := append(append([]Value{}, q.Cells...), p.Cells...)
				out[n-1] = cellsPiece(c)
				continue
			case q.Sym != "" && q.Sym == p.Sym && Add(q.Off, q.Len) == p.Off:
				q.Len = Add(q.Len, p.Len)
				continue
			case q.Rep != nil && p.Rep != nil && q.Rep == p.Rep:
				q.Len = Add(q.Len, p.Len)
				continue
			case q.Cells != nil && p.Sym != "" && p.Len.IsConst() && p.Len.C <= 4096, q.Sym != "" && p.Cells != nil && q.Len.IsConst() && q.Len.C <= 4096,
				q.Cells != nil && p.Rep != nil && p.Len.IsConst() && p.Len.C <= 4096, q.Rep != nil && p.Cells != nil && q.Len.IsConst() && q.Len.C <= 4096:
				c := append(append([]Value{}, expandPiece(*q)...), expandPiece(p)...)
				out[n-1] = cellsPiece(c)
				continue
			}
		}
		out = append(out, p)
	}
	return out
}

func expandPiece(p Piece) []Value {
	if p.Cells != nil {
		return p.Cells
	}
	if !p.Len.IsConst() {
		unsup("expanding a piece of symbolic length")
	}
	var r []Value
	for i := uint64(0); i < p.Len.C; i++ {
		r = append(r, pieceAt(p, Const(64, i)))
	}
	return r
}

// SliceView returns the contents of a slice as pieces.
func (ex *Exec) SliceView(st *State, s Slice) []Piece {
	if s.Obj == 0 || s.Len.IsConst() && s.Len.C == 0 {
		return nil
	}
	if s.Cast != nil {
		if !s.Len.IsConst() || !s.Off.IsConst() {
			unsup("symbolic slice through unsafe cast")
		}
		var cs []Value
		for i := 0; i < int(s.Len.C); i++ {
			cs = append(cs, ex.Load(st, ex.elemPtr(s, I64(int64(i))).(Ptr)))
		}
		return []Piece{cellsPiece(cs)}
	}
	base := getPath(ex.obj(st, s.Obj).V, splitPath(s.Path))
	return ex.view(st, base, s.Off, s.Len)
}

// SliceCells returns the elements of a slice of constant length, nil if the length is symbolic.
func (ex *Exec) SliceCells(st *State, s Slice) []Value {
	if !s.Len.IsConst() {
		return nil
	}
	r := []Value{}
	for _, p := range ex.SliceView(st, s) {
		r = append(r, expandPiece(p)...)
	}
	return r
}
func (ex *Exec) SliceTerms(st *State, s Slice) []*Term {
	c := ex.SliceCells(st, s)
	if c == nil {
		unsup("slice of symbolic length")
	}
	r := make([]*Term, len(c))
	for i := range c {
		r[i] = c[i].(*Term)
	}
	return r
}

// writeSlice overwrites dst[0:n] with the pieces.
func (ex *Exec) writeSlice(st *State, dst Slice, n *Term, ps []Piece, pos string) {
	if n.IsConst() && n.C == 0 {
		return
	}
	if !n.IsConst() {
		if m := st.singles(); len(m) > 0 {
			n = Subst(n, m)
			dst.Off = Subst(dst.Off, m)
			var qs []Piece
			for _, p := range ps {
				p.Len = Subst(p.Len, m)
				if p.Off != nil {
					p.Off = Subst(p.Off, m)
				}
				if !p.Len.IsConst() || p.Len.C > 0 {
					qs = append(qs, p)
				}
			}
			ps = qs
		}
	}
	o := ex.obj(st, dst.Obj)
	if o.RO {
		roWrites = append(roWrites, ROWrite{o.Name + dst.Path, pos, st.PC})
	}
	if dst.Cast != nil {
		i := 0
		for _, p := range ps {
			for _, c := range expandPiece(p) {
				ex.castStore(st, ex.elemPtr(dst, I64(int64(i))).(Ptr), c)
				i++
			}
		}
		return
	}
	sp := splitPath(dst.Path)
	base := getPath(o.V, sp)
	if end := Add(dst.Off, n); !n.IsConst() && end.IsConst() && len(ps) == 1 && strings.HasPrefix(ps[0].Sym, "BE:") && Add(ps[0].Off, ps[0].Len) == I64(zW) {
		// an integer right-aligned in a zeroed field: its fixed-width encoding
		w := int(st.urange(n).hi)
		k := int(end.C) - w
		nv, ok := base, k >= 0
		for i := 0; ok && i < w; i++ {
			t, isT := ex.readAt(st, nv, I64(int64(k+i))).(*Term)
			ok = isT && t.IsConst() && t.C == 0
		}
		if ok {
			var cs []Value
			for i := 0; i < w; i++ {
				cs = append(cs, ex.canonByte(st, UF(8, ps[0].Sym, I64(int64(zW-w+i)))))
			}
			if a, isA := base.(*Agg); isA {
				na := &Agg{E: append([]Value(nil), a.E...)}
				copy(na.E[k:], cs)
				nv = na
			} else {
				nv = ex.ropeReplace(st, toRope(base), I64(int64(k)), I64(int64(w)), []Piece{cellsPiece(cs)})
			}
			ex.setObj(st, dst.Obj, setPath(o.V, sp, nv))
			return
		}
	}
	if a, ok := base.(*Agg); ok {
		if dst.Off.IsConst() && n.IsConst() {
			na := &Agg{E: append([]Value(nil), a.E...)}
			i := int(dst.Off.C)
			for _, p := range ps {
				for _, c := range expandPiece(p) {
					na.E[i] = c
					i++
				}
			}
			ex.setObj(st, dst.Obj, setPath(o.V, sp, na))
			return
		}
		if len(sp) > 0 {
			unsup("symbolic-length write into an embedded array: at %s, %s cells", Show(dst.Off, 6), Show(n, 6))
		}
	}
	ex.setObj(st, dst.Obj, ex.ropeReplace(st, toRope(base), dst.Off, n, ps))
}

// builtinCopy models copy(dst, src).
func (fr *frame) builtinCopy(e *entry, dst Slice, src Value, pos token.Pos) []copyRes {
	ex := fr.ex
	var sl *Term
	var srcView func(st *State, n *Term) []Piece
	switch s := src.(type) {
	case Str:
		sl = I64(int64(len(s.B)))
		srcView = func(st *State, n *Term) []Piece {
			var c []Value
			for i := 0; i < int(n.C); i++ {
				c = append(c, s.B[i])
			}
			return []Piece{cellsPiece(c)}
		}
	case Slice:
		sl = s.Len
		srcView = func(st *State, n *Term) []Piece {
			t := s
			t.Len = n
			return ex.SliceView(st, t)
		}
	}
	do := func(st *State, n *Term) {
		if n.IsConst() && n.C == 0 {
			return
		}
		ex.writeSlice(st, dst, n, srcView(st, n), fr.pos(pos))
	}
	if sl == dst.Len {
		do(e.st, sl)
		return []copyRes{{e.st, sl}}
	}
	c := Sle(sl, dst.Len)
	var out []copyRes
	t, f := fr.branch(e, c)
	if t != nil {
		if r := t.st.urange(sl); r.lo == r.hi {
			sl = Const(sl.W, r.lo) // the path determines the length
		}
		try := t.st
		if !sl.IsConst() {
			try = t.st.clone()
		}
		if ok := supported(func() { do(try, sl) }); ok == nil {
			out = append(out, copyRes{try, sl})
		} else if r := t.st.urange(sl); !sl.IsConst() && r.hi-r.lo <= 64 { // every length on its own
			for n := r.lo; n <= r.hi; n++ {
				s := t.st.clone()
				if s.decide(Eq(sl, Const(sl.W, n))) == 0 {
					continue
				}
				s.assume(Eq(sl, Const(sl.W, n)))
				do(s, Const(sl.W, n))
				out = append(out, copyRes{s, Const(sl.W, n)})
			}
		} else {
			panic(*ok)
		}
	}
	if f != nil {
		do(f.st, dst.Len)
		out = append(out, copyRes{f.st, dst.Len})
	}
	return out
}

// supported runs f and returns the reason if it leaves the supported subset.
func supported(f func()) (u *Unsupported) {
	defer func() {
		if r := recover(); r != nil {
			x, is := r.(Unsupported)
			if !is {
				panic(r)
			}
			u = &x
		}
	}()
	f()
	return nil
}

type copyRes struct {
	st *State
	n  *Term
}

func (fr *frame) builtinAppend(e *entry, s Slice, t Value, el types.Type, site string, pos token.Pos) []appRes {
	ex := fr.ex
	var n *Term
	var ps []Piece
	switch x := t.(type) {
	case Str:
		n = I64(int64(len(x.B)))
		var c []Value
		for _, b := range x.B {
			c = append(c, b)
		}
		ps = []Piece{cellsPiece(c)}
	case Slice:
		n = x.Len
		ps = ex.SliceView(e.st, x)
	}
	if n.IsConst() && n.C == 0 {
		return []appRes{{e.st, s}}
	}
	nl := Add(s.Len, n)
	fits := Sle(n, Sub(s.Cap, s.Len)) // no overflow: 0 <= len <= cap
	var inpl, grow *entry
	if d := Sub(s.Cap, s.Len); d.Op == OVar && strings.HasPrefix(d.Name, "spare") && len(relevantPC(e.st.PC, d)) == 0 && e.st.decide(fits) < 0 {
		// arbitrary spare capacity: both ways are possible
		inpl, grow = e.fork(), e
		inpl.st.assume(fits)
		grow.st.assume(Not(fits))
	} else {
		inpl, grow = fr.branch(e, fits)
	}
	var out []appRes
	if inpl != nil {
		dst := Slice{Obj: s.Obj, Path: s.Path, Off: Add(s.Off, s.Len), Len: n, Cap: n, Cast: s.Cast}
		ex.writeSlice(inpl.st, dst, n, ps, fr.pos(pos))
		out = append(out, appRes{inpl.st, Slice{Obj: s.Obj, Path: s.Path, Off: s.Off, Len: nl, Cap: s.Cap, Cast: s.Cast}})
	}
	if grow != nil {
		old := ex.SliceView(grow.st, s)
		all := normPieces(append(append([]Piece{}, old...), ps...))
		var cp *Term
		if nl.IsConst() && s.Cap.IsConst() {
			cp = I64(int64(growCap(el, int(s.Cap.C), int(s.Len.C), int(n.C))))
		} else {
			// any spare capacity at all
			x := Fresh(64, "spare")
			varRange[x] = urng{0, 1 << 47}
			cp = Add(nl, x)
		}
		z := ex.Zero(el)
		var v Value
		if cp.IsConst() {
			a := &Agg{E: make([]Value, cp.C)}
			i := 0
			for _, p := range all {
				for _, c := range expandPiece(p) {
					a.E[i] = c
					i++
				}
			}
			for ; i < len(a.E); i++ {
				a.E[i] = z
			}
			v = a
		} else {
			extra := Sub(cp, nl)
			v = &Rope{P: append(append([]Piece{}, all...), Piece{Rep: z, Len: extra, W: widthOf(el)})}
		}
		id := ex.Alloc(grow.st, site, types.NewSlice(el), v)
		out = append(out, appRes{grow.st, Slice{Obj: id, Off: I64(0), Len: nl, Cap: cp}})
	}
	return out
}

type appRes struct {
	st *State
	s  Slice
}

// growCap asks the Go runtime itself for the capacity append gives.
func growCap(el types.Type, c, l, n int) int {
	var sz int64
	func() {
		defer func() { recover() }()
		sz = types.SizesFor("gc", "amd64").Sizeof(el)
	}()
	switch sz {
	case 1:
		return cap(append(make([]byte, l, c), make([]byte, n)...))
	case 8:
		if _, ok := el.Underlying().(*types.Pointer); ok {
			return cap(append(make([]*int, l, c), make([]*int, n)...))
		}
		return cap(append(make([]uint64, l, c), make([]uint64, n)...))
	case 4:
		return cap(append(make([]uint32, l, c), make([]uint32, n)...))
	case 32:
		return cap(append(make([][32]byte, l, c), make([][32]byte, n)...))
	case 48:
		return cap(append(make([][48]byte, l, c), make([][48]byte, n)...))
	}
	return l + n
}

var _ = unsafe.Sizeof(0)
