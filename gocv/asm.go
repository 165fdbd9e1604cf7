package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

// ---- symbolic execution of Plan 9 amd64 assembly (straight-line subset) ----

type asmPtr struct {
	obj int
	off int64
}
type asmInstr struct {
	op   string
	args []string
	line int
}

// asmMachine: registers hold *Term or asmPtr; memory objects are arrays of 64-bit words.
type asmMachine struct {
	reg  map[string]interface{}
	cf   *Term
	of   *Term
	mem  map[int]map[int64]*Term // object -> byte offset -> word
	size map[int]int64
	arg  map[int64]interface{} // frame pointer offset -> value
	wr   map[int]bool          // written objects
	glob map[string]*Term      // package variables
}

const asmStack = -1

// asmFuncs preprocesses and splits an assembly file into functions.
func asmFuncs(file string) (map[string][]asmInstr, error) {
	dir := scratchDir()
	os.WriteFile(filepath.Join(dir, "textflag.h"), []byte("#define NOSPLIT 4\n#define NOPROF 1\n#define RODATA 8\n"), 0644)
	out, err := exec.Command("gcc", "-E", "-P", "-undef", "-nostdinc", "-I", dir, "-x", "assembler-with-cpp", file).Output()
	if err != nil {
		return nil, fmt.Errorf("preprocess %s: %v", file, err)
	}
	fs := map[string][]asmInstr{}
	cur := ""
	n := 0
	for _, ln := range strings.Split(string(out), "\n") {
		for _, s := range strings.Split(ln, ";") {
			n++
			if i := strings.Index(s, "//"); i >= 0 {
				s = s[:i]
			}
			s = strings.TrimSpace(s)
			if s == "" || s == "NOP" {
				continue
			}
			f := strings.Fields(s)
			op := f[0]
			rest := strings.TrimSpace(s[len(op):])
			if op == "TEXT" {
				nm := rest[:strings.Index(rest, "(SB)")]
				cur = strings.TrimPrefix(nm, "·")
				fs[cur] = nil
				continue
			}
			if strings.HasSuffix(op, ":") || cur == "" {
				return nil, fmt.Errorf("%s: cannot read %q", file, s)
			}
			var as []string
			if rest != "" {
				for _, a := range strings.Split(rest, ",") {
					as = append(as, strings.TrimSpace(a))
				}
			}
			fs[cur] = append(fs[cur], asmInstr{op, as, n})
		}
	}
	return fs, nil
}

// asmOffset evaluates a constant offset expression of the form written in these files: N, (A*B), a+8.
func asmOffset(s string) (int64, bool) {
	s = strings.TrimSpace(s)
	if s == "" {
		return 0, true
	}
	if strings.HasPrefix(s, "(") && strings.HasSuffix(s, ")") {
		return asmOffset(s[1 : len(s)-1])
	}
	if i := strings.Index(s, "*"); i > 0 {
		a, ok1 := asmOffset(s[:i])
		b, ok2 := asmOffset(s[i+1:])
		return a * b, ok1 && ok2
	}
	v, err := strconv.ParseInt(s, 0, 64)
	return v, err == nil
}

var asmRegs = map[string]bool{"AX": true, "BX": true, "CX": true, "DX": true, "SI": true, "DI": true, "BP": true, "R8": true, "R9": true, "R10": true, "R11": true, "R12": true, "R13": true, "R14": true, "R15": true}

type asmPlace struct {
	reg string
	obj int
	off int64
}

func (m *asmMachine) place(a string) (asmPlace, interface{}, bool) {
	if asmRegs[a] {
		return asmPlace{reg: a}, nil, true
	}
	if strings.HasPrefix(a, "$") {
		s := a[1:]
		neg := strings.HasPrefix(s, "-")
		v, err := strconv.ParseUint(strings.TrimPrefix(s, "-"), 0, 64)
		if err != nil {
			return asmPlace{}, nil, false
		}
		if neg {
			v = -v
		}
		return asmPlace{}, Const(64, v), true
	}
	if !strings.HasSuffix(a, ")") {
		return asmPlace{}, nil, false
	}
	i := strings.LastIndex(a, "(")
	base, pre := a[i+1:len(a)-1], a[:i]
	if base == "FP" {
		k := strings.Index(pre, "+")
		o, ok := asmOffset(pre[k+1:])
		if k < 0 || !ok {
			return asmPlace{}, nil, false
		}
		v, ok := m.arg[o]
		return asmPlace{}, v, ok
	}
	if base == "SB" { // a package variable, read only
		v, ok := m.glob[strings.TrimPrefix(pre, "·")]
		return asmPlace{}, v, ok && v != nil
	}
	o, ok := asmOffset(pre)
	if !ok {
		return asmPlace{}, nil, false
	}
	if base == "SP" {
		return asmPlace{obj: asmStack, off: o}, nil, true
	}
	p, ok := m.reg[base].(asmPtr)
	if !ok {
		return asmPlace{}, nil, false
	}
	return asmPlace{obj: p.obj, off: p.off + o}, nil, true
}

func (m *asmMachine) rd(a string) (interface{}, error) {
	p, v, ok := m.place(a)
	if !ok {
		return nil, fmt.Errorf("operand %q", a)
	}
	if v != nil {
		return v, nil
	}
	if p.reg != "" {
		if m.reg[p.reg] == nil {
			return nil, fmt.Errorf("register %s read before it is written", p.reg)
		}
		return m.reg[p.reg], nil
	}
	t := m.mem[p.obj][p.off]
	if t == nil {
		return nil, fmt.Errorf("memory %q outside its object or unwritten", a)
	}
	return t, nil
}
func (m *asmMachine) rdT(a string) (*Term, error) {
	v, err := m.rd(a)
	if err != nil {
		return nil, err
	}
	t, ok := v.(*Term)
	if !ok {
		return nil, fmt.Errorf("operand %q is an address", a)
	}
	return t, nil
}
func (m *asmMachine) wrv(a string, v interface{}) error {
	p, c, ok := m.place(a)
	if !ok || c != nil {
		return fmt.Errorf("destination %q", a)
	}
	if p.reg != "" {
		m.reg[p.reg] = v
		return nil
	}
	if p.off < 0 || p.off%8 != 0 || p.off+8 > m.size[p.obj] {
		return fmt.Errorf("write to %q outside its object", a)
	}
	t, ok := v.(*Term)
	if !ok {
		return fmt.Errorf("address stored to memory at %q", a)
	}
	if m.mem[p.obj] == nil {
		m.mem[p.obj] = map[int64]*Term{}
	}
	m.mem[p.obj][p.off] = t
	m.wr[p.obj] = true
	return nil
}

func (m *asmMachine) run(ins []asmInstr) (err error) {
	ret := false
	for _, in := range ins {
		if ret {
			return fmt.Errorf("code after RET")
		}
		a := in.args
		fail := func(e error) error { return fmt.Errorf("%s %s: %v", in.op, strings.Join(a, ", "), e) }
		switch in.op {
		case "RET":
			ret = true
			continue
		}
		if len(a) == 0 {
			return fail(fmt.Errorf("unknown instruction"))
		}
		if in.op == "MOVQ" {
			v, e := m.rd(a[0])
			if e == nil {
				e = m.wrv(a[1], v)
			}
			if e != nil {
				return fail(e)
			}
			continue
		}
		if in.op == "XORQ" && a[0] == a[1] && asmRegs[a[0]] {
			m.reg[a[0]], m.cf, m.of = I64(0), False(), False()
			continue
		}
		var v []*Term
		for k := range a {
			if in.op == "MULXQ" && k > 0 || (in.op == "CMOVQCC" && k > 9) {
				break
			}
			t, e := m.rdT(a[k])
			if e != nil {
				return fail(e)
			}
			v = append(v, t)
		}
		last := a[len(a)-1]
		var r *Term
		switch in.op {
		case "XORQ":
			r, m.cf, m.of = Xor(v[1], v[0]), False(), False()
		case "ANDQ":
			r, m.cf, m.of = And(v[1], v[0]), False(), False()
		case "ORQ":
			r, m.cf, m.of = Or(v[1], v[0]), False(), False()
		case "NOTQ":
			r = Not(v[0])
		case "ROLQ":
			if !v[0].IsConst() {
				return fail(fmt.Errorf("variable rotate"))
			}
			k := int(v[0].C & 63)
			r = v[1]
			if k != 0 {
				r = Or(ShlC(v[1], k), LshrC(v[1], 64-k))
			}
			m.cf, m.of = nil, nil
		case "ADDQ":
			r, m.cf, m.of = Add(v[1], v[0]), AddCarry(v[1], v[0], Const(64, 0)), nil
		case "ADCQ":
			if m.cf == nil {
				return fail(fmt.Errorf("undefined carry"))
			}
			c := Zext(m.cf, 64)
			r, m.cf, m.of = Add(Add(v[1], v[0]), c), AddCarry(v[1], v[0], c), nil
		case "ADCXQ":
			if m.cf == nil {
				return fail(fmt.Errorf("undefined carry"))
			}
			c := Zext(m.cf, 64)
			r, m.cf = Add(Add(v[1], v[0]), c), AddCarry(v[1], v[0], c)
		case "ADOXQ":
			if m.of == nil {
				return fail(fmt.Errorf("undefined overflow flag"))
			}
			c := Zext(m.of, 64)
			r, m.of = Add(Add(v[1], v[0]), c), AddCarry(v[1], v[0], c)
		case "SUBQ":
			r, m.cf, m.of = Sub(v[1], v[0]), SubBorrow(v[1], v[0], Const(64, 0)), nil
			if m.cf.Op == OUlt { // kept as the start of a borrow chain
				m.cf = intern(&Term{Op: OSubB, W: 1, Args: []*Term{v[1], v[0], False()}})
			}
		case "SBBQ":
			if m.cf == nil {
				return fail(fmt.Errorf("undefined carry"))
			}
			c := Zext(m.cf, 64)
			r, m.cf, m.of = Sub(Sub(v[1], v[0]), c), SubBorrow(v[1], v[0], c), nil
		case "CMOVQCC":
			if m.cf == nil {
				return fail(fmt.Errorf("undefined carry"))
			}
			r = Ite(boolOf(m.cf), v[1], v[0])
		case "MULQ":
			ax, ok := m.reg["AX"].(*Term)
			if !ok {
				return fail(fmt.Errorf("AX"))
			}
			m.reg["AX"], m.reg["DX"] = Mul(ax, v[0]), MulHi(ax, v[0])
			m.cf, m.of = nil, nil
			continue
		case "MULXQ":
			dx, ok := m.reg["DX"].(*Term)
			if !ok || len(a) != 3 {
				return fail(fmt.Errorf("DX"))
			}
			lo, hi := Mul(dx, v[0]), MulHi(dx, v[0])
			if e := m.wrv(a[1], lo); e != nil {
				return fail(e)
			}
			if e := m.wrv(a[2], hi); e != nil {
				return fail(e)
			}
			continue
		default:
			return fail(fmt.Errorf("instruction not in the supported subset"))
		}
		if e := m.wrv(last, r); e != nil {
			return fail(e)
		}
	}
	if !ret {
		return fmt.Errorf("function does not return")
	}
	return nil
}
