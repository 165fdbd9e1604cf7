package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

// SMT drives a persistent z3 process over bit-vector queries.
type SMT struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	Time    time.Duration
	Queries int
	Unknown int
	cache   map[string]int
}

func (s *SMT) start() {
	s.cmd = exec.Command("z3", "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<20)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	if s.cache == nil {
		s.cache = map[string]int{}
	}
}
func (s *SMT) Close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

type smtEnc struct {
	b    strings.Builder
	seen map[*Term]bool
	ufs  map[string]bool
	vars []*Term
}

func ref(t *Term) string {
	if t.Op == OConst {
		if t.W == 1 {
			return fmt.Sprintf("#b%d", t.C)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.C, t.W)
	}
	return fmt.Sprintf("t%d", t.ID)
}

func (e *smtEnc) emit(root *Term) {
	var st []*Term
	st = append(st, root)
	for len(st) > 0 {
		t := st[len(st)-1]
		if e.seen[t] || t.Op == OConst {
			st = st[:len(st)-1]
			continue
		}
		ready := true
		for _, a := range t.Args {
			if a.Op != OConst && !e.seen[a] {
				st = append(st, a)
				ready = false
			}
		}
		if !ready {
			continue
		}
		st = st[:len(st)-1]
		e.seen[t] = true
		e.def(t)
	}
}

func bool2bv(s string) string { return "(ite " + s + " #b1 #b0)" }

func (e *smtEnc) def(t *Term) {
	var x string
	r := func(i int) string { return ref(t.Args[i]) }
	nary := func(op string) string {
		s := r(0)
		for i := 1; i < len(t.Args); i++ {
			s = "(" + op + " " + s + " " + r(i) + ")"
		}
		return s
	}
	switch t.Op {
	case OVar:
		fmt.Fprintf(&e.b, "(declare-const t%d (_ BitVec %d))\n", t.ID, t.W)
		e.vars = append(e.vars, t)
		if rg, ok := varRange[t]; ok {
			fmt.Fprintf(&e.b, "(assert (and (bvule %s t%d) (bvule t%d %s)))\n", ref(Const(t.W, rg.lo)), t.ID, t.ID, ref(Const(t.W, rg.hi)))
		}
		return
	case OUF:
		n := fmt.Sprintf("|%s/%d", t.Name, t.W)
		sig := ""
		for _, a := range t.Args {
			n += fmt.Sprintf("_%d", a.W)
			sig += fmt.Sprintf(" (_ BitVec %d)", a.W)
		}
		n += "|"
		if !e.ufs[n] {
			e.ufs[n] = true
			fmt.Fprintf(&e.b, "(declare-fun %s (%s) (_ BitVec %d))\n", n, sig, t.W)
		}
		if len(t.Args) == 0 {
			x = n
		} else {
			x = "(" + n
			for i := range t.Args {
				x += " " + r(i)
			}
			x += ")"
		}
		e.vars = append(e.vars, t)
		fmt.Fprintf(&e.b, "(define-fun t%d () (_ BitVec %d) %s)\n", t.ID, t.W, x)
		if rg, ok := varRange[t]; ok {
			fmt.Fprintf(&e.b, "(assert (and (bvule %s t%d) (bvule t%d %s)))\n", ref(Const(t.W, rg.lo)), t.ID, t.ID, ref(Const(t.W, rg.hi)))
		}
		return
	case OLin:
		x = ref(Const(t.W, t.C))
		for i := range t.Args {
			k := t.Coef[i]
			switch k {
			case 1:
				x = "(bvadd " + x + " " + r(i) + ")"
			case mask(t.W):
				x = "(bvsub " + x + " " + r(i) + ")"
			default:
				x = "(bvadd " + x + " (bvmul " + ref(Const(t.W, k)) + " " + r(i) + "))"
			}
		}
	case OMul:
		x = "(bvmul " + r(0) + " " + r(1) + ")"
	case OMulHi:
		w := t.W
		x = fmt.Sprintf("((_ extract %d %d) (bvmul ((_ zero_extend %d) %s) ((_ zero_extend %d) %s)))", 2*w-1, w, w, r(0), w, r(1))
	case OAddC:
		w := t.Args[0].W
		x = fmt.Sprintf("((_ extract %d %d) (bvadd ((_ zero_extend 1) %s) ((_ zero_extend 1) %s) ((_ zero_extend %d) %s)))", w, w, r(0), r(1), w, r(2))
	case OSubB:
		w := t.Args[0].W
		x = bool2bv(fmt.Sprintf("(bvult ((_ zero_extend 1) %s) (bvadd ((_ zero_extend 1) %s) ((_ zero_extend %d) %s)))", r(0), r(1), w, r(2)))
	case OAnd:
		x = nary("bvand")
	case OOr:
		x = nary("bvor")
	case OXor:
		x = nary("bvxor")
		if t.C != 0 {
			x = "(bvxor " + x + " " + ref(Const(t.W, t.C)) + ")"
		}
	case OConcat:
		x = "(concat"
		for i := range t.Args {
			x += " " + r(i)
		}
		x += ")"
	case OExtract:
		x = fmt.Sprintf("((_ extract %d %d) %s)", t.Lo+t.W-1, t.Lo, r(0))
	case OSext:
		x = fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.Args[0].W, r(0))
	case OShl:
		x = "(bvshl " + r(0) + " " + r(1) + ")"
	case OLshr:
		x = "(bvlshr " + r(0) + " " + r(1) + ")"
	case OAshr:
		x = "(bvashr " + r(0) + " " + r(1) + ")"
	case OIte:
		x = "(ite (= " + r(0) + " #b1) " + r(1) + " " + r(2) + ")"
	case OEq:
		x = bool2bv("(= " + r(0) + " " + r(1) + ")")
	case OUlt:
		x = bool2bv("(bvult " + r(0) + " " + r(1) + ")")
	case OSlt:
		x = bool2bv("(bvslt " + r(0) + " " + r(1) + ")")
	case OUDiv:
		x = "(bvudiv " + r(0) + " " + r(1) + ")"
	case OURem:
		x = "(bvurem " + r(0) + " " + r(1) + ")"
	case OSDiv:
		x = "(bvsdiv " + r(0) + " " + r(1) + ")"
	case OSRem:
		x = "(bvsrem " + r(0) + " " + r(1) + ")"
	default:
		panic("smt op")
	}
	fmt.Fprintf(&e.b, "(define-fun t%d () (_ BitVec %d) %s)\n", t.ID, t.W, x)
}

// Check decides satisfiability of the conjunction: 1 sat, 0 unsat, -1 unknown.
func (s *SMT) Check(cs []*Term, timeoutMS int) int {
	r, _ := s.check(cs, timeoutMS, false)
	return r
}

func (s *SMT) Model(cs []*Term, timeoutMS int) (int, map[*Term]uint64) {
	return s.check(cs, timeoutMS, true)
}

func (s *SMT) check(cs []*Term, timeoutMS int, model bool) (int, map[*Term]uint64) {
	var keep []*Term
	for _, c := range cs {
		if c.IsTrue() {
			continue
		}
		if c.IsFalse() {
			return 0, nil
		}
		keep = append(keep, c)
	}
	if len(keep) == 0 && !model {
		return 1, nil
	}
	k := ""
	if !model {
		var sb strings.Builder
		for _, c := range keep {
			fmt.Fprintf(&sb, "%d,", c.ID)
		}
		k = sb.String()
		if r, ok := s.cache[k]; ok {
			return r, nil
		}
	}
	if s.cmd == nil {
		s.start()
	}
	t0 := time.Now()
	e := &smtEnc{seen: map[*Term]bool{}, ufs: map[string]bool{}}
	for _, c := range keep {
		e.emit(c)
		fmt.Fprintf(&e.b, "(assert (= %s #b1))\n", ref(c))
	}
	if os.Getenv("GOCV_DEBUG") == "2" {
		for _, c := range keep {
			fmt.Fprintln(os.Stderr, "Q:", Show(c, 8))
		}
		fmt.Fprintln(os.Stderr, "--")
	}
	res := -1
	full := false
	for try := 0; try < 2 && res < 0; try++ {
		var q strings.Builder
		if try == 0 {
			// incremental core, short limit
			fmt.Fprintf(&q, "(push)\n(set-option :timeout %d)\n", min(timeoutMS, 300))
			q.WriteString(e.b.String())
			if model {
				q.WriteString("(check-sat)\n(echo \"@@\")\n")
			} else {
				q.WriteString("(check-sat)\n(pop)\n(echo \"@@\")\n")
			}
		} else {
			full = true
			fmt.Fprintf(&q, "(reset)\n(set-option :timeout %d)\n", timeoutMS)
			q.WriteString(e.b.String())
			q.WriteString("(check-sat)\n(echo \"@@\")\n")
		}
		// a solver that ignores its limit is stopped
		proc := s.cmd.Process
		dog := time.AfterFunc(time.Duration(2*timeoutMS+4000)*time.Millisecond, func() { proc.Kill() })
		defer dog.Stop()
		io.WriteString(s.in, q.String())
		for {
			line, err := s.out.ReadString('\n')
			if err != nil {
				s.Close()
				break
			}
			line = strings.TrimSpace(line)
			if line == "@@" {
				break
			}
			switch line {
			case "sat":
				res = 1
			case "unsat":
				res = 0
			case "unknown", "timeout":
			default:
				if strings.Contains(line, "error") {
					panic("z3: " + line)
				}
			}
		}
		if model && res < 0 && try == 0 && s.cmd != nil {
			io.WriteString(s.in, "(reset)\n")
		}
		if s.cmd == nil {
			break
		}
	}
	s.Queries++
	s.Time += time.Since(t0)
	if res < 0 {
		s.Unknown++
	}
	if !model && s.cmd != nil {
		s.cache[k] = res
	}
	var m map[*Term]uint64
	if model && res == 1 {
		m = map[*Term]uint64{}
		for _, v := range e.vars {
			fmt.Fprintf(s.in, "(eval t%d)\n", v.ID)
			line, err := s.out.ReadString('\n')
			if err != nil {
				break
			}
			line = strings.TrimSpace(line)
			var x uint64
			if strings.HasPrefix(line, "#x") {
				fmt.Sscanf(line[2:], "%x", &x)
			} else if strings.HasPrefix(line, "#b") {
				fmt.Sscanf(line[2:], "%b", &x)
			}
			m[v] = x
		}
	}
	if (model && res >= 0 || full) && s.cmd != nil {
		io.WriteString(s.in, "(reset)\n")
	}
	return res, m
}

// feasible: may pc /\ c hold? (unknown counts as yes)
func (ex *Exec) feasible(st *State, c *Term) bool {
	if ex.NoSolver {
		return true
	}
	if ex.smt == nil {
		ex.smt = &SMT{}
	}
	return ex.smt.Check(append(relevantPC(st.PC, c), c), 3000) != 0
}

// must: does pc imply c? (only a definite yes counts)
func (ex *Exec) must(st *State, c *Term) bool {
	switch st.decide(c) {
	case 1:
		return true
	case 0:
		return false
	}
	if ex.smt == nil {
		ex.smt = &SMT{}
	}
	return ex.smt.Check(append(relevantPC(st.PC, c), Not(c)), 3000) == 0
}

// relevantPC keeps the conjuncts connected to c through shared variables.
func relevantPC(pc []*Term, c *Term) []*Term {
	want := map[*Term]bool{}
	for v := range varsOf(c) {
		want[v] = true
	}
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, p := range pc {
			if used[i] {
				continue
			}
			hit := false
			for v := range varsOf(p) {
				if want[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for v := range varsOf(p) {
					want[v] = true
				}
			}
		}
	}
	var r []*Term
	for i, p := range pc {
		if used[i] {
			r = append(r, p)
		}
	}
	return r
}

var varsCache = map[*Term]map[*Term]bool{}

func varsOf(t *Term) map[*Term]bool {
	if m, ok := varsCache[t]; ok {
		return m
	}
	m := map[*Term]bool{}
	seen := map[*Term]bool{}
	var st []*Term
	st = append(st, t)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x.Op == OVar || x.Op == OUF {
			m[x] = true
		}
		st = append(st, x.Args...)
	}
	varsCache[t] = m
	return m
}
