package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// Obl is one proof obligation generated from the current source.
type Obl struct {
	Unit   string  `json:"unit"`
	Name   string  `json:"name"`
	Fn     string  `json:"fn"` // function of /repo under contract
	OK     bool    `json:"ok"`
	How    string  `json:"how"` // back end that discharged it
	Detail string  `json:"detail,omitempty"`
	Sec    float64 `json:"sec"`
	Cases  int     `json:"cases"`
}

// UnitReport is what a unit subprocess prints.
type UnitReport struct {
	Unit      string         `json:"unit"`
	Obls      []Obl          `json:"obls"`
	Funcs     map[string]int `json:"funcs"`     // functions executed (body verified in place)
	Contracts map[string]int `json:"contracts"` // functions used through a contract
	Natives   map[string]int `json:"natives"`   // trusted models of external functions
	Assumes   []string       `json:"assumes"`
	Accel     []string       `json:"accel"`
	Queries   int            `json:"queries"`
	SolverSec float64        `json:"solver_sec"`
	Sec       float64        `json:"sec"`
	Err       string         `json:"err,omitempty"`
	Bounded   []string       `json:"bounded,omitempty"`
}

type Ctx struct {
	P             *Program
	Unit          string
	Rep           *UnitReport
	exs           *[]*Exec
	start         time.Time
	Thorough      bool
	Shard, NShard int
}

func (c *Ctx) Exec() *Exec {
	ex := NewStdExec(c.P)
	*c.exs = append(*c.exs, ex)
	return ex
}

// Ob records an obligation; repeated names are counted as cases of one obligation.
func (c *Ctx) Ob(name, fn string, ok bool, how, detail string) bool {
	now := time.Now()
	sec := now.Sub(c.start).Seconds()
	c.start = now
	for i := range c.Rep.Obls {
		o := &c.Rep.Obls[i]
		if o.Name == name && o.Fn == fn {
			o.Cases++
			o.Sec += sec
			if !strings.Contains(o.How, how) {
				o.How += "," + how
			}
			if !ok && o.OK {
				o.OK = false
				o.Detail = detail
			}
			return ok
		}
	}
	if ok {
		detail = ""
	}
	c.Rep.Obls = append(c.Rep.Obls, Obl{Unit: c.Unit, Name: name, Fn: fn, OK: ok, How: how, Detail: detail, Sec: sec, Cases: 1})
	return ok
}

func (c *Ctx) Assume(s string) {
	for _, a := range c.Rep.Assumes {
		if a == s {
			return
		}
	}
	c.Rep.Assumes = append(c.Rep.Assumes, s)
}

// Func records a function whose body was verified outside the SSA executor.
func (c *Ctx) Bounded(s string) { c.Rep.Bounded = append(c.Rep.Bounded, s) }
func (c *Ctx) Func(s string)    { c.Rep.Funcs[s]++ }

// guard runs f; leaving the supported subset is an undischarged obligation, not a crash.
func (c *Ctx) guard(name, fn string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if u, is := r.(Unsupported); is {
				c.Ob(name, fn, false, "none", "outside the supported subset: "+u.Msg)
				ok = false
				return
			}
			if debugExec {
				panic(r)
			}
			c.Ob(name, fn, false, "none", fmt.Sprintf("verifier error: %v", r))
			ok = false
		}
	}()
	f()
	return true
}

func (c *Ctx) finish() {
	for _, ex := range *c.exs {
		for k, v := range ex.Used {
			c.Rep.Funcs[k] += v
		}
		for k, v := range ex.UsedContr {
			c.Rep.Contracts[k] += v
		}
		for k, v := range ex.UsedNat {
			c.Rep.Natives[k] += v
		}
		for a := range ex.Assumes {
			c.Assume(a)
		}
		c.Rep.Accel = append(c.Rep.Accel, ex.Accelerated...)
		if ex.smt != nil {
			c.Rep.Queries += ex.smt.Queries
			c.Rep.SolverSec += ex.smt.Time.Seconds()
			ex.smt.Close()
		}
	}
	sort.Strings(c.Rep.Accel)
	var u []string
	for i, s := range c.Rep.Accel {
		if i == 0 || c.Rep.Accel[i-1] != s {
			u = append(u, s)
		}
	}
	if len(u) > 40 {
		u = u[:40]
	}
	c.Rep.Accel = u
}
