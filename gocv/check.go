package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Prop ties a property of properties.jsonl to the units whose obligations decide it.
type Prop struct {
	ID      string
	Units   []string
	Replay  []string // packages (relative to the module) whose /verif/replay harness looks for a failing input
	Only    string   // regular expression for the harness tests of this property
	Trusted []string // trusted base stated in the evidence
	Always  string   // run the harness on every run as a bounded stand-in for contracts that are assumed; says which
}

var props = map[string]*Prop{}

func prop(p *Prop) { props[p.ID] = p }

type Finding struct {
	Property string `json:"property"`
	Fn       string `json:"fn"`
	Name     string `json:"name"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func knownFindings() []Finding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var f []Finding
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println("known_findings.json:", err)
		os.Exit(2)
	}
	return f
}

type job struct {
	unit     string
	shard, n int
}

func runJobs(jobs []job, budget time.Duration) []*UnitReport {
	self, _ := os.Executable()
	ctx, cancel := context.WithTimeout(context.Background(), budget)
	defer cancel()
	reps := make([]*UnitReport, len(jobs))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := range jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			j := jobs[i]
			c := exec.CommandContext(ctx, self, "unit", j.unit, strconv.Itoa(j.shard), strconv.Itoa(j.n))
			var out, errb bytes.Buffer
			c.Stdout, c.Stderr = &out, &errb
			err := c.Run()
			rep := &UnitReport{Unit: j.unit}
			k := strings.LastIndex(out.String(), "GOCV-REPORT ")
			if k < 0 {
				e := errb.String()
				if len(e) > 3000 {
					e = e[:3000]
				}
				rep.Err = fmt.Sprintf("no report (%v): %s", err, e)
			} else if e := json.Unmarshal([]byte(strings.TrimSpace(out.String()[k+12:])), rep); e != nil {
				rep.Err = e.Error()
			}
			reps[i] = rep
		}(i)
	}
	wg.Wait()
	return reps
}

func checkMain(id string) int {
	t0 := time.Now()
	p := props[id]
	if p == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var jobs []job
	for _, un := range p.Units {
		u := units[un]
		if u == nil {
			fmt.Println("unknown unit", un)
			return 2
		}
		for s := 0; s < u.Shards; s++ {
			jobs = append(jobs, job{un, s, u.Shards})
		}
	}
	var alwaysText string
	alwaysFound := false
	if p.Always != "" {
		var ok bool
		alwaysFound, alwaysText, ok = replayOK(p, 200*time.Second)
		alwaysFound = alwaysFound || !ok
		for _, k := range knownSeen {
			fmt.Println(k)
		}
	}
	reps := runJobs(jobs, 700*time.Second)

	type agg struct {
		Obl
		units map[string]bool
	}
	var order []string
	all := map[string]*agg{}
	funcs, contr, nats, accel, assume, bounded := map[string]int{}, map[string]int{}, map[string]int{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	back := map[string]int{}
	queries, solver := 0, 0.0
	put := func(o Obl) {
		k := o.Fn + "|" + o.Name
		a := all[k]
		if a == nil {
			a = &agg{Obl: o}
			all[k] = a
			order = append(order, k)
			return
		}
		a.Cases += o.Cases
		a.Sec += o.Sec
		for _, h := range strings.Split(o.How, ",") {
			if !strings.Contains(a.How, h) {
				a.How += "," + h
			}
		}
		if !o.OK && a.OK {
			a.OK, a.Detail = false, o.Detail
		}
	}
	count := map[string]int{}
	for i, r := range reps {
		if r.Err != "" {
			put(Obl{Unit: r.Unit, Name: "unit completes", Fn: r.Unit, OK: false, How: "none", Detail: fmt.Sprintf("shard %d: %s", jobs[i].shard, r.Err), Cases: 1})
			continue
		}
		for _, o := range r.Obls {
			put(o)
			count[r.Unit]++
		}
		for k, v := range r.Funcs {
			funcs[k] += v
		}
		for k, v := range r.Contracts {
			contr[k] += v
		}
		for k, v := range r.Natives {
			nats[k] += v
		}
		for _, a := range r.Accel {
			accel[a] = true
		}
		for _, a := range r.Assumes {
			assume[a] = true
		}
		for _, b := range r.Bounded {
			bounded[b] = true
		}
		queries += r.Queries
		solver += r.SolverSec
	}
	for _, un := range p.Units {
		if count[un] == 0 {
			// a unit that generates nothing proves nothing
			put(Obl{Unit: un, Name: "unit generates obligations", Fn: un, OK: false, How: "none", Detail: "no obligation generated", Cases: 1})
		}
	}
	if p.Always != "" {
		for _, h := range harnessGone {
			bounded[h] = true
		}
		bounded["differential harness on the real code (never counted as proved), standing in for: "+p.Always] = true
		if alwaysFound {
			d := alwaysText
			if i := strings.Index(d, "FAILING-INPUT"); i >= 0 {
				d = d[i:]
			}
			put(Obl{Unit: "harness", Name: "bounded differential check finds no failing input", Fn: "harness", OK: false, How: "bounded", Detail: d, Cases: 1})
		}
	}
	known := knownFindings()
	var failed, findings []*agg
	disch, nonb := 0, 0
	cases := 0
	for _, k := range order {
		a := all[k]
		cases += a.Cases
		if a.OK {
			disch++
			for _, h := range strings.Split(a.How, ",") {
				back[h]++
			}
			continue
		}
		isKnown := false
		for _, f := range known {
			if f.Fixed == "" && f.Property == id && f.Fn == a.Fn && f.Name == a.Name {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s: %s\n", id, a.Fn, a.Name, f.What)
				isKnown = true
				break
			}
		}
		if isKnown {
			findings = append(findings, a)
		} else {
			failed = append(failed, a)
		}
	}
	_ = nonb

	viol := 0
	line := ""
	if len(failed) > 0 {
		viol = len(failed)
		rp := filepath.Join(verifDir, "evidence", id+".replay.txt")
		os.MkdirAll(filepath.Dir(rp), 0755)
		var b strings.Builder
		fmt.Fprintf(&b, "property %s: undischarged obligations on the current source of %s\n", id, repoDir)
		for _, a := range failed {
			fmt.Fprintf(&b, "\nobligation: %s\nfunction:   %s\nunit:       %s\nback end:   %s\n%s\n", a.Name, a.Fn, a.Unit, a.How, a.Detail)
		}
		found, text := strings.Contains(alwaysText, "FAILING-INPUT"), alwaysText
		if p.Always == "" {
			found, text = replay(p, 900*time.Second-time.Since(t0)-40*time.Second)
		}
		fmt.Fprintf(&b, "\n---- search for a failing input on the real code (go test -overlay, harness in /verif/replay) ----\n%s\n", text)
		os.WriteFile(rp, []byte(b.String()), 0644)
		for _, a := range failed {
			d := a.Detail
			if len(d) > 300 {
				d = d[:300]
			}
			fmt.Printf("undischarged: %s: %s: %s\n", a.Fn, a.Name, strings.ReplaceAll(d, "\n", " "))
		}
		line = fmt.Sprintf("VIOLATION property=%s replay=%s", id, rp)
		if !found {
			line += " no-failing-input-found"
		}
	}

	keys := func(m map[string]int) []string {
		var r []string
		for k, v := range m {
			r = append(r, fmt.Sprintf("%s x%d", strings.ReplaceAll(k, modPath, "."), v))
		}
		sort.Strings(r)
		return r
	}
	skeys := func(m map[string]bool) []string {
		r := []string{}
		for k := range m {
			r = append(r, k)
		}
		sort.Strings(r)
		return r
	}
	var obls []map[string]interface{}
	for _, k := range order {
		a := all[k]
		m := map[string]interface{}{"function": a.Fn, "obligation": a.Name, "discharged": a.OK, "back_end": a.How, "cases": a.Cases, "seconds": float64(int(a.Sec*1000)) / 1000}
		if !a.OK {
			m["detail"] = a.Detail
		}
		obls = append(obls, m)
	}
	trusted := append([]string{
		"go/types and golang.org/x/tools/go/ssa (front end: the verified text is the SSA form of /repo's current source)",
		"gocv (verification-condition generator, term rewriter and sweeping equivalence checker in /verif/gocv)",
		"z3 4.8.12 for obligations marked z3 or sweep",
		"the specification packages in /verif/spec, written from the published standards",
	}, p.Trusted...)
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "proof", "wall_s": time.Since(t0).Seconds(), "violations": viol,
		"assumptions": skeys(assume),
		"coverage": map[string]interface{}{
			"obligations": len(order), "discharged": disch, "cases": cases,
			"checker_cmd":                 "/verif/check.sh " + id,
			"trusted_base":                trusted,
			"functions_under_contract":    keys(funcs),
			"calls_through_contracts":     keys(contr),
			"trusted_external_models":     keys(nats),
			"loop_summaries":              skeys(accel),
			"back_ends":                   back,
			"solver_queries":              queries,
			"solver_seconds":              solver,
			"bounded_not_proved":          skeys(bounded),
			"known_findings_undischarged": len(findings),
			"obligation_list":             obls,
		},
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), js, 0644)
	fmt.Printf("%s: %d of %d obligations discharged (%d cases), %d functions, %d solver queries, %.1fs\n", id, disch, len(order), cases, len(funcs), queries, time.Since(t0).Seconds())
	if line != "" {
		fmt.Println(line)
		return 1
	}
	return 0
}

var (
	knownRE     = regexp.MustCompile(`FAILING-INPUT\[([^\]]*)\]: (.*)`)
	plumbing    = regexp.MustCompile(`^(--- FAIL|=== |FAIL|exit status|ok )`)
	knownSeen   = map[string]string{}
	harnessGone []string
)

func knownInput(id, tag string) *Finding {
	for _, f := range knownFindings() {
		if f.Fixed == "" && f.Property == id && f.Fn == "input" && f.Name == tag {
			return &f
		}
	}
	return nil
}

// replay runs the differential harness of the property against the real code.
func replay(p *Prop, budget time.Duration) (bool, string) {
	f, t, _ := replayOK(p, budget)
	return f, t
}

func replayOK(p *Prop, budget time.Duration) (bool, string, bool) {
	var text strings.Builder
	found, pass := false, true
	if len(p.Replay) == 0 {
		return false, "no harness for this property", true
	}
	ov := map[string]string{}
	for v, f := range specOverlay() {
		ov[v] = f
	}
	for _, pkg := range p.Replay {
		fs, _ := filepath.Glob(filepath.Join(verifDir, "replay", pkg, "*_test.go"))
		for _, f := range fs {
			ov[filepath.Join(repoDir, pkg, "zz_verif_"+filepath.Base(f))] = f
		}
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(scratchDir(), "overlay.json")
	os.WriteFile(of, js, 0644)
	if budget < 30*time.Second {
		budget = 30 * time.Second
	}
	if budget > 300*time.Second {
		budget = 300 * time.Second
	}
	for _, pkg := range p.Replay {
		re := p.Only
		if re == "" {
			re = "^TestVerif" + p.ID
		}
		ctx, cancel := context.WithTimeout(context.Background(), budget)
		c := exec.CommandContext(ctx, "go", "test", "-vet=off", "-count=1", "-overlay", of, "-run", re, "-timeout", fmt.Sprintf("%ds", int(budget.Seconds())-5), "./"+pkg)
		c.Dir = repoDir
		c.Env = goEnv()
		b, err := c.CombinedOutput()
		cancel()
		if err != nil {
			// inputs listed in known_findings.json are reported, and raise no alarm
			var rest []string
			other := false
			for _, l := range strings.Split(string(b), "\n") {
				if m := knownRE.FindStringSubmatch(l); m != nil {
					if k := knownInput(p.ID, m[1]); k != nil {
						knownSeen[k.Name] = fmt.Sprintf("KNOWN-FINDING: property=%s %s (%s)", p.ID, k.What, m[2])
						continue
					}
				}
				if t := strings.TrimSpace(l); t != "" && !plumbing.MatchString(t) {
					other = true
				}
				rest = append(rest, l)
			}
			if !other && len(knownSeen) > 0 {
				err = nil
			}
			b = []byte(strings.Join(rest, "\n"))
		}
		if err != nil && strings.Contains(string(b), "[build failed]") {
			// the harness names something this tree does not have; the proofs decide alone
			harnessGone = append(harnessGone, "the harness for ./"+pkg+" does not build on this tree and was not run")
			err = nil
		}
		s := string(b)
		if len(s) > 6000 {
			s = s[:6000]
		}
		fmt.Fprintf(&text, "$ go test -overlay ... -run '%s' ./%s\n%s\n", re, pkg, s)
		if err != nil {
			pass = false
		}
		if err != nil && (strings.Contains(string(b), "FAILING-INPUT") || strings.Contains(string(b), "panic: test timed out") || strings.Contains(string(b), "panic: runtime error")) {
			found = true
		}
	}
	return found, text.String(), pass
}
