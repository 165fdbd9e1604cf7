package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"time"
)

type Unit struct {
	Name     string
	Patterns []string
	Shards   int
	Tags     string
	Run      func(c *Ctx)
}

var units = map[string]*Unit{}

func unit(name string, pat []string, shards int, run func(c *Ctx)) *Unit {
	u := &Unit{Name: name, Patterns: pat, Shards: shards, Run: run}
	units[name] = u
	return u
}

func unitTags(name, tags string, pat []string, shards int, run func(c *Ctx)) *Unit {
	u := unit(name, pat, shards, run)
	u.Tags = tags
	return u
}

func runUnit(name string, shard, n int) *UnitReport {
	u := units[name]
	rep := &UnitReport{Unit: name, Funcs: map[string]int{}, Contracts: map[string]int{}, Natives: map[string]int{}}
	t0 := time.Now()
	if u == nil {
		rep.Err = "no such unit"
		return rep
	}
	P, err := LoadProgram(u.Tags, u.Patterns...)
	if err != nil {
		rep.Err = err.Error()
		return rep
	}
	c := &Ctx{P: P, exs: new([]*Exec), Unit: name, Rep: rep, start: time.Now(), Thorough: os.Getenv("VERIF_TIER") == "thorough", Shard: shard, NShard: n}
	c.guard("unit "+name+" completes", name, func() { u.Run(c) })
	c.finish()
	rep.Sec = time.Since(t0).Seconds()
	return rep
}

func unitMain(args []string) {
	shard, n := 0, 1
	if len(args) >= 3 {
		shard, _ = strconv.Atoi(args[1])
		n, _ = strconv.Atoi(args[2])
	}
	rep := runUnit(args[0], shard, n)
	if dbgDump != nil {
		dbgDump()
	}
	if os.Getenv("GOCV_HUMAN") != "" {
		ok := 0
		for _, o := range rep.Obls {
			s := "ok  "
			if !o.OK {
				s = "FAIL"
			} else {
				ok++
			}
			fmt.Printf("%s %s | %s [%s] x%d %.2fs %s\n", s, o.Fn, o.Name, o.How, o.Cases, o.Sec, o.Detail)
		}
		fmt.Println(ok, "of", len(rep.Obls), "queries", rep.Queries, "solver", rep.SolverSec, "sec", rep.Sec, rep.Err)
		for _, a := range rep.Assumes {
			fmt.Println("assume:", a)
		}
		for _, a := range rep.Bounded {
			fmt.Println("bounded:", a)
		}
		if os.Getenv("GOCV_HUMAN") == "2" {
			fmt.Println(rep.Contracts, rep.Natives, rep.Accel)
		}
		return
	}
	b, _ := json.Marshal(rep)
	fmt.Println("\nGOCV-REPORT " + string(b))
}
