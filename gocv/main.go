package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"time"
)

func main() {
	defer cleanup()
	debug.SetGCPercent(400)
	if f := os.Getenv("GOCV_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: gocv check <property> | unit <name>")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		r := checkMain(os.Args[2])
		cleanup()
		os.Exit(r)
	case "replay":
		f, t := replay(props[os.Args[2]], 300*time.Second)
		fmt.Println(t, "found:", f)
	case "unit":
		unitMain(os.Args[2:])
	}
}
