package main

import (
	"fmt"
	"os"
	"sort"
)

func init() {
	dbgDump = func() {
		if os.Getenv("GOCV_EPT") == "" {
			return
		}
		var ks []string
		for k := range eptTab {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintln(os.Stderr, k, "=", eptTab[k])
		}
		for i := 0; i < len(zByID); i++ {
			fmt.Fprintln(os.Stderr, "Z", i, "=", zByID[i])
		}
	}
}
