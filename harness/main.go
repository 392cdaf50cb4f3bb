package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"

	_ "verifharness/checks"
	"verifharness/rt"
)

func main() {
	a := os.Args[1:]
	if len(a) == 0 {
		fmt.Fprintln(os.Stderr, "usage: harness list | run ID TIER SEED VERIFDIR [CASE]")
		os.Exit(2)
	}
	switch a[0] {
	case "list":
		var ids []string
		for id := range rt.Checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, rt.Checks[id].Title)
		}
	case "worker":
		seed, _ := strconv.ParseInt(a[3], 10, 64)
		ck := rt.Checks[a[1]]
		if ck == nil {
			os.Exit(3)
		}
		rt.WorkerMain(ck, a[2], seed, a[4], a[5], a[6])
	case "run":
		seed, _ := strconv.ParseInt(a[3], 10, 64)
		only := ""
		if len(a) > 5 {
			only = a[5]
		}
		os.Exit(rt.Main(a[1], a[2], seed, a[4], only))
	default:
		os.Exit(2)
	}
}
