package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"sync"

	"verif.local/sim/scen"
)

// selftest runs many seeds of every scenario twice, in processes of different
// batch sizes and at different worker counts, and compares event logs.
func selftest(args []string) {
	fs := flag.NewFlagSet("selftest", flag.ExitOnError)
	n := fs.Int("n", 200, "runs per scenario and seed")
	seeds := fs.Int("seeds", 4, "")
	dir := fs.String("dir", os.TempDir(), "")
	only := fs.String("prop", "", "")
	raceExe := fs.String("race", "", "")
	fs.Parse(args)
	var ids []string
	for id := range scen.All {
		if *only == "" || *only == id {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	bad := 0
	exe, _ := os.Executable()
	for _, id := range ids {
		for _, race := range []bool{false, true} {
			if race && (*raceExe == "" || !scen.All[id].Race) {
				continue
			}
			for seed := 1; seed <= *seeds; seed++ {
				c := &checker{sc: scen.All[id], seed: uint64(seed), dir: *dir, exe: exe, raceExe: *raceExe}
				collect := func(size, workers int) []uint64 {
					res := make([]uint64, *n)
					sem := make(chan int, workers)
					for i := 0; i < workers; i++ {
						sem <- i
					}
					var wg sync.WaitGroup
					for from := 0; from < *n; from += size {
						wg.Add(1)
						w := <-sem
						go func(from int) {
							defer wg.Done()
							rep, crash, err := c.runWorker(race, from, min(size, *n-from), w, "")
							sem <- w
							if err != nil || crash != nil {
								fmt.Println(id, "worker failed", err, crash)
								return
							}
							if rep.Err != "" || rep.Found != nil {
								fmt.Println(id, "seed", seed, rep.Err, rep.Found != nil)
							}
							copy(res[from:], rep.Hashes)
						}(from)
					}
					wg.Wait()
					return res
				}
				a, b, d := collect(*n, 1), collect(7, 8), collect(31, 3)
				diff := 0
				for i := range a {
					if a[i] != b[i] || a[i] != d[i] || a[i] == 0 {
						diff++
						if diff < 4 {
							fmt.Printf("%s race=%v seed %d run %d: %x %x %x\n", id, race, seed, i, a[i], b[i], d[i])
						}
					}
				}
				bad += diff
				fmt.Printf("%s race=%v seed %d: %d runs x 3, %d differ\n", id, race, seed, *n, diff)
			}
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}
