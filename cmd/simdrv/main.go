// Command simdrv builds the deterministic simulator from the repository's current
// working tree, runs a property's campaign and reports.
//
//	simdrv check ID        (VERIF_SEED, VERIF_TIER)
//	simdrv replay FILE
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
	seed     uint64
	tier     = "quick"
)

func main() {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	if d, err := os.Getwd(); err == nil {
		if _, err := os.Stat(filepath.Join(d, "overlay", "zzsim")); err == nil {
			verifDir = d
		}
	}
	seed = 1
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 63); err == nil {
		seed = s
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier = "thorough"
	}
	args := os.Args[1:]
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: simdrv check ID | replay FILE | corpus | build VARIANT OUT")
		os.Exit(2)
	}
	switch args[0] {
	case "check":
		os.Exit(runCheck(args[1]))
	case "replay":
		os.Exit(runReplay(args[1]))
	case "setup":
		// compile everything once, so that the build cache is warm
		b, err := newBuilder()
		if err != nil {
			fatal(err)
		}
		defer b.close()
		for _, v := range []string{"plain", "sim", "race", "meta"} {
			if _, _, err := b.build(v); err != nil {
				fatal(err)
			}
		}
		fmt.Println("setup done", b.times)
	case "build":
		b, err := newBuilder()
		if err != nil {
			fatal(err)
		}
		_, info, err := b.build(args[1])
		if err != nil {
			fatal(err)
		}
		fmt.Println(info.level, info.stats, b.times, b.bins[args[1]])
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "simdrv:", err)
	os.Exit(2)
}
