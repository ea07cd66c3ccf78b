// Command xtocheck decides semantic properties of google/xtoproto from its
// source, without running it.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"time"
)

type checkFn func(w *World, r *Report)

var checks = map[string]checkFn{}

func register(id string, f checkFn) { checks[id] = f }

func runOne(id string, w *World, loadErr string, verif, tier string, seed int, start time.Time) int {
	r := newReport(id)
	f := checks[id]
	if f == nil {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", id)
		return 2
	}
	if loadErr != "" {
		r.Bad("analysis", "load", "-", "%s", loadErr)
	} else {
		func() {
			defer func() {
				if e := recover(); e != nil {
					if ft, ok := e.(fatal); ok {
						r.Bad("analysis", "anchor", "-", "undecided: %s", ft.msg)
						return
					}
					r.Bad("analysis", "internal", "-", "undecided: the analysis did not finish: %v\n%s", e, debug.Stack())
				}
			}()
			f(w, r)
		}()
	}
	return r.finish(verif, tier, seed, start, loadErr)
}

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "directory that holds known_findings.txt and evidence/")
	list := flag.Bool("list", false, "list checks")
	dump := flag.String("dump", "", "debug: dump SSA of a function whose name contains this")
	flag.Parse()
	if *list {
		ids := []string{}
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	var w *World
	loadErr := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				loadErr = fmt.Sprint(e)
				if ft, ok := e.(fatal); ok {
					loadErr = ft.msg
				}
			}
		}()
		w = Load(*repo, true)
		var files []string
		for _, u := range []*Unit{w.Host, w.Wasm} {
			for _, p := range u.Pkgs {
				files = append(files, p.CompiledGoFiles...)
			}
		}
		repoDigest = digestFiles(files)
	}()
	if *dump != "" {
		dumpFuncs(w, *dump)
		return
	}
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	rc := 0
	for _, id := range ids {
		if c := runOne(id, w, loadErr, *verif, tier, seed, start); c > rc {
			rc = c
		}
	}
	os.Exit(rc)
}
