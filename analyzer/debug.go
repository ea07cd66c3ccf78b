package main

import (
	"os"
	"strings"
)

func dumpFuncs(w *World, sub string) {
	for _, u := range []*Unit{w.Host, w.Wasm} {
		for _, f := range u.Funcs {
			if strings.Contains(fnName(f), sub) {
				f.WriteTo(os.Stdout)
			}
		}
	}
}
