package main

import (
	"os"
	"path/filepath"
	"strings"
)

const modPath = "github.com/QuangTung97/go-memcache"

// harness directory -> directory inside the repository
var harnessDirs = map[string]string{
	"zzverif":  "memcache/zzverif",
	"zzblack":  "memcache/zzblack",
	"memcache": "memcache",
	"netconn":  "memcache/netconn",
	"stats":    "memcache/stats",
}

// harnessOverlay maps the files the harness adds to the repository's packages. Files named
// *_sym.go exist only for the engine, *_nat.go only for native replay.
func harnessOverlay(verif, repo string, native bool, drop map[string]bool) (map[string]string, error) {
	out := map[string]string{}
	for h, d := range harnessDirs {
		fs, err := filepath.Glob(filepath.Join(verif, "harness", h, "*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			b := filepath.Base(f)
			if drop[b] {
				continue
			}
			if native && strings.HasSuffix(b, "_sym.go") || !native && strings.HasSuffix(b, "_nat.go") {
				continue
			}
			out[filepath.Join(repo, d, b)] = f
		}
	}
	return out, nil
}

func readOverlay(m map[string]string) (map[string][]byte, error) {
	out := map[string][]byte{}
	for k, f := range m {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		out[k] = b
	}
	return out, nil
}
