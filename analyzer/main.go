package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

var rules = map[string]func(*Ctx){}

func main() {
	start := time.Now()
	repo, verif := "/repo", "/verif"
	if v := os.Getenv("BV_REPO"); v != "" {
		repo = v
	}
	if v := os.Getenv("BV_VERIF"); v != "" {
		verif = v
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var props []string
	for _, a := range os.Args[1:] {
		if a == "all" {
			for p := range rules {
				props = append(props, p)
			}
			sort.Strings(props)
		} else if strings.HasPrefix(a, "-") {
			continue
		} else {
			props = append(props, a)
		}
	}
	w, lerr := Load(repo)
	if lerr != nil {
		fmt.Println(lerr)
	}
	if len(os.Args) > 1 && os.Args[1] == "-dump" && w != nil {
		dump(w, os.Args[2:])
		return
	}
	known, ferr := loadFindings(filepath.Join(verif, "known_findings.json"))
	code := 0
	for _, p := range props {
		t0 := time.Now()
		if len(props) == 1 {
			t0 = start
		}
		if lerr != nil {
			w2 := &World{}
			c := NewCtx(w2, p, tier)
			c.Fail("load", "program", "", "the working tree does not type-check or load: %v", lerr)
			c.emit(verif, t0, seed, nil)
			code = 1
			continue
		}
		c := NewCtx(w, p, tier)
		if ferr != nil {
			c.Fail("load", "known_findings.json", "", "%v", ferr)
		}
		f := rules[p]
		if f == nil {
			fmt.Println("unknown property", p)
			c.Fail("load", "rule", "", "no rule for property %s", p)
		} else {
			func() {
				defer func() {
					if r := recover(); r != nil {
						c.Fail("panic", "analyzer", "", "the analysis failed on this tree: %v", r)
						if os.Getenv("BV_DEBUG") != "" {
							debug.PrintStack()
						}
					}
				}()
				f(c)
			}()
		}
		if c.emit(verif, t0, seed, known) != 0 {
			code = 1
		}
	}
	os.Exit(code)
}

func dump(w *World, names []string) {
	for _, f := range w.Funcs {
		for _, n := range names {
			if strings.HasSuffix(fnName(f), n) {
				f.WriteTo(os.Stdout)
			}
		}
	}
}
