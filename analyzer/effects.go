package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// WriteEff is one writing statement kind.
type WriteEff struct {
	Kind, Table string
	Cols        string // assigned columns, comma separated, sorted
}

// SQLEffects computes, per function, the writing statements it may issue itself (direct) and through static calls (all).
func (w *World) SQLEffects() (direct, all map[*ssa.Function]map[WriteEff]bool) {
	if w.effDirect != nil {
		return w.effDirect, w.effAll
	}
	direct = map[*ssa.Function]map[WriteEff]bool{}
	for _, s := range w.CollectSQL().Sites {
		for _, e := range s.Events {
			if e.Stmt == nil {
				continue
			}
			for _, st := range e.Stmt.All() {
				switch st.Kind {
				case "INSERT", "UPDATE", "DELETE", "COPY":
				default:
					continue
				}
				var cols []string
				if st.Kind == "UPDATE" {
					for k := range st.Set {
						cols = append(cols, k)
					}
				}
				sort.Strings(cols)
				k := ""
				for i, x := range cols {
					if i > 0 {
						k += ","
					}
					k += x
				}
				for _, f := range []*ssa.Function{s.Fn, e.Root} {
					if f == nil {
						continue
					}
					if direct[f] == nil {
						direct[f] = map[WriteEff]bool{}
					}
					direct[f][WriteEff{st.Kind, st.Table, k}] = true
				}
			}
		}
	}
	all = map[*ssa.Function]map[WriteEff]bool{}
	for f, m := range direct {
		f := f
		for g := range w.Reaches(func(h *ssa.Function) bool { return h == f }) {
			if all[g] == nil {
				all[g] = map[WriteEff]bool{}
			}
			for e := range m {
				all[g][e] = true
			}
		}
	}
	w.effDirect, w.effAll = direct, all
	return
}
