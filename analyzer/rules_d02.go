package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["D01"] = ruleD01
	rules["D02"] = ruleD02
}

// dbErrFlow runs the error-flow analysis over every module function with database operations as sources.
func (w *World) dbErrFlow() *ErrFlow {
	if w.errFlow != nil {
		return w.errFlow
	}
	wr, rd := w.dbFuncs()
	for _, n := range advisory {
		if w.Func(n) == nil {
			panic("anchor " + n + " not found")
		}
	}
	cls := func(f *ssa.Function) string {
		switch {
		case wr[f]:
			return "W"
		case rd[f]:
			return "R"
		}
		return ""
	}
	e := &ErrFlow{W: w}
	e.Declines = func(f *ssa.Function) bool { return wr[f] }
	e.Source = func(c *Call) string {
		if p := dbPrim(c.Name); p != "" {
			return p
		}
		if c.Fn != nil {
			return cls(c.Fn)
		}
		for _, t := range c.Targets {
			if k := cls(t); k != "" {
				return k
			}
		}
		return ""
	}
	var roots []*ssa.Function
	for _, f := range w.Funcs {
		if f.Blocks == nil {
			continue
		}
		has := false
		Instrs(f, func(in ssa.Instruction) {
			for _, t := range w.callees(in) {
				if dbPrim(fnName(t)) != "" || cls(t) != "" {
					has = true
				}
			}
		})
		if !has {
			continue
		}
		roots = append(roots, f)
	}
	e.Run(roots)
	w.errFlow = e
	return e
}

func ruleD01(c *Ctx) {
	c.Rule("propagate", "in every function that performs a database read (directly or through module functions), no path on which the read failed reaches a nil-error return or a success response, unless the branch taken identifies the failure as 'no such record'")
	c.Floor("propagate", 250)
	c.Floor("rows-err", 25)
	c.errflowReport("R")
	L := c.W.Lifecycle()
	c.Engine(L.En)
	c.Rule("rows-err", "after a result set ended, Err is consulted before any success exit and its error is returned")
	for _, k := range sortedKeys(L.Obs) {
		o := L.Obs[k]
		if o.Kind != "rows" || !o.Iterated {
			continue
		}
		c.Saw(o.Fn)
		c.Check(o.NoErr == "", "rows-err", o.Fn+" "+o.Callee, c.W.Pos(o.Site.Pos()), "%s", o.NoErr)
	}
}
func ruleD02(c *Ctx) {
	c.Rule("propagate", "in every function that calls a database write (directly or through module functions), no path on which the write failed reaches a nil-error return or a success response, unless the branch taken identifies the failure")
	c.errflowReport("W")
	c.Floor("propagate", 200)
	c.matchedRule()
	c.Floor("matched", 12)
}

func (c *Ctx) errflowReport(class string) {
	e := c.W.dbErrFlow()
	c.Engine(e.En)
	for _, k := range sortedKeys(e.Checked) {
		p := strings.Split(k, "|")
		if p[2] != class && !(class == "W" && p[2] == "B") {
			continue
		}
		key := p[0] + "|" + p[1]
		c.Saw(p[0])
		if s, ok := e.Found[key]; ok {
			c.Fail("propagate", p[0]+" "+p[1], c.W.Pos(s.Site.Pos()), "%s can fail here and the function still reaches %s", p[1], s.Exit)
		} else {
			c.Ok("propagate", p[0]+" "+p[1], e.Checked[k])
		}
	}
}

// byKey: an UPDATE or DELETE addressed to one record through its identifier.
func byKey(s *Stmt) bool {
	if s.Kind != "UPDATE" && s.Kind != "DELETE" {
		return false
	}
	for _, w := range s.Where {
		if len(w) != 3 || w[0].K != "w" || !w[1].op("=") || w[2].K != "p" {
			return false
		}
	}
	return len(s.Where) > 0
}

// matchExempt: a statement of these shapes need not match a record (table and the assigned columns decide).
func matchExempt(s *Stmt) string {
	set := map[string]bool{}
	for a := range s.Set {
		set[a] = true
	}
	switch {
	case s.Table == "lineage_outbox" && s.Kind == "UPDATE":
		return "the entry was claimed by this worker; entries are never deleted"
	case s.Table == "lineage_mappings" && s.Kind == "DELETE":
		return "deleting an absent mapping is a no-op"
	case s.Kind == "UPDATE" && len(set) == 1 && set["meta_data"]:
		return "metadata is written after the record was read by its id (UpdateMetadata)"
	case s.Kind == "UPDATE" && s.Table == "ledgers":
		return "ledgers are never deleted and UpdateLedger reads the ledger first"
	case s.Table == "api_keys" && len(set) == 1 && set["last_used_at"]:
		return "usage statistics"
	case s.Table == "transactions" && set["chain_seq"], s.Table == "chain_state":
		return "the rows were read earlier in the same transaction and are never deleted"
	}
	return ""
}

// matchedRule: after an update or deletion addressed by id, success is reported only if a record matched.
func (c *Ctx) matchedRule() {
	c.Rule("matched", "after an UPDATE or DELETE by identifier, a nil-error exit is reached only through the branch on which RowsAffected is not zero")
	c.zeroRows("matched", byKey, func(s *Stmt) string { return matchExempt(s) })
}

// zeroRows demands, for the selected Exec statements, that success is only reported after RowsAffected was found not zero.
func (c *Ctx) zeroRows(rule string, sel func(*Stmt) bool, exempt func(*Stmt) string) {
	w := c.W
	S := w.CollectSQL()
	roots := map[*ssa.Function]bool{}
	for _, s := range S.Sites {
		for _, e := range s.Events {
			if e.Stmt != nil && sel(e.Stmt) && e.Stmt.Ret == nil && s.Op == "Exec" {
				if x := exempt(e.Stmt); x != "" {
					c.Ok(rule+"-exempt", fnName(s.Fn)+" "+e.Stmt.Kind+" "+e.Stmt.Table+": "+x, w.Pos(s.Site.Pos()))
					continue
				}
				roots[e.Root] = true
			}
		}
	}
	en := NewEngine(w)
	en.SmallMax = 0
	en.MaxDepth = 4
	hasSQL := w.Reaches(func(f *ssa.Function) bool {
		r := false
		Instrs(f, func(in ssa.Instruction) {
			for _, t := range w.callees(in) {
				n := t.String()
				if strings.HasSuffix(n, ".RowsAffected") || dbPrim(n) == "W" {
					r = true
				}
			}
		})
		return r
	})
	en.Relevant = hasSQL
	for _, f := range w.Funcs {
		if strings.Contains(f.Signature.String(), "database/sql.Result") {
			en.Relevant[f] = true
		}
	}
	info := map[string]string{}
	pos := map[string]string{}
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		en.StringBuilderCall(st, k)
		ev := en.SQLOf(st, k)
		if ev == nil || ev.Op != "Exec" {
			return nil, false
		}
		s := parseSQL(Flat(ev.Text))
		if !sel(s) || s.Ret != nil || exempt(s) != "" {
			return nil, false
		}
		ok, fail := en.Fork(st, k)
		tag := s.Kind + " " + s.Table
		r := en.Res(ok, k, 0)
		ok.Add("exec:" + tag)
		ok.vals["exec:"+tag] = r
		info[tag] = fnName(k.F.Fn)
		pos[fnName(k.F.Fn)+" "+tag] = w.Pos(k.Site.Pos())
		c.Ok(rule, fnName(k.F.Fn)+" "+tag, w.Pos(k.Site.Pos()))
		return []*State{ok, fail}, true
	}
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
		if cond.Op != "bin" {
			return
		}
		for fct := range st.facts {
			if !strings.HasPrefix(fct, "exec:") {
				continue
			}
			r := st.vals[fct]
			isAff := func(t *Term) bool {
				return t.Op == "res" && t.Name == "0" && strings.HasSuffix(t.Args[0].Name, ".RowsAffected") && mentionsDeep(t, r)
			}
			for i := 0; i < 2; i++ {
				a, b := cond.Args[i].Strip(), cond.Args[1-i]
				n, isc := b.Int()
				if !isAff(a) || !isc {
					continue
				}
				zero := (cond.Name == "==" && n == 0) || (cond.Name == "<" && i == 0 && n == 1)
				pos := (cond.Name == "==" && n == 1) || (cond.Name == "<" && i == 1 && n == 0)
				if (zero && !taken) || (pos && taken) {
					st.Del(fct)
					delete(st.vals, fct)
				}
			}
		}
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		i := ErrIndex(f.Fn.Signature)
		if i < 0 || i >= len(res) || en.Kind(st, res[i]) == "nonnil" {
			return
		}
		for _, fct := range st.Facts() {
			if strings.HasPrefix(fct, "exec:") {
				tag := fct[5:]
				if r := res[i]; en.Kind(st, r) == "" && mentionsDeep(r, st.vals[fct]) {
					continue // the error of RowsAffected itself
				}
				c.Fail(rule, info[tag]+" "+tag, pos[info[tag]+" "+tag], "%s by id: the function returns success at %s without having established that a record matched", tag, w.Pos(in.Pos()))
			}
		}
	}
	for _, k := range sortedFns(roots) {
		en.Run(k, nil)
	}
	c.Engine(en)
}
