package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["T01"] = ruleT01; rules["T02"] = ruleT02 }

var totalCols = strings.Split(totalCol, ",")

const (
	tTxn     = "*" + Mod + "/model.Transaction"
	tBal     = "*" + Mod + "/model.Balance"
	tOutbox  = "*" + Mod + "/model.LineageOutbox"
	sqlTx    = "*database/sql.Tx"
	totalCol = "balance,credit_balance,debit_balance,inflight_balance,inflight_credit_balance,inflight_debit_balance"
)

func isBegin(n string) bool {
	return n == "(*database/sql.DB).BeginTx" || n == "(*database/sql.DB).Begin" || n == "(*database/sql.Conn).BeginTx"
}

func isMock(f *ssa.Function) bool {
	p := fnPkg(f)
	return p != nil && strings.HasSuffix(p.Path(), "/mocks")
}

// callsName: f itself calls a function whose full name satisfies pred.
func (w *World) callsName(f *ssa.Function, pred func(string) bool) bool {
	r := false
	Instrs(f, func(in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok {
			if g := c.Common().StaticCallee(); g != nil && pred(g.String()) {
				r = true
			}
			if c.Common().IsInvoke() {
				if pred("(" + types.TypeString(c.Common().Value.Type(), nil) + ")." + c.Common().Method.Name()) {
					r = true
				}
			}
		}
	})
	return r
}

// breakTx marks the transaction as failed; what it had completed no longer matters.
func breakTx(st *State) {
	if st.vals["brokenerr"] != nil {
		st.Add("broken")
		return
	}
	st.Add("broken")
	st.DelPrefix("empty:")
	st.DelPrefix("round:")
	for _, f := range st.Facts() {
		if strings.HasPrefix(f, "ev:") && (strings.Contains(f, "#") || strings.HasSuffix(f, " flush")) {
			st.Del(f)
		}
	}
}

// TxExit is one success exit of a function that runs a database transaction.
type TxExit struct {
	Root   *ssa.Function
	State  *State
	Args   []*Term
	Where  string
	Events []string
}

// TxFacts are the observations of the transaction typestate.
type TxFacts struct {
	Roots   []*ssa.Function
	Begins  map[string]string // construct -> position
	Viol    map[string]string // rule|construct -> position|detail
	Seen    map[string]string // rule|construct -> position
	Exits   []*TxExit
	En      *Engine
	Commits int
}

// TxFlow abstractly runs every function that opens a database transaction.
func (w *World) TxFlow() *TxFacts {
	if w.tx != nil {
		return w.tx
	}
	F := &TxFacts{Begins: map[string]string{}, Viol: map[string]string{}, Seen: map[string]string{}}
	w.tx = F
	begins := w.Reaches(func(f *ssa.Function) bool { return w.callsName(f, isBegin) })
	touches := w.Reaches(func(f *ssa.Function) bool {
		return w.callsName(f, func(n string) bool { return strings.Contains(n, "database/sql.") })
	})
	atSite := map[ssa.Instruction][]*SQLObs{}
	for _, s := range w.CollectSQL().Sites {
		atSite[s.Site] = s.Events
	}
	en := NewEngine(w)
	F.En = en
	en.SmallMax = 0
	en.MaxDepth = 8
	en.Relevant = touches
	for _, f := range w.Funcs {
		s := f.Signature.String()
		if strings.Contains(s, "database/sql.") {
			en.Relevant[f] = true
		}
		for _, v := range f.FreeVars {
			if strings.Contains(v.Type().String(), "database/sql.") {
				en.Relevant[f] = true
			}
		}
	}
	if apiErr := w.Func("internal/apierror.NewAPIError"); apiErr != nil {
		en.Relevant[apiErr] = true
	}
	var root *ssa.Function
	viol := func(rule, construct, where, detail string) {
		k := rule + "|" + construct
		if _, ok := F.Viol[k]; !ok {
			F.Viol[k] = where + "|" + detail
		}
	}
	isTx := func(st *State, t *Term) string {
		if t == nil {
			return ""
		}
		t = t.Strip()
		for f := range st.facts {
			if strings.HasPrefix(f, "open:") && st.vals["tx:"+f[5:]] == t {
				return f[5:]
			}
		}
		return ""
	}
	anyOpen := func(st *State) string {
		for _, f := range st.Facts() {
			if strings.HasPrefix(f, "open:") {
				return f[5:]
			}
		}
		return ""
	}
	en.H.Call = func(en *Engine, st *State, c *Call) ([]*State, bool) {
		switch {
		case isBegin(c.Name):
			con := fnName(root)
			F.Begins[con] = w.Pos(c.Site.Pos())
			ok, fail := en.Fork(st, c)
			t := en.Res(ok, c, 0)
			id := fmt.Sprint(en.instrID(c.Site))
			ok.DelPrefix("ev:")
			ok.Del("broken")
			ok.Del("committed")
			ok.Add("open:" + id)
			ok.Add("began")
			ok.vals["tx:"+id] = t
			return []*State{ok, fail}, true
		case c.Name == "(*database/sql.Tx).Commit":
			id := isTx(st, c.Args[0])
			con := fnName(root)
			F.Seen["no-commit-after-failure|"+con] = w.Pos(c.Site.Pos())
			F.Commits++
			if st.Has("broken") {
				viol("no-commit-after-failure", con, w.Pos(c.Site.Pos()), "the transaction is committed on a path where one of its operations had failed")
			}
			ok, fail := en.Fork(st, c)
			for _, s := range []*State{ok, fail} {
				if id != "" {
					s.Del("open:" + id)
				}
			}
			ok.Add("committed")
			fail.Add("commitfailed")
			return []*State{ok, fail}, true
		case c.Name == "(*database/sql.Tx).Rollback":
			if id := isTx(st, c.Args[0]); id != "" {
				st.Del("open:" + id)
				st.Add("rolledback")
			}
			return nil, false
		}
		if ev := en.SQLOf(st, c); ev != nil {
			id := ""
			switch ev.Recv {
			case "Tx":
				id = isTx(st, ev.Handle)
			case "Stmt":
				if v, ok := st.vals["stmttx:"+ev.Handle.Strip().key]; ok {
					id = isTx(st, v)
				}
			}
			var writes []*Stmt
			txt := ""
			for _, e := range atSite[c.Site] {
				if e.Stmt != nil && ev.Op != "Prepare" {
					txt = e.Text
					for _, s := range e.Stmt.Writes("") {
						writes = append(writes, s)
					}
				}
			}
			if o := anyOpen(st); o != "" && id == "" && ev.Op != "Prepare" {
				con := fnName(root)
				if len(writes) > 0 || txt == "" {
					viol("on-handle", con+" in "+fnName(c.F.Fn), w.Pos(c.Site.Pos()), "a writing statement is sent outside the open transaction")
				} else {
					st.Add("offread:" + fnName(c.F.Fn))
				}
			}
			if st.Has("committed") && len(writes) > 0 {
				viol("on-handle", fnName(root)+" in "+fnName(c.F.Fn), w.Pos(c.Site.Pos()), "a writing statement is sent after the transaction was committed, so it is not atomic with it")
			}
			ok, fail := st, (*State)(nil)
			if ev.Op != "QueryRow" {
				ok, fail = en.Fork(st, c)
			} else {
				en.opaque(c.F, st, c)
			}
			if ev.Op == "Prepare" && id != "" {
				ok.vals["stmttx:"+en.Res(ok, c, 0).key] = ev.Handle.Strip()
			}
			if id != "" {
				F.Seen["on-handle|"+fnName(root)+" in "+fnName(c.F.Fn)] = w.Pos(c.Site.Pos())
				r := en.Res(ok, c, 0)
				ok.vals["from:"+r.key] = ev.Handle.Strip()
				for _, s := range writes {
					e := "ev:" + s.Kind + " " + s.Table
					if s.Kind == "UPDATE" && s.Table == "balances" && len(s.Set["credit_balance"]) > 0 {
						e += " totals"
					}
					var ps []string
					for i := range root.Params {
						p := fmt.Sprintf("%s$%d", fnName(root), i)
						hit := func(t *Term) bool {
							return t.Mentions(func(x *Term) bool { return x.Op == "param" && x.Name == p })
						}
						for _, a := range ev.Args {
							if hit(a) {
								ps = append(ps, fmt.Sprint(i))
								break
							}
						}
					}
					if ev.Recv == "Stmt" && len(ev.Args) == 0 && ev.ArgsOK && s.Kind == "COPY" {
						e += " flush"
					}
					ok.Add(e)
					for _, p := range ps {
						ok.Add(e + "#" + p)
					}
				}
				if fail != nil {
					breakTx(fail)
				}
			}
			if fail == nil {
				return []*State{ok}, true
			}
			return []*State{ok, fail}, true
		}
		if isScanName(c) || c.Name == "(*database/sql.Rows).Err" || c.Name == "(*database/sql.Row).Err" {
			if _, ok := st.vals["from:"+c.Args[0].Strip().key]; ok {
				ok, fail := en.Fork(st, c)
				fail.Add("broken")
				fail.vals["brokenerr"] = en.Res(fail, c, 0)
				return []*State{ok, fail}, true
			}
		}
		return nil, false
	}
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
		if t, ok := st.vals["brokenerr"]; ok && mentionsDeep(cond, t) && benignCond(cond, taken, t) {
			st.Del("broken")
			delete(st.vals, "brokenerr")
		}
		if t := emptySlice(en, st, cond, taken, in); t != "" && anyOpen(st) != "" {
			st.Add("empty:" + t)
		}
	}
	// an operation on the transaction that reports failure breaks it
	en.H.Exit = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		i := ErrIndex(f.Fn.Signature)
		if i < 0 || i >= len(res) || en.Kind(st, res[i]) != "nonnil" {
			return
		}
		for _, a := range f.Args {
			if isTx(st, a) != "" {
				breakTx(st)
			}
		}
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		if !st.Has("began") {
			return
		}
		i := ErrIndex(f.Fn.Signature)
		con := fnName(f.Fn)
		wrote := ""
		var evs []string
		for _, x := range st.Facts() {
			if strings.HasPrefix(x, "ev:") {
				wrote = x[3:]
				evs = append(evs, x[3:])
			}
		}
		if i >= 0 && i < len(res) && en.Kind(st, res[i]) == "nonnil" {
			return
		}
		where := w.Pos(in.Pos())
		if wrote != "" {
			F.Seen["success-after-commit|"+con] = where
			ok := st.Has("committed")
			if !ok && i >= 0 && i < len(res) { // return tx.Commit()
				r := res[i].Strip()
				ok = r.Op == "call" && r.Name == "(*database/sql.Tx).Commit"
			}
			if !ok {
				viol("success-after-commit", con, where, "success is reported although the transaction that wrote "+wrote+" was not committed")
			}
		}
		F.Exits = append(F.Exits, &TxExit{Root: f.Fn, State: st, Args: f.Args, Where: where, Events: evs})
	}
	for _, f := range w.Funcs {
		if !begins[f] || f.Parent() != nil || isMock(f) || strings.Contains(w.File(f.Pos()), "/tests/") {
			continue
		}
		// the lowest package that opens it
		here := false
		for g := range w.ReachableFrom(f) {
			if fnPkg(g) == fnPkg(f) && w.callsName(g, isBegin) {
				here = true
			}
		}
		skip := !here
		for _, p := range f.Params {
			if p.Type().String() == sqlTx {
				skip = true
			}
			if _, ok := p.Type().Underlying().(*types.Signature); ok {
				skip = true
			}
		}
		if skip {
			continue
		}
		F.Roots = append(F.Roots, f)
		root = f
		en.Run(f, nil)
	}
	return F
}

func (c *Ctx) txReport(rule string, F *TxFacts) {
	for k, v := range F.Viol {
		if strings.HasPrefix(k, rule+"|") {
			p := strings.SplitN(v, "|", 2)
			c.Fail(rule, strings.SplitN(k, "|", 2)[1], p[0], "%s", p[1])
		}
	}
	for _, k := range sortedKeys(F.Seen) {
		if strings.HasPrefix(k, rule+"|") {
			c.Ok(rule, strings.SplitN(k, "|", 2)[1], F.Seen[k])
		}
	}
}

func isTotalsWrite(e WriteEff) bool {
	if e.Table != "balances" || e.Kind != "UPDATE" {
		return false
	}
	for _, c := range strings.Split(e.Cols, ",") {
		for _, t := range totalCols {
			if c == t {
				return true
			}
		}
	}
	return false
}

func ruleT01(c *Ctx) {
	w := c.W
	c.Rule("on-handle", "while a database transaction is open in a function, every writing statement it issues (in any helper or closure) goes through that transaction's handle")
	c.Rule("no-commit-after-failure", "Commit is not reached on a path where a statement, scan or helper working on the transaction failed")
	c.Rule("success-after-commit", "a success exit after writes on a transaction is reached only through a Commit whose error was nil")
	c.Rule("complete", "a storage method taking transactions and balances (and lineage work) writes the transaction rows, the totals of every balance and the lineage rows it was given on each success exit, in that one transaction")
	c.Rule("persist-together", "ledger code changes stored totals only through a storage method that also inserts the transaction")
	F := w.TxFlow()
	c.Engine(F.En)
	c.txReport("on-handle", F)
	c.txReport("no-commit-after-failure", F)
	c.txReport("success-after-commit", F)
	c.Floor("on-handle", 8)
	c.Floor("no-commit-after-failure", 6)
	c.Floor("success-after-commit", 4)
	type role struct {
		i     int
		kind  string
		slice bool
	}
	for _, x := range F.Exits {
		var rs []role
		hasT, hasB := false, false
		for i, p := range x.Root.Params {
			t := p.Type().String()
			sl := strings.HasPrefix(t, "[]")
			switch strings.TrimPrefix(t, "[]") {
			case tTxn:
				rs, hasT = append(rs, role{i, "txn", sl}), true
			case tBal:
				rs, hasB = append(rs, role{i, "bal", sl}), true
			case tOutbox:
				rs = append(rs, role{i, "outbox", sl})
			}
		}
		if !hasT || !hasB {
			continue
		}
		has := func(pre string, i int) bool {
			for _, e := range x.Events {
				if strings.HasPrefix(e, pre) && (i < 0 || strings.HasSuffix(e, fmt.Sprintf("#%d", i))) {
					return true
				}
			}
			return false
		}
		fn := fnName(x.Root)
		c.Saw(fn)
		empty := func(i int) bool { // the path established that the slice is empty or the pointer nil
			k := F.En.Kind(x.State, x.Args[i])
			if k == "nil" {
				return true
			}
			return false
		}
		for _, r := range rs {
			name := x.Root.Params[r.i].Name()
			lenZero := func() bool {
				return x.State.Has("empty:[]"+strings.TrimPrefix(x.Root.Params[r.i].Type().String(), "[]")) || r.kind == "outbox" && (x.State.Has("empty:[]interface{}") || x.State.Has("empty:[]any"))
			}
			con := fmt.Sprintf("%s %s %s", fn, r.kind, name)
			switch r.kind {
			case "txn":
				if r.slice {
					c.Check(has("COPY transactions flush", -1) || has("INSERT transactions", -1) || lenZero(), "complete", con, x.Where, "the transactions are not inserted on this success exit (events: %s)", strings.Join(x.Events, ", "))
				} else {
					c.Check(has("INSERT transactions", r.i) || has("COPY transactions", r.i), "complete", con, x.Where, "the transaction is not inserted on this success exit (events: %s)", strings.Join(x.Events, ", "))
				}
			case "bal":
				if r.slice {
					c.Check(has("UPDATE balances totals", -1) || lenZero(), "complete", con, x.Where, "the balances' totals are not written on this success exit (events: %s)", strings.Join(x.Events, ", "))
				} else {
					ok := has("UPDATE balances totals", r.i) || (has("UPDATE balances totals", -1) || lenZero()) && c.setFlow(x.Root, r.i)
					c.Check(ok, "complete", con, x.Where, "the balance's totals are not written on this success exit (events: %s)", strings.Join(x.Events, ", "))
				}
			case "outbox":
				if r.slice {
					c.Check(has("INSERT lineage_outbox", -1) || lenZero(), "complete", con, x.Where, "the lineage work is not inserted on this success exit (events: %s)", strings.Join(x.Events, ", "))
				} else if !empty(r.i) {
					c.Check(has("INSERT lineage_outbox", r.i), "complete", con, x.Where, "the lineage work is not inserted on this success exit (events: %s)", strings.Join(x.Events, ", "))
				}
			}
		}
	}
	c.Floor("complete", 5)
	// ledger side
	_, all := w.SQLEffects()
	for _, f := range w.Funcs {
		p := fnPkg(f)
		if p == nil || p.Path() == Mod+"/database" || isMock(f) {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			for _, t := range w.callees(in) {
				if tp := fnPkg(t); tp == nil || tp.Path() != Mod+"/database" || isMock(t) {
					continue
				}
				tot, ins := false, false
				for e := range all[t] {
					if isTotalsWrite(e) {
						tot = true
					}
					if e.Table == "transactions" && (e.Kind == "INSERT" || e.Kind == "COPY") {
						ins = true
					}
				}
				if tot {
					c.Check(ins, "persist-together", fnName(f)+" "+fnName(t), w.Pos(in.Pos()), "%s changes stored totals without recording a transaction with them", fnName(t))
				}
			}
		})
	}
	c.Floor("persist-together", 2)
}

// emptySlice: the branch established that a slice has no elements; its type, or "".
func emptySlice(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction) string {
	iff, ok := in.(*ssa.If)
	if !ok || cond.Op != "bin" {
		return ""
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return ""
	}
	t := ""
	for _, v := range []ssa.Value{b.X, b.Y} {
		if l, ok := v.(*ssa.Call); ok {
			if bi, ok := l.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				t = l.Call.Args[0].Type().String()
			}
		}
	}
	if t == "" {
		return ""
	}
	n0, c0 := cond.Args[0].Int()
	n1, c1 := cond.Args[1].Int()
	switch cond.Name {
	case "==":
		if taken && (c0 && n0 == 0 || c1 && n1 == 0) {
			return t
		}
	case "<": // 0 < len not taken, len < 1 taken, a loop up to len left before its first round
		if !taken && c0 && n0 == 0 || taken && c1 && n1 == 1 {
			return t
		}
		if _, ok := b.Y.(*ssa.Call); ok && !c0 && en.W.inLoop(in.Parent())[in.Block()] {
			k := fmt.Sprintf("round:%d", en.instrID(in))
			if taken {
				st.Add(k)
			} else if !st.Has(k) {
				return t
			}
		}
	}
	return ""
}

// setFlow: the root hands the parameter on inside a slice.
func (c *Ctx) setFlow(f *ssa.Function, i int) bool {
	r := false
	for _, u := range *f.Params[i].Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Val == f.Params[i] {
			if _, ok := s.Addr.(*ssa.IndexAddr); ok {
				r = true
			}
		}
	}
	return r
}

// eqSide: the other side of an equality conjunct whose one side is column col.
func eqSide(w []Tok, col string) []Tok {
	for k, t := range w {
		if !t.op("=") {
			continue
		}
		l, r := w[:k], w[k+1:]
		if isCol(l, col) {
			return r
		}
		if isCol(r, col) {
			return l
		}
	}
	return nil
}

func isCol(ts []Tok, col string) bool {
	i, n := qname(ts, 0)
	return i == len(ts) && n == col && len(ts) > 0 && ts[0].K == "w"
}

// camel turns a column name into the field it is named after.
func camel(col string) string {
	out := ""
	for _, p := range strings.Split(col, "_") {
		if p == "id" {
			out += "ID"
		} else if p != "" {
			out += strings.ToUpper(p[:1]) + p[1:]
		}
	}
	return out
}

// fieldArg: the struct and field an argument is read from, through conversions and accessors.
func fieldArg(t *Term) (*Term, string) {
	for t != nil {
		switch t.Op {
		case "conv", "iface":
			t = t.Args[0]
			continue
		case "call", "pure":
			a := t.CArg
			if t.Op == "pure" {
				a = t.Args
			}
			if len(a) == 1 {
				t = a[0]
				continue
			}
		}
		break
	}
	if t == nil {
		return nil, ""
	}
	if b, fs := t.Path(); len(fs) == 1 {
		return b, fs[0]
	}
	return nil, ""
}

// reachedByLedger: some function outside the storage package (or an entry of it) calls f.
func (w *World) reachedByLedger(f *ssa.Function) string {
	for g := range w.Reaches(func(h *ssa.Function) bool { return h == f }) {
		if g == f || isMock(g) {
			continue
		}
		p := fnPkg(g)
		if p != nil && p.Path() != Mod+"/database" {
			return fnName(g)
		}
	}
	return ""
}

func ruleT02(c *Ctx) {
	w := c.W
	c.Rule("guard", "every UPDATE statement that assigns a total of a balance (folded text, nested statements included) also assigns version = version + 1 and is restricted by equality of balance_id and of version with the id and the Version of the same balance; an unguarded statement may only be in a function nothing in the ledger calls")
	c.Rule("guard-args", "the expected version and the totals of a multi-row update are taken, position by position, from the like-named fields of one balance")
	c.Rule("zero-rows", "after such an update, success is reported only on the branch on which rows were affected")
	c.Rule("all-rows", "after a multi-row update, a returned id missing from the answer leads to an error")
	c.Rule("version-read", "Balance.Version is only ever set from the version column of the row its totals are read from, by adding one to itself after an update, or by copying a balance")
	S := w.CollectSQL()
	c.Engine(S.En)
	n := 0
	var sets []*SQLSite
	for _, s := range S.Sites {
		for _, e := range s.Events {
			if e.Stmt == nil {
				continue
			}
			for _, u := range e.Stmt.All() {
				if u.Kind != "UPDATE" || u.Table != "balances" {
					continue
				}
				tot := false
				for _, t := range totalCols {
					if _, ok := u.Set[t]; ok {
						tot = true
					}
				}
				if u.SetHole {
					c.Fail("guard", fnName(s.Fn)+" UPDATE balances", w.Pos(s.Site.Pos()), "the assigned columns are not known")
					continue
				}
				if !tot {
					continue
				}
				n++
				con := fnName(s.Fn) + " UPDATE balances"
				where := w.Pos(s.Site.Pos())
				c.Saw(fnName(s.Fn))
				why := c.guardOf(e, u)
				if why != "" {
					by := w.reachedByLedger(s.Fn)
					if by == "" {
						c.Ok("guard-unused", con+" (not called by the ledger)", where)
						continue
					}
					c.Fail("guard", con, where, "%s; called from %s", why, by)
					continue
				}
				c.Ok("guard", con, where)
				if len(u.From) > 0 {
					sets = append(sets, s)
				}
			}
		}
	}
	c.Floor("guard", 2)
	seen := map[*SQLSite]bool{}
	for _, s := range sets {
		if seen[s] {
			continue
		}
		seen[s] = true
		c.setUpdate(s)
	}
	c.zeroRows("zero-rows", func(s *Stmt) bool {
		if s.Kind != "UPDATE" || s.Table != "balances" {
			return false
		}
		for _, t := range totalCols {
			if _, ok := s.Set[t]; ok {
				return true
			}
		}
		return false
	}, func(*Stmt) string { return "" })
	c.Floor("zero-rows", 1)
	// where versions come from
	for _, o := range S.Scans {
		if !o.OK {
			continue
		}
		outs := o.Stmt.Outputs()
		for i, d := range o.Dests {
			if _, f := pathLast(d); f != "Version" || i >= len(outs) {
				continue
			}
			have := map[string]bool{}
			for _, x := range outs {
				have[x] = true
			}
			c.Check(outs[i] == "version" && have["credit_balance"] && have["debit_balance"] && have["balance"], "version-read", fnName(o.Fn)+" scan", w.Pos(o.Site.Pos()), "a balance's version is read from column %q of a row without its totals (%s)", outs[i], strings.Join(outs, ", "))
		}
	}
	for _, f := range w.Funcs {
		Instrs(f, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || faName(fa) != "Version" || typeName(fa.X.Type()) != "model.Balance" {
				return
			}
			con := fnName(f) + " assigns Version"
			c.Check(versionSource(s.Val, fa), "version-read", con, w.Pos(s.Pos()), "the version is set from something that is neither its own value plus one nor another balance's version")
		})
	}
	c.Floor("version-read", 4)
}

func pathLast(t *Term) (*Term, string) {
	b, fs := t.unconv().Path()
	if len(fs) == 0 {
		return b, ""
	}
	return b, fs[len(fs)-1]
}

func versionSource(v ssa.Value, fa *ssa.FieldAddr) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil || x.Int64() == 0
	case *ssa.Convert:
		return versionSource(x.X, fa)
	case *ssa.UnOp:
		if o, ok := x.X.(*ssa.FieldAddr); ok {
			return faName(o) == "Version" && typeName(o.X.Type()) == "model.Balance"
		}
	case *ssa.Field:
		return typeName(x.X.Type()) == "model.Balance"
	case *ssa.BinOp:
		if k, ok := x.Y.(*ssa.Const); ok && x.Op.String() == "+" && k.Int64() == 1 {
			if l, ok := x.X.(*ssa.UnOp); ok {
				if o, ok := l.X.(*ssa.FieldAddr); ok && faName(o) == "Version" && sameVal(o.X, fa.X) {
					return true
				}
			}
		}
	}
	return false
}

func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op == y.Op && sameVal(x.X, y.X)
}

// guardOf says what is missing from the optimistic guard of an update of totals ("" if nothing).
func (c *Ctx) guardOf(e *SQLObs, u *Stmt) string {
	v := u.Set["version"]
	okInc := false
	for k, t := range v {
		if t.op("+") && isCol(v[:k], "version") && len(v[k+1:]) == 1 && v[k+1].S == "1" {
			okInc = true
		}
	}
	if !okInc {
		return "the version is not raised by one"
	}
	if !u.WhereOK {
		return "the restriction is not a plain conjunction"
	}
	var id, ver []Tok
	for _, w := range u.Where {
		if r := eqSide(w, "balance_id"); r != nil {
			id = r
		}
		if r := eqSide(w, "version"); r != nil {
			ver = r
		} else if len(w) == 7 || len(w) == 3 { // b.version = v.expected_version is covered; b.version on the right too
			if r := eqSide(w, "expected_version"); r != nil && isCol(r, "version") {
				ver = w[len(w)-len(r):]
			}
		}
	}
	if id == nil {
		return "the update is not restricted by balance_id"
	}
	if ver == nil {
		return "the update is not restricted to the version that was read"
	}
	if len(ver) == 1 && ver[0].K == "p" {
		if len(id) != 1 || id[0].K != "p" || !e.ArgsOK {
			return "the id or the bound arguments are not known"
		}
		ai, av := paramNo(id[0]), paramNo(ver[0])
		if ai < 1 || av < 1 || ai > len(e.Args) || av > len(e.Args) {
			return "placeholders without arguments"
		}
		bi, fi := fieldArg(e.Args[ai-1])
		bv, fv := fieldArg(e.Args[av-1])
		if fi != "BalanceID" || fv != "Version" || bi != bv {
			return "the version compared is not the Version of the balance addressed"
		}
		for _, t := range totalCols {
			x := u.Set[t]
			if x == nil {
				return "total " + t + " is not written"
			}
			if len(x) != 1 || x[0].K != "p" {
				return "total " + t + " is not written from an argument"
			}
			n := paramNo(x[0])
			if n < 1 || n > len(e.Args) {
				return "placeholders without arguments"
			}
			b, f := fieldArg(e.Args[n-1])
			if b != bi || f != camel(t) {
				return "total " + t + " is written from another field"
			}
		}
		return ""
	}
	// joined with a list of rows
	if len(u.From) == 0 {
		return "the version is not compared with an argument"
	}
	_, vn := qname(ver, 0)
	if vn == "version" {
		return "the version is compared with itself"
	}
	for _, t := range totalCols {
		x := u.Set[t]
		if x == nil {
			return "total " + t + " is not written"
		}
		if !isCol(x, t) || len(x) != 3 || strings.EqualFold(x[0].S, u.Alias) {
			return "total " + t + " is not written from its own column"
		}
	}
	return ""
}

func paramNo(t Tok) int {
	n := 0
	fmt.Sscanf(t.S, "%d", &n)
	return n
}

// setUpdate checks the rows of a multi-row update and that its answer is compared.
func (c *Ctx) setUpdate(s *SQLSite) {
	w := c.W
	con := fnName(s.Fn) + " UPDATE balances"
	where := w.Pos(s.Site.Pos())
	var cols []string
	var sel [][]Tok
	for _, e := range s.Events {
		if e.Stmt == nil {
			continue
		}
		for _, q := range e.Stmt.All() {
			if len(q.Cols) > 0 && q.Kind != "INSERT" && q.Kind != "COPY" {
				cols = q.Cols
			}
			if q != e.Stmt && len(q.Sel) > 0 {
				sel = q.Sel
			}
		}
	}
	for _, it := range sel { // raw.x::type AS x
		_, src := qname(it, 0)
		c.Check(src == selName(it), "guard-args", con+" column "+selName(it), where, "column %s of the row list is taken from %s", selName(it), src)
	}
	if len(cols) == 0 {
		c.Fail("guard-args", con, where, "the columns of the row list are not known")
		return
	}
	// the appended tuple, in the function or one it calls for it
	found := false
	for g := range w.sameUnit(s.Fn) {
		Instrs(g, func(in ssa.Instruction) {
			cl, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			if b, ok := cl.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
				return
			}
			items := variadicItems(cl.Call.Args[1])
			if len(items) != len(cols) {
				return
			}
			found = true
			var base ssa.Value
			for i, it := range items {
				b, f := fieldOf(it)
				want := camel(cols[i])
				if cols[i] == "expected_version" {
					want = "Version"
				}
				if base == nil {
					base = b
				}
				c.Check(f == want && b == base && b != nil, "guard-args", con+" "+cols[i], w.Pos(in.Pos()), "position %d of the row list is %s, but holds field %q", i+1, cols[i], f)
			}
		})
	}
	if !found {
		c.Fail("guard-args", con, where, "the values bound to the row list were not found")
	}
	// the answer is compared
	ok := false
	for g := range w.sameUnit(s.Fn) {
		ok = ok || missingLeadsToError(w, g)
	}
	c.Check(ok, "all-rows", con, where, "no branch on the returned ids (a lookup of each balance's id, or a comparison of the counts) leads to an error")
}

// sameUnit: the function, its closures and the same-package functions called only from it.
func (w *World) sameUnit(f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{f: true}
	q := []*ssa.Function{f}
	for len(q) > 0 {
		g := q[0]
		q = q[1:]
		for _, h := range w.refs[g] {
			if out[h] || fnPkg(h) != fnPkg(f) || !w.InModule(h) {
				continue
			}
			out[h] = true
			q = append(q, h)
		}
	}
	return out
}

// variadicItems: the elements of the slice literal built for a variadic call.
func variadicItems(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	m := map[int64]ssa.Value{}
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, r := range *ia.Referrers() {
			if st, ok := r.(*ssa.Store); ok {
				m[k.Int64()] = st.Val
			}
		}
	}
	out := make([]ssa.Value, len(m))
	for k, x := range m {
		if int(k) >= len(out) {
			return nil
		}
		out[k] = x
	}
	return out
}

// fieldOf: the struct value and the field a value is read from, through conversions and no-argument accessors.
func fieldOf(v ssa.Value) (ssa.Value, string) {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Call:
			if len(x.Call.Args) == 1 {
				v = x.Call.Args[0]
				continue
			}
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return fa.X, faName(fa)
			}
		case *ssa.Field:
			return x.X, structOf(x.X.Type()).Field(x.Field).Name()
		}
		return nil, ""
	}
}

// missingLeadsToError: a branch on a lookup in a set filled from scanned rows, or on a comparison with
// a count of them, has a side that only leads to an error.
func missingLeadsToError(w *World, f *ssa.Function) bool {
	ok := false
	each := func(lk *ssa.Lookup) bool { // looked up for every element of what the loop visits
		h := loopAround(lk.Block())
		if h == nil {
			return true
		}
		cov := (&vctx{fn: f}).covers(lk.Index)
		return eachTurn(h, lk.Block()) && leavesOnlyFailing(h) && (cov == nil || cov.whole())
	}
	for _, b := range f.Blocks {
		iff, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !isIf {
			continue
		}
		bad := -1
		switch x := iff.Cond.(type) {
		case *ssa.Extract: // _, ok := m[k]
			if lk, y := x.Tuple.(*ssa.Lookup); y && x.Index == 1 && filledInLoop(lk.X) && each(lk) {
				bad = 1
			}
		case *ssa.Lookup:
			if filledInLoop(x.X) && each(x) {
				bad = 1
			}
		case *ssa.UnOp:
			if lk, y := x.X.(*ssa.Lookup); y && filledInLoop(lk.X) && each(lk) {
				bad = 0
			}
			if e, y := x.X.(*ssa.Extract); y {
				if lk, y := e.Tuple.(*ssa.Lookup); y && filledInLoop(lk.X) && each(lk) {
					bad = 0
				}
			}
		case *ssa.BinOp: // counts
			if lenOrCount(x.X) && lenOrCount(x.Y) {
				switch x.Op.String() {
				case "!=", "<", ">":
					bad = 0
				case "==":
					bad = 1
				}
			}
		}
		if bad >= 0 && onlyErrors(b.Succs[bad], map[*ssa.BasicBlock]bool{}) {
			ok = true
		}
		if bad < 0 && fromFilled(iff.Cond, 0) && (onlyErrors(b.Succs[0], map[*ssa.BasicBlock]bool{}) || onlyErrors(b.Succs[1], map[*ssa.BasicBlock]bool{})) {
			ok = true
		}
	}
	return ok
}

// fromFilled: the condition is computed by a call given a set filled from rows.
func fromFilled(v ssa.Value, d int) bool {
	if d > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return fromFilled(x.X, d+1) || fromFilled(x.Y, d+1)
	case *ssa.UnOp:
		return fromFilled(x.X, d+1)
	case *ssa.Extract:
		return fromFilled(x.Tuple, d+1)
	case *ssa.Call:
		if _, ok := x.Call.Value.(*ssa.Builtin); ok {
			return false
		}
		for _, a := range x.Call.Args {
			if filledInLoop(a) {
				return true
			}
		}
	}
	return false
}

func filledInLoop(m ssa.Value) bool {
	if m == nil {
		return false
	}
	if _, ok := m.Type().Underlying().(*types.Map); !ok {
		return false
	}
	refs := m.Referrers()
	if refs == nil {
		return false
	}
	for _, u := range *refs {
		if mu, ok := u.(*ssa.MapUpdate); ok && mu.Map == m {
			return true
		}
		if _, ok := u.(*ssa.Call); ok {
			return true
		}
	}
	_, param := m.(*ssa.Parameter)
	return param
}

func lenOrCount(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len"
	case *ssa.Phi:
		return isIntType(x.Type())
	case *ssa.Convert:
		return lenOrCount(x.X)
	}
	return false
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// onlyErrors: every return reachable from b gives a non-nil error (constant nil excluded syntactically).
func onlyErrors(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	switch x := b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Return:
		i := ErrIndex(b.Parent().Signature)
		if i < 0 || i >= len(x.Results) {
			return false
		}
		v := x.Results[i]
		if ld, ok := v.(*ssa.UnOp); ok { // with deferred calls results travel through a local
			if al, ok := ld.X.(*ssa.Alloc); ok {
				v = nil
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && s.Addr == al {
						v = s.Val
					}
				}
				if v == nil {
					return false
				}
			}
		}
		if k, ok := v.(*ssa.Const); ok && k.Value == nil {
			return false
		}
		return true
	}
	for _, s := range b.Succs {
		if !onlyErrors(s, seen) {
			return false
		}
	}
	return len(b.Succs) > 0
}

func faName(fa *ssa.FieldAddr) string { return fieldName(fa.X.Type(), fa.Field) }
