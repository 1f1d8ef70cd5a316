package main

import (
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["T05"] = ruleT05 }

// dsMethod: the call resolves to a datasource method of this name (directly or through the interface).
func dsMethod(k *Call, names ...string) bool {
	for _, t := range append([]*ssa.Function{k.Fn}, k.Targets...) {
		if t == nil || !inPkg(t, Mod+"/database") || t.Signature.Recv() == nil {
			continue
		}
		for _, n := range names {
			if t.Name() == n {
				return true
			}
		}
	}
	return false
}

// forkBool continues a (bool, error) call in its three outcomes; the states are nil-safe to modify.
func (en *Engine) forkBool(st *State, k *Call) (yes, no, fail *State) {
	ok, fail := en.Fork(st, k)
	yes, no = ok, ok.Clone()
	t := en.Res(ok, k, 0)
	en.setKind(yes, t, "true")
	en.setKind(no, t, "false")
	return
}

// field reads a field of the object a pointer denotes.
func (en *Engine) field(st *State, o *Term, name string) *Term {
	return en.Load(st, en.mk("field", name, nil, nil, o))
}

// stmtsOf are the statements seen in a function and the module functions it calls within the storage package.
func (w *World) stmtsOf(f *ssa.Function) []*Stmt {
	var r []*Stmt
	in := w.ReachableFrom(f)
	for _, s := range w.CollectSQL().Sites {
		if s.Fn != f && !in[s.Fn] {
			continue
		}
		for _, e := range s.Events {
			if e.Stmt != nil {
				r = append(r, e.Stmt)
			}
		}
	}
	return r
}

func normConj(ts []Tok) string {
	s := strings.ToLower(tokStr(ts))
	s = regexp.MustCompile(`\b[a-z_]+\.([a-z_]+)`).ReplaceAllString(s, "$1")
	return strings.Join(strings.Fields(s), " ")
}

// conjOn: the statement (or a subquery) reads the table with a top-level condition matching re.
func conjOn(s *Stmt, table string, re string) bool {
	for _, q := range s.All() {
		on := q.Table == table
		for _, t := range q.From {
			if t.Name == table {
				on = true
			}
		}
		if !on || !q.WhereOK {
			continue
		}
		for _, c := range q.Where {
			if regexp.MustCompile("^" + re + "$").MatchString(normConj(c)) {
				return true
			}
		}
	}
	return false
}

// datasourceFn finds an exported datasource method.
func (w *World) datasourceFn(name string) *ssa.Function {
	return w.Func("(database.Datasource)." + name)
}

func isBoolErr(sig *types.Signature) bool {
	r := sig.Results()
	return r.Len() == 2 && r.At(0).Type().String() == "bool" && r.At(1).Type().String() == "error"
}

// refLookups: datasource methods that tell whether references are taken: by a yes or no, or by the set of those taken.
func (w *World) refLookups() (single, multi map[*ssa.Function]bool) {
	single, multi = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if !inPkg(f, Mod+"/database") || f.Signature.Recv() == nil || f.Object() == nil || !f.Object().Exported() || f.Blocks == nil {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() != 2 {
			continue
		}
		_, isMap := rs.At(0).Type().Underlying().(*types.Map)
		if !isBoolErr(f.Signature) && !isMap {
			continue
		}
		for _, s := range w.stmtsOf(f) {
			if isMap && conjOn(s, "transactions", `reference = any ?\( ?\$1 ?(::text ?\[ ?\] ?)?\)|reference in .*`) {
				multi[f] = true
			}
			if !isMap && conjOn(s, "transactions", `reference = \$1`) {
				single[f] = true
			}
		}
	}
	return
}

func ruleT05(c *Ctx) {
	w := c.W
	c.Rule("unique", "the migrated schema has a unique index (or constraint) on transactions.reference alone, without a condition")
	c.Rule("no-upsert", "no statement inserts transactions with an ON CONFLICT clause")
	c.Rule("refused", "in the functions that lock and persist, a transaction is applied to balances only on paths on which its own reference was looked up, the lookup succeeded and said it is unused")
	c.Rule("asked", "where the references already used are looked up at once, every reference noted as looked up is among those asked for")
	c.Floor("asked", 1)
	c.Floor("unique", 1)
	c.Floor("no-upsert", 2)
	c.Floor("refused", 2)
	sc := w.Schema()
	uq := ""
	if t := sc.Tables["transactions"]; t != nil {
		for _, u := range t.Uniques {
			if len(u) == 1 && u[0] == "reference" {
				uq = "constraint"
			}
		}
	}
	for _, ix := range sc.Indexes {
		if ix.Table == "transactions" && ix.Unique && len(ix.Cols) == 1 && ix.Cols[0] == "reference" && ix.Where == "" {
			uq = ix.Name
		}
	}
	c.Check(uq != "", "unique", "transactions.reference", "sql/", "the schema does not enforce that a transaction reference is unique")
	for _, s := range w.CollectSQL().Sites {
		for _, e := range s.Events {
			if e.Stmt == nil {
				continue
			}
			for _, q := range e.Stmt.All() {
				if (q.Kind == "INSERT" || q.Kind == "COPY") && q.Table == "transactions" {
					c.Check(len(q.Conflict) == 0, "no-upsert", fnName(s.Fn), w.Pos(s.Site.Pos()), "a colliding insert of a transaction is skipped or turned into an update")
				}
			}
		}
	}

	single, multi := w.refLookups()
	stores := w.storesTotals()
	roots := w.lowest(w.Reaches(func(f *ssa.Function) bool { return stores[f] }), w.Reaches(isLockPrim))
	apply := w.appliers()
	ra := w.Reaches(func(f *ssa.Function) bool { return apply[f] })
	rl := w.Reaches(func(f *ssa.Function) bool { return single[f] || multi[f] })
	for _, r := range sortedFns(roots) {
		en := NewEngine(w)
		en.SmallMax = 6
		en.MaxDepth = 10
		en.Relevant = map[*ssa.Function]bool{}
		for _, f := range w.Funcs {
			if !inPkg(f, Mod+"/database") && !isMock(f) && (ra[f] || rl[f]) {
				en.Relevant[f] = true
			}
		}
		en.NoInline = func(f *ssa.Function) bool {
			return inPkg(f, Mod+"/database") || isMock(f) || inPkg(f, lockPkg) || apply[f]
		}
		refOf := func(t *Term) *Term { // the transaction whose reference this is
			t = t.Strip()
			if t.Op == "field" && t.Name == "Reference" {
				return t.Args[0]
			}
			return nil
		}
		asks := func(f *ssa.Function) bool {
			r := false
			Instrs(f, func(in ssa.Instruction) {
				for _, t := range w.callees(in) {
					r = r || multi[t]
				}
			})
			return r
		}
		hit := func(k *Call, set map[*ssa.Function]bool) bool {
			for _, t := range append([]*ssa.Function{k.Fn}, k.Targets...) {
				if t != nil && set[t] {
					return true
				}
			}
			return false
		}
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Kind == "call" && hit(k, single) {
				var ref *Term
				for _, a := range k.Args[1:] {
					if x := refOf(a); x != nil {
						ref = x
					}
				}
				yes, no, fail := en.forkBool(st, k)
				yes.Add("taken")
				fail.Add("unknown")
				if ref != nil {
					no.Add("free:" + ref.key)
				}
				return []*State{yes, no, fail}, true
			}
			if k.Name == "append" && asks(k.F.Fn) {
				if va, ok := en.VarArgs(st, k.Args[1]); ok {
					for _, a := range va {
						if refOf(a) != nil {
							st.Add("listed:" + a.Strip().key)
						}
					}
				}
				return nil, false
			}
			if k.Kind == "call" && hit(k, multi) {
				ok, fail := en.Fork(st, k)
				ok.vals["set:"+en.Res(ok, k, 0).key] = en.Res(ok, k, 0)
				fail.Add("unknown")
				return []*State{ok, fail}, true
			}
			if k.Fn != nil && apply[k.Fn] && len(k.Args) > 0 {
				var txn *Term
				for _, a := range k.Args {
					if a.V != nil && strings.HasSuffix(a.V.Type().String(), "*"+Mod+"/model.Transaction") {
						txn = a
					}
				}
				where := w.Pos(k.Site.Pos())
				con := fnName(r) + " " + fnName(k.Fn)
				switch {
				case st.Has("taken"):
					c.Fail("refused", con, where, "a transaction whose reference is already used is applied")
				case st.Has("unknown"):
					c.Fail("refused", con, where, "a failed lookup of the reference is taken for an unused one")
				default:
					_ = txn
					c.Check(st.HasPrefix("free:"), "refused", con, where, "a transaction is applied on a path on which its reference was not looked up")
				}
				return nil, false
			}
			return nil, false
		}
		// a lookup in the set of taken references
		en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
			t, val := cond, taken
			for t.Op == "un" && t.Name == "!" {
				t, val = t.Args[0], !val
			}
			x := t
			if x.Op == "res" && len(x.Args) > 0 {
				x = x.Args[0]
			}
			if x.Op != "lookup" {
				return
			}
			m := x.Args[0].Strip()
			if _, ok := st.vals["set:"+m.key]; !ok {
				return
			}
			if ref := refOf(x.Args[1]); ref != nil {
				if val {
					st.Add("taken")
				} else {
					st.Add("free:" + ref.key)
				}
			}
		}
		// a map made here that nothing was put into is empty
		empty := func(st *State, m *Term) bool {
			m = m.Strip()
			_, mk := m.V.(*ssa.MakeMap)
			return mk && !st.Has("upd:"+m.key)
		}
		en.KindOf = func(st *State, t *Term) string {
			switch {
			case t.Op == "len" && empty(st, t.Args[0]):
				return "=0"
			case t.Op == "res" && t.Name == "ok" && t.Args[0].Op == "lookup" && empty(st, t.Args[0].Args[0]):
				return "false"
			}
			return ""
		}
		en.H.MapUpd = func(en *Engine, st *State, m, k, v *Term, in ssa.Instruction, f *Frame) {
			st.Add("upd:" + m.Strip().key)
			if asks(f.Fn) && refOf(k) != nil {
				st.Add("noted:" + k.Strip().key)
			}
		}
		// each iteration starts anew
		en.H.Edge = func(en *Engine, st *State, from, to *ssa.BasicBlock, f *Frame) {
			body := loopBlocks(from)
			if body == nil {
				return
			}
			if body[to] && ra[f.Fn] {
				st.DelPrefix("free:")
			}
			if asks(f.Fn) {
				for _, x := range st.Facts() {
					if strings.HasPrefix(x, "noted:") {
						c.Check(st.Has("listed:"+x[6:]), "asked", fnName(f.Fn), w.Pos(f.Fn.Pos()), "a reference is noted as looked up but not among those the lookup is given")
					}
				}
				st.DelPrefix("noted:")
				st.DelPrefix("listed:")
			}
		}
		en.Run(r, nil)
		c.Engine(en)
	}
}

// appliers: the exported model functions that change balance totals on behalf of a transaction.
func (w *World) appliers() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if !inPkg(f, Mod+"/model") || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		switch fnName(f) {
		case "model.UpdateBalances":
			r[f] = true
		}
		if recv := f.Signature.Recv(); recv != nil && strings.HasSuffix(recv.Type().String(), "model.Balance") && (strings.HasPrefix(f.Name(), "CommitInflight") || strings.HasPrefix(f.Name(), "RollbackInflight")) {
			r[f] = true
		}
	}
	return r
}

// conjs are the normalised top-level conditions under which a statement (or a subquery) reads the table; nil if none does.
func conjs(s *Stmt, table string) []string {
	for _, q := range s.All() {
		on := q.Table == table
		for _, t := range q.From {
			if t.Name == table {
				on = true
			}
		}
		if !on || !q.WhereOK {
			continue
		}
		var r []string
		for _, c := range q.Where {
			r = append(r, normConj(c))
		}
		return r
	}
	return nil
}

// sameConds: the conditions are exactly those described, in any order.
func sameConds(cs []string, want ...string) bool {
	if len(cs) != len(want) {
		return false
	}
	for _, wnt := range want {
		ok := false
		for _, c := range cs {
			ok = ok || regexp.MustCompile("^(?:"+wnt+")$").MatchString(c)
		}
		if !ok {
			return false
		}
	}
	return true
}

// lookupsBy: exported datasource methods with a statement satisfying pred.
func (w *World) lookupsBy(sig func(*types.Signature) bool, pred func(s *Stmt, e *SQLObs) bool) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if !inPkg(f, Mod+"/database") || f.Signature.Recv() == nil || f.Object() == nil || !f.Object().Exported() || f.Blocks == nil || !sig(f.Signature) {
			continue
		}
		in := w.ReachableFrom(f)
		for _, s := range w.CollectSQL().Sites {
			if s.Fn != f && !in[s.Fn] {
				continue
			}
			for _, e := range s.Events {
				if e.Stmt != nil && pred(e.Stmt, e) {
					r[f] = true
				}
			}
		}
	}
	return r
}

func hitsAny(k *Call, set map[*ssa.Function]bool) bool {
	for _, t := range append([]*ssa.Function{k.Fn}, k.Targets...) {
		if t != nil && set[t] {
			return true
		}
	}
	return false
}

const txnPtr = "*" + Mod + "/model.Transaction"

// argsOfType: the arguments given for parameters of the type.
func argsOfType(k *Call, typ string) []*Term {
	var r []*Term
	ps := k.Sig.Params()
	off := len(k.Args) - ps.Len()
	for i := 0; i < ps.Len(); i++ {
		if ps.At(i).Type().String() == typ && i+off >= 0 {
			r = append(r, k.Args[i+off])
		}
	}
	return r
}

// fetchesTxn: a call outside the analysed code that returns a stored or queued transaction for an identifier.
func fetchesTxn(k *Call) bool {
	if rs := k.Sig.Results(); rs.Len() == 0 || rs.At(0).Type().String() != txnPtr {
		return false
	}
	for _, t := range append([]*ssa.Function{k.Fn}, k.Targets...) {
		if t != nil && (inPkg(t, Mod+"/database") || onQueue(t)) {
			return true
		}
	}
	return false
}

func onQueue(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && strings.HasSuffix(f.Signature.Recv().Type().String(), Mod+".Queue")
}

// api: an exported function or method of the main package, or one used as a value or from another package.
func (w *World) api(f *ssa.Function) bool {
	if f.Parent() != nil {
		return false
	}
	if f.Object() != nil && f.Object().Exported() {
		return true
	}
	if len(w.callSites(f)) > 0 {
		return false
	}
	for _, g := range w.callers[f] { // used as a value next to where it is called
		if !isMock(g) && fnPkg(g) == fnPkg(f) {
			return false
		}
	}
	return true
}

// topsOf: the functions of the main package callable from outside it that reach the target without passing another such function.
func (w *World) topsOf(target map[*ssa.Function]bool) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if !inPkg(f, Mod) || !w.api(f) || isMock(f) {
			continue
		}
		avoid := func(g *ssa.Function) bool {
			return g != f && g.Parent() == nil && inPkg(g, Mod) && w.api(g) && !target[g]
		}
		for g := range w.ReachableAvoiding(avoid, f) {
			if target[g] {
				r[f] = true
			}
		}
	}
	return r
}

// recorders: exported methods of the ledger that take a transaction and come to record or queue it.
func (w *World) recorders() map[*ssa.Function]bool {
	rec := w.Reaches(func(f *ssa.Function) bool {
		return inPkg(f, Mod+"/database") && f.Object() != nil && f.Object().Exported() && w.insertsTxn(f)
	})
	r := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if !inPkg(f, Mod) || f.Parent() != nil || f.Object() == nil || isMock(f) {
			continue
		}
		takes := false
		for i := 0; i < f.Signature.Params().Len(); i++ {
			takes = takes || f.Signature.Params().At(i).Type().String() == txnPtr
		}
		if takes && (f.Object().Exported() && rec[f] || onQueue(f)) {
			r[f] = true
		}
	}
	return r
}

func (w *World) insertsTxn(f *ssa.Function) bool {
	_, all := w.SQLEffects()
	for e := range all[f] {
		if (e.Kind == "INSERT" || e.Kind == "COPY") && e.Table == "transactions" {
			return true
		}
	}
	return false
}

// lockText: the literal part of a lock's key and the value in it.
func (en *Engine) lockText(st *State, key *Term) (lit string, hole *Term) {
	for _, p := range en.Text(st, key) {
		if p.Hole != nil {
			hole = p.Hole.Strip()
			lit += "<id>"
		} else {
			lit += p.Lit
		}
	}
	return
}

// trackLocks models creation, taking and releasing of single locks: facts "held:<text>" and the id in it.
func (en *Engine) trackLocks(st *State, k *Call) ([]*State, bool) {
	if k.Fn != nil && inPkg(k.Fn, lockPkg) && k.Fn.Name() == "NewLocker" {
		en.opaque(k.F, st, k)
		st.vals["lockkey:"+en.Res(st, k, 0).Strip().key] = k.Args[1]
		return []*State{st}, true
	}
	switch op, l := lockOp(k); op {
	case "lock":
		ok, fail := en.Fork(st, k)
		if kt := st.vals["lockkey:"+l.Strip().key]; kt != nil {
			lit, hole := en.lockText(st, kt)
			ok.Add("held:" + lit)
			if hole != nil {
				ok.vals["heldid"] = hole
			}
			ok.vals["heldlock:"+l.Strip().key] = en.strTerm(lit)
		}
		return []*State{ok, fail}, true
	case "unlock":
		en.opaque(k.F, st, k)
		if t := st.vals["heldlock:"+l.Strip().key]; t != nil {
			s, _ := t.Str()
			st.Del("held:" + s)
			delete(st.vals, "heldid")
		}
		return []*State{st}, true
	}
	return nil, false
}

func init() { rules["T06"] = ruleT06 }

func ruleT06(c *Ctx) {
	w := c.W
	c.Rule("locked", "a commit or void is recorded only while a lock is held whose key is made of the inflight transaction's id and the same text for every such operation, and the transaction was fetched after taking it")
	c.Rule("is-hold", "on every path to a commit or void the fetched transaction's status was seen to be INFLIGHT, or QUEUED with the inflight mark")
	c.Rule("not-voided", "on every such path the lookup of a void of it succeeded and found none")
	c.Rule("remaining", "on every such path the committed total was read under the lock, and what remains (original minus committed) was seen not to be zero")
	c.Rule("amount", "a void is recorded over exactly what remains; a commit over exactly what remains or over an amount seen to be positive and not to exceed it")
	c.Rule("linked", "the record made names the inflight transaction as its parent")
	c.Rule("queries", "the lookup of voids and the committed total consider every child of the transaction that is VOID, or APPLIED")
	c.Rule("deferred", "no commit or void is put on the transaction queue, where it would be applied later without this validation")
	c.Floor("locked", 2)
	c.Floor("is-hold", 2)
	c.Floor("not-voided", 2)
	c.Floor("remaining", 2)
	c.Floor("amount", 2)
	c.Floor("linked", 2)
	c.Floor("queries", 2)
	c.Floor("deferred", 1)

	argParam := func(e *SQLObs) bool {
		return len(e.Args) == 1 && e.Args[0].unconv().Strip().Op == "param"
	}
	voids := w.lookupsBy(isBoolErr, func(s *Stmt, e *SQLObs) bool {
		return argParam(e) && sameConds(conjs(s, "transactions"), `parent_transaction = \$1`, `status = 'void'`)
	})
	sum := regexp.MustCompile(`sum \( (\w+ \. )?precise_amount \)`)
	totals := w.lookupsBy(func(s *types.Signature) bool {
		return s.Results().Len() == 2 && s.Results().At(0).Type().String() == "*math/big.Int"
	}, func(s *Stmt, e *SQLObs) bool {
		return argParam(e) && len(s.Sel) == 1 && sum.MatchString(strings.ToLower(tokStr(s.Sel[0]))) &&
			sameConds(conjs(s, "transactions"), `parent_transaction = \$1`, `status = 'applied'`)
	})
	for _, f := range sortedFns(voids) {
		c.Ok("queries", "voids "+fnName(f), w.Pos(f.Pos()))
	}
	for _, f := range sortedFns(totals) {
		c.Ok("queries", "committed total "+fnName(f), w.Pos(f.Pos()))
	}

	rec := w.recorders()
	// candidates: functions that mention the two statuses and come to record
	mention := func(f *ssa.Function) bool {
		if !inPkg(f, Mod) || isMock(f) {
			return false
		}
		r := false
		Instrs(f, func(in ssa.Instruction) {
			for _, o := range in.Operands(nil) {
				if k, ok := (*o).(*ssa.Const); ok && k.Value != nil && (k.Value.ExactString() == `"COMMIT"` || k.Value.ExactString() == `"VOID"`) {
					r = true
				}
			}
		})
		return r
	}
	rm := w.Reaches(mention)
	stop := func(f *ssa.Function) bool { return rec[f] }
	roots := map[*ssa.Function]bool{}
	for f := range w.topsOf(rec) {
		if rec[f] || !rm[f] {
			continue
		}
		m, _ := false, 0
		for g := range w.ReachableAvoiding(func(g *ssa.Function) bool {
			return stop(g) || g != f && g.Parent() == nil && inPkg(g, Mod) && w.api(g)
		}, f) {
			m = m || mention(g)
		}
		if m || mention(f) {
			roots[f] = true
		}
	}
	rl := w.Reaches(isLockPrim)
	rd := w.Reaches(func(f *ssa.Function) bool { return voids[f] || totals[f] || rec[f] || isUnlockPrim(f) })
	lits := map[string]bool{}
	for _, r := range sortedFns(roots) {
		r := r
		en := NewEngine(w)
		en.Affine = true
		en.SmallMax = 12
		en.MaxDepth = 8
		en.Relevant = map[*ssa.Function]bool{}
		for _, f := range w.Funcs {
			if inPkg(f, Mod) && !isMock(f) && (rl[f] || rd[f]) && !rec[f] {
				en.Relevant[f] = true
			}
			if fnName(f) == "model.ApplyPrecision" {
				en.Relevant[f] = true
			}
		}
		en.NoInline = func(f *ssa.Function) bool {
			return inPkg(f, Mod+"/database") || isMock(f) || inPkg(f, lockPkg) || rec[f] || onQueue(f) ||
				f != r && f.Parent() == nil && inPkg(f, Mod) && w.api(f) && (rl[f] || rec[f])
		}
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Kind != "call" && k.Kind != "defer" {
				return nil, false
			}
			if out, done := en.trackLocks(st, k); done {
				return out, done
			}
			switch {
			case fetchesTxn(k) && !hitsAny(k, rec):
				ok, fail := en.Fork(st, k)
				t := en.Res(ok, k, 0).Strip()
				ok.vals["fetched:"+t.key] = t
				var id *Term
				for _, a := range argsOfType(k, "string") {
					id = a.Strip()
				}
				if id != nil {
					ok.vals["id:"+t.key] = id
				}
				if ok.HasPrefix("held:") && id != nil && ok.vals["heldid"] == id {
					ok.Add("underlock:" + t.key)
				}
				return []*State{ok, fail}, true
			case hitsAny(k, voids):
				yes, no, fail := en.forkBool(st, k)
				a := k.Args[len(k.Args)-1].Strip()
				yes.Add("voided")
				no.vals["notvoid:"+a.key] = a
				fail.Add("voidunknown")
				if st.HasPrefix("held:") {
					no.Add("voidunder")
				}
				return []*State{yes, no, fail}, true
			case hitsAny(k, totals):
				ok, fail := en.Fork(st, k)
				a := k.Args[len(k.Args)-1].Strip()
				t := en.Res(ok, k, 0)
				ok.vals["total:"+a.key] = t
				if ok.HasPrefix("held:") {
					ok.Add("totalunder")
				}
				// by induction over this very rule no more than the original was ever committed
				for n, o := range ok.vals {
					if strings.HasPrefix(n, "fetched:") {
						rem := en.Val(ok, en.mk("load", "", nil, nil, en.mk("field", "PreciseAmount", nil, nil, o))).add(en.Val(ok, t), -1)
						ok.known["S|"+rem.String()] = knownRec{"0+", signRec}
					}
				}
				return []*State{ok, fail}, true
			case hitsAny(k, rec):
				if k.Fn != nil && onQueue(k.Fn) {
					c.Check(!st.Has("settling"), "deferred", fnName(r), w.Pos(k.Site.Pos()), "a transaction made a commit or void is put on the queue: it is applied later without the lock and the validation")
				}
				for _, a := range argsOfType(k, txnPtr) {
					status := strings.Trim(en.Kind(st, en.field(st, a, "Status")), `="`)
					if status == "COMMIT" || status == "VOID" {
						c.settle(en, st, k, r, a, status, lits)
					}
				}
				ok, fail := en.Fork(st, k)
				return []*State{ok, fail}, true
			}
			return nil, false
		}
		en.H.Store = func(en *Engine, st *State, addr, val *Term, in ssa.Instruction, f *Frame) {
			if addr.Op == "field" && addr.Name == "Status" {
				v := strings.Trim(en.Kind(st, val), `="`)
				if v == "COMMIT" || v == "VOID" {
					st.Add("settling")
				} else {
					st.Del("settling")
				}
			}
		}
		en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
			t, val := cond, taken
			for t.Op == "un" && t.Name == "!" {
				t, val = t.Args[0], !val
			}
			en.statusSeen(st, cond, taken)
			// the mark in the metadata
			if val {
				marked := false
				t.Mentions(func(x *Term) bool {
					if x.Op == "lookup" {
						if s, ok := x.Args[1].Str(); ok && s == "inflight" {
							marked = true
						}
					}
					return false
				})
				if marked {
					st.Add("marked")
				}
			}
		}
		en.Run(r, nil)
		c.Engine(en)
	}
	c.Check(len(lits) <= 1, "locked", "same key", "", "commits and voids of one transaction are not excluded by one lock: keys %v", sortedKeys(lits))
}

func (c *Ctx) settle(en *Engine, st *State, k *Call, root *ssa.Function, txn *Term, status string, lits map[string]bool) {
	w := c.W
	where := w.Pos(k.Site.Pos())
	con := fnName(root) + " " + status
	parent := en.field(st, txn, "ParentTransaction").Strip()
	var o *Term
	for n, t := range st.vals {
		if strings.HasPrefix(n, "fetched:") {
			own := en.mk("load", "", nil, nil, en.mk("field", "TransactionID", nil, nil, t))
			if parent == own.Strip() || parent == st.vals["id:"+t.key] {
				o = t
			}
		}
	}
	c.Check(o != nil, "linked", con, where, "the record's parent is %s, not the id of the transaction fetched", parent)
	if o == nil {
		return
	}
	ids := []*Term{st.vals["id:"+o.key], en.mk("load", "", nil, nil, en.mk("field", "TransactionID", nil, nil, o)).Strip()}
	any := func(p string) *Term {
		for _, i := range ids {
			if i != nil {
				if t := st.vals[p+i.key]; t != nil {
					return t
				}
			}
		}
		return nil
	}
	c.Check(st.HasPrefix("held:") && st.Has("underlock:"+o.key), "locked", con, where, "the %s is recorded on a path on which no lock on the transaction is held or the transaction was fetched before it was taken", status)
	for _, f := range st.Facts() {
		if strings.HasPrefix(f, "held:") {
			lits[f[5:]] = true
		}
	}
	c.Check(st.Has("is:"+o.key+":INFLIGHT") || st.Has("is:"+o.key+":QUEUED") && st.Has("marked"), "is-hold", con, where, "the %s is recorded on a path on which the transaction was not seen to be a hold", status)
	c.Check(any("notvoid:") != nil && st.Has("voidunder") && !st.Has("voided") && !st.Has("voidunknown"), "not-voided", con, where, "the %s is recorded on a path on which a previous void was not ruled out under the lock", status)
	tot := any("total:")
	if tot == nil || !st.Has("totalunder") {
		c.Fail("remaining", con, where, "the %s is recorded on a path on which the committed total was not read under the lock", status)
		return
	}
	rem := en.Val(st, en.mk("load", "", nil, nil, en.mk("field", "PreciseAmount", nil, nil, o))).add(en.Val(st, tot), -1)
	c.Check(!strings.Contains(en.Sign(st, rem), "0"), "remaining", con, where, "the %s is recorded on a path on which nothing may remain of the hold", status)
	amt := en.Val(st, en.field(st, txn, "PreciseAmount"))
	left := rem.add(amt, -1)
	if status == "VOID" {
		c.Check(amt.Eq(rem), "amount", con, where, "the void releases %s, what remains is %s", amt.Human(), rem.Human())
		return
	}
	sg := en.Sign(st, left)
	c.Check(amt.Eq(rem) || !strings.Contains(sg, "-") && en.Sign(st, amt) == "+", "amount", con, where, "the commit takes %s (sign %s), which was not shown to be positive and within what remains, %s", amt.Human(), en.Sign(st, amt), rem.Human())
}

func init() { rules["T07"] = ruleT07 }

func ruleT07(c *Ctx) {
	w := c.W
	c.Rule("lookup", "whether a transaction was refunded is decided by all of its children that run between its destination and its source")
	c.Rule("locked", "a refund is recorded or queued only while a lock keyed by the original's id is held, and the original was fetched after taking it")
	c.Rule("refundable", "on every path to a refund the original's status was seen to be APPLIED or VOID")
	c.Rule("once", "on every such path the lookup of an earlier refund succeeded, under the lock, and found none")
	c.Rule("reverse", "the refund runs from the original's destination to its source over the same amount, currency and precision")
	c.Rule("linked", "the refund names the original as parent, and its reference is the original's id with a fixed text")
	c.Rule("entry", "refunds are made nowhere else")
	c.Floor("lookup", 1)
	c.Floor("locked", 1)
	c.Floor("refundable", 1)
	c.Floor("once", 1)
	c.Floor("reverse", 4)
	c.Floor("linked", 2)
	fieldArg := func(t *Term, name string) bool {
		t = t.Strip()
		return t != nil && t.Op == "field" && t.Name == name && t.Args[0].Strip().Op == "param"
	}
	lookup := w.lookupsBy(isBoolErr, func(s *Stmt, e *SQLObs) bool {
		cs := conjs(s, "transactions")
		if len(cs) != 3 || len(e.Args) != 3 {
			return false
		}
		for _, want := range [][2]string{{"parent_transaction", "TransactionID"}, {"source", "Destination"}, {"destination", "Source"}} {
			ok := false
			for _, x := range cs {
				m := regexp.MustCompile(`^` + want[0] + ` = \$(\d)$`).FindStringSubmatch(x)
				ok = ok || m != nil && fieldArg(e.Args[atoi(m[1])-1], want[1])
			}
			if !ok {
				return false
			}
		}
		return true
	})
	for _, f := range sortedFns(lookup) {
		c.Ok("lookup", fnName(f), w.Pos(f.Pos()))
	}
	// the reversing functions: those that store one transaction's destination as a source
	swaps := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if !inPkg(f, Mod) || isMock(f) {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fieldName(fa.X.Type(), fa.Field) != "Source" || structOf(fa.X.Type()) == nil || !strings.HasSuffix(typeName(fa.X.Type()), "model.Transaction") {
				return
			}
			if _, n := fieldOf(st.Val); n == "Destination" {
				swaps[f] = true
			}
		})
	}
	rec := w.recorders()
	rs := w.Reaches(func(f *ssa.Function) bool { return swaps[f] })
	rl := w.Reaches(isLockPrim)
	rd := w.Reaches(func(f *ssa.Function) bool { return lookup[f] || rec[f] || isUnlockPrim(f) })
	roots := map[*ssa.Function]bool{}
	for f := range w.topsOf(rec) {
		if rec[f] || !rs[f] {
			continue
		}
		for g := range w.ReachableAvoiding(func(g *ssa.Function) bool {
			return rec[g] || g != f && g.Parent() == nil && inPkg(g, Mod) && w.api(g)
		}, f) {
			if swaps[g] {
				roots[f] = true
			}
		}
	}
	covered := map[*ssa.Function]bool{}
	for _, r := range sortedFns(roots) {
		r := r
		en := NewEngine(w)
		en.SmallMax = 16
		en.MaxDepth = 8
		en.Relevant = map[*ssa.Function]bool{}
		for _, f := range w.Funcs {
			if inPkg(f, Mod) && !isMock(f) && (rl[f] || rd[f] || rs[f]) && !rec[f] {
				en.Relevant[f] = true
			}
		}
		en.NoInline = func(f *ssa.Function) bool {
			return inPkg(f, Mod+"/database") || isMock(f) || inPkg(f, lockPkg) || rec[f] || onQueue(f) ||
				f != r && f.Parent() == nil && inPkg(f, Mod) && w.api(f) && (rl[f] || rec[f])
		}
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			covered[k.F.Fn] = true
			if k.Kind != "call" && k.Kind != "defer" {
				return nil, false
			}
			if out, done := en.trackLocks(st, k); done {
				return out, done
			}
			switch {
			case fetchesTxn(k) && !hitsAny(k, rec):
				ok, fail := en.Fork(st, k)
				t := en.Res(ok, k, 0).Strip()
				ok.vals["fetched:"+t.key] = t
				for _, a := range argsOfType(k, "string") {
					ok.vals["id:"+t.key] = a.Strip()
					if ok.HasPrefix("held:") && ok.vals["heldid"] == a.Strip() {
						ok.Add("underlock:" + t.key)
					}
				}
				return []*State{ok, fail}, true
			case hitsAny(k, lookup):
				yes, no, fail := en.forkBool(st, k)
				yes.Add("refunded")
				fail.Add("refundunknown")
				for _, a := range argsOfType(k, txnPtr) {
					if no.HasPrefix("held:") {
						no.Add("notrefunded:" + a.Strip().key)
					}
				}
				return []*State{yes, no, fail}, true
			case hitsAny(k, rec):
				for _, a := range argsOfType(k, txnPtr) {
					c.refund(en, st, k, r, a)
				}
				ok, fail := en.Fork(st, k)
				return []*State{ok, fail}, true
			}
			return nil, false
		}
		en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
			en.statusSeen(st, cond, taken)
		}
		en.Run(r, nil)
		c.Engine(en)
		for f := range en.Inlined {
			covered[f] = true
		}
		covered[r] = true
	}
	for _, f := range sortedFns(swaps) {
		c.Check(covered[f], "entry", fnName(f), w.Pos(f.Pos()), "transactions are reversed here outside the functions that refund under a lock")
	}
}

// statusSeen notes which status a fetched transaction was seen to have.
func (en *Engine) statusSeen(st *State, cond *Term, taken bool) {
	t, val := cond, taken
	for t.Op == "un" && t.Name == "!" {
		t, val = t.Args[0], !val
	}
	if t.Op != "bin" || t.Name != "==" || !val {
		return
	}
	for i := 0; i < 2; i++ {
		x, s := t.Args[i].Strip(), t.Args[1-i]
		if x.Op != "field" || x.Name != "Status" {
			continue
		}
		if o := st.vals["fetched:"+x.Args[0].Strip().key]; o != nil {
			if v, ok := s.Str(); ok {
				st.Add("is:" + o.key + ":" + v)
			}
		}
	}
}

func (c *Ctx) refund(en *Engine, st *State, k *Call, root *ssa.Function, txn *Term) {
	w := c.W
	where := w.Pos(k.Site.Pos())
	con := fnName(root)
	orig := func(o *Term, f string) *Term {
		return en.mk("load", "", nil, nil, en.mk("field", f, nil, nil, o)).Strip()
	}
	parent := en.field(st, txn, "ParentTransaction").Strip()
	var o *Term
	for n, t := range st.vals {
		if strings.HasPrefix(n, "fetched:") && (parent == orig(t, "TransactionID") || parent == st.vals["id:"+t.key]) {
			o = t
		}
	}
	c.Check(o != nil, "linked", con+" parent", where, "the refund's parent is %s, not the id of the transaction fetched", parent)
	if o == nil {
		return
	}
	isID := func(t *Term) bool { return t == orig(o, "TransactionID") || t == st.vals["id:"+o.key] }
	id, lit := false, false
	for _, p := range en.Text(st, en.field(st, txn, "Reference")) {
		if p.Hole == nil {
			lit = true
		} else if isID(p.Hole.Strip()) {
			id = true
		} else {
			id, lit = false, false
			break
		}
	}
	c.Check(id && lit, "linked", con+" reference", where, "the refund's reference, %s, is not derived from the original's id alone, so repeating the refund does not collide", en.field(st, txn, "Reference"))
	c.Check(st.HasPrefix("held:") && st.Has("underlock:"+o.key), "locked", con, where, "the refund is made on a path on which no lock on the original is held, or the original was fetched before it was taken")
	c.Check(st.Has("is:"+o.key+":APPLIED") || st.Has("is:"+o.key+":VOID"), "refundable", con, where, "the refund is made on a path on which the original was not seen to be applied or voided")
	c.Check(st.Has("notrefunded:"+o.key) && !st.Has("refunded") && !st.Has("refundunknown"), "once", con, where, "the refund is made on a path on which an earlier refund was not ruled out under the lock")
	for _, p := range [][2]string{{"Source", "Destination"}, {"Destination", "Source"}, {"PreciseAmount", "PreciseAmount"}, {"Currency", "Currency"}, {"Precision", "Precision"}} {
		got := en.field(st, txn, p[0]).Strip()
		c.Check(got == orig(o, p[1]), "reverse", con+" "+p[0], where, "the refund's %s is %s, not the original's %s", p[0], got, p[1])
	}
}
