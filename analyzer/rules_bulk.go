package main

import (
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["T08"] = ruleT08 }

var statusLit = regexp.MustCompile(`'(APPLIED|INFLIGHT|QUEUED|VOID|REJECTED|COMMIT|SCHEDULED)'`)

// workerSig: a worker of a batch: it takes a channel of transactions and a channel of results that carry an error.
func workerSig(sig *types.Signature) bool {
	jobs, results := false, false
	for i := 0; i < sig.Params().Len(); i++ {
		ch, ok := sig.Params().At(i).Type().Underlying().(*types.Chan)
		if !ok {
			continue
		}
		if ch.Elem().String() == txnPtr && ch.Dir() != types.SendOnly {
			jobs = true
		}
		if s, ok := ch.Elem().Underlying().(*types.Struct); ok && ch.Dir() != types.RecvOnly {
			for j := 0; j < s.NumFields(); j++ {
				results = results || isErr(s.Field(j).Type())
			}
		}
	}
	return jobs && results
}

// fetchSig: a page of transactions of a parent.
func fetchSig(sig *types.Signature) bool {
	return sig.Results().Len() == 2 && sig.Results().At(0).Type().String() == "[]"+txnPtr && isErr(sig.Results().At(1).Type())
}

// workerKind: what the worker makes of each transaction: the statuses it gives and whether it exchanges the parties, at the
// nearest functions it calls that do so.
func (w *World) workerKind(f *ssa.Function) (kinds []string) {
	set := map[string]bool{}
	see := func(g *ssa.Function) {
		Instrs(g, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			switch fieldName(fa.X.Type(), fa.Field) {
			case "Status":
				if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil {
					switch k.Value.ExactString() {
					case `"VOID"`:
						set["void"] = true
					case `"COMMIT"`:
						set["commit"] = true
					}
				}
			case "Source":
				if u, ok := s.Val.(*ssa.UnOp); ok {
					if fb, ok := u.X.(*ssa.FieldAddr); ok && fieldName(fb.X.Type(), fb.Field) == "Destination" {
						set["refund"] = true
					}
				}
			}
		})
	}
	level, seen := []*ssa.Function{f}, map[*ssa.Function]bool{f: true}
	for len(level) > 0 && len(set) == 0 {
		var next []*ssa.Function
		for _, g := range level {
			see(g)
			add := func(h *ssa.Function) {
				if h != nil && !seen[h] && inPkg(h, Mod) && !isMock(h) && h.Blocks != nil {
					seen[h] = true
					next = append(next, h)
				}
			}
			Instrs(g, func(in ssa.Instruction) {
				if k, ok := in.(ssa.CallInstruction); ok {
					for _, h := range w.StaticTargets(k.Common()) {
						add(unwrap(h))
					}
				}
				if m, ok := in.(*ssa.MakeClosure); ok {
					add(m.Fn.(*ssa.Function))
				}
			})
		}
		level = next
	}
	return sortedKeys(set)
}

// wanted: the statuses a page of transactions is restricted to by a fetcher.
func (w *World) fetchedStatuses(f *ssa.Function) map[string]bool {
	r := map[string]bool{}
	for g := range w.ReachableFrom(f) {
		if !inPkg(g, Mod+"/database") || isMock(g) {
			continue
		}
		for _, s := range w.stmtsOf(g) {
			for _, x := range s.All() {
				for _, cj := range x.Where {
					for _, v := range statusLit.FindAllStringSubmatch(tokStr(cj), -1) {
						r[v[1]] = true
					}
				}
			}
		}
	}
	return r
}

func ruleT08(c *Ctx) {
	w := c.W
	c.Rule("undone", "on every path on which recording an item of a bulk request failed and the request is atomic, the items recorded so far are undone, as the bulk is a hold or not, before the failure is reported")
	c.Rule("reported", "a bulk that had a failure is reported differently from one that had none: with an error and another status, or with another notification")
	c.Rule("undo-reported", "the report of a failed bulk contains the failure of the undo, if that failed too")
	c.Rule("every", "each item is recorded, and a failure to record one leaves the loop with an error")
	c.Rule("linked", "the items are recorded under the batch the undo is asked to undo")
	c.Rule("mode", "the undo of holds voids inflight transactions, and that of settled ones refunds applied ones")
	c.Rule("worker", "a worker of a batch reports every job whose operation failed as failed")
	c.Rule("batch", "processing a batch reports the failures of its workers and of fetching")
	c.Floor("undone", 2)
	c.Floor("reported", 2)
	c.Floor("undo-reported", 2)
	c.Floor("every", 1)
	c.Floor("linked", 2)
	c.Floor("mode", 2)
	c.Floor("worker", 5)
	c.Floor("batch", 2)
	rec := w.recorders()
	rl := w.Reaches(func(f *ssa.Function) bool { return rec[f] })
	var roots []*ssa.Function
	for _, f := range w.Funcs {
		if !inPkg(f, Mod) || !w.api(f) || isMock(f) || !rl[f] || f.Parent() != nil {
			continue
		}
		for _, p := range f.Params {
			if s := structOf(p.Type()); s != nil && hasField(s, "Atomic") && hasField(s, "Transactions") {
				roots = append(roots, f)
			}
		}
	}
	c.Check(len(roots) > 0, "undone", "requests", "", "no function that takes a bulk request and records was found")
	for _, r := range roots {
		c.bulk(r, rec)
	}
	c.workers(rec)
	c.batches()
}

func hasField(s *types.Struct, n string) bool {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return true
		}
	}
	return false
}

func (c *Ctx) bulk(r *ssa.Function, rec map[*ssa.Function]bool) {
	w := c.W
	en := NewEngine(w)
	en.Relevant = map[*ssa.Function]bool{}
	rl := w.Reaches(func(f *ssa.Function) bool { return rec[f] || isBatchRunner(f) || isNotifier(f) })
	for _, f := range w.Funcs {
		if inPkg(f, Mod) && !isMock(f) && rl[f] && !rec[f] && !isBatchRunner(f) && !isNotifier(f) {
			en.Relevant[f] = true
		}
	}
	en.NoInline = func(f *ssa.Function) bool {
		return rec[f] || isBatchRunner(f) || isNotifier(f) || isMock(f) || f != r && f.Parent() == nil && inPkg(f, Mod) && w.api(f)
	}
	name := fnName(r)
	type report struct{ ok, failed map[string]bool }
	sync := report{map[string]bool{}, map[string]bool{}}
	async := report{map[string]bool{}, map[string]bool{}}
	links := map[string]bool{}
	flags := func(cond *Term, taken bool, st *State) {
		for cond.Op == "un" && cond.Name == "!" {
			cond, taken = cond.Args[0], !taken
		}
		t := cond.Strip()
		if t == nil || t.Op != "field" || t.Name != "Atomic" && t.Name != "Inflight" {
			return
		}
		st.Add(map[bool]string{true: "is", false: "not"}[taken] + t.Name)
	}
	undone := func(st *State, where string, act string) {
		if !st.Has("failed") {
			return
		}
		switch {
		case st.Has("notAtomic"):
			c.Ok("undone", name+" "+act+" not atomic", where)
		default:
			c.Check(st.HasPrefix("undo:"), "undone", name+" "+act, where, "the bulk ends after a failure without the items recorded before having been undone, although it may be atomic")
		}
		if st.Has("isAtomic") {
			for _, f := range st.Facts() {
				if strings.HasPrefix(f, "undo:") {
					c.Check(f == "undo:void" && st.Has("isInflight") || f == "undo:refund" && st.Has("notInflight"), "mode", name+" "+act+" "+f[5:], where, "what is undone by %s is not known to be what the bulk recorded (hold or settled)", f[5:])
				}
			}
		}
	}
	told := func(st *State, t *Term) bool {
		return t != nil && deepMention(t, func(x *Term) bool { return x == st.vals["undoerr"] || st.vals["undotext:"+x.key] != nil })
	}
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
		flags(cond, taken, st)
	}
	en.H.AfterCall = func(en *Engine, st *State, k *Call) {
		if (strings.HasPrefix(k.Name, "fmt.") || strings.HasPrefix(k.Name, "errors.")) && st.vals["undoerr"] != nil && k.Value != nil {
			for _, a := range en.AllArgs(st, k) {
				if told(st, a) {
					t := en.Res(st, k, 0)
					st.vals["undotext:"+t.key] = t
					for _, p := range en.Text(st, t) {
						if p.Hole == nil && p.Lit != "" { // not empty
							st.known[t.key+"≠\"\""] = knownRec{"true", t}
						}
					}
				}
			}
		}
	}
	en.H.MapUpd = func(en *Engine, st *State, m, k, v *Term, in ssa.Instruction, f *Frame) {
		if told(st, v) {
			st.Add("told")
		}
	}
	en.H.Go = func(en *Engine, st *State, k *Call) {
		if k.Fn == nil || k.Fn.Blocks == nil || !w.InModule(k.Fn) || isMock(k.Fn) {
			return
		}
		touches := false
		for g := range w.ReachableFrom(k.Fn) {
			touches = touches || rec[g]
		}
		if !touches {
			return
		}
		s := st.Clone()
		for _, f := range s.Facts() {
			s.Del(f)
		}
		for _, e := range en.RunArgs(k.Fn, s, k.Args, k.Free) {
			where := w.Pos(e.ret.Pos())
			if e.ret.Pos() == token.NoPos {
				where = w.Pos(k.Site.Pos())
			}
			undone(e.st, where, "background")
			c.Check(e.st.HasPrefix("event:"), "reported", name+" background", where, "the bulk ends in the background without a notification")
			for _, f := range e.st.Facts() {
				if strings.HasPrefix(f, "event:") {
					if e.st.Has("failed") {
						async.failed[f[6:]] = true
					} else {
						async.ok[f[6:]] = true
					}
				}
			}
			if e.st.vals["undoerr"] != nil {
				c.Check(e.st.Has("told"), "undo-reported", name+" background", where, "the undo failed and the notification does not say so")
			}
		}
	}
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		if k.Kind != "call" && k.Kind != "defer" {
			return nil, false
		}
		where := w.Pos(k.Site.Pos())
		switch {
		case k.Fn != nil && isNotifier(k.Fn):
			for i, a := range k.Args {
				if i >= len(k.Fn.Params) {
					continue
				}
				s, ok := k.Fn.Params[i].Type().Underlying().(*types.Struct)
				if !ok || !hasField(s, "Event") {
					continue
				}
				ev := en.fieldOf(st, a, "Event")
				text := ""
				for _, p := range en.Text(st, ev) {
					if p.Hole != nil {
						text += "?"
					} else {
						text += p.Lit
					}
				}
				st.Add("event:" + text)
			}
			en.opaque(k.F, st, k)
			return []*State{st}, true
		case k.Fn != nil && isBatchRunner(k.Fn):
			var worker, fetch *ssa.Function
			var id *Term
			for _, a := range k.Args {
				t := a.Strip()
				if t == nil {
					continue
				}
				if t.Fn != nil {
					g := unwrap(t.Fn)
					if workerSig(g.Signature) {
						worker = g
					} else if fetchSig(g.Signature) {
						fetch = g
					}
				}
			}
			for _, a := range argsOfType(k, "string") {
				id = a.Strip()
			}
			kind := ""
			if worker != nil {
				kind = strings.Join(w.workerKind(worker), "+")
			}
			ok, fail := en.Fork(st, k)
			if worker == nil || fetch == nil {
				return []*State{ok, fail}, true
			}
			want := w.fetchedStatuses(fetch)
			// what the worker does to each
			switch {
			case kind == "refund" && want["APPLIED"] && !want["INFLIGHT"]:
				kind = "refund"
			case kind == "void" && want["INFLIGHT"]:
				kind = "void"
			default:
				c.Check(false, "mode", name+" "+fnName(worker), where, "what the batch does (%s on %v) undoes neither holds nor settled transactions", kind, sortedKeys(want))
				return []*State{ok, fail}, true
			}
			if st.Has("failed") {
				link := id != nil && links[id.key]
				for l := range links {
					link = link && l == id.key
				}
				c.Check(link, "linked", name+" "+kind, where, "the undo is asked for %s, which is not what every item was recorded under", id)
			}
			ok.Add("undo:" + kind)
			fail.Add("undo:" + kind)
			if i := ErrIndex(k.Sig); i >= 0 {
				fail.vals["undoerr"] = en.Res(fail, k, i)
			}
			return []*State{ok, fail}, true
		case hitsAny(k, rec) && !st.HasPrefix("undo:"):
			ok, fail := en.Fork(st, k)
			for _, a := range argsOfType(k, txnPtr) {
				p := en.field(st, a, "ParentTransaction")
				if p != nil {
					links[p.Strip().key] = true
				}
			}
			if cs, isC := k.Site.(ssa.CallInstruction); isC {
				good := false
				for _, v := range cs.Common().Args {
					if v.Type().String() != txnPtr {
						continue
					}
					if cov := vctxOf(k.F).covers(v); cov != nil && cov.whole() {
						h := loopAround(cs.Block())
						good = h != nil && eachTurn(h, cs.Block()) && leavesOnlyFailing(h)
					}
				}
				c.Check(good, "every", name+" "+fnName(k.F.Fn), where, "not every item is recorded, or the loop over the items is left early without an error")
			}
			fail.Add("failed")
			if k.Value == nil || ErrIndex(k.Sig) < 0 {
				c.Check(false, "every", name+" discarded", where, "the failure to record an item is discarded")
			}
			return []*State{ok, fail}, true
		}
		return nil, false
	}
	for _, e := range en.Run(r, nil) {
		where := w.Pos(e.ret.Pos())
		undone(e.st, where, "in the request")
		i := ErrIndex(r.Signature)
		if i < 0 || i >= len(e.res) {
			c.Check(false, "reported", name, where, "the bulk cannot report a failure")
			continue
		}
		kind := en.Kind(e.st, e.res[i])
		status := ""
		for j, x := range e.res {
			if j != i {
				if t := en.field(e.st, x, "Status"); t != nil {
					status = strings.Trim(en.Kind(e.st, t), `="`)
				}
			}
		}
		if e.st.Has("failed") {
			c.Check(kind == "nonnil", "reported", name+" error", where, "the bulk had a failure and may return no error")
			sync.failed[status] = true
			if e.st.vals["undoerr"] != nil {
				c.Check(told(e.st, e.res[i]), "undo-reported", name+" error", where, "the undo failed and the error returned does not contain that")
			}
		} else if kind != "nonnil" {
			sync.ok[status] = true
		}
	}
	for what, rp := range map[string]report{"status": sync, "notification": async} {
		both := []string{}
		for s := range rp.failed {
			if rp.ok[s] && s != "" {
				both = append(both, s)
			}
		}
		c.Check(len(rp.failed) > 0 && len(rp.ok) > 0 && len(both) == 0, "reported", name+" "+what, w.Pos(r.Pos()), "a failed bulk is reported with the %s of one that did not fail: %v of %v and %v", what, both, sortedKeys(rp.failed), sortedKeys(rp.ok))
	}
	c.Engine(en)
}

// isBatchRunner: runs a worker over the transactions a fetcher yields.
func isBatchRunner(f *ssa.Function) bool {
	a, b := false, false
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if s, ok := f.Signature.Params().At(i).Type().Underlying().(*types.Signature); ok {
			a = a || workerSig(s)
			b = b || fetchSig(s)
		}
	}
	return a && b
}

// isNotifier: takes a webhook to be delivered.
func isNotifier(f *ssa.Function) bool {
	if !inPkg(f, Mod) || isMock(f) || f.Parent() != nil {
		return false
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if s, ok := f.Signature.Params().At(i).Type().Underlying().(*types.Struct); ok && hasField(s, "Event") && hasField(s, "Payload") {
			return true
		}
	}
	return false
}

// workers: every job whose operation failed is reported.
func (c *Ctx) workers(rec map[*ssa.Function]bool) {
	w := c.W
	for _, f := range w.Funcs {
		if !inPkg(f, Mod) || isMock(f) || !workerSig(f.Signature) || f.Synthetic != "" {
			continue
		}
		f := f
		name := fnName(f)
		en := NewEngine(w)
		en.MaxDepth = 2
		en.SmallMax = 6
		found := false
		en.NoInline = func(g *ssa.Function) bool { return w.api(g) || isMock(g) }
		owed := func(st *State, where string) {
			c.Check(!st.Has("owed"), "worker", name, where, "a job whose operation failed is left without a result that says so")
		}
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Kind != "call" || k.Fn == nil || !inPkg(k.Fn, Mod) || ErrIndex(k.Sig) < 0 || k.F.Caller != nil && k.F.Fn.Parent() == nil && w.api(k.F.Fn) {
				return nil, false
			}
			if en.shouldInline(k.Fn) && !w.api(k.Fn) {
				return nil, false
			}
			found = true
			ok, fail := en.Fork(st, k)
			fail.Add("owed")
			return []*State{ok, fail}, true
		}
		en.H.Instr = func(en *Engine, st *State, in ssa.Instruction, f *Frame) {
			if s, ok := in.(*ssa.Send); ok {
				v := en.Eval(st, f, s.X)
				if st2, ok := s.X.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < st2.NumFields(); i++ {
						if isErr(st2.Field(i).Type()) {
							if t := en.fieldOf(st, v, st2.Field(i).Name()); t != nil && en.Kind(st, t) == "nonnil" {
								st.Del("owed")
							}
						}
					}
				}
			}
		}
		en.H.Header = func(en *Engine, st *State, from, to *ssa.BasicBlock, f *Frame, subs []PhiSub) {
			if f.Caller == nil && en.isLoopHeader(to) {
				owed(st, w.Pos(from.Instrs[len(from.Instrs)-1].Pos()))
			}
		}
		for _, e := range en.Run(f, nil) {
			owed(e.st, w.Pos(e.ret.Pos()))
		}
		if found {
			c.Ok("worker", name+" operations", w.Pos(f.Pos()))
		}
		c.Engine(en)
	}
}

// batches: the outcome of a batch.
func (c *Ctx) batches() {
	w := c.W
	for _, f := range w.Funcs {
		if !isBatchRunner(f) || isMock(f) || f.Synthetic != "" || !inPkg(f, Mod) {
			continue
		}
		name := fnName(f)
		ei := ErrIndex(f.Signature)
		if ei < 0 {
			c.Check(false, "batch", name, w.Pos(f.Pos()), "processing a batch cannot report an error")
			continue
		}
		// lists of errors filled by the goroutine that collects the results
		lists := map[*ssa.Alloc]bool{}
		var chans []ssa.Value
		Instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Alloc:
				if s, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice); ok && isErr(s.Elem()) {
					lists[x] = true
				}
			case *ssa.MakeChan:
				if isErr(x.Type().Underlying().(*types.Chan).Elem()) {
					chans = append(chans, x)
				}
			}
		})
		// parameters no caller sets
		never := func(p *ssa.Parameter, val bool) bool {
			sites := w.callSites(p.Parent())
			for i, q := range p.Parent().Params {
				if p != q {
					continue
				}
				for _, s := range sites {
					a, ok := s.Common().Args[i].(*ssa.Const)
					if !ok || a.Value == nil || (a.Value.ExactString() == "true") == val {
						return false
					}
				}
			}
			return len(sites) > 0
		}
		dead := func(cond ssa.Value) (t, e bool) {
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				if p, ok := u.X.(*ssa.Parameter); ok {
					return never(p, false), never(p, true)
				}
			}
			if p, ok := cond.(*ssa.Parameter); ok {
				return never(p, true), never(p, false)
			}
			return
		}
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || ei >= len(ret.Results) {
				continue
			}
			if !mayBeNil(lastStored(ret.Results[ei], b)) {
				continue
			}
			if unreachableWithout(b, func(_ *ssa.BasicBlock, iff *ssa.If) (bool, bool) { return dead(iff.Cond) }) {
				continue
			}
			// the list of failures was found empty
			empty := unreachableWithout(b, func(_ *ssa.BasicBlock, iff *ssa.If) (bool, bool) {
				t, e := dead(iff.Cond)
				x, y := lenOfList(iff.Cond, lists)
				return t || x, e || y
			})
			c.Check(len(lists) > 0 && empty, "batch", name+" workers", w.Pos(ret.Pos()), "success is reported without the failures of the workers having been found to be none")
			// after waiting for the end of the work the channel of errors was looked at
			polled := len(chans) > 0 && w.polled(b, chans, dead)
			c.Check(polled, "batch", name+" fetching", w.Pos(ret.Pos()), "success is reported although fetching may have failed: its error is not looked at once the work has ended (of two events that are ready a select takes either)")
		}
	}
}

// lastStored: what a result variable was last given in the block that returns it.
func lastStored(v ssa.Value, b *ssa.BasicBlock) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	for _, in := range b.Instrs {
		if s, ok := in.(*ssa.Store); ok && s.Addr == u.X {
			v = s.Val
		}
	}
	return v
}

func mayBeNil(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Phi:
		for _, e := range x.Edges {
			if mayBeNil(e) {
				return true
			}
		}
		return false
	case *ssa.UnOp:
		return x.Op == token.MUL // a named result
	}
	return false
}

// lenOfList: the condition says that the list is empty.
func lenOfList(cond ssa.Value, lists map[*ssa.Alloc]bool) (whenTrue, whenFalse bool) {
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return
	}
	isLen := func(v ssa.Value) bool {
		k, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := k.Common().Value.(*ssa.Builtin)
		if !ok || bi.Name() != "len" {
			return false
		}
		u, ok := k.Common().Args[0].(*ssa.UnOp)
		if !ok {
			return false
		}
		al, ok := u.X.(*ssa.Alloc)
		return ok && lists[al]
	}
	n, isN := constInt(b.Y)
	if isLen(b.X) && isN {
		switch {
		case b.Op == token.EQL && n == 0, b.Op == token.LSS && n == 1, b.Op == token.LEQ && n == 0:
			return true, false
		case b.Op == token.NEQ && n == 0, b.Op == token.GTR && n == 0, b.Op == token.GEQ && n == 1:
			return false, true
		}
	}
	n, isN = constInt(b.X)
	if isLen(b.Y) && isN && n == 0 {
		switch b.Op {
		case token.EQL:
			return true, false
		case token.NEQ, token.LSS:
			return false, true
		}
	}
	return
}

// polled: on every way to the block, after the last select or receive that waits for something else, one of the channels was looked at and held nothing.
func (w *World) polled(to *ssa.BasicBlock, chans []ssa.Value, dead func(ssa.Value) (bool, bool)) bool {
	is := func(v ssa.Value) bool {
		for _, c := range chans {
			if v == c {
				return true
			}
			if u, ok := v.(*ssa.UnOp); ok { // captured
				if al, ok := u.X.(*ssa.Alloc); ok {
					for _, r := range *al.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == al && s.Val == c {
							return true
						}
					}
				}
			}
		}
		return false
	}
	type node struct {
		b  *ssa.BasicBlock
		ok bool
	}
	seen := map[node]bool{}
	bad := false
	var walk func(n node)
	walk = func(n node) {
		if seen[n] || bad {
			return
		}
		seen[n] = true
		ok := n.ok
		for _, in := range n.b.Instrs {
			switch x := in.(type) {
			case *ssa.Select:
				has, other := false, false
				for _, s := range x.States {
					if is(s.Chan) {
						has = true
					} else {
						other = true
					}
				}
				switch {
				case has && !(x.Blocking && other):
					ok = true
				case x.Blocking:
					ok = false
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					ok = is(x.X)
				}
			case ssa.CallInstruction:
				if n := calleeName(x); n == "(*sync.WaitGroup).Wait" {
					ok = false
				}
			}
		}
		if n.b == to {
			bad = bad || !ok
			return
		}
		t, e := false, false
		if iff, isIf := n.b.Instrs[len(n.b.Instrs)-1].(*ssa.If); isIf && n.b.Succs[0] != n.b.Succs[1] {
			t, e = dead(iff.Cond)
		}
		for i, s := range n.b.Succs {
			if i == 0 && t || i == 1 && e {
				continue
			}
			walk(node{s, ok})
		}
	}
	walk(node{to.Parent().Blocks[0], false})
	return !bad
}
