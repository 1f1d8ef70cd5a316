package main

import (
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["T10"] = ruleT10; rules["T11"] = ruleT11 }

func ruleT10(c *Ctx) {
	c.Rule("derived", "A transaction stored for the queue is owed a task: on every path out of the work that stored it a copy of it with its own identifier, the stored transaction as parent and the stored reference with one fixed suffix has been made for queueing.")
	c.Rule("background", "What fails while a transaction is prepared for or put in the queue is told to the notifier or returned; every prepared copy is put in the queue.")
	c.Rule("coalesced", "What is executed together with a queued transaction is that transaction or such a copy of one that is still queued.")
	c.Rule("worker", "A task for a ledger operation is acknowledged only if the operation succeeded, was done already, is recorded as rejected or cannot be repeated.")
	c.Rule("reject", "A queued transaction is rejected only for what the failure says or once its attempts are used up; an exhausted one is not left without a rejection.")
	c.Rule("task-id", "The task carries the identifier of its transaction, and a task that could not be added is reported.")
	c.Floor("derived", 2)
	c.Floor("background", 3)
	c.Floor("coalesced", 2)
	c.Floor("worker", 4)
	c.Floor("reject", 2)
	c.Floor("task-id", 2)
	c.suffixes = map[string]string{}
	c.queueing()
	c.coalescing()
	c.ledgerTasks()
	c.taskIDs()
	if len(c.suffixes) > 1 {
		c.Fail("derived", "suffix", "", "copies of one transaction can be queued under different references: %v", c.suffixes)
	} else {
		c.Ok("derived", "suffix", "")
	}
}

// queueCopy: an object that is a copy of a stored transaction made for the queue: the identifier of what it was made from, and
// the suffix of its reference.
func (en *Engine) queueCopy(st *State, o *Term) (parent *Term, suffix string, ok bool) {
	o = o.Strip()
	if o.Op != "alloc" {
		return nil, "", false
	}
	if !computed(en.field(st, o, "TransactionID"), en.W.generates) {
		return nil, "", false
	}
	ref := en.Text(st, en.field(st, o, "Reference"))
	if len(ref) != 2 || ref[0].Hole == nil || ref[1].Hole != nil || ref[1].Lit == "" || computed(ref[0].Hole, en.W.generates) {
		return nil, "", false
	}
	return en.field(st, o, "ParentTransaction"), ref[1].Lit, true
}

// toldError: calls that make a failure known.
func toldError(k *Call) bool {
	return k.Fn != nil && inPkg(k.Fn, Mod+"/internal/notification") && strings.Contains(k.Fn.Name(), "Error")
}

func (c *Ctx) queueing() {
	w := c.W
	_, plain := w.txnInserts()
	rec := w.recorders()
	rp := w.Reaches(func(f *ssa.Function) bool { return plain[f] })
	enq := map[*ssa.Function]bool{}
	addsTask := w.Reaches(func(f *ssa.Function) bool {
		return callsNamed(f, func(n string) bool {
			return n == "(*github.com/hibiken/asynq.Client).EnqueueContext" || n == "(*github.com/hibiken/asynq.Client).Enqueue"
		})
	})
	for _, f := range w.Funcs {
		if addsTask[f] && onQueue(f) && f.Object() != nil && f.Object().Exported() && f.Signature.Params().Len() > 0 && f.Signature.Params().At(f.Signature.Params().Len()-1).Type().String() == txnPtr {
			direct := false
			for _, g := range w.closure(f) {
				if callsNamed(g, func(n string) bool { return n == "encoding/json.Marshal" }) && g == f {
					direct = true
				}
			}
			enq[f] = direct
			if !direct {
				delete(enq, f)
			}
		}
	}
	re := w.Reaches(func(f *ssa.Function) bool { return enq[f] })
	makes := w.Reaches(func(f *ssa.Function) bool { return w.setsField(f, "ParentTransaction") })
	for _, r := range sortedFns(w.topsOf(plain)) {
		if !re[r] {
			continue
		}
		r := r
		name := fnName(r)
		en := NewEngine(w)
		en.SmallMax, en.MaxDepth = 3, 9
		en.Ignore = func(f string) bool {
			switch f {
			case "Atomic", "AllowOverdraft", "MetaData", "EffectiveDate", "CreatedAt", "PreciseAmount", "Amount", "Precision", "Currency", "Status", "Inflight", "Hash", "ScheduledFor", "InflightExpiryDate", "InflightCommitDate", "Source", "Destination":
				return true
			}
			return false
		}
		en.Relevant = map[*ssa.Function]bool{}
		for _, f := range w.Funcs {
			if inPkg(f, Mod) && !isMock(f) && (rp[f] || re[f] || makes[f] && w.ownHelper(f)) {
				en.Relevant[f] = true
			}
		}
		en.NoInline = func(f *ssa.Function) bool {
			return inPkg(f, Mod+"/database") || isMock(f) || inPkg(f, lockPkg) || onQueue(f) || rec[f] && f != r ||
				w.hashes(f) || w.generates(f) || f != r && f.Parent() == nil && inPkg(f, Mod) && w.api(f)
		}
		inGo := false
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Kind != "call" && k.Kind != "defer" {
				return nil, false
			}
			switch {
			case hitsAny(k, plain) && inGo:
				ok, fail := en.Fork(st, k)
				fail.Add("failed")
				for _, a := range argsOfType(k, txnPtr) {
					id := en.field(ok, a, "TransactionID")
					ok.Add("owed:" + id.key)
					ok.vals["owed:"+id.key] = en.Res(ok, k, 0)
				}
				return []*State{ok, fail}, true
			case hitsAny(k, enq):
				ok, fail := en.Fork(st, k)
				ok.Add("queued")
				fail.Add("failed")
				c.wholeList(k, name)
				return []*State{ok, fail}, true
			case toldError(k):
				st.Del("failed")
				return nil, false
			}
			return nil, false
		}
		en.H.Store = func(en *Engine, st *State, addr, val *Term, in ssa.Instruction, f *Frame) {
			if val.V == nil || val.V.Type().String() != txnPtr || addr.Op == "field" && addr.Name != "" && !strings.Contains(addr.Op, "index") && isTxnObj(in) {
				return
			}
			p, suffix, ok := en.queueCopy(st, val)
			if !ok {
				return
			}
			for _, fct := range st.Facts() {
				if !strings.HasPrefix(fct, "owed:") {
					continue
				}
				x := st.vals[fct]
				if p.key == fct[5:] || x != nil && p.key == en.field(st, x, "TransactionID").key {
					st.Del(fct)
					c.suffixes[suffix] = w.Pos(in.Pos())
					c.Ok("derived", name+" copy in "+fnName(f.Fn), w.Pos(in.Pos()))
				}
			}
		}
		en.H.Go = func(en *Engine, st *State, k *Call) {
			if k.Fn == nil || inGo || !rp[k.Fn] && !re[k.Fn] {
				return
			}
			inGo = true
			defer func() { inGo = false }()
			for _, x := range en.RunArgs(k.Fn, st.Clone(), k.Args, k.Free) {
				owed := ""
				for _, fct := range x.st.Facts() {
					if strings.HasPrefix(fct, "owed:") {
						owed = fct
					}
				}
				where := w.Pos(k.Site.Pos())
				c.Check(owed == "", "derived", name, where, "a transaction is stored as queued, and no copy of it with an identifier of its own, the stored transaction as parent and a derived reference is kept for the queue")
				c.Check(!x.st.Has("failed"), "background", name, where, "a failure to store or queue the transaction in the background is told to nobody")
			}
		}
		en.Run(r, nil)
		c.Engine(en)
	}
}

// wholeList: a task is added for every element of the list it is taken from.
func (c *Ctx) wholeList(k *Call, name string) {
	w := c.W
	in := k.Site.(ssa.Instruction)
	lp := loopAround(in.Block())
	if lp == nil {
		return
	}
	c.Check(eachTurn(lp, in.Block()), "background", name+" each in "+fnName(in.Parent()), w.Pos(in.Pos()), "a turn of the loop can pass without queueing its transaction")
	c.Check(leavesOnlyFailing(lp), "background", name+" all in "+fnName(in.Parent()), w.Pos(in.Pos()), "the loop that queues the prepared transactions can be left before the last one without reporting a failure")
}

func (c *Ctx) coalescing() {
	w := c.W
	batch := map[*ssa.Function]bool{}
	with, _ := w.txnInserts()
	for f := range with {
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if f.Signature.Params().At(i).Type().String() == "[]"+txnPtr {
				batch[f] = true
			}
		}
	}
	rb := w.Reaches(func(f *ssa.Function) bool { return batch[f] })
	n := 0
	for _, f := range w.Funcs {
		// the functions that put a batch together
		if !inPkg(f, Mod) || isMock(f) || f.Parent() != nil || f.Signature.Results().Len() == 0 || f.Signature.Results().At(0).Type().String() != "[]"+txnPtr || rb[f] {
			continue
		}
		used := false
		for _, g := range w.callers[f] {
			used = used || w.reachedWith(g, rb)
		}
		if !used || !appendsTxn(f) || !w.fetchesSiblings(f) {
			continue
		}
		f := f
		name := fnName(f)
		en := NewEngine(w)
		en.SmallMax, en.MaxDepth = 6, 4
		en.Relevant = map[*ssa.Function]bool{}
		for _, g := range w.Funcs {
			if inPkg(g, Mod) && !isMock(g) && g.Parent() == nil && !w.api(g) && (w.setsField(g, "ParentTransaction") || w.setsField(g, "Inflight") || w.testsField(g, "Status")) {
				en.Relevant[g] = true
			}
		}
		en.NoInline = func(g *ssa.Function) bool { return inPkg(g, Mod+"/database") || isMock(g) || w.generates(g) }
		en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, fr *Frame) {
			for cond.Op == "un" && cond.Name == "!" {
				cond, taken = cond.Args[0], !taken
			}
			if cond.Op == "bin" && cond.Name == "==" && taken {
				for i := 0; i < 2; i++ {
					if s, ok := cond.Args[i].Str(); ok && s == "QUEUED" {
						st.Add("queued:" + cond.Args[1-i].key)
					}
					if o := cond.Args[1-i]; cond.Args[i].String() == "nil" && (strings.HasSuffix(o.String(), ".MetaData") || txnTyped(o)) {
						st.Add("nometa")
					}
				}
			}
		}
		en.H.Header = func(en *Engine, st *State, from, to *ssa.BasicBlock, fr *Frame, subs []PhiSub) {
			if en.isLoopHeader(to) {
				st.DelPrefix("looked:")
				st.Del("nometa")
			}
		}
		en.H.Instr = func(en *Engine, st *State, in ssa.Instruction, fr *Frame) {
			if l, ok := in.(*ssa.Lookup); ok {
				if k, ok := l.Index.(*ssa.Const); ok && k.Value != nil {
					st.Add("looked:" + unq(k.Value.ExactString()))
				}
			}
		}
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Name != "append" || len(k.Args) != 2 {
				return nil, false
			}
			va, ok := en.VarArgs(st, k.Args[1])
			if !ok {
				if t := k.Args[1]; t.V != nil && t.V.Type().String() == "[]"+txnPtr {
					c.Fail("coalesced", name, w.Pos(k.Site.Pos()), "a list of transactions that were not made for the queue joins the batch")
				}
				return nil, false
			}
			for _, a := range va {
				if a.V == nil || a.V.Type().String() != txnPtr {
					continue
				}
				if a.Strip().Op == "param" {
					continue
				}
				n++
				where := w.Pos(k.Site.Pos())
				_, suffix, isCopy := en.queueCopy(st, a)
				c.Check(isCopy, "coalesced", name+" copy", where, "a transaction joins the batch that is not a copy with an identifier, parent and reference of its own: repeating it would apply it twice")
				if !isCopy {
					continue
				}
				c.suffixes[suffix] = where
				c.Check(st.Has("nometa") || st.Has("looked:inflight") && st.Has("looked:allow_overdraft"), "coalesced", name+" flags", where, "a transaction joins the batch without its inflight and overdraft flags having been read back from its metadata")
				s := en.field(st, a, "Status")
				c.Check(en.Kind(st, s) == `="QUEUED"` || st.Has("queued:"+s.key), "coalesced", name+" queued", where, "a transaction joins the batch without its status being known to be QUEUED (%s)", en.Kind(st, s))
			}
			return nil, false
		}
		en.Run(f, nil)
		c.Engine(en)
	}
	if n == 0 {
		c.Fail("coalesced", "batches", "", "no place was found at which batches of queued transactions are put together")
	}
}

// fetchesSiblings: the function, or an own helper of it, reads stored transactions.
func (w *World) fetchesSiblings(f *ssa.Function) bool {
	avoid := func(g *ssa.Function) bool { return inPkg(g, Mod) && w.api(g) }
	fs := []*ssa.Function{f}
	for g := range w.ReachableAvoiding(avoid, f) {
		fs = append(fs, g)
	}
	for _, g := range fs {
		if inPkg(g, Mod+"/database") && !isMock(g) && g.Object() != nil && g.Object().Exported() && fetchSig(g.Signature) {
			return true
		}
	}
	return false
}

// reachedWith: the function, or one that calls it, also reaches the target set.
func (w *World) reachedWith(f *ssa.Function, set map[*ssa.Function]bool) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function, d int) bool
	rec = func(g *ssa.Function, d int) bool {
		if g == nil || seen[g] || d > 4 {
			return false
		}
		seen[g] = true
		if set[g] {
			return true
		}
		for _, h := range w.callers[g] {
			if rec(h, d+1) {
				return true
			}
		}
		return false
	}
	return rec(f, 0)
}

func txnTyped(t *Term) bool {
	t = t.Strip()
	return t.V != nil && t.V.Type().String() == txnPtr
}

func appendsTxn(f *ssa.Function) bool {
	r := false
	Instrs(f, func(in ssa.Instruction) {
		if k, ok := in.(*ssa.Call); ok {
			if b, ok := k.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && k.Type().String() == "[]"+txnPtr {
				r = true
			}
		}
	})
	return r
}

// testsField: the function reads the field of a transaction.
func (w *World) testsField(f *ssa.Function, name string) bool {
	r := false
	Instrs(f, func(in ssa.Instruction) {
		if fa, ok := in.(*ssa.FieldAddr); ok && fa.X.Type().String() == txnPtr && fieldName(fa.X.Type(), fa.Field) == name {
			r = true
		}
	})
	return r
}

func isHandler(f *ssa.Function) bool {
	s := f.Signature
	return s.Params().Len() == 2 && s.Params().At(1).Type().String() == "*github.com/hibiken/asynq.Task" && s.Results().Len() == 1 && isErr(s.Results().At(0).Type())
}

// dupPredicate: an exported predicate of an error that recognises a reference that was used already.
func dupPredicate(f *ssa.Function) bool {
	if f == nil || f.Signature.Params().Len() != 1 || !isErr(f.Signature.Params().At(0).Type()) || f.Signature.Results().Len() != 1 || f.Signature.Results().At(0).Type().String() != "bool" {
		return false
	}
	r := false
	Instrs(f, func(in ssa.Instruction) {
		for _, o := range in.Operands(nil) {
			if k, ok := (*o).(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == `"23505"` {
				r = true
			}
		}
	})
	return r
}

func (c *Ctx) ledgerTasks() {
	w := c.W
	rec := w.recorders()
	with, plain := w.txnInserts()
	changes := w.Reaches(func(f *ssa.Function) bool { return rec[f] || plain[f] || with[f] })
	rejects := func(f *ssa.Function) bool {
		return f != nil && inPkg(f, Mod) && w.api(f) && strings.Contains(f.Name(), "Reject") && changes[f]
	}
	for _, f := range w.Funcs {
		if !inPkg(f, Mod+"/cmd") || !isHandler(f) || !changes[f] || f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		f := f
		name := fnName(f)
		en := NewEngine(w)
		en.MaxDepth = 4
		en.Relevant = map[*ssa.Function]bool{}
		for _, g := range w.Funcs {
			if inPkg(g, Mod+"/cmd") {
				en.Relevant[g] = true
			}
		}
		en.NoInline = func(g *ssa.Function) bool { return inPkg(g, Mod) || inPkg(g, Mod+"/internal/notification") }
		canReject := false
		for _, g := range w.closure(f) {
			canReject = canReject || rejects(g)
		}
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Kind != "call" && k.Kind != "defer" || k.Sig == nil {
				return nil, false
			}
			where := w.Pos(k.Site.Pos())
			if k.Name == "github.com/hibiken/asynq.GetRetryCount" {
				en.opaque(k.F, st, k)
				st.vals["retries"] = en.Res(st, k, 0)
				return []*State{st}, true
			}
			if k.Fn == nil || !inPkg(k.Fn, Mod) {
				if ErrIndex(k.Sig) >= 0 && (k.Name == "encoding/json.Unmarshal" || strings.HasPrefix(k.Name, "encoding/json")) {
					ok, fail := en.Fork(st, k)
					fail.Add("unread")
					return []*State{ok, fail}, true
				}
				return nil, false
			}
			if dupPredicate(k.Fn) {
				if e := st.vals["err"]; e != nil && len(k.Args) == 1 && k.Args[0].key == e.key {
					en.opaque(k.F, st, k)
					yes, no := st, st.Clone()
					t := en.Res(yes, k, 0)
					en.setKind(yes, t, "true")
					en.setKind(no, t, "false")
					yes.Add("dup")
					return []*State{yes, no}, true
				}
				return nil, false
			}
			ei := ErrIndex(k.Sig)
			if ei < 0 || !changes[k.Fn] {
				return nil, false
			}
			if rejects(k.Fn) {
				c.Check(st.Has("cause"), "reject", name, where, "the transaction is rejected on a path on which neither what the failure says nor the attempts made so far was found to call for it")
				ok, fail := en.Fork(st, k)
				ok.Add("rejected")
				fail.Add("rejectfailed")
				return []*State{ok, fail}, true
			}
			boolFirst := k.Sig.Results().Len() == 2 && k.Sig.Results().At(0).Type().String() == "bool"
			if boolFirst && len(argsOfType(k, txnPtr)) > 0 {
				// an optional way of doing it
				ok, fail := en.Fork(st, k)
				t := en.Res(ok, k, 0)
				no := ok.Clone()
				en.setKind(ok, t, "true")
				en.setKind(no, t, "false")
				ok.Add("done")
				no.Del("done")
				fail.Del("done")
				t2 := en.Res(fail, k, 0)
				no2 := fail
				en.setKind(no2, t2, "false")
				return []*State{ok, no, no2}, true
			}
			ok, fail := en.Fork(st, k)
			ok.Add("done")
			fail.Del("done")
			fail.Add("failed")
			fail.vals["err"] = en.Res(fail, k, ei)
			if boolFirst {
				fail.vals["again"] = en.Res(fail, k, 0)
			}
			return []*State{ok, fail}, true
		}
		en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, fr *Frame) {
			for cond.Op == "un" && cond.Name == "!" {
				cond, taken = cond.Args[0], !taken
			}
			if a := st.vals["again"]; a != nil && cond.key == a.key && !taken {
				st.Add("final")
			}
			e, n := st.vals["err"], st.vals["retries"]
			if cond.Op == "bin" {
				if n != nil && cond.Name == "<" && len(cond.Args) == 2 {
					switch sg := signIn(cond.Args[0], n) - signIn(cond.Args[1], n); {
					case sg > 0 && !taken, sg < 0 && taken:
						st.Add("cause")
						st.Add("exhausted")
					case sg != 0:
						st.Add("more")
					}
				}
				switch {
				case cond.Name == "<" && !taken && cond.Args[0].String() == "0" && strings.Contains(cond.Args[1].String(), "Retry"):
					st.Add("bound") // no bound is configured
				case cond.Name == "==" && taken:
					for i := 0; i < 2; i++ {
						if t := cond.Args[1-i]; cond.Args[i].String() == "nil" && (t.V == nil || !isErr(t.V.Type())) {
							st.Add("bound") // nothing is configured
						}
						if s, ok := cond.Args[i].Str(); ok && s == "" {
							st.Add("empty")
						}
					}
				}
				return
			}
			if taken && e != nil && deepMention(cond, func(t *Term) bool { return t.key == e.key }) && !dupCall(cond) {
				st.Add("cause")
			}
		}
		en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, fr *Frame) {
			where := w.Pos(in.Pos())
			kind := "unknown"
			if len(res) == 1 {
				kind = en.Kind(st, res[0])
			}
			settled := st.Has("done") || st.Has("failed") && (st.Has("dup") || st.Has("final") || st.Has("rejected"))
			switch {
			case kind == "nonnil":
				if canReject && st.Has("failed") && !st.Has("rejectfailed") {
					c.Check(st.Has("more") || st.Has("bound") || st.Has("rejected"), "reject", name+" exhausted", where, "a failing transaction is handed back to the queue without looking at how often it was tried: once its attempts are used up it is left without a rejection")
					c.Check(!st.Has("exhausted") || st.Has("rejected"), "reject", name+" exhausted", where, "a transaction whose attempts are used up is handed back to the queue instead of being rejected")
				} else {
					c.Ok("worker", name+" failed", where)
				}
			case st.Has("unread"):
				c.Check(settled || kind != "nil" || st.Has("empty") && !st.Has("failed"), "worker", name+" unread", where, "a task that could not be read is acknowledged")
			default:
				c.Check(settled || st.Has("empty") && !st.Has("failed"), "worker", name, where, "the task is acknowledged although the operation neither succeeded, was found done, is recorded as rejected nor is known to be pointless to repeat")
			}
		}
		en.Run(f, nil)
		c.Engine(en)
	}
}

// signIn: whether the term grows (1) or falls (-1) with another it is made of by addition and subtraction.
func signIn(t, n *Term) int {
	if t.key == n.key {
		return 1
	}
	if t.Op == "conv" && len(t.Args) == 1 {
		return signIn(t.Args[0], n)
	}
	if t.Op == "bin" && len(t.Args) == 2 {
		switch t.Name {
		case "+":
			return signIn(t.Args[0], n) + signIn(t.Args[1], n)
		case "-":
			return signIn(t.Args[0], n) - signIn(t.Args[1], n)
		}
	}
	return 0
}

func dupCall(t *Term) bool {
	k, ok := t.V.(*ssa.Call)
	return ok && dupPredicate(k.Call.StaticCallee())
}

func (c *Ctx) taskIDs() {
	w := c.W
	for _, f := range w.Funcs {
		if !onQueue(f) || f.Object() == nil || !f.Object().Exported() || f.Blocks == nil {
			continue
		}
		has := false
		for i := 0; i < f.Signature.Params().Len(); i++ {
			has = has || f.Signature.Params().At(i).Type().String() == txnPtr
		}
		adds := false
		marshals := false
		for _, g := range w.closure(f) {
			if onQueue(g) {
				adds = adds || callsNamed(g, func(n string) bool { return strings.HasPrefix(n, "(*github.com/hibiken/asynq.Client).Enqueue") })
			}
			marshals = marshals || g == f && callsNamed(g, func(n string) bool { return n == "encoding/json.Marshal" })
		}
		if !has || !adds || !marshals {
			continue
		}
		f := f
		name := fnName(f)
		en := NewEngine(w)
		en.MaxDepth = 4
		en.Relevant = map[*ssa.Function]bool{}
		for _, g := range w.Funcs {
			if inPkg(g, Mod) && (onQueue(g) || callsNamed(g, func(n string) bool { return strings.HasPrefix(n, "github.com/hibiken/asynq.") })) {
				en.Relevant[g] = true
			}
		}
		en.NoInline = func(g *ssa.Function) bool { return !inPkg(g, Mod) }
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			where := w.Pos(k.Site.Pos())
			switch {
			case k.Name == "github.com/hibiken/asynq.TaskID" && len(k.Args) == 1:
				if a := k.Args[0].Strip(); a.Op == "load" && len(a.Args) > 0 && a.Args[0].Op == "field" && a.Args[0].Name == "TransactionID" {
					st.Add("id")
				} else if strings.Contains(k.Args[0].String(), "TransactionID") {
					st.Add("id")
				}
			case strings.HasPrefix(k.Name, "(*github.com/hibiken/asynq.Client).Enqueue"):
				c.Check(st.Has("id"), "task-id", name, where, "the task is added without the identifier of the transaction as its own: adding it again would make a second task")
				ok, fail := en.Fork(st, k)
				fail.Add("failed")
				return []*State{ok, fail}, true
			}
			return nil, false
		}
		en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, fr *Frame) {
			if st.Has("failed") && len(res) > 0 {
				c.Check(en.Kind(st, res[len(res)-1]) == "nonnil", "task-id", name+" failure", w.Pos(in.Pos()), "a task that could not be added is reported as queued")
			}
		}
		en.Run(f, nil)
		c.Engine(en)
	}
}

func ruleT11(c *Ctx) {
	c.Rule("query", "What recovery takes up is read by status QUEUED, stored before a moment that lies the threshold in the past, and without any transaction that has it as parent.")
	c.Rule("min-age", "The threshold given on request is never less than two minutes; the periodic one is a fixed duration of at least that.")
	c.Rule("attempts", "A stuck transaction is executed only where its attempts were found within the bound, and rejected only where they were found beyond it.")
	c.Rule("counted", "Each execution is followed by storing the incremented number of attempts with the stuck transaction under the key it is read from.")
	c.Rule("copy", "Recovery executes or rejects a copy with an identifier of its own, the stuck transaction as parent and the derived reference; the flags kept in the metadata are read back first.")
	c.Floor("query", 4)
	c.Floor("min-age", 2)
	c.Floor("attempts", 3)
	c.Floor("counted", 2)
	c.Floor("copy", 3)
	c.suffixes = map[string]string{}
	w := c.W
	fetch := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if !inPkg(f, Mod+"/database") || isMock(f) || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() == nil || !fetchSig(f.Signature) {
			continue
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if f.Signature.Params().At(i).Type().String() == "time.Duration" {
				fetch[f] = true
			}
		}
	}
	if len(fetch) == 0 {
		c.Fail("query", "fetcher", "", "no method that reads transactions by their age was found")
		return
	}
	for f := range fetch {
		c.stuckQuery(f)
	}
	c.stuckAge(fetch)
	c.stuckRuns(fetch)
}

var cutoffCond = regexp.MustCompile(`^created_at <=? \$(\d+)$|^\$(\d+) >=? created_at$`)

var qualified = regexp.MustCompile(`\b[a-z_]+\.([a-z_]+)`)

// plainConj: a condition without the qualification of its columns.
func plainConj(ts []Tok) string {
	s := strings.ReplaceAll(strings.ToLower(tokStr(ts)), " . ", ".")
	return strings.Join(strings.Fields(qualified.ReplaceAllString(s, "$1")), " ")
}

func (c *Ctx) stuckQuery(f *ssa.Function) {
	w := c.W
	name := fnName(f)
	where := w.Pos(f.Pos())
	in := w.ReachableFrom(f)
	n := 0
	for _, s := range w.CollectSQL().Sites {
		if s.Fn != f && !in[s.Fn] {
			continue
		}
		for _, e := range s.Events {
			if e.Stmt == nil || e.Stmt.Kind != "SELECT" {
				continue
			}
			n++
			var status, none bool
			arg := 0
			for _, q := range []*Stmt{e.Stmt} {
				for _, cj := range q.Where {
					t := plainConj(cj)
					switch {
					case t == "status = 'queued'":
						status = true
					case cutoffCond.MatchString(t):
						m := cutoffCond.FindStringSubmatch(t)
						for _, x := range m[1:] {
							for _, d := range x {
								arg = arg*10 + int(d-'0')
							}
						}
					case strings.HasPrefix(t, "not exists") || strings.HasPrefix(t, "not (exists"):
						raw := strings.ReplaceAll(strings.ToLower(tokStr(cj)), " . ", ".")
						none = correlated.MatchString(strings.Join(strings.Fields(raw), " ")) && len(q.From) > 0 && !strings.Contains(t, " and ") && !strings.Contains(t, "limit 0")
					}
				}
			}
			c.Check(status, "query", name+" status", where, "transactions that are not queued are taken up")
			c.Check(none, "query", name+" outcome", where, "transactions that already have an outcome are taken up")
			ok := arg > 0 && e.ArgsOK && arg <= len(e.Args)
			c.Check(ok, "query", name+" age", where, "transactions are taken up however young they are")
			if ok {
				c.Check(pastBy(e.Args[arg-1], "time.Duration"), "query", name+" cutoff", where, "the moment before which transactions are taken up is not the threshold before now: %s", e.Args[arg-1])
			}
		}
	}
	if n == 0 {
		c.Fail("query", name, where, "the statement that reads stuck transactions could not be read")
	}
}

var correlated = regexp.MustCompile(`where (\w+)\.parent_transaction = (\w+)\.transaction_id|where (\w+)\.transaction_id = (\w+)\.parent_transaction`)

// pastBy: now less a parameter of the type.
func pastBy(t *Term, typ string) bool {
	now := deepMention(t, func(x *Term) bool { return x.Name == "time.Now" })
	neg := false
	deepMention(t, func(x *Term) bool {
		as := append(append([]*Term{}, x.Args...), x.CArg...)
		if strings.HasSuffix(x.Name, "time.Time).Add") && len(as) == 2 {
			neg = negParam(as[1], typ)
		}
		return false
	})
	return now && neg
}

func negParam(t *Term, typ string) bool {
	isParam := func(x *Term) bool {
		x = x.Strip()
		return x.Op == "param" && x.V != nil && x.V.Type().String() == typ
	}
	if t.Op == "conv" {
		return negParam(t.Args[0], typ)
	}
	if t.Op == "un" && t.Name == "-" {
		return isParam(t.Args[0])
	}
	if t.Op == "bin" && len(t.Args) == 2 {
		l, r := t.Args[0], t.Args[1]
		switch t.Name {
		case "-":
			return l.String() == "0" && isParam(r)
		case "*":
			return isParam(l) && strings.HasPrefix(r.String(), "-") || isParam(r) && strings.HasPrefix(l.String(), "-")
		}
	}
	return false
}

const minAge = int64(2 * 60 * 1000000000)

func constI(t *Term) (int64, bool) {
	k, ok := t.V.(*ssa.Const)
	if !ok || k.Value == nil || t.Op != "const" {
		return 0, false
	}
	if b, ok := k.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	return k.Int64(), true
}

func (c *Ctx) stuckAge(fetch map[*ssa.Function]bool) {
	w := c.W
	reach := w.Reaches(func(f *ssa.Function) bool { return fetch[f] })
	for _, r := range w.Funcs {
		if !inPkg(r, Mod) || isMock(r) || !reach[r] || r.Parent() != nil || r.Blocks == nil {
			continue
		}
		dur := false
		for i := 0; i < r.Signature.Params().Len(); i++ {
			dur = dur || r.Signature.Params().At(i).Type().String() == "time.Duration"
		}
		top := true
		if r.Object() == nil || !r.Object().Exported() || !dur {
			// otherwise from the functions in which the threshold is no parameter
			top = false
			if !dur {
				for _, g := range w.refs[r] {
					if reach[g] && g.Signature.Params().Len() > 0 {
						for i := 0; i < g.Signature.Params().Len(); i++ {
							top = top || g.Signature.Params().At(i).Type().String() == "time.Duration"
						}
					}
				}
			}
		}
		if !top {
			continue
		}
		r := r
		name := fnName(r)
		en := NewEngine(w)
		en.MaxDepth = 6
		en.Relevant = map[*ssa.Function]bool{}
		for _, f := range w.Funcs {
			if inPkg(f, Mod) && reach[f] {
				en.Relevant[f] = true
			}
		}
		en.NoInline = func(f *ssa.Function) bool { return !inPkg(f, Mod) || isMock(f) }
		en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, fr *Frame) {
			for cond.Op == "un" && cond.Name == "!" {
				cond, taken = cond.Args[0], !taken
			}
			if cond.Op != "bin" || cond.Name != "<" {
				return
			}
			if v, ok := constI(cond.Args[1]); ok && !taken && v >= minAge {
				st.Add("aged:" + cond.Args[0].key)
			}
			if v, ok := constI(cond.Args[0]); ok && taken && v >= minAge {
				st.Add("aged:" + cond.Args[1].key)
			}
		}
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if !hitsAny(k, fetch) {
				return nil, false
			}
			for _, a := range argsOfType(k, "time.Duration") {
				v, ok := constI(a)
				good := ok && v >= minAge || st.Has("aged:"+a.key) || en.W.fixedAge(a) || clampedAge(a)
				c.Check(good, "min-age", name, w.Pos(k.Site.Pos()), "stuck transactions are looked for with the threshold %s, which may be less than two minutes: work in progress would be taken up", a)
			}
			ok, fail := en.Fork(st, k)
			return []*State{ok, fail}, true
		}
		en.Run(r, nil)
		c.Engine(en)
	}
}

// clampedAge: the greater of a value and a sufficient constant.
func clampedAge(t *Term) bool {
	if strings.HasSuffix(t.Name, "max") {
		for _, a := range append(append([]*Term{}, t.Args...), t.CArg...) {
			if v, ok := constI(a); ok && v >= minAge {
				return true
			}
		}
	}
	return false
}

// fixedAge: a field that is only ever given sufficient constants.
func (w *World) fixedAge(t *Term) bool {
	if t.Op != "field" && t.Op != "load" {
		return false
	}
	name := t.String()[strings.LastIndex(t.String(), ".")+1:]
	n, good := 0, true
	for _, f := range w.Funcs {
		if isMock(f) {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || st.Val.Type().String() != "time.Duration" || fieldName(fa.X.Type(), fa.Field) != name {
				return
			}
			n++
			k, ok := st.Val.(*ssa.Const)
			good = good && ok && k.Value != nil && k.Int64() >= minAge
		})
	}
	return n > 0 && good
}

func (c *Ctx) stuckRuns(fetch map[*ssa.Function]bool) {
	w := c.W
	rf := w.Reaches(func(f *ssa.Function) bool { return fetch[f] })
	persists := func(k *Call) bool {
		return strings.HasSuffix(k.Name, ".UpdateTransactionMetadata") || k.Method() == "UpdateTransactionMetadata"
	}
	rec := w.recorders()
	rejects := func(f *ssa.Function) bool {
		return f != nil && inPkg(f, Mod) && w.api(f) && rec[f] && strings.Contains(f.Name(), "Reject")
	}
	hasMeta := w.Reaches(func(f *ssa.Function) bool {
		return inPkg(f, Mod+"/database") && f.Name() == "UpdateTransactionMetadata"
	})
	rr := w.Reaches(rejects)
	below := map[*ssa.Function]bool{}
	for f := range rf {
		if inPkg(f, Mod) && !isMock(f) {
			below[f] = true
			avoid := func(g *ssa.Function) bool { return w.api(g) && inPkg(g, Mod) && !rf[g] }
			for g := range w.ReachableAvoiding(avoid, f) {
				if inPkg(g, Mod) && !isMock(g) {
					below[g] = true
				}
			}
		}
	}
	roots := 0
	for f := range w.lowest(hasMeta, rr) {
		if !below[f] || rf[f] || w.api(f) {
			continue
		}
		takes := -1
		for i, p := range f.Params {
			if p.Type().String() == txnPtr {
				takes = i
			}
		}
		if takes < 0 {
			continue
		}
		roots++
		f := f
		name := fnName(f)
		en := NewEngine(w)
		en.SmallMax, en.MaxDepth = 6, 6
		en.Relevant = map[*ssa.Function]bool{}
		for _, g := range w.Funcs {
			if inPkg(g, Mod) && !isMock(g) && !w.api(g) && (below[g] || w.setsField(g, "ParentTransaction") || w.setsField(g, "Inflight")) {
				en.Relevant[g] = true
			}
		}
		en.NoInline = func(g *ssa.Function) bool {
			return inPkg(g, Mod+"/database") || isMock(g) || w.generates(g) || inPkg(g, Mod) && w.api(g) && g != f || rec[g]
		}
		stuck := func(st *State) *Term { return st.vals["stuck"] }
		en.H.Instr = func(en *Engine, st *State, in ssa.Instruction, fr *Frame) {
			if fr.Fn == f && st.vals["stuck"] == nil {
				st.vals["stuck"] = en.mk("param", f.Params[takes].Name(), f.Params[takes], nil)
			}
			if l, ok := in.(*ssa.Lookup); ok {
				if k, ok := l.Index.(*ssa.Const); ok && k.Value != nil {
					st.Add("looked:" + unq(k.Value.ExactString()))
				}
			}
		}
		isCopy := func(en *Engine, st *State, a *Term, what, where string) {
			p, suffix, ok := en.queueCopy(st, a)
			good := ok && stuck(st) != nil
			if good {
				id := p.Strip()
				good = id.key == en.field(st, stuck(st), "TransactionID").key || strings.HasSuffix(p.String(), ".TransactionID") && strings.HasPrefix(p.String(), f.Params[takes].Name())
				c.suffixes[suffix] = where
			}
			c.Check(good, "copy", name+" "+what, where, "what is %s is not a copy of the stuck transaction with an identifier of its own and the derived reference", what)
		}
		en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, fr *Frame) {
			for cond.Op == "un" && cond.Name == "!" {
				cond, taken = cond.Args[0], !taken
			}
			if cond.Op == "bin" && cond.Name == "==" && taken {
				for i := 0; i < 2; i++ {
					if cond.Args[i].String() == "nil" && (strings.HasSuffix(cond.Args[1-i].String(), ".MetaData") || cond.Args[1-i].String() == f.Params[takes].Name()) {
						st.Add("nometa")
					}
				}
			}
			if cond.Op != "bin" || cond.Name != "<" {
				return
			}
			for i := 0; i < 2; i++ {
				bound, n := cond.Args[i], cond.Args[1-i]
				if !isBound(bound) {
					continue
				}
				st.vals["attempts"] = n
				if over := (i == 0) == taken; over {
					st.Add("over")
				} else {
					st.Add("within")
				}
			}
		}
		en.H.MapUpd = func(en *Engine, st *State, m, k, v *Term, in ssa.Instruction, fr *Frame) {
			key, ok := k.Str()
			n := st.vals["attempts"]
			if ok && n != nil && v.Strip().key == n.Strip().key && strings.HasSuffix(m.String(), "MetaData") || ok && n != nil && v.Strip().key == n.Strip().key {
				st.Add("stored:" + key)
			}
		}
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Kind != "call" && k.Kind != "defer" || k.Sig == nil {
				return nil, false
			}
			where := w.Pos(k.Site.Pos())
			txns := argsOfType(k, txnPtr)
			switch {
			case rejects(k.Fn):
				c.Check(st.Has("over"), "attempts", name+" reject", where, "a stuck transaction is rejected on a path on which its attempts were not found to be used up")
				for _, a := range txns {
					isCopy(en, st, a, "rejected", where)
				}
				ok, fail := en.Fork(st, k)
				return []*State{ok, fail}, true
			case persists(k):
				good := false
				for _, a := range k.Args {
					if stuck(st) != nil && (a.key == en.field(st, stuck(st), "TransactionID").key || a.String() == f.Params[takes].Name()+".TransactionID") {
						good = true
					}
				}
				read := ""
				for _, fct := range st.Facts() {
					if strings.HasPrefix(fct, "stored:") && (st.Has("looked:"+fct[7:]) || st.Has("nometa")) {
						read = fct
					}
				}
				if good && read != "" {
					st.Add("counted")
				}
				ok, fail := en.Fork(st, k)
				return []*State{ok, fail}, true
			case len(txns) > 0 && ErrIndex(k.Sig) >= 0 && (k.Fn == nil && k.Iface == "" || k.Fn != nil && inPkg(k.Fn, Mod) && rec[k.Fn] || k.Fn != nil && w.executes(k.Fn) && !below[k.Fn]):
				c.Check(st.Has("within"), "attempts", name+" execute", where, "a stuck transaction is executed on a path on which its attempts were not found within the bound")
				n := st.vals["attempts"]
				c.Check(n != nil && counts(n), "attempts", name+" increment", where, "the number of attempts that is compared does not count this one: %s", n)
				for _, a := range txns {
					isCopy(en, st, a, "executed", where)
				}
				c.Check(st.Has("nometa") || st.Has("looked:inflight") && st.Has("looked:allow_overdraft"), "copy", name+" flags", where, "the stuck transaction is executed without its inflight and overdraft flags having been read back from its metadata")
				ok, fail := en.Fork(st, k)
				ok.Add("executed")
				fail.Add("executed")
				ok.Add("succeeded")
				return []*State{ok, fail}, true
			}
			return nil, false
		}
		en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, fr *Frame) {
			if st.Has("executed") {
				what := " failed"
				if st.Has("succeeded") {
					what = " succeeded"
				}
				c.Check(st.Has("counted"), "counted", name+what, w.Pos(in.Pos()), "an attempt at recovering a transaction ends without the number of attempts being stored under the key it is read from")
			}
		}
		en.Run(f, nil)
		c.Engine(en)
	}
	if roots == 0 {
		c.Fail("attempts", "recovery", "", "the function that takes up one stuck transaction was not found")
	}
}

// executes: an own function that records transactions with balances.
func (w *World) executes(f *ssa.Function) bool {
	return inPkg(f, Mod) && w.Reaches(func(g *ssa.Function) bool { with, _ := w.txnInserts(); return with[g] })[f]
}

// isBound: a configured limit.
func isBound(t *Term) bool {
	s := strings.ToLower(t.String())
	if strings.Contains(s, "+ 1") || strings.Contains(s, "metadata") {
		return false
	}
	return strings.Contains(s, "max") || strings.Contains(s, "limit") || strings.Contains(s, "attempts") && t.Op == "load"
}

// counts: a positive constant or something to which one was added.
func counts(t *Term) bool {
	if v, ok := constI(t.Strip()); ok {
		return v >= 1
	}
	t = t.Strip()
	if t.Op == "bin" && t.Name == "+" {
		for _, a := range t.Args {
			if v, ok := constI(a); ok && v >= 1 {
				return true
			}
		}
	}
	return false
}
