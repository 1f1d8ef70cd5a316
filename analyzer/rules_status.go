package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["T09"] = ruleT09 }

var liveStatuses = []string{"QUEUED", "APPLIED", "SCHEDULED", "COMMIT", "VOID"}

// constMap: the constant entries of the map a lookup is made in, when nothing else is ever put into it.
func (w *World) constMap(v ssa.Value) map[string]string {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if g, ok := x.X.(*ssa.Global); ok {
				return w.globalMap(g)
			}
			if a, ok := x.X.(*ssa.Alloc); ok {
				if s := onlyStore(a); s != nil {
					v = s.Val
					continue
				}
			}
			return nil
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.MakeMap:
			r := map[string]string{}
			for _, u := range *x.Referrers() {
				switch y := u.(type) {
				case *ssa.MapUpdate:
					k, ok1 := y.Key.(*ssa.Const)
					e, ok2 := y.Value.(*ssa.Const)
					if !ok1 || !ok2 || k.Value == nil || e.Value == nil {
						return nil
					}
					r[unq(k.Value.ExactString())] = unq(e.Value.ExactString())
				case *ssa.Lookup, *ssa.DebugRef:
				case *ssa.Store:
					if _, ok := y.Addr.(*ssa.Alloc); !ok {
						return nil
					}
				default:
					return nil
				}
			}
			return r
		default:
			return nil
		}
	}
	return nil
}

func onlyStore(a *ssa.Alloc) *ssa.Store {
	var r *ssa.Store
	for _, u := range *a.Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
			if r != nil {
				return nil
			}
			r = s
		}
	}
	return r
}

// statusValues: the values a status term may have under what is known; ok is false if it cannot be told.
func (en *Engine) statusValues(st *State, t *Term) (vals []string, ok bool) {
	if s, isS := t.Str(); isS {
		return []string{s}, true
	}
	told := ""
	if k := en.Kind(st, t); strings.HasPrefix(k, `="`) {
		told = strings.Trim(k, `="`)
		defer func() {
			if !ok {
				vals, ok = []string{told}, true
			}
		}()
	}
	excluded := func(t *Term, v string) bool {
		_, x := st.known[t.key+`≠"`+v+`"`]
		return x || told != "" && v != told
	}
	x := t
	if x.Op == "res" && len(x.Args) > 0 {
		x = x.Args[0]
	}
	if x.Op != "lookup" {
		return nil, false
	}
	mt := x.Args[0].Strip()
	var m map[string]string
	if g, isG := mt.V.(*ssa.Global); isG {
		m = en.W.globalMap(g)
	} else if mt.V != nil {
		m = en.W.constMap(mt.V)
	}
	if m == nil {
		return nil, false
	}
	keys := map[string]bool{}
	for _, s := range liveStatuses {
		keys[s] = true
	}
	for s := range m {
		keys[s] = true
	}
	from := x.Args[1]
	if in, ok := en.statusValues(st, from); ok {
		keys = map[string]bool{}
		for _, s := range in {
			keys[s] = true
		}
	} else if s, isS := from.Str(); isS {
		keys = map[string]bool{s: true}
	} else if k := en.Kind(st, from); strings.HasPrefix(k, `="`) {
		keys = map[string]bool{strings.Trim(k, `="`): true}
	}
	set := map[string]bool{}
	for k := range keys {
		if _, x := st.known[from.key+`≠"`+k+`"`]; x {
			continue
		}
		v := m[k] // a missing key makes the empty status
		if !excluded(t, v) && !excluded(x, v) {
			set[v] = true
		}
	}
	for v := range set {
		vals = append(vals, v)
	}
	sort.Strings(vals)
	return vals, true
}

func ruleT09(c *Ctx) {
	c.Rule("effect", "on every path on which a movement is applied to balances and recorded, the record's status is VOID after a release, APPLIED after a commit, and otherwise INFLIGHT if the transaction was seen to be inflight and APPLIED if it was seen not to be")
	c.Rule("pending", "a transaction recorded without a change of balances has the status QUEUED, SCHEDULED or REJECTED (or the non-empty one its caller gave it)")
	c.Rule("rejected", "the operation that rejects records the transaction with status REJECTED through the insert that changes no balance, and nothing else")
	c.Rule("identity", "a transaction queued has an id (generated if it had none) and a computed hash before it is recorded; each leg of a split, and each commit or void, gets a newly generated id and a computed hash")
	c.Floor("effect", 3)
	c.Floor("pending", 2)
	c.Floor("rejected", 1)
	c.Floor("identity", 5)
	c.effectStatus()
	c.pendingStatus()
	c.splitIdentity()
}

// balanceInserts and plainInserts: exported storage methods that record transactions with and without storing balance totals.
func (w *World) txnInserts() (with, plain map[*ssa.Function]bool) {
	with, plain = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	stores := w.storesTotals()
	for _, f := range w.Funcs {
		if !inPkg(f, Mod+"/database") || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() == nil || isMock(f) || !w.insertsTxn(f) {
			continue
		}
		if stores[f] {
			with[f] = true
		} else {
			plain[f] = true
		}
	}
	return
}

func (c *Ctx) effectStatus() {
	w := c.W
	apply := w.appliers()
	with, _ := w.txnInserts()
	stores := w.storesTotals()
	ra := w.Reaches(func(f *ssa.Function) bool { return apply[f] })
	rw := w.Reaches(func(f *ssa.Function) bool { return with[f] })
	roots := w.lowest(w.Reaches(func(f *ssa.Function) bool { return stores[f] }), ra)
	setsStatus := w.Reaches(w.identifies)
	for _, r := range sortedFns(roots) {
		r := r
		en := NewEngine(w)
		en.SmallMax, en.MaxDepth = 6, 10
		en.Relevant = map[*ssa.Function]bool{}
		for _, f := range w.Funcs {
			if !inPkg(f, Mod+"/database") && !isMock(f) && (ra[f] || rw[f] || setsStatus[f] && w.ownHelper(f)) {
				en.Relevant[f] = true
			}
		}
		en.NoInline = func(f *ssa.Function) bool {
			return inPkg(f, Mod+"/database") || isMock(f) || inPkg(f, lockPkg) || apply[f]
		}
		judge := func(st *State, where string) {
			con := fnName(r) + " " + st.one("moved:")
			s := st.vals["status"]
			txn := st.vals["moved"]
			if s == nil || txn == nil {
				c.Fail("effect", con, where, "a movement is recorded on a path on which the transaction is not given the status of its effect")
				return
			}
			if !st.Has("statusknown") {
				c.Fail("effect", con, where, "the status recorded is %s, which is not one of a known set", s)
				return
			}
			var vals []string
			told := strings.Trim(en.Kind(st, s), `="`)
			for _, f := range st.Facts() {
				if strings.HasPrefix(f, "status:") && (!strings.HasPrefix(en.Kind(st, s), `="`) || f[7:] == told) {
					vals = append(vals, f[7:])
				}
			}
			if len(vals) == 0 {
				return // no transaction takes this path
			}
			infl := st.one("inflight:")
			want := ""
			switch {
			case st.Has("moved:void"):
				want = "VOID"
			case st.Has("moved:commit"):
				want = "APPLIED"
			case infl == "true":
				want = "INFLIGHT"
			case infl == "false":
				want = "APPLIED"
			default:
				c.Fail("effect", con, where, "a movement is recorded as %v without regard to whether it is inflight", vals)
				return
			}
			bad := false
			for _, v := range vals {
				// a released or committed hold that is still marked inflight cannot occur: the operations clear the mark (rule identity)
				bad = bad || v != want && !(v == "INFLIGHT" && want != "APPLIED" || v == "INFLIGHT" && st.Has("marked") && !st.Has("moved:plain"))
			}
			c.Check(!bad, "effect", con, where, "the movement (%s, inflight %s) is recorded with status %q, not %s", st.one("moved:"), infl, vals, want)
		}
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Fn != nil && apply[k.Fn] && len(k.Args) > 0 {
				kind := "plain"
				switch {
				case strings.HasPrefix(k.Fn.Name(), "CommitInflight"):
					kind = "commit"
				case strings.HasPrefix(k.Fn.Name(), "RollbackInflight"):
					kind = "void"
				}
				keep := map[*Term]*Term{}
				for _, a := range argsOfType(k, txnPtr) {
					for _, n := range []string{"Status", "Inflight"} {
						if !w.setsField(k.Fn, n) {
							keep[en.mk("field", n, nil, nil, a)] = en.field(st, a, n)
						}
					}
				}
				out := []*State{st}
				if k.Sig.Results().Len() > 0 {
					ok, fail := en.Fork(st, k)
					fail.Add("failed")
					out = []*State{ok, fail}
				}
				for _, o := range out {
					for a, v := range keep {
						en.SetMem(o, a, v)
					}
				}
				st = out[0]
				for _, a := range argsOfType(k, txnPtr) {
					st.vals["moved"] = a
					st.vals["inflight"] = en.field(st, a, "Inflight")
					st.DelPrefix("inflight:")
					if kd := en.Kind(st, st.vals["inflight"]); kd == "true" || kd == "false" {
						st.Add("inflight:" + kd)
					}
				}
				st.Add("moved:" + kind)
				if st.vals["moved"] == nil {
					st.vals["moved"] = k.Args[0]
				}
				return out, true
			}
			if hitsAny(k, with) {
				if !st.HasPrefix("moved:") { // the batch: judged transaction by transaction
					ok, fail := en.Fork(st, k)
					return []*State{ok, fail}, true
				}
				judge(st, w.Pos(k.Site.Pos()))
				ok, fail := en.Fork(st, k)
				ok.DelPrefix("moved:")
				fail.DelPrefix("moved:")
				return []*State{ok, fail}, true
			}
			return nil, false
		}
		en.H.Store = func(en *Engine, st *State, addr, val *Term, in ssa.Instruction, f *Frame) {
			if addr.Op == "field" && addr.Name == "Status" && isTxnObj(in) {
				st.vals["status"] = val
				st.DelPrefix("status")
				if vals, ok := en.statusValues(st, val); ok {
					st.Add("statusknown")
					for _, v := range vals {
						st.Add("status:" + v)
					}
				}
			}
		}
		en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
			t := cond
			for t.Op == "un" && t.Name == "!" {
				t = t.Args[0]
			}
			if s := t.Strip(); s.Op == "field" && s.Name == "Inflight" && taken == (t == cond) {
				st.Add("marked")
			}
			if s := t.Strip(); s.Op == "field" && s.Name == "Inflight" {
				st.vals["seen:"+t.key] = t
				if t == st.vals["inflight"] {
					st.DelPrefix("inflight:")
					st.Add("inflight:" + en.Kind(st, t))
				}
			}
		}
		en.H.Edge = func(en *Engine, st *State, from, to *ssa.BasicBlock, f *Frame) {
			if body := loopBlocks(from); body != nil && body[to] && (ra[f.Fn]) {
				st.DelPrefix("moved:")
				delete(st.vals, "status")
				delete(st.vals, "inflight")
				st.DelPrefix("status")
				st.DelPrefix("inflight:")
				for n := range st.vals {
					if strings.HasPrefix(n, "seen:") {
						delete(st.vals, n)
					}
				}
				st.Del("marked")
			}
		}
		en.H.Header = func(en *Engine, st *State, from, to *ssa.BasicBlock, f *Frame, _ []PhiSub) {
			if st.HasPrefix("moved:") && ra[f.Fn] {
				if body := loopBlocks(to); body != nil && body[from] {
					judge(st, w.Pos(f.Fn.Pos()))
				}
			}
		}
		en.Run(r, nil)
		c.Engine(en)
	}
}

// setsField: the function, or one it calls, stores this field of a transaction.
func (w *World) setsField(f *ssa.Function, name string) bool {
	r := false
	for _, g := range w.closure(f) {
		Instrs(g, func(in ssa.Instruction) {
			if isTxnObj(in) {
				fa := in.(*ssa.Store).Addr.(*ssa.FieldAddr)
				r = r || fieldName(fa.X.Type(), fa.Field) == name
			}
		})
	}
	return r
}

// one: the rest of the first fact with this prefix.
func (st *State) one(p string) string {
	r := ""
	for _, f := range st.Facts() {
		if strings.HasPrefix(f, p) && f[len(p):] > r {
			r = f[len(p):]
		}
	}
	return r
}

// identifies: sets the status, id or hash of a transaction.
func (w *World) identifies(f *ssa.Function) bool {
	r := false
	if isMock(f) || !inPkg(f, Mod) {
		return false
	}
	Instrs(f, func(in ssa.Instruction) {
		if isTxnObj(in) {
			fa := in.(*ssa.Store).Addr.(*ssa.FieldAddr)
			switch fieldName(fa.X.Type(), fa.Field) {
			case "Status", "TransactionID", "Hash", "Inflight":
				r = true
			}
		}
	})
	return r
}

// ownHelper: a function of the main package that is not an operation of its own.
func (w *World) ownHelper(f *ssa.Function) bool {
	return inPkg(f, Mod) && !w.api(f)
}

func isTxnObj(in ssa.Instruction) bool {
	s, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := s.Addr.(*ssa.FieldAddr)
	return ok && strings.HasSuffix(fa.X.Type().String(), "model.Transaction")
}

// computed: the text is the result of a call to a function of the model.
func computed(t *Term, pred func(f *ssa.Function) bool) bool {
	t = t.Strip()
	c, ok := t.V.(*ssa.Call)
	if !ok || t.Op != "call" && t.Op != "pure" && t.Op != "opaque" {
		return false
	}
	f := c.Call.StaticCallee()
	return f != nil && pred(unwrap(f))
}

// hashes: a method of a transaction that digests it.
func (w *World) hashes(f *ssa.Function) bool {
	if f == nil || f.Signature.Recv() == nil || !strings.HasSuffix(f.Signature.Recv().Type().String(), "model.Transaction") || f.Signature.Results().Len() != 1 {
		return false
	}
	for _, g := range w.closure(f) {
		if callsNamed(g, func(n string) bool { return strings.HasPrefix(n, "crypto/sha") }) {
			return true
		}
	}
	return false
}

// generates: makes a random identifier.
func (w *World) generates(f *ssa.Function) bool {
	if f == nil || f.Signature.Results().Len() == 0 || f.Signature.Results().At(0).Type().String() != "string" {
		return false
	}
	for _, g := range w.closure(f) {
		if callsNamed(g, func(n string) bool {
			return strings.HasPrefix(n, "github.com/google/uuid.New") || strings.HasPrefix(n, "crypto/rand.")
		}) {
			return true
		}
	}
	return false
}

func (w *World) closure(f *ssa.Function) []*ssa.Function {
	r := []*ssa.Function{f}
	for g := range w.ReachableFrom(f) {
		r = append(r, g)
	}
	return r
}

func (c *Ctx) pendingStatus() {
	w := c.W
	with, plain := w.txnInserts()
	rec := w.recorders()
	inserts := map[*ssa.Function]bool{}
	for f := range with {
		inserts[f] = true
	}
	for f := range plain {
		inserts[f] = true
	}
	rp := w.Reaches(func(f *ssa.Function) bool { return plain[f] })
	roots := map[*ssa.Function]bool{}
	for f := range w.topsOf(plain) {
		roots[f] = true
	}
	// operations that commit or void record through another operation
	for f := range w.topsOf(rec) {
		if !rec[f] {
			roots[f] = true
		}
	}
	rr := w.Reaches(func(f *ssa.Function) bool { return rec[f] })
	makes := w.Reaches(w.identifies)
	for _, r := range sortedFns(roots) {
		r := r
		en := NewEngine(w)
		en.SmallMax, en.MaxDepth = 3, 8
		en.Ignore = func(f string) bool {
			switch f {
			case "Atomic", "AllowOverdraft", "MetaData", "EffectiveDate", "CreatedAt", "PreciseAmount", "Amount", "Precision", "ParentTransaction", "Reference", "Currency":
				return true
			}
			return false
		}
		en.Relevant = map[*ssa.Function]bool{}
		for _, f := range w.Funcs {
			if inPkg(f, Mod) && !isMock(f) && (rp[f] || rr[f] || makes[f]) {
				en.Relevant[f] = true
			}
		}
		en.NoInline = func(f *ssa.Function) bool {
			return inPkg(f, Mod+"/database") || isMock(f) || inPkg(f, lockPkg) || onQueue(f) || rec[f] && f != r ||
				w.hashes(f) || w.generates(f) || f != r && f.Parent() == nil && inPkg(f, Mod) && w.api(f)
		}
		id := func(st *State, con, where string, txn *Term, fresh bool) {
			i := en.field(st, txn, "TransactionID")
			h := en.field(st, txn, "Hash")
			_, given := st.known[i.key+`≠""`]
			c.Check(computed(i, w.generates) || given && !fresh, "identity", con+" id", where, "the transaction is recorded with the id %s, which was not generated and may be empty or another's", i)
			c.Check(computed(h, w.hashes), "identity", con+" hash", where, "the transaction is recorded with the hash %s, which was not computed for it", h)
		}
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Kind != "call" && k.Kind != "defer" {
				return nil, false
			}
			where := w.Pos(k.Site.Pos())
			switch {
			case hitsAny(k, plain):
				for _, a := range argsOfType(k, txnPtr) {
					if st.Has("rejecting") {
						s, _ := en.statusValues(st, en.field(st, a, "Status"))
						c.Check(len(s) == 1 && s[0] == "REJECTED", "rejected", fnName(r), where, "the rejection is recorded with status %s", en.field(st, a, "Status"))
						continue
					}
					s := en.field(st, a, "Status")
					vals, ok := en.statusValues(st, s)
					good := ok && len(vals) > 0
					for _, v := range vals {
						good = good && (v == "QUEUED" || v == "SCHEDULED" || v == "REJECTED")
					}
					_, given := st.known[s.key+`≠""`]
					src := s.Strip()
					given = given && src.Op == "field"
					con := fnName(r)
					if o := a.Strip().Op; o != "param" && o != "alloc" {
						con += " leg"
					}
					c.Check(good || given, "pending", con, where, "a transaction is recorded without any movement under the status %q (%s)", vals, s)
					if a.Strip().Op == "param" || a.Strip().Op == "alloc" {
						id(st, fnName(r), where, a, false)
					}
				}
				ok, fail := en.Fork(st, k)
				return []*State{ok, fail}, true
			case hitsAny(k, with):
				c.Check(!st.Has("rejecting"), "rejected", fnName(r), where, "a rejected transaction is recorded together with balances")
				ok, fail := en.Fork(st, k)
				return []*State{ok, fail}, true
			case hitsAny(k, rec):
				for _, a := range argsOfType(k, txnPtr) {
					s, _ := en.statusValues(st, en.field(st, a, "Status"))
					if len(s) == 1 && (s[0] == "COMMIT" || s[0] == "VOID") {
						id(st, fnName(r)+" "+s[0], where, a, true)
						c.Check(en.Kind(st, en.field(st, a, "Inflight")) == "false", "identity", fnName(r)+" "+s[0]+" inflight", where, "the %s is recorded while it is still marked inflight", s[0])
					}
				}
			}
			return nil, false
		}
		en.H.Store = func(en *Engine, st *State, addr, val *Term, in ssa.Instruction, f *Frame) {
			if addr.Op == "field" && addr.Name == "Status" && isTxnObj(in) {
				if s, ok := val.Str(); ok && s == "REJECTED" {
					st.Add("rejecting")
				}
			}
		}
		en.Run(r, nil)
		c.Engine(en)
	}
	// what is called a rejection sets the status
	rej := 0
	for f := range roots {
		if strings.Contains(f.Name(), "Reject") {
			rej++
			c.Check(len(w.statusStores(f, "REJECTED")) > 0, "rejected", fnName(f)+" status", w.Pos(f.Pos()), "the operation that rejects never gives the status REJECTED")
		}
	}
}

// statusStores: stores of a constant status into transactions in the function and what it calls within its package.
func (w *World) statusStores(f *ssa.Function, status string) []ssa.Instruction {
	var r []ssa.Instruction
	for _, g := range w.closure(f) {
		if !inPkg(g, Mod) {
			continue
		}
		Instrs(g, func(in ssa.Instruction) {
			if isTxnObj(in) {
				s := in.(*ssa.Store)
				if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil && unq(k.Value.ExactString()) == status {
					if fa := s.Addr.(*ssa.FieldAddr); fieldName(fa.X.Type(), fa.Field) == "Status" {
						r = append(r, in)
					}
				}
			}
		})
	}
	return r
}

// splitIdentity: each leg of a split gets its own id and hash.
func (c *Ctx) splitIdentity() {
	w := c.W
	for _, f := range w.Funcs {
		if !inPkg(f, Mod+"/model") || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() == nil || !strings.HasSuffix(f.Signature.Recv().Type().String(), "model.Transaction") {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() == 0 {
			continue
		}
		sl, ok := rs.At(0).Type().Underlying().(*types.Slice)
		if !ok || sl.Elem().String() != txnPtr && sl.Elem().String() != strings.TrimPrefix(txnPtr, "*") {
			continue
		}
		en := NewEngine(w)
		en.SmallMax, en.MaxDepth = 12, 5
		en.Relevant = map[*ssa.Function]bool{}
		mk := w.Reaches(func(g *ssa.Function) bool { return w.hashes(g) || w.generates(g) })
		for _, g := range w.Funcs {
			if inPkg(g, Mod+"/model") && mk[g] {
				en.Relevant[g] = true
			}
		}
		en.NoInline = func(g *ssa.Function) bool { return g != f && (w.hashes(g) || w.generates(g)) }
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Name != "append" || len(k.Args) != 2 {
				return nil, false
			}
			va, ok := en.VarArgs(st, k.Args[1])
			if !ok {
				return nil, false
			}
			for _, a := range va {
				if a.V == nil || a.V.Type().String() != txnPtr {
					continue
				}
				where := w.Pos(k.Site.Pos())
				c.Check(computed(en.field(st, a, "TransactionID"), w.generates), "identity", fnName(f)+" leg id", where, "a leg of a split has no id of its own: %s", en.field(st, a, "TransactionID"))
				c.Check(computed(en.field(st, a, "Hash"), w.hashes), "identity", fnName(f)+" leg hash", where, "a leg of a split has no hash computed for it: %s", en.field(st, a, "Hash"))
			}
			return nil, false
		}
		en.Run(f, nil)
		c.Engine(en)
	}
}

// callsNamed: the function calls something whose full name satisfies pred.
func callsNamed(f *ssa.Function, pred func(string) bool) bool {
	r := false
	Instrs(f, func(in ssa.Instruction) {
		if k, ok := in.(ssa.CallInstruction); ok {
			if g := k.Common().StaticCallee(); g != nil && pred(g.String()) {
				r = true
			}
		}
	})
	return r
}
