package main

import (
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["L01"] = ruleL01; rules["L02"] = ruleL02 }

const outboxPtr = "*" + Mod + "/model.LineageOutbox"

func takesType(f *ssa.Function, typ string) bool {
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if f.Signature.Params().At(i).Type().String() == typ {
			return true
		}
	}
	return false
}

// touches: exported storage methods with a statement of the kind on the table.
func (w *World) touches(kind, table string) map[*ssa.Function]bool {
	_, all := w.SQLEffects()
	r := map[*ssa.Function]bool{}
	for f, es := range all {
		if !inPkg(f, Mod+"/database") || isMock(f) || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		for e := range es {
			if e.Kind == kind && e.Table == table {
				r[f] = true
			}
		}
	}
	return r
}

func ruleL01(c *Ctx) {
	c.Rule("recorded", "Every path on which a transaction is recorded with the balances it moved and a lineage entry was given stores the entry in the same unit of work.")
	c.Rule("prepared", "The operation that records a transaction with balances prepares its lineage entry from that transaction and hands it over; no entry is prepared only if neither side tracks lineage.")
	c.Rule("claim", "Entries are claimed by marking them within one statement that skips rows locked by others and takes only entries that are not done, not leased and within their attempts.")
	c.Rule("outcome", "Every claimed entry is marked done only after processing it returned no error and is otherwise marked failed; a failure adds one to its attempts and ends retrying only at the maximum.")
	c.Rule("process", "Processing an entry returns no error only if every step of it succeeded and each side that tracks lineage was processed.")
	c.Floor("recorded", 2)
	c.Floor("prepared", 4)
	c.Floor("claim", 4)
	c.Floor("outcome", 5)
	c.Floor("process", 3)
	c.outboxRecorded()
	c.outboxPrepared()
	c.outboxGate()
	c.outboxSQL()
	c.outboxOutcome()
	c.outboxProcess()
	c.outboxLegs()
}

// outboxLegs: a turn that finds its first leg already booked still books the others.
func (c *Ctx) outboxLegs() {
	w := c.W
	c.Rule("paired", "Taking up an entry again books every leg that is not booked yet: a leg that is found does not skip the other leg of its allocation.")
	c.Floor("paired", 1)
	isAlloc := func(f *ssa.Function) bool {
		for _, p := range f.Params {
			if p.Type().String() == allocT {
				return true
			}
		}
		return false
	}
	makers := map[*ssa.Function]bool{}
	for m := range w.legMakers() {
		if isAlloc(m) {
			makers[m] = true
		}
	}
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	for m := range makers {
		m := m
		reach[m] = w.Reaches(func(f *ssa.Function) bool { return f == m })
	}
	count := func(f *ssa.Function) int {
		n := 0
		for m := range makers {
			if reach[m][f] && f != m {
				n++
			}
		}
		return n
	}
	for _, f := range w.Funcs {
		if !inPkg(f, Mod) || isMock(f) || f.Blocks == nil || w.api(f) || count(f) < 2 || callsDirect(w, f, func(g *ssa.Function) bool { return count(g) >= 2 }) {
			continue
		}
		f := f
		en := NewEngine(w)
		en.MaxDepth = 2
		en.NoInline = func(g *ssa.Function) bool { return true }
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Kind != "call" || k.Sig == nil || ErrIndex(k.Sig) < 0 {
				return nil, false
			}
			if k.Method() == "TransactionExistsByRef" {
				ok, fail := en.Fork(st, k)
				yes := ok.Clone()
				en.setKind(yes, en.Res(yes, k, 0), "true")
				yes.Add("found")
				en.setKind(ok, en.Res(ok, k, 0), "false")
				fail.Add("failed")
				return []*State{ok, yes, fail}, true
			}
			if k.Fn == nil {
				return nil, false
			}
			hit := false
			ok, fail := st, (*State)(nil)
			for m := range makers {
				if reach[m][k.Fn] {
					if !hit {
						ok, fail = en.Fork(st, k)
						fail.Add("failed")
					}
					hit = true
					ok.Add("leg:" + fnName(m))
				}
			}
			if hit {
				return []*State{ok, fail}, true
			}
			return nil, false
		}
		turn := func(st *State, where string) {
			if !st.Has("failed") && (st.Has("found") || st.HasPrefix("leg:")) {
				n := 0
				for _, x := range st.Facts() {
					if strings.HasPrefix(x, "leg:") {
						n++
					}
				}
				if st.Has("found") {
					c.Check(n >= len(makers)-1, "paired", fnName(f), where, "an allocation whose release was found already booked is passed over: if the leg that receives it was not booked before, it never is")
				} else {
					c.Check(n == len(makers), "paired", fnName(f)+" both", where, "only %d of the %d legs of an allocation are booked", n, len(makers))
				}
			}
			for _, x := range st.Facts() {
				if x == "found" || strings.HasPrefix(x, "leg:") {
					st.Del(x)
				}
			}
		}
		en.H.Header = func(en *Engine, st *State, from, to *ssa.BasicBlock, fr *Frame, subs []PhiSub) {
			if fr.Fn == f && loopBlocks(to) != nil && to.Dominates(from) {
				turn(st, w.Pos(from.Instrs[0].Pos()))
			}
		}
		en.Run(f, nil)
		c.Engine(en)
	}
}

func (c *Ctx) outboxRecorded() {
	w := c.W
	direct, all := w.SQLEffects()
	_ = direct
	inserts := map[*ssa.Function]bool{}
	for f, es := range all {
		for e := range es {
			if (e.Kind == "INSERT" || e.Kind == "COPY") && e.Table == "lineage_outbox" {
				inserts[f] = true
			}
		}
	}
	for f := range inserts {
		if takesType(f, "[]"+outboxPtr) && !w.insertsTxn(f) && f.Blocks != nil && !isMock(f) {
			c.outboxEach(f)
		}
	}
	for _, f := range w.Funcs {
		if !inPkg(f, Mod+"/database") || isMock(f) || f.Object() == nil || !f.Object().Exported() || f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		one, many := takesType(f, outboxPtr), takesType(f, "[]"+outboxPtr)
		if !one && !many || !w.insertsTxn(f) {
			continue
		}
		f := f
		name := fnName(f)
		en := NewEngine(w)
		en.MaxDepth = 6
		en.SmallMax = 6
		en.Relevant = map[*ssa.Function]bool{}
		for _, g := range w.Funcs {
			if inPkg(g, Mod+"/database") && !isMock(g) && (w.insertsTxn(g) || inserts[g]) {
				en.Relevant[g] = true
			}
		}
		en.NoInline = func(g *ssa.Function) bool {
			return !inPkg(g, Mod+"/database") || inserts[g] && !w.insertsTxn(g)
		}
		var box *ssa.Parameter
		for _, p := range f.Params {
			if t := p.Type().String(); t == outboxPtr || t == "[]"+outboxPtr {
				box = p
			}
		}
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Fn != nil && inserts[k.Fn] && !w.insertsTxn(k.Fn) {
				given := false
				for _, a := range k.Args {
					x := a.Strip()
					if x.Op == "param" && x.V == ssa.Value(box) || deepMention(x, func(t *Term) bool { return t.V == ssa.Value(box) }) {
						given = true
					}
					if va, ok := en.VarArgs(st, a); ok {
						for _, y := range va {
							given = given || y.Strip().V == ssa.Value(box)
						}
					}
					if a.V != nil && w.sliceFrom(a.V, box) {
						given = true
					}
				}
				ok, fail := en.Fork(st, k)
				if given {
					ok.Add("stored")
					if takesType(k.Fn, outboxPtr) && many {
						// one by one: judged by the loop
						in := k.Site.(ssa.Instruction)
						lp := loopAround(in.Block())
						c.Check(lp != nil && leavesOnlyFailing(lp), "recorded", name+" each", w.Pos(in.Pos()), "not every lineage entry given is stored")
					}
				}
				return []*State{ok, fail}, true
			}
			return nil, false
		}
		en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, fr *Frame) {
			x, t := cond, taken
			for x.Op == "un" && x.Name == "!" {
				x, t = x.Args[0], !t
			}
			s := x.String()
			if x.Op == "bin" && t && x.Name == "==" && (strings.Contains(s, "nil") || strings.Contains(s, "0")) && deepMention(x, func(y *Term) bool { return y.V == ssa.Value(box) }) {
				st.Add("noentry")
			}
			if x.Op == "bin" && x.Name == "<" && !t && strings.HasPrefix(s, "(0 <") && deepMention(x, func(y *Term) bool { return y.V == ssa.Value(box) }) {
				st.Add("noentry")
			}
			if x.Op == "bin" && x.Name == "<" && !t && strings.Contains(s, "len") && many {
				st.Add("turned") // the loop over the entries has ended
			}
		}
		en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, fr *Frame) {
			i := ErrIndex(f.Signature)
			if i < 0 || en.Kind(st, res[i]) == "nonnil" {
				return
			}
			c.Check(st.Has("stored") || st.Has("noentry"), "recorded", name, w.Pos(in.Pos()), "the transaction is recorded without the lineage entry that was given for it")
		}
		en.Run(f, nil)
		c.Engine(en)
	}
}

// outboxEach: a function that stores a list of entries leaves out only absent ones.
func (c *Ctx) outboxEach(f *ssa.Function) {
	w := c.W
	en := NewEngine(w)
	en.MaxDepth = 1
	en.NoInline = func(g *ssa.Function) bool { return true }
	loops := map[*ssa.BasicBlock]bool{}
	Instrs(f, func(in ssa.Instruction) {
		if ia, ok := in.(*ssa.IndexAddr); ok && ia.X.Type().String() == "[]"+outboxPtr {
			if lp := loopAround(in.Block()); lp != nil {
				for b := range loopBlocks(lp) {
					for _, x := range b.Instrs {
						if k, ok := x.(*ssa.Call); ok {
							if b, isB := k.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" || strings.Contains(calleeName(k), "Exec") {
								loops[lp] = true
							}
						}
					}
				}
			}
		}
	})
	en.H.Instr = func(en *Engine, st *State, in ssa.Instruction, fr *Frame) {
		if k, ok := in.(*ssa.Call); ok {
			if b, ok := k.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				st.Add("appended")
			}
		}
		if ia, ok := in.(*ssa.IndexAddr); ok && ia.X.Type().String() == "[]"+outboxPtr {
			st.Add("turn")
		}
	}
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		if k.Method() == "ExecContext" || k.Fn != nil && takesType(k.Fn, outboxPtr) {
			st.Add("appended")
		}
		return nil, false
	}
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, fr *Frame) {
		for cond.Op == "un" && cond.Name == "!" {
			cond, taken = cond.Args[0], !taken
		}
		if cond.Op == "bin" && cond.Name == "==" && taken {
			if iff, ok := in.(*ssa.If); ok {
				if b, ok := iff.Cond.(*ssa.BinOp); ok && (b.X.Type().String() == outboxPtr || b.Y.Type().String() == outboxPtr) {
					st.Add("absent")
				}
			}
		}
	}
	end := func(st *State, where string) {
		if st.Has("turn") {
			c.Check(st.Has("appended") || st.Has("absent"), "recorded", fnName(f)+" every entry", where, "a lineage entry that was given is left out")
		}
		for _, x := range []string{"turn", "appended", "absent"} {
			st.Del(x)
		}
	}
	en.H.Header = func(en *Engine, st *State, from, to *ssa.BasicBlock, fr *Frame, subs []PhiSub) {
		if loops[to] {
			end(st, w.Pos(from.Instrs[0].Pos()))
		}
	}
	en.Run(f, nil)
	c.Engine(en)
}

// sliceFrom: the slice is the parameter, is appended to with it or made of it.
func (w *World) sliceFrom(v ssa.Value, p *ssa.Parameter) bool {
	found := false
	w.origins(v, func(x ssa.Value) {
		if x == ssa.Value(p) {
			found = true
		}
	})
	return found
}

func isPrepare(f *ssa.Function) bool {
	return f != nil && inPkg(f, Mod) && !isMock(f) && f.Signature.Results().Len() == 1 && f.Signature.Results().At(0).Type().String() == outboxPtr
}

func (c *Ctx) outboxPrepared() {
	w := c.W
	with, _ := w.txnInserts()
	boxed := map[*ssa.Function]bool{}
	for f := range with {
		if takesType(f, outboxPtr) || takesType(f, "[]"+outboxPtr) {
			boxed[f] = true
		}
	}
	prepares := w.Reaches(func(f *ssa.Function) bool { return isPrepare(f) && f.Object() != nil && f.Object().Exported() })
	// every call that records with balances is given entries that come from the preparation
	for _, f := range w.Funcs {
		if !inPkg(f, Mod) || isMock(f) || f.Blocks == nil {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			k, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			hit := false
			plain := false
			for _, g := range w.callees(in) {
				hit = hit || boxed[g]
				plain = plain || with[g] && !boxed[g]
			}
			if plain {
				c.Fail("prepared", fnName(f), w.Pos(in.Pos()), "a transaction is recorded with its balances through a method that takes no lineage entry")
			}
			if !hit {
				return
			}
			from := false
			for _, a := range k.Common().Args {
				if t := a.Type().String(); t != outboxPtr && t != "[]"+outboxPtr {
					continue
				}
				from = w.madeBy(a, func(g *ssa.Function) bool { return isPrepare(g) && prepares[g] })
			}
			c.Check(from, "prepared", fnName(f)+" entry", w.Pos(in.Pos()), "a transaction is recorded with a lineage entry that was not prepared for it")
		})
	}
	// the preparation
	for _, f := range w.Funcs {
		if !isPrepare(f) || f.Object() == nil || !f.Object().Exported() || f.Blocks == nil {
			continue
		}
		f := f
		name := fnName(f)
		en := NewEngine(w)
		en.MaxDepth = 3
		var txn *ssa.Parameter
		var bals []*ssa.Parameter
		for _, p := range f.Params {
			switch p.Type().String() {
			case txnPtr:
				txn = p
			case "*" + Mod + "/model.Balance":
				bals = append(bals, p)
			}
		}
		if txn == nil || len(bals) != 2 {
			c.Fail("prepared", name, w.Pos(f.Pos()), "the preparation takes no transaction with its two balances")
			continue
		}
		pt := func(p *ssa.Parameter) string { return p.Name() }
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Name == "encoding/json.Marshal" {
				ok, fail := en.Fork(st, k)
				fail.Add("unmarshalable")
				return []*State{ok, fail}, true
			}
			return nil, false
		}
		en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, fr *Frame) {
			for cond.Op == "un" && cond.Name == "!" {
				cond, taken = cond.Args[0], !taken
			}
			s := cond.String()
			for i, b := range bals {
				side := []string{"source", "destination"}[i]
				if s == pt(b)+".TrackFundLineage" {
					if taken {
						st.Add(side + " tracks")
					} else {
						st.Add(side + " off")
					}
				}
				if cond.Op == "bin" && cond.Name == "==" && (s == "("+pt(b)+" == nil)" || s == "(nil == "+pt(b)+")") && taken {
					st.Add(side + " off")
				}
			}
			if cond.Op == "bin" && cond.Name == "==" && taken && (strings.Contains(s, `""`) || strings.Contains(s, "MetaData") && strings.Contains(s, "nil")) {
				st.Add("noprovider")
			}
			iff, _ := in.(*ssa.If)
			if iff == nil {
				return
			}
			if x, ok := iff.Cond.(*ssa.Extract); ok && !taken && x.Index == 1 && x.Tuple.Type().(*types.Tuple).At(0).Type().String() == "string" {
				st.Add("noprovider") // the metadata names none, or no text
			}
		}
		en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, fr *Frame) {
			where := w.Pos(in.Pos())
			if en.Kind(st, res[0]) == "nil" {
				none := st.Has("source off") && (st.Has("destination off") || st.Has("noprovider"))
				c.Check(none || st.Has("unmarshalable"), "prepared", name+" none", where, "no lineage entry is prepared although a balance that tracks lineage takes part")
				return
			}
			id := en.field(st, res[0], "TransactionID")
			c.Check(id.String() == pt(txn)+".TransactionID", "prepared", name+" transaction", where, "the lineage entry does not carry the transaction's id but %s", id)
			infl := en.field(st, res[0], "Inflight")
			c.Check(infl.String() == pt(txn)+".Inflight", "prepared", name+" inflight", where, "the lineage entry does not say whether the transaction is inflight (%s)", infl)
			n, ok := en.field(st, res[0], "MaxAttempts").Int()
			c.Check(ok && n > 0, "prepared", name+" attempts", where, "the lineage entry allows no attempt")
			t := en.field(st, res[0], "LineageType")
			ts, _ := t.Str()
			if ts == "credit" {
				c.Check(st.Has("source off"), "prepared", name+" type", where, "an entry whose source may track lineage is typed %q", ts)
			}
			for i, b := range bals {
				fld := []string{"SourceBalanceID", "DestinationBalanceID"}[i]
				x := en.field(st, res[0], fld)
				s, isS := x.Str()
				good := x.String() == pt(b)+".BalanceID" || isS && s == "" && en.Kind(st, en.mk("param", b.Name(), b, nil)) == "nil" || isS && s == "" && st.Has([]string{"source", "destination"}[i]+" off")
				c.Check(good, "prepared", name+" "+fld, where, "the lineage entry names %s as its balance", x)
			}
		}
		en.Run(f, nil)
		c.Engine(en)
	}
}

// outboxGate: functions that decide whether an entry is prepared at all.
func (c *Ctx) outboxGate() {
	w := c.W
	for _, f := range w.Funcs {
		if !isPrepare(f) || f.Object() == nil || f.Object().Exported() || f.Blocks == nil || !takesType(f, txnPtr) {
			continue
		}
		f := f
		name := fnName(f)
		en := NewEngine(w)
		en.MaxDepth = 2
		en.NoInline = func(g *ssa.Function) bool { return isPrepare(g) }
		var txn string
		for _, p := range f.Params {
			if p.Type().String() == txnPtr {
				txn = p.Name()
			}
		}
		en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, fr *Frame) {
			for cond.Op == "un" && cond.Name == "!" {
				cond, taken = cond.Args[0], !taken
			}
			s := cond.String()
			eq := cond.Op == "bin" && cond.Name == "=="
			switch {
			case eq && strings.Contains(s, txn+".Status"):
				for _, v := range []string{"APPLIED", "INFLIGHT"} {
					if !taken && strings.Contains(s, `"`+v+`"`) {
						st.Add("not " + v)
					}
				}
				if taken && !strings.Contains(s, `"APPLIED"`) && !strings.Contains(s, `"INFLIGHT"`) {
					st.Add("other status")
				}
			case eq && strings.Contains(s, txn+".ParentTransaction") && strings.Contains(s, `""`) && !taken:
				st.Add("child")
			case eq && taken && strings.Contains(s, "inflight") && strings.Contains(s, "MetaData"):
				st.Add("inflight")
			case eq && taken && cond.Args[1].V != nil && strings.Contains(cond.Args[1].String(), "true"):
				st.Add("inflight")
			}
		}
		en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, fr *Frame) {
			if en.Kind(st, res[0]) != "nil" {
				c.Ok("prepared", name+" passed on", w.Pos(in.Pos()))
				return
			}
			ok := st.Has("other status") || st.Has("not APPLIED") && st.Has("not INFLIGHT") || st.Has("child")
			c.Check(ok, "prepared", name+" gate", w.Pos(in.Pos()), "no lineage entry is prepared for a transaction that is applied or inflight and is no commit of one: %v", st.Facts())
		}
		en.Run(f, nil)
		c.Engine(en)
	}
}

// madeBy: the value, or the elements of the list, come from a call of such a function.
func (w *World) madeBy(v ssa.Value, pred func(f *ssa.Function) bool) bool {
	seen := map[ssa.Value]bool{}
	found := false
	var rec func(v ssa.Value, d int)
	rec = func(v ssa.Value, d int) {
		if v == nil || seen[v] || found || d > 25 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil {
				if pred(unwrap(f)) {
					found = true
					return
				}
				if w.InModule(unwrap(f)) {
					for _, b := range unwrap(f).Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
							for _, y := range r.Results {
								rec(y, d+1)
							}
						}
					}
				}
			}
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				for _, a := range x.Call.Args {
					rec(a, d+1)
				}
			}
		case *ssa.Extract:
			rec(x.Tuple, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e, d+1)
			}
		case *ssa.UnOp:
			rec(x.X, d+1)
		case *ssa.Slice:
			rec(x.X, d+1)
		case *ssa.FieldAddr:
			// any object of the type: what the field is given in the module
			name := fieldName(x.X.Type(), x.Field)
			typ := x.X.Type().String()
			for _, g := range w.Funcs {
				if isMock(g) || !inPkg(g, Mod) {
					continue
				}
				Instrs(g, func(in ssa.Instruction) {
					if s, ok := in.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X.Type().String() == typ && fieldName(fa.X.Type(), fa.Field) == name {
							rec(s.Val, d+1)
						}
					}
				})
			}
		case *ssa.Field:
			name := fieldName(x.X.Type(), x.Field)
			typ := x.X.Type().String()
			for _, g := range w.Funcs {
				if isMock(g) || !inPkg(g, Mod) {
					continue
				}
				Instrs(g, func(in ssa.Instruction) {
					if s, ok := in.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X.Type().String() == "*"+typ && fieldName(fa.X.Type(), fa.Field) == name {
							rec(s.Val, d+1)
						}
					}
				})
			}
		case *ssa.Alloc, *ssa.MakeSlice:
			refs := v.Referrers()
			for _, u := range *refs {
				switch y := u.(type) {
				case *ssa.Store:
					if y.Addr == v {
						rec(y.Val, d+1)
					}
				case *ssa.IndexAddr:
					for _, z := range *y.Referrers() {
						if s, ok := z.(*ssa.Store); ok && s.Addr == ssa.Value(y) {
							rec(s.Val, d+1)
						}
					}
				}
			}
		case *ssa.IndexAddr:
			rec(x.X, d+1)
		case *ssa.FreeVar:
			for _, b := range freeBindings(x) {
				rec(b, d+1)
			}
		case *ssa.Parameter:
			f := x.Parent()
			idx := -1
			for i, p := range f.Params {
				if p == x {
					idx = i
				}
			}
			for _, site := range w.callSites(f) {
				if cc, ok := site.(ssa.CallInstruction); ok {
					if as := cc.Common().Args; idx < len(as) && !isMock(site.Parent()) {
						rec(as[idx], d+1)
					}
				}
			}
		}
	}
	rec(v, 0)
	return found
}

func (c *Ctx) outboxSQL() {
	w := c.W
	for f := range w.touches("UPDATE", "lineage_outbox") {
		name := fnName(f)
		where := w.Pos(f.Pos())
		for _, s := range w.stmtsOf(f) {
			for _, q := range s.All() {
				if q.Kind != "UPDATE" || q.Table != "lineage_outbox" {
					continue
				}
				if len(q.Ret) > 0 || f.Signature.Results().Len() > 1 {
					// a claim
					text := strings.ToLower(strings.Join(strings.Fields(tokStr(s.Toks)), " "))
					c.Check(strings.Contains(text, "for update skip locked") || strings.Contains(text, "for no key update skip locked"), "claim", name+" exclusive", where, "entries are claimed without locking them against other workers")
					cs := conjsOfSelect(s)
					has := func(re string) bool {
						for _, x := range cs {
							if regexp.MustCompile("^" + re + "$").MatchString(x) {
								return true
							}
						}
						return false
					}
					c.Check(has(`attempts < max_attempts`) || has(`max_attempts > attempts`), "claim", name+" attempts", where, "entries are claimed although their attempts are used up: %v", cs)
					c.Check(has(`status in \( ?'pending' ?, ?'processing' ?\)`) || has(`status in \( ?'processing' ?, ?'pending' ?\)`) || has(`\(? ?status = 'pending' or status = 'processing' ?\)?`) || has(`status = any ?\(.*\)`), "claim", name+" status", where, "it is not just entries that are pending, or were left behind while processing, that are claimed: %v", cs)
					c.Check(has(`\(? ?locked_until is null or locked_until <=? now ?\( ?\) ?\)?`) || has(`\(? ?locked_until <=? now ?\( ?\) or locked_until is null ?\)?`) || has(`coalesce.*locked_until.*<.*now.*`), "claim", name+" lease", where, "entries another worker holds are claimed: %v", cs)
					lease := q.Set["locked_until"]
					ls := strings.ToLower(tokStr(lease))
					c.Check(lease != nil && strings.Contains(ls, "now") && strings.Contains(ls, "+"), "claim", name+" mark", where, "a claimed entry is not held for any time: %s", ls)
					continue
				}
				// outcomes
				okWhere := false
				for _, x := range q.Where {
					okWhere = okWhere || regexp.MustCompile(`^id = \$\d+$`).MatchString(plainConj(x))
				}
				c.Check(okWhere, "outcome", name+" entry", where, "the outcome is stored with more than the entry it is given for")
				if strings.Contains(f.Name(), "Fail") {
					at := strings.ToLower(strings.Join(strings.Fields(tokStr(q.Set["attempts"])), " "))
					c.Check(at == "attempts + 1" || at == "1 + attempts" || at == "lineage_outbox . attempts + 1", "outcome", name+" counted", where, "a failure does not add one to the attempts: %s", at)
					ss := strings.ToLower(strings.Join(strings.Fields(tokStr(q.Set["status"])), " "))
					m := regexp.MustCompile(`^case when attempts \+ 1 >= max_attempts then \$(\d) else \$(\d) end$|^case when attempts \+ 1 < max_attempts then \$(\d) else \$(\d) end$`).FindStringSubmatch(ss)
					good := m != nil
					if good {
						fa, pe := m[1], m[2]
						if m[3] != "" {
							fa, pe = m[4], m[3]
						}
						good = c.argIs(f, q, fa, "failed") && c.argIs(f, q, pe, "pending")
					}
					c.Check(good || regexp.MustCompile(`^case when attempts \+ 1 >= max_attempts then 'failed' else 'pending' end$`).MatchString(ss), "outcome", name+" retry", where, "a failed entry is not kept pending until its attempts reach the maximum: %s", ss)
				} else {
					ss := strings.ToLower(strings.Join(strings.Fields(tokStr(q.Set["status"])), " "))
					m := regexp.MustCompile(`^\$(\d)$`).FindStringSubmatch(ss)
					c.Check(ss == "'completed'" || m != nil && c.argIs(f, q, m[1], "completed"), "outcome", name+" status", where, "a processed entry is given the status %s", ss)
				}
			}
		}
	}
}

// conjsOfSelect: the conditions of the innermost select from the outbox.
func conjsOfSelect(s *Stmt) []string {
	var r []string
	for _, q := range s.All() {
		if q.Kind != "SELECT" || !q.WhereOK {
			continue
		}
		for _, t := range q.From {
			if t.Name == "lineage_outbox" {
				for _, x := range q.Where {
					r = append(r, plainConj(x))
				}
			}
		}
	}
	return r
}

// argIs: the statement's numbered argument is a constant.
func (c *Ctx) argIs(f *ssa.Function, q *Stmt, n string, want string) bool {
	w := c.W
	in := w.ReachableFrom(f)
	for _, s := range w.CollectSQL().Sites {
		if s.Fn != f && !in[s.Fn] {
			continue
		}
		for _, e := range s.Events {
			if e.Stmt == nil || !e.ArgsOK {
				continue
			}
			i := int(n[0] - '1')
			if i < len(e.Args) {
				if v, ok := e.Args[i].Strip().Str(); ok && v == want {
					return true
				}
			}
		}
	}
	return false
}

func entryOp(k *Call) string {
	switch {
	case k.Method() == "MarkOutboxCompleted":
		return "done"
	case k.Method() == "MarkOutboxFailed":
		return "failed"
	}
	return ""
}

// outboxOutcome: what happens to each entry that was claimed.
func (c *Ctx) outboxOutcome() {
	w := c.W
	upd := w.touches("UPDATE", "lineage_outbox")
	claims := map[*ssa.Function]bool{}
	marks := map[*ssa.Function]bool{}
	for f := range upd {
		if f.Signature.Results().Len() > 1 {
			claims[f] = true
		} else {
			marks[f] = true
		}
	}
	rc := w.Reaches(func(f *ssa.Function) bool { return claims[f] })
	rm := w.Reaches(func(f *ssa.Function) bool { return marks[f] })
	n := 0
	for f := range w.lowest(rc, rm) {
		if !inPkg(f, Mod) {
			continue
		}
		n++
		f := f
		name := fnName(f)
		en := NewEngine(w)
		en.MaxDepth = 4
		en.Relevant = map[*ssa.Function]bool{}
		for _, g := range w.Funcs {
			if inPkg(g, Mod) && !w.api(g) && (rm[g] || takesType(g, Mod+"/model.LineageOutbox") || takesType(g, outboxPtr)) {
				en.Relevant[g] = true
			}
		}
		en.NoInline = func(g *ssa.Function) bool { return inPkg(g, Mod+"/database") || isMock(g) || inPkg(g, Mod) && w.api(g) }
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Kind != "call" && k.Kind != "defer" || k.Sig == nil {
				return nil, false
			}
			where := w.Pos(k.Site.Pos())
			switch {
			case k.Fn != nil && inPkg(k.Fn, Mod) && w.api(k.Fn) && (takesType(k.Fn, Mod+"/model.LineageOutbox") || takesType(k.Fn, outboxPtr)) && ErrIndex(k.Sig) >= 0:
				ok, fail := en.Fork(st, k)
				ok.Add("good")
				ok.Del("bad")
				fail.Add("bad")
				fail.Del("good")
				return []*State{ok, fail}, true
			case hitsAny(k, marks):
				if hasFailed(k) {
					st.Add("markedfailed")
					st.Del("bad")
				} else {
					c.Check(st.Has("good"), "outcome", name+" done", where, "an entry is marked done although processing it failed or was not tried")
					st.Add("marked")
				}
				in := k.Site.(ssa.Instruction)
				if lp := loopAround(in.Block()); lp != nil && k.F.Fn == f {
					c.Check(leavesOnlyFailing(lp) || leavesNever(lp), "outcome", name+" all", where, "the loop over the claimed entries can be left before the last one")
				}
			}
			return nil, false
		}
		turn := func(st *State, where string) {
			c.Check(!st.Has("bad"), "outcome", name+" failed", where, "an entry whose processing failed is not marked as failed: its attempts are not counted")
			c.Check(!st.Has("good") || st.Has("marked"), "outcome", name+" completed", where, "an entry that was processed is not marked as done")
			st.Del("good")
			st.Del("bad")
			st.Del("marked")
			st.Del("markedfailed")
		}
		en.H.Header = func(en *Engine, st *State, from, to *ssa.BasicBlock, fr *Frame, subs []PhiSub) {
			if fr.Fn == f && loopBlocks(to) != nil {
				turn(st, w.Pos(to.Instrs[0].Pos()))
			}
		}
		en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, fr *Frame) { turn(st, w.Pos(in.Pos())) }
		en.Run(f, nil)
		c.Engine(en)
	}
	if n == 0 {
		c.Fail("outcome", "worker", "", "the worker that claims entries and marks their outcome was not found")
	}
}

func hasFailed(k *Call) bool {
	n := k.Name
	if k.Fn != nil {
		n = k.Fn.Name()
	}
	return strings.Contains(n, "Fail")
}

func leavesNever(h *ssa.BasicBlock) bool { return false }

func (c *Ctx) outboxProcess() {
	w := c.W
	maps := func(f *ssa.Function) bool {
		return f != nil && inPkg(f, Mod+"/database") && strings.HasPrefix(f.Name(), "GetLineageMappings")
	}
	ups := func(f *ssa.Function) bool {
		return f != nil && inPkg(f, Mod+"/database") && f.Name() == "UpsertLineageMapping"
	}
	rmaps, rups := w.Reaches(maps), w.Reaches(ups)
	for _, f := range w.Funcs {
		if !inPkg(f, Mod) || isMock(f) || !w.api(f) || !takesType(f, Mod+"/model.LineageOutbox") && !takesType(f, outboxPtr) || ErrIndex(f.Signature) < 0 || !rmaps[f] || f.Synthetic != "" {
			continue
		}
		f := f
		name := fnName(f)
		en := NewEngine(w)
		en.MaxDepth = 4
		en.SmallMax = 6
		debit := func(g *ssa.Function) bool {
			return rmaps[g] && takesType(g, "*"+Mod+"/model.Balance") && callsDirect(w, g, maps)
		}
		credit := func(g *ssa.Function) bool {
			return rups[g] && !rmaps[g] && takesType(g, txnPtr) && !callsDirect(w, g, maps)
		}
		en.Relevant = map[*ssa.Function]bool{}
		for _, g := range w.Funcs {
			if inPkg(g, Mod) && !isMock(g) && !w.api(g) && (rmaps[g] || rups[g] || takesType(g, "*"+Mod+"/model.Balance") && !takesType(g, txnPtr)) {
				en.Relevant[g] = true
			}
		}
		en.NoInline = func(g *ssa.Function) bool {
			return inPkg(g, Mod+"/database") || isMock(g) || g != f && inPkg(g, Mod) && w.api(g) || debit(g) || credit(g) || !en.Relevant[g]
		}
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Kind != "call" && k.Kind != "defer" || k.Sig == nil || ErrIndex(k.Sig) < 0 {
				return nil, false
			}
			ours := k.Iface != "" && len(k.Targets) > 0 || k.Fn != nil && (inPkg(k.Fn, Mod) || inPkg(k.Fn, Mod+"/database")) || k.Name == "encoding/json.Unmarshal"
			if !ours || k.Fn != nil && en.Relevant[k.Fn] && !en.NoInline(k.Fn) {
				return nil, false
			}
			ok, fail := en.Fork(st, k)
			fail.Add("failed:" + calleeShort(k))
			if k.Sig.Results().Len() == 2 {
				en.setKind(fail, en.Res(fail, k, 0), "nil")
			}
			switch {
			case k.Fn != nil && debit(k.Fn):
				ok.Add("debited")
			case k.Fn != nil && credit(k.Fn):
				ok.Add("credited")
			}
			return []*State{ok, fail}, true
		}
		en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, fr *Frame) {
			for cond.Op == "un" && cond.Name == "!" {
				cond, taken = cond.Args[0], !taken
			}
			s := cond.String()
			if strings.HasSuffix(s, ".TrackFundLineage") {
				was, now := "untracked:", "tracks:"
				if !taken {
					was, now = now, was
				}
				if st.Has(was + cond.key) {
					st.Add("impossible") // nothing here changes a balance's setting
				}
				st.Add(now + cond.key)
			}
			if cond.Op == "bin" && cond.Name == "==" && taken && (strings.Contains(s, `"shadow`) || strings.Contains(s, `"commit`)) {
				st.Add("shadow")
			}
			if cond.Op == "bin" && cond.Name == "==" && taken && strings.Contains(s, `"credit"`) {
				st.Add("creditonly")
			}
		}
		en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, fr *Frame) {
			where := w.Pos(in.Pos())
			if en.Kind(st, res[len(res)-1]) == "nonnil" {
				c.Ok("process", name+" error", where)
				return
			}
			if st.Has("impossible") {
				return
			}
			bad := ""
			for _, x := range st.Facts() {
				if strings.HasPrefix(x, "failed:") {
					// the one failure that needs no processing: the source of a credit whose destination tracks nothing
					if strings.Contains(x, "GetBalance") && st.Has("creditonly") && !st.HasPrefix("tracks:") {
						continue
					}
					bad = x[7:]
				}
			}
			c.Check(bad == "", "process", name+" step", where, "the entry counts as processed although %s failed", bad)
			if st.Has("shadow") {
				return
			}
			tr := 0
			for _, x := range st.Facts() {
				if strings.HasPrefix(x, "tracks:") {
					tr++
				}
			}
			done := 0
			if st.Has("debited") {
				done++
			}
			if st.Has("credited") {
				done++
			}
			c.Check(done >= tr, "process", name+" sides", where, "the entry counts as processed although only %d of the %d sides found to track lineage were", done, tr)
		}
		en.Run(f, nil)
		c.Engine(en)
	}
}

func calleeShort(k *Call) string {
	if k.Fn != nil {
		return k.Fn.Name()
	}
	return k.Method()
}

func callsDirect(w *World, f *ssa.Function, pred func(*ssa.Function) bool) bool {
	r := false
	Instrs(f, func(in ssa.Instruction) {
		if _, ok := in.(ssa.CallInstruction); ok {
			for _, g := range w.callees(in) {
				r = r || pred(g)
			}
		}
	})
	return r
}

const srcT, allocT, mapT = Mod + ".LineageSource", Mod + ".Allocation", Mod + "/model.LineageMapping"

func ruleL02(c *Ctx) {
	c.Rule("locked", "What is available and what is still to be released is read, and every lineage leg is booked, while the locks of all the lineage balances taking part are held.")
	c.Rule("keys", "The keys locked are one text per balance: every source's shadow balance, the aggregate balance, and the balances of the receiving side.")
	c.Rule("available", "A source offers exactly the positive difference of the debit and credit side of its own shadow balance.")
	c.Rule("bounded", "An allocation is positive, names the source it was computed from, is at most what that source offers and at most what is left of the amount; what is left is reduced by it before the next source.")
	c.Rule("remaining", "The amount allocated is the transaction's amount less every release already booked for it under the reference a release would take.")
	c.Rule("reference", "Every leg carries a reference made of the transaction's own reference, its role and the provider, so that repeating it is refused, the allocated amount, and the transaction's inflight mark.")
	c.Floor("locked", 5)
	c.Floor("keys", 4)
	c.Floor("available", 1)
	c.Floor("bounded", 6)
	c.Floor("remaining", 2)
	c.Floor("reference", 6)
	c.lineageLegs()
	c.lineageLocked()
	c.lineageKeys()
	c.lineageAvailable()
	c.lineageBounded()
	c.lineageRemaining()
}

// makesLeg: the function builds a transaction that shadows another.
func makesLeg(f *ssa.Function) bool {
	r := false
	Instrs(f, func(in ssa.Instruction) {
		if m, ok := in.(*ssa.MapUpdate); ok {
			if k, ok := unwrapIface(m.Key).(*ssa.Const); ok && k.Value != nil && unq(k.Value.ExactString()) == "_shadow_for" {
				r = true
			}
		}
	})
	return r
}

func unwrapIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func (w *World) legMakers() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if inPkg(f, Mod) && !isMock(f) && f.Blocks != nil && makesLeg(f) {
			r[f] = true
		}
	}
	return r
}

func booksTxn(k *Call, w *World) *Term {
	if k.Fn == nil || !inPkg(k.Fn, Mod) || !w.api(k.Fn) || !takesType(k.Fn, txnPtr) || ErrIndex(k.Sig) < 0 {
		return nil
	}
	for _, a := range k.Args {
		if a.V != nil && a.V.Type().String() == txnPtr || a.Op == "alloc" && strings.Contains(a.String(), "Txn") {
			return a
		}
	}
	for i := 0; i < k.Fn.Signature.Params().Len(); i++ {
		if k.Fn.Signature.Params().At(i).Type().String() == txnPtr {
			return k.Args[len(k.Args)-k.Fn.Signature.Params().Len()+i]
		}
	}
	return nil
}

func (c *Ctx) lineageLegs() {
	w := c.W
	roles := map[string]string{}
	c.legRoles = map[string]bool{}
	n := 0
	for f := range w.legMakers() {
		f := f
		name := fnName(f)
		en := NewEngine(w)
		en.MaxDepth = 3
		en.Affine = true
		en.NoInline = func(g *ssa.Function) bool { return w.api(g) && inPkg(g, Mod) || inPkg(g, Mod+"/database") }
		var txn, alloc string
		for _, p := range f.Params {
			switch {
			case p.Type().String() == txnPtr:
				txn = p.Name()
			case typeName(p.Type()) == "blnk.Allocation" || strings.HasSuffix(p.Type().String(), ".Allocation"):
				alloc = p.Name()
			}
		}
		if txn == "" {
			c.Fail("reference", name, w.Pos(f.Pos()), "a lineage leg is made without the transaction it shadows")
			continue
		}
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			t := booksTxn(k, w)
			if t == nil {
				return nil, false
			}
			n++
			where := w.Pos(k.Site.Pos())
			ps := en.Text(st, en.field(st, t, "Reference"))
			role := ""
			okShape := len(ps) >= 3 && ps[0].Hole != nil && ps[0].Hole.String() == txn+".Reference" && ps[1].Hole == nil && ps[len(ps)-1].Hole != nil
			if okShape {
				role = ps[1].Lit
				prov := strings.ToLower(ps[2].Hole.String())
				okShape = strings.Contains(prov, "provider")
			}
			c.Check(okShape, "reference", name, where, "a lineage leg's reference is not made of the transaction's reference, a role and the provider: %v", partsText(ps))
			if okShape {
				other, dup := roles[role]
				c.Check(!dup || other == name, "reference", name+" role", where, "two kinds of lineage legs take the same references (%s, %s)", name, other)
				roles[role] = name
				if alloc != "" {
					c.legRoles[role] = true
				}
			}
			amt := en.Val(st, en.field(st, t, "PreciseAmount"))
			var want *Lin
			src := txn
			if alloc != "" {
				src = alloc
				for _, p := range f.Params {
					if p.Name() == alloc {
						o := en.mk("param", p.Name(), p, nil)
						want = en.Val(st, en.fieldOf(st, o, "Amount"))
					}
				}
			} else {
				for _, p := range f.Params {
					if p.Name() == txn {
						want = en.Val(st, en.field(st, en.mk("param", p.Name(), p, nil), "PreciseAmount"))
					}
				}
			}
			good := want != nil && (amt.Eq(want) || amt.Human() == want.Human())
			c.Check(good, "reference", name+" amount", where, "a lineage leg books %s instead of the amount of its %s", amt.Human(), src)
			infl := en.field(st, t, "Inflight")
			c.Check(infl.String() == txn+".Inflight", "reference", name+" inflight", where, "a lineage leg is not inflight exactly when the transaction is (%s)", infl)
			return nil, false
		}
		en.Run(f, nil)
		c.Engine(en)
	}
	c.Check(len(roles) >= 3, "reference", "roles", "", "fewer than three kinds of lineage legs were found")
}

func partsText(ps []Part) string {
	r := ""
	for _, p := range ps {
		if p.Hole != nil {
			r += "{" + p.Hole.String() + "}"
		} else {
			r += p.Lit
		}
	}
	return r
}

// lineageTops: the functions that take the lineage locks and book the legs.
func (w *World) lineageTops() map[*ssa.Function]bool {
	makers := w.legMakers()
	rl := w.Reaches(isLockPrim)
	lockers := w.ReachableAvoiding
	_ = lockers
	rm := w.Reaches(func(f *ssa.Function) bool { return makers[f] })
	r := map[*ssa.Function]bool{}
	// the makers themselves reach locks through the transaction they book: look for functions that reach a maker
	for _, f := range w.Funcs {
		if !inPkg(f, Mod) || isMock(f) || !rm[f] || makers[f] || f.Parent() != nil || f.Blocks == nil {
			continue
		}
		takes := false
		if w.api(f) {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			if _, ok := in.(ssa.CallInstruction); ok {
				for _, g := range w.callees(in) {
					if rl[g] && !rm[g] && !w.api(g) && inPkg(g, Mod) {
						takes = true
					}
					if isLockPrim(g) {
						takes = true
					}
				}
			}
		})
		if takes {
			r[f] = true
		}
	}
	// without it: whatever hands work to a maker directly or through helpers
	if len(r) == 0 {
		for _, f := range w.Funcs {
			if rm[f] && !makers[f] && callsDirect(w, f, func(g *ssa.Function) bool { return makers[g] }) {
				r[f] = true
			}
		}
	}
	return r
}

func (c *Ctx) lineageLocked() {
	w := c.W
	makers := w.legMakers()
	rm := w.Reaches(func(f *ssa.Function) bool { return makers[f] })
	tops := w.lineageTops()
	c.Check(len(tops) >= 2, "locked", "tops", "", "the operations that lock lineage balances and book their legs were not found")
	covered := map[*ssa.Function]bool{}
	for f := range tops {
		f := f
		name := fnName(f)
		en := NewEngine(w)
		en.MaxDepth = 6
		en.SmallMax = 6
		reads := w.Reaches(func(g *ssa.Function) bool {
			return inPkg(g, Mod+"/database") && (g.Name() == "GetBalancesByIDsLite" || g.Name() == "TransactionExistsByRef")
		})
		rl := w.Reaches(isLockPrim)
		ru := w.Reaches(isUnlockPrim)
		en.Relevant = map[*ssa.Function]bool{}
		for _, g := range w.Funcs {
			if inPkg(g, Mod) && !isMock(g) && !w.api(g) && (rm[g] || rl[g] || ru[g] || reads[g]) {
				en.Relevant[g] = true
			}
		}
		en.NoInline = func(g *ssa.Function) bool {
			return inPkg(g, Mod+"/database") || isMock(g) || inPkg(g, Mod) && g != f && w.api(g) || !en.Relevant[g]
		}
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Fn != nil {
				switch op, _ := lockOp(k); op {
				case "lock":
					ok, fail := en.Fork(st, k)
					ok.Add("locked")
					return []*State{ok, fail}, true
				case "unlock":
					if k.Kind != "defer" {
						st.Del("locked")
					}
					return nil, false
				}
			}
			where := w.Pos(k.Site.Pos())
			if makers[k.F.Fn] && booksTxn(k, w) != nil {
				covered[k.F.Fn] = true
				c.Check(st.Has("locked"), "locked", name+" "+fnName(k.F.Fn), where, "a lineage leg is booked without the locks of its balances")
			}
			switch k.Method() {
			case "GetBalancesByIDsLite", "TransactionExistsByRef", "GetTransactionByRef":
				c.Check(st.Has("locked"), "locked", name+" "+k.Method(), where, "what lineage balances hold or what was already released is read before their locks are taken")
			}
			return nil, false
		}
		en.Run(f, nil)
		c.Engine(en)
	}
	for m := range makers {
		c.Check(covered[m], "locked", fnName(m), w.Pos(m.Pos()), "a lineage leg is made outside the operations that take the locks")
	}
}

// keyed: what the elements of a list of texts are fields of.
type keyed struct {
	field string
	in    ssa.Instruction
}

func (w *World) keyFields(v ssa.Value) []keyed {
	var r []keyed
	seen := map[ssa.Value]bool{}
	var list func(v ssa.Value)
	var elem func(v ssa.Value, at ssa.Instruction, pre string)
	elem = func(v ssa.Value, at ssa.Instruction, pre string) {
		v = unwrapIface(v)
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				base := ""
				if u, ok := fa.X.(*ssa.UnOp); ok {
					if fb, ok := u.X.(*ssa.FieldAddr); ok {
						base = fieldName(fb.X.Type(), fb.Field) + "."
					}
				}
				if base == "" {
					if e, ok := fa.X.(*ssa.Extract); ok {
						base = e.Name() + "."
					}
				}
				r = append(r, keyed{pre + base + fieldName(fa.X.Type(), fa.Field), at})
			} else if ia, ok := x.X.(*ssa.IndexAddr); ok {
				_ = ia
				list(ia.X)
				if pre != "" {
					r = append(r, keyed{pre, at})
				}
			}
		case *ssa.Field:
			r = append(r, keyed{pre + fieldName(x.X.Type(), x.Field), at})
		case *ssa.Call:
			p := "?"
			if len(x.Call.Args) > 0 {
				if k, ok := x.Call.Args[0].(*ssa.Const); ok && k.Value != nil {
					p = unq(k.Value.ExactString())
				}
			}
			for _, a := range x.Call.Args {
				for _, y := range spread(a) {
					elem(y, at, p+"|")
				}
			}
		case *ssa.BinOp:
			for _, y := range []ssa.Value{x.X, x.Y} {
				p := "?|"
				if k, ok := x.X.(*ssa.Const); ok && k.Value != nil {
					p = unq(k.Value.ExactString()) + "%s|"
				}
				elem(y, at, p)
			}
		case *ssa.Extract:
			if nx, ok := x.Tuple.(*ssa.Next); ok {
				if rg, ok := nx.Iter.(*ssa.Range); ok {
					list(rg.X)
				}
			}
			if pre != "" {
				r = append(r, keyed{pre, at})
			}
		}
	}
	list = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				list(e)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				list(x.Call.Args[0])
				sp := spread(x.Call.Args[1])
				if len(sp) == 0 {
					list(x.Call.Args[1])
				}
				for _, e := range sp {
					elem(e, x, "")
				}
			} else if g := x.Call.StaticCallee(); g != nil && w.InModule(unwrap(g)) {
				for _, b := range unwrap(g).Blocks {
					if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) > 0 {
						for _, y := range rt.Results {
							if y.Type().String() == "[]string" {
								list(y)
							}
						}
					}
				}
			}
		case *ssa.Extract:
			if k, ok := x.Tuple.(*ssa.Call); ok {
				list(k)
			}
		case *ssa.Slice:
			list(x.X)
		case *ssa.Alloc, *ssa.MakeSlice:
			for _, u := range *v.Referrers() {
				if ia, ok := u.(*ssa.IndexAddr); ok {
					for _, z := range *ia.Referrers() {
						if s, ok := z.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
							elem(s.Val, s, "")
						}
					}
				}
			}
		case *ssa.Parameter:
			f := x.Parent()
			for i, p := range f.Params {
				if p != x {
					continue
				}
				for _, site := range w.callSites(f) {
					if cc, ok := site.(ssa.CallInstruction); ok && !isMock(site.Parent()) && i < len(cc.Common().Args) {
						list(cc.Common().Args[i])
					}
				}
			}
		}
	}
	list(v)
	return r
}

// spread: the elements of a list literal handed to a variadic parameter.
func spread(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var r []ssa.Value
	for _, u := range *a.Referrers() {
		if ia, ok := u.(*ssa.IndexAddr); ok {
			for _, z := range *ia.Referrers() {
				if s, ok := z.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
					r = append(r, s.Val)
				}
			}
		}
	}
	return r
}

func (c *Ctx) lineageKeys() {
	w := c.W
	prefixes := map[string]bool{}
	for f := range w.lineageTops() {
		name := fnName(f)
		// the list of ids given to the helper that takes the locks, or to the locker itself
		var lists []ssa.Value
		rl := w.Reaches(isLockPrim)
		makers := w.legMakers()
		rm := w.Reaches(func(g *ssa.Function) bool { return makers[g] })
		Instrs(f, func(in ssa.Instruction) {
			k, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			for _, g := range w.callees(in) {
				if rl[g] && !rm[g] && !w.api(g) || inPkg(g, lockPkg) && strings.HasPrefix(g.Name(), "New") {
					for _, a := range k.Common().Args {
						if a.Type().String() == "[]string" {
							lists = append(lists, a)
						}
					}
				}
			}
		})
		c.Check(len(lists) > 0, "keys", name, w.Pos(f.Pos()), "the list of lineage balances that is locked was not found")
		fields := map[string]bool{}
		n := 0
		for _, l := range lists {
			for _, k := range w.keyFields(l) {
				fl := k.field
				if i := strings.LastIndex(fl, "|"); i >= 0 {
					fl = fl[i+1:]
				}
				fields[fl] = true
				n++
				if lp := loopAround(k.in.Block()); lp != nil {
					c.Check(eachTurn(lp, k.in.Block()), "keys", name+" each "+trimBase(fl), w.Pos(k.in.Pos()), "not every balance of the loop joins the balances that are locked")
				}
			}
		}
		debit := callsDirect(w, f, func(g *ssa.Function) bool { return strings.HasPrefix(g.Name(), "GetLineageMappings") })
		ids := 0
		for x := range fields {
			if strings.HasSuffix(x, "BalanceID") && !strings.HasSuffix(x, "ShadowBalanceID") && !strings.HasSuffix(x, "AggregateBalanceID") {
				ids++
			}
		}
		if debit {
			has := func(s string) bool {
				for x := range fields {
					if strings.HasSuffix(x, s) {
						return true
					}
				}
				return false
			}
			c.Check(has("ShadowBalanceID"), "keys", name+" shadow", w.Pos(f.Pos()), "the sources' shadow balances are not locked: %v", sortedKeys(fields))
			c.Check(has("AggregateBalanceID"), "keys", name+" aggregate", w.Pos(f.Pos()), "the source's aggregate balance is not locked: %v", sortedKeys(fields))
			c.Check(ids >= 2, "keys", name+" destination", w.Pos(f.Pos()), "the receiving side's shadow and aggregate balance are not both locked: %v", sortedKeys(fields))
		} else {
			c.Check(ids >= 2, "keys", name+" balances", w.Pos(f.Pos()), "the shadow and aggregate balance are not both locked: %v", sortedKeys(fields))
		}
	}
	// one text per balance
	for _, f := range w.Funcs {
		if !inPkg(f, Mod) || isMock(f) {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			k, ok := in.(ssa.CallInstruction)
			if !ok || k.Common().StaticCallee() == nil || !inPkg(unwrap(k.Common().StaticCallee()), lockPkg) || !strings.HasPrefix(k.Common().StaticCallee().Name(), "New") {
				return
			}
			for _, a := range k.Common().Args {
				if a.Type().String() != "[]string" {
					continue
				}
				for _, x := range w.keyFields(a) {
					if i := strings.Index(x.field, "|"); i >= 0 && strings.Contains(x.field[:i], "lineage") {
						prefixes[x.field[:i]] = true
					}
				}
			}
		})
	}
	c.Check(len(prefixes) == 1, "keys", "text", "", "a lineage balance is locked under %d different texts: %v", len(prefixes), sortedKeys(prefixes))
}

func trimBase(s string) string {
	if i := strings.Index(s, "."); i >= 0 {
		return s[i+1:]
	}
	return s
}

func structLit(f *ssa.Function, typ string) []*ssa.Alloc {
	var r []*ssa.Alloc
	Instrs(f, func(in ssa.Instruction) {
		if a, ok := in.(*ssa.Alloc); ok && a.Type().String() == "*"+typ {
			for _, u := range *a.Referrers() {
				if fa, ok := u.(*ssa.FieldAddr); ok {
					for _, z := range *fa.Referrers() {
						if s, ok := z.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
							r = append(r, a)
							return
						}
					}
				}
			}
		}
	})
	return r
}

func (c *Ctx) lineageAvailable() {
	w := c.W
	for _, f := range w.Funcs {
		if !inPkg(f, Mod) || isMock(f) || f.Blocks == nil || len(structLit(f, srcT)) == 0 {
			continue
		}
		name := fnName(f)
		en := NewEngine(w)
		en.Affine = true
		en.MaxDepth = 3
		en.NoInline = func(g *ssa.Function) bool { return inPkg(g, Mod+"/database") }
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			for _, s := range appendedStructs(en, st, k, srcT) {
				where := w.Pos(k.Site.Pos())
				v := en.Val(st, s("Balance"))
				id := s("BalanceID")
				// the objects the value is made of
				var deb, cred *Term
				okForm := len(v.C) == 2
				for key, n := range v.C {
					t := v.T[key]
					if t == nil {
						okForm = false
						continue
					}
					x := t.String()
					if n == 1 && strings.HasSuffix(x, ".DebitBalance") {
						deb = t
					}
					if n == -1 && strings.HasSuffix(x, ".CreditBalance") {
						cred = t
					}
				}
				okForm = okForm && deb != nil && cred != nil
				c.Check(okForm, "available", name+" difference", where, "a source offers %s, not the difference of the two sides of its balance", v.Human())
				c.Check(en.Sign(st, v) == "+", "available", name+" positive", where, "a source is offered that has nothing left")
				if okForm {
					same := func(a, b *Term) bool {
						return strings.TrimSuffix(a.key, "") != "" && strings.Replace(a.String(), ".DebitBalance", "", 1) == strings.Replace(b.String(), ".CreditBalance", "", 1)
					}
					c.Check(same(deb, cred), "available", name+" one balance", where, "a source's two sides are those of different balances")
					own := deepMention(deb, func(t *Term) bool { return t.key == id.key }) || strings.Contains(deb.String(), id.String())
					c.Check(own, "available", name+" own", where, "a source is offered with the balance of another (%s for %s)", deb, id)
				}
			}
			return nil, false
		}
		en.Run(f, nil)
		c.Engine(en)
	}
}

// appendedStructs: readers of the fields of each struct of the type that the call appends to a list.
func appendedStructs(en *Engine, st *State, k *Call, typ string) []func(string) *Term {
	if k.Name != "append" || len(k.Args) != 2 {
		return nil
	}
	va, ok := en.VarArgs(st, k.Args[1])
	if !ok {
		return nil
	}
	var r []func(string) *Term
	for _, a := range va {
		t := ""
		if a.V != nil {
			t = a.V.Type().String()
		}
		if a.Op == "load" && a.Args[0].V != nil && t == "" {
			t = strings.TrimPrefix(a.Args[0].V.Type().String(), "*")
		}
		if t == "" {
			if cc, ok := k.Site.(ssa.CallInstruction); ok {
				t = strings.TrimPrefix(cc.Common().Args[0].Type().String(), "[]")
			}
		}
		if t != typ {
			continue
		}
		a := a
		r = append(r, func(n string) *Term { return en.fieldOf(st, a, n) })
	}
	return r
}

func (c *Ctx) lineageBounded() {
	w := c.W
	n := 0
	for _, f := range w.Funcs {
		if !inPkg(f, Mod) || isMock(f) || f.Blocks == nil || len(structLit(f, allocT)) == 0 || !takesType(f, "[]"+srcT) {
			continue
		}
		f := f
		n++
		name := fnName(f)
		var amount *ssa.Parameter
		for _, p := range f.Params {
			if p.Type().String() == "*math/big.Int" {
				amount = p
			}
		}
		if amount == nil {
			c.Fail("bounded", name, w.Pos(f.Pos()), "an allocation is computed without the amount to allocate")
			continue
		}
		en := NewEngine(w)
		en.Affine = true
		en.MaxDepth = 3
		var am *Term
		en.H.Instr = func(en *Engine, st *State, in ssa.Instruction, fr *Frame) {
			if fr.Fn == f && am == nil {
				am = en.Eval(st, fr, amount)
			}
		}
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			where := w.Pos(k.Site.Pos())
			if k.Name == "(*math/big.Int).Sub" && len(k.Args) == 3 {
				if a := st.vals["alloc"]; a != nil && k.Args[2].key == a.key && k.Args[0].key == k.Args[1].key {
					left := st.vals["left"]
					_ = left
					st.Del("taken")
					// what is left is at least what was taken
					if !st.Has("share") {
						d := en.Val(st, k.Args[1]).add(en.Val(st, k.Args[2]), -1)
						s := en.Sign(st, d)
						c.Check(s != "" && !strings.Contains(s, "-"), "bounded", name+" left", where, "an allocation may be more than what is left of the amount (%s may be negative)", d.Human())
					}
				}
			}
			if (k.Name == "(*math/big.Int).Div" || k.Name == "(*math/big.Int).Quo") && len(k.Args) == 3 && k.F.Fn == f {
				total := en.Val(st, k.Args[2])
				st.Del("share")
				if m := soleAtom(en.Val(st, k.Args[1])); m != nil && m.Op == "bigop" && m.Name == "Mul" && len(en.opVals[m.key]) == 2 {
					mo := en.opVals[m.key]
					isBal := func(l *Lin) bool { a := soleAtom(l); return a != nil && strings.HasSuffix(a.String(), ".Balance") }
					part := mo[0]
					if isBal(mo[0]) {
						part = mo[1]
					}
					if isBal(mo[0]) || isBal(mo[1]) {
						up := func(of *Lin) bool {
							s := en.Sign(st, of.add(part, -1))
							return s != "" && !strings.Contains(s, "-")
						}
						c.Check(up(en.Val(st, am)), "bounded", name+" share", where, "the sources' shares are of more than the amount")
						c.Check(up(total), "bounded", name+" total", where, "the sources' shares are of more than what they offer in total")
						st.Add("share")
					}
				}
			}
			for _, s := range appendedStructs(en, st, k, allocT) {
				a, id := s("Amount"), s("BalanceID")
				v := en.Val(st, a)
				c.Check(en.Sign(st, v) == "+", "bounded", name+" positive", where, "an allocation of nothing or less is made")
				// the source it is taken from
				own := strings.TrimSuffix(id.String(), ".BalanceID")
				c.Check(own != id.String(), "bounded", name+" source", where, "an allocation does not name the source it was computed from: %s", id)
				var bal *Term
				if id.Op == "load" && id.Args[0].Op == "field" {
					bal = en.field(st, id.Args[0].Args[0], "Balance")
				} else if len(id.Args) > 0 {
					bal = en.fieldOf(st, id.Args[0], "Balance")
				}
				if bal == nil {
					continue
				}
				b := en.Val(st, bal)
				d := b.add(v, -1)
				sg := en.Sign(st, d)
				if x := soleAtom(v); st.Has("share") && x != nil && x.Op == "bigop" {
					sg = "0+" // a share of no more than the total
				}
				c.Check(sg != "" && !strings.Contains(sg, "-"), "bounded", name+" source limit", where, "an allocation may be more than its source offers (%s may be negative)", d.Human())
				st.vals["alloc"] = a
				st.Add("taken")
			}
			return nil, false
		}
		en.H.AfterCall = nil
		en.H.Header = func(en *Engine, st *State, from, to *ssa.BasicBlock, fr *Frame, subs []PhiSub) {
			if fr.Fn != f || loopBlocks(to) == nil {
				return
			}
			if !to.Dominates(from) {
				for _, o := range en.mutatedIn(st, fr, to, "Sub") {
					s := en.Sign(st, en.Val(st, am).add(en.Val(st, o), -1))
					c.Check(s != "" && !strings.Contains(s, "-"), "bounded", name+" from", w.Pos(to.Instrs[0].Pos()), "what is left to allocate is more than the amount to begin with")
				}
			}
			en.widenNums(st, fr, to)
			c.Check(!st.Has("taken"), "bounded", name+" reduced", w.Pos(to.Instrs[0].Pos()), "what is left of the amount is not reduced by an allocation before the next source")
			st.Del("share")
			st.Del("divided")
			delete(st.vals, "alloc")
		}
		en.Run(f, nil)
		c.Engine(en)
	}
	c.Check(n >= 2, "bounded", "strategies", "", "fewer than two allocation strategies were found")
}

// mutatedIn: the big integers defined outside the loop that its blocks change (by the method, if one is named).
func (en *Engine) mutatedIn(st *State, fr *Frame, h *ssa.BasicBlock, method string) []*Term {
	var r []*Term
	body := loopBlocks(h)
	seen := map[string]bool{}
	for b := range body {
		for _, in := range b.Instrs {
			k, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			n := calleeName(k)
			if !strings.HasPrefix(n, "(*math/big.Int).") || len(k.Call.Args) == 0 {
				continue
			}
			n = n[len("(*math/big.Int)."):]
			switch n {
			case "Cmp", "CmpAbs", "Sign", "String", "Text", "Int64", "Uint64", "IsInt64", "BitLen", "Bytes", "IsUint64":
				continue
			}
			if method != "" && n != method {
				continue
			}
			v := k.Call.Args[0]
			if x, ok := v.(ssa.Instruction); ok && body[x.Block()] {
				if _, isPhi := v.(*ssa.Phi); !isPhi {
					if method == "" {
						o := en.Eval(st, fr, v)
						delete(st.num, o.key)
					}
					continue
				}
			}
			o := en.Eval(st, fr, v)
			if !seen[o.key] {
				seen[o.key] = true
				r = append(r, o)
			}
		}
	}
	return r
}

// widenNums forgets, at a loop's header, what its turns change.
func (en *Engine) widenNums(st *State, fr *Frame, h *ssa.BasicBlock) {
	id := "acc" + strconv.Itoa(h.Index)
	for _, o := range en.mutatedIn(st, fr, h, "") {
		st.num[o.key] = linAtom(en.mk("opaque", id+":"+o.key, nil, nil))
	}
	inBody := map[int]bool{}
	for b := range loopBlocks(h) {
		inBody[b.Index] = true
	}
	for k := range st.known {
		if strings.HasPrefix(k, "S|") && (strings.Contains(k, id+":") || strings.Contains(k, "phi:") || strings.Contains(k, "bigop") || strings.Contains(k, "elem")) {
			delete(st.known, k)
		}
	}
}

func soleAtom(l *Lin) *Term {
	if len(l.C) != 1 {
		return nil
	}
	for k, n := range l.C {
		if n == 1 {
			return l.T[k]
		}
	}
	return nil
}

func (c *Ctx) lineageRemaining() {
	w := c.W
	rest := map[*ssa.Function]bool{}
	byRef := func(f *ssa.Function) bool { return inPkg(f, Mod+"/database") && f.Name() == "GetTransactionByRef" }
	for _, f := range w.Funcs {
		if inPkg(f, Mod) && !isMock(f) && !w.api(f) && f.Blocks != nil && takesType(f, "[]"+mapT) && f.Signature.Results().Len() == 2 && f.Signature.Results().At(0).Type().String() == "*math/big.Int" && callsDirect(w, f, byRef) {
			rest[f] = true
		}
	}
	// what is allocated is what such a function returned, while positive
	allocs := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if inPkg(f, Mod) && !isMock(f) && takesType(f, "[]"+srcT) && takesType(f, "*math/big.Int") {
			allocs[f] = true
		}
	}
	for top := range w.lineageTops() {
		if !callsDirect(w, top, func(g *ssa.Function) bool { return allocs[g] }) {
			continue
		}
		top := top
		en := NewEngine(w)
		en.Affine = true
		en.MaxDepth = 1
		en.NoInline = func(g *ssa.Function) bool { return true }
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Fn == nil || !allocs[k.Fn] || k.Kind != "call" {
				return nil, false
			}
			for i := 0; i < k.Fn.Signature.Params().Len(); i++ {
				if k.Fn.Signature.Params().At(i).Type().String() != "*math/big.Int" {
					continue
				}
				a := k.Args[len(k.Args)-k.Fn.Signature.Params().Len()+i]
				from := a.Op == "res" && len(a.Args) == 1 && a.Args[0].V != nil && func() bool {
					cc, ok := a.Args[0].V.(*ssa.Call)
					return ok && cc.Call.StaticCallee() != nil && rest[unwrap(cc.Call.StaticCallee())]
				}()
				where := w.Pos(k.Site.Pos())
				c.Check(from, "remaining", fnName(top)+" amount", where, "what is allocated is %s, not what is left after the releases already booked", a)
				c.Check(!from || en.Sign(st, en.Val(st, a)) == "+", "remaining", fnName(top)+" positive", where, "an allocation is made although nothing is left to release")
			}
			return nil, false
		}
		en.Run(top, nil)
		c.Engine(en)
	}
	for f := range rest {
		f := f
		name := fnName(f)
		en := NewEngine(w)
		en.Affine = true
		en.MaxDepth = 2
		var tp *ssa.Parameter
		for _, p := range f.Params {
			if p.Type().String() == txnPtr {
				tp = p
			}
		}
		if tp == nil {
			c.Fail("remaining", name, w.Pos(f.Pos()), "what is left to release is computed without the transaction")
			continue
		}
		// the loop over the mappings, and the sum it keeps
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			where := w.Pos(k.Site.Pos())
			switch {
			case k.Method() == "TransactionExistsByRef" || k.Method() == "GetTransactionByRef":
				ps := en.Text(st, k.Args[len(k.Args)-1])
				good := len(ps) >= 3 && ps[0].Hole != nil && ps[0].Hole.String() == tp.Name()+".Reference" && ps[1].Hole == nil && c.legRoles[ps[1].Lit]
				c.Check(good, "remaining", name+" "+k.Method(), where, "it is not the reference a release takes that is looked up: %s", partsText(ps))
				ok, fail := en.Fork(st, k)
				if k.Method() == "TransactionExistsByRef" {
					st := ok
					st.Add("asked")
					return []*State{ok, fail}, true
				}
				ok.vals["prior"] = en.Res(ok, k, 0)
				return []*State{ok, fail}, true
			case k.Name == "(*math/big.Int).Add" && len(k.Args) == 3 && k.Args[0].key == k.Args[1].key:
				if p := st.vals["prior"]; p != nil && (k.Args[2].key == en.field(st, p, "PreciseAmount").key || k.Args[2].key == en.fieldOf(st, p, "PreciseAmount").key) {
					st.Add("added")
					st.vals["sum"] = k.Args[0]
				}
			}
			return nil, false
		}
		en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, fr *Frame) {
			for cond.Op == "un" && cond.Name == "!" {
				cond, taken = cond.Args[0], !taken
			}
			if strings.Contains(cond.String(), "TransactionExistsByRef") && cond.Op == "res" && !taken {
				st.Add("absent")
			}
		}
		en.H.Header = func(en *Engine, st *State, from, to *ssa.BasicBlock, fr *Frame, subs []PhiSub) {
			if fr.Fn != f || loopBlocks(to) == nil {
				return
			}
			if to.Dominates(from) {
				c.Check(st.Has("asked") && (st.Has("added") || st.Has("absent")), "remaining", name+" each", w.Pos(to.Instrs[0].Pos()), "a release that was already booked may not be counted")
			} else {
				for _, o := range en.mutatedIn(st, fr, to, "") {
					c.Check(en.Sign(st, en.Val(st, o)) == "0", "remaining", name+" start", w.Pos(to.Instrs[0].Pos()), "the sum of the releases already booked does not start at zero")
					st.vals["sum"] = o
				}
			}
			en.widenNums(st, fr, to)
			for _, x := range []string{"asked", "added", "absent"} {
				st.Del(x)
			}
			delete(st.vals, "prior")
		}
		en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, fr *Frame) {
			if en.Kind(st, res[1]) == "nonnil" {
				return
			}
			sum := st.vals["sum"]
			if sum == nil {
				c.Fail("remaining", name+" difference", w.Pos(in.Pos()), "what is left to release is computed without the releases already booked")
				return
			}
			want := en.Val(st, en.field(st, en.Eval(st, fr, tp), "PreciseAmount")).add(en.Val(st, sum), -1)
			got := en.Val(st, res[0])
			c.Check(got.Eq(want), "remaining", name+" difference", w.Pos(in.Pos()), "what is left to release is %s, not the amount less the releases already booked", got.Human())
		}
		en.Run(f, nil)
		c.Engine(en)
	}
	c.Check(len(rest) > 0, "remaining", "function", "", "the computation of what is left to release was not found")
}
