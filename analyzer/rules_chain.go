package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tokenPos = token.Pos

func init() { rules["C01"] = ruleC01; rules["C02"] = ruleC02 }

// equals are named sets of terms that denote the same value at the current point; they live in the state's registers.
type equals struct{ en *Engine }

func (e equals) reg(set string, t *Term) string { return e.regPlus(set, t, 0) }

// regPlus names t+k in a form in which sums with constants agree.
func (e equals) regPlus(set string, t *Term, k int64) string {
	t = t.unconv()
	for t.Op == "bin" && (t.Name == "+" || t.Name == "-") {
		if n, ok := t.Args[1].Int(); ok {
			if t.Name == "-" {
				n = -n
			}
			k += n
			t = t.Args[0].unconv()
			continue
		}
		if n, ok := t.Args[0].Int(); ok && t.Name == "+" {
			k += n
			t = t.Args[1].unconv()
			continue
		}
		break
	}
	if n, ok := t.Int(); ok {
		return fmt.Sprintf("eq:%s:%d", set, n+k)
	}
	if k == 0 {
		return "eq:" + set + ":" + t.key
	}
	return fmt.Sprintf("eq:%s:%s%+d", set, t.key, k)
}

func (e equals) add(st *State, set string, ts ...*Term) {
	for _, t := range ts {
		if t != nil {
			st.vals[e.reg(set, t)] = t.unconv()
		}
	}
}

func (e equals) has(st *State, set string, t *Term) bool {
	return t != nil && st.vals[e.reg(set, t)] != nil
}

func (e equals) all(st *State, set string) (r []*Term) {
	for _, k := range sortedKeys(st.vals) {
		if strings.HasPrefix(k, "eq:"+set+":") {
			r = append(r, st.vals[k])
		}
	}
	return
}

func (e equals) clear(st *State, set string) {
	for _, t := range e.all(st, set) {
		delete(st.vals, e.reg(set, t))
	}
}

func (e equals) set(st *State, set string, ts ...*Term) {
	e.clear(st, set)
	e.add(st, set, ts...)
}

// next: t is one more than a member of set.
func (e equals) next(st *State, set string, t *Term) bool {
	return st.vals[e.regPlus(set, t, -1)] != nil
}

// inLoopTerm: the term may denote something else on the next turn of the loop headed by h in frame f.
func inLoopTerm(t *Term, f *Frame, h *ssa.BasicBlock) bool {
	body := loopBlocks(h)
	return t.Mentions(func(x *Term) bool {
		fr := x.F
		v, _ := x.V.(ssa.Instruction)
		if fr == nil {
			return false
		}
		if fr == f {
			return v == nil || v.Block() != nil && body[v.Block()]
		}
		for g := fr; g.Caller != nil; g = g.Caller {
			if g.Caller == f && body[g.Site.Block()] {
				return true
			}
		}
		return false
	})
}

// header carries the sets over an edge into a block with phis.
func (e equals) header(st *State, to *ssa.BasicBlock, f *Frame, subs []PhiSub, sets ...string) {
	loop := loopBlocks(to) != nil
	for _, set := range sets {
		var adds []*Term
		for _, s := range subs {
			if e.has(st, set, s.Old) {
				adds = append(adds, s.New)
			}
		}
		if loop {
			for _, k := range sortedKeys(st.mem) {
				m := st.mem[k]
				if m.val.Op == "const" || !e.has(st, set, m.val) || !inLoopTerm(m.val, f, to) && m.val.Op != "ghost" {
					continue
				}
				g := e.en.mk("ghost", set+":"+m.addr.key, nil, nil)
				for k2, m2 := range st.mem {
					if k2 != k && m2.val == g {
						st.mem[k2] = memRec{m2.addr, e.en.mk("opaque", "stale:"+k2, nil, nil)}
					}
				}
				st.mem[k] = memRec{m.addr, g}
				adds = append(adds, g)
			}
			for _, t := range e.all(st, set) {
				if t.Op == "ghost" || inLoopTerm(t, f, to) {
					delete(st.vals, e.reg(set, t))
				}
			}
		}
		e.add(st, set, adds...)
	}
}

// stored keeps the sets up to date over a store whose value the engine may have abstracted.
func (e equals) stored(st *State, val, raw *Term, sets ...string) {
	if val.unconv() == raw.unconv() {
		return
	}
	for _, set := range sets {
		if e.has(st, set, raw) {
			e.add(st, set, val)
		} else if e.has(st, set, val) {
			delete(st.vals, e.reg(set, val))
		}
	}
}

// addrType is the type of the object an address term denotes.
func addrType(t *Term) types.Type {
	switch t.Op {
	case "alloc":
		return t.V.Type().Underlying().(*types.Pointer).Elem()
	case "field":
		b := addrType(t.Args[0])
		if b == nil {
			return nil
		}
		if p, ok := b.Underlying().(*types.Pointer); ok {
			b = p.Elem()
		}
		if s, ok := b.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == t.Name {
					return s.Field(i).Type()
				}
			}
		}
	case "index":
		if b := addrType(t.Args[0]); b != nil {
			switch u := b.Underlying().(type) {
			case *types.Slice:
				return u.Elem()
			case *types.Array:
				return u.Elem()
			}
		}
		if t.Args[0].V != nil {
			if s, ok := t.Args[0].V.Type().Underlying().(*types.Slice); ok {
				return s.Elem()
			}
		}
	case "load":
		return addrType(t.Args[0])
	default:
		if t.V != nil {
			return t.V.Type()
		}
	}
	return nil
}

// elemFields are the fields of the struct values put into the array of a variadic call.
func (en *Engine) elemFields(st *State, a *Term) map[string]*Term {
	r := map[string]*Term{}
	if a.Op != "slice" || a.Args[0].Op != "alloc" {
		return r
	}
	arr := a.Args[0]
	for _, m := range st.mem {
		if m.addr.Op == "field" && m.addr.Args[0].Op == "index" && m.addr.Args[0].Args[0] == arr {
			r[m.addr.Name] = m.val
		}
		if m.addr.Op == "index" && m.addr.Args[0] == arr {
			for n, t := range en.structFields(st, m.val, addrType(m.addr)) {
				r[n] = t
			}
		}
	}
	return r
}

func (en *Engine) structFields(st *State, v *Term, t types.Type) map[string]*Term {
	r := map[string]*Term{}
	if t == nil {
		return r
	}
	if p, ok := t.Underlying().(*types.Pointer); ok { // elements by address
		t = p.Elem()
		v = en.mk("load", "", nil, nil, v)
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			r[s.Field(i).Name()] = en.fieldOf(st, v, s.Field(i).Name())
		}
	}
	return r
}

// selText is the text of a select item without table qualifiers.
func selText(ts []Tok) string { return normConj(ts) }

// reads: the statement reads the table at its top level.
func (s *Stmt) reads(table string) bool {
	for _, t := range s.From {
		if t.Name == table {
			return true
		}
	}
	return false
}

// sealed are the columns that carry the chain.
var sealed = []string{"chain_seq", "chain_prev_hash", "chain_hash"}

func setsSealed(s *Stmt) bool {
	if s.Kind != "UPDATE" || s.Table != "transactions" {
		return false
	}
	for _, c := range sealed {
		if len(s.Set[c]) > 0 {
			return true
		}
	}
	return false
}

func isSealWrite(e WriteEff) bool {
	return e.Table == "chain_state" || e.Table == "transactions" && strings.Contains(e.Cols, "chain_")
}

// argOf is the bound parameter an expression consists of.
func argOf(ts []Tok, args []*Term) *Term {
	if len(ts) == 0 || ts[0].K != "p" {
		return nil
	}
	for _, t := range ts[1:] {
		if !t.op("::") && t.K != "w" {
			return nil
		}
	}
	var n int
	fmt.Sscanf(ts[0].S, "%d", &n)
	if n < 1 || n > len(args) {
		return nil
	}
	return args[n-1]
}

// rowExprs: for each scan whose destinations are fields of model.ChainRow, the expression each field is read from.
func (w *World) rowExprs() map[string]map[string]string {
	r := map[string]map[string]string{}
	for _, s := range w.CollectSQL().Scans {
		if s.Stmt == nil || !s.OK || isMock(s.Fn) {
			continue
		}
		items := s.Stmt.Sel
		m := map[string]string{}
		for i, d := range s.Dests {
			d = d.unconv()
			if d.Op != "field" {
				continue
			}
			t := addrType(d.Args[0])
			if t == nil || strings.TrimPrefix(types.TypeString(t, nil), "*") != Mod+"/model.ChainRow" {
				continue
			}
			e := "?"
			if i < len(items) {
				e = selText(items[i])
			}
			m[d.Name] = e
		}
		if len(m) > 0 {
			r[fnName(s.Fn)] = m
		}
	}
	return r
}

func (w *World) chainRowFields() (r []string) {
	if n := w.Type("model", "ChainRow"); n != nil {
		s := n.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			r = append(r, s.Field(i).Name())
		}
	}
	return
}

const chainHash = "model.ComputeChainHash"

func ruleC01(c *Ctx) {
	w := c.W
	c.Rule("only-sealer", "only the functions checked here write the chain columns or the chain state")
	c.Rule("head-locked", "the pending transactions are read and every chain write is made on the database transaction that has locked the chain state row (SELECT … FOR UPDATE)")
	c.Rule("pending-in-order", "the sealer takes only unsealed transactions (chain_seq IS NULL), in the order of their ids")
	c.Rule("link", "each link carries the next sequence number, the hash before it, the hash computed from that and the transaction's own row, and the id of that row")
	c.Rule("links-stored", "what is written into the chain columns are the fields of those links, for every link of the batch")
	c.Rule("head-advanced", "a commit after links were made is reached only after all of them were stored and the chain state was set to the last sequence number and hash")
	c.Rule("no-commit-after-failure", "no commit on a path where a statement of the sealing failed; success only after a commit")
	direct, all := w.SQLEffects()
	roots := map[*ssa.Function]bool{}
	for f, es := range all {
		for e := range es {
			if isSealWrite(e) && !isMock(f) && inPkg(f, Mod+"/database") {
				top := true
				for _, g := range w.callers[f] {
					if inPkg(g, Mod+"/database") && g != f && !isMock(g) {
						top = false
					}
				}
				if top && f.Parent() == nil {
					roots[f] = true
				}
			}
		}
	}
	for f, es := range direct {
		for e := range es {
			if !isSealWrite(e) || isMock(f) {
				continue
			}
			ok := roots[f]
			for r := range roots {
				ok = ok || w.ReachableFrom(r)[f]
			}
			c.Check(ok, "only-sealer", fnName(f)+" "+e.Kind+" "+e.Table, w.Pos(f.Pos()), "%s writes %s outside the sealing of the chain", fnName(f), e.Table)
		}
	}
	c.Floor("only-sealer", 2)
	for _, r := range sortedFns(roots) {
		w.sealer(c, r)
	}
	for _, rule := range []string{"head-locked", "pending-in-order", "link", "links-stored", "head-advanced"} {
		c.Floor(rule, 1)
	}
	c.Floor("no-commit-after-failure", 1)
	F := w.TxFlow()
	for _, rule := range []string{"no-commit-after-failure", "success-after-commit", "on-handle"} {
		for k := range F.Seen {
			p := strings.SplitN(k, "|", 2)
			if p[0] != rule {
				continue
			}
			for r := range roots {
				if p[1] == fnName(r) || strings.HasPrefix(p[1], fnName(r)+" in ") {
					v, bad := F.Viol[k]
					c.Check(!bad, "no-commit-after-failure", rule+" "+p[1], F.Seen[k], "%s", v)
				}
			}
		}
	}
}

// sealer follows the sealing of a batch, keeping what denotes the last sequence number and the head hash.
func (w *World) sealer(c *Ctx, root *ssa.Function) {
	const N, H = "seq", "head"
	con := fnName(root)
	fields := map[string]string{} // column -> field of the link struct it is written from
	roles := map[string]string{}  // field of the link struct -> column it stands for
	usedAt := map[string]string{}
	covs := map[*ssa.BasicBlock]*ssa.BasicBlock{} // headers of write loops over a whole slice -> exit
	headers := map[*ssa.BasicBlock]bool{}
	final := false
	bad := func(rule, what, where, f string, a ...any) {
		if final {
			c.Fail(rule, what, where, f, a...)
		}
	}
	good := func(rule, what, where string) {
		if final {
			c.Ok(rule, what, where)
		}
	}
	touches := w.Reaches(func(f *ssa.Function) bool {
		return w.callsName(f, func(n string) bool {
			return strings.Contains(n, "database/sql.") || strings.HasSuffix(n, ".ComputeChainHash")
		})
	})
	var reach map[*ssa.Function]bool = w.ReachableFrom(root)
	mk := func() *Engine {
		en := NewEngine(w)
		en.SmallMax, en.MaxDepth, en.Copies = 6, 8, true
		en.Relevant = map[*ssa.Function]bool{}
		for f := range reach {
			if inPkg(f, Mod+"/database") {
				en.Relevant[f] = true
			}
			if touches[f] {
				en.Relevant[f] = true
			}
		}
		en.NoInline = func(f *ssa.Function) bool {
			return fnName(f) == chainHash || inPkg(f, Mod+"/internal/apierror")
		}
		eq := equals{en}
		link := func(st *State, m map[string]*Term, where string) {
			// the hash identifies a link
			for _, hf := range sortedKeys(m) {
				h := m[hf]
				prev := st.vals["hp:"+h.unconv().key]
				row := st.vals["hr:"+h.unconv().key]
				if prev == nil || row == nil {
					continue
				}
				pf, sf, idf := "", "", ""
				for _, n := range sortedKeys(m) {
					t := m[n].unconv()
					switch {
					case n == hf:
					case t == prev.unconv() && eq.has(st, H, t):
						pf = n
					case st.Has("fresh") && eq.has(st, "next", t), eq.next(st, N, t):
						sf = n
					case t.Op == "opaque" && t.Name == "scan:id":
						idf = n
					}
				}
				if !eq.has(st, H, prev) {
					bad("link", con+" hash", where, "the hash of a link is not computed from the hash before it")
				} else if pf == "" {
					bad("link", con+" previous hash", where, "a link does not carry the hash its own was computed from")
				} else {
					good("link", con+" hash", where)
				}
				if sf == "" {
					bad("link", con+" sequence", where, "a link does not carry the next sequence number")
				} else {
					good("link", con+" sequence", where)
				}
				if idf == "" {
					bad("link", con+" id", where, "a link does not carry the id of a scanned transaction")
				} else {
					at := m[idf].unconv()
					for _, fld := range w.chainRowFields() {
						t := en.fieldOf(st, row, fld).unconv()
						if t.Op != "opaque" || !strings.HasPrefix(t.Name, "scan:") || t.V != at.V {
							bad("link", con+" row field "+fld, where, "the hash is not computed from the %s of the row the link is for", fld)
						} else {
							good("link", con+" row field "+fld, where)
						}
					}
				}
				for f, col := range map[string]string{hf: "chain_hash", pf: "chain_prev_hash", sf: "chain_seq", idf: "id"} {
					if f == "" {
						continue
					}
					if o := roles[f]; o != "" && o != col {
						bad("link", con+" field "+f, where, "the field %s of a link stands for %s in one place and %s in another", f, o, col)
					}
					roles[f] = col
				}
				if sf != "" {
					nx := eq.all(st, "next")
					if !eq.has(st, "next", m[sf]) {
						nx = nil
					}
					eq.set(st, N, append(nx, m[sf])...)
				}
				eq.clear(st, "next")
				st.Del("fresh")
				eq.set(st, H, h)
				st.Add("unsaved")
				st.Add("unadvanced")
				st.Del("stored")
				return
			}
		}
		en.H.AfterCall = func(en *Engine, st *State, k *Call) {
			if k.Fn != nil && fnName(k.Fn) == chainHash && len(k.Args) == 2 {
				r := en.Res(st, k, 0).unconv()
				st.vals["hp:"+r.key] = k.Args[0].unconv()
				st.vals["hr:"+r.key] = k.Args[1]
			}
			if k.Name == "append" && len(k.Args) == 2 {
				if m := en.elemFields(st, k.Args[1]); len(m) > 0 {
					link(st, m, w.Pos(k.Site.Pos()))
				}
			}
		}
		en.H.Store = func(en *Engine, st *State, addr, val *Term, in ssa.Instruction, f *Frame) {
			if x, ok := in.(*ssa.Store); ok {
				raw := en.Eval(st, f, x.Val)
				if eq.next(st, N, raw) {
					eq.set(st, "next", raw, val)
					st.Add("fresh")
				}
				eq.stored(st, val, raw, H)
				if !st.Has("fresh") {
					eq.stored(st, val, raw, N)
				}
				if addr.Op == "index" && (addr.Args[0].Op != "alloc" || !strings.Contains(addr.Args[0].V.(*ssa.Alloc).Comment, "varargs")) {
					if m := en.structFields(st, val, x.Val.Type()); len(m) > 0 {
						link(st, m, w.Pos(in.Pos()))
					}
				}
			}
		}
		en.H.Header = func(en *Engine, st *State, from, to *ssa.BasicBlock, f *Frame, subs []PhiSub) {
			eq.header(st, to, f, subs, N, H, "next")
		}
		en.H.Edge = func(en *Engine, st *State, from, to *ssa.BasicBlock, f *Frame) {
			if x, ok := covs[from]; ok && to == x {
				st.Add("stored")
			}
		}
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			where := ""
			if k.Site != nil {
				where = w.Pos(k.Site.Pos())
			}
			switch {
			case isBegin(k.Name):
				ok, fail := en.Fork(st, k)
				ok.vals["tx"] = en.Res(ok, k, 0).Strip()
				ok.Del("locked")
				return []*State{ok, fail}, true
			case k.Name == "(*database/sql.Tx).Commit":
				if st.Has("unadvanced") {
					bad("head-advanced", con+" state", where, "the batch is committed although the chain state was not moved to its last link")
				} else if st.Has("linked") {
					good("head-advanced", con+" state", where)
				}
				if st.Has("unsaved") && !st.Has("stored") {
					bad("head-advanced", con+" links", where, "the batch is committed although not every link of it was stored")
				} else if st.Has("linked") {
					good("head-advanced", con+" links", where)
				}
				ok, fail := en.Fork(st, k)
				return []*State{ok, fail}, true
			}
			if isScanName(k) {
				q, ok := st.vals["rows:"+k.Args[0].Strip().key]
				if !ok {
					return nil, false
				}
				text, _ := q.Str()
				s := parseSQL(text)
				en.opaque(k.F, st, k)
				d, ok := en.VarArgs(st, k.Args[len(k.Args)-1])
				if !ok {
					bad("link", con+" scan", where, "the destinations of a scan could not be followed")
					return []*State{st}, true
				}
				for i, a := range d {
					a = a.unconv()
					if i < len(s.Sel) && (a.Op == "alloc" || a.Op == "field") {
						o := en.mk("opaque", "scan:"+selText(s.Sel[i]), k.siteVal(), k.F)
						en.SetMem(st, a, o)
						if s.reads("chain_state") {
							switch selText(s.Sel[i]) {
							case "last_seq":
								eq.set(st, N, o)
							case "head_hash":
								eq.set(st, H, o)
							}
						}
					}
				}
				if i := ErrIndex(k.Sig); i >= 0 && k.Value != nil {
					fail := st.Clone()
					t := en.Res(st, k, i)
					st.known[t.key] = knownRec{"nil", t}
					fail.known[t.key] = knownRec{"nonnil", t}
					return []*State{st, fail}, true
				}
				return []*State{st}, true
			}
			ev := en.SQLOf(st, k)
			if ev == nil {
				return nil, false
			}
			text := Flat(ev.Text)
			var h *Term
			switch ev.Recv {
			case "Tx":
				h = ev.Handle.Strip()
			case "Stmt":
				h = st.vals["stmttx:"+ev.Handle.Strip().key]
			}
			onTx := h != nil && h == st.vals["tx"]
			s := parseSQL(text)
			ok, fail := st, (*State)(nil)
			if ev.Op != "QueryRow" {
				ok, fail = en.Fork(st, k)
			} else {
				en.opaque(k.F, st, k)
			}
			out := []*State{ok}
			if fail != nil {
				out = append(out, fail)
			}
			if ev.Op == "Prepare" {
				if ev.Recv == "Tx" {
					ok.vals["stmttx:"+en.Res(ok, k, 0).Strip().key] = ev.Handle.Strip()
				}
				return out, true
			}
			if k.Value != nil && (ev.Op == "Query" || ev.Op == "QueryRow") {
				ct := en.callTerm(ok, k.F, k.Value)
				if ev.Op == "Query" {
					ct = en.mk("res", "0", nil, nil, ct)
				}
				ok.vals["rows:"+ct.key] = en.strTerm(text)
			}
			if s == nil {
				return out, true
			}
			tail := strings.ToUpper(strings.Join(strings.Fields(s.Tail), " "))
			if s.Kind == "SELECT" && s.reads("chain_state") {
				if onTx && strings.Contains(tail, "FOR UPDATE") && !strings.Contains(tail, "SKIP LOCKED") {
					ok.Add("locked")
				}
				return out, true
			}
			if s.Kind == "SELECT" && s.reads("transactions") {
				c1 := con + " pending"
				if !ok.Has("locked") || !onTx {
					bad("head-locked", c1, where, "the transactions to seal are read before the chain state is locked, or outside that database transaction")
				} else {
					good("head-locked", c1, where)
				}
				unsealed := false
				for _, cj := range s.Where {
					if normConj(cj) == "chain_seq is null" {
						unsealed = true
					}
				}
				if !unsealed || !s.WhereOK {
					bad("pending-in-order", con+" unsealed", where, "the transactions to seal are not restricted to those without a sequence number")
				} else {
					good("pending-in-order", con+" unsealed", where)
				}
				first := ""
				if o := splitTop(s.OrderBy, comma); len(o) > 0 {
					first = strings.TrimPrefix(selText(o[0]), "order by ")
				}
				if first != "id" && first != "id asc" {
					bad("pending-in-order", con+" order", where, "the transactions to seal are taken in the order of %q, not of their ids", first)
				} else {
					good("pending-in-order", con+" order", where)
				}
				return out, true
			}
			for _, x := range s.Writes("") {
				seal, state := setsSealed(x), x.Table == "chain_state"
				if !seal && !state {
					continue
				}
				what := con + " " + x.Table
				if !ok.Has("locked") || !onTx {
					bad("head-locked", what, where, "%s is written before the chain state is locked, or outside that database transaction", x.Table)
				} else {
					good("head-locked", what, where)
				}
				if state {
					seq, hd := argOf(x.Set["last_seq"], ev.Args), argOf(x.Set["head_hash"], ev.Args)
					if x.Kind != "UPDATE" || seq == nil || hd == nil || !eq.has(ok, N, seq) || !eq.has(ok, H, hd) {
						bad("head-advanced", con+" values", where, "the chain state is not set to the sequence number and hash of the last link")
					} else {
						good("head-advanced", con+" values", where)
						ok.Del("unadvanced")
					}
					continue
				}
				ok.Add("linked")
				var id *Term
				for _, cj := range x.Where {
					if n := normConj(cj); strings.HasPrefix(n, "id =") && len(cj) >= 3 {
						id = argOf(cj[len(cj)-1:], ev.Args)
					}
				}
				vals := map[string]*Term{"id": id}
				for _, col := range sealed {
					vals[col] = argOf(x.Set[col], ev.Args)
				}
				same := true
				for col, t := range vals {
					if t == nil {
						bad("links-stored", con+" "+col, where, "the column %s is not written from a bound value of the link", col)
						same = false
						continue
					}
					b := t.Strip()
					if b.Op != "field" && b.Op != "fieldv" {
						same = false
					}
				}
				if !same {
					// written as it is made
					m := map[string]*Term{}
					for col, t := range vals {
						if t != nil {
							m[col] = t
						}
					}
					before := ok.Has("unsaved")
					link(ok, m, where)
					if !before && ok.Has("unsaved") {
						ok.Add("stored")
					}
					continue
				}
				for col, t := range vals {
					b := t.Strip()
					if o := fields[col]; o != "" && o != b.Name {
						bad("links-stored", con+" "+col, where, "the column %s is written from both %s and %s", col, o, b.Name)
					}
					fields[col] = b.Name
					usedAt[col] = where
				}
				ci, isC := k.Site.(ssa.CallInstruction)
				var cov *coverage
				if isC {
					va := ci.Common().Args[len(ci.Common().Args)-1]
					for _, v := range variadicElems(va) {
						if g := vctxOf(k.F).covers(v); g != nil && len(g.Lo) == 0 && g.Hi.eq(aff{"len:" + g.Slice: 1}) {
							cov = g
						}
					}
				}
				if cov == nil || !eachTurn(cov.Header, k.Site.Block()) || !leavesOnlyFailing(cov.Header) {
					bad("links-stored", con+" every link", where, "the links are not stored in a loop over the whole batch that every turn runs through")
				} else {
					good("links-stored", con+" every link", where)
					covs[cov.Header] = cov.Exit
					headers[cov.Header] = true
				}
			}
			return out, true
		}
		return en
	}
	for i := 0; i < 2; i++ {
		final = i == 1
		en := mk()
		en.Run(root, nil)
		if final {
			c.Engine(en)
		}
	}
	for col, f := range fields {
		if f == "" {
			continue
		}
		c.Check(roles[f] == col, "links-stored", con+" "+col, usedAt[col], "the column %s is written from %s, which holds %s of the link", col, f, orNone(roles[f]))
	}
}

func orNone(s string) string {
	if s == "" {
		return "nothing known"
	}
	return s
}

// variadicElems are the values put into the array behind a variadic argument.
func variadicElems(v ssa.Value) (r []ssa.Value) {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return
	}
	for _, x := range *al.Referrers() {
		if ia, ok := x.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
			for _, y := range *ia.Referrers() {
				if st, ok := y.(*ssa.Store); ok && st.Addr == ia {
					v := st.Val
					if mi, ok := v.(*ssa.MakeInterface); ok {
						v = mi.X
					}
					r = append(r, v)
				}
			}
		}
	}
	return
}

func ruleC02(c *Ctx) {
	w := c.W
	c.Rule("hash-covers", "the chain hash is a SHA-2 digest computed from the previous hash and every field of the sealed row, none of them cut or rounded below the database's precision")
	c.Rule("same-reading", "every field of the sealed row is read from the same column expression wherever a row is read for sealing or for verification")
	c.Rule("page-in-order", "the sealed rows are read for verification by sequence number, all of them after the last one seen, in ascending order")
	c.Rule("row-checked", "the verification goes on to the next row only after the row's sequence number, previous hash and recomputed hash were found equal to what is expected")
	c.Rule("all-rows", "the rows of each page are all gone through, each page starts after the last row checked, and success needs a page that came back empty")
	c.Rule("tail", "success needs the recorded last sequence number to be reached and the recorded head hash to match at that length")
	c.Rule("reads-succeed", "success is not reported on a path where reading the chain failed")
	c.Rule("caller-reports", "whoever asks for a verification fails when it did not succeed")
	w.hashCovers(c)
	c.Floor("hash-covers", 4)
	// reading
	ex := w.rowExprs()
	fields := w.chainRowFields()
	c.Floor("same-reading", len(fields)*2)
	c.Check(len(fields) >= 5, "same-reading", "model.ChainRow", "", "the fields of model.ChainRow could not be found")
	var first string
	for _, fn := range sortedKeys(ex) {
		if first == "" {
			first = fn
		}
		for _, f := range fields {
			e := ex[fn][f]
			c.Check(e != "" && e != "?" && e == ex[first][f], "same-reading", fn+" "+f, w.Pos(w.posOf(fn)), "%s reads %s from %q, %s from %q", fn, f, e, first, ex[first][f])
		}
		// one column per field
		seen := map[string]string{}
		for _, f := range fields {
			e := ex[fn][f]
			if o := seen[e]; o != "" {
				c.Fail("same-reading", fn+" "+f, "", "%s and %s are read from the same column", o, f)
			}
			seen[e] = f
		}
	}
	pagers := map[*ssa.Function]bool{}
	for _, s := range w.CollectSQL().Sites {
		if isMock(s.Fn) {
			continue
		}
		for _, e := range s.Events {
			st := e.Stmt
			if st == nil || st.Kind != "SELECT" || !st.reads("transactions") || !selects(st, "chain_hash") {
				continue
			}
			con := fnName(s.Fn)
			pagers[e.Root] = true
			pos := w.Pos(s.Site.Pos())
			after := false
			for _, cj := range st.Where {
				switch n := normConj(cj); {
				case strings.HasPrefix(n, "chain_seq >") && len(cj) >= 3 && cj[len(cj)-1].K == "p" && !strings.HasPrefix(n, "chain_seq >="):
					after = true
				case n == "chain_seq is not null":
				default:
					c.Fail("page-in-order", con+" filter", pos, "the sealed rows read for verification are restricted by %q", n)
				}
			}
			c.Check(after && st.WhereOK && len(st.From) == 1, "page-in-order", con+" filter", pos, "the sealed rows are not those after the last sequence number seen")
			ord := ""
			if o := splitTop(st.OrderBy, comma); len(o) > 0 {
				ord = strings.TrimPrefix(selText(o[0]), "order by ")
			}
			c.Check(ord == "chain_seq" || ord == "chain_seq asc", "page-in-order", con+" order", pos, "the sealed rows are read in the order of %q", ord)
		}
	}
	c.Floor("page-in-order", 2)
	w.verifier(c, pagers)
	for _, r := range []string{"row-checked", "all-rows", "tail", "reads-succeed"} {
		c.Floor(r, 1)
	}
}

func (w *World) posOf(fn string) (p tokenPos) {
	if f := w.Func(fn); f != nil {
		return f.Pos()
	}
	return
}

func selects(s *Stmt, col string) bool {
	for _, it := range s.Sel {
		for _, t := range it {
			if t.is(col) {
				return true
			}
		}
	}
	return false
}

// flow follows a value forward, also through every function outside the module.
func (w *World) flow(v ssa.Value, visit func(use ssa.Instruction, v ssa.Value)) {
	seen := map[ssa.Value]bool{}
	var follow func(use ssa.Instruction, v ssa.Value)
	follow = func(use ssa.Instruction, v ssa.Value) {
		visit(use, v)
		k, ok := use.(*ssa.Call)
		if !ok || isBool(k.Type()) || isErr(k.Type()) {
			return
		}
		if g := k.Call.StaticCallee(); g == nil || !w.InModule(g) {
			if g != nil && g.Signature.Recv() != nil && len(k.Call.Args) > 1 && k.Call.Args[0] != v { // written into a builder or buffer
				w.forward(k.Call.Args[0], seen, follow)
			}
			w.forward(k, seen, follow)
		}
	}
	inner := follow
	follow = func(use ssa.Instruction, v ssa.Value) {
		if ia, ok := use.(*ssa.IndexAddr); ok && ia.X == v {
			if _, ok := v.Type().Underlying().(*types.Slice); ok {
				w.forward(ia, seen, follow)
			}
		}
		inner(use, v)
	}
	w.forward(v, seen, follow)
}

// hashCovers: what goes into the digest.
func (w *World) hashCovers(c *Ctx) {
	f := w.Func(chainHash)
	if f == nil {
		return
	}
	pos := w.Pos(f.Pos())
	digest := func(n string) bool {
		switch n {
		case "crypto/sha256.Sum256", "crypto/sha512.Sum512", "crypto/sha512.Sum512_256", "crypto/sha256.New", "crypto/sha512.New":
			return true
		}
		return false
	}
	// what reaches a digest
	reaches := func(v ssa.Value) (hit bool, cutAt string) {
		w.flow(v, func(in ssa.Instruction, u ssa.Value) {
			if k, ok := in.(ssa.CallInstruction); ok {
				n := ""
				if g := k.Common().StaticCallee(); g != nil {
					n = g.String()
				}
				if digest(n) || k.Common().IsInvoke() && k.Common().Method.Name() == "Write" && strings.HasPrefix(k.Common().Value.Type().String(), "hash.") || k.Common().IsInvoke() && k.Common().Method.Name() == "Write" && k.Common().Value.Type().String() == "io.Writer" {
					hit = true
					return
				}
				switch n {
				case "(time.Time).Truncate", "(time.Time).Round", "(time.Time).Unix", "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Trim", "(time.Time).UnixMilli", "(time.Time).Date", "(time.Time).Clock":
					cutAt = n
				case "(time.Time).Format":
					if a := k.Common().Args; len(a) == 2 {
						l, ok := a[1].(*ssa.Const)
						if !ok || !strings.Contains(l.Value.ExactString(), ".999999") && !strings.Contains(l.Value.ExactString(), ".000000") || !strings.Contains(l.Value.ExactString(), "05") || !strings.Contains(l.Value.ExactString(), "2006") {
							cutAt = "a layout that drops part of the time"
						}
					}
				}
			}
			if _, ok := in.(*ssa.Slice); ok {
				if x := in.(*ssa.Slice); x.Low != nil || x.High != nil {
					cutAt = "a slice of it"
				}
			}
		})
		return
	}
	for i, p := range f.Params {
		if s := structOf(p.Type()); s != nil && strings.HasSuffix(typeName(p.Type()), "ChainRow") {
			for k := 0; k < s.NumFields(); k++ {
				name := s.Field(k).Name()
				hit, cut := false, ""
				for _, v := range w.fieldReads(f, p, k) {
					h, x := reaches(v)
					if h && x == "" {
						hit = true
						cut = ""
						break
					}
					if h {
						cut = x
					}
				}
				c.Check(hit, "hash-covers", name, pos, "the field %s of a sealed row does not go into the chain hash whole%s", name, because(cut))
			}
			continue
		}
		hit, cut := reaches(p)
		c.Check(hit && cut == "", "hash-covers", fmt.Sprintf("parameter %d", i), pos, "the previous hash does not go into the chain hash whole%s", because(cut))
	}
	// fields are kept apart
	for g := range w.ReachableFrom(f) {
		Instrs(g, func(in ssa.Instruction) {
			if k, ok := in.(*ssa.Call); ok && k.Call.StaticCallee() != nil && k.Call.StaticCallee().String() == "strings.Join" {
				s, ok := k.Call.Args[1].(*ssa.Const)
				c.Check(ok && s.Value != nil && s.Value.ExactString() != `""`, "hash-covers", "separator", w.Pos(k.Pos()), "the fields are joined without a separator: text moved from one to the next leaves the hash as it was")
			}
		})
	}
	// the result is the digest, whole
	res := false
	Instrs(f, func(in ssa.Instruction) {
		if k, ok := in.(*ssa.Call); ok && k.Call.StaticCallee() != nil && strings.HasPrefix(k.Call.StaticCallee().String(), "crypto/sha") {
			cut := false
			w.flow(k, func(in ssa.Instruction, u ssa.Value) {
				if x, ok := in.(*ssa.Slice); ok && (x.Low != nil || x.High != nil) {
					cut = true
				}
				if r, ok := in.(*ssa.Return); ok && r.Parent() == f {
					res = true
				}
			})
			res = res && !cut
		}
	})
	c.Check(res, "hash-covers", "result", pos, "the chain hash returned is not the whole digest")
}

func because(s string) string {
	if s == "" {
		return ""
	}
	return " (" + s + ")"
}

// fieldReads are the values read from field k of a struct parameter (itself, or the local it is spilled to).
func (w *World) fieldReads(f *ssa.Function, p *ssa.Parameter, k int) (r []ssa.Value) {
	var from func(v ssa.Value, d int)
	from = func(v ssa.Value, d int) {
		if v.Referrers() == nil || d > 4 {
			return
		}
		for _, x := range *v.Referrers() {
			switch y := x.(type) {
			case *ssa.Field:
				if y.Field == k {
					r = append(r, y)
				}
			case *ssa.FieldAddr:
				if y.Field == k {
					r = append(r, y)
				}
			case *ssa.Store:
				if y.Val == v {
					from(y.Addr, d+1)
				}
			case *ssa.UnOp:
				from(y, d+1)
			case ssa.CallInstruction:
				if g := y.Common().StaticCallee(); g != nil && w.InModule(g) {
					for i, a := range y.Common().Args {
						if a == v && i < len(g.Params) {
							from(g.Params[i], d+1)
						}
					}
				}
			}
		}
	}
	from(p, 0)
	return
}

// verifier follows every function that reads pages of the chain and reports whether it is intact.
func (w *World) verifier(c *Ctx, pagers map[*ssa.Function]bool) {
	const L, E, G, GN, EN = "last", "expected", "head", "head'", "expected'"
	isPager := func(k *Call) bool {
		for _, t := range k.all() {
			if pagers[t] {
				return true
			}
			if t.Object() != nil && t.Signature.Recv() != nil {
				for p := range pagers {
					if p.Object() != nil && p.Name() == t.Name() && inPkg(t, Mod+"/database") {
						return true
					}
				}
			}
		}
		return false
	}
	res := w.Type("", "ChainVerifyResult")
	if res == nil {
		c.Fail("row-checked", "anchor", "", "the type ChainVerifyResult was not found")
		return
	}
	roots := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if f.Signature.Results().Len() > 0 && types.Identical(f.Signature.Results().At(0).Type(), res) && w.api(f) && !isMock(f) {
			roots[f] = true
		}
	}
	for _, root := range sortedFns(roots) {
		con := fnName(root)
		reach := w.ReachableFrom(root)
		bad := func(rule, what, where, f string, a ...any) { c.Fail(rule, con+" "+what, where, f, a...) }
		good := func(rule, what, where string) { c.Ok(rule, con+" "+what, where) }
		covs := map[*ssa.BasicBlock]*coverage{}
		for pass := 0; pass < 2; pass++ {
			final := pass == 1
			en := NewEngine(w)
			en.SmallMax, en.MaxDepth, en.Copies = 12, 6, true
			eq := equals{en}
			en.Relevant = map[*ssa.Function]bool{}
			for f := range reach {
				if inPkg(f, Mod) && f.Pkg == root.Pkg && w.File(f.Pos()) == w.File(root.Pos()) {
					en.Relevant[f] = true
				}
			}
			en.NoInline = func(f *ssa.Function) bool { return fnName(f) == chainHash || !inPkg(f, Mod) }
			isRow := func(t *Term, name string) bool { return t.IsField(name) }
			elemOf := func(t *Term) *Term { t = t.Strip(); return t.Args[0].Strip() }
			fails := func(st *State, what string) { st.Add("readfail:" + what) }
			en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
				if isPager(k) {
					where := w.Pos(k.Site.Pos())
					var after *Term
					for i := 2; i < len(k.Args); i++ {
						if k.Args[i].V == nil || true {
							after = k.Args[i]
							break
						}
					}
					if final {
						if after == nil || !eq.has(st, L, after) {
							bad("all-rows", "page start", where, "a page does not start after the last row checked")
						} else {
							good("all-rows", "page start", where)
						}
					}
					if st.Has("page") {
						if final {
							bad("all-rows", "rows skipped", where, "the next page is read before every row of the page was checked")
						}
					}
					ok, fail := en.Fork(st, k)
					ok.Add("page")
					ok.Del("empty")
					ok.vals["rows"] = en.Res(ok, k, 0).Strip()
					fails(fail, "page")
					return []*State{ok, fail}, true
				}
				if dsMethod(k, "GetChainState") {
					ok, fail := en.Fork(st, k)
					ok.vals["state"] = en.Res(ok, k, 0).Strip()
					fails(fail, "state")
					eq.set(ok, G, en.mk("load", "", nil, nil, en.mk("field", "GenesisHash", nil, nil, en.Res(ok, k, 0))))
					return []*State{ok, fail}, true
				}
				return nil, false
			}
			en.H.AfterCall = func(en *Engine, st *State, k *Call) {
				if k.Fn != nil && fnName(k.Fn) == chainHash && len(k.Args) == 2 {
					r := en.Res(st, k, 0).unconv()
					st.vals["hp:"+r.key] = k.Args[0].unconv()
					st.vals["hr:"+r.key] = k.Args[1]
				}
			}
			state := func(st *State, t *Term, name string) bool {
				return t.IsField(name) && st.vals["state"] != nil && t.Strip().Args[0].Strip() == st.vals["state"]
			}
			isG := func(st *State, t *Term) bool {
				if s, ok := t.Str(); ok && !st.Has("started") {
					return len(s) == 64 && strings.Trim(s, "0") == ""
				}
				return eq.has(st, G, t)
			}
			holds := func(st *State, cond *Term, taken bool) {
				cond, pol := norm(cond)
				if !pol {
					taken = !taken
				}
				if cond.Op != "bin" || len(cond.Args) != 2 {
					return
				}
				a, b := cond.Args[0], cond.Args[1]
				for i := 0; i < 2; i++ {
					x, y := a, b
					if i == 1 {
						x, y = b, a
					}
					if cond.Name == "==" {
						if ln := x.unconv(); ln.Op == "len" && st.vals["rows"] != nil && ln.Args[0].Strip() == st.vals["rows"] {
							if n, ok := y.Int(); ok && n == 0 && taken {
								st.Add("empty")
								st.Del("page")
							}
						}
						if isRow(x, "ChainSeq") && taken && !st.Has("seq-ok") && (eq.has(st, E, y) || eq.next(st, L, y)) {
							st.Add("seq-ok")
							eq.set(st, EN, y, x)
						}
						if isRow(x, "ChainPrevHash") && taken && isG(st, y) {
							st.Add("prev-ok")
						}
						if isRow(x, "ChainHash") && taken {
							h := y.unconv()
							p, r := st.vals["hp:"+h.key], st.vals["hr:"+h.key]
							if p != nil && isG(st, p) && r.IsField("Row") && elemOf(r) == elemOf(x) {
								st.Add("hash-ok")
								eq.set(st, GN, x, h)
							} else if p != nil && isRow(p, "ChainPrevHash") && r.IsField("Row") && elemOf(r) == elemOf(x) && elemOf(p) == elemOf(x) {
								// over the stored previous hash, which is compared itself
								st.Add("hash-ok")
								st.Add("hash-by-prev")
								eq.set(st, GN, x, h)
							}
						}
						if state(st, x, "LastSeq") && eq.has(st, L, y) {
							if taken {
								st.Add("tail-ok")
								st.Add("at-end")
							} else {
								st.Add("not-at-end")
							}
						}
						if state(st, x, "HeadHash") && isG(st, y) && taken {
							st.Add("head-ok")
						}
					}
				}
				if cond.Name == "<" {
					// l < LastSeq not taken; LastSeq < l taken
					if eq.has(st, L, a) && state(st, b, "LastSeq") && !taken {
						st.Add("tail-ok")
					}
					if state(st, a, "LastSeq") && eq.has(st, L, b) {
						if taken {
							st.Add("tail-ok")
							st.Add("not-at-end")
						}
					}
					if ln := b.unconv(); ln.Op == "len" && st.vals["rows"] != nil && ln.Args[0].Strip() == st.vals["rows"] && !taken {
						if n, ok := a.Int(); ok && n == 0 {
							st.Add("empty")
							st.Del("page")
						}
					}
					if ln := a.unconv(); ln.Op == "len" && st.vals["rows"] != nil && ln.Args[0].Strip() == st.vals["rows"] && taken {
						if n, ok := b.Int(); ok && n == 1 {
							st.Add("empty")
							st.Del("page")
						}
						if k := st.vals["limit"]; k != nil && k == b.unconv() {
							st.Add("short")
						}
					}
				}
			}
			en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
				holds(st, cond, taken)
			}
			en.H.Instr = func(en *Engine, st *State, in ssa.Instruction, f *Frame) {
				if ia, ok := in.(*ssa.IndexAddr); ok && st.vals["rows"] != nil && en.Eval(st, f, ia.X).Strip() == st.vals["rows"] {
					if cv := vctxOf(f).coversIndex(ia); cv != nil && len(cv.Lo) == 0 && cv.Hi.eq(aff{"len:" + cv.Slice: 1}) {
						covs[cv.Header] = cv
					} else if final {
						bad("all-rows", "rows", w.Pos(ia.Pos()), "the rows of a page are not gone through one by one from the first to the last")
					}
				}
			}
			en.H.Edge = func(en *Engine, st *State, from, to *ssa.BasicBlock, f *Frame) {
				if cv := covs[from]; cv != nil && to == cv.Exit {
					st.Del("page")
				}
			}
			en.H.Header = func(en *Engine, st *State, from, to *ssa.BasicBlock, f *Frame, subs []PhiSub) {
				if covs[to] != nil && to.Dominates(from) {
					where := w.Pos(lastPos(from))
					all := st.Has("seq-ok") && st.Has("prev-ok") && st.Has("hash-ok")
					if final {
						for _, r := range []string{"seq-ok", "prev-ok", "hash-ok"} {
							what := map[string]string{"seq-ok": "sequence number", "prev-ok": "previous hash", "hash-ok": "hash"}[r]
							if !st.Has(r) {
								bad("row-checked", what, where, "the verification goes on to the next row without the %s of the row having matched", what)
							} else {
								good("row-checked", what, where)
							}
						}
					}
					if all {
						st.Add("started")
						eq.set(st, G, eq.all(st, GN)...)
						l := eq.all(st, EN)
						eq.set(st, L, l...)
						eq.clear(st, E)
						for _, t := range l {
							one := en.mk("const", "1", nil, nil)
							eq.add(st, E, en.mk("bin", "+", nil, nil, t, one))
						}
						// whatever an incremented variable holds now
						for _, s := range subs {
							if eq.next(st, L, s.Old) {
								eq.add(st, E, s.Old)
							}
						}
						for _, m := range st.mem {
							if eq.next(st, L, m.val) {
								eq.add(st, E, m.val)
							}
						}
					}
					for _, r := range []string{"seq-ok", "prev-ok", "hash-ok", "hash-by-prev"} {
						st.Del(r)
					}
					eq.clear(st, GN)
					eq.clear(st, EN)
				}
				eq.header(st, to, f, subs, L, E, G)
			}
			en.H.Return = func(en *Engine, st *State, r []*Term, in *ssa.Return, f *Frame) {
				if !final {
					return
				}
				where := w.Pos(in.Pos())
				v := en.fieldOf(st, r[0], "Verified")
				switch en.Kind(st, v) {
				case "false":
					return
				case "true":
				default:
					if v.Op == "const" || v.Op == "zero" {
						return
					}
					if v.Op == "fieldv" && v.Args[0].Op == "zero" {
						return
					}
					st = st.Clone()
					if !en.refine(st, v, true) {
						return
					}
					holds(st, v, true)
				}
				if i := ErrIndex(f.Fn.Signature); i >= 0 && i < len(r) && en.Kind(st, r[i]) == "nonnil" {
					return
				}
				if st.HasPrefix("readfail:") {
					bad("reads-succeed", "read", where, "the chain is reported intact although reading it failed")
				} else {
					good("reads-succeed", "read", where)
				}
				if !st.Has("empty") || st.Has("page") {
					bad("all-rows", "end", where, "the chain is reported intact before a page came back empty")
				} else {
					good("all-rows", "end", where)
				}
				if !st.Has("tail-ok") {
					bad("tail", "length", where, "the chain is reported intact although rows up to the recorded last sequence number may be missing")
				} else {
					good("tail", "length", where)
				}
				if !st.Has("head-ok") && !st.Has("not-at-end") {
					bad("tail", "head", where, "the chain is reported intact although the head at the recorded length may differ from the recorded one")
				} else {
					good("tail", "head", where)
				}
			}
			st := newState()
			zero := en.mk("const", "0", nil, nil)
			eq.set(st, L, zero)
			eq.set(st, E, en.mk("const", "1", nil, nil))
			en.Run(root, st)
			if final {
				c.Engine(en)
			}
		}
	}
	// callers
	n := 0
	for r := range roots {
		for _, f := range w.callers[r] {
			if isMock(f) || roots[f] {
				continue
			}
			n++
			w.verifyCaller(c, r, f)
		}
	}
	c.Floor("caller-reports", 1)
}

func lastPos(b *ssa.BasicBlock) (p tokenPos) {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			p = in.Pos()
		}
	}
	return
}

// verifyCaller: success is only reported after the result was seen to be verified and no error came back.
func (w *World) verifyCaller(c *Ctx, r, f *ssa.Function) {
	con := fnName(f)
	en := NewEngine(w)
	en.SmallMax, en.MaxDepth, en.Copies = 8, 5, true
	if ErrIndex(f.Signature) < 0 {
		c.Fail("caller-reports", con, w.Pos(f.Pos()), "%s asks for a verification but cannot report an error", con)
		return
	}
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		for _, t := range k.all() {
			if t == r {
				ok, fail := en.Fork(st, k)
				ok.vals["result"] = en.Res(ok, k, 0)
				ok.Add("asked")
				fail.Add("asked")
				fail.Add("failed")
				return []*State{ok, fail}, true
			}
		}
		return nil, false
	}
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, fr *Frame) {
		cond, pol := norm(cond)
		if cond.IsField("Verified") && taken == pol {
			st.Add("verified")
		}
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, fr *Frame) {
		if !st.Has("asked") || en.Kind(st, res[ErrIndex(fr.Fn.Signature)]) == "nonnil" {
			return
		}
		c.Check(st.Has("verified") && !st.Has("failed"), "caller-reports", con, w.Pos(in.Pos()), "%s reports success although the verification failed or its outcome was not looked at", con)
	}
	en.Run(f, nil)
	c.Engine(en)
}
