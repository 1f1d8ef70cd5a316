package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["B01"] = ruleB01
	rules["B02"] = ruleB02
	rules["B03"] = ruleB03
	rules["B05"] = ruleB05
}

var totals = []string{"CreditBalance", "DebitBalance", "InflightCreditBalance", "InflightDebitBalance", "Balance", "InflightBalance"}

func isTotal(n string) bool {
	for _, t := range totals {
		if t == n {
			return true
		}
	}
	return false
}

// totalsField: v is the address of a monetary total of a model.Balance.
func totalsField(v ssa.Value) string {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	n := fieldName(fa.X.Type(), fa.Field)
	if !isTotal(n) || typeName(fa.X.Type()) != "model.Balance" {
		return ""
	}
	return n
}

var bigReaders = map[string]bool{"Cmp": true, "CmpAbs": true, "Sign": true, "String": true, "Text": true, "Int64": true, "Uint64": true, "IsInt64": true, "IsUint64": true,
	"BitLen": true, "Bytes": true, "Bits": true, "Format": true, "MarshalJSON": true, "MarshalText": true, "Append": true, "AppendText": true, "FillBytes": true, "Bit": true,
	"TrailingZeroBits": true, "ProbablyPrime": true, "Float64": true, "GobEncode": true}

// bigMutator: the call changes the big.Int that is its receiver.
func bigMutator(cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	if f == nil || cc.IsInvoke() || len(cc.Args) == 0 {
		return false
	}
	n := f.String()
	const p = "(*math/big.Int)."
	return strings.HasPrefix(n, p) && !bigReaders[n[len(p):]]
}

// bigRoots traces a *big.Int value back to where it comes from.
func bigRoots(v ssa.Value, seen map[ssa.Value]bool, out map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			bigRoots(e, seen, out)
		}
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.Alloc:
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					bigRoots(s.Val, seen, out)
				}
			}
			return
		}
		out[v] = true
	case *ssa.Call:
		if bigMutator(x.Common()) { // returns its receiver
			bigRoots(x.Call.Args[0], seen, out)
			return
		}
		out[v] = true
	case *ssa.ChangeType:
		bigRoots(x.X, seen, out)
	default:
		out[v] = true
	}
}

func isBigPtr(t types.Type) bool { return t.String() == "*math/big.Int" }

// bigMutParams computes which *big.Int parameters each function may change in place.
func (w *World) bigMutParams() map[*ssa.Function]map[int]bool {
	res := map[*ssa.Function]map[int]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range w.Funcs {
			w.bigMutations(f, res, func(in ssa.Instruction, root ssa.Value) {
				if p, ok := root.(*ssa.Parameter); ok {
					for i, q := range f.Params {
						if q == p {
							if res[f] == nil {
								res[f] = map[int]bool{}
							}
							if !res[f][i] {
								res[f][i] = true
								ch = true
							}
						}
					}
				}
			})
		}
	}
	return res
}

// bigMutations visits every in-place change of a *big.Int in f with the origin of the changed object.
func (w *World) bigMutations(f *ssa.Function, mp map[*ssa.Function]map[int]bool, visit func(in ssa.Instruction, root ssa.Value)) {
	Instrs(f, func(in ssa.Instruction) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		cc := ci.Common()
		var recv []ssa.Value
		if bigMutator(cc) {
			recv = append(recv, cc.Args[0])
			if n := cc.StaticCallee().Name(); n == "DivMod" || n == "QuoRem" {
				recv = append(recv, cc.Args[3])
			}
		} else {
			for _, t := range w.callees(in) {
				off := 0
				if cc.IsInvoke() {
					off = 1
				}
				for i := range mp[t] {
					if i-off >= 0 && i-off < len(cc.Args) {
						recv = append(recv, cc.Args[i-off])
					}
				}
			}
		}
		for _, r := range recv {
			roots := map[ssa.Value]bool{}
			bigRoots(r, map[ssa.Value]bool{}, roots)
			for x := range roots {
				visit(in, x)
			}
		}
	})
}

// originField: the changed object was loaded from a field; returns owner type and field.
func originField(v ssa.Value) (string, string) {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return "", ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return "", ""
	}
	return typeName(fa.X.Type()), fieldName(fa.X.Type(), fa.Field)
}

// MoneyExit is one exit of a money movement function.
type MoneyExit struct {
	Root    *ssa.Function
	Nil     bool // scenario: all totals nil on entry
	OK      bool
	Where   string
	Deltas  map[string]map[string]*Lin // balance -> total -> change
	Names   map[string]string          // balance key -> readable
	Final   map[string]map[string]*Lin
	State   *State
	Amounts []*Lin
}

type MoneyFacts struct {
	Pair    *ssa.Function   // applies a transaction to a source and a destination
	Legs    []*ssa.Function // exported operations on one balance
	Exits   []*MoneyExit
	Ens     []*Engine
	EnOf    map[*MoneyExit]*Engine
	Direct  map[*ssa.Function]bool // functions allowed to mutate totals
	Missing string
}

var moneyAPI = []string{"model.UpdateBalances", "(*model.Balance).CommitInflightDebit", "(*model.Balance).CommitInflightCredit", "(*model.Balance).RollbackInflightDebit", "(*model.Balance).RollbackInflightCredit"}

func (w *World) Money() *MoneyFacts {
	if w.money != nil {
		return w.money
	}
	M := &MoneyFacts{EnOf: map[*MoneyExit]*Engine{}, Direct: map[*ssa.Function]bool{}}
	w.money = M
	var api []*ssa.Function
	for _, n := range moneyAPI {
		f := w.Func(n)
		if f == nil {
			M.Missing = "function " + n
			return M
		}
		api = append(api, f)
	}
	// the pair function: lowest function of the ledger that reaches the whole API
	reach := map[*ssa.Function]int{}
	for _, a := range api {
		for f := range w.Reaches(func(g *ssa.Function) bool { return g == a }) {
			reach[f]++
		}
	}
	var cands []*ssa.Function
	for f, n := range reach {
		if n != len(api) || fnPkg(f) == nil || fnPkg(f).Path() != Mod {
			continue
		}
		low := true
		for g := range w.ReachableFrom(f) {
			if g != f && reach[g] == len(api) {
				low = false
			}
		}
		if low {
			cands = append(cands, f)
		}
	}
	if len(cands) != 1 {
		var n []string
		for _, f := range cands {
			n = append(n, fnName(f))
		}
		sort.Strings(n)
		M.Missing = fmt.Sprintf("the function applying a transaction to its two balances (candidates: %v)", n)
		return M
	}
	M.Pair = cands[0]
	// exported single-balance operations
	mp := w.bigMutParams()
	mutates := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		w.bigMutations(f, mp, func(in ssa.Instruction, root ssa.Value) {
			if t, n := originField(root); t == "model.Balance" && isTotal(n) {
				mutates[f] = true
			}
		})
	}
	closure := w.ReachableFrom(append([]*ssa.Function{M.Pair}, api...)...)
	for f := range mutates {
		M.Direct[f] = closure[f]
	}
	reachMut := w.Reaches(func(f *ssa.Function) bool { return mutates[f] })
	seen := map[*ssa.Function]bool{}
	for _, a := range api[1:] {
		seen[a] = true
	}
	for f := range reachMut {
		if f.Signature.Recv() == nil || typeName(f.Signature.Recv().Type()) != "model.Balance" || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		seen[f] = true
	}
	M.Legs = sortedFns(seen)
	for _, root := range append(append([]*ssa.Function{api[0]}, M.Legs...), M.Pair) {
		for _, nilScenario := range []bool{false, true} {
			w.moneyRun(M, root, nilScenario, reachMut)
		}
	}
	return M
}

func (w *World) moneyRun(M *MoneyFacts, root *ssa.Function, nilScenario bool, rel map[*ssa.Function]bool) {
	en := NewEngine(w)
	en.Affine = true
	en.Relevant = map[*ssa.Function]bool{}
	for f := range w.ReachableFrom(root) {
		p := fnPkg(f)
		if p != nil && (p.Path() == Mod+"/model" || p.Path() == Mod) && f.Signature.Recv() != nil && typeName(f.Signature.Recv().Type()) == "model.Balance" {
			en.Relevant[f] = true
		}
		if p != nil && p.Path() == Mod+"/model" && mentionsBalance(f) {
			en.Relevant[f] = true
		}
	}
	for f := range rel {
		en.Relevant[f] = true
	}
	amount := func(t *Term) *Term { return en.mk("pure", "amountOf", nil, nil, t) }
	en.KindOf = func(st *State, t *Term) string {
		if t.Op == "load" && t.Args[0].Op == "field" && isTotal(t.Args[0].Name) {
			if nilScenario {
				return "nil"
			}
			return "nonnil"
		}
		if t.Op == "pure" && t.Name == "amountOf" {
			return "nonnil"
		}
		return ""
	}
	en.H.Call = func(en *Engine, st *State, c *Call) ([]*State, bool) {
		if c.Is("model.ApplyPrecision") && c.Value != nil && root.String() != c.Fn.String() {
			t := c.Args[0]
			a := amount(t)
			st.alias[vkey{c.F, c.Value, -1}] = a
			en.SetMem(st, en.mk("field", "PreciseAmount", nil, nil, t), a)
			return []*State{st}, true
		}
		return nil, false
	}
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
		rec := func(n string) {
			st.Add(fmt.Sprintf("%s:%v", n, taken))
		}
		c := cond
		switch {
		case c.IsField("AllowOverdraft"), c.IsField("Inflight"):
			rec(c.Strip().Name)
		case c.Op == "bin":
			a, b := c.Args[0], c.Args[1]
			for k := 0; k < 2; k++ {
				if a.IsField("OverdraftLimit") {
					if v, ok := b.Strip(), b.IsConst(); ok && isZeroConst(v) {
						if c.Name == "==" {
							rec("limit=0")
						} else if k == 1 { // 0 < limit
							rec("limit>0")
						} else { // limit < 0
							rec("limit<0")
						}
					}
				}
				if a.IsField("Status") && c.Name == "==" {
					if s, ok := b.Str(); ok && taken {
						st.Add("status=" + s)
					}
				}
				if a.IsField("QueuedDebitBalance") && c.Name == "==" && en.Kind(st, b) == "nil" {
					rec("queuednil")
				}
				a, b = b, a
			}
		}
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		x := &MoneyExit{Root: root, Nil: nilScenario, Where: w.Pos(in.Pos()), Deltas: map[string]map[string]*Lin{}, Final: map[string]map[string]*Lin{}, Names: map[string]string{}, State: st.Clone()}
		i := ErrIndex(root.Signature)
		x.OK = i < 0 || en.Kind(st, res[i]) != "nonnil"
		if i >= 0 && en.Kind(st, res[i]) == "" {
			x.OK = true
		}
		bases := map[string]*Term{}
		for _, t := range en.terms {
			if t.Op == "field" && isTotal(t.Name) {
				b := t.Args[0]
				if b.Op != "alloc" && b.Op != "opaque" {
					bases[b.key] = b
				}
			}
		}
		for k, b := range bases {
			x.Names[k] = b.String()
			x.Deltas[k] = map[string]*Lin{}
			x.Final[k] = map[string]*Lin{}
			for _, n := range totals {
				addr := en.mk("field", n, nil, nil, b)
				entry := linConst(0)
				if !nilScenario {
					entry = linAtom(en.mk("load", "", nil, nil, addr))
				}
				v := en.Val(st, en.Load(st, addr))
				x.Final[k][n] = v
				d := v.add(entry, -1)
				if len(d.C) > 0 {
					x.Deltas[k][n] = d
				}
			}
		}
		M.Exits = append(M.Exits, x)
		M.EnOf[x] = en
	}
	en.Run(root, nil)
	M.Ens = append(M.Ens, en)
}

func isZeroConst(t *Term) bool {
	if n, ok := t.Int(); ok {
		return n == 0
	}
	return t.Op == "const" && (t.Name == "0" || strings.HasPrefix(t.Name, "0:"))
}

func mentionsBalance(f *ssa.Function) bool {
	for _, p := range f.Params {
		if typeName(p.Type()) == "model.Balance" {
			return true
		}
	}
	return false
}

// change patterns of one balance for an amount A
var legPatterns = map[string]map[string]int64{
	"settled debit": {"DebitBalance": 1}, "settled credit": {"CreditBalance": 1},
	"held debit": {"InflightDebitBalance": 1}, "held credit": {"InflightCreditBalance": 1},
	"commit debit": {"InflightDebitBalance": -1, "DebitBalance": 1}, "commit credit": {"InflightCreditBalance": -1, "CreditBalance": 1},
	"void debit": {"InflightDebitBalance": -1}, "void credit": {"InflightCreditBalance": -1},
}

var legOf = map[string]string{
	"(*model.Balance).CommitInflightDebit": "commit debit", "(*model.Balance).CommitInflightCredit": "commit credit",
	"(*model.Balance).RollbackInflightDebit": "void debit", "(*model.Balance).RollbackInflightCredit": "void credit",
}

// leg classifies the change of one balance; amt is the amount moved.
func leg(d map[string]*Lin) (name string, amt *Lin) {
	m := map[string]*Lin{}
	for n, l := range d {
		if n != "Balance" && n != "InflightBalance" {
			m[n] = l
		}
	}
	for _, p := range sortedKeys(legPatterns) {
		pat := legPatterns[p]
		if len(pat) != len(m) {
			continue
		}
		var a *Lin
		ok := true
		for n, k := range pat {
			l := m[n]
			if l == nil {
				ok = false
				break
			}
			v := newLin().add(l, k)
			if a != nil && !a.Eq(v) {
				ok = false
				break
			}
			a = v
		}
		if !ok || a == nil || len(a.C) != 1 {
			continue
		}
		// the moved amount is one positive unit of a symbol
		for _, k := range a.C {
			if k == 1 {
				return p, a
			}
		}
	}
	return "", nil
}

func describe(d map[string]*Lin) string {
	var p []string
	for _, n := range sortedKeys(d) {
		p = append(p, n+" by "+d[n].Human())
	}
	if len(p) == 0 {
		return "nothing"
	}
	return strings.Join(p, ", ")
}

func (c *Ctx) money() *MoneyFacts {
	M := c.W.Money()
	if M.Missing != "" {
		c.Fail("anchor", M.Missing, "", "%s not found", M.Missing)
		return nil
	}
	for _, e := range M.Ens {
		c.Engine(e)
	}
	c.Saw(fnName(M.Pair))
	for _, f := range M.Legs {
		c.Saw(fnName(f))
	}
	return M
}

func scen(x *MoneyExit) string {
	if x.Nil {
		return "uninitialised balances"
	}
	return "initialised balances"
}

// pairRoles finds the source and destination among the bases of a pair operation.
func (c *Ctx) pairRoles(x *MoneyExit) (src, dst string, extra string) {
	en := c.W.Money().EnOf[x]
	for k := range x.Deltas {
		t := en.terms[k]
		r := -1
		switch {
		case t.Op == "param":
			n := 0
			for _, p := range x.Root.Params {
				if typeName(p.Type()) == "model.Balance" {
					if t.V == ssa.Value(p) {
						r = n
					}
					n++
				}
			}
		case t.Op == "load" && t.Args[0].Op == "index" && len(t.Args[0].Args) == 2:
			if n, ok := t.Args[0].Args[1].Int(); ok {
				r = int(n)
			}
		}
		switch r {
		case 0:
			src = k
		case 1:
			dst = k
		default:
			if len(x.Deltas[k]) > 0 {
				extra = x.Names[k]
			}
		}
	}
	return
}

func ruleB01(c *Ctx) {
	c.Rule("double-entry", "abstract interpretation of the big-integer arithmetic of model.UpdateBalances and of the ledger function applying a transaction, for initialised and uninitialised balances: on every success exit the source's debit side and the destination's credit side changed by the same symbolic amount, which is the transaction's amount, on the side (settled/held/commit/void) the path established")
	c.Rule("leg", "the exported single-balance operations change exactly the totals of their kind by the amount given, and nothing on error exits")
	c.Rule("callers", "no function outside the pair function and what only it calls uses the single-balance operations")
	c.Rule("apply-error", "a failed application is never followed by a success exit of any caller, up to the roots (so no half-applied pair is persisted)")
	M := c.money()
	if M == nil {
		return
	}
	upd := c.W.Func("model.UpdateBalances")
	for _, x := range M.Exits {
		fn := fnName(x.Root)
		st := x.State
		if x.Root != upd && x.Root != M.Pair { // single-balance operation
			for k, d := range x.Deltas {
				if !x.OK {
					c.Check(len(d) == 0, "leg", fn+" refused", x.Where, "on an error exit the balance changed: %s", describe(d))
					continue
				}
				p, _ := leg(d)
				want := legOf[fn]
				c.Check(p != "" && (want == "" || p == want), "leg", fn, x.Where, "%s (%s) changes %s of %s, expected a %s", fn, scen(x), describe(d), x.Names[k], want)
			}
			continue
		}
		src, dst, extra := c.pairRoles(x)
		if extra != "" {
			c.Fail("double-entry", fn+" other balance", x.Where, "a third balance (%s) changes", extra)
		}
		if !x.OK {
			if x.Root == upd {
				for k, d := range x.Deltas {
					c.Check(len(d) == 0, "double-entry", fn+" refused", x.Where, "on an error exit %s changed: %s", x.Names[k], describe(d))
				}
			}
			continue
		}
		ps, as := leg(x.Deltas[src])
		pd, ad := leg(x.Deltas[dst])
		kind := strings.TrimSuffix(ps, " debit")
		where := fmt.Sprintf("(%s, path facts %v)", scen(x), st.Facts())
		ok := ps != "" && pd != "" && ps == kind+" debit" && pd == kind+" credit" && as.Eq(ad)
		if !c.check(ok, "double-entry", fn+" "+kind, x.Where, "the source changes %s and the destination changes %s %s", describe(x.Deltas[src]), describe(x.Deltas[dst]), where) {
			continue
		}
		want := "settled"
		switch {
		case st.Has("status=COMMIT"):
			want = "commit"
		case st.Has("status=VOID"):
			want = "void"
		case st.Has("Inflight:true"):
			want = "held"
		}
		c.Check(kind == want, "double-entry", fn+" side "+want, x.Where, "the path established a %s movement but a %s one is made %s", want, kind, where)
		// the amount is the transaction's
		for _, t := range as.T {
			good := (t.Op == "pure" && t.Name == "amountOf") || (t.IsField("PreciseAmount") && t.Op == "load")
			c.Check(good, "double-entry", fn+" amount "+kind, x.Where, "the amount moved is %s, not the transaction's amount", t.String())
		}
		if want == "settled" || want == "held" {
			c.Check(M.EnOf[x].Sign(st, as) == "+", "double-entry", fn+" positive "+kind, x.Where, "an amount that is zero or negative is not refused %s", where)
		}
	}
	c.Floor("double-entry", 20)
	c.Floor("leg", 8)
	// who may use the operations
	for _, n := range moneyAPI {
		f := c.W.Func(n)
		closure := c.W.ReachableFrom(M.Pair)
		callers := c.W.Reaches(func(g *ssa.Function) bool { return g == M.Pair })
		for _, g := range c.W.Funcs {
			if strings.HasPrefix(fnName(g), "(*mocks.") || fnPkg(g) == nil || fnPkg(g).Path() == Mod+"/model" {
				continue
			}
			calls := false
			Instrs(g, func(in ssa.Instruction) {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if unwrapCallee(ci.Common()) == f {
						calls = true
					}
				}
			})
			if calls {
				c.Check(g == M.Pair || (closure[g] && !callers[g]), "callers", fnName(g)+" "+n, c.W.Pos(g.Pos()), "%s changes a balance outside the function that applies both legs", fnName(g))
			}
		}
	}
	c.Floor("callers", 5)
	// errors of the application are never swallowed
	reach := c.W.Reaches(func(g *ssa.Function) bool { return g == M.Pair })
	e := &ErrFlow{W: c.W}
	src := map[*ssa.Function]bool{M.Pair: true}
	// callers that only compute propagate like the operation itself; those that also write are obligations of D02
	wr, _ := c.W.dbFuncs()
	for g := range reach {
		if !wr[g] && ErrIndex(g.Signature) >= 0 {
			src[g] = true
		}
	}
	for _, n := range moneyAPI {
		src[c.W.Func(n)] = true
	}
	e.Source = func(k *Call) string {
		if k.Fn != nil && src[k.Fn] {
			return "W"
		}
		return ""
	}
	// only chains that lead to a write matter: previews turn the failure into their answer
	var writers []*ssa.Function
	for g := range wr {
		if reach[g] && !answersPreview(g) {
			writers = append(writers, g)
		}
	}
	live := c.W.ReachableAvoiding(answersPreview, writers...)
	var roots []*ssa.Function
	for g := range reach {
		if !live[g] {
			continue
		}
		direct := false
		Instrs(g, func(in ssa.Instruction) {
			for _, t := range c.W.callees(in) {
				if src[t] {
					direct = true
				}
			}
		})
		if direct {
			roots = append(roots, g)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return fnName(roots[i]) < fnName(roots[j]) })
	e.Run(roots)
	c.Engine(e.En)
	for _, k := range sortedKeys(e.Checked) {
		p := strings.Split(k, "|")
		key := p[0] + "|" + p[1]
		if s, ok := e.Found[key]; ok {
			c.Fail("apply-error", p[0]+" "+p[1], c.W.Pos(s.Site.Pos()), "%s can fail here and the function still reaches %s", p[1], s.Exit)
		} else {
			c.Ok("apply-error", p[0]+" "+p[1], e.Checked[k])
		}
	}
	c.Floor("apply-error", 6)
}

func unwrapCallee(cc *ssa.CallCommon) *ssa.Function {
	if f := cc.StaticCallee(); f != nil {
		return unwrap(f)
	}
	return nil
}

// check is Check returning the verdict.
func (c *Ctx) check(ok bool, rule, construct, where, format string, a ...any) bool {
	c.Check(ok, rule, construct, where, format, a...)
	return ok
}

func ruleB02(c *Ctx) {
	c.Rule("recomputed", "on every exit of every operation on balances, a balance whose credit or debit (held credit or held debit) total changed has Balance = Credit - Debit (Inflight = InflightCredit - InflightDebit) as symbolic big-integer expressions")
	c.Rule("mutators", "no function outside the money operations changes, in place, a big integer that originates from a total of a balance (aliases through locals, parameters and results are followed)")
	c.Rule("stores", "every assignment to a total stores a freshly parsed database value, a copy of the same total of another balance, the result of credit minus debit, or zero into a field that is nil or belongs to a balance just created")
	M := c.money()
	if M == nil {
		return
	}
	for _, x := range M.Exits {
		for k, d := range x.Deltas {
			fn := fnName(x.Root)
			f := x.Final[k]
			for _, tr := range [][3]string{{"Balance", "CreditBalance", "DebitBalance"}, {"InflightBalance", "InflightCreditBalance", "InflightDebitBalance"}} {
				if d[tr[0]] == nil && d[tr[1]] == nil && d[tr[2]] == nil {
					continue
				}
				want := f[tr[1]].add(f[tr[2]], -1)
				c.Check(f[tr[0]].Eq(want), "recomputed", fn+" "+tr[0], x.Where, "after %s, %s of %s is %s but %s minus %s is %s", fn, tr[0], x.Names[k], f[tr[0]].Human(), tr[1], tr[2], want.Human())
			}
		}
	}
	c.Floor("recomputed", 10)
	mp := c.W.bigMutParams()
	n := 0
	for _, f := range c.W.Funcs {
		f := f
		c.W.bigMutations(f, mp, func(in ssa.Instruction, root ssa.Value) {
			t, fld := originField(root)
			if t != "model.Balance" || !isTotal(fld) {
				return
			}
			n++
			c.Saw(fnName(f))
			c.Check(M.Direct[f], "mutators", fnName(f)+" "+fld, c.W.Pos(in.Pos()), "%s changes %s of a balance in place, outside the money operations", fnName(f), fld)
		})
	}
	c.Floor("mutators", 8)
	c.balanceStores()
	c.Floor("stores", 60)
}

// balanceStores checks every assignment to a total.
func (c *Ctx) balanceStores() {
	w := c.W
	for _, f := range w.Funcs {
		var stores []*ssa.Store
		Instrs(f, func(in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok && totalsField(s.Addr) != "" {
				stores = append(stores, s)
			}
		})
		if len(stores) == 0 {
			continue
		}
		c.Saw(fnName(f))
		for _, s := range stores {
			fld := totalsField(s.Addr)
			why := w.storeOK(f, s, fld)
			c.Check(why == "", "stores", fnName(f)+" "+fld, w.Pos(s.Pos()), "%s is assigned %s", fld, why)
		}
	}
}

// storeOK returns "" if the assignment is of an accepted kind.
func (w *World) storeOK(f *ssa.Function, s *ssa.Store, fld string) string {
	fa := s.Addr.(*ssa.FieldAddr)
	fresh := isFreshAlloc(fa.X)
	roots := map[ssa.Value]bool{}
	bigRoots(s.Val, map[ssa.Value]bool{}, roots)
	for r := range roots {
		switch x := r.(type) {
		case *ssa.Const:
			if x.IsNil() && fresh {
				continue
			}
			return "nil"
		case *ssa.Alloc: // new(big.Int)
			if sub := w.isNetOf(f, s, fld); sub {
				continue
			}
			if !fresh && !w.nilGuarded(s, fa) && !sameFieldScan(f, x) {
				return "a new number in an existing balance"
			}
		case *ssa.Call:
			callee := unwrapCallee(x.Common())
			nm := ""
			if callee != nil {
				nm = callee.String()
			}
			switch {
			case nm == "math/big.NewInt":
				z, ok := x.Call.Args[0].(*ssa.Const)
				if ok && z.Int64() == 0 && (fresh || w.nilGuarded(s, fa)) {
					continue
				}
				return "a constant in an existing balance"
			case callee != nil && w.InModule(callee) && w.copiesSame(x, fld):
				continue
			case w.isNetOf(f, s, fld):
				continue
			case parsesText(x.Common()):
				continue
			default:
				return "the result of " + short(nm)
			}
		case *ssa.Extract:
			call, ok := x.Tuple.(*ssa.Call)
			if !ok {
				return "an unknown value"
			}
			if parsesText(call.Common()) || fresh {
				continue
			}
			return "the result of " + call.String()
		case *ssa.UnOp:
			if t, n := originField(x); t == "model.Balance" && n == fld && fresh {
				return "the same number object as another balance"
			}
			return "a value of another origin"
		default:
			return "a value of another origin"
		}
	}
	return ""
}

// isFreshAlloc: the balance was created in this function.
func isFreshAlloc(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !isFreshAlloc(e) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			n := 0
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					n++
					if !isFreshAlloc(s.Val) {
						return false
					}
				}
			}
			return n > 0
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return isFreshAlloc(fa.X)
		}
	case *ssa.FieldAddr:
		return isFreshAlloc(x.X)
	}
	return false
}

// nilGuarded: the store is dominated by the branch on which the same field was nil.
func (w *World) nilGuarded(s *ssa.Store, fa *ssa.FieldAddr) bool {
	b := s.Block()
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			break
		}
		ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		side := 0
		if bo.Op.String() == "!=" {
			side = 1
		} else if bo.Op.String() != "==" {
			continue
		}
		if p.Succs[side] != d || len(d.Preds) != 1 {
			continue
		}
		for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
			k, isC := pr[1].(*ssa.Const)
			u, isU := pr[0].(*ssa.UnOp)
			if !isC || !k.IsNil() || !isU {
				continue
			}
			g, ok := u.X.(*ssa.FieldAddr)
			if ok && g.Field == fa.Field && sameBase(g.X, fa.X) {
				return true
			}
		}
	}
	return false
}

func sameBase(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 {
		return sameBase(x.X, y.X)
	}
	f, ok1 := a.(*ssa.FieldAddr)
	g, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && f.Field == g.Field && sameBase(f.X, g.X)
}

// copiesSame: a call producing a number from the same total of another balance.
func (w *World) copiesSame(c *ssa.Call, fld string) bool {
	for _, a := range c.Call.Args {
		if isBigPtr(a.Type()) {
			if t, n := originField(a); t != "model.Balance" || n != fld {
				return false
			}
			callee := unwrapCallee(c.Common())
			return callee != nil && len(w.bigMutParams()[callee]) == 0 && returnsFresh(callee)
		}
	}
	return false
}

// returnsFresh: the function never returns its argument.
func returnsFresh(f *ssa.Function) bool {
	ok := true
	Instrs(f, func(in ssa.Instruction) {
		if r, is := in.(*ssa.Return); is {
			for _, v := range r.Results {
				roots := map[ssa.Value]bool{}
				bigRoots(v, map[ssa.Value]bool{}, roots)
				for x := range roots {
					if _, p := x.(*ssa.Parameter); p {
						ok = false
					}
				}
			}
		}
	})
	return ok
}

// parsesText: a call that turns stored text into a number.
func parsesText(cc *ssa.CallCommon) bool {
	f := unwrapCallee(cc)
	if f == nil {
		return false
	}
	if f.String() == "(*math/big.Int).SetString" {
		return true
	}
	if ErrIndex(f.Signature) < 0 && f.Signature.Results().Len() < 2 {
		return false
	}
	for _, a := range cc.Args {
		t := a.Type().Underlying().String()
		if t == "string" || t == "[]byte" || strings.Contains(a.Type().String(), "sql.NullString") {
			return true
		}
	}
	return false
}

func sameFieldScan(f *ssa.Function, a *ssa.Alloc) bool { return false }

// isNetOf: Balance assigned credit.Sub(credit, debit) from values of one computation.
func (w *World) isNetOf(f *ssa.Function, s *ssa.Store, fld string) bool {
	if fld != "Balance" && fld != "InflightBalance" {
		return false
	}
	call, ok := s.Val.(*ssa.Call)
	if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee().String() != "(*math/big.Int).Sub" {
		return false
	}
	pre := strings.TrimSuffix(fld, "Balance")
	// the same values are stored as credit and debit of the same balance
	base := s.Addr.(*ssa.FieldAddr).X
	var cr, db ssa.Value
	Instrs(f, func(in ssa.Instruction) {
		if t, ok := in.(*ssa.Store); ok {
			fa, ok := t.Addr.(*ssa.FieldAddr)
			if ok && sameBase(fa.X, base) {
				switch totalsField(t.Addr) {
				case pre + "CreditBalance":
					cr = t.Val
				case pre + "DebitBalance":
					db = t.Val
				}
			}
		}
	})
	a, b := call.Call.Args[1], call.Call.Args[2]
	isF := func(v ssa.Value, stored ssa.Value, name string) bool {
		if v == stored && v != nil {
			return true
		}
		t, n := originField(v)
		return t == "model.Balance" && n == name
	}
	return isF(a, cr, pre+"CreditBalance") && isF(b, db, pre+"DebitBalance")
}

func ruleB03(c *Ctx) {
	c.Rule("gate", "on every success exit of model.UpdateBalances (and of the function applying a transaction, for movements that are neither commit nor void) the path established one of: overdraft allowed and limit zero; balance - held debits (- queued debits if present) - amount >= 0; limit positive and that difference plus the limit >= 0; and amount > 0; all over the values on entry")
	c.Rule("refused-unchanged", "no error exit changed a total")
	M := c.money()
	if M == nil {
		return
	}
	upd := c.W.Func("model.UpdateBalances")
	for _, x := range M.Exits {
		if x.Root != upd && x.Root != M.Pair {
			continue
		}
		fn := fnName(x.Root)
		st := x.State
		en := M.EnOf[x]
		src, _, _ := c.pairRoles(x)
		if x.Root == M.Pair && (st.Has("status=COMMIT") || st.Has("status=VOID")) {
			continue
		}
		if !x.OK {
			for k, d := range x.Deltas {
				c.Check(len(d) == 0, "refused-unchanged", fn+" "+scen(x), x.Where, "a refused transaction changed %s: %s", x.Names[k], describe(d))
			}
			continue
		}
		_, a := leg(x.Deltas[src])
		facts := fmt.Sprintf("(%s, path facts %v)", scen(x), st.Facts())
		if a == nil {
			c.Fail("gate", fn+" amount", x.Where, "no debit of the source recognised %s", facts)
			continue
		}
		c.Check(en.Sign(st, a) == "+", "gate", fn+" positive amount", x.Where, "a zero or negative amount is not refused %s", facts)
		if st.Has("AllowOverdraft:true") && st.Has("limit=0:true") {
			c.Ok("gate", fn+" unlimited overdraft", x.Where)
			continue
		}
		b := en.terms[src]
		load := func(n string) *Term { return en.mk("load", "", nil, nil, en.mk("field", n, nil, nil, b)) }
		avail := newLin()
		if !x.Nil {
			avail = linAtom(load("Balance")).add(linAtom(load("InflightDebitBalance")), -1)
		}
		q := load("QueuedDebitBalance")
		counted := ""
		switch {
		case st.Has("queuednil:false"):
			avail = avail.add(linAtom(q), -1)
			counted = "with queued debits"
		case st.Has("queuednil:true"):
			counted = "without queued debits"
		default:
			c.Fail("gate", fn+" queued debits", x.Where, "queued debits are not considered %s", facts)
			continue
		}
		g := avail.add(a, -1)
		key := fn + " covered " + counted
		if s := en.Sign(st, g); s == "0+" || s == "0" || s == "+" {
			c.Ok("gate", key, x.Where)
			continue
		}
		// within the limit: g + L >= 0 with L derived from the overdraft limit
		ok := false
		for k, r := range st.known {
			if !strings.HasPrefix(k, "S|") {
				continue
			}
			l := en.linByKey(k[2:])
			if l == nil {
				continue
			}
			for _, sgn := range []int64{1, -1} {
				d := newLin().add(l, sgn).add(g, -1)
				if len(d.C) != 1 {
					continue
				}
				for ak, coef := range d.C {
					t := d.T[ak]
					if coef != 1 || t == nil || !mentionsField(t, "OverdraftLimit") {
						continue
					}
					s := r.kind
					if sgn < 0 {
						s = flipSign(s)
					}
					if s == "0+" || s == "0" || s == "+" {
						ok = true
					}
				}
			}
		}
		c.Check(ok && (st.Has("limit>0:true") || st.Has("limit<0:false")), "gate", fn+" limit "+counted, x.Where, "the source is debited although its available funds were not shown to cover the amount or to stay within a positive overdraft limit %s", facts)
	}
	c.Floor("gate", 8)
	c.Floor("refused-unchanged", 2)
}

func flipSign(s string) string {
	r := ""
	if strings.Contains(s, "+") {
		r += "-"
	}
	if strings.Contains(s, "0") {
		r += "0"
	}
	if strings.Contains(s, "-") {
		r += "+"
	}
	return r
}

// linByKey returns the linear expression with the given canonical text.
func (en *Engine) linByKey(k string) *Lin {
	for _, l := range en.lins {
		if l.String() == k {
			return l
		}
		if n := newLin().add(l, -1); n.String() == k {
			return n
		}
	}
	return nil
}

func mentionsField(t *Term, name string) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if (x.Op == "field" || x.Op == "fieldv") && x.Name == name {
			return true
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		for _, a := range x.CArg {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func ruleB05(c *Ctx) {
	c.Rule("covered", "on every success exit of a commit or rollback of a hold the path established held total - amount >= 0 over the entry values, before the subtraction; the amount is the one subtracted")
	c.Rule("refused-unchanged", "on error exits of these operations no total changed")
	M := c.money()
	if M == nil {
		return
	}
	for _, x := range M.Exits {
		fn := fnName(x.Root)
		en := M.EnOf[x]
		for k, d := range x.Deltas {
			if !x.OK {
				if x.Root != M.Pair {
					c.Check(len(d) == 0, "refused-unchanged", fn, x.Where, "a refused operation changed %s: %s", x.Names[k], describe(d))
				}
				continue
			}
			for _, n := range []string{"InflightDebitBalance", "InflightCreditBalance"} {
				l := d[n]
				if l == nil {
					continue
				}
				neg := false
				for _, v := range l.C {
					if v < 0 {
						neg = true
					}
				}
				if !neg {
					continue
				}
				f := x.Final[k][n]
				s := en.Sign(x.State, f)
				c.Check(s == "0+" || s == "0" || s == "+", "covered", fn+" "+n, x.Where, "%s of %s is lowered to %s, which was not shown to be non-negative (%s)", n, x.Names[k], f.Human(), scen(x))
			}
		}
	}
	c.Floor("covered", 6)
	c.Floor("refused-unchanged", 4)
}

// answersPreview: the function's answer is a projection (a type of the model package named a
// preview), of which the failure is part; nothing it computed is stored (T13).
func answersPreview(f *ssa.Function) bool {
	r := f.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		t := r.At(i).Type()
		for {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
				continue
			}
			if p, ok := t.Underlying().(*types.Slice); ok {
				t = p.Elem()
				continue
			}
			break
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == Mod+"/model" && strings.Contains(n.Obj().Name(), "Preview") {
			return true
		}
	}
	return false
}
