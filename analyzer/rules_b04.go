package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["B04"] = ruleB04 }

// narrowing: the call or conversion loses range or precision of its operand.
func narrowing(in ssa.Instruction) (ssa.Value, string) {
	switch x := in.(type) {
	case *ssa.Call:
		f := unwrapCallee(x.Common())
		if f == nil {
			return nil, ""
		}
		n := f.String()
		switch n {
		case "(*math/big.Int).Int64", "(*math/big.Int).Uint64", "(*math/big.Int).Float64", "(*math/big.Float).Float64", "(*math/big.Float).Float32", "(*math/big.Float).Int64", "(*math/big.Float).Uint64",
			"(*math/big.Rat).Float64", "(*math/big.Rat).Float32",
			"(github.com/shopspring/decimal.Decimal).Float64", "(github.com/shopspring/decimal.Decimal).InexactFloat64", "(github.com/shopspring/decimal.Decimal).IntPart":
			return x.Call.Args[0], short(n)
		}
	case *ssa.Convert:
		fb, ok := x.X.Type().Underlying().(*types.Basic)
		tb, ok2 := x.Type().Underlying().(*types.Basic)
		if ok && ok2 && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0 {
			return x.X, "conversion of " + fb.String() + " to " + tb.String()
		}
	}
	return nil, ""
}

// fieldOrigins collects the fields a value is computed from (within the function).
func fieldOrigins(v ssa.Value, seen map[ssa.Value]bool, out map[string]bool) {
	if v == nil || seen[v] || len(seen) > 400 {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.FieldAddr:
		out[typeName(x.X.Type())+"."+fieldName(x.X.Type(), x.Field)] = true
		return
	case *ssa.Field:
		out[typeName(x.X.Type())+"."+fieldName(x.X.Type(), x.Field)] = true
		return
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == x {
				fieldOrigins(s.Val, seen, out)
			}
		}
		return
	case *ssa.Call:
		for _, a := range x.Call.Args {
			fieldOrigins(a, seen, out)
		}
		return
	}
	if in, ok := v.(ssa.Instruction); ok {
		for _, o := range in.Operands(nil) {
			if *o != nil {
				fieldOrigins(*o, seen, out)
			}
		}
	}
}

// moneySink describes where a narrowed value must not arrive.
func moneySink(c *ssa.CallCommon) string {
	f := unwrapCallee(c)
	if f == nil {
		return ""
	}
	n := f.String()
	switch {
	case n == "math/big.NewInt", n == "(*math/big.Int).SetInt64", n == "(*math/big.Int).SetUint64", n == "(*math/big.Float).SetFloat64", n == "(*math/big.Float).SetInt64", n == "math/big.NewFloat":
		return short(n)
	case strings.HasPrefix(n, "github.com/shopspring/decimal.NewFrom"):
		return short(n)
	case strings.HasPrefix(n, "(*database/sql."):
		return short(n)
	}
	return ""
}

// forward follows a value to its uses, through calls into the module and their results.
func (w *World) forward(v ssa.Value, seen map[ssa.Value]bool, visit func(use ssa.Instruction, v ssa.Value)) {
	if v == nil || seen[v] || len(seen) > 3000 {
		return
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return
	}
	for _, r := range *refs {
		visit(r, v)
		switch x := r.(type) {
		case *ssa.Convert, *ssa.ChangeType, *ssa.BinOp, *ssa.UnOp, *ssa.Phi, *ssa.Extract, *ssa.MakeInterface:
			if b, ok := x.(*ssa.BinOp); ok && isBool(b.Type()) {
				continue
			}
			w.forward(x.(ssa.Value), seen, visit)
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			if a, ok := x.Addr.(*ssa.Alloc); ok {
				w.forward(a, seen, visit)
			}
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok { // variadic arguments
				w.forward(ia.X, seen, visit)
			}
		case *ssa.Slice:
			w.forward(x, seen, visit)
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v {
					w.forward(x.Fn.(*ssa.Function).FreeVars[i], seen, visit)
				}
			}
		case *ssa.Return:
			f := x.Parent()
			for i, rv := range x.Results {
				if rv != v {
					continue
				}
				for _, cs := range w.callSites(f) {
					c, ok := cs.(*ssa.Call)
					if !ok {
						continue
					}
					if f.Signature.Results().Len() == 1 {
						w.forward(c, seen, visit)
						continue
					}
					for _, q := range *c.Referrers() {
						if e, ok := q.(*ssa.Extract); ok && e.Index == i {
							w.forward(e, seen, visit)
						}
					}
				}
			}
		case ssa.CallInstruction:
			cc := x.Common()
			for _, t := range w.callees(r) {
				if !w.InModule(t) || t.Blocks == nil {
					continue
				}
				off := 0
				if cc.IsInvoke() {
					off = 1
				}
				for i, a := range cc.Args {
					if a == v && i+off < len(t.Params) {
						w.forward(t.Params[i+off], seen, visit)
					}
				}
			}
		}
	}
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// callSites lists the static call sites of a function.
func (w *World) callSites(f *ssa.Function) []ssa.CallInstruction {
	if w.sites == nil {
		w.sites = map[*ssa.Function][]ssa.CallInstruction{}
		for _, g := range w.Funcs {
			Instrs(g, func(in ssa.Instruction) {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, t := range w.StaticTargets(ci.Common()) {
						w.sites[t] = append(w.sites[t], ci)
					}
				}
			})
		}
	}
	return w.sites[f]
}

// money columns of the ledger tables
var moneyCols = map[string][]string{
	"transactions":      {"amount", "precise_amount"},
	"balances":          {"balance", "credit_balance", "debit_balance", "inflight_balance", "inflight_credit_balance", "inflight_debit_balance"},
	"balance_snapshots": {"balance", "credit_balance", "debit_balance", "inflight_balance", "inflight_credit_balance", "inflight_debit_balance"},
}

func moneyCol(n string) bool {
	switch n {
	case "precise_amount", "balance", "credit_balance", "debit_balance", "inflight_balance", "inflight_credit_balance", "inflight_debit_balance":
		return true
	}
	return false
}

// searchArgument: the number only travels as the unused amount argument of a reconciliation's batch search.
func (w *World) searchArgument(u any) bool {
	v, ok := u.(ssa.Value)
	if !ok {
		return false
	}
	rec := w.ReachableFrom(w.Func("(*blnk.Blnk).StartReconciliation"), w.Func("(*blnk.Blnk).StartInstantReconciliation"))
	if v.Referrers() == nil || len(*v.Referrers()) == 0 {
		return false
	}
	if in, ok := v.(ssa.Instruction); !ok || !rec[in.Parent()] {
		return false
	}
	for _, r := range *v.Referrers() {
		ci, ok := r.(ssa.CallInstruction)
		if !ok || unwrapCallee(ci.Common()) == nil || fnName(unwrapCallee(ci.Common())) != "(*blnk.Blnk).ProcessTransactionInBatches" {
			return false
		}
	}
	return true
}

func ruleB04(c *Ctx) {
	w := c.W
	for _, n := range []string{"(*blnk.Blnk).StartReconciliation", "(*blnk.Blnk).StartInstantReconciliation"} {
		if w.Func(n) == nil {
			c.Fail("anchor", n, "", "not found")
			return
		}
	}
	c.Rule("narrow", "a number narrowed from a big integer, big float or decimal (or a float converted to an integer) never flows, through any function of the module, into a big integer, a decimal, a bound statement argument or a monetary field other than the display amount; numbers computed only from a precision or a monitor threshold are not amounts")
	c.Rule("unbounded", "every monetary column of the ledger tables has the type NUMERIC without precision in the folded schema")
	c.Rule("parsed", "after a big-integer parse whose outcome is false, no success exit is reached")
	c.Rule("columns", "monetary columns are read into text (or a nullable text) and written from text, never through a fixed-width number")
	// narrowing
	n := 0
	for _, f := range w.Funcs {
		if strings.HasPrefix(fnName(f), "tests/") {
			continue
		}
		f := f
		Instrs(f, func(in ssa.Instruction) {
			src, what := narrowing(in)
			if src == nil {
				return
			}
			org := map[string]bool{}
			fieldOrigins(src, map[ssa.Value]bool{}, org)
			n++
			c.Saw(fnName(f))
			key := fnName(f) + " " + what
			only := len(org) > 0
			for o := range org {
				if !strings.HasSuffix(o, ".Precision") && !strings.HasPrefix(o, "config.") && !strings.HasPrefix(o, "model.ExternalTransaction.") && !strings.HasPrefix(o, "model.MatchingCriteria.") && !strings.HasPrefix(o, "model.AlertCondition.") {
					only = false
				}
			}
			c.Ok("narrow", key, w.Pos(in.Pos()))
			if only {
				return
			}
			w.forward(in.(ssa.Value), map[ssa.Value]bool{}, func(use ssa.Instruction, v ssa.Value) {
				switch x := use.(type) {
				case ssa.CallInstruction:
					if s := moneySink(x.Common()); s != "" && !w.searchArgument(use) {
						c.Fail("narrow", key, w.Pos(in.Pos()), "the narrowed number reaches %s at %s", s, w.Pos(use.Pos()))
					}
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || x.Val != v {
						return
					}
					t, fl := typeName(fa.X.Type()), fieldName(fa.X.Type(), fa.Field)
					if (t == "model.Transaction" && fl != "Amount" && fl != "Precision") || t == "model.Balance" || t == "model.BalanceMonitor" {
						c.Fail("narrow", key, w.Pos(in.Pos()), "the narrowed number is stored into %s.%s at %s", t, fl, w.Pos(use.Pos()))
					}
				}
			})
		})
	}
	c.Floor("narrow", 6)
	// display amounts never become precise amounts outside the conversion function
	w.displayAmount(c)
	// storage
	s := w.Schema()
	for _, t := range sortedKeys(moneyCols) {
		for _, col := range moneyCols[t] {
			tb := s.Tables[t]
			key := t + "." + col
			if tb == nil || tb.Cols[col] == nil {
				c.Fail("unbounded", key, "sql", "the schema has no column %s", key)
				continue
			}
			ty := strings.ToUpper(tb.Cols[col].Type)
			c.Check(ty == "NUMERIC" || ty == "DECIMAL", "unbounded", key, "sql", "%s has type %s: amounts beyond it fail or are rounded", key, ty)
		}
	}
	c.Floor("unbounded", 14)
	c.parseRule()
	c.moneyColumns()
}

// parseRule: failed big-integer parses end in failure.
func (c *Ctx) parseRule() {
	w := c.W
	en := NewEngine(w)
	en.SmallMax = 0
	en.MaxDepth = 2
	roots := map[*ssa.Function]bool{}
	isParse := func(f *ssa.Function) bool {
		return f != nil && (f.String() == "(*math/big.Int).SetString" || f.String() == "(*math/big.Float).SetString" || f.String() == "(*math/big.Rat).SetString")
	}
	for _, f := range w.Funcs {
		if strings.HasPrefix(fnName(f), "tests/") {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok && isParse(unwrapCallee(ci.Common())) {
				roots[f] = true
			}
		})
	}
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		if !isParse(k.Fn) || k.Value == nil {
			return nil, false
		}
		key := fnName(k.F.Fn) + " " + short(k.Fn.String())
		c.Ok("parsed", key, w.Pos(k.Site.Pos()))
		// text produced by an exact number is always readable
		if exactText(k.Args[1]) {
			en.opaque(k.F, st, k)
			return []*State{st}, true
		}
		en.opaque(k.F, st, k)
		fail := st.Clone()
		r := en.Res(st, k, 1)
		en.setKind(st, r, "true")
		en.setKind(fail, r, "false")
		fail.Add("parse:" + key + "@" + w.Pos(k.Site.Pos()))
		return []*State{st, fail}, true
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		i := ErrIndex(f.Fn.Signature)
		for _, fct := range st.Facts() {
			if !strings.HasPrefix(fct, "parse:") {
				continue
			}
			p := strings.SplitN(fct[6:], "@", 2)
			if i >= 0 && en.Kind(st, res[i]) == "nonnil" {
				continue
			}
			if i < 0 && len(res) > 0 {
				last := res[len(res)-1]
				if k := en.Kind(st, last); k == "false" || (k == "nil" && len(res) == 1) {
					continue // (nil) or (x, false): the caller is told
				}
			}
			c.Fail("parsed", p[0], p[1], "text that cannot be read as a number does not make %s fail: it reaches the exit at %s", fnName(f.Fn), w.Pos(in.Pos()))
		}
	}
	for _, f := range sortedFns(roots) {
		en.Run(f, nil)
	}
	c.Engine(en)
	c.Floor("parsed", 5)
}

// exactText: the text was rendered from an exact integer or rounded decimal.
func exactText(t *Term) bool {
	t = t.unconv()
	if t.Op != "call" && t.Op != "pure" {
		return false
	}
	return t.Name == "(*math/big.Int).String" || t.Name == "(github.com/shopspring/decimal.Decimal).String"
}

// moneyColumns checks the Go side of the monetary columns.
func (c *Ctx) moneyColumns() {
	w := c.W
	S := w.CollectSQL()
	for _, o := range S.Scans {
		if o.Stmt == nil {
			continue
		}
		outs := o.Stmt.Outputs()
		if len(outs) != len(o.Dests) {
			continue
		}
		for i, col := range outs {
			if !moneyCol(col) {
				continue
			}
			ty := destType(o.Dests[i])
			if ty == "" {
				continue
			}
			bad := ty == "int64" || ty == "int" || ty == "float64" || ty == "float32" || ty == "int32" || ty == "uint64" || strings.Contains(ty, "NullInt") || strings.Contains(ty, "NullFloat")
			c.Check(!bad, "columns", fnName(o.Fn)+" reads "+col, w.Pos(o.Site.Pos()), "%s is read into a %s", col, ty)
		}
	}
	for _, s := range S.Sites {
		for _, e := range s.Events {
			if e.Stmt == nil || !e.ArgsOK {
				continue
			}
			for _, st := range e.Stmt.All() {
				bind := func(col string, tk []Tok) {
					if !moneyCol(col) || len(tk) != 1 || tk[0].K != "p" {
						return
					}
					i := atoi(tk[0].S) - 1
					if i < 0 || i >= len(e.Args) {
						return
					}
					ty := argType(e.Args[i])
					bad := ty == "int64" || ty == "int" || ty == "float64" || ty == "float32" || ty == "uint64"
					c.Check(!bad, "columns", fnName(s.Fn)+" writes "+st.Table+"."+col, w.Pos(s.Site.Pos()), "%s is written from a %s", col, ty)
				}
				for i, v := range st.Values {
					if i < len(st.Cols) {
						bind(st.Cols[i], v)
					}
				}
				for col, tk := range st.Set {
					bind(col, tk)
				}
			}
		}
	}
	c.Floor("columns", 40)
}

func atoi(s string) int {
	n := 0
	for _, r := range s {
		if r < '0' || r > '9' {
			return -1
		}
		n = n*10 + int(r-'0')
	}
	return n
}

// argType is the static type of a bound argument before it was wrapped in an interface.
func argType(t *Term) string {
	for t != nil && t.Op == "iface" {
		t = t.Args[0]
	}
	if t == nil || t.V == nil {
		if t != nil && t.Op == "load" {
			return fieldType(t.Args[0])
		}
		return ""
	}
	return t.V.Type().String()
}

func fieldType(a *Term) string {
	if a.V != nil {
		if p, ok := a.V.Type().Underlying().(*types.Pointer); ok {
			return p.Elem().String()
		}
	}
	return ""
}

// destType is the type a scan destination points to.
func destType(t *Term) string {
	for t != nil && (t.Op == "iface" || t.Op == "conv") {
		t = t.Args[0]
	}
	if t == nil {
		return ""
	}
	if t.V != nil {
		if p, ok := t.V.Type().Underlying().(*types.Pointer); ok {
			return p.Elem().String()
		}
	}
	return ""
}

// displayAmount: Transaction.Amount (floating point) becomes minor units only through the decimal conversion.
func (w *World) displayAmount(c *Ctx) {
	c.Rule("display", "the floating-point display amount of a transaction becomes an integer or big number only through exact decimal text")
	for _, f := range w.Funcs {
		f := f
		Instrs(f, func(in ssa.Instruction) {
			ci, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			g := unwrapCallee(ci.Common())
			if g == nil {
				return
			}
			switch g.String() {
			case "math/big.NewFloat", "(*math/big.Float).SetFloat64", "math/big.NewInt", "(*math/big.Int).SetInt64":
			default:
				return
			}
			org := map[string]bool{}
			for _, a := range ci.Call.Args {
				fieldOrigins(a, map[ssa.Value]bool{}, org)
			}
			for o := range org {
				if o == "model.Transaction.Amount" && !w.searchArgument(ci) {
					c.Fail("display", fnName(f)+" "+short(g.String()), w.Pos(in.Pos()), "minor units are computed from the floating-point amount")
				}
			}
			c.Ok("display", fnName(f)+" "+short(g.String()), w.Pos(in.Pos()))
		})
	}
	c.Floor("display", 8)
}
