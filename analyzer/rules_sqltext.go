package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["S05"] = ruleS05 }

// dangerous are the characters that mean something to the SQL lexer inside or outside a quoted text.
var dangerous = []rune{'\'', '"', ';', '\\', ' ', '\t', '\n', 0, '(', ')', '/', '*', '$', ',', '=', '<', '>', '|', '%', '&', '`', '?', '!', '{', '\u2019'}

// ---- evaluating a function with one value fixed ----

type fixed struct {
	w    *World
	vals map[ssa.Value]constant.Value
	from *ssa.BasicBlock // where the evaluation begins (nil: the entry)
	exec map[[2]*ssa.BasicBlock]bool
	live map[*ssa.BasicBlock]bool
	d    int
}

// evalWith propagates the fixed values through the function's conditions and finds the blocks that can still be executed.
func (w *World) evalWith(f *ssa.Function, from *ssa.BasicBlock, vals map[ssa.Value]constant.Value, d int) *fixed {
	x := &fixed{w: w, vals: vals, from: from, exec: map[[2]*ssa.BasicBlock]bool{}, live: map[*ssa.BasicBlock]bool{}, d: d}
	if from == nil {
		from = f.Blocks[0]
	}
	x.live[from] = true
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			if !x.live[b] {
				continue
			}
			succs := b.Succs
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if c := x.eval(iff.Cond, 0); c != nil && c.Kind() == constant.Bool {
					if constant.BoolVal(c) {
						succs = b.Succs[:1]
					} else {
						succs = b.Succs[1:]
					}
				}
			}
			for _, s := range succs {
				e := [2]*ssa.BasicBlock{b, s}
				if !x.exec[e] {
					x.exec[e] = true
					changed = true
				}
				if !x.live[s] {
					x.live[s] = true
					changed = true
				}
			}
		}
	}
	return x
}

func isHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func (x *fixed) eval(v ssa.Value, d int) constant.Value {
	if d > 12 {
		return nil
	}
	if c, ok := x.vals[v]; ok {
		return c
	}
	switch y := v.(type) {
	case *ssa.Const:
		if y.Value == nil {
			return nil
		}
		return y.Value
	case *ssa.Convert:
		if c := x.eval(y.X, d+1); c != nil && c.Kind() == constant.Int {
			if b, ok := y.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return c
			}
		}
	case *ssa.ChangeType:
		return x.eval(y.X, d+1)
	case *ssa.UnOp:
		if y.Op == token.NOT {
			if c := x.eval(y.X, d+1); c != nil && c.Kind() == constant.Bool {
				return constant.MakeBool(!constant.BoolVal(c))
			}
		}
	case *ssa.BinOp:
		a, b := x.eval(y.X, d+1), x.eval(y.Y, d+1)
		if a == nil || b == nil || a.Kind() != b.Kind() {
			return nil
		}
		switch y.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return constant.MakeBool(constant.Compare(a, y.Op, b))
		case token.ADD, token.SUB, token.OR, token.AND:
			if a.Kind() == constant.Int {
				return constant.BinaryOp(a, y.Op, b)
			}
		}
	case *ssa.Phi:
		if isHeader(y.Block()) {
			return nil
		}
		var r constant.Value
		for i, e := range y.Edges {
			if !x.exec[[2]*ssa.BasicBlock{y.Block().Preds[i], y.Block()}] {
				continue
			}
			c := x.eval(e, d+1)
			if c == nil || r != nil && (r.Kind() != c.Kind() || !constant.Compare(r, token.EQL, c)) {
				return nil
			}
			r = c
		}
		return r
	case *ssa.Call:
		g := y.Common().StaticCallee()
		if g == nil || x.d > 4 {
			return nil
		}
		var args []constant.Value
		for _, a := range y.Common().Args {
			args = append(args, x.eval(a, d+1))
		}
		return x.w.evalCall(g, args, x.d+1)
	}
	return nil
}

func (w *World) evalCall(g *ssa.Function, args []constant.Value, d int) constant.Value {
	r := func(i int) (rune, bool) {
		if i < len(args) && args[i] != nil && args[i].Kind() == constant.Int {
			n, ok := constant.Int64Val(args[i])
			return rune(n), ok
		}
		return 0, false
	}
	switch n := fnName(g); n {
	case "unicode.IsLetter", "unicode.IsDigit", "unicode.IsNumber", "unicode.IsSpace", "unicode.IsUpper", "unicode.IsLower", "unicode.IsPunct", "unicode.IsSymbol", "unicode.IsControl", "unicode.IsPrint":
		if k, ok := r(0); ok {
			fs := map[string]func(rune) bool{"IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsNumber": unicode.IsNumber, "IsSpace": unicode.IsSpace, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsPunct": unicode.IsPunct, "IsSymbol": unicode.IsSymbol, "IsControl": unicode.IsControl, "IsPrint": unicode.IsPrint}
			return constant.MakeBool(fs[strings.TrimPrefix(n, "unicode.")](k))
		}
		return nil
	case "unicode.ToLower", "unicode.ToUpper":
		if k, ok := r(0); ok {
			return constant.MakeInt64(int64(unicode.ToLower(k)))
		}
		return nil
	case "strings.ContainsRune", "strings.IndexRune", "strings.IndexByte":
		if k, ok := r(1); ok && args[0] != nil && args[0].Kind() == constant.String {
			i := strings.IndexRune(constant.StringVal(args[0]), k)
			if n == "strings.ContainsRune" {
				return constant.MakeBool(i >= 0)
			}
			return constant.MakeInt64(int64(i))
		}
		return nil
	}
	if !w.InModule(g) && g.Parent() == nil || g.Blocks == nil || g.Signature.Results().Len() != 1 {
		return nil
	}
	vals := map[ssa.Value]constant.Value{}
	for i, p := range g.Params {
		if i < len(args) && args[i] != nil {
			vals[p] = args[i]
		}
	}
	x := w.evalWith(g, nil, vals, d)
	var res constant.Value
	for b := range x.live {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			c := x.eval(ret.Results[0], 0)
			if c == nil || res != nil && !constant.Compare(res, token.EQL, c) {
				return nil
			}
			res = c
		}
	}
	return res
}

// charSafe: the block is not executed with the character being one that means something to SQL.
func (w *World) charSafe(v ssa.Value, at *ssa.BasicBlock) bool {
	root := v
	for {
		if c, ok := root.(*ssa.Convert); ok && isInt(c.X.Type()) {
			root = c.X
			continue
		}
		break
	}
	for _, k := range dangerous {
		if b, ok := root.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && k > 255 {
			continue
		}
		x := w.evalWith(at.Parent(), nil, map[ssa.Value]constant.Value{root: constant.MakeInt64(int64(k))}, 0)
		if x.live[at] {
			return false
		}
	}
	return true
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// sameText: two SSA values that are the same text.
func sameText(a, b ssa.Value, d int) bool {
	if a == b {
		return true
	}
	if d > 4 {
		return false
	}
	peel := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.Convert:
				v = x.X
				continue
			case *ssa.MakeInterface:
				v = x.X
				continue
			}
			return v
		}
	}
	a, b = peel(a), peel(b)
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		if y, ok := b.(*ssa.UnOp); ok && x.Op == token.MUL && y.Op == token.MUL {
			return sameAddr(x.X, y.X, d+1)
		}
	case *ssa.Field:
		if y, ok := b.(*ssa.Field); ok {
			return x.Field == y.Field && sameText(x.X, y.X, d+1)
		}
	case *ssa.Call: // the same text in lower case, without blanks
		if g := x.Common().StaticCallee(); g != nil {
			switch fnName(g) {
			case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
				return sameText(x.Common().Args[0], b, d+1)
			}
		}
	}
	if y, ok := b.(*ssa.Call); ok {
		if g := y.Common().StaticCallee(); g != nil {
			switch fnName(g) {
			case "strings.ToLower", "strings.ToUpper":
				return sameText(a, y.Common().Args[0], d+1)
			}
		}
	}
	return false
}

func sameAddr(a, b ssa.Value, d int) bool {
	if a == b {
		return true
	}
	if x, ok := a.(*ssa.FieldAddr); ok {
		if y, ok := b.(*ssa.FieldAddr); ok && x.Field == y.Field {
			return sameAddr(x.X, y.X, d+1) || sameText(x.X, y.X, d+1)
		}
	}
	if x, ok := a.(*ssa.IndexAddr); ok {
		if y, ok := b.(*ssa.IndexAddr); ok {
			return sameAddr(x.X, y.X, d+1) && sameText(x.Index, y.Index, d+1)
		}
	}
	return false
}

// safeWhen: what the condition being true (or false) tells of the text: that it is one of a fixed set, or made of harmless characters.
func (w *World) safeWhen(cond ssa.Value, v ssa.Value, d int) (whenTrue, whenFalse bool) {
	if d > 5 {
		return
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			t, f := w.safeWhen(x.X, v, d+1)
			return f, t
		}
		if x.Op == token.MUL {
			return
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && x.Op == token.LSS && c.Value.ExactString() == "0" {
				if k, ok := x.X.(*ssa.Call); ok && w.indexFunc(k, v) {
					return true, false
				}
			}
			if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && x.Op == token.GEQ && c.Value.ExactString() == "0" {
				if k, ok := x.X.(*ssa.Call); ok && w.indexFunc(k, v) {
					return false, true
				}
			}
			return
		}
		for i, a := range []ssa.Value{x.X, x.Y} {
			b := []ssa.Value{x.Y, x.X}[i]
			c, isC := b.(*ssa.Const)
			if !isC {
				continue
			}
			yes := false
			if c.Value != nil && c.Value.Kind() == constant.String && sameText(a, v, 0) {
				yes = true
			}
			if c.Value == nil { // err == nil
				yes = w.validates(a, v, d, "nil")
			}
			if c.Value != nil && c.Value.Kind() == constant.Bool {
				t, f := w.safeWhen(a, v, d+1)
				if !constant.BoolVal(c.Value) {
					t, f = f, t
				}
				if x.Op == token.NEQ {
					t, f = f, t
				}
				return t, f
			}
			if c.Value != nil && c.Value.ExactString() == "-1" {
				if k, ok := a.(*ssa.Call); ok && w.indexFunc(k, v) {
					yes = true
				}
			}
			if yes {
				return x.Op == token.EQL, x.Op == token.NEQ
			}
		}
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 && sameText(l.Index, v, 0) {
			return w.fixedKeys(l.X), false
		}
		return w.validates(x, v, d, "true"), w.validates(x, v, d, "false")
	case *ssa.Lookup:
		return sameText(x.Index, v, 0) && w.fixedKeys(x.X), false
	case *ssa.Call:
		g := x.Common().StaticCallee()
		if g == nil {
			return
		}
		n := fnName(g)
		as := x.Common().Args
		switch {
		case strings.HasPrefix(n, "slices.Contains") && len(as) == 2 && sameText(as[1], v, 0):
			return w.fixedList(as[0]), false
		case strings.HasSuffix(n, "regexp.Regexp).MatchString") && len(as) == 2 && sameText(as[1], v, 0):
			return w.safePattern(as[0]), false
		}
		return w.validates(x, v, d, "true"), w.validates(x, v, d, "false")
	}
	return
}

// indexFunc: strings.IndexFunc(v, f) with f true for every dangerous character.
func (w *World) indexFunc(k *ssa.Call, v ssa.Value) bool {
	g := k.Common().StaticCallee()
	if g == nil || len(k.Common().Args) != 2 || !sameText(k.Common().Args[0], v, 0) {
		return false
	}
	if n := fnName(g); n != "strings.IndexFunc" {
		return false
	}
	fs := w.funcValues(k.Common().Args[1])
	if len(fs) != 1 {
		return false
	}
	fn, ok := fs[0].(*ssa.Function)
	if !ok {
		return false
	}
	for _, r := range dangerous {
		c := w.evalCall(fn, []constant.Value{constant.MakeInt64(int64(r))}, 1)
		if c == nil || c.Kind() != constant.Bool || !constant.BoolVal(c) {
			return false
		}
	}
	return true
}

// validates: the value is the result of a module function that answers so only if the text it was given is harmless.
func (w *World) validates(res ssa.Value, v ssa.Value, d int, answer string) bool {
	i := 0
	if x, ok := res.(*ssa.Extract); ok {
		i, res = x.Index, x.Tuple
	}
	k, ok := res.(*ssa.Call)
	if !ok {
		return false
	}
	g := k.Common().StaticCallee()
	if g == nil || !w.InModule(g) || g.Blocks == nil {
		return false
	}
	var p *ssa.Parameter
	for j, a := range k.Common().Args {
		if sameText(a, v, 0) && j < len(g.Params) {
			p = g.Params[j]
		}
	}
	if p == nil {
		return false
	}
	some := false
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || i >= len(ret.Results) {
			continue
		}
		some = true
		var may func(x ssa.Value, at, to *ssa.BasicBlock) bool // the answer may be given here without the text being harmless
		may = func(x ssa.Value, at, to *ssa.BasicBlock) bool {
			switch y := x.(type) {
			case *ssa.Const:
				is := answer == "nil" && y.Value == nil || y.Value != nil && y.Value.ExactString() == answer
				if !is {
					return false
				}
			case *ssa.Phi:
				for j, e := range y.Edges {
					if may(e, y.Block().Preds[j], y.Block()) {
						return true
					}
				}
				return false
			case *ssa.MakeInterface:
				if answer == "nil" {
					return false
				}
			case *ssa.Call:
				if n := calleeName(y); answer == "nil" && (n == "errors.New" || n == "fmt.Errorf") {
					return false
				}
			}
			if isBool(x.Type()) {
				t, f := w.safeWhen(x, p, d+1)
				if answer == "true" && t || answer == "false" && f {
					return false
				}
			}
			return !w.guarded(p, at, to, d+1)
		}
		if may(ret.Results[i], b, nil) {
			return false
		}
	}
	return some
}

// fixedKeys: a map whose keys are written in the program.
func (w *World) fixedKeys(m ssa.Value) bool {
	switch x := m.(type) {
	case *ssa.UnOp:
		g, ok := x.X.(*ssa.Global)
		return ok && w.globalMap(g) != nil
	case *ssa.MakeMap:
		for _, r := range *x.Referrers() {
			if u, ok := r.(*ssa.MapUpdate); ok && u.Map == x {
				if _, ok := u.Key.(*ssa.Const); !ok {
					return false
				}
			}
		}
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !w.fixedKeys(e) {
				return false
			}
		}
		return true
	case *ssa.Const:
		return true
	case *ssa.Call:
		g := x.Common().StaticCallee()
		if g == nil || !w.InModule(g) || g.Blocks == nil {
			return false
		}
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(ret.Results) != 1 || !w.fixedKeys(ret.Results[0]) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// fixedList: a slice of texts written in the program.
func (w *World) fixedList(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Slice:
		es := variadicElems(v)
		for _, e := range es {
			if _, ok := e.(*ssa.Const); !ok {
				return false
			}
		}
		return len(es) > 0
	case *ssa.UnOp:
		g, ok := x.X.(*ssa.Global)
		if !ok || g.Pkg == nil || w.storedOutsideInit(g) {
			return false
		}
		r := false
		Instrs(g.Pkg.Func("init"), func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
				r = w.fixedList(st.Val)
			}
		})
		return r
	}
	return false
}

// safePattern: a compiled constant pattern, anchored at both ends, that matches harmless characters only.
func (w *World) safePattern(v ssa.Value) bool {
	var compiled func(v ssa.Value) (string, bool)
	compiled = func(v ssa.Value) (string, bool) {
		switch x := v.(type) {
		case *ssa.Call:
			if n := calleeName(x); n == "regexp.MustCompile" || n == "regexp.Compile" {
				if c, ok := x.Common().Args[0].(*ssa.Const); ok && c.Value != nil {
					return constant.StringVal(c.Value), true
				}
			}
		case *ssa.Extract:
			return compiled(x.Tuple)
		case *ssa.UnOp:
			g, ok := x.X.(*ssa.Global)
			if !ok || g.Pkg == nil || w.storedOutsideInit(g) {
				return "", false
			}
			s, found := "", false
			Instrs(g.Pkg.Func("init"), func(in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					s, found = compiled(st.Val)
				}
			})
			return s, found
		}
		return "", false
	}
	s, ok := compiled(v)
	if !ok {
		return false
	}
	re, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return false
	}
	subs := []*syntax.Regexp{re}
	if re.Op == syntax.OpConcat {
		subs = re.Sub
	}
	if len(subs) < 2 || subs[0].Op != syntax.OpBeginText || subs[len(subs)-1].Op != syntax.OpEndText {
		return false
	}
	var harmlessRe func(r *syntax.Regexp) bool
	harmlessRe = func(r *syntax.Regexp) bool {
		switch r.Op {
		case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
			return false
		case syntax.OpLiteral:
			for _, k := range r.Rune {
				for _, d := range dangerous {
					if k == d {
						return false
					}
				}
			}
		case syntax.OpCharClass:
			for i := 0; i+1 < len(r.Rune); i += 2 {
				for _, d := range dangerous {
					if r.Rune[i] <= d && d <= r.Rune[i+1] {
						return false
					}
				}
			}
		}
		for _, s := range r.Sub {
			if !harmlessRe(s) {
				return false
			}
		}
		return true
	}
	if !harmlessRe(re) {
		return false
	}
	m, err := regexp.Compile(s)
	return err == nil && !m.MatchString("a\n")
}

// guarded: every path to the block (to its edge to another, if given) passes a test the text is harmless after.
func (w *World) guarded(v ssa.Value, at, to *ssa.BasicBlock, d int) bool {
	f := at.Parent()
	if d > 5 || f == nil {
		return false
	}
	safe := map[[2]*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b.Succs[0] == b.Succs[1] {
			continue
		}
		t, e := w.safeWhen(iff.Cond, v, d)
		if t {
			safe[[2]*ssa.BasicBlock{b, b.Succs[0]}] = true
		}
		if e {
			safe[[2]*ssa.BasicBlock{b, b.Succs[1]}] = true
		}
	}
	if to != nil && safe[[2]*ssa.BasicBlock{at, to}] {
		return true
	}
	if len(safe) > 0 {
		seen := map[*ssa.BasicBlock]bool{}
		var reach func(b *ssa.BasicBlock)
		reach = func(b *ssa.BasicBlock) {
			if seen[b] {
				return
			}
			seen[b] = true
			for _, s := range b.Succs {
				if !safe[[2]*ssa.BasicBlock{b, s}] {
					reach(s)
				}
			}
		}
		reach(f.Blocks[0])
		if !seen[at] {
			return true
		}
	}
	return w.scanned(v, at)
}

// scanned: a loop looked at every character of the text, and comes here only if none is dangerous.
func (w *World) scanned(v ssa.Value, at *ssa.BasicBlock) bool {
	f := at.Parent()
	found := false
	check := func(c ssa.Value, body, header *ssa.BasicBlock) {
		if found || body == nil || !header.Dominates(at) || body.Dominates(at) {
			return
		}
		for _, k := range dangerous {
			if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && k > 255 {
				continue
			}
			if w.evalWith(f, body, map[ssa.Value]constant.Value{c: constant.MakeInt64(int64(k))}, 0).live[at] {
				return
			}
		}
		found = true
	}
	Instrs(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Extract:
			nx, ok := x.Tuple.(*ssa.Next)
			if !ok || x.Index != 2 {
				return
			}
			if rg, ok := nx.Iter.(*ssa.Range); ok && sameText(rg.X, v, 0) {
				check(x, x.Block(), nx.Block())
			}
		case *ssa.Lookup, *ssa.Index:
			ch := in.(ssa.Value)
			var idx, of ssa.Value
			if l, ok := in.(*ssa.Lookup); ok {
				idx, of = l.Index, l.X
			} else if l, ok := in.(*ssa.Index); ok {
				idx, of = l.Index, l.X
			}
			phi, ok := idx.(*ssa.Phi)
			if !ok || !sameText(of, v, 0) || !isHeader(phi.Block()) {
				return
			}
			h := phi.Block()
			iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
			if !ok {
				return
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok || bo.Op != token.LSS || bo.X != ssa.Value(phi) || !h.Succs[0].Dominates(in.Block()) {
				return
			}
			ln, ok := bo.Y.(*ssa.Call)
			if !ok || len(ln.Common().Args) != 1 || !sameText(ln.Common().Args[0], v, 0) {
				return
			}
			for i, e := range phi.Edges { // from the first character on
				if !h.Dominates(h.Preds[i]) {
					if c, ok := e.(*ssa.Const); !ok || c.Value.ExactString() != "0" {
						return
					}
				} else if inc, ok := e.(*ssa.BinOp); !ok || inc.Op != token.ADD || inc.X != ssa.Value(phi) {
					return
				}
			}
			check(ch, in.Block(), h)
		}
	})
	return found
}

// ---- where a text comes from ----

type callCtx struct {
	site ssa.CallInstruction
	up   *callCtx
	n    int
}

type textOf struct {
	w      *World
	seen   map[string]bool
	bad    map[string]string // why -> where
	leaves int
	fields map[string][]*ssa.Store
}

func (p *textOf) leaf(why string, pos token.Pos) {
	if _, ok := p.bad[why]; !ok {
		p.bad[why] = p.w.Pos(pos)
	}
}

var safeText = []string{"github.com/lib/pq.QuoteIdentifier", "github.com/lib/pq.QuoteLiteral", "github.com/lib/pq.CopyIn", "github.com/google/uuid.", "(github.com/google/uuid.", "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatBool", "strconv.FormatFloat", "(time.Time).Format", "(time.Duration).String", "encoding/hex.EncodeToString"}

// walk follows a text back to what it is made of; at is the block that uses it, to the successor if the use is a phi's.
func (p *textOf) walk(v ssa.Value, ctx *callCtx, at, to *ssa.BasicBlock) {
	if v == nil {
		return
	}
	key := fmt.Sprintf("%p/%p/%p", v, at, to)
	for c := ctx; c != nil; c = c.up {
		key += fmt.Sprintf("/%p", c.site)
	}
	if p.seen[key] {
		return
	}
	p.seen[key] = true
	w := p.w
	switch t := v.Type().Underlying().(type) {
	case *types.Basic:
		if t.Info()&types.IsString == 0 { // a number in a format
			p.leaves++
			return
		}
	}
	if typeName(v.Type()) == "time.Time" {
		return
	}
	if c, ok := v.(*ssa.Const); ok {
		_ = c
		p.leaves++
		return
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && at != nil && v.Parent() == at.Parent() && w.guarded(v, at, to, 0) {
		p.leaves++
		return
	}
	blk := at
	if in, ok := v.(ssa.Instruction); ok {
		blk = in.Block()
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		p.walk(x.X, ctx, blk, nil)
		p.walk(x.Y, ctx, blk, nil)
	case *ssa.Phi:
		for i, e := range x.Edges {
			p.walk(e, ctx, x.Block().Preds[i], x.Block())
		}
	case *ssa.Convert:
		if isInt(x.X.Type()) {
			if !w.charSafe(x.X, blk) {
				p.leaf("a character that is not checked", x.Pos())
			}
			return
		}
		p.walk(x.X, ctx, blk, nil)
	case *ssa.ChangeType:
		p.walk(x.X, ctx, at, to)
	case *ssa.ChangeInterface:
		p.walk(x.X, ctx, at, to)
	case *ssa.MakeInterface:
		p.walk(x.X, ctx, at, to)
	case *ssa.TypeAssert:
		p.walk(x.X, ctx, blk, nil)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			p.call(t, x.Index, ctx)
		case *ssa.Lookup:
			p.lookup(t, ctx)
		case *ssa.TypeAssert:
			p.walk(t.X, ctx, blk, nil)
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok {
				if x.Index == 1 {
					p.keys(rg.X, ctx)
				} else {
					p.container(rg.X, ctx)
				}
				return
			}
			p.leaf("an iteration", x.Pos())
		default:
			p.leaf("an unknown value", x.Pos())
		}
	case *ssa.Call:
		p.call(x, 0, ctx)
	case *ssa.Lookup:
		p.lookup(x, ctx)
	case *ssa.Slice:
		p.walk(x.X, ctx, blk, nil)
	case *ssa.Index:
		p.walk(x.X, ctx, blk, nil)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			p.load(x.X, ctx, x)
		}
	case *ssa.Field:
		p.field(x.X.Type(), x.Field, x.Pos())
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		p.contents(v, ctx, map[ssa.Value]bool{})
	case *ssa.Parameter:
		p.param(x, ctx)
	case *ssa.FreeVar:
		for _, b := range freeBindings(x) {
			p.walk(b, nil, nil, nil)
		}
	case *ssa.Global:
		p.global(x)
	case *ssa.FieldAddr:
		p.field(x.X.Type(), x.Field, x.Pos())
	case *ssa.IndexAddr:
		p.walk(x.X, ctx, blk, nil)
	default:
		p.leaf("an unknown value ("+strings.TrimPrefix(fmt.Sprintf("%T", v), "*ssa.")+")", v.Pos())
	}
}

func (p *textOf) param(x *ssa.Parameter, ctx *callCtx) {
	f := x.Parent()
	i := -1
	for j, q := range f.Params {
		if q == x {
			i = j
		}
	}
	pass := func(site ssa.CallInstruction, up *callCtx) {
		a := site.Common().Args
		if site.Common().IsInvoke() {
			a = append([]ssa.Value{site.Common().Value}, a...)
		}
		if i < len(a) {
			p.walk(a[i], up, site.Block(), nil)
		}
	}
	if ctx != nil && ctx.site != nil {
		pass(ctx.site, ctx.up)
		return
	}
	sites := p.w.callSites(f)
	n := 0
	for _, s := range sites {
		if isMock(s.Parent()) {
			continue
		}
		n++
		pass(s, nil)
	}
	if n == 0 {
		p.leaf("parameter "+x.Name()+" of "+fnName(f), x.Pos())
	}
}

func (p *textOf) call(x *ssa.Call, res int, ctx *callCtx) {
	w := p.w
	cc := x.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		for _, a := range cc.Args {
			if b.Name() == "append" {
				p.appended(a, ctx, x)
			}
		}
		return
	}
	targets := w.StaticTargets(cc)
	mod := len(targets) > 0
	for _, g := range targets {
		mod = mod && g.Blocks != nil && w.InModule(g)
	}
	if mod {
		n := 1
		if ctx != nil {
			n = ctx.n + 1
		}
		for c := ctx; c != nil; c = c.up {
			if c.site == ssa.CallInstruction(x) {
				return
			}
		}
		if n > 14 {
			p.leaf("a call too deep to follow", x.Pos())
			return
		}
		for _, g := range targets {
			if isMock(g) {
				continue
			}
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && res < len(ret.Results) {
					p.walk(ret.Results[res], &callCtx{x, ctx, n}, b, nil)
				}
			}
		}
		return
	}
	n := calleeName(x)
	for _, s := range safeText {
		if strings.HasPrefix(n, s) {
			p.leaves++
			return
		}
	}
	switch {
	case strings.HasPrefix(n, "fmt.Sprint"), strings.HasPrefix(n, "strings."), strings.HasPrefix(n, "bytes."), strings.HasPrefix(n, "slices."), strings.HasPrefix(n, "strconv."):
		for _, a := range cc.Args {
			if _, fn := a.Type().Underlying().(*types.Signature); fn {
				continue
			}
			p.walk(a, ctx, x.Block(), nil)
		}
	case strings.HasSuffix(n, ".Builder).String") || strings.HasSuffix(n, "bytes.Buffer).String") || strings.HasSuffix(n, "bytes.Buffer).Bytes"):
		p.walk(cc.Args[0], ctx, x.Block(), nil)
	default:
		if n == "" {
			n = "an unknown function"
			if cc.IsInvoke() {
				n = cc.Method.FullName()
			}
		}
		p.leaf("the result of "+short(n), x.Pos())
	}
}

// appended: a slice or the elements appended to it.
func (p *textOf) appended(a ssa.Value, ctx *callCtx, at *ssa.Call) {
	if es := variadicElems(a); len(es) > 0 {
		for _, e := range es {
			if isInt(e.Type()) {
				if !p.w.charSafe(e, at.Block()) {
					p.leaf("a character that is not checked", at.Pos())
				}
				continue
			}
			p.walk(e, ctx, at.Block(), nil)
		}
		return
	}
	p.walk(a, ctx, at.Block(), nil)
}

func (p *textOf) lookup(x *ssa.Lookup, ctx *callCtx) {
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		p.walk(x.X, ctx, x.Block(), nil)
		return
	}
	p.container(x.X, ctx)
}

// container: the values of a map or the elements of a slice.
func (p *textOf) container(m ssa.Value, ctx *callCtx) {
	if u, ok := m.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok && p.w.globalMap(g) != nil {
			p.leaves++
			return
		}
	}
	p.walk(m, ctx, nil, nil)
}

func (p *textOf) keys(m ssa.Value, ctx *callCtx) {
	if p.w.fixedKeys(m) {
		p.leaves++
		return
	}
	if _, ok := m.Type().Underlying().(*types.Map); ok {
		p.leaf("the keys of a map", m.Pos())
	}
}

// contents: what is written into an object, or into what it is handed to.
func (p *textOf) contents(o ssa.Value, ctx *callCtx, seen map[ssa.Value]bool) {
	if seen[o] || o.Referrers() == nil {
		return
	}
	seen[o] = true
	for _, r := range *o.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == o {
				if isInt(x.Val.Type()) {
					if b, ok := x.Val.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32) && !p.w.charSafe(x.Val, x.Block()) {
						p.leaf("a character that is not checked", x.Pos())
					}
					continue
				}
				p.walk(x.Val, ctx, x.Block(), nil)
			}
		case *ssa.MapUpdate:
			if x.Map == o {
				p.walk(x.Value, ctx, x.Block(), nil)
			}
		case *ssa.IndexAddr:
			if x.X == o {
				p.contents(x, ctx, seen)
			}
		case *ssa.FieldAddr:
			p.contents(x, ctx, seen)
		case *ssa.Slice:
			if x.X == o {
				p.contents(x, ctx, seen)
			}
		case *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface:
			p.contents(r.(ssa.Value), ctx, seen)
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if g, ok := x.Fn.(*ssa.Function); ok && b == o && i < len(g.FreeVars) {
					p.contents(g.FreeVars[i], nil, seen)
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				switch x.Type().Underlying().(type) {
				case *types.Slice, *types.Map, *types.Pointer:
					p.contents(x, ctx, seen)
				}
			}
		case ssa.CallInstruction:
			p.written(o, x, ctx, seen)
		}
	}
}

// written: a call that may write into the object.
func (p *textOf) written(o ssa.Value, k ssa.CallInstruction, ctx *callCtx, seen map[ssa.Value]bool) {
	cc := k.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "copy" && cc.Args[0] == o {
			p.walk(cc.Args[1], ctx, k.Block(), nil)
		}
		return
	}
	n := calleeName(k)
	targets := p.w.StaticTargets(cc)
	in := false
	for _, g := range targets {
		if g.Blocks == nil || !p.w.InModule(g) {
			continue
		}
		in = true
		for i, a := range cc.Args {
			if a == o && i < len(g.Params) && !cc.IsInvoke() {
				p.contents(g.Params[i], &callCtx{k, ctx, 1}, seen)
			}
		}
	}
	if in || n == "" {
		return
	}
	m := n[strings.LastIndex(n, ".")+1:]
	switch {
	case strings.HasPrefix(m, "Write") && len(cc.Args) > 1 && cc.Args[0] == o:
		a := cc.Args[1]
		if isInt(a.Type()) {
			if _, ok := a.(*ssa.Const); !ok && !p.w.charSafe(a, k.Block()) {
				p.leaf("a character that is not checked", k.Pos())
			}
			return
		}
		p.walk(a, ctx, k.Block(), nil)
	case strings.HasPrefix(n, "fmt.Fprint") && cc.Args[0] == o:
		for _, a := range cc.Args[1:] {
			p.walk(a, ctx, k.Block(), nil)
		}
	case strings.HasPrefix(m, "Scan") || strings.Contains(m, "Unmarshal") || strings.Contains(m, "Decode") || strings.Contains(m, "Bind"):
		p.leaf("what "+short(n)+" writes", k.Pos())
	}
}

func (p *textOf) load(addr ssa.Value, ctx *callCtx, at *ssa.UnOp) {
	switch x := addr.(type) {
	case *ssa.Alloc:
		p.contents(x, ctx, map[ssa.Value]bool{})
	case *ssa.FieldAddr:
		p.field(x.X.Type(), x.Field, x.Pos())
	case *ssa.Global:
		p.global(x)
	case *ssa.FreeVar:
		for _, b := range freeBindings(x) {
			if _, ok := b.(*ssa.Alloc); ok {
				p.contents(b, nil, map[ssa.Value]bool{})
			} else {
				p.walk(b, nil, nil, nil)
			}
		}
	default:
		p.walk(addr, ctx, at.Block(), nil)
	}
}

// field: whatever the module stores in the field of any object of the type; a field filled by reflection is the request's.
func (p *textOf) field(t types.Type, i int, pos token.Pos) {
	st := structOf(t)
	if st == nil {
		p.leaf("an unknown field", pos)
		return
	}
	for pt, ok := t.Underlying().(*types.Pointer); ok; pt, ok = t.Underlying().(*types.Pointer) {
		t = pt.Elem()
	}
	name := typeName(t) + "." + st.Field(i).Name()
	if k := "field " + name; p.seen[k] {
		return
	} else {
		p.seen[k] = true
	}
	if tag := st.Tag(i); strings.Contains(tag, "json:") || strings.Contains(tag, "form:") || strings.Contains(tag, "envconfig:") {
		if !strings.Contains(typeName(t), "config.") {
			p.leaf("the field "+name, pos)
		}
		return
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !inMod(n.Obj().Pkg().Path()) {
		p.leaf("the field "+name, pos)
		return
	}
	if p.fields == nil {
		p.fields = map[string][]*ssa.Store{}
		for _, f := range p.w.Funcs {
			Instrs(f, func(in ssa.Instruction) {
				s, ok := in.(*ssa.Store)
				if !ok {
					return
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					u := fa.X.Type()
					if pt, ok := u.Underlying().(*types.Pointer); ok {
						u = pt.Elem()
					}
					k := typeName(u) + "." + fieldName(fa.X.Type(), fa.Field)
					p.fields[k] = append(p.fields[k], s)
				}
			})
		}
	}
	for _, s := range p.fields[name] {
		if !isMock(s.Parent()) {
			p.walk(s.Val, nil, s.Block(), nil)
		}
	}
}

func (p *textOf) global(g *ssa.Global) {
	if k := "global " + g.String(); p.seen[k] {
		return
	} else {
		p.seen[k] = true
	}
	if g.Pkg == nil || !inMod(g.Pkg.Pkg.Path()) {
		p.leaf("the variable "+short(g.String()), g.Pos())
		return
	}
	visit := func(in ssa.Instruction) {
		if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
			p.walk(s.Val, nil, s.Block(), nil)
		}
	}
	if init := g.Pkg.Func("init"); init != nil {
		Instrs(init, visit)
	}
	for _, f := range p.w.Funcs {
		Instrs(f, visit)
	}
}

func ruleS05(c *Ctx) {
	w := c.W
	c.Rule("text", "the text of every statement handed to the database is made of constants, numbers, values of fixed tables, and texts that were compared with constants or checked character by character")
	c.Rule("control", "the same analysis, applied to what the API's filters hold, does find request data (it is not blind)")
	c.Floor("text", 60)
	type site struct {
		f   *ssa.Function
		k   ssa.CallInstruction
		arg ssa.Value
		op  string
	}
	var sites []site
	for _, f := range w.Funcs {
		if isMock(f) {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			k, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			n := calleeName(k)
			if k.Common().IsInvoke() {
				n = k.Common().Method.FullName()
			}
			i := -1
			if m := sqlMeth.FindStringSubmatch(n); m != nil {
				if m[1] == "Stmt" {
					return
				}
				i = 1
				if strings.HasSuffix(m[2], "Context") {
					i = 2
				}
			} else if k.Common().IsInvoke() && regexp.MustCompile(`^(Exec|Query|QueryRow|Prepare)(Context)?$`).MatchString(k.Common().Method.Name()) {
				sg := k.Common().Method.Type().(*types.Signature) // an interface both DB and Tx satisfy
				for j := 0; j < sg.Params().Len(); j++ {
					if b, ok := sg.Params().At(j).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
						i = j
						break
					}
				}
			}
			if i >= 0 && i < len(k.Common().Args) {
				sites = append(sites, site{f, k, k.Common().Args[i], k.Common().Value.Name()})
			}
		})
	}
	nth := map[string]int{}
	for _, s := range sites {
		p := &textOf{w: w, seen: map[string]bool{}, bad: map[string]string{}}
		p.walk(s.arg, nil, s.k.Block(), nil)
		name := fnName(s.f)
		nth[name]++
		if nth[name] > 1 {
			name += fmt.Sprintf("#%d", nth[name])
		}
		var why []string
		for r := range p.bad {
			why = append(why, r)
		}
		sort.Strings(why)
		if len(why) == 0 {
			c.Ok("text", name, w.Pos(s.k.Pos()))
		}
		for _, r := range why {
			c.Fail("text", name+"|"+r, w.Pos(s.k.Pos()), "the text of the statement contains %s (%s)", r, p.bad[r])
		}
		c.Saw(fnName(s.f))
	}
	// the analysis sees request data where there is some: the fields of the filters
	seen := false
	for _, f := range w.Funcs {
		if !inPkg(f, Mod+"/internal/filter") {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			fa, ok := in.(*ssa.FieldAddr)
			if ok && fieldName(fa.X.Type(), fa.Field) == "Field" {
				p := &textOf{w: w, seen: map[string]bool{}, bad: map[string]string{}}
				p.walk(fa, nil, fa.Block(), nil)
				seen = seen || len(p.bad) > 0
			}
		})
	}
	c.Check(seen, "control", "internal/filter", "", "the field names of the API's filters were not recognised as request data")
}
