package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["I01"] = ruleI01 }

const (
	tokPkg      = Mod + "/internal/tokenization"
	identityPtr = "*" + Mod + "/model.Identity"
	markerKey   = "tokenized_fields"
)

func ruleI01(c *Ctx) {
	c.Rule("sealed", "Every token returned without an error carries the value sealed by AES-GCM under the service's key, only while the service is enabled, with a nonce made in that very call, filled by crypto/rand with the error tested, used once and stored in front; the value itself is no part of the token.")
	c.Rule("visible", "What a token keeps of the value outside the sealed part is none of its letters or digits.")
	c.Rule("modes", "No cipher mode without authentication is used for tokens.")
	c.Rule("key", "The service counts as enabled exactly when the key it was made with has 32 bytes; the key comes from the configuration.")
	c.Rule("opened", "What detokenization returns without an error was opened, and so authenticated, under the service's key; its result is used by callers only after its error was tested.")
	c.Rule("designated", "A field is tokenized only if its name was found in the fixed list of designated fields, and it is that field's own value which is tokenized.")
	c.Rule("once", "A field is tokenized only after it was found not to be tokenized already.")
	c.Rule("together", "An identity with a token is stored by one statement, together with the mark of its field, and success is reported only then.")
	c.Rule("shapes", "Whoever reads the marks understands the form they have when they come back from the database.")
	c.Rule("replaced", "An update of an identity by a client keeps the marks in step with the tokens.")
	for r, n := range map[string]int{"sealed": 2, "visible": 1, "modes": 1, "key": 2, "opened": 3, "designated": 2, "once": 1, "together": 2, "shapes": 3, "replaced": 1} {
		c.Floor(r, n)
	}
	t := &tokens{c: c, w: c.W, masks: map[*ssa.Function]string{}}
	t.service()
	t.package_()
	t.identities()
	t.marks()
}

type tokens struct {
	c                    *Ctx
	w                    *World
	typ                  string
	keyField, onField    string
	seals, opens, update map[*ssa.Function]bool
	masks                map[*ssa.Function]string
}

func invokes(f *ssa.Function, iface string) bool {
	r := false
	Instrs(f, func(in ssa.Instruction) {
		if k, ok := in.(ssa.CallInstruction); ok && k.Common().IsInvoke() && "("+k.Common().Value.Type().String()+")."+k.Common().Method.Name() == iface {
			r = true
		}
	})
	return r
}

// service finds the type that holds the key and how it is told whether it may be used.
func (t *tokens) service() {
	w, c := t.w, t.c
	t.seals = w.Reaches(func(f *ssa.Function) bool { return inPkg(f, tokPkg) && invokes(f, "(crypto/cipher.AEAD).Seal") })
	t.opens = w.Reaches(func(f *ssa.Function) bool { return inPkg(f, tokPkg) && invokes(f, "(crypto/cipher.AEAD).Open") })
	for _, f := range w.Funcs {
		if !inPkg(f, tokPkg) {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			k, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			n := calleeName(k)
			switch {
			case n == "crypto/aes.NewCipher":
				v := k.Common().Args[0]
				for {
					if u, ok := v.(*ssa.UnOp); ok {
						v = u.X
						continue
					}
					break
				}
				if fa, ok := v.(*ssa.FieldAddr); ok {
					t.typ, t.keyField = structOfNamed(fa.X.Type()), fieldName(fa.X.Type(), fa.Field)
				}
			case strings.HasPrefix(n, "crypto/cipher.New") && !strings.HasPrefix(n, "crypto/cipher.NewGCM"), strings.HasPrefix(n, "crypto/des."), strings.HasPrefix(n, "crypto/rc4."):
				c.Fail("modes", n+" in "+fnName(f), w.Pos(in.Pos()), "a token is made with a cipher mode that does not authenticate")
			case strings.HasPrefix(n, "math/rand"):
				c.Fail("modes", n+" in "+fnName(f), w.Pos(in.Pos()), "a token is made with numbers that can be foreseen")
			}
			if k.Common().IsInvoke() && strings.HasPrefix(k.Common().Value.Type().String(), "crypto/cipher.Block") {
				c.Fail("modes", "cipher.Block in "+fnName(f), w.Pos(in.Pos()), "a block is encrypted on its own, without authentication")
			}
		})
	}
	c.Check(t.keyField != "", "modes", "key of the service", "", "no field of the service was found to be the key of AES")
	if t.keyField == "" {
		return
	}
	// the field that says whether it may be used
	n := 0
	for _, f := range w.Funcs {
		Instrs(f, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || structOfNamed(fa.X.Type()) != t.typ {
				return
			}
			name := fieldName(fa.X.Type(), fa.Field)
			if b, ok := s.Val.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				t.onField = name
				n++
				key := storedField(f, fa.X, t.keyField)
				c.Check(key != nil && (sized(s.Val, key, 0) || unreachableWithout(s.Block(), sizeTest(key, 1))), "key", name+" in "+fnName(f), w.Pos(s.Pos()), "the service is enabled by something other than a key of 32 bytes")
			} else if name == t.keyField {
				n++
				on := false
				Instrs(f, func(in ssa.Instruction) {
					if s2, ok := in.(*ssa.Store); ok {
						if fa2, ok := s2.Addr.(*ssa.FieldAddr); ok && fa2.X == fa.X {
							if b, ok := s2.Val.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
								on = true
							}
						}
					}
				})
				c.Check(on || !t.hasSwitch(), "key", name+" in "+fnName(f), w.Pos(s.Pos()), "the key is set without setting whether the service is enabled")
				_, isParam := s.Val.(*ssa.Parameter)
				if isParam {
					t.keyGiven(f, s.Val.(*ssa.Parameter))
				} else {
					c.Check(t.fromConfig(s.Val, 0), "key", "source in "+fnName(f), w.Pos(s.Pos()), "the key does not come from the configuration")
				}
			}
		})
	}
	c.Check(n > 0, "key", "service", "", "no place that sets the key was found")
}

func (t *tokens) hasSwitch() bool {
	n := t.w.Type(strings.TrimPrefix(tokPkg, Mod+"/"), t.typ[strings.LastIndex(t.typ, ".")+1:])
	if n == nil {
		return false
	}
	st := structOf(n)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return true
		}
	}
	return false
}

// keyGiven: what the callers of the constructor give as the key.
func (t *tokens) keyGiven(f *ssa.Function, p *ssa.Parameter) {
	i := -1
	for j, q := range f.Params {
		if q == p {
			i = j
		}
	}
	for _, g := range t.w.Funcs {
		if isMock(g) {
			continue
		}
		Instrs(g, func(in ssa.Instruction) {
			k, ok := in.(ssa.CallInstruction)
			if !ok || k.Common().StaticCallee() != f || i >= len(k.Common().Args) {
				return
			}
			t.c.Check(t.fromConfig(k.Common().Args[i], 0), "key", "given by "+fnName(g), t.w.Pos(in.Pos()), "the key the service is made with does not come from the configuration")
		})
	}
}

func (t *tokens) fromConfig(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil || x.Value.Kind() == constant.String && constant.StringVal(x.Value) == "" // no key
	case *ssa.Convert:
		return t.fromConfig(x.X, d+1)
	case *ssa.ChangeType:
		return t.fromConfig(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !t.fromConfig(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		return configured(x.X, 0)
	case *ssa.Field:
		return strings.HasPrefix(structOfNamed(x.X.Type()), Mod+"/config.")
	case *ssa.Parameter:
		i := -1
		for j, q := range x.Parent().Params {
			if q == x {
				i = j
			}
		}
		n, all := 0, true
		for _, g := range t.w.Funcs {
			if isMock(g) {
				continue
			}
			Instrs(g, func(in ssa.Instruction) {
				if k, ok := in.(ssa.CallInstruction); ok && k.Common().StaticCallee() == x.Parent() && i < len(k.Common().Args) {
					n++
					all = all && t.fromConfig(k.Common().Args[i], d+1)
				}
			})
		}
		return n > 0 && all
	}
	return false
}

// storedField is what the function stores in a field of the same object.
func storedField(f *ssa.Function, base ssa.Value, name string) ssa.Value {
	var r ssa.Value
	Instrs(f, func(in ssa.Instruction) {
		if s, ok := in.(*ssa.Store); ok {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X == base && fieldName(fa.X.Type(), fa.Field) == name {
				r = s.Val
			}
		}
	})
	return r
}

// sized: the value is true only if the key has 32 bytes.
func sized(v, key ssa.Value, d int) bool {
	if d > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value != nil && x.Value.Kind() == constant.Bool && !constant.BoolVal(x.Value)
	case *ssa.BinOp:
		if x.Op != token.EQL {
			return false
		}
		for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			if n, ok := constInt(p[1]); ok && n == 32 && (lengthOf(p[0]) == key || sameLen(p[0], key)) {
				return true
			}
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			if sized(e, key, d+1) {
				continue
			}
			p := x.Block().Preds[i]
			if !unreachableWithout(p, sizeTest(key, d+1)) {
				return false
			}
		}
		return true
	}
	return false
}

func sizeTest(key ssa.Value, d int) func(b *ssa.BasicBlock, iff *ssa.If) (bool, bool) {
	return func(b *ssa.BasicBlock, iff *ssa.If) (bool, bool) {
		if u, ok := iff.Cond.(*ssa.BinOp); ok && u.Op == token.NEQ {
			eq := *u
			eq.Op = token.EQL
			return false, sized(&eq, key, d)
		}
		return sized(iff.Cond, key, d), false
	}
}

func lengthOf(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}

// sameLen: the length of the text the key was converted from.
func sameLen(v, key ssa.Value) bool {
	l := lengthOf(v)
	k, ok := key.(*ssa.Convert)
	return l != nil && ok && k.X == l
}

// keyOf: the term is the key of the service.
func (t *tokens) isKey(x *Term) bool {
	_, fs := x.Path()
	return len(fs) > 0 && fs[len(fs)-1] == t.keyField
}

// crypt follows the cipher objects; it reports whether it dealt with the call.
func (t *tokens) crypt(en *Engine, st *State, k *Call) ([]*State, bool) {
	switch {
	case k.Is("crypto/aes.NewCipher"):
		ok, fail := en.Fork(st, k)
		if len(k.Args) == 1 && t.isKey(k.Args[0]) {
			ok.Add("block:" + en.Res(ok, k, 0).key)
		}
		return []*State{ok, fail}, true
	case k.Is("crypto/cipher.NewGCM"):
		was := st.Has("block:" + k.Args[0].key)
		ok, fail := en.Fork(st, k)
		if was {
			ok.Add("gcm:" + en.Res(ok, k, 0).key)
		}
		return []*State{ok, fail}, true
	case k.Is("io.ReadFull", "io.ReadAtLeast", "crypto/rand.Read"):
		buf := k.Args[len(k.Args)-1]
		if k.Is("io.ReadAtLeast") {
			buf = k.Args[1]
		}
		random := k.Is("crypto/rand.Read") || strings.Contains(k.Args[0].Strip().String(), "crypto/rand.Reader")
		ok, fail := en.Fork(st, k)
		if random && buf != nil && !k.Is("io.ReadAtLeast") {
			ok.Add("fresh:" + bufKey(buf))
		}
		return []*State{ok, fail}, true
	}
	return nil, false
}

// bufKey names the memory a slice is of.
func bufKey(t *Term) string {
	for t != nil {
		if t.Op == "slice" && len(t.Args) == 1 || t.Op == "load" || t.Op == "conv" {
			t = t.Args[0]
			continue
		}
		break
	}
	return t.key
}

// local: the buffer is made in the call itself.
func localBuf(t *Term) bool {
	for t != nil && (t.Op == "slice" && len(t.Args) == 1 || t.Op == "load" || t.Op == "conv") {
		t = t.Args[0]
	}
	if t.Op == "alloc" {
		return true
	}
	switch t.V.(type) {
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		_, ok := t.V.(*ssa.Slice).X.(*ssa.Alloc)
		return ok
	}
	return false
}

func (t *tokens) package_() {
	w, c := t.w, t.c
	if t.keyField == "" {
		return
	}
	for _, f := range w.Funcs {
		if !inPkg(f, tokPkg) || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Results().Len() != 2 || f.Signature.Results().At(0).Type().String() != "string" {
			continue
		}
		if t.seals[f] {
			t.seal(f)
		}
		if t.opens[f] {
			t.open(f)
		}
	}
	// whoever uses what was opened
	for _, f := range w.Funcs {
		if isMock(f) || inPkg(f, tokPkg) && !t.opens[f] {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			k, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			g := k.Call.StaticCallee()
			if g == nil || !t.opens[g] || g.Signature.Results().Len() != 2 || !isErr(g.Signature.Results().At(1).Type()) || !textual(g.Signature.Results().At(0).Type()) {
				return
			}
			if !inPkg(f, tokPkg) && inPkg(g, tokPkg) && ErrIndex(f.Signature) >= 0 {
				t.failing(f)
			}
			c.Check(usedOnSuccess(k), "opened", "result of "+fnName(g)+" in "+fnName(f), w.Pos(in.Pos()), "the result is used although it may not have been authenticated")
		})
	}
}

// failing: an operation whose token could not be opened fails.
func (t *tokens) failing(f *ssa.Function) {
	en := NewEngine(t.w)
	en.SmallMax, en.MaxDepth = 3, 5
	en.NoInline = func(g *ssa.Function) bool { return inPkg(g, tokPkg) || inPkg(g, Mod+"/database") || isMock(g) }
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		if k.Fn != nil && k.Kind == "call" && inPkg(k.Fn, tokPkg) && t.opens[k.Fn] {
			ok, fail := en.Fork(st, k)
			fail.Add("failed")
			return []*State{ok, fail}, true
		}
		return nil, false
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, fr *Frame) {
		if en.Kind(st, res[ErrIndex(f.Signature)]) != "nonnil" {
			t.c.Check(!st.Has("failed"), "opened", "failure in "+fnName(f), t.w.Pos(in.Pos()), "success is reported although the token could not be opened")
		}
	}
	en.Run(f, nil)
	t.c.Engine(en)
}

func textual(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Kind() == types.String
	case *types.Map:
		return textual(x.Elem())
	}
	return false
}

// usedOnSuccess: the first result is used only where the error of the call is known to be nil, or is returned along with it.
func usedOnSuccess(k *ssa.Call) bool {
	var val, err *ssa.Extract
	for _, r := range *k.Referrers() {
		if e, ok := r.(*ssa.Extract); ok {
			if e.Index == 0 {
				val = e
			} else {
				err = e
			}
		}
	}
	if val == nil {
		return true
	}
	for _, u := range *val.Referrers() {
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		if ret, ok := u.(*ssa.Return); ok && err != nil && len(ret.Results) > 1 && ret.Results[len(ret.Results)-1] == ssa.Value(err) {
			continue
		}
		b := u.Block()
		if phi, ok := u.(*ssa.Phi); ok {
			for i, e := range phi.Edges {
				if e == ssa.Value(val) {
					b = phi.Block().Preds[i]
				}
			}
		}
		if err == nil || !afterSuccess(k.Block(), b, err) {
			return false
		}
	}
	return true
}

// afterSuccess: b is reached from the call's block only over an edge on which err is nil.
func afterSuccess(from, b *ssa.BasicBlock, err ssa.Value) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var reach func(x *ssa.BasicBlock) bool
	reach = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for i, s := range x.Succs {
			if iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If); ok {
				if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.X == err || bo.Y == err) {
					if bo.Op == token.NEQ && i == 1 || bo.Op == token.EQL && i == 0 {
						continue
					}
				}
			}
			if reach(s) {
				return true
			}
		}
		return false
	}
	if from == b {
		return false
	}
	return !reach(from)
}

func (t *tokens) engine() *Engine {
	en := NewEngine(t.w)
	en.SmallMax, en.MaxDepth = 6, 8
	en.Relevant = map[*ssa.Function]bool{}
	for _, f := range t.w.Funcs {
		if inPkg(f, tokPkg) && (t.seals[f] || t.opens[f]) {
			en.Relevant[f] = true
		}
	}
	en.NoInline = func(f *ssa.Function) bool { return inPkg(f, tokPkg) && !en.Relevant[f] && hasLoop(f) }
	return en
}

func hasLoop(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

func (t *tokens) seal(root *ssa.Function) {
	w, c := t.w, t.c
	name := fnName(root)
	en := t.engine()
	var value *Term
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
		if cond.Op == "un" && cond.Name == "!" {
			cond, taken = cond.Args[0], !taken
		}
		if t.onField != "" && cond.IsField(t.onField) && taken {
			st.Add("enabled")
		}
		if a, b, eq := constEq(cond); a != nil && eq == taken {
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				if n, ok := p[1].Int(); ok && n == 32 && p[0].Op == "len" && t.isKey(p[0].Args[0]) {
					st.Add("enabled")
				}
			}
		}
	}
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		if out, ok := t.crypt(en, st, k); ok {
			return out, ok
		}
		if k.Fn != nil && k.Kind == "call" && t.seals[k.Fn] && k.F.Has(k.Fn) && k.Sig.Results().Len() == 2 && k.Sig.Results().At(0).Type().String() == "string" {
			// itself again: what holds for it holds here
			good := false
			for _, a := range k.Args {
				good = good || value != nil && a.Strip().key == value.key
			}
			c.Check(good, "sealed", name+" value in "+fnName(k.F.Fn), w.Pos(k.Site.Pos()), "what is sealed is not the value that was given")
			ok, fail := en.Fork(st, k)
			ok.Add("sealed")
			ok.vals["sealed"] = en.Res(ok, k, 0)
			return []*State{ok, fail}, true
		}
		if k.Iface == "(crypto/cipher.AEAD).Seal" && k.Kind == "call" {
			where := w.Pos(k.Site.Pos())
			fn := fnName(k.F.Fn)
			cl, dst, nonce, text := k.Args[0], k.Args[1], k.Args[2], k.Args[3]
			c.Check(st.Has("gcm:"+cl.key), "sealed", name+" cipher in "+fn, where, "the value is not sealed by AES-GCM under the service's key")
			c.Check(st.Has("enabled"), "sealed", name+" enabled in "+fn, where, "a value is tokenized without having found that the service has a valid key")
			c.Check(st.Has("fresh:"+bufKey(nonce)) && localBuf(nonce), "sealed", name+" nonce in "+fn, where, "the nonce is not made and filled at random, with success, in this very call")
			st.Del("fresh:" + bufKey(nonce))
			c.Check(bufKey(dst) == bufKey(nonce) && dst.Op != "const" || prefixed(k.Value, k.Site), "sealed", name+" prefix in "+fn, where, "the nonce is not stored in front of what was sealed: the token cannot be opened")
			c.Check(value != nil && text.Strip().key == value.key, "sealed", name+" value in "+fn, where, "what is sealed is not the value that was given")
			en.opaque(k.F, st, k)
			st.vals["sealed"] = en.Res(st, k, 0)
			st.Add("sealed")
			return []*State{st}, true
		}
		return nil, false
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		if en.Kind(st, res[1]) == "nonnil" {
			return
		}
		where := w.Pos(in.Pos())
		if !st.Has("sealed") {
			c.Fail("sealed", name, where, "a token is returned without an error although nothing was sealed")
			return
		}
		sealed := st.vals["sealed"]
		has := func(x *Term) bool { return deepMention(x, func(y *Term) bool { return y.key == sealed.key }) }
		c.Check(has(res[0]), "sealed", name, where, "what was sealed is no part of the token")
		for _, p := range en.Text(st, res[0]) {
			if p.Hole == nil || has(p.Hole) {
				continue
			}
			h := p.Hole.Strip()
			for h.Op == "res" {
				h = h.Args[0]
			}
			g := (*ssa.Function)(nil)
			if k, ok := h.V.(*ssa.Call); ok {
				g = k.Call.StaticCallee()
			}
			if g == nil || !inPkg(g, tokPkg) {
				c.Check(value == nil || !deepMention(p.Hole, func(y *Term) bool { return y.key == value.key }), "sealed", name+" clear", where, "the value itself is part of the token")
				continue
			}
			for i, a := range h.CArg {
				if value != nil && a.Strip().key == value.key {
					t.masked(g, i)
				}
			}
		}
	}
	for i, p := range root.Params {
		if p.Type().String() == "string" {
			value = en.mk("param", fmt.Sprintf("%s$%d", fnName(root), i), p, nil)
			break
		}
	}
	en.Run(root, nil)
	c.Engine(en)
}

// prefixed: what was sealed is appended to something.
func prefixed(v ssa.Value, at ssa.Instruction) bool {
	k, ok := at.(*ssa.Call)
	if !ok {
		return false
	}
	nonce := k.Call.Args[1]
	for _, r := range *k.Referrers() {
		if a, ok := r.(*ssa.Call); ok {
			if b, ok := a.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && a.Call.Args[1] == ssa.Value(k) && a.Call.Args[0] == nonce {
				return true
			}
		}
	}
	return false
}

func (t *tokens) open(root *ssa.Function) {
	w, c := t.w, t.c
	name := fnName(root)
	en := t.engine()
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		if out, ok := t.crypt(en, st, k); ok {
			return out, ok
		}
		if k.Iface == "(crypto/cipher.AEAD).Open" && k.Kind == "call" {
			good := st.Has("gcm:" + k.Args[0].key)
			ok, fail := en.Fork(st, k)
			if good {
				ok.Add("opened")
				ok.vals["opened"] = en.Res(ok, k, 0)
			}
			return []*State{ok, fail}, true
		}
		return nil, false
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		if en.Kind(st, res[1]) == "nonnil" {
			return
		}
		o := st.vals["opened"]
		c.Check(st.Has("opened") && o != nil && res[0].Strip().key == o.Strip().key, "opened", name, w.Pos(in.Pos()), "something is returned without an error which was not opened under the service's key")
	}
	en.Run(root, nil)
	c.Engine(en)
}

// masked: what a function that makes the visible part keeps of the characters of its argument.
func (t *tokens) masked(f *ssa.Function, arg int) {
	w, c := t.w, t.c
	if _, ok := t.masks[f]; ok {
		return
	}
	t.masks[f] = ""
	if f.Blocks == nil || arg >= len(f.Params) {
		return
	}
	name := fnName(f)
	p := f.Params[arg]
	// the characters of the value
	chars := map[ssa.Value]bool{}
	texts := map[ssa.Value]bool{p: true}
	for ch := true; ch; {
		ch = false
		mark := func(m map[ssa.Value]bool, v ssa.Value) {
			if !m[v] {
				m[v] = true
				ch = true
			}
		}
		Instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Convert:
				if texts[x.X] {
					mark(texts, x)
				}
				if chars[x.X] {
					mark(chars, x)
				}
			case *ssa.Range:
				if texts[x.X] {
					mark(texts, x)
				}
			case *ssa.Next:
				if texts[x.Iter] {
					mark(texts, x)
				}
			case *ssa.Extract:
				if texts[x.Tuple] && x.Index == 2 {
					mark(chars, x)
				}
			case *ssa.IndexAddr:
				if texts[x.X] {
					mark(texts, x)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && texts[x.X] {
					mark(chars, x)
				}
			case *ssa.Index:
				if texts[x.X] {
					mark(chars, x)
				}
			case *ssa.Lookup:
				if texts[x.X] {
					mark(chars, x)
				}
			case *ssa.Slice:
				if texts[x.X] {
					mark(texts, x)
				}
			case *ssa.ChangeType:
				if texts[x.X] {
					mark(texts, x)
				}
			}
		})
	}
	// whole texts never leave
	Instrs(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Return:
			for _, r := range x.Results {
				c.Check(!texts[r], "visible", name+" result", w.Pos(in.Pos()), "the visible part of the token is the value itself")
			}
		case *ssa.BinOp:
			if x.Op == token.ADD && x.Type().String() == "string" && (texts[x.X] || texts[x.Y]) {
				c.Fail("visible", name+" result", w.Pos(in.Pos()), "the visible part of the token contains the value itself")
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "copy" || b.Name() == "append") && len(x.Call.Args) == 2 && texts[x.Call.Args[1]] {
				c.Fail("visible", name+" result", w.Pos(in.Pos()), "characters of the value are copied into the visible part of the token")
			}
		}
	})
	// where a character is stored as it is
	var kept []ssa.Instruction
	keep := func(in ssa.Instruction, v ssa.Value, from *ssa.BasicBlock) {
		if chars[v] {
			kept = append(kept, in)
		}
	}
	phis := map[*ssa.Phi]bool{}
	Instrs(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			keep(in, x.Val, nil)
		case *ssa.Call:
			for _, a := range x.Call.Args {
				if n := calleeName(x); strings.HasPrefix(n, "unicode.") {
					continue
				}
				keep(in, a, nil)
			}
		case *ssa.Phi:
			phis[x] = true
		}
	})
	type place struct {
		b    *ssa.BasicBlock
		succ *ssa.BasicBlock
		in   ssa.Instruction
	}
	var ps []place
	for _, in := range kept {
		ps = append(ps, place{in.Block(), nil, in})
	}
	for phi := range phis {
		for i, e := range phi.Edges {
			if chars[e] {
				ps = append(ps, place{phi.Block().Preds[i], phi.Block(), phi})
			}
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].in.Pos() < ps[j].in.Pos() })
	starts := map[*ssa.BasicBlock]bool{}
	for v := range chars {
		if in, ok := v.(ssa.Instruction); ok {
			starts[in.Block()] = true
		}
	}
	var plain, other []rune
	for _, r := range samples() {
		for _, q := range ps {
			if reachesAs(starts, q.b, q.succ, chars, r) {
				if r < 128 {
					plain = append(plain, r)
				} else {
					other = append(other, r)
				}
				break
			}
		}
	}
	where := w.Pos(f.Pos())
	c.Check(len(plain) == 0, "visible", name+" letters and digits", where, "the characters %q of the value stay readable in the token", string(plain))
	c.Check(len(other) == 0, "visible", name+" letters outside ASCII", where, "letters like %q of the value stay readable in the token", string(other))
}

func samples() []rune {
	var r []rune
	for ch := rune('0'); ch <= 'z'; ch++ {
		if unicode.IsLetter(ch) || unicode.IsDigit(ch) {
			r = append(r, ch)
		}
	}
	return append(r, 'é', 'ß', 'Ж', '京', '٣')
}

var runeTests = map[string]func(rune) bool{
	"unicode.IsLetter": unicode.IsLetter, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsDigit": unicode.IsDigit,
	"unicode.IsNumber": unicode.IsNumber, "unicode.IsSpace": unicode.IsSpace, "unicode.IsPunct": unicode.IsPunct, "unicode.IsSymbol": unicode.IsSymbol,
	"unicode.IsMark": unicode.IsMark, "unicode.IsPrint": unicode.IsPrint, "unicode.IsControl": unicode.IsControl, "unicode.IsGraphic": unicode.IsGraphic,
}

// reachesAs: the block is reached while the character at hand is r.
func reachesAs(starts map[*ssa.BasicBlock]bool, to, succ *ssa.BasicBlock, chars map[ssa.Value]bool, r rune) bool {
	num := func(v ssa.Value) (int64, bool) {
		if chars[v] {
			return int64(r), true
		}
		return constInt(v)
	}
	var test func(v ssa.Value, from *ssa.BasicBlock) (val, known bool)
	test = func(v ssa.Value, from *ssa.BasicBlock) (val, known bool) {
		neg := false
		for {
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
				v, neg = u.X, !neg
				continue
			}
			break
		}
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.Bool {
				return constant.BoolVal(x.Value) != neg, true
			}
		case *ssa.Phi: // a condition worked out before it is tested
			for i, q := range x.Block().Preds {
				if q == from {
					if _, again := x.Edges[i].(*ssa.Phi); !again {
						r, known := test(x.Edges[i], nil)
						return r != neg, known
					}
				}
			}
		case *ssa.BinOp:
			a, ok1 := num(x.X)
			b, ok2 := num(x.Y)
			if !ok1 || !ok2 {
				return false, false
			}
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				return constant.Compare(constant.MakeInt64(a), x.Op, constant.MakeInt64(b)) != neg, true
			}
		case *ssa.Call:
			if g, ok := runeTests[calleeName(x)]; ok && len(x.Call.Args) == 1 && chars[x.Call.Args[0]] {
				return g(r) != neg, true
			}
		}
		return false, false
	}
	seen := map[[2]*ssa.BasicBlock]bool{}
	var reach func(b, from *ssa.BasicBlock) bool
	reach = func(b, from *ssa.BasicBlock) bool {
		if b == to && succ == nil {
			return true
		}
		if seen[[2]*ssa.BasicBlock{b, from}] {
			return false
		}
		seen[[2]*ssa.BasicBlock{b, from}] = true
		for i, s := range b.Succs {
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if v, known := test(iff.Cond, phiFrom(iff.Cond, b, from)); known && v != (i == 0) {
					continue
				}
			}
			if b == to && s == succ {
				return true
			}
			if starts[s] && s != to && s.Dominates(b) { // the next character
				continue
			}
			if reach(s, b) {
				return true
			}
		}
		return false
	}
	for b := range starts {
		if reach(b, nil) {
			return true
		}
	}
	return false
}

// phiFrom: where control came from, for a condition chosen in the same block.
func phiFrom(cond ssa.Value, b, from *ssa.BasicBlock) *ssa.BasicBlock {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond = u.X
	}
	if p, ok := cond.(*ssa.Phi); ok && p.Block() == b {
		return from
	}
	return nil
}

// looksUp: the function reads a fixed key of a map.
func looksUp(f *ssa.Function, key string) []*ssa.Lookup {
	var r []*ssa.Lookup
	Instrs(f, func(in ssa.Instruction) {
		if l, ok := in.(*ssa.Lookup); ok {
			if k, ok := unwrapIface(l.Index).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == key {
				r = append(r, l)
			}
		}
	})
	return r
}

func setsKey(f *ssa.Function, key string) bool {
	r := false
	Instrs(f, func(in ssa.Instruction) {
		if l, ok := in.(*ssa.MapUpdate); ok {
			if k, ok := l.Key.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == key {
				r = true
			}
		}
	})
	return r
}

// designatedList: the global list of names of fields that may be tokenized.
func (t *tokens) isList(x *Term) bool {
	x = x.Strip()
	if x == nil || x.Op != "global" {
		return false
	}
	g, ok := x.V.(*ssa.Global)
	return ok && t.goodList(g)
}

var stringFields = func(st *types.Struct) map[string]bool {
	r := map[string]bool{}
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Type().String() == "string" {
			r[st.Field(i).Name()] = true
		}
	}
	return r
}

func (t *tokens) goodList(g *ssa.Global) bool {
	if t.w.storedOutsideInit(g) {
		return false
	}
	names := globalStrings(g)
	if len(names) == 0 {
		return false
	}
	ok := stringFields(structOf(t.w.Type("model", "Identity")))
	for _, n := range names {
		if !ok[n] || !t.personal(n) {
			return false
		}
	}
	return true
}

// personal: identifiers and classifications of an identity are no personal fields.
func (t *tokens) personal(n string) bool {
	return !strings.HasSuffix(n, "ID") && !strings.HasSuffix(n, "Type") && n != "Category"
}

// globalStrings: the constants a global list of strings is initialised with.
func globalStrings(g *ssa.Global) []string {
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	var r []string
	Instrs(init, func(in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok || s.Addr != ssa.Value(g) {
			return
		}
		sl, ok := s.Val.(*ssa.Slice)
		if !ok {
			return
		}
		for _, u := range *sl.X.Referrers() {
			ia, ok := u.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, v := range *ia.Referrers() {
				if st, ok := v.(*ssa.Store); ok {
					if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						r = append(r, constant.StringVal(k.Value))
					}
				}
			}
		}
	})
	return r
}

func (t *tokens) identities() {
	w, c := t.w, t.c
	t.update = map[*ssa.Function]bool{}
	direct, _ := w.SQLEffects()
	for f, m := range direct {
		for e := range m {
			if e.Kind == "UPDATE" && strings.HasSuffix(e.Table, "identity") {
				given := false
				for _, p := range f.Params {
					given = given || p.Type().String() == identityPtr
				}
				if !given {
					continue
				}
				t.update[f] = true
				c.Check(t.storesAll(f), "together", "columns in "+fnName(f), w.Pos(f.Pos()), "the statement that stores an identity can leave out a tokenized field or its marks")
			}
		}
	}
	ask, mark := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if f.Signature.Recv() == nil || f.Signature.Recv().Type().String() != identityPtr {
			continue
		}
		if setsKey(f, markerKey) {
			mark[f] = true
		} else if len(looksUp(f, markerKey)) > 0 && f.Signature.Results().Len() == 1 && f.Signature.Results().At(0).Type().String() == "bool" {
			ask[f] = true
		}
	}
	tok := map[*ssa.Function]bool{}
	for f := range t.seals {
		if inPkg(f, tokPkg) && f.Object() != nil && f.Object().Exported() {
			tok[f] = true
		}
	}
	direct2 := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if inPkg(f, tokPkg) || isMock(f) {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			if k, ok := in.(ssa.CallInstruction); ok && tok[k.Common().StaticCallee()] {
				direct2[f] = true
			}
		})
	}
	ops := w.topsOf(direct2)
	n := 0
	for _, op := range sortedFns(ops) {
		// the operation itself, not what calls an operation
		inner := false
		for g := range w.ReachableAvoiding(func(g *ssa.Function) bool { return false }, op) {
			if g != op && ops[g] {
				inner = true
			}
		}
		if inner {
			t.several(op, ops)
			continue
		}
		n++
		t.identity(op, tok, ask, mark)
	}
	c.Check(n > 0, "designated", "operations", "", "no operation that tokenizes a field was found")
}

func (t *tokens) identity(op *ssa.Function, tok, ask, mark map[*ssa.Function]bool) {
	w, c := t.w, t.c
	name := fnName(op)
	en := NewEngine(w)
	en.SmallMax, en.MaxDepth = 6, 8
	en.Relevant = map[*ssa.Function]bool{}
	rt := w.Reaches(func(f *ssa.Function) bool { return tok[f] || mark[f] || ask[f] || t.update[f] })
	for f := range w.ReachableFrom(op) {
		if rt[f] && !inPkg(f, tokPkg) && !inPkg(f, Mod+"/database") {
			en.Relevant[f] = true
		}
	}
	skip := func(f *ssa.Function) bool {
		return tok[f] || ask[f] || mark[f] || t.update[f] || inPkg(f, Mod+"/database") || isMock(f)
	}
	en.NoInline = skip
	same := func(a, b *Term) bool { return a != nil && b != nil && a.Strip().key == b.Strip().key }
	// what reflect.Value of a field is the field of
	fieldRef := func(x *Term) (obj, nm *Term) {
		x = x.Strip()
		if x.Op != "call" || x.Name != "(reflect.Value).FieldByName" || len(x.CArg) != 2 {
			return nil, nil
		}
		nm = x.CArg[1]
		o := x.CArg[0].Strip()
		for i := 0; i < 4 && o != nil; i++ {
			if (o.Name == "(reflect.Value).Elem" || o.Name == "reflect.ValueOf" || o.Name == "reflect.Indirect") && (o.Op == "call" || o.Op == "pure") {
				as := o.CArg
				if o.Op == "pure" {
					as = o.Args
				}
				if len(as) > 0 {
					o = as[0].Strip()
					continue
				}
			}
			break
		}
		return o, nm
	}
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
		if cond.Op == "un" && cond.Name == "!" {
			cond, taken = cond.Args[0], !taken
		}
		a, b, eq := constEqAny(cond)
		if a == nil || eq != taken {
			return
		}
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			x := p[0].Strip()
			if (x.Op == "index" || x.Op == "indexv") && t.isList(x.Args[0]) {
				st.Add("designated:" + p[1].Strip().key)
			}
		}
	}
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		if k.Kind != "call" {
			return nil, false
		}
		where := w.Pos(k.Site.Pos())
		switch {
		case strings.HasPrefix(k.Name, "slices.Contains") && len(k.Args) == 2 && t.isList(k.Args[0]):
			yes, no, _ := en.forkBool(st, k)
			yes.Add("designated:" + k.Args[1].Strip().key)
			return []*State{yes, no}, true
		case hitsAny(k, ask):
			yes, no, _ := en.forkBool(st, k)
			no.Add("free:" + k.Args[0].Strip().key)
			no.vals["free:"+k.Args[0].Strip().key] = k.Args[1]
			yes.Add("taken")
			return []*State{yes, no}, true
		case hitsAny(k, tok):
			obj, nm := (*Term)(nil), (*Term)(nil)
			var text *Term
			for i, a := range k.Args {
				if p := k.Sig.Params(); i > 0 && p.At(i-1).Type().String() == "string" {
					text = a
					break
				}
			}
			if text != nil {
				x := text.Strip()
				if x.Name == "(reflect.Value).String" && (x.Op == "call" && len(x.CArg) == 1 || x.Op == "pure" && len(x.Args) == 1) {
					a := x.CArg
					if x.Op == "pure" {
						a = x.Args
					}
					obj, nm = fieldRef(a[0])
				}
			}
			c.Check(nm != nil, "designated", name+" value in "+fnName(k.F.Fn), where, "what is tokenized is not the value of the named field of the identity")
			if nm != nil {
				c.Check(st.Has("designated:"+nm.Strip().key), "designated", name+" listed in "+fnName(k.F.Fn), where, "a field is tokenized without its name having been found among the designated fields")
				asked := st.vals["free:"+obj.key]
				c.Check(st.Has("free:"+obj.key) && asked != nil && (same(asked, nm) || deepMention(nm, func(y *Term) bool { return y.key == asked.Strip().key }) || deepMention(asked, func(y *Term) bool { return y.key == nm.Strip().key })),
					"once", name+" in "+fnName(k.F.Fn), where, "a field is tokenized without having found that this identity's field is not tokenized yet")
			}
			ok, fail := en.Fork(st, k)
			ok.Add("tokenized")
			ok.vals["token"] = en.Res(ok, k, 0)
			if nm != nil {
				ok.vals["of"] = obj
				ok.vals["name"] = nm
			}
			return []*State{ok, fail}, true
		case k.Is("(reflect.Value).SetString"):
			obj, nm := fieldRef(k.Args[0])
			if obj != nil && same(st.vals["of"], obj) && same(st.vals["name"], nm) {
				st.Del("set")
				if same(k.Args[1], st.vals["token"]) {
					st.Add("set")
				}
			}
			en.opaque(k.F, st, k)
			return []*State{st}, true
		case hitsAny(k, mark):
			if o := st.vals["of"]; o != nil && same(k.Args[0], o) {
				nm := st.vals["name"]
				if same(k.Args[1], nm) || deepMention(nm, func(y *Term) bool { return y.key == k.Args[1].Strip().key }) {
					st.Add("marked")
				}
			} else {
				st.Add("marked-early")
			}
			en.opaque(k.F, st, k)
			return []*State{st}, true
		case hitsAny(k, t.update):
			ok, fail := en.Fork(st, k)
			if st.Has("tokenized") {
				c.Check(ok.Has("set") && ok.Has("marked"), "together", name+" stored in "+fnName(k.F.Fn), where, "the identity is stored without both its token and the mark of the field")
			} else {
				c.Fail("together", name+" stored in "+fnName(k.F.Fn), where, "the identity is stored before its field was tokenized")
			}
			ok.Add("saved")
			return []*State{ok, fail}, true
		}
		return nil, false
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		i := ErrIndex(op.Signature)
		if i < 0 || en.Kind(st, res[i]) == "nonnil" {
			return
		}
		c.Check(st.Has("saved") && st.Has("tokenized") || st.Has("taken"), "together", name, w.Pos(in.Pos()), "success is reported although the token was not stored")
	}
	en.Run(op, nil)
	c.Engine(en)
}

// constEqAny: the operands of an equality.
func constEqAny(cond *Term) (a, b *Term, equal bool) {
	if cond.Op == "bin" && (cond.Name == "==" || cond.Name == "!=") {
		return cond.Args[0], cond.Args[1], cond.Name == "=="
	}
	return nil, nil, false
}

// several: an operation that tokenizes more than one field.
func (t *tokens) several(op *ssa.Function, ops map[*ssa.Function]bool) {
	w, c := t.w, t.c
	name := fnName(op)
	en := NewEngine(w)
	en.SmallMax, en.MaxDepth = 4, 6
	en.Relevant = map[*ssa.Function]bool{}
	ro := w.Reaches(func(f *ssa.Function) bool { return ops[f] })
	for f := range w.ReachableFrom(op) {
		if ro[f] && !ops[f] {
			en.Relevant[f] = true
		}
	}
	en.NoInline = func(f *ssa.Function) bool { return ops[f] && f != op || inPkg(f, Mod+"/database") || isMock(f) }
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		if k.Kind != "call" {
			return nil, false
		}
		if hitsAny(k, ops) {
			if in, ok := k.Site.(*ssa.Call); ok {
				if lp := loopAround(in.Block()); lp != nil {
					c.Check(eachTurn(lp, in.Block()), "together", name+" each", w.Pos(in.Pos()), "a turn of the loop can leave its field untokenized without a failure")
					c.Check(leavesOnlyFailing(lp), "together", name+" all", w.Pos(in.Pos()), "the loop can be left before the last field without a failure")
				}
			}
			ok, fail := en.Fork(st, k)
			fail.Add("failed")
			return []*State{ok, fail}, true
		}
		if k.Is("errors.Is") {
			yes, no, _ := en.forkBool(st, k)
			if strings.Contains(k.Args[1].String(), "lready") {
				yes.Del("failed")
			}
			return []*State{yes, no}, true
		}
		return nil, false
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		i := ErrIndex(op.Signature)
		if i < 0 || en.Kind(st, res[i]) == "nonnil" {
			return
		}
		c.Check(!st.Has("failed"), "together", name, w.Pos(in.Pos()), "success is reported although a field could not be tokenized")
	}
	en.Run(op, nil)
	c.Engine(en)
}

// storesAll: every string field the list designates, and the metadata, is read by the function that stores an identity.
func (t *tokens) storesAll(f *ssa.Function) bool {
	read := map[string]bool{}
	for _, g := range t.w.closure(f) {
		Instrs(g, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if structOfNamed(x.X.Type()) == Mod+"/model.Identity" {
					read[fieldName(x.X.Type(), x.Field)] = true
				}
			case *ssa.Field:
				if structOfNamed(x.X.Type()) == Mod+"/model.Identity" {
					read[fieldName(x.X.Type(), x.Field)] = true
				}
			}
		})
	}
	n := 0
	for _, p := range t.w.Prog.AllPackages() {
		if p.Pkg.Path() != tokPkg {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				for _, s := range globalStrings(g) {
					n++
					if !read[s] {
						return false
					}
				}
			}
		}
	}
	return n > 0 && read["MetaData"]
}

// marks: every reader of the marks understands both forms, and client updates keep them.
func (t *tokens) marks() {
	w, c := t.w, t.c
	readers := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		ls := looksUp(f, markerKey)
		if len(ls) == 0 || isMock(f) {
			continue
		}
		readers[f] = true
		asserted := map[string]bool{}
		seen := map[ssa.Value]bool{}
		passed := false
		var follow func(v ssa.Value)
		follow = func(v ssa.Value) {
			if seen[v] || v.Referrers() == nil {
				return
			}
			seen[v] = true
			for _, u := range *v.Referrers() {
				switch x := u.(type) {
				case *ssa.Extract:
					if x.Index == 0 {
						follow(x)
					}
				case *ssa.Phi:
					follow(x)
				case *ssa.TypeAssert:
					asserted[x.AssertedType.String()] = true
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil && w.InModule(g) {
						for i, a := range x.Call.Args {
							if a == v && i < len(g.Params) {
								passed = true
								follow(g.Params[i])
							}
						}
					}
				}
			}
		}
		for _, l := range ls {
			follow(l)
		}
		_ = passed
		ok := asserted["map[string]interface{}"] || asserted["map[string]any"] || len(asserted) == 0
		c.Check(ok, "shapes", fnName(f), w.Pos(f.Pos()), "the marks are read only in the form they have before they were stored: after that the fields count as not tokenized")
		if setsKey(f, markerKey) {
			c.Check(marksTrue(f), "shapes", "mark in "+fnName(f), w.Pos(f.Pos()), "the mark that is set is not a true one for the field")
		}
	}
	keeps := w.Reaches(func(f *ssa.Function) bool { return readers[f] })
	ru := w.Reaches(func(f *ssa.Function) bool { return t.update[f] })
	for _, f := range w.Funcs {
		if !ginHandler(f) || isMock(f) || !ru[f] {
			continue
		}
		binds := false
		Instrs(f, func(in ssa.Instruction) {
			if a, ok := in.(*ssa.Alloc); ok && a.Type().String() == identityPtr {
				binds = true
			}
		})
		if !binds {
			continue
		}
		c.Check(keeps[f], "replaced", fnName(f), w.Pos(f.Pos()), "an identity sent by a client is stored as it is: its metadata replaces the marks of the tokenized fields, and a plain value replaces a token whose mark stays")
	}
}

// marksTrue: the function stores true under the field's name.
func marksTrue(f *ssa.Function) bool {
	r := false
	Instrs(f, func(in ssa.Instruction) {
		if m, ok := in.(*ssa.MapUpdate); ok {
			if k, ok := unwrapIface(m.Value).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) {
				r = true
			}
		}
	})
	return r
}
