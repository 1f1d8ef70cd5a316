package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["S03"] = ruleS03; rules["S04"] = ruleS04 }

const bcryptPkg = "golang.org/x/crypto/bcrypt"

// secretFields hold secrets requests are compared with.
var secretFields = map[string]bool{"SecretKey": true, "MetricsBearerToken": true, "TokenizationSecret": true}

func ruleS03(c *Ctx) {
	w := c.W
	c.Rule("random", "the plaintext of a created key is an encoding of at least 16 bytes filled by crypto/rand, whose error is checked, nothing of it cut off")
	c.Rule("hashed", "the key column of api_keys is only ever bound to a bcrypt hash (cost 10 or more, error checked) of the whole plaintext; no other column receives the plaintext, save a lookup prefix of at most 22 characters")
	c.Rule("verified", "looking a key up answers with a record only on paths on which its own hash was verified against the presented key")
	c.Rule("valid", "IsValid answers yes only when the key is not revoked and now is before its expiry")
	c.Rule("constant-time", "a configured secret is never compared by == or another early-exit comparison with anything but a constant")
	c.Rule("unlogged", "no configured secret, presented key or plaintext key flows into a logging, printing, tracing or notification call")
	c.Rule("revoked-cache", "revoking a key evicts its cached record, under the same cache key it is stored and looked up by")
	c.Floor("random", 1)
	c.Floor("hashed", 1)
	c.Floor("verified", 1)
	c.Floor("valid", 1)
	c.Floor("constant-time", 3)
	c.Floor("unlogged", 3)
	c.Floor("revoked-cache", 1)
	c.keyCreation()
	for _, f := range w.Funcs {
		if w.keyLookup(f) {
			c.keyVerified(f)
		}
	}
	c.keyValid()
	c.secretFlows()
	c.revokedCache()
}

// cacheName: the text a cache key is built by, apart from what it is built of.
func cacheName(t *Term) string {
	t = t.unconv()
	if t.Op == "pure" && strings.HasPrefix(t.Name, "fmt.Sprint") && len(t.Args) > 0 {
		s, _ := t.Args[0].Str()
		return s
	}
	if t.Op == "bin" && t.Name == "+" {
		if s, ok := t.Args[0].Str(); ok {
			return s + "%s"
		}
	}
	return ""
}

func isCacheOp(k *Call, ms ...string) bool {
	n := k.Iface
	if n == "" {
		n = k.Name
	}
	if !strings.Contains(n, "internal/cache.") {
		return false
	}
	for _, m := range ms {
		if k.Method() == m {
			return true
		}
	}
	return false
}

// revokedCache: what a lookup may answer from the cache is evicted by a revocation.
func (c *Ctx) revokedCache() {
	w := c.W
	reads := map[string]bool{}
	var revokes []*ssa.Function
	direct, _ := w.SQLEffects()
	for f, es := range direct {
		for e := range es {
			if e.Table == "api_keys" && e.Kind == "UPDATE" && strings.Contains(" "+strings.ReplaceAll(e.Cols, ",", " ")+" ", " is_revoked ") && !isMock(f) {
				revokes = append(revokes, f)
			}
		}
	}
	cached := false
	run := func(root *ssa.Function, call func(en *Engine, st *State, k *Call), ret func(en *Engine, st *State, res []*Term, in *ssa.Return)) {
		en := NewEngine(w)
		en.Relevant = map[*ssa.Function]bool{}
		for f := range w.ReachableFrom(root) {
			if inPkg(f, Mod+"/database") && len(f.Blocks) < 30 {
				en.Relevant[f] = true
			}
		}
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Iface != "" || strings.Contains(k.Name, "internal/cache.") {
				call(en, st, k)
			}
			return nil, false
		}
		en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
			t := cond.unconv()
			if !taken && (t.Op == "load" && t.Args[0].IsField("Valid") || t.Op == "fieldv" && t.Name == "Valid") {
				st.Add("noprefix")
			}
			if cond.Op == "bin" && cond.Name == "==" && taken {
				for i := 0; i < 2; i++ {
					if x := cond.Args[i].unconv(); x.Op == "load" && x.Args[0].IsField("Cache") && en.kind(st, cond.Args[1-i]) == "nil" {
						st.Add("nocache")
					}
				}
			}
			if x := emptyTest(cond); x != nil && taken {
				st.Add("noprefix")
			}
		}
		en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
			if ret != nil {
				ret(en, st, res, in)
			}
		}
		en.Run(root, nil)
		c.Engine(en)
	}
	for _, f := range w.Funcs {
		if w.keyLookup(f) {
			run(f, func(en *Engine, st *State, k *Call) {
				if isCacheOp(k, "Get") && len(k.Args) > 2 {
					cached = true
					reads[cacheName(k.Args[len(k.Args)-2])] = true
				}
			}, nil)
		}
	}
	if !cached { // nothing to evict
		c.Ok("revoked-cache", "api_keys", "")
		return
	}
	for _, root := range revokes {
		name := fnName(root)
		run(root, func(en *Engine, st *State, k *Call) {
			if isCacheOp(k, "Delete") {
				if n := cacheName(k.Args[len(k.Args)-1]); n != "" && reads[n] {
					st.Add("evicted")
				}
			}
		}, func(en *Engine, st *State, res []*Term, in *ssa.Return) {
			if len(res) > 0 && en.kind(st, res[len(res)-1]) == "nonnil" {
				return
			}
			c.Check(st.Has("evicted") || st.Has("noprefix") || st.Has("nocache"), "revoked-cache", name, w.Pos(in.Pos()), "a revocation succeeds and leaves the key in the cache lookups answer from")
		})
	}
}

// keyCreation follows the creation of keys down to the statement that stores them.
func (c *Ctx) keyCreation() {
	w := c.W
	inserts := map[*ssa.Function]bool{}
	direct, _ := w.SQLEffects()
	for f, es := range direct {
		for e := range es {
			if e.Table == "api_keys" && e.Kind == "INSERT" && !isMock(f) {
				inserts[f] = true
			}
		}
	}
	// from the exported datasource method that reaches the statement
	reach := w.Reaches(func(f *ssa.Function) bool { return inserts[f] })
	roots := map[*ssa.Function]bool{}
	for f := range reach {
		if inPkg(f, Mod+"/database") && f.Object() != nil && f.Object().Exported() {
			roots[f] = true
		}
	}
	fromRand := func(st *State, t *Term) (string, bool) {
		why := "it does not come from bytes filled by crypto/rand"
		ok := false
		deepMention(t, func(x *Term) bool {
			if x.Op == "call" && x.Name == "crypto/rand.Text" {
				ok = true
			}
			if st.Has("rand:" + x.key) {
				ok = true
			}
			return false
		})
		return why, ok
	}
	for _, root := range sortedFns(roots) {
		name := fnName(root)
		en := NewEngine(w)
		en.Relevant = map[*ssa.Function]bool{}
		for f := range w.ReachableFrom(root) {
			if inPkg(f, Mod+"/database") && reach[f] || inPkg(f, Mod+"/model") && w.callsName(f, func(n string) bool { return strings.HasPrefix(n, "crypto/rand.") }) {
				en.Relevant[f] = true
			}
		}
		rnd := w.Reaches(func(f *ssa.Function) bool { return callsExt(f, "crypto/rand.Read", "crypto/rand.Text", "io.ReadFull") })
		for f := range w.ReachableFrom(root) {
			if rnd[f] && inPkg(f, Mod+"/model") && len(f.Blocks) < 40 && !strings.Contains(f.Name(), "UUID") {
				en.Relevant[f] = true
			}
		}
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			switch {
			case k.Name == "crypto/rand.Read" || k.Name == "io.ReadFull" && len(k.Args) == 2 && k.Args[0].Mentions(func(x *Term) bool { return x.Op == "global" && x.Name == "crypto/rand.Reader" }):
				buf := k.Args[len(k.Args)-1]
				ok, fail := en.Fork(st, k)
				if n := bufLen(buf); n >= 16 {
					ok.Add("rand:" + buf.key)
				} else {
					c.Fail("random", name, w.Pos(k.Site.Pos()), "a key is made from %d random bytes, fewer than 16", n)
				}
				return []*State{ok, fail}, true
			case k.Name == bcryptPkg+".GenerateFromPassword":
				ok, fail := en.Fork(st, k)
				h := en.Res(ok, k, 0)
				cost, isC := k.Args[1].Int()
				if !isC || cost < 10 {
					c.Fail("hashed", name+"|cost", w.Pos(k.Site.Pos()), "keys are hashed with a bcrypt cost below 10")
				}
				ok.Add("hash:" + h.key)
				ok.vals["hashed:"+h.key] = k.Args[0].unconv()
				return []*State{ok, fail}, true
			}
			ev := en.SQLOf(st, k)
			if ev == nil || ev.Op == "Prepare" {
				return nil, false
			}
			s := parseSQL(Flat(ev.Text))
			if s == nil || s.Kind != "INSERT" || s.Table != "api_keys" {
				return nil, false
			}
			where := w.Pos(k.Site.Pos())
			if !ev.ArgsOK || len(ev.Args) != len(s.Cols) {
				c.Fail("hashed", name, where, "the values bound to the api_keys row cannot be told")
				return nil, false
			}
			var plain *Term
			for i, col := range s.Cols {
				if col != "key" {
					continue
				}
				h := ev.Args[i].unconv()
				good := st.Has("hash:" + h.key)
				c.Check(good, "hashed", name+"|key", where, "api_keys.key is bound to something other than a bcrypt hash: %s", h.String())
				if good {
					plain = st.vals["hashed:"+h.key]
					why, ok := fromRand(st, plain)
					if cut(plain, 0) {
						ok, why = false, "part of it is cut off"
					}
					c.Check(ok, "random", name, where, "the plaintext of a created key is predictable: %s (%s)", why, plain.String())
				}
			}
			if plain == nil {
				return nil, false
			}
			for i, col := range s.Cols {
				if col == "key" {
					continue
				}
				a := ev.Args[i].unconv()
				if !deepMention(a, func(x *Term) bool { return x == plain }) {
					continue
				}
				ok := false
				if a == plain { // short keys are their own prefix
					for _, r := range st.known {
						if r.kind == "true" && r.t != nil && r.t.Op == "bin" && r.t.Name == "<" && r.t.Args[0].Op == "len" && r.t.Args[0].Args[0].unconv() == plain {
							n, isC := r.t.Args[1].Int()
							ok = ok || isC && n <= 22
						}
					}
					ok = ok || st.Has("short:"+plain.key)
				} else if sl, isS := a.V.(*ssa.Slice); isS && sl.High != nil {
					n, isC := constInt(sl.High)
					ok = isC && n <= 22
				}
				c.Check(ok, "hashed", name+"|"+col, where, "api_keys.%s receives the plaintext key", col)
			}
			return nil, false
		}
		en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
			if cond.Op == "bin" && cond.Name == "<" && taken && cond.Args[0].Op == "len" {
				if n, ok := cond.Args[1].Int(); ok && n <= 22 {
					st.Add("short:" + cond.Args[0].Args[0].unconv().key)
				}
			}
		}
		en.Run(root, nil)
		c.Engine(en)
	}
	// every other statement leaves the column alone
	for _, s := range w.CollectSQL().Sites {
		for _, e := range s.Events {
			if e.Stmt == nil {
				continue
			}
			for _, q := range e.Stmt.Writes("api_keys") {
				if q.Kind != "UPDATE" {
					continue
				}
				for col := range q.Set {
					c.Check(col != "key" && col != "key_prefix", "hashed", fnName(s.Fn)+"|"+col, w.Pos(s.Site.Pos()), "a statement rewrites api_keys.%s", col)
				}
			}
		}
	}
}

func constInt(v ssa.Value) (int64, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil {
		return k.Int64(), true
	}
	return 0, false
}

// bufLen: the length of a freshly made byte slice.
func bufLen(t *Term) int64 {
	t = t.unconv()
	switch v := t.V.(type) {
	case *ssa.MakeSlice:
		n, _ := constInt(v.Len)
		return n
	case *ssa.Slice:
		if v.Low == nil && v.High != nil {
			n, _ := constInt(v.High)
			return n
		}
	}
	if t.Op == "slice" && len(t.Args) == 1 && t.Args[0].V != nil {
		return arrayLen(t.Args[0].V)
	}
	return 0
}

func arrayLen(v ssa.Value) int64 {
	s := v.Type().String()
	i := strings.Index(s, "[")
	j := strings.Index(s, "]")
	if i < 0 || j < i {
		return 0
	}
	n := int64(0)
	for _, r := range s[i+1 : j] {
		if r < '0' || r > '9' {
			return 0
		}
		n = n*10 + int64(r-'0')
	}
	return n
}

// cut: the text keeps only part of what it was made from.
func cut(t *Term, d int) bool {
	if t == nil || d > 12 {
		return false
	}
	if sl, ok := t.V.(*ssa.Slice); ok && t.Op == "opaque" && (sl.Low != nil || sl.High != nil) {
		if _, isAlloc := sl.X.(*ssa.Alloc); !isAlloc {
			return true
		}
	}
	for _, a := range append(append([]*Term{}, t.Args...), t.CArg...) {
		if cut(a, d+1) {
			return true
		}
	}
	return false
}

func (c *Ctx) keyVerified(root *ssa.Function) {
	w := c.W
	name := fnName(root)
	en := NewEngine(w)
	en.Relevant = map[*ssa.Function]bool{}
	cmp := w.Reaches(func(f *ssa.Function) bool {
		return callsExt(f, bcryptPkg+".CompareHashAndPassword")
	})
	for f := range w.ReachableFrom(root) {
		if cmp[f] {
			en.Relevant[f] = true
		}
	}
	n := len(root.Params)
	isKey := func(t *Term) bool { t = t.unconv(); return t.Op == "param" && t.V == ssa.Value(root.Params[n-1]) }
	drop := func(st *State, a *Term) {
		for a != nil {
			st.Del("verified:" + a.key)
			if (a.Op == "field" || a.Op == "load" || a.Op == "iface" || a.Op == "conv") && len(a.Args) > 0 {
				a = a.Args[0]
				continue
			}
			return
		}
	}
	en.H.Instr = func(en *Engine, st *State, in ssa.Instruction, f *Frame) {
		if al, ok := in.(*ssa.Alloc); ok {
			st.Del("verified:" + en.Eval(st, f, al).key)
		}
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
			if a := en.Eval(st, f, u.X); a.IsField("Key") {
				st.vals["keyof:"+en.Load(st, a).key] = a.Args[0]
			}
		}
	}
	en.H.Store = func(en *Engine, st *State, addr, val *Term, in ssa.Instruction, f *Frame) {
		if addr.IsField("Key") || addr.Op == "alloc" {
			drop(st, addr)
		}
	}
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		if k.Name == bcryptPkg+".CompareHashAndPassword" {
			ok, fail := en.Fork(st, k)
			h, p := k.Args[0].Strip(), k.Args[1].unconv()
			if h.IsField("Key") && isKey(p) {
				ok.Add("verified:" + h.Args[0].unconv().key)
			}
			if o := st.vals["keyof:"+k.Args[0].unconv().key]; o != nil && isKey(p) {
				ok.Add("verified:" + o.unconv().key)
			}
			return []*State{ok, fail}, true
		}
		if k.Method() == "Scan" || k.Method() == "Get" {
			for _, a := range en.AllArgs(st, k) {
				drop(st, a.unconv())
			}
		}
		return nil, false
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		if len(res) != 2 || en.kind(st, res[1]) == "nonnil" || en.kind(st, res[0]) == "nil" {
			return
		}
		r := res[0].unconv()
		c.Check(st.Has("verified:"+r.key), "verified", name, w.Pos(in.Pos()), "a key record is handed out although its hash was not verified against the presented key: %s", r.String())
	}
	en.Run(root, nil)
	c.Engine(en)
}

func (c *Ctx) keyValid() {
	w := c.W
	root := w.Func("(*model.APIKey).IsValid")
	if root == nil {
		root = w.Func("(model.APIKey).IsValid")
	}
	if root == nil {
		return
	}
	name := fnName(root)
	en := NewEngine(w)
	isNow := func(t *Term) bool {
		t = t.unconv()
		for t != nil && t.Op == "call" && (strings.HasPrefix(t.Name, "(time.Time).UTC") || strings.HasPrefix(t.Name, "(time.Time).Local")) && len(t.CArg) > 0 {
			t = t.CArg[0].unconv()
		}
		if t != nil && t.Op == "pure" && len(t.Args) > 0 {
			t = t.Args[0]
		}
		return t != nil && t.Op == "call" && t.Name == "time.Now"
	}
	isExp := func(t *Term) bool { t = t.Strip(); return t != nil && t.IsField("ExpiresAt") }
	args := func(t *Term) []*Term {
		if t.Op == "pure" {
			return t.Args
		}
		return t.CArg
	}
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
		if t := cond.unconv(); t.Op == "load" && t.Args[0].IsField("IsRevoked") && !taken {
			st.Add("live")
		}
		if cond.Op == "call" || cond.Op == "pure" {
			a := args(cond)
			if len(a) == 2 {
				switch {
				case cond.Name == "(time.Time).Before" && taken && isNow(a[0]) && isExp(a[1]),
					cond.Name == "(time.Time).After" && taken && isExp(a[0]) && isNow(a[1]),
					cond.Name == "(time.Time).After" && !taken && isNow(a[0]) && isExp(a[1]),
					cond.Name == "(time.Time).Before" && !taken && isExp(a[0]) && isNow(a[1]):
					st.Add("unexpired")
				}
			}
		}
		if cond.Op == "bin" && cond.Name == "<" && taken {
			x := cond.Args[1].unconv()
			if n, ok := cond.Args[0].Int(); ok && n >= 0 && (x.Op == "call" || x.Op == "pure") && x.Name == "time.Until" && len(args(x)) == 1 && isExp(args(x)[0]) {
				st.Add("unexpired")
			}
		}
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		t, pol := norm(res[0])
		k := en.kind(st, t)
		if k == "false" && pol || k == "true" && !pol {
			return
		}
		if k == "" {
			st = st.Clone()
			en.H.Branch(en, st, t, pol, in, f)
		}
		c.Check(st.Has("live") && st.Has("unexpired"), "valid", name, w.Pos(in.Pos()), "IsValid answers yes on a path on which the key is not known to be unrevoked and unexpired (%s)", strings.Join(st.Facts(), " "))
	}
	en.Run(root, nil)
	c.Engine(en)
}

var passText = []string{"strings.", "fmt.Sprint", "fmt.Append", "fmt.Errorf", "errors.New", "bytes.", "strconv.", "encoding/", "(*encoding/"}

// taint follows a value like forward, also through text functions of the standard library.
func (w *World) taint(v ssa.Value, visit func(use ssa.Instruction, v ssa.Value)) {
	seen := map[ssa.Value]bool{}
	var follow func(use ssa.Instruction, v ssa.Value)
	follow = func(use ssa.Instruction, v ssa.Value) {
		visit(use, v)
		k, ok := use.(*ssa.Call)
		if !ok {
			return
		}
		g := k.Call.StaticCallee()
		if g == nil {
			return
		}
		n := fnName(g)
		for _, p := range passText {
			if strings.HasPrefix(n, p) && !isBool(k.Type()) && k.Type().String() != "int" {
				w.forward(k, seen, follow)
			}
		}
	}
	w.forward(v, seen, follow)
}

func logSink(n string) bool {
	for _, p := range []string{"github.com/sirupsen/logrus.", "(*github.com/sirupsen/logrus.", "log.", "(*log.", "log/slog.", "(*log/slog.", "fmt.Print", "fmt.Fprint", "go.opentelemetry.io", "(go.opentelemetry.io", "(*go.opentelemetry.io", "internal/notification.", "github.com/posthog", "(github.com/posthog"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func (c *Ctx) secretFlows() {
	w := c.W
	type src struct {
		v    ssa.Value
		name string
		conf bool // a configured secret
	}
	var srcs []src
	for _, f := range w.Funcs {
		if isMock(f) {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				n := fieldName(x.X.Type(), x.Field)
				conf := secretFields[n] && strings.Contains(x.X.Type().String(), Mod+"/config.")
				key := n == "Key" && strings.HasSuffix(x.X.Type().String(), "model.APIKey")
				if !conf && !key {
					return
				}
				for _, r := range *x.Referrers() {
					if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
						srcs = append(srcs, src{u, fnName(f) + "|" + n, conf})
					}
				}
			case *ssa.Field:
				if n := fieldName(x.X.Type(), x.Field); secretFields[n] && strings.Contains(x.X.Type().String(), Mod+"/config.") {
					srcs = append(srcs, src{x, fnName(f) + "|" + n, true})
				}
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil {
					return
				}
				switch fnName(g) {
				case "(*" + ginPkg + ".Context).GetHeader", "(net/http.Header).Get":
					if k, ok := x.Call.Args[1].(*ssa.Const); ok && k.Value != nil {
						if h := strings.ToLower(unq(k.Value.ExactString())); h == "x-blnk-key" || h == "authorization" {
							srcs = append(srcs, src{x, fnName(f) + "|" + h, false})
						}
					}
				}
			}
		})
	}
	for _, s := range srcs {
		badLog, badCmp := "", ""
		where := w.Pos(s.v.Pos())
		w.taint(s.v, func(use ssa.Instruction, v ssa.Value) {
			switch x := use.(type) {
			case ssa.CallInstruction:
				n := ""
				if g := x.Common().StaticCallee(); g != nil {
					n = fnName(g)
				} else if x.Common().IsInvoke() {
					n = "(" + short(x.Common().Value.Type().String()) + ")." + x.Common().Method.Name()
				}
				if logSink(n) {
					badLog, where = n, w.Pos(use.Pos())
				}
				if s.conf {
					switch n {
					case "strings.EqualFold", "strings.Compare", "bytes.Equal", "bytes.Compare", "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "reflect.DeepEqual", "slices.Contains", "slices.Equal", "strings.Index":
						badCmp, where = n, w.Pos(use.Pos())
					}
				}
			case *ssa.BinOp:
				if s.conf && (x.Op == token.EQL || x.Op == token.NEQ || x.Op == token.LSS || x.Op == token.GTR) {
					o := x.X
					if o == v {
						o = x.Y
					}
					if _, isC := o.(*ssa.Const); !isC {
						badCmp, where = x.Op.String(), w.Pos(use.Pos())
					}
				}
			}
		})
		c.Check(badLog == "", "unlogged", s.name, where, "the secret %s flows into %s", s.name, badLog)
		if s.conf {
			c.Check(badCmp == "", "constant-time", s.name, where, "the secret %s is compared by %s", s.name, badCmp)
		}
	}
}

// ctxValue: the name under which a value was kept in the request's context.
func ctxValue(t *Term) string {
	t = t.unconv()
	for i := 0; i < 6 && t != nil; i++ {
		switch {
		case t.Op == "res" && t.Name == "0", t.Op == "opaque" && t.Name == "assert" && len(t.Args) > 0:
			t = t.Args[0].unconv()
		case t.Op == "call" && len(t.CArg) > 1:
			switch t.Name {
			case "(*" + ginPkg + ".Context).Get", "(*" + ginPkg + ".Context).GetBool", "(*" + ginPkg + ".Context).MustGet":
				s, _ := t.CArg[1].Str()
				return s
			}
			return ""
		default:
			return ""
		}
	}
	return ""
}

func ruleS04(c *Ctx) {
	w := c.W
	c.Rule("master", "a handler of the API touches the hook manager only after the request was found to hold the master key")
	c.Rule("owner", "a handler of the API creates, lists and revokes keys only as the master key or for the owner of the presented API key")
	c.Rule("scopes", "a handler of the API creates a key only as the master key or after every requested scope was found to be covered by the presented key's")
	c.Rule("every", "CanGrantScopes answers yes only when for every requested scope a scope of the caller was found that covers it")
	c.Rule("filtered", "the statements that revoke and list keys are restricted to the owner they are given")
	c.Floor("master", 5)
	c.Floor("owner", 3)
	c.Floor("scopes", 1)
	c.Floor("every", 1)
	c.Floor("filtered", 2)
	grant := w.Func("api/middleware.CanGrantScopes")
	done := map[*ssa.Function]bool{}
	for _, r := range c.Routes() {
		for _, h := range r.Handlers {
			if done[h] || !inPkg(h, Mod+"/api") {
				continue
			}
			done[h] = true
			c.privileged(h, grant)
		}
	}
	if grant == nil {
		c.Fail("every", "CanGrantScopes", "", "the function that decides about granting scopes was not found")
	} else {
		c.grantsEvery(grant)
	}
	// the statements
	for _, s := range w.CollectSQL().Sites {
		for _, e := range s.Events {
			if e.Stmt == nil {
				continue
			}
			what := ""
			for _, q := range e.Stmt.Writes("api_keys") {
				if _, ok := q.Set["is_revoked"]; ok && q.Kind == "UPDATE" {
					what = "revokes"
				}
			}
			if what == "" && e.Stmt.Kind == "SELECT" && e.Root != nil {
				reads := false
				for _, q := range e.Stmt.All() {
					for _, t := range q.From {
						reads = reads || t.Name == "api_keys"
					}
				}
				for i := 0; i < e.Root.Signature.Results().Len(); i++ {
					if ty := e.Root.Signature.Results().At(i).Type().String(); reads && strings.HasPrefix(ty, "[]") && strings.HasSuffix(ty, "model.APIKey") {
						what = "lists"
					}
				}
			}
			if what == "" {
				continue
			}
			name := fnName(e.Root)
			where := w.Pos(s.Site.Pos())
			n := ownerParam(e.Stmt)
			if n == 0 {
				c.Fail("filtered", name+"|"+what, where, "a statement that %s keys is not restricted to an owner: %s", what, e.Text)
				continue
			}
			ok := false
			if n <= len(e.Args) {
				a := e.Args[n-1].unconv()
				if pr, isP := a.V.(*ssa.Parameter); isP && a.Op == "param" && pr.Type().String() == "string" {
					ps := e.Root.Params
					ok = pr == ps[len(ps)-1]
				}
			}
			c.Check(ok, "filtered", name+"|"+what, where, "a statement that %s keys is restricted to something other than the owner it is given", what)
		}
	}
}

// ownerParam: the placeholder the owner column of the keys is held against.
func ownerParam(s *Stmt) int {
	for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9} {
		d := string(rune('0' + n))
		if conjOn(s, "api_keys", `owner_id = \$ ?`+d) || conjOn(s, "api_keys", `\$ ?`+d+` = owner_id`) {
			return n
		}
	}
	return 0
}

func (c *Ctx) privileged(root, grant *ssa.Function) {
	w := c.W
	target := func(k *Call) string {
		for _, g := range k.all() {
			n := fnName(g)
			switch n {
			case "(*blnk.Blnk).CreateAPIKey", "(*blnk.Blnk).ListAPIKeys", "(*blnk.Blnk).RevokeAPIKey":
				return g.Name()
			}
		}
		n := k.Name
		if n == "" {
			n = k.Iface
		}
		if k.Iface != "" {
			n = k.Iface
		}
		if strings.Contains(n, "internal/hooks.") && strings.HasPrefix(n, "(") && !strings.HasPrefix(k.Method(), "Execute") {
			return "hooks"
		}
		return ""
	}
	// only handlers that get there at all
	hit := false
	api := map[*ssa.Function]bool{}
	for f := range w.ReachableFrom(root) {
		if inPkg(f, Mod+"/api") {
			api[f] = true
		}
	}
	api[root] = true
	for f := range api {
		Instrs(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			if ci.Common().IsInvoke() {
				hit = hit || strings.Contains(ci.Common().Value.Type().String(), Mod+"/internal/hooks.")
			} else if g := ci.Common().StaticCallee(); g != nil {
				n := fnName(g)
				hit = hit || n == "(*blnk.Blnk).CreateAPIKey" || n == "(*blnk.Blnk).ListAPIKeys" || n == "(*blnk.Blnk).RevokeAPIKey" || inPkg(g, Mod+"/internal/hooks")
			}
		})
	}
	if !hit {
		return
	}
	name := fnName(root)
	en := NewEngine(w)
	en.Relevant = api
	en.NoInline = func(f *ssa.Function) bool { return f == grant }
	principal := func(t *Term) bool { return ctxValue(t) == "apiKey" }
	of := func(t *Term, field string) bool {
		t = t.unconv()
		return t.Op == "load" && t.Args[0].IsField(field) && principal(t.Args[0].Args[0])
	}
	ctx := func(st *State, pred func(t *Term) bool) bool {
		for _, r := range st.known {
			if r.kind == "true" && r.t != nil && pred(r.t) {
				return true
			}
		}
		return false
	}
	master := func(st *State) bool {
		return st.Has("master") || ctx(st, func(t *Term) bool { return ctxValue(t) == "isMasterKey" })
	}
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
		if taken && ctxValue(cond) == "isMasterKey" {
			st.Add("master")
		}
	}
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		for _, g := range k.all() {
			if g != grant {
				continue
			}
			yes, no := st, st.Clone()
			en.opaque(k.F, st, k)
			no = st.Clone()
			t := en.Res(st, k, 0)
			en.setKind(yes, t, "true")
			en.setKind(no, t, "false")
			if of(k.Args[0], "Scopes") {
				yes.Add("granted:" + k.Args[1].unconv().key)
			}
			return []*State{yes, no}, true
		}
		what := target(k)
		if what == "" {
			return nil, false
		}
		where := w.Pos(k.Site.Pos())
		own := func(t *Term) bool {
			if of(t, "OwnerID") {
				return true
			}
			return ctx(st, func(x *Term) bool {
				return x.Op == "bin" && x.Name == "==" && (x.Args[0].unconv() == t.unconv() && of(x.Args[1], "OwnerID") || x.Args[1].unconv() == t.unconv() && of(x.Args[0], "OwnerID"))
			})
		}
		m := master(st)
		if what == "hooks" {
			c.Check(m, "master", name+"|"+k.Method(), where, "%s calls %s without having found the request to hold the master key", name, k.Method())
			return nil, false
		}
		i := 3
		if what == "ListAPIKeys" {
			i = 2
		}
		if i >= len(k.Args) {
			c.Fail("owner", name+"|"+what, where, "the owner %s is called with cannot be told", what)
			return nil, false
		}
		c.Check(m || own(k.Args[i]), "owner", name+"|"+what, where, "%s reaches %s for an owner that need not be the presented key's: %s", name, what, k.Args[i].String())
		if what == "CreateAPIKey" && len(k.Args) > 4 {
			c.Check(m || st.Has("granted:"+k.Args[4].unconv().key), "scopes", name+"|"+what, where, "%s creates a key with scopes the presented key was not found to cover", name)
		}
		return nil, false
	}
	en.Run(root, nil)
	c.Engine(en)
}

func (c *Ctx) grantsEvery(root *ssa.Function) {
	w := c.W
	name := fnName(root)
	en := NewEngine(w)
	en.Relevant = map[*ssa.Function]bool{}
	covers := w.Func("api/middleware.ScopeCovers")
	for f := range w.ReachableFrom(root) {
		if inPkg(f, Mod+"/api/middleware") && f != covers && f != root {
			en.Relevant[f] = true
		}
	}
	en.NoInline = func(f *ssa.Function) bool { return f == covers }
	isParam := func(t *Term, i int) bool {
		return t.Mentions(func(x *Term) bool { return x.Op == "param" && x.V == ssa.Value(root.Params[i]) })
	}
	// the loops that visit every element of a slice
	heads := map[*Frame]map[*ssa.BasicBlock]ssa.Value{}
	scan := func(f *Frame) map[*ssa.BasicBlock]ssa.Value {
		if r, ok := heads[f]; ok {
			return r
		}
		r := map[*ssa.BasicBlock]ssa.Value{}
		Instrs(f.Fn, func(in ssa.Instruction) {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return
			}
			ia, ok := u.X.(*ssa.IndexAddr)
			if !ok {
				return
			}
			if cov := vctxOf(f).covers(u); cov != nil && cov.whole() {
				r[cov.Header] = ia.X
			}
		})
		heads[f] = r
		return r
	}
	en.H.Edge = func(en *Engine, st *State, from, to *ssa.BasicBlock, f *Frame) {
		x := scan(f)[from]
		if x == nil {
			return
		}
		t := en.Eval(st, f, x).unconv()
		if t.Op != "param" || !isParam(t, 1) {
			return
		}
		if st.Has("inturn") && !st.Has("covered") {
			st.Add("gap")
		}
		st.Del("covered")
		if loopBlocks(from)[to] {
			st.Add("inturn")
		} else {
			st.Del("inturn")
			st.Add("done")
		}
	}
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		for _, g := range k.all() {
			if g != covers {
				continue
			}
			en.opaque(k.F, st, k)
			yes, no := st, st.Clone()
			t := en.Res(st, k, 0)
			en.setKind(yes, t, "true")
			en.setKind(no, t, "false")
			if isParam(k.Args[0], 0) && isParam(k.Args[1], 1) {
				yes.Add("covered")
			}
			return []*State{yes, no}, true
		}
		return nil, false
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		t, pol := norm(res[0])
		k := en.kind(st, t)
		if k == "false" && pol || k == "true" && !pol {
			return
		}
		none := en.kind(st, en.mk("len", "", nil, nil, en.mk("param", fnName(root)+"$1", root.Params[1], nil))) == "=0"
		c.Check(none || st.Has("done") && !st.Has("gap"), "every", name, w.Pos(in.Pos()), "CanGrantScopes answers yes although a requested scope may not be covered (%s)", strings.Join(st.Facts(), " "))
	}
	en.Run(root, nil)
	c.Engine(en)
}

// all: the functions the call may run, as far as they are told.
func (c *Call) all() []*ssa.Function {
	if c.Fn != nil {
		return []*ssa.Function{c.Fn}
	}
	return c.Targets
}
