package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["S01"] = ruleS01; rules["S02"] = ruleS02 }

const ginPkg = "github.com/gin-gonic/gin"

func isGinCtx(t types.Type) bool { return t.String() == "*"+ginPkg+".Context" }

// ginHandler: a function of the shape of a request handler.
func ginHandler(f *ssa.Function) bool {
	s := f.Signature
	return s.Params().Len() == 1 && isGinCtx(s.Params().At(0).Type()) && s.Results().Len() == 0
}

// keyLookup: a datasource method that finds the API key record of a presented key.
func (w *World) keyLookup(f *ssa.Function) bool {
	if f == nil || !inPkg(f, Mod+"/database") || f.Signature.Recv() == nil || isMock(f) {
		return false
	}
	r, p := f.Signature.Results(), f.Signature.Params()
	return r.Len() == 2 && r.At(0).Type().String() == "*"+Mod+"/model.APIKey" && r.At(1).Type().String() == "error" &&
		p.Len() == 2 && p.At(1).Type().String() == "string"
}

// authHandlers: request handlers that look the presented key up (the authentication middleware).
func (w *World) authHandlers() map[*ssa.Function]bool {
	reach := w.Reaches(w.keyLookup)
	r := map[*ssa.Function]bool{}
	for f := range reach {
		if ginHandler(f) && w.Reaches(ginNext)[f] {
			r[f] = true
		}
	}
	// a handler another one merely delegates to is not a middleware by itself
	for f := range r {
		for _, s := range w.callSites(f) {
			if r[s.Parent()] {
				delete(r, f)
			}
		}
	}
	return r
}

func ginNext(f *ssa.Function) bool { return callsExt(f, "(*"+ginPkg+".Context).Next") }

// callsExt: the function itself calls an external function of that name.
func callsExt(f *ssa.Function, names ...string) bool {
	found := false
	Instrs(f, func(in ssa.Instruction) {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		n := ""
		if g := c.Common().StaticCallee(); g != nil {
			n = fnName(g)
		} else if c.Common().IsInvoke() {
			n = short("(" + types.TypeString(c.Common().Value.Type(), nil) + ")." + c.Common().Method.Name())
		}
		for _, x := range names {
			found = found || n == x
		}
	})
	return found
}

var ginVerbs = map[string]bool{"GET": true, "POST": true, "PUT": true, "DELETE": true, "PATCH": true, "HEAD": true, "OPTIONS": true, "Any": true,
	"Handle": true, "Match": true, "Static": true, "StaticFile": true, "StaticFS": true, "StaticFileFS": true, "NoRoute": true, "NoMethod": true}

// ginOp: the gin router operation a call performs.
func ginOp(k *Call) string {
	n := k.Name
	if n == "" {
		n = k.Iface
	}
	for _, r := range []string{"(*" + ginPkg + ".RouterGroup).", "(*" + ginPkg + ".Engine).", "(" + ginPkg + ".IRouter).", "(" + ginPkg + ".IRoutes)."} {
		if strings.HasPrefix(n, r) {
			return n[len(r):]
		}
	}
	if n == ginPkg+".New" || n == ginPkg+".Default" {
		return "New"
	}
	return ""
}

func ginOpFn(f *ssa.Function) bool {
	found := false
	Instrs(f, func(in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok {
			n := ""
			if g := c.Common().StaticCallee(); g != nil {
				n = fnName(g)
			} else if c.Common().IsInvoke() {
				n = short("(" + types.TypeString(c.Common().Value.Type(), nil) + ")." + c.Common().Method.Name())
			}
			if op := ginOp(&Call{Name: n}); op == "Use" || op == "New" || op == "Group" || ginVerbs[op] {
				found = true
			}
		}
	})
	return found
}

// handlerFn: the module function a handler value stands for.
func handlerFn(t *Term) *ssa.Function {
	if t == nil {
		return nil
	}
	t = t.Strip()
	if t == nil || t.Fn == nil {
		return nil
	}
	return unwrap(t.Fn)
}

// routerID names the router a registration is made on.
func routerID(t *Term) string {
	for t != nil {
		if t.Op == "field" && t.Name == "RouterGroup" || t.Op == "fieldv" && t.Name == "RouterGroup" {
			t = t.Args[0]
			continue
		}
		if t.Op == "load" || t.Op == "iface" || t.Op == "conv" {
			t = t.Args[0]
			continue
		}
		return t.key
	}
	return "?"
}

// Route is one registration.
type Route struct {
	Verb, Path string
	Handlers   []*ssa.Function
	Root       *ssa.Function
	Where      string
	Auth       bool         // authentication precedes the handlers
	Seen       []routeState // the states it was registered in
}

type routeState struct {
	ts []*Term
	st *State
}

// Routes enumerates the registrations of the module's HTTP routers on every path of the functions that set them up.
func (c *Ctx) Routes() []*Route {
	w := c.W
	if w.routes != nil {
		return w.routes
	}
	reach := w.Reaches(ginOpFn)
	auth := w.authHandlers()
	byKey := map[string]*Route{}
	for _, root := range sortedFns(reach) {
		top := true
		for _, s := range w.callSites(root) {
			if reach[s.Parent()] {
				top = false
			}
		}
		if !top || isMock(root) {
			continue
		}
		en := NewEngine(w)
		en.Relevant = reach
		en.SmallMax = 6
		en.NoInline = func(f *ssa.Function) bool { return !reach[f] && f.Signature.Results().Len() != 1 }
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Name == "config.Fetch" {
				ok, fail := en.Fork(st, k)
				en.setKind(ok, en.Res(ok, k, 0), "nonnil")
				en.setKind(fail, en.Res(fail, k, 0), "nil")
				fail.Add("cfg-failed")
				return []*State{ok, fail}, true
			}
			op := ginOp(k)
			if op == "" || len(k.Args) == 0 && op != "New" {
				return nil, false
			}
			args := en.AllArgs(st, k)
			id := ""
			if len(args) > 0 {
				id = routerID(args[0])
			}
			isAuth := func(ts []*Term) bool {
				for _, a := range ts {
					if f := handlerFn(a); f != nil && auth[f] {
						return true
					}
				}
				return false
			}
			switch {
			case op == "Use":
				if isAuth(args[1:]) {
					st.Add("auth:" + id)
				}
			case op == "Group":
				en.opaque(k.F, st, k)
				if st.Has("auth:"+id) || isAuth(args[1:]) {
					st.Add("auth:" + routerID(en.Res(st, k, 0)))
				}
				return []*State{st}, true
			case ginVerbs[op]:
				r := &Route{Verb: op, Root: root, Where: w.Pos(k.Site.Pos()), Path: "?", Seen: []routeState{{args[1:], st.Clone()}}}
				i := 1
				if op == "Handle" || op == "Match" {
					if len(args) > 1 {
						if v, ok := args[1].Str(); ok {
							r.Verb = v
						}
					}
					i = 2
				}
				if op == "NoRoute" || op == "NoMethod" {
					i = 0
					r.Path = "*"
				}
				if i > 0 && i < len(args) {
					if p, ok := args[i].Str(); ok {
						r.Path = p
					}
				}
				for _, a := range args[i+1:] {
					if f := handlerFn(a); f != nil {
						r.Handlers = append(r.Handlers, f)
					}
				}
				r.Auth = st.Has("auth:"+id) || isAuth(args[i+1:])
				key := fnName(k.Site.Parent()) + "|" + r.Verb + " " + r.Path
				if r.Path == "?" {
					key += "|" + r.Where
				}
				if old := byKey[key]; old == nil {
					byKey[key] = r
				} else {
					old.Auth = old.Auth && r.Auth
					old.Seen = append(old.Seen, r.Seen...)
				}
			}
			return nil, false
		}
		en.Run(root, nil)
		c.Engine(en)
	}
	for _, k := range sortedKeys(byKey) {
		w.routes = append(w.routes, byKey[k])
	}
	return w.routes
}

func (r *Route) name() string { return r.Verb + " " + r.Path }

var openRoutes = map[string]bool{"/": true, "/health": true, "/metrics": true}

func ruleS01(c *Ctx) {
	w := c.W
	c.Rule("route", "every HTTP route is registered on a router after the authentication middleware was installed on it (or carries it in its own chain), except /, /health and /metrics")
	c.Rule("open", "the handlers of / and /health reach no exported method of the ledger and no datasource method; /metrics is registered behind a bearer-token gate given the configured secure flag and token")
	c.Rule("admit", "in the authentication middleware the request proceeds (Next, or a return without Abort) only on paths on which the URL path equals an exempt one, or the configuration was read and secure mode is off, or the non-empty master key equals the presented key in constant time, or the presented key was found, is valid, and has permission for the resource of the URL path and the request's method, the resource not being empty")
	c.Rule("mark", "the request is marked as made with the master key only on paths on which it matched, and given an API key as principal only the one found and valid")
	c.Rule("gate", "a bearer-token gate passes the request only when the presented token equals the non-empty configured one in constant time, or secure mode is off and no token is configured")
	c.Floor("route", 3)
	c.Floor("open", 3)
	c.Floor("admit", 3)
	c.Floor("mark", 2)
	c.Floor("gate", 3)
	gates := w.tokenGates()
	ledger := func(f *ssa.Function) bool {
		return f.Signature.Recv() != nil && f.Object() != nil && f.Object().Exported() &&
			(strings.HasSuffix(f.Signature.Recv().Type().String(), Mod+".Blnk") || inPkg(f, Mod+"/database"))
	}
	reachLedger := w.Reaches(ledger)
	for _, r := range c.Routes() {
		if !openRoutes[r.Path] {
			c.Check(r.Auth, "route", r.name(), r.Where, "the route %s is registered without the authentication middleware in front of it", r.name())
			continue
		}
		c.Ok("route", r.name(), r.Where)
		if r.Path == "/metrics" {
			ok := false
			for _, h := range r.Handlers {
				ok = ok || gates[h]
			}
			c.Check(ok, "open", r.name(), r.Where, "%s is served without the bearer-token gate", r.name())
			for _, x := range r.Seen {
				c.gateArgs(x.ts, x.st, gates, r.name(), r.Where)
			}
			continue
		}
		bad := len(r.Handlers) == 0
		for _, h := range r.Handlers {
			bad = bad || reachLedger[h]
		}
		c.Check(!bad, "open", r.name(), r.Where, "%s needs no authentication but its handler reaches the ledger", r.name())
	}
	c.httpGates(gates)
	for f := range w.authHandlers() {
		c.authMiddleware(f)
	}
	c.checkGates()
}

// urlPath: the term reads the path of the request's URL.
func urlPath(t *Term) bool {
	t = t.unconv()
	if t == nil || t.Op != "load" {
		return t != nil && t.Op == "call" && strings.HasSuffix(t.Name, "net/url.URL).EscapedPath")
	}
	p := t.Args[0]
	return p.Op == "field" && p.Name == "Path" && p.Args[0].Mentions(func(x *Term) bool { return x.Op == "field" && x.Name == "URL" })
}

func hasFieldNamed(t *Term, name string) bool {
	return t.Mentions(func(x *Term) bool { return (x.Op == "field" || x.Op == "fieldv") && x.Name == name })
}

// emptyTest: cond says whether a text is empty; returns the text.
func emptyTest(cond *Term) *Term {
	if cond.Op != "bin" {
		return nil
	}
	for i := 0; i < 2; i++ {
		a, b := cond.Args[i], cond.Args[1-i]
		if s, ok := b.Str(); ok && s == "" && cond.Name == "==" {
			return a
		}
		if n, ok := b.Int(); ok && a.Op == "len" {
			if n == 0 && cond.Name == "==" || n == 1 && cond.Name == "<" && i == 0 {
				return a.Args[0]
			}
		}
	}
	return nil
}

// constEq: cond tells the outcome of a constant-time comparison; returns what is compared and the outcome that means equal.
func constEq(cond *Term) (a, b *Term, equal bool) {
	if cond.Op == "bin" && cond.Name == "==" {
		for i := 0; i < 2; i++ {
			x, n := cond.Args[i].unconv(), cond.Args[1-i]
			if args := callArgs(x, "crypto/subtle.ConstantTimeCompare"); args != nil {
				if v, ok := n.Int(); ok {
					return args[0], args[1], v == 1
				}
			}
		}
	}
	if args := callArgs(cond, "crypto/hmac.Equal"); args != nil {
		return args[0], args[1], true
	}
	return nil, nil, false
}

func callArgs(t *Term, name string) []*Term {
	if t == nil || t.Name != name {
		return nil
	}
	var r []*Term
	switch t.Op {
	case "call":
		r = t.CArg
	case "pure":
		r = t.Args
	}
	if len(r) < 2 {
		return nil
	}
	return r
}

// secretMatch records constant-time matches and non-empty texts on a branch.
func secretMatch(st *State, cond *Term, taken bool) {
	if t := emptyTest(cond); t != nil && !taken {
		st.Add("nonempty:" + t.unconv().key)
	}
	if a, b, eq := constEq(cond); a != nil && eq == taken {
		st.Add("match")
		st.vals["match:a"], st.vals["match:b"] = a.unconv(), b.unconv()
	}
}

// fromRequest: the text comes with the request.
func fromRequest(t *Term) bool {
	return deepMention(t, func(x *Term) bool {
		return x.Op == "call" && (strings.HasPrefix(x.Name, "(*"+ginPkg+".Context).") || strings.HasPrefix(x.Name, "(net/http.Header)."))
	})
}

func matched(st *State, secret func(*Term) bool) bool {
	if !st.Has("match") {
		return false
	}
	a, b := st.vals["match:a"], st.vals["match:b"]
	if secret(b) {
		a, b = b, a
	}
	if !secret(a) || secret(b) || !fromRequest(b) {
		return false
	}
	return st.Has("nonempty:"+a.key) || st.Has("nonempty:"+b.key)
}

func (c *Ctx) authMiddleware(root *ssa.Function) {
	w := c.W
	name := fnName(root)
	reach := w.Reaches(func(f *ssa.Function) bool {
		found := false
		Instrs(f, func(in ssa.Instruction) {
			if k, ok := in.(ssa.CallInstruction); ok {
				if g := k.Common().StaticCallee(); g != nil && strings.HasPrefix(fnName(g), "(*"+ginPkg+".Context).") {
					found = true
				}
			}
		})
		return found
	})
	look := w.Reaches(w.keyLookup)
	en := NewEngine(w)
	en.Relevant = map[*ssa.Function]bool{}
	for f := range w.ReachableFrom(root) {
		if inPkg(f, Mod+"/api/middleware") && reach[f] || look[f] {
			en.Relevant[f] = true
		}
	}
	en.NoInline = func(f *ssa.Function) bool { return w.keyLookup(f) }
	allowed := func(st *State) string {
		if st.Has("exempt") {
			return ""
		}
		if st.Has("conf") && st.Has("insecure") {
			return ""
		}
		if matched(st, func(t *Term) bool { return hasFieldNamed(t, "SecretKey") }) {
			return ""
		}
		k := st.vals["key"]
		switch {
		case k == nil || !st.Has("found:"+k.key):
			return "without the master key and without the presented key being found"
		case !st.Has("valid:" + k.key):
			return "with a key not known to be valid"
		case !st.Has("perm:" + k.key):
			return "with a key not known to have permission for the URL's resource and the request's method"
		}
		return ""
	}
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
		secretMatch(st, cond, taken)
		if cond.Op == "bin" && cond.Name == "==" && taken {
			for i := 0; i < 2; i++ {
				if s, ok := cond.Args[i].Str(); ok && openRoutes[s] && urlPath(cond.Args[1-i]) {
					st.Add("exempt")
				}
			}
		}
		if t := cond.unconv(); t.Op == "load" && t.Args[0].IsField("Secure") && !taken {
			st.Add("insecure")
		}
		if m, k := lookupOf(cond); m != nil && taken && urlPath(k) {
			if tbl := w.globalMap(m); tbl != nil {
				all := len(tbl) > 0
				for p := range tbl {
					all = all && openRoutes[p]
				}
				if all {
					st.Add("exempt")
				}
			}
		}
		if t := emptyTest(cond); t != nil && !taken && isResource(t) {
			st.Add("resource:" + t.unconv().key)
		}
	}
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		switch {
		case k.Name == "config.Fetch":
			ok, fail := en.Fork(st, k)
			ok.Add("conf")
			ok.Del("insecure")
			fail.Del("conf")
			fail.Del("insecure")
			return []*State{ok, fail}, true
		case k.Fn != nil && w.keyLookup(k.Fn):
			ok, fail := en.Fork(st, k)
			r := en.Res(ok, k, 0)
			ok.vals["key"] = r
			if fromRequest(k.Args[len(k.Args)-1]) {
				ok.Add("found:" + r.key)
			}
			return []*State{ok, fail}, true
		case k.Name == "(*model.APIKey).IsValid":
			en.opaque(k.F, st, k)
			no := st.Clone()
			st.Add("valid:" + k.Args[0].key)
			t := en.Res(st, k, 0)
			en.setKind(st, t, "true")
			en.setKind(no, t, "false")
			return []*State{st, no}, true
		case k.Name == "api/middleware.HasPermission" && len(k.Args) == 3:
			en.opaque(k.F, st, k)
			no := st.Clone()
			sc := k.Args[0].Strip()
			res := k.Args[1].unconv()
			m := k.Args[2].unconv()
			if sc != nil && sc.IsField("Scopes") && st.Has("resource:"+res.key) && isResource(res) && m.Op == "load" && m.Args[0].IsField("Method") {
				st.Add("perm:" + sc.Args[0].key)
			}
			t := en.Res(st, k, 0)
			en.setKind(st, t, "true")
			en.setKind(no, t, "false")
			return []*State{st, no}, true
		case resourceFn(k.Fn):
			en.opaque(k.F, st, k)
			return []*State{st}, true
		case strings.HasPrefix(k.Name, "(*"+ginPkg+".Context).Abort"):
			st.Add("aborted")
		case k.Name == "(*"+ginPkg+".Context).Next":
			why := allowed(st)
			c.Check(why == "", "admit", name+"|next|"+c.admitCase(st), w.Pos(k.Site.Pos()), "a request proceeds %s", why)
			st.Add("next")
		case k.Name == "(*"+ginPkg+".Context).Set" && len(k.Args) == 3:
			if s, ok := k.Args[1].Str(); ok && s == "isMasterKey" {
				v := k.Args[2].unconv()
				if v.Op != "const" || v.Name != "false" {
					c.Check(matched(st, func(t *Term) bool { return hasFieldNamed(t, "SecretKey") }), "mark", name+"|isMasterKey", w.Pos(k.Site.Pos()), "a request is marked as made with the master key although the key was not compared with it (in constant time, not empty)")
				}
			} else if ok && s == "apiKey" {
				key := k.Args[2].unconv()
				c.Check(st.Has("found:"+key.key) && st.Has("valid:"+key.key), "mark", name+"|apiKey", w.Pos(k.Site.Pos()), "a request is given as principal a key not found by the one presented, or not valid")
			}
		}
		return nil, false
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		if st.Has("aborted") || st.Has("next") {
			return
		}
		why := allowed(st)
		c.Check(why == "", "admit", name+"|return|"+c.admitCase(st), w.Pos(in.Pos()), "the middleware returns without refusing the request, which then proceeds %s", why)
	}
	en.Run(root, nil)
	c.Engine(en)
}

func (c *Ctx) admitCase(st *State) string {
	switch {
	case st.Has("exempt"):
		return "exempt"
	case st.Has("insecure"):
		return "insecure"
	case st.Has("match"):
		return "master"
	}
	return "key"
}

// resourceFn: a function that names the resource a request is about.
func resourceFn(f *ssa.Function) bool {
	if f == nil || !inPkg(f, Mod+"/api/middleware") {
		return false
	}
	r := f.Signature.Results()
	return r.Len() == 1 && strings.HasSuffix(r.At(0).Type().String(), "middleware.Resource") && f.Signature.Params().Len() == 1
}

// isResource: the term is the resource derived from the request's URL path.
func isResource(t *Term) bool {
	t = t.unconv()
	if t == nil {
		return false
	}
	var fn *ssa.Function
	var args []*Term
	switch t.Op {
	case "call":
		if k, ok := t.V.(*ssa.Call); ok {
			fn = k.Call.StaticCallee()
		}
		args = t.CArg
	case "pure":
		if k, ok := t.V.(*ssa.Call); ok {
			fn = k.Call.StaticCallee()
		}
		args = t.Args
	}
	if !resourceFn(fn) || len(args) == 0 {
		return false
	}
	if fn.Signature.Params().At(0).Type().String() == "string" {
		return urlPath(args[0])
	}
	return true
}

// lookupOf: the term reads (or asks for) an entry of a package-level map.
func lookupOf(t *Term) (*ssa.Global, *Term) {
	if t.Op == "res" && t.Name == "ok" {
		t = t.Args[0]
	}
	if t.Op != "lookup" {
		return nil, nil
	}
	m := t.Args[0].unconv()
	if m.Op != "load" || m.Args[0].Op != "global" {
		return nil, nil
	}
	g, _ := m.Args[0].V.(*ssa.Global)
	return g, t.Args[1]
}

// globalMap: the entries of a package-level map of constants set up once; nil if they cannot be told.
func (w *World) globalMap(g *ssa.Global) map[string]string {
	if g == nil || g.Pkg == nil || w.storedOutsideInit(g) {
		return nil
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	r := map[string]string{}
	ok, found := true, false
	Instrs(init, func(in ssa.Instruction) {
		st, isS := in.(*ssa.Store)
		if !isS || st.Addr != ssa.Value(g) {
			return
		}
		mm, isM := st.Val.(*ssa.MakeMap)
		if !isM {
			ok = false
			return
		}
		found = true
		for _, u := range *mm.Referrers() {
			up, isU := u.(*ssa.MapUpdate)
			if !isU {
				if u != ssa.Instruction(st) {
					if _, dbg := u.(*ssa.DebugRef); !dbg {
						ok = false
					}
				}
				continue
			}
			k, kc := up.Key.(*ssa.Const)
			if !kc || k.Value == nil {
				ok = false
				continue
			}
			v := ""
			if vc, isC := up.Value.(*ssa.Const); isC && vc.Value != nil {
				v = unq(vc.Value.ExactString())
			} else if _, isS := up.Value.Type().Underlying().(*types.Struct); !isS {
				ok = false
			}
			r[unq(k.Value.ExactString())] = v
		}
	})
	// nobody else writes into it
	for _, f := range w.Funcs {
		Instrs(f, func(in ssa.Instruction) {
			up, isU := in.(*ssa.MapUpdate)
			if !isU {
				return
			}
			if l, isL := up.Map.(*ssa.UnOp); isL && l.X == ssa.Value(g) {
				ok = false
			}
		})
	}
	if !ok || !found {
		return nil
	}
	return r
}

// tokenGates: handlers (gin or net/http) that compare a presented token with a configured one.
func (w *World) tokenGates() map[*ssa.Function]bool {
	auth := w.authHandlers()
	look := w.Reaches(w.keyLookup)
	cmp := w.Reaches(func(f *ssa.Function) bool {
		return callsExt(f, "crypto/subtle.ConstantTimeCompare", "crypto/hmac.Equal")
	})
	r := map[*ssa.Function]bool{}
	for f := range cmp {
		if f.Parent() == nil || auth[f] || look[f] || f.Signature.Recv() != nil {
			continue
		}
		if ginHandler(f) || httpHandlerSig(f.Signature) {
			r[f] = true
		}
	}
	return r
}

func httpHandlerSig(s *types.Signature) bool {
	return s.Params().Len() == 2 && s.Params().At(0).Type().String() == "net/http.ResponseWriter" && s.Params().At(1).Type().String() == "*net/http.Request" && s.Results().Len() == 0
}

// gateCtors: the functions that build the gates.
func (w *World) gateCtors() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for f := range w.tokenGates() {
		p := f
		for p.Parent() != nil {
			p = p.Parent()
		}
		r[p] = true
	}
	return r
}

func (c *Ctx) checkGates() {
	w := c.W
	for _, root := range sortedFns(w.gateCtors()) {
		name := fnName(root)
		pos := w.Pos(root.Pos())
		secret := func(t *Term) bool {
			return t.Mentions(func(x *Term) bool { return x.Op == "param" && x.V != nil && x.V.Type().String() == "string" })
		}
		open := func(st *State) bool { return st.Has("off") && st.HasPrefix("empty:") }
		en := NewEngine(w)
		en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
			secretMatch(st, cond, taken)
			if t := emptyTest(cond); t != nil && taken && t.unconv().Op == "param" {
				st.Add("empty:" + t.unconv().key)
			}
			if cond.Op == "param" && isBool(cond.V.Type()) && !taken {
				st.Add("off")
			}
		}
		pass := func(st *State, in ssa.Instruction) {
			c.Check(open(st) || matched(st, secret), "gate", name+"|pass", w.Pos(in.Pos()), "a request passes the gate without a non-empty configured token having matched, although secure mode may be on or a token configured")
		}
		inner := false
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			switch {
			case k.Name == "(*"+ginPkg+".Context).Next", k.Iface == "(net/http.Handler).ServeHTTP", k.Name == "(net/http.HandlerFunc).ServeHTTP":
				pass(st, k.Site)
				st.Add("next")
			case strings.HasPrefix(k.Name, "(*"+ginPkg+".Context).Abort"):
				st.Add("aborted")
			}
			return nil, false
		}
		en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
			if inner {
				if ginHandler(f.Fn) && !st.Has("aborted") && !st.Has("next") {
					pass(st, in)
				}
				return
			}
			if len(res) != 1 {
				return
			}
			t := res[0].Strip()
			h := handlerFn(t)
			if h == nil {
				c.Check(open(st), "gate", name+"|ungated", w.Pos(in.Pos()), "%s hands out an ungated handler although secure mode may be on or a token configured", name)
				return
			}
			inner = true
			var args []*Term
			for i, p := range h.Params {
				args = append(args, en.mk("opaque", "arg"+p.Name()+string(rune('0'+i)), p, nil))
			}
			en.RunArgs(h, st.Clone(), args, t.Args)
			inner = false
			c.Ok("gate", name+"|closure", pos)
		}
		en.Run(root, nil)
		c.Engine(en)
	}
}

// gateArgs checks what a gate was built with.
func (c *Ctx) gateArgs(ts []*Term, st *State, gates map[*ssa.Function]bool, name, where string) {
	en := NewEngine(c.W)
	for _, t := range ts {
		h := handlerFn(t)
		if h == nil || !gates[h] {
			continue
		}
		for _, b := range t.Strip().Args {
			v := en.Load(st, b)
			if b.Op != "alloc" {
				v = b
			}
			switch typeOfCell(b) {
			case "bool":
				ok := hasFieldNamed(v, "Secure") || v.Op == "const" && v.Name == "true" || st.Has("cfg-failed")
				c.Check(ok, "open", name+"|secure", where, "the gate of %s is not given the configured secure flag", name)
			case "string":
				ok := hasFieldNamed(v, "MetricsBearerToken") || st.Has("cfg-failed")
				c.Check(ok, "open", name+"|token", where, "the gate of %s is not given the configured token", name)
			}
		}
	}
}

func typeOfCell(t *Term) string {
	if t.V == nil {
		return ""
	}
	ty := t.V.Type()
	if p, ok := ty.Underlying().(*types.Pointer); ok && t.Op == "alloc" {
		ty = p.Elem()
	}
	return ty.String()
}

// httpGates checks the handlers registered on net/http servers.
func (c *Ctx) httpGates(gates map[*ssa.Function]bool) {
	w := c.W
	ctors := w.gateCtors()
	ledger := w.Reaches(func(f *ssa.Function) bool {
		return f.Signature.Recv() != nil && f.Object() != nil && f.Object().Exported() && strings.HasSuffix(f.Signature.Recv().Type().String(), Mod+".Blnk")
	})
	for _, f := range w.Funcs {
		Instrs(f, func(in ssa.Instruction) {
			k, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			g := k.Common().StaticCallee()
			if g == nil {
				return
			}
			var pat, h ssa.Value
			switch n := fnName(g); {
			case n == "(*net/http.ServeMux).Handle" || n == "(*net/http.ServeMux).HandleFunc":
				pat, h = k.Common().Args[1], k.Common().Args[2]
			case n == "net/http.Handle" || n == "net/http.HandleFunc":
				pat, h = k.Common().Args[0], k.Common().Args[1]
			default:
				return
			}
			p := "?"
			if pc, isC := pat.(*ssa.Const); isC && pc.Value != nil {
				p = unq(pc.Value.ExactString())
			}
			name := "worker " + p
			for {
				switch x := h.(type) {
				case *ssa.MakeInterface:
					h = x.X
					continue
				case *ssa.ChangeType:
					h = x.X
					continue
				case *ssa.ChangeInterface:
					h = x.X
					continue
				}
				break
			}
			var fn *ssa.Function
			switch x := h.(type) {
			case *ssa.Function:
				fn = unwrap(x)
			case *ssa.MakeClosure:
				fn = unwrap(x.Fn.(*ssa.Function))
			case *ssa.Call:
				if t := x.Call.StaticCallee(); t != nil && ctors[t] {
					okS, okT := false, false
					for _, a := range x.Call.Args {
						o := map[string]bool{}
						fieldOrigins(a, map[ssa.Value]bool{}, o)
						for n := range o {
							okS = okS || strings.HasSuffix(n, ".Secure") && isBool(a.Type())
							okT = okT || strings.HasSuffix(n, ".MetricsBearerToken")
						}
					}
					c.Check(okS && okT, "open", name, w.Pos(k.Pos()), "the gate of %s is not given the configured secure flag and token", name)
					return
				}
			}
			c.Check(fn != nil && !ledger[fn] && p == "/health", "open", name, w.Pos(k.Pos()), "%s is served without the bearer-token gate", name)
		})
	}
}

var methodActions = map[string]string{"GET": "read", "HEAD": "read", "OPTIONS": "read", "POST": "write", "PUT": "write", "PATCH": "write", "DELETE": "delete"}

var segmentAliases = map[string]string{"mocked-account": "accounts", "multi-search": "search", "refund-transaction": "transactions"}

func ruleS02(c *Ctx) {
	w := c.W
	c.Rule("permit", "HasPermission answers yes only on paths on which, within one scope of exactly two parts, the resource part equals the wanted resource or *, and the action part equals the action of the method or *, that action not being empty")
	c.Rule("cover", "ScopeCovers answers yes only when the granted scope's resource and action parts each equal the requested one's or *")
	c.Rule("method", "the action of a method is read for GET, HEAD and OPTIONS, write for POST, PUT and PATCH, delete for DELETE, and none for any other")
	c.Rule("resource", "the resource of a path is decided from its first segment: the resource of the same name, one of three declared aliases, or none")
	c.Rule("segment", "each registered route's first segment is literal, so that its resource is fixed")
	c.Rule("read-only", "the handler of a GET or HEAD route reaches no statement writing a table")
	c.Floor("permit", 1)
	c.Floor("cover", 1)
	c.Floor("method", 3)
	c.Floor("resource", 3)
	c.Floor("segment", 3)
	c.Floor("read-only", 3)
	c.scopeMatch("api/middleware.HasPermission", "permit")
	c.scopeMatch("api/middleware.ScopeCovers", "cover")
	for _, f := range w.Funcs {
		if resourceFn(f) && f.Parent() == nil {
			c.resourceOf(f)
		}
	}
	_, all := w.SQLEffects()
	for _, r := range c.Routes() {
		seg := firstSegment(r.Path)
		if openRoutes[r.Path] {
			continue
		}
		// a parameter as first segment can only stand for names without a table entry of their own: it is denied unless the request's first segment maps
		c.Check(seg != "" && !strings.HasPrefix(seg, "*") && r.Path != "?" || strings.HasPrefix(seg, ":"), "segment", r.name(), r.Where, "the first segment of route %s is not fixed", r.name())
		if methodActions[r.Verb] != "read" {
			continue
		}
		what := ""
		for _, h := range r.Handlers {
			for e := range all[h] {
				if e.Kind != "" {
					what = e.Kind + " " + e.Table
				}
			}
		}
		c.Check(what == "", "read-only", r.name(), r.Where, "a key allowed only to read makes %s do: %s", r.name(), what)
	}
}

func firstSegment(p string) string {
	p = strings.TrimPrefix(p, "/")
	if i := strings.Index(p, "/"); i >= 0 {
		p = p[:i]
	}
	return p
}

// scopePart: the term is part i of a text split at colons; returns the text.
func scopePart(t *Term, sep string) (text *Term, i int64, split *Term) {
	t = t.unconv()
	if t == nil {
		return nil, 0, nil
	}
	switch t.Op {
	case "load":
		ix := t.Args[0]
		if ix.Op != "index" {
			return nil, 0, nil
		}
		n, ok := ix.Args[1].Int()
		sp := ix.Args[0].unconv()
		for _, f := range []string{"strings.Split", "strings.SplitN"} {
			if a := callArgs(sp, f); a != nil && ok {
				if s, isS := a[1].Str(); isS && s == sep {
					return a[0].unconv(), n, sp
				}
			}
		}
	case "res":
		for _, f := range []string{"strings.Cut"} {
			if a := callArgs(t.Args[0], f); a != nil {
				if s, isS := a[1].Str(); isS && s == sep && (t.Name == "0" || t.Name == "1") {
					return a[0].unconv(), int64(t.Name[0] - '0'), nil
				}
			}
		}
	}
	return nil, 0, nil
}

func (c *Ctx) scopeMatch(name, rule string) {
	w := c.W
	root := w.Func(name)
	if root == nil {
		return
	}
	pos := w.Pos(root.Pos())
	en := NewEngine(w)
	en.Relevant = map[*ssa.Function]bool{}
	for f := range w.ReachableFrom(root) {
		if inPkg(f, Mod+"/api/middleware") && f != root {
			en.Relevant[f] = true
		}
	}
	var resP, methP, wantP *Term // the wanted resource and method, or the requested scope
	param := func(i int) *Term { return en.mk("param", fnName(root)+"$"+string(rune('0'+i)), root.Params[i], nil) }
	if rule == "permit" {
		resP, methP = param(1), param(2)
	} else {
		wantP = param(1)
	}
	action := func(t *Term) bool {
		_, k := lookupOf(t)
		return methP != nil && k != nil && k.unconv() == methP
	}
	class := func(t *Term) string {
		t = t.unconv()
		if s, ok := t.Str(); ok {
			return "=" + s
		}
		if resP != nil && t == resP {
			return "want0"
		}
		if action(t) {
			return "want1"
		}
		text, i, _ := scopePart(t, ":")
		if text == nil {
			return ""
		}
		want := wantP != nil && text == wantP || resP != nil && text.Mentions(func(x *Term) bool { return x == resP || action(x) })
		if want {
			return "want" + string(rune('0'+i))
		}
		return "have" + string(rune('0'+i))
	}
	tables := map[*ssa.Global]bool{}
	en.H.Edge = func(en *Engine, st *State, from, to *ssa.BasicBlock, f *Frame) {
		if f.Depth == 0 && en.isLoopHeader(from) {
			for _, x := range []string{"eq0", "eq1", "two"} {
				st.Del(x)
			}
		}
	}
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
		if cond.Op == "res" && cond.Name == "ok" && taken && action(cond.Args[0]) { // the table's entries are not empty
			st.Add("action")
			st.known[cond.Args[0].key+`≠""`] = knownRec{"true", cond.Args[0]}
		}
		if cond.Op != "bin" || cond.Name != "==" {
			return
		}
		if t := emptyTest(cond); t != nil && !taken && class(t) == "want1" {
			st.Add("action")
		}
		if !taken {
			return
		}
		for i := 0; i < 2; i++ {
			a, b := cond.Args[i], cond.Args[1-i]
			if n, ok := b.Int(); ok && n == 2 && a.Op == "len" {
				st.Add("two:" + a.Args[0].unconv().key)
			}
			if methP != nil && a.unconv() == methP {
				if s, ok := b.Str(); ok {
					st.Add("method:" + s)
				}
			}
			ca, cb := class(a), class(b)
			if len(ca) != 5 || ca[:4] != "have" {
				continue
			}
			_, _, split := scopePart(a, ":")
			if split != nil && !st.Has("two:"+split.key) {
				continue
			}
			d := ca[4:]
			switch {
			case cb == "want"+d, cb == "=*":
				st.Add("eq" + d)
			case d == "1" && strings.HasPrefix(cb, "="):
				// the method was told apart by comparisons
				for m, act := range methodActions {
					if st.Has("method:"+m) && act == cb[1:] {
						st.Add("eq1")
						st.Add("action")
					}
				}
			}
			for _, t := range []*Term{a, b} {
				if g, k := lookupOf(t.unconv()); g != nil && methP != nil && k.unconv() == methP {
					tables[g] = true
				}
			}
		}
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		if len(res) != 1 {
			return
		}
		t, pol := norm(res[0])
		k := en.kind(st, t)
		if k == "false" && pol || k == "true" && !pol {
			return
		}
		if k == "" {
			st = st.Clone()
			if !en.refine(st, t, pol) {
				return
			}
			en.H.Branch(en, st, t, pol, in, f)
		}
		ok := st.Has("eq0") && st.Has("eq1") && (rule != "permit" || st.Has("action"))
		c.Check(ok, rule, name+"|yes", w.Pos(in.Pos()), "%s answers yes although resource and action were not both found to match (%s)", name, strings.Join(st.Facts(), " "))
	}
	// the assumed-true returns go through the same matching
	en.Run(root, nil)
	c.Engine(en)
	if rule != "permit" {
		return
	}
	for g := range tables {
		m := w.globalMap(g)
		if m == nil {
			c.Fail("method", g.Name(), pos, "the action table of methods is not a constant one")
		}
		for k, v := range m {
			c.Check(methodActions[k] == v && v != "", "method", k, pos, "method %s is taken as action %s", k, v)
		}
	}
	if len(tables) == 0 {
		for m := range methodActions {
			c.Ok("method", m, pos)
		}
	}
}

func (c *Ctx) resourceOf(root *ssa.Function) {
	w := c.W
	name := fnName(root)
	en := NewEngine(w)
	en.Relevant = map[*ssa.Function]bool{}
	for f := range w.ReachableFrom(root) {
		if inPkg(f, Mod+"/api/middleware") && f != root {
			en.Relevant[f] = true
		}
	}
	path := func(t *Term) bool { t = t.unconv(); return t.Op == "param" || urlPath(t) }
	trimmed := func(t *Term) bool {
		for _, f := range []string{"strings.TrimPrefix", "strings.TrimLeft", "strings.Trim"} {
			if a := callArgs(t.unconv(), f); a != nil {
				if s, ok := a[1].Str(); ok && s == "/" && path(a[0]) {
					return true
				}
			}
		}
		return false
	}
	seg := func(t *Term) bool {
		text, i, _ := scopePart(t, "/")
		return text != nil && (i == 0 && trimmed(text) || i == 1 && path(text))
	}
	good := func(s, r string) bool { return r == s || segmentAliases[s] == r }
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
		if cond.Op == "bin" && cond.Name == "==" && taken {
			for i := 0; i < 2; i++ {
				if s, ok := cond.Args[i].Str(); ok && seg(cond.Args[1-i]) {
					st.DelPrefix("seg:")
					st.Add("seg:" + s)
				}
			}
		}
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		if len(res) != 1 {
			return
		}
		t := res[0].unconv()
		where := w.Pos(in.Pos())
		if r, ok := t.Str(); ok {
			if r == "" {
				c.Ok("resource", name+"|none", where)
				return
			}
			is := ""
			for _, x := range st.Facts() {
				if strings.HasPrefix(x, "seg:") {
					is = x[4:]
				}
			}
			c.Check(is != "" && good(is, r), "resource", name+"|"+r, where, "paths not known to start with the segment of resource %s are taken as being about it (known: %q)", r, is)
			return
		}
		if g, k := lookupOf(t); g != nil {
			m := w.globalMap(g)
			c.Check(m != nil && seg(k), "resource", name+"|"+g.Name(), where, "the resource is not looked up in a constant table by the path's first segment: %s", k.String())
			for s, r := range m {
				c.Check(good(s, r), "resource", name+"|"+s, where, "segment %s is taken as resource %s", s, r)
			}
			return
		}
		c.Fail("resource", name+"|?", where, "the resource is neither a constant for a known first segment nor looked up by it: %s", t.String())
	}
	en.Run(root, nil)
	c.Engine(en)
}

// deepMention also looks into the arguments of unknown calls.
func deepMention(t *Term, p func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] || len(seen) > 300 {
			return false
		}
		seen[x] = true
		if p(x) {
			return true
		}
		for _, a := range append(append([]*Term{}, x.Args...), x.CArg...) {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}
