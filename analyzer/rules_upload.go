package main

import (
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["R04"] = ruleR04 }

// requestMakers: the functions of net/http that take the URL of an outgoing request, and the argument it is.
var requestMakers = map[string]int{
	"net/http.NewRequest": 1, "net/http.NewRequestWithContext": 2,
	"net/http.Get": 0, "net/http.Head": 0, "net/http.Post": 0, "net/http.PostForm": 0,
	"(*net/http.Client).Get": 1, "(*net/http.Client).Head": 1, "(*net/http.Client).Post": 1, "(*net/http.Client).PostForm": 1,
	"net.Dial": 1, "net.DialTimeout": 1, "(*net.Dialer).Dial": 2, "(*net.Dialer).DialContext": 3,
}

func calleeName(k ssa.CallInstruction) string {
	if g := k.Common().StaticCallee(); g != nil {
		return fnName(g)
	}
	return ""
}

// configured: the text comes out of the configuration or a registered hook, not out of the request at hand.
func configured(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.UnOp:
		return configured(x.X, d+1)
	case *ssa.FieldAddr:
		n := structOfNamed(x.X.Type())
		if strings.HasPrefix(n, Mod+"/config.") || strings.HasPrefix(n, Mod+"/internal/") {
			return true
		}
		return configured(x.X, d+1)
	case *ssa.Call:
		g := x.Common().StaticCallee()
		return g != nil && g.Signature.Recv() != nil && strings.HasPrefix(structOfNamed(g.Signature.Recv().Type()), Mod+"/internal/")
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !configured(e, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// fetchers: the functions that send a request to a URL they were given.
func (w *World) fetchers() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		Instrs(f, func(in ssa.Instruction) {
			k, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			if i, ok := requestMakers[calleeName(k)]; ok && i < len(k.Common().Args) && !configured(k.Common().Args[i], 0) {
				r[f] = true
			}
		})
	}
	return r
}

// whitelist: the functions that read the configured list of upload hosts.
func (w *World) whitelist() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if f.Signature.Results().Len() == 0 {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			if x, ok := in.(*ssa.FieldAddr); ok && strings.HasPrefix(structOfNamed(x.X.Type()), Mod+"/config.") && fieldName(x.X.Type(), x.Field) == "UploadDomainWhitelist" {
				r[f] = true
			}
		})
	}
	return r
}

func ruleR04(c *Ctx) {
	w := c.W
	c.Rule("host", "a request to a URL given by a client is made only after the URL's own host was found, by equality, in the configured list")
	c.Rule("scheme", "and after its scheme was found to be http or https")
	c.Rule("redirect", "the client the request is sent with follows a redirect only to a host found in the same list")
	c.Rule("timeout", "the request is bounded by a deadline")
	c.Rule("status", "the answer is read only if its status is 2xx")
	c.Rule("size", "the answer is read only through a reader with a limit that does not come from the request")
	c.Rule("list", "the list holds nothing that is not written in the configuration")
	for _, r := range []string{"host", "scheme", "redirect", "timeout", "status", "size", "list"} {
		c.Floor(r, 1)
	}
	fs := w.fetchers()
	lists := w.whitelist()
	for f := range lists {
		c.listed(f)
	}
	n := 0
	for _, f := range w.Funcs {
		if !ginHandler(f) || isMock(f) || f.Blocks == nil {
			continue
		}
		hit := false
		for g := range w.ReachableFrom(f) {
			hit = hit || fs[g]
		}
		if hit {
			n++
			c.fetch(f, fs, lists)
		}
	}
	c.Check(n > 0, "host", "handlers", "", "no handler that fetches a URL was found")
}

func (c *Ctx) fetch(root *ssa.Function, fs, lists map[*ssa.Function]bool) {
	w := c.W
	toFetch := w.Reaches(func(f *ssa.Function) bool { return fs[f] })
	en := NewEngine(w)
	en.Relevant = map[*ssa.Function]bool{}
	for f := range w.ReachableFrom(root) {
		if toFetch[f] {
			en.Relevant[f] = true
			for _, g := range w.refs[f] { // what the fetching functions ask
				if s := g.Signature.Results(); s.Len() > 0 && !lists[g] && len(g.Blocks) < 40 {
					en.Relevant[g] = true
				}
			}
		}
	}
	en.NoInline = func(f *ssa.Function) bool { return lists[f] || !en.Relevant[f] && len(f.Blocks) > 6 }

	// urlOf: the URL a text or part of one is of
	var urlOf func(t *Term) *Term
	part := func(t *Term, name string) *Term { // the named part of a parsed URL, case and blanks aside
		for i := 0; i < 6 && t != nil; i++ {
			t = t.unconv()
			switch {
			case (t.Op == "pure" || t.Op == "call") && (t.Name == "strings.ToLower" || t.Name == "strings.TrimSpace") && len(t.Args) > 0:
				t = t.Args[0]
				continue
			case (t.Op == "pure" || t.Op == "call") && name == "Host" && t.Name == "(*net/url.URL).Hostname" && len(t.Args) > 0:
				return t.Args[0].unconv()
			case t.Op == "load" && t.Args[0].IsField(name):
				return t.Args[0].Args[0].unconv()
			case t.Op == "call":
				if a := callArgs(t, "strings.ToLower"); len(a) > 0 {
					t = a[0]
					continue
				}
				for _, x := range t.CArg {
					if name == "Host" && strings.HasSuffix(t.Name, "(*net/url.URL).Hostname") {
						return x.unconv()
					}
				}
			}
			break
		}
		return nil
	}
	urlOf = func(t *Term) *Term {
		t = t.unconv()
		if t.Op == "pure" || t.Op == "call" {
			if strings.Contains(t.Name, "(*net/url.URL).String") {
				for _, x := range append(append([]*Term{}, t.Args...), t.CArg...) {
					return x.unconv()
				}
			}
		}
		return nil
	}
	// inList: the list itself, or an element of it; not a list with something added
	inList := func(t *Term) bool {
		for i := 0; i < 12 && t != nil; i++ {
			t = t.unconv()
			switch t.Op {
			case "call", "pure", "res":
				for f := range lists {
					if strings.Contains(t.Name, fnName(f)) {
						return true
					}
				}
				if t.Op != "res" {
					return false
				}
				t = t.Args[0]
			case "load", "index", "slice", "lookup", "elem":
				t = t.Args[0]
			default:
				return false
			}
		}
		return false
	}
	listed := func(st *State, list, host *Term) {
		if inList(list) && !inList(host) {
			if u := part(host, "Host"); u != nil {
				st.Add("allowed:" + u.key)
			}
		}
	}
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
		statusBound(st, cond, taken)
		t := cond.unconv()
		if taken && (t.Op == "pure" || t.Op == "call") && strings.HasPrefix(t.Name, "slices.Contains") {
			if a := append(append([]*Term{}, t.Args...), t.CArg...); len(a) == 2 {
				listed(st, a[0], a[1])
			}
		}
		if taken && t.Op == "pure" && t.Name == "strings.EqualFold" && len(t.Args) == 2 {
			listed(st, t.Args[0], t.Args[1])
			listed(st, t.Args[1], t.Args[0])
		}
		if t.Op == "lookup" && taken && len(t.Args) == 2 || t.Op == "res" && t.Name == "ok" && taken && t.Args[0].Op == "lookup" {
			if t.Op == "res" {
				t = t.Args[0]
			}
			listed(st, t.Args[0], t.Args[1])
		}
		if cond.Op == "bin" && cond.Name == "==" && taken {
			for i := 0; i < 2; i++ {
				x, y := cond.Args[i], cond.Args[1-i]
				if n, ok := x.Int(); ok && n == 0 {
					if p := y.unconv(); p.Op == "pure" && p.Name == "strings.Compare" && len(p.Args) == 2 {
						listed(st, p.Args[0], p.Args[1])
						listed(st, p.Args[1], p.Args[0])
					}
				}
				listed(st, x, y)
				if s, ok := x.Str(); ok && (s == "http" || s == "https") {
					if u := part(y, "Scheme"); u != nil {
						st.Add("scheme:" + u.key)
					}
				}
			}
		}
	}
	en.H.Store = func(en *Engine, st *State, addr, val *Term, in ssa.Instruction, f *Frame) {
		if addr.Op != "field" {
			return
		}
		switch addr.Name {
		case "Host", "Scheme", "Opaque":
			st.Del("allowed:" + addr.Args[0].unconv().key)
			st.Del("scheme:" + addr.Args[0].unconv().key)
		case "URL":
			st.DelPrefix("asked:" + addr.Args[0].unconv().key)
		}
	}
	asked := func(st *State, k *Call, url *Term) {
		if !deepMention(url, func(t *Term) bool { return t.Op != "const" && t.Op != "pure" && t.Op != "slicelit" }) {
			return
		}
		u := urlOf(url)
		if u == nil { // the text itself: the URL parsed from it
			for _, s := range st.Facts() {
				if strings.HasPrefix(s, "parsed:"+url.unconv().key+"=>") {
					u = st.vals[s]
				}
			}
		}
		name := fnName(root) + "|" + k.Name
		where := w.Pos(k.Site.Pos())
		c.Check(u != nil && st.Has("allowed:"+u.key), "host", name, where, "a URL given by a client is requested although its host was not found in the configured list of upload hosts")
		c.Check(u != nil && st.Has("scheme:"+u.key), "scheme", name, where, "a URL given by a client is requested although its scheme was not found to be http or https")
	}
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		where := ""
		if k.Site != nil {
			where = w.Pos(k.Site.Pos())
		}
		name := fnName(root) + "|" + k.Name
		switch {
		case k.Name == "net/url.Parse" || k.Name == "net/url.ParseRequestURI":
			ok, fail := en.Fork(st, k)
			u := en.Res(ok, k, 0).unconv()
			s := "parsed:" + k.Args[0].unconv().key + "=>" + u.key
			ok.Add(s)
			ok.vals[s] = u
			return []*State{ok, fail}, true
		case k.Name == "(*net/http.Client).Do" && len(k.Args) == 2:
			ok, fail := en.Fork(st, k)
			req, cl := k.Args[1].unconv(), k.Args[0].unconv()
			c.Check(st.Has("asked:"+req.key), "host", name, where, "a request is sent that is not known to be for a checked URL")
			ctx := st.vals["ctx:"+req.key]
			tm := en.field(st, cl, "Timeout")
			n, isConst := tm.Int()
			timed := cl.Op == "alloc" && !isConst && tm.Op != "zero" || isConst && n > 0
			if tm.unconv().Op == "load" { // never set
				timed = false
			}
			timed = timed || ctx != nil && deepMention(ctx, func(t *Term) bool {
				return strings.Contains(t.Name, "context.WithTimeout") || strings.Contains(t.Name, "context.WithDeadline")
			})
			c.Check(timed, "timeout", name, where, "the request is sent with neither a deadline nor a client timeout")
			c.redirects(en, st, root, cl, name, where)
			resp := en.Res(ok, k, 0)
			ok.vals["resp:"+resp.unconv().key] = resp
			ok.Add("resp:" + resp.unconv().key)
			return []*State{ok, fail}, true
		}
		if i, ok := requestMakers[k.Name]; ok && i < len(k.Args) {
			asked(st, k, k.Args[i])
			if strings.HasPrefix(k.Name, "net/http.NewRequest") {
				ok, fail := en.Fork(st, k)
				req := en.Res(ok, k, 0).unconv()
				ok.Add("asked:" + req.key)
				if i == 2 {
					ok.vals["ctx:"+req.key] = k.Args[0]
				}
				return []*State{ok, fail}, true
			}
			c.Check(false, "redirect", name, where, "a URL given by a client is requested with a client that follows redirects to any host")
			return nil, false
		}
		// the use of an answer's body
		for i, a := range k.Args {
			b := a.unconv()
			if b.Op != "load" || !b.Args[0].IsField("Body") {
				continue
			}
			r := b.Args[0].Args[0].unconv()
			if !st.Has("resp:"+r.key) || k.Method() == "Close" {
				continue
			}
			limited := k.Name == "io.LimitReader" && i == 0 || k.Name == "net/http.MaxBytesReader" && i == 1
			if k.Fn != nil && en.shouldInline(k.Fn) && !limited {
				continue
			}
			c.Check(limited && !deepMention(k.Args[i+1], fromRequest), "size", name, where, "the answer is read without a limit of the server's own")
			c.Check(st.Has("lo:"+r.key) && st.Has("hi:"+r.key), "status", name, where, "the answer is read although its status is not known to be 2xx")
		}
		return nil, false
	}
	en.Run(root, nil)
	c.Engine(en)
	c.Saw(fnName(root))
}

// redirects: what the client's CheckRedirect lets pass.
func (c *Ctx) redirects(en *Engine, st *State, root *ssa.Function, cl *Term, name, where string) {
	t := en.field(st, cl, "CheckRedirect")
	fn := handlerFn(t)
	if fn == nil || len(fn.Params) == 0 {
		c.Check(false, "redirect", name, where, "the client follows redirects to any host (its CheckRedirect is not set)")
		return
	}
	var args []*Term
	for i, p := range fn.Params {
		args = append(args, en.mk("param", fnName(fn)+"$"+strconv.Itoa(i), p, nil))
	}
	bad := ""
	steps := en.Steps
	for _, e := range en.RunArgs(fn, st.Clone(), args[len(args)-2:], t.Strip().Args) {
		if len(e.res) != 1 {
			continue
		}
		if r := e.res[0].unconv(); en.kind(e.st, r) == "nonnil" || r.Op == "load" && r.Args[0].Op == "global" {
			continue
		}
		u := en.field(e.st, args[len(args)-2], "URL").unconv()
		if !e.st.Has("allowed:" + u.key) {
			bad = c.W.Pos(e.ret.Pos())
		}
	}
	en.Total, en.Steps = en.Total-steps, en.Steps+steps
	if bad != "" {
		where = bad
	}
	c.Check(bad == "", "redirect", name, where, "a redirect is followed although the host it leads to was not found in the configured list")
}

// listed: the elements of the list are parts of the configured text.
func (c *Ctx) listed(f *ssa.Function) {
	w := c.W
	var lit func(v ssa.Value, seen map[ssa.Value]bool) bool
	lit = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return x.Value != nil && x.Value.ExactString() != `""`
		case *ssa.Phi:
			for _, e := range x.Edges {
				if lit(e, seen) {
					return true
				}
			}
		case *ssa.BinOp:
			return lit(x.X, seen) || lit(x.Y, seen)
		case *ssa.Call:
			if as := x.Common().Args; len(as) > 0 {
				return lit(as[0], seen)
			}
		}
		return false
	}
	bad := ""
	Instrs(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.MapUpdate:
			if lit(x.Key, map[ssa.Value]bool{}) {
				bad = w.Pos(x.Pos())
			}
		case *ssa.Store:
			if _, ok := x.Addr.(*ssa.IndexAddr); ok && lit(x.Val, map[ssa.Value]bool{}) {
				bad = w.Pos(x.Pos())
			}
		}
	})
	c.Check(bad == "", "list", fnName(f), bad, "the list of upload hosts is given an entry that is not in the configuration")
}

// statusBound: what a test says about the status of an answer: at least 200, below 300.
func statusBound(st *State, cond *Term, taken bool) {
	if cond.Op != "bin" {
		return
	}
	a, b := cond.Args[0].unconv(), cond.Args[1].unconv()
	code := func(t *Term) string {
		if t.Op == "load" && t.Args[0].IsField("StatusCode") {
			return t.Args[0].Args[0].unconv().key
		}
		return ""
	}
	if cond.Name == "==" && taken {
		for i, x := range []*Term{a, b} {
			y := []*Term{b, a}[i]
			if n, ok := y.Int(); ok {
				if r := code(x); r != "" && n >= 200 && n < 300 {
					st.Add("lo:" + r)
					st.Add("hi:" + r)
				}
				if x.Op == "bin" && x.Name == "/" && n == 2 {
					if m, ok := x.Args[1].Int(); ok && m == 100 {
						if r := code(x.Args[0].unconv()); r != "" {
							st.Add("lo:" + r)
							st.Add("hi:" + r)
						}
					}
				}
			}
		}
	}
	if cond.Name == "<" {
		if n, ok := b.Int(); ok {
			if r := code(a); r != "" { // code < n
				if taken && n <= 300 {
					st.Add("hi:" + r)
				}
				if !taken && n >= 200 {
					st.Add("lo:" + r)
				}
			}
		}
		if n, ok := a.Int(); ok {
			if r := code(b); r != "" { // n < code
				if taken && n >= 199 {
					st.Add("lo:" + r)
				}
				if !taken && n <= 299 {
					st.Add("hi:" + r)
				}
			}
		}
	}
}
