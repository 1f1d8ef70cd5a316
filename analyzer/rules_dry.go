package main

import (
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["T13"] = ruleT13 }

var redisWrite = regexp.MustCompile(`^\(github\.com/redis/go-redis/v9\.(UniversalClient|Cmdable|Pipeliner|StatefulCmdable)\)\.|^\(\*?github\.com/redis/go-redis/v9\.[A-Za-z]+\)\.`)
var redisVerb = regexp.MustCompile(`^(Set|Del|Unlink|LPush|RPush|LPop|RPop|Incr|Decr|Publish|HSet|HDel|HIncr|SAdd|SRem|ZAdd|ZRem|Eval|GetSet|GetDel|Append|Expire|Persist|Rename|XAdd|Flush|MSet|HMSet)`)

// extEffect: what a call of something outside the module changes in the world.
func extEffect(name string) string {
	switch {
	case strings.HasPrefix(name, "(*github.com/hibiken/asynq.Client).Enqueue"):
		return "queue"
	case strings.HasPrefix(name, "(*github.com/hibiken/asynq.Inspector).") && !strings.Contains(name, ".Get") && !strings.Contains(name, ".List"):
		return "queue"
	case name == "(*net/http.Client).Do", name == "net/http.Post", name == "net/http.Get", name == "net/http.PostForm",
		name == "(*net/http.Client).Post", name == "(*net/http.Client).Get", name == "(*net/http.Client).PostForm":
		return "http"
	case strings.Contains(name, "github.com/typesense/"):
		for _, v := range []string{".Upsert", ".Create", ".Delete", ".Update", ".Import"} {
			if strings.HasSuffix(name, v) {
				return "search"
			}
		}
	case redisWrite.MatchString(name):
		i := strings.LastIndex(name, ".")
		if redisVerb.MatchString(name[i+1:]) {
			return "redis"
		}
	}
	return ""
}

// effectsOf: the functions that themselves change something outside the process, and what. Locks and caches are no effects.
func (w *World) effectsOf() map[*ssa.Function]string {
	if w.extEff != nil {
		return w.extEff
	}
	out := map[*ssa.Function]string{}
	direct, _ := w.SQLEffects()
	for f, es := range direct {
		if isMock(f) {
			continue
		}
		var ks []string
		for e := range es {
			ks = append(ks, e.Kind+" "+e.Table)
		}
		sort.Strings(ks)
		out[f] = ks[0]
	}
	for _, s := range w.CollectSQL().Sites {
		if strings.HasPrefix(s.Op, "Exec") && out[s.Fn] == "" && !isMock(s.Fn) {
			out[s.Fn] = "statement"
		}
	}
	for _, f := range w.Funcs {
		if isMock(f) || inPkg(f, Mod+"/internal/lock") || inPkg(f, Mod+"/internal/cache") {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			n := ""
			if ci.Common().IsInvoke() {
				n = "(" + ci.Common().Value.Type().String() + ")." + ci.Common().Method.Name()
			} else if g := ci.Common().StaticCallee(); g != nil && !w.InModule(g) {
				n = fnName(g)
			}
			if e := extEffect(n); e != "" && out[f] == "" {
				out[f] = e
			}
		})
	}
	w.extEff = out
	return out
}

// pathTo: a shortest chain of calls from a function to one of the targets.
func (w *World) pathTo(from *ssa.Function, hit func(*ssa.Function) bool) []*ssa.Function {
	type node struct {
		f    *ssa.Function
		prev *node
	}
	seen := map[*ssa.Function]bool{from: true}
	q := []*node{{from, nil}}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		if hit(n.f) {
			var r []*ssa.Function
			for ; n != nil; n = n.prev {
				r = append([]*ssa.Function{n.f}, r...)
			}
			return r
		}
		var next []*ssa.Function
		Instrs(n.f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				next = append(next, w.callees(ci)...)
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				next = append(next, mc.Fn.(*ssa.Function))
			}
		})
		for _, g := range next {
			if g != nil && !seen[g] && w.InModule(g) && !isMock(g) {
				seen[g] = true
				q = append(q, &node{g, n})
			}
		}
	}
	return nil
}

func chain(fs []*ssa.Function) string {
	var r []string
	for _, f := range fs {
		r = append(r, fnName(f))
	}
	return strings.Join(r, " → ")
}

// dryField: the type is (a pointer to) a request struct that can ask for a dry run.
func dryField(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "DryRun" {
			return true
		}
	}
	return false
}

func ruleT13(c *Ctx) {
	w := c.W
	c.Rule("gate", "in a handler whose request can ask for a dry run, every call that may write, queue, or send anything happens only where the request is known not to ask for one")
	c.Rule("honoured", "a handler whose request can ask for a dry run answers it with a preview")
	c.Rule("pure", "nothing a preview may call writes to the database, queues, sends, or stores anything shared (locks excepted)")
	c.Rule("own", "no function a preview may call writes a package-level variable or a field of the service it belongs to")
	c.Floor("gate", 6)
	c.Floor("honoured", 6)
	c.Floor("pure", 4)
	c.Floor("own", 10)
	eff := w.effectsOf()
	reach := w.Reaches(func(f *ssa.Function) bool { return eff[f] != "" })
	previews := map[*ssa.Function]bool{}
	done := map[*ssa.Function]bool{}
	for _, r := range c.Routes() {
		for _, h := range r.Handlers {
			if done[h] || !inPkg(h, Mod+"/api") {
				continue
			}
			done[h] = true
			has := false
			fs := map[*ssa.Function]bool{h: true}
			for f := range w.ReachableFrom(h) {
				if f.Pkg != nil && f.Pkg.Pkg.Path() == Mod+"/api" {
					fs[f] = true
				}
			}
			for f := range fs {
				Instrs(f, func(in ssa.Instruction) {
					if a, ok := in.(*ssa.Alloc); ok && dryField(a.Type()) && bound(a) {
						has = true
					}
				})
			}
			for f := range w.ReachableFrom(h) {
				if n := fnName(f); n == "(*blnk.Blnk).StartReconciliation" || n == "(*blnk.Blnk).StartInstantReconciliation" {
					has = false // a dry reconciliation is another matter (R02)
				}
			}
			if has {
				c.dryHandler(h, fs, reach, eff, previews)
			}
		}
	}
	for _, p := range sortedFns(previews) {
		path := w.pathTo(p, func(f *ssa.Function) bool { return eff[f] != "" })
		last := ""
		where := w.Pos(p.Pos())
		if path != nil {
			last = eff[path[len(path)-1]]
			where = w.Pos(path[len(path)-1].Pos())
		}
		c.Check(path == nil, "pure", fnName(p), where, "a preview may have an effect (%s): %s", last, chain(path))
	}
	// shared state
	var roots []*ssa.Function
	roots = append(roots, sortedFns(previews)...)
	in := w.ReachableFrom(roots...)
	for _, r := range roots {
		in[r] = true
	}
	svc := map[string]bool{Mod + ".Blnk": true, Mod + ".Queue": true, Mod + "/database.Datasource": true, Mod + "/config.Configuration": true, Mod + ".LineageOutboxProcessor": true}
	for _, f := range sortedFns(in) {
		if !w.InModule(f) || isMock(f) || inPkg(f, Mod+"/internal/lock") || inPkg(f, Mod+"/internal/cache") || inPkg(f, Mod+"/internal/notification") {
			continue
		}
		bad, where := "", w.Pos(f.Pos())
		shared := func(v ssa.Value) string {
			for d := 0; d < 12; d++ {
				if structOfNamed(v.Type()) != "" && svc[structOfNamed(v.Type())] {
					if _, isAlloc := v.(*ssa.Alloc); isAlloc {
						return ""
					}
					return structOfNamed(v.Type())
				}
				switch x := v.(type) {
				case *ssa.Global:
					return x.Name()
				case *ssa.FieldAddr:
					v = x.X
				case *ssa.IndexAddr:
					v = x.X
				case *ssa.UnOp:
					v = x.X
				case *ssa.Field:
					v = x.X
				default:
					return ""
				}
			}
			return ""
		}
		Instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Store:
				if s := shared(x.Addr); s != "" {
					bad, where = s, w.Pos(x.Pos())
				}
			case *ssa.MapUpdate:
				if s := shared(x.Map); s != "" {
					bad, where = s, w.Pos(x.Pos())
				}
			}
		})
		c.Check(bad == "", "own", fnName(f), where, "%s, which previews call, writes the shared %s", fnName(f), bad)
	}
}

// structOfNamed: pkg.Name of the (pointed to) named struct type.
func structOfNamed(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

// bound: the variable is filled from the request's body.
func bound(a *ssa.Alloc) bool {
	var uses func(v ssa.Value, d int) bool
	uses = func(v ssa.Value, d int) bool {
		if d > 3 || v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case ssa.CallInstruction:
				n := ""
				if g := x.Common().StaticCallee(); g != nil {
					n = fnName(g)
				} else if x.Common().IsInvoke() {
					n = x.Common().Method.Name()
				}
				if strings.Contains(n, "Bind") || strings.Contains(n, "Decode") || strings.Contains(n, "Unmarshal") {
					return true
				}
			case *ssa.MakeInterface:
				if uses(x, d+1) {
					return true
				}
			}
		}
		return false
	}
	return uses(a, 0)
}

func (c *Ctx) dryHandler(root *ssa.Function, fs, reach map[*ssa.Function]bool, eff map[*ssa.Function]string, previews map[*ssa.Function]bool) {
	w := c.W
	name := fnName(root)
	en := NewEngine(w)
	en.Relevant = fs
	en.NoInline = func(f *ssa.Function) bool { return !fs[f] }
	isDry := func(t *Term) bool {
		t = t.unconv()
		return t.Op == "load" && t.Args[0].IsField("DryRun") || t.Op == "fieldv" && t.Name == "DryRun"
	}
	dry := func(st *State) string {
		if st.Has("dry") {
			return "true"
		}
		if st.Has("real") {
			return "false"
		}
		return ""
	}
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
		if isDry(cond) {
			if taken {
				st.Add("dry")
			} else {
				st.Add("real")
			}
		}
	}
	bindAt := func(k *Call) bool {
		return strings.Contains(k.Method(), "Bind") && strings.Contains(k.Name, ginPkg)
	}
	answered := false
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		if bindAt(k) {
			st.Add("asked")
			return nil, false
		}
		for _, g := range k.all() {
			if g.Pkg != nil && g.Pkg.Pkg.Path() == Mod+"/api" && k.Kind != "go" && !reach[g] {
				continue
			}
			if fs[g] {
				continue
			}
			d := dry(st)
			if d == "true" && inPkg(g, Mod) && g.Pkg != nil && g.Pkg.Pkg.Path() == Mod {
				if g.Object() != nil && g.Object().Exported() {
					previews[g] = true
					answered = true
				}
			}
			if !reach[g] || isMock(g) {
				continue
			}
			if !w.InModule(g) {
				continue
			}
			path := w.pathTo(g, func(f *ssa.Function) bool { return eff[f] != "" })
			if path == nil {
				continue
			}
			c.Check(d == "false", "gate", name+"|"+fnName(g), w.Pos(k.Site.Pos()), "%s may have an effect (%s, through %s) although the request may ask for a dry run", name, eff[path[len(path)-1]], chain(path))
		}
		return nil, false
	}
	en.Run(root, nil)
	c.Engine(en)
	c.Check(answered, "honoured", name, w.Pos(root.Pos()), "%s binds a request that can ask for a dry run and never answers one", name)
}
