package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["X03"] = ruleX03 }

// cacheRead is one function that answers from the cache or from the store.
type cacheRead struct {
	Root   *ssa.Function
	Prefix string            // literal text the key starts with
	Tables map[string]bool   // tables the answer is read from
	Cols   map[string]string // columns the statement is pinned on
	List   bool              // the answer has several rows
}

func (w *World) reachesCacheOp(ms ...string) map[*ssa.Function]bool {
	direct := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if isMock(f) || inPkg(f, Mod+"/internal/cache") {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			cc := ci.Common()
			n := ""
			if cc.IsInvoke() {
				n = cc.Method.FullName()
			} else if g := cc.StaticCallee(); g != nil {
				n = g.String()
			}
			if !strings.Contains(n, "internal/cache.") {
				return
			}
			for _, m := range ms {
				if strings.HasSuffix(n, "."+m) {
					direct[f] = true
				}
			}
		})
	}
	return direct
}

// read notes the tables of a query and the columns it is pinned on.
func (r *cacheRead) read(s *Stmt) {
	for _, q := range s.All() {
		if q.Kind != "SELECT" {
			continue
		}
		for _, t := range q.From {
			r.Tables[t.Name] = true
		}
		for _, k := range q.Where {
			if m := pinned.FindStringSubmatch(normConj(k)); m != nil {
				r.Cols[m[1]] = m[1]
			}
		}
	}
}

// sources are the parameters of the root (with the fields selected from them) a term is made of.
func sources(root *ssa.Function, t *Term) map[string]bool {
	r := map[string]bool{}
	pre := fnName(root) + "$"
	self := ""
	if root.Signature.Recv() != nil {
		self = pre + "0" // what the receiver is set up with does not change between calls
	}
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if x == nil || seen[x] || len(seen) > 300 {
			return
		}
		seen[x] = true
		if x.Op == "param" {
			if strings.HasPrefix(x.Name, pre) && x.Name != self {
				r[x.Name] = true
			}
			return
		}
		if x.Op == "field" || x.Op == "fieldv" {
			b, fs := x.Path()
			if b != nil && b.Strip().Op == "param" && len(fs) > 0 {
				if n := b.Strip().Name; strings.HasPrefix(n, pre) && n != self {
					r[n+"."+strings.Join(fs, ".")] = true
				}
				return
			}
		}
		if x.Op == "call" && (strings.HasPrefix(x.Name, "(*database/sql.") || strings.Contains(x.Name, "internal/cache.") || strings.Contains(x.Name, "database.IDataSource)")) {
			return // what was asked is noted where it was asked
		}
		for _, a := range append(append([]*Term{}, x.Args...), x.CArg...) {
			rec(a)
		}
	}
	rec(t)
	return r
}

// injective: text conversions that keep different values apart.
var injective = map[string]bool{"strconv.Itoa": true, "strconv.FormatInt": true, "strconv.Quote": true, "net/url.QueryEscape": true}

// same peels what does not make two values one.
func peelText(t *Term) *Term {
	for {
		t = t.Strip()
		in := t
		for n := range injective {
			if t.Name == n && t.Op == "pure" && len(t.Args) > 0 {
				in = t.Args[0]
			}
			if t.Name == n && t.Op == "call" && len(t.CArg) > 0 {
				in = t.CArg[0]
			}
		}
		if t.Name == "fmt.Sprint" && t.Op == "pure" && len(t.Args) == 1 {
			in = t.Args[0]
		}
		if in == t {
			return t
		}
		t = in
	}
}

// template is the text of a key with %s for what is put in, and what is put in.
func (en *Engine) template(st *State, key *Term) (string, []*Term) {
	var b strings.Builder
	var hs []*Term
	for _, p := range en.Text(st, key) {
		if p.Hole != nil {
			b.WriteString("%s")
			hs = append(hs, p.Hole)
		} else {
			b.WriteString(p.Lit)
		}
	}
	return b.String(), hs
}

func litPrefix(tpl string) string {
	s, _, _ := strings.Cut(tpl, "%s")
	return s
}

// nonEmptyTest: what is shown to hold something when the condition goes this way.
func nonEmptyTest(cond *Term, taken bool) *Term {
	if x := emptyTest(cond); x != nil && !taken {
		return x
	}
	if cond.Op == "bin" && cond.Name == "<" && taken {
		if n, ok := cond.Args[0].Int(); ok && n >= 0 && cond.Args[1].Op == "len" {
			return cond.Args[1].Args[0]
		}
	}
	if cond.Op == "bin" && cond.Name == "==" && !taken {
		for i := 0; i < 2; i++ {
			if cond.Args[1-i].Op == "const" && (cond.Args[1-i].Name == "nil" || strings.HasPrefix(cond.Args[1-i].Name, "nil")) {
				return cond.Args[i]
			}
		}
	}
	return nil
}

// ruleX03: cached answers.
func ruleX03(c *Ctx) {
	w := c.W
	c.Rule("key-complete", "what a statement or store call that produces a cached answer is given (its arguments and what its text is chosen by) is itself part of the key the answer is cached under")
	c.Rule("key-injective", "the parts of a key are separated by text, so that different parts do not make the same key")
	c.Rule("key-shared", "an answer is stored under the key it was looked up under")
	c.Rule("key-apart", "keys of different kinds of answers begin with different text")
	c.Rule("hit-is-answer", "an answer is taken from the cache only where the lookup succeeded and is known to have found something, and after the test that chose the stored answer")
	c.Rule("age-bounded", "what is stored in the cache expires")
	c.Rule("evicted", "a change of stored rows that cached answers are read from removes the answers of the rows it changes, old and new, after the change")
	c.Rule("evicted-everywhere", "removing an answer reaches every copy a lookup may be answered from")
	reads := c.cacheReads()
	for i, a := range reads {
		for _, b := range reads[i+1:] {
			clash := strings.HasPrefix(a.Prefix, b.Prefix) || strings.HasPrefix(b.Prefix, a.Prefix)
			same := a.Root == b.Root
			c.Check(!clash || same, "key-apart", a.Prefix+" / "+b.Prefix, w.Pos(a.Root.Pos()), "the keys of %s and %s begin alike", fnName(a.Root), fnName(b.Root))
		}
	}
	c.evictions(reads)
	c.localCopies()
	c.Floor("key-complete", 6)
	c.Floor("key-shared", 6)
	c.Floor("hit-is-answer", 6)
	c.Floor("age-bounded", 6)
	c.Floor("key-apart", 10)
	c.Floor("evicted", 4)
}

// cacheReads checks every function that looks an answer up in the cache and otherwise fetches and stores it.
func (c *Ctx) cacheReads() []*cacheRead {
	w := c.W
	gets, sets := w.reachesCacheOp("Get"), w.reachesCacheOp("Set")
	ops := w.reachesCacheOp("Get", "Set")
	sites := map[*ssa.Function]bool{}
	for _, s := range w.CollectSQL().Sites {
		sites[s.Fn] = true
	}
	fetches := func(f *ssa.Function) bool {
		if sites[f] {
			return true
		}
		r := false
		Instrs(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if cc := ci.Common(); cc.IsInvoke() && typeName(cc.Value.Type()) == "database.IDataSource" {
					r = true
				}
			}
		})
		return r
	}
	static := func(f *ssa.Function) map[*ssa.Function]bool {
		out := map[*ssa.Function]bool{}
		var rec func(g *ssa.Function)
		rec = func(g *ssa.Function) {
			if g == nil || out[g] || !w.InModule(g) || isMock(g) {
				return
			}
			out[g] = true
			Instrs(g, func(in ssa.Instruction) {
				switch x := in.(type) {
				case ssa.CallInstruction:
					rec(x.Common().StaticCallee())
				case *ssa.MakeClosure:
					rec(x.Fn.(*ssa.Function))
				}
			})
		}
		rec(f)
		return out
	}
	full := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if f.Blocks == nil || isMock(f) || inPkg(f, Mod+"/internal/cache") || f.Parent() != nil {
			continue
		}
		g, s, q := false, false, false
		in := static(f)
		for h := range in {
			g, s, q = g || gets[h], s || sets[h], q || fetches(h)
		}
		if g && s && q {
			full[f] = in
		}
	}
	var roots []*ssa.Function
	for f, in := range full {
		min := true
		for h := range in {
			if h != f && full[h] != nil {
				min = false
			}
		}
		if min {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
	// every lookup and every store is inside one of these
	covered := map[*ssa.Function]bool{}
	for _, r := range roots {
		for h := range full[r] {
			covered[h] = true
		}
	}
	for _, m := range []map[*ssa.Function]bool{gets, sets} {
		for f := range m {
			c.Check(covered[f], "key-shared", "site "+fnName(f), w.Pos(f.Pos()), "a cache lookup or store that is not part of a function that looks up, fetches and stores")
		}
	}
	var out []*cacheRead
	for _, root := range roots {
		out = append(out, c.cacheRead(root, full[root], ops)...)
	}
	return out
}

func (c *Ctx) cacheRead(root *ssa.Function, in, ops map[*ssa.Function]bool) []*cacheRead {
	w := c.W
	name := fnName(root)
	where := w.Pos(root.Pos())
	rd := &cacheRead{Root: root, Tables: map[string]bool{}, Cols: map[string]string{}}
	en := NewEngine(w)
	en.Relevant = map[*ssa.Function]bool{}
	for f := range in {
		if f != root && (len(f.Blocks) < 12 || ops[f]) {
			en.Relevant[f] = true
		}
	}
	for _, s := range w.CollectSQL().Sites {
		if in[s.Fn] {
			en.Relevant[s.Fn] = true
			for _, e := range s.Events {
				if e.Stmt != nil {
					rd.read(e.Stmt)
				}
			}
		}
	}
	prefixes := map[string]bool{}
	texts := map[string]bool{}
	type stored struct {
		where, tpl string
		pre        []string
		src        map[string]bool
	}
	var stores []stored
	setConds := map[string]bool{} // what the choice of the stored answer depends on besides the fetch
	type hit struct {
		where string
		conds map[string]bool
	}
	var hits []hit
	ngets, nsets := 0, 0
	note := func(st *State, t *Term) { // something the fetch depends on
		st.vals["need:"+t.key] = t
	}
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		switch {
		case isCacheOp(k, "Get") && len(k.Args) >= 3:
			ngets++
			key, dst := k.Args[len(k.Args)-2], k.Args[len(k.Args)-1].Strip()
			tpl, hs := en.template(st, key)
			prefixes[litPrefix(tpl)] = true
			ok, fail := en.Fork(st, k)
			for _, s := range []*State{ok, fail} {
				s.vals["getkey"] = key
				s.vals["dst"] = dst
				s.vals["got"] = en.Load(s, dst)
			}
			ok.Add("found?")
			bad := ""
			for i, h := range hs {
				n := strings.Index(tpl, "%s%s")
				if i+1 < len(hs) && n >= 0 {
					bad = "two parts of the key stand next to each other"
				}
				_ = h
			}
			if strings.HasPrefix(tpl, "%s") {
				bad = "the key does not begin with text of its own"
			}
			c.Check(bad == "", "key-injective", name+" "+litPrefix(tpl), w.Pos(k.Site.Pos()), "%s: %s", bad, tpl)
			return []*State{ok, fail}, true
		case isCacheOp(k, "Set") && len(k.Args) >= 4:
			nsets++
			n := len(k.Args)
			key, ttl := k.Args[n-3], k.Args[n-1]
			tpl, hs := en.template(st, key)
			prefixes[litPrefix(tpl)] = true
			rd.List = rd.List || listValue(k)
			if gk := st.vals["getkey"]; gk != nil {
				gt, ghs := en.template(st, gk)
				same := gt == tpl && len(ghs) == len(hs)
				for i := range hs {
					same = same && peelText(ghs[i]) == peelText(hs[i])
				}
				c.Check(same, "key-shared", name, w.Pos(k.Site.Pos()), "stored under %s, looked up under %s", tpl, gt)
			} else {
				c.Check(false, "key-shared", name, w.Pos(k.Site.Pos()), "stored without a lookup under the same key")
			}
			v, isConst := ttl.Int()
			c.Check(!isConst || v > 0, "age-bounded", name, w.Pos(k.Site.Pos()), "stored with a lifetime of %v", v)
			holes := map[string]bool{}
			holeSrc := map[string]bool{}
			for _, h := range hs {
				p := peelText(h)
				holes[p.key] = true
				if p.Op == "param" {
					holeSrc[p.Name] = true
				} else if ss := sources(root, p); len(ss) == 1 && (p.Op == "field" || p.Op == "fieldv" || p.Op == "load") {
					for s := range ss {
						holeSrc[s] = true
					}
				}
			}
			nneed := 0
			for _, rk := range sortedKeys(st.vals) {
				if !strings.HasPrefix(rk, "need:") {
					continue
				}
				t := st.vals[rk]
				if holes[peelText(t).key] {
					nneed++
					continue
				}
				for s := range sources(root, t) {
					nneed++
					ok := false
					for q := s; q != ""; {
						ok = ok || holeSrc[q]
						i := strings.LastIndex(q, ".")
						if i < strings.LastIndex(q, "$") {
							break
						}
						q = q[:i]
					}
					c.Check(ok, "key-complete", name, w.Pos(k.Site.Pos()), "the answer depends on %s, which is not part of the key %s", paramName(root, s), tpl)
				}
			}
			c.Ok("key-complete", name, w.Pos(k.Site.Pos()))
			sd := stored{w.Pos(k.Site.Pos()), tpl, nil, holeSrc}
			for _, f := range st.Facts() {
				if s, ok := strings.CutPrefix(f, "pre:"); ok {
					sd.pre = append(sd.pre, s)
				}
			}
			stores = append(stores, sd)
			for _, f := range st.Facts() {
				if s, ok := strings.CutPrefix(f, "cond:"); ok && !holeSrc[s] {
					setConds[s] = true
				}
			}
		}
		if ev := en.SQLOf(st, k); ev != nil {
			for _, p := range ev.Text {
				if p.Hole != nil {
					note(st, p.Hole)
				}
			}
			texts[Flat(ev.Text)] = true
			for _, a := range ev.Args {
				note(st, a)
			}
			st.Add("fetched")
			st.Del("found?")
			return nil, false
		}
		if typeName(recvType(k)) == "database.IDataSource" {
			ps := k.Sig.Params()
			off := len(k.Args) - ps.Len()
			for i := 0; i < ps.Len(); i++ {
				if ps.At(i).Type().String() != "context.Context" && i+off >= 0 {
					note(st, k.Args[i+off])
				}
			}
			for _, t := range k.Targets {
				if isMock(t) {
					continue
				}
				for _, s := range w.stmtsOf(t) {
					rd.read(s)
				}
			}
			st.Add("fetched")
			st.Del("found?")
		}
		return nil, false
	}
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
		if !st.Has("fetched") {
			for s := range sources(root, cond) {
				st.Add("pre:" + s)
			}
		}
		dst := st.vals["dst"]
		if dst == nil {
			return
		}
		if x := nonEmptyTest(cond, taken); x != nil && st.Has("found?") && deepMention(x, func(y *Term) bool { return y == dst || y == st.vals["got"] }) {
			st.Add("something")
		}
		if st.Has("found?") || st.Has("fetched") {
			for s := range sources(root, cond) {
				st.Add("cond:" + s)
			}
		}
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		if len(res) == 0 || st.vals["dst"] == nil || st.Has("fetched") {
			return
		}
		if k := en.kind(st, res[len(res)-1]); k == "nonnil" {
			return
		}
		h := hit{w.Pos(in.Pos()), map[string]bool{}}
		for _, fc := range st.Facts() {
			if s, ok := strings.CutPrefix(fc, "cond:"); ok {
				h.conds[s] = true
			}
		}
		hits = append(hits, h)
		c.Check(st.Has("found?") && st.Has("something"), "hit-is-answer", name, w.Pos(in.Pos()), "answers from the cache without knowing that something was found there")
	}
	en.Run(root, nil)
	c.Engine(en)
	c.Check(ngets > 0 && nsets > 0, "key-shared", name, where, "the lookup or the store was not reached by the analysis")
	if len(texts) > 1 { // which statement is sent depends on the tests before it
		for _, sd := range stores {
			for _, s := range sd.pre {
				c.Check(sd.src[s], "key-complete", name, sd.where, "the statement is chosen by %s, which is not part of the key %s", paramName(root, s), sd.tpl)
			}
		}
	}
	for _, s := range sortedKeys(setConds) {
		for _, h := range hits {
			c.Check(h.conds[s], "hit-is-answer", name, h.where, "the stored answer was chosen by a test on %s, which the answer from the cache is not put to", paramName(root, s))
		}
	}
	var out []*cacheRead
	for p := range prefixes {
		r := *rd
		r.Prefix = p
		out = append(out, &r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Prefix < out[j].Prefix })
	return out
}

func recvType(k *Call) types.Type {
	if k.Site == nil {
		return nil
	}
	if ci, ok := k.Site.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
		return ci.Common().Value.Type()
	}
	return nil
}

// listValue: what is stored has several rows (or is not known not to).
func listValue(k *Call) bool {
	ci, ok := k.Site.(ssa.CallInstruction)
	if !ok || len(ci.Common().Args) < 2 {
		return true
	}
	v := ci.Common().Args[len(ci.Common().Args)-2]
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		return true
	}
	ty := mi.X.Type().Underlying()
	if p, ok := ty.(*types.Pointer); ok {
		ty = p.Elem().Underlying()
	}
	_, one := ty.(*types.Struct)
	return !one
}

func paramName(root *ssa.Function, s string) string {
	i := strings.LastIndex(s, "$")
	var n int
	fmt.Sscanf(s[i+1:], "%d", &n)
	rest := ""
	if j := strings.Index(s[i:], "."); j >= 0 {
		rest = s[i+j:]
	}
	if n < len(root.Params) {
		return root.Params[n].Name() + rest
	}
	return s
}

var pinned = regexp.MustCompile(`^(?:[a-z_]+\.)?([a-z_]+) = \$[0-9]+$`)

// evictions: writes to tables that cached answers are read from.
func (c *Ctx) evictions(reads []*cacheRead) {
	w := c.W
	dels := w.reachesCacheOp("Delete")
	direct, _ := w.SQLEffects()
	for _, rd := range reads {
		for _, table := range sortedKeys(rd.Tables) {
			type wr struct {
				f *ssa.Function
				e WriteEff
			}
			var ws []wr
			inserts := true
			for _, f := range w.Funcs {
				if isMock(f) || !inPkg(f, Mod+"/database") {
					continue
				}
				for e := range direct[f] {
					if e.Table != table || e.Kind == "UPDATE" && e.Cols == "last_used_at" {
						continue // last_used_at: bookkeeping, read by no decision
					}
					if e.Kind == "INSERT" || e.Kind == "COPY" {
						if !rd.List {
							continue // an answer of one row that was found is not changed by another row
						}
					} else {
						inserts = false
					}
					ws = append(ws, wr{f, e})
				}
			}
			if len(ws) == 0 {
				continue
			}
			if inserts && len(rd.Cols) > 0 {
				// rows are only ever added, under the identifier the answers are keyed by: complete before the identifier is known
				c.Ok("evicted", rd.Prefix+" "+table+" (append-only)", w.Pos(rd.Root.Pos()))
				continue
			}
			roots := map[*ssa.Function]map[*ssa.Function]bool{}
			any := false
			for _, x := range ws {
				reach := w.ReachableFrom(x.f)
				self := false
				for g := range reach {
					self = self || dels[g]
				}
				rs := map[*ssa.Function]bool{x.f: true}
				if !self {
					rs = w.topsOf(map[*ssa.Function]bool{x.f: true})
				}
				for r := range rs {
					if roots[r] == nil {
						roots[r] = map[*ssa.Function]bool{}
					}
					roots[r][x.f] = true
					for g := range w.ReachableFrom(r) {
						any = any || dels[g]
					}
				}
			}
			if !any {
				c.Check(false, "evicted", rd.Prefix, w.Pos(rd.Root.Pos()), "answers are read from %s, which is written, and none is ever removed", table)
				continue
			}
			var names []*ssa.Function
			for r := range roots {
				names = append(names, r)
			}
			sort.Slice(names, func(i, j int) bool { return names[i].String() < names[j].String() })
			for _, r := range names {
				c.evicts(r, rd, table, roots[r])
			}
		}
	}
}

func (c *Ctx) evicts(root *ssa.Function, rd *cacheRead, table string, writers map[*ssa.Function]bool) {
	w := c.W
	name := fnName(root) + " " + rd.Prefix
	direct, _ := w.SQLEffects()
	en := NewEngine(w)
	en.Relevant = map[*ssa.Function]bool{}
	dels := w.reachesCacheOp("Delete")
	rel := w.Reaches(func(f *ssa.Function) bool { return writers[f] || dels[f] })
	keyFn := func(f *ssa.Function) bool { // small helpers that make a key
		rs := f.Signature.Results()
		return rs.Len() == 1 && rs.At(0).Type().String() == "string" && len(f.Blocks) <= 4
	}
	for f := range w.ReachableFrom(root) {
		if (rel[f] || keyFn(f)) && !isMock(f) && w.InModule(f) {
			en.Relevant[f] = true
		}
	}
	selects := func(k *Call) bool { // a read of the table
		for _, t := range append([]*ssa.Function{k.Fn}, k.Targets...) {
			if t == nil || isMock(t) || !inPkg(t, Mod+"/database") {
				continue
			}
			for _, s := range w.stmtsOf(t) {
				for _, q := range s.All() {
					for _, f := range q.From {
						if q.Kind == "SELECT" && f.Name == table {
							return true
						}
					}
				}
			}
		}
		return false
	}
	written := func(st *State, e WriteEff) {
		st.DelPrefix("del:")
		st.Add("wrote:" + e.Kind)
		for _, col := range strings.Split(e.Cols, ",") {
			if rd.Cols[col] != "" {
				st.Add("moved")
			}
		}
	}
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		if isCacheOp(k, "Delete") {
			tpl, hs := en.template(st, k.Args[len(k.Args)-1])
			if litPrefix(tpl) == rd.Prefix {
				for _, h := range hs {
					old := false
					for _, rk := range sortedKeys(st.vals) {
						if v := st.vals[rk]; strings.HasPrefix(rk, "old:") && deepMention(h, func(y *Term) bool { return y == v }) {
							old = true
						}
					}
					if old {
						st.Add("del:old")
					} else {
						st.Add("del:new")
					}
				}
			}
			return nil, false
		}
		if ev := en.SQLOf(st, k); ev != nil && root == k.F.Fn || en.SQLOf(st, k) != nil && writers[k.F.Fn] {
			if s := parseSQL(Flat(en.SQLOf(st, k).Text)); s != nil {
				for _, q := range s.All() {
					if q.Table == table && (q.Kind == "UPDATE" || q.Kind == "INSERT" || q.Kind == "DELETE") {
						for f := range writers {
							for e := range direct[f] {
								if e.Table == table && e.Kind == q.Kind {
									written(st, e)
								}
							}
						}
					}
				}
			}
			return nil, false
		}
		if k.Iface == "" && k.Fn != nil && en.Relevant[k.Fn] {
			return nil, false
		}
		hitW := false
		var es []WriteEff
		for _, t := range append([]*ssa.Function{k.Fn}, k.Targets...) {
			if t == nil || isMock(t) {
				continue
			}
			for f := range w.ReachableFrom(t) {
				if writers[f] {
					hitW = true
					for e := range direct[f] {
						if e.Table == table {
							es = append(es, e)
						}
					}
				}
			}
		}
		if hitW {
			ok, fail := en.Fork(st, k)
			for _, e := range es {
				written(ok, e)
			}
			return []*State{ok, fail}, true
		}
		if selects(k) && !st.HasPrefix("wrote:") {
			ok, fail := en.Fork(st, k)
			t := en.Res(ok, k, 0)
			ok.vals["old:"+t.key] = t
			fail.Add("nolookup")
			return []*State{ok, fail}, true
		}
		return nil, false
	}
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
		t := cond.unconv()
		if !taken && (t.Op == "load" && t.Args[0].IsField("Valid") || t.Op == "fieldv" && t.Name == "Valid") {
			st.Add("nokey") // the row has no value to make a key of
		}
		if cond.Op == "bin" && cond.Name == "==" && taken {
			for i := 0; i < 2; i++ {
				x := cond.Args[i].unconv()
				if x.Op == "load" && x.Args[0].IsField("Cache") && en.kind(st, cond.Args[1-i]) == "nil" {
					st.Add("nokey")
				}
				for _, rk := range sortedKeys(st.vals) {
					if v := st.vals[rk]; strings.HasPrefix(rk, "old:") && deepMention(x, func(y *Term) bool { return y == v }) {
						o := cond.Args[1-i]
						if en.kind(st, o) == "nil" || !o.IsConst() && !deepMention(o, func(y *Term) bool { return y == v }) {
							st.Add("unmoved") // no old row, or its key is the new one
						}
					}
				}
			}
		}
	}
	seen := false
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		if len(res) > 0 && en.kind(st, res[len(res)-1]) == "nonnil" || !st.HasPrefix("wrote:") {
			return
		}
		seen = true
		where := w.Pos(in.Pos())
		if st.Has("nokey") {
			c.Ok("evicted", name, where)
			return
		}
		newGone, oldGone := st.Has("del:new"), st.Has("del:old")
		if !rd.List {
			c.Check(newGone || oldGone, "evicted", name, where, "rows of %s change and the cached answer stays", table)
			return
		}
		if st.Has("wrote:INSERT") {
			c.Check(newGone, "evicted", name, where, "a row is added to %s and the cached answer for it stays", table)
		}
		if st.Has("wrote:DELETE") || st.Has("wrote:UPDATE") && !st.Has("moved") {
			c.Check(oldGone, "evicted", name, where, "rows of %s change and the cached answer they are part of stays", table)
		}
		if st.Has("moved") {
			c.Check(newGone, "evicted", name, where, "rows of %s are moved and the cached answer of where they are moved to stays", table)
			c.Check(oldGone || st.Has("unmoved") || st.Has("nolookup"), "evicted", name+" moved from", where, "rows of %s are moved and the cached answer of where they were stays", table)
		}
	}
	en.Run(root, nil)
	c.Engine(en)
	c.Check(seen, "evicted", name, w.Pos(root.Pos()), "the write was not reached by the analysis")
}

// localCopies: a cache that also keeps answers in the process cannot be told by another process to drop them.
func (c *Ctx) localCopies() {
	w := c.W
	n := 0
	for _, f := range w.Funcs {
		if isMock(f) {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || typeName(fa.X.Type()) != "github.com/go-redis/cache/v9.Options" || fieldName(fa.X.Type(), fa.Field) != "LocalCache" {
				return
			}
			if k, ok := st.Val.(*ssa.Const); ok && k.IsNil() {
				return
			}
			n++
			c.Check(false, "evicted-everywhere", "cache.Options.LocalCache", w.Pos(in.Pos()), "answers are also kept in the memory of each process, where a removal by another process does not reach them")
		})
	}
	if n == 0 {
		c.Ok("evicted-everywhere", "cache.Options.LocalCache", "")
	}
}
