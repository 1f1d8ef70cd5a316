package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["T03"] = ruleT03; rules["T04"] = ruleT04 }

const lockPkg = Mod + "/internal/lock"

func inPkg(f *ssa.Function, path string) bool {
	p := fnPkg(f)
	return p != nil && p.Path() == path
}

// lockAcquire/lockRelease classify the lock package's exported operations.
func lockOp(c *Call) (op string, locker *Term) {
	if c.Fn == nil || !inPkg(c.Fn, lockPkg) || len(c.Args) == 0 || c.Sig.Recv() == nil {
		return "", nil
	}
	switch c.Fn.Name() {
	case "Lock", "WaitLock":
		return "lock", c.Args[0]
	case "Unlock":
		return "unlock", c.Args[0]
	case "ExtendLock":
		return "extend", c.Args[0]
	}
	return "", nil
}

func isLockPrim(f *ssa.Function) bool {
	if !inPkg(f, lockPkg) || f.Signature.Recv() == nil {
		return false
	}
	return f.Name() == "Lock" || f.Name() == "WaitLock"
}

func isUnlockPrim(f *ssa.Function) bool {
	return inPkg(f, lockPkg) && f.Signature.Recv() != nil && f.Name() == "Unlock"
}

// deepCall: the term was produced (through arguments) by a call of one of the names.
func deepCall(t *Term, names ...string) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] || len(seen) > 300 {
			return false
		}
		seen[x] = true
		if x.Op == "call" || x.Op == "pure" {
			for _, n := range names {
				if x.Name == n {
					return true
				}
			}
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		for _, a := range x.CArg {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// redisCmd: the name of a command sent through a redis client ("" when it is none).
func redisCmd(c *Call) string {
	n := c.Iface
	if n == "" {
		n = c.Name
	}
	if !strings.Contains(n, "redis/go-redis") {
		return ""
	}
	i := strings.LastIndex(n, ").")
	if i < 0 {
		return ""
	}
	recv := n[:i]
	if strings.HasSuffix(recv, "Client") || strings.HasSuffix(recv, "Cmdable") || strings.HasSuffix(recv, "Pipeliner") || strings.HasSuffix(recv, "cmdable") || strings.HasSuffix(recv, "Tx") {
		return n[i+2:]
	}
	return ""
}

var redisReads = map[string]bool{"Get": true, "TTL": true, "PTTL": true, "Exists": true, "Ping": true, "Context": true, "Type": true, "Close": true, "Pipeline": true, "TxPipeline": true}

var luaSpace = regexp.MustCompile(`\s+`)

// ownerScript checks a Lua script: the only modifying command follows a comparison of the stored value with the owner's, and otherwise 0 is answered.
func ownerScript(s string) string {
	t := strings.ToLower(s)
	t = strings.ReplaceAll(t, `"`, `'`)
	t = luaSpace.ReplaceAllString(t, " ")
	for _, p := range []string{" (", "( ", " )", " ,", ", ", " ==", "== "} {
		t = strings.ReplaceAll(t, p, strings.TrimSpace(p))
	}
	t = strings.TrimSpace(t)
	t = strings.ReplaceAll(t, "redis.pcall", "redis.call")
	guard := regexp.MustCompile(`^if ?(?:redis\.call\('get',keys\[1\]\)==argv\[1\]|argv\[1\]==redis\.call\('get',keys\[1\]\)) ?then return redis\.call\('(del|unlink|pexpire|expire)',keys\[1\](?:,argv\[2\])?\) ?(?:else return (?:0|-1|false|nil) ?end|end ?;? ?return (?:0|-1|false|nil))$`)
	m := guard.FindStringSubmatch(strings.TrimSpace(t))
	if m == nil {
		return ""
	}
	return m[1]
}

func ruleT04(c *Ctx) {
	w := c.W
	c.Rule("take", "a single lock is taken only by SETNX of the locker's own key and token with the caller's expiry, and success is reported only when the reply said it was set; a lock taken is never reported as failure")
	c.Rule("owner", "a lock is released or extended only by a script that compares the stored token with the locker's own before modifying the key; a reply that nothing was done is reported as failure; a release does not depend on the caller's context being alive")
	c.Rule("all", "a multi-lock reports success only after every one of its locks was taken, and failure only after exactly those already taken were released; its release covers all of them")
	c.Rule("order", "the lockers of a multi-lock are built from its keys after duplicates were dropped and the keys were sorted")
	c.Rule("redis", "the lock package sends no other modifying command")
	c.Rule("token", "every locker is created with a token made by a unique generator in the same operation")
	c.Rule("expiry", "every lock is taken with an expiry that is configured or a positive constant")
	c.Rule("no-leak", "on every way out of code that took a lock the lock was released, or the locker is handed to the caller")
	c.Floor("take", 2)
	c.Floor("owner", 2)
	c.Floor("all", 4)
	c.Floor("order", 1)
	c.Floor("token", 6)
	c.Floor("expiry", 3)
	c.Floor("no-leak", 8)

	var single, multi []*ssa.Function
	var ctor *ssa.Function
	for _, f := range w.Funcs {
		if !inPkg(f, lockPkg) || f.Blocks == nil || f.Parent() != nil {
			continue
		}
		if f.Name() == "NewMultiLocker" {
			ctor = f
		}
		if f.Signature.Recv() == nil || !f.Object().Exported() {
			continue
		}
		if strings.HasSuffix(typeName(f.Signature.Recv().Type()), "MultiLocker") {
			multi = append(multi, f)
		} else if strings.HasSuffix(typeName(f.Signature.Recv().Type()), "Locker") {
			single = append(single, f)
		}
	}
	if ctor == nil {
		c.Fail("order", "NewMultiLocker", "", "anchor not found")
		return
	}
	for _, f := range single {
		c.singleLocker(f)
	}
	for _, f := range multi {
		c.multiLocker(f)
	}
	c.multiCtor(ctor)
	c.lockCallers()
}

// recvField: the term is the content of a string field of the receiver; the field name is returned.
func recvField(t *Term, f *ssa.Function) string {
	t = t.unconv()
	if t == nil || t.Op != "load" || t.Args[0].Op != "field" {
		return ""
	}
	b := t.Args[0].Args[0]
	if b.Op == "param" && b.V == f.Params[0] {
		return t.Args[0].Name
	}
	return ""
}

func (c *Ctx) singleLocker(root *ssa.Function) {
	w := c.W
	en := NewEngine(w)
	en.Relevant = map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if inPkg(f, lockPkg) {
			en.Relevant[f] = true
		}
	}
	name := fnName(root)
	var keyF, valF string
	field := func(t *Term, dst *string, what, rule string, in ssa.Instruction) {
		n := recvField(t, root)
		c.Check(n != "" && (*dst == "" || *dst == n), rule, name+" "+what, w.Pos(in.Pos()), "%s is %s, not the locker's own %s", what, t, what)
		if n != "" {
			*dst = n
		}
	}
	exclusive := strings.Contains(root.Name(), "Unlock")
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		switch cmd := redisCmd(k); {
		case cmd == "":
		case cmd == "SetNX" && len(k.Args) == 5:
			field(k.Args[2], &keyF, "key", "take", k.Site)
			field(k.Args[3], &valF, "token", "take", k.Site)
			c.Check(keyF != valF, "take", name+" key and token differ", w.Pos(k.Site.Pos()), "key and token are the same")
			e := k.Args[4].unconv()
			n, isc := e.Int()
			c.Check(e.Op == "param" || isc && n > 0, "take", name+" expiry", w.Pos(k.Site.Pos()), "the expiry is %s, neither the caller's nor a positive constant", e)
			en.opaque(k.F, st, k)
			return []*State{st}, true
		case cmd == "Eval" && len(k.Args) >= 4:
			s, ok := k.Args[2].Str()
			what := ""
			if ok {
				what = ownerScript(s)
			}
			c.Check(what != "", "owner", name+" script", w.Pos(k.Site.Pos()), "the script does not modify the key only after comparing its value with the owner's token")
			wantDel := exclusive
			c.Check(what == "" || (what == "del" || what == "unlink") == wantDel, "owner", name+" command", w.Pos(k.Site.Pos()), "the script runs %q", what)
			keys, ok1 := en.VarArgs(st, k.Args[3])
			args, ok2 := en.VarArgs(st, k.Args[4])
			if ok1 && len(keys) == 1 {
				field(keys[0], &keyF, "key", "owner", k.Site)
			} else {
				c.Fail("owner", name+" key", w.Pos(k.Site.Pos()), "the script is given %s as keys", k.Args[3])
			}
			if ok2 && len(args) > 0 {
				field(args[0], &valF, "token", "owner", k.Site)
			} else {
				c.Fail("owner", name+" token", w.Pos(k.Site.Pos()), "the script is given no owner token")
			}
			if what == "expire" {
				c.Fail("owner", name+" unit", w.Pos(k.Site.Pos()), "the script extends in seconds what is given in milliseconds")
			}
			if exclusive {
				raw := k.Args[1].Strip()
				c.Check(raw.Op != "param" && (deepCall(k.Args[1], "context.WithoutCancel", "context.Background", "context.TODO")), "owner", name+" context", w.Pos(k.Site.Pos()), "the release is sent with a context that ends with the caller's")
			}
			en.opaque(k.F, st, k)
			r := en.Res(st, k, 0)
			st.vals["eval"] = r
			return []*State{st}, true
		case redisReads[cmd]:
		default:
			c.Fail("redis", name+" "+cmd, w.Pos(k.Site.Pos()), "the lock package sends %s", cmd)
		}
		// replies
		if k.Fn == nil && k.Iface == "" {
			return nil, false
		}
		if len(k.Args) == 0 || k.Args[0] == nil {
			return nil, false
		}
		recv := k.Args[0]
		isCmd := func(cmd string) bool {
			return recv.Op == "call" && strings.HasSuffix(recv.Name, ")."+cmd)
		}
		m := k.Method()
		if isCmd("SetNX") && (m == "Result" || m == "Val") {
			en.opaque(k.F, st, k)
			set := en.Res(st, k, 0)
			y, n, e := st, st.Clone(), st.Clone()
			y.known[set.key] = knownRec{"true", set}
			n.known[set.key] = knownRec{"false", set}
			y.Add("taken")
			n.Add("refused")
			e.Add("failed")
			if m == "Val" {
				e.known[set.key] = knownRec{"false", set}
				return []*State{y, n, e}, true
			}
			er := en.Res(st, k, 1)
			y.known[er.key] = knownRec{"nil", er}
			n.known[er.key] = knownRec{"nil", er}
			e.known[er.key] = knownRec{"nonnil", er}
			e.known[set.key] = knownRec{"false", set}
			return []*State{y, n, e}, true
		}
		if isCmd("Eval") && strings.Contains("Result Int64 Int Bool Text", m) {
			en.opaque(k.F, st, k)
			ok, fail := st, st.Clone()
			ok.Add("ran")
			fail.Add("failed")
			r := en.Res(ok, k, 0)
			ok.vals["reply"] = r
			if m == "Bool" {
				fail2 := ok.Clone()
				ok.known[r.key] = knownRec{"true", r}
				ok.Add("done")
				fail2.known[r.key] = knownRec{"false", r}
				er := en.Res(st, k, 1)
				ok.known[er.key] = knownRec{"nil", er}
				fail.known[er.key] = knownRec{"nonnil", er}
				return []*State{ok, fail, fail2}, true
			}
			er := en.Res(st, k, 1)
			ok.known[er.key] = knownRec{"nil", er}
			fail.known[er.key] = knownRec{"nonnil", er}
			return []*State{ok, fail}, true
		}
		return nil, false
	}
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
		r := st.vals["reply"]
		if r == nil || cond.Op != "bin" {
			return
		}
		for i := 0; i < 2; i++ {
			if cond.Args[i].Strip() != r.Strip() && !cond.Args[i].Mentions(func(t *Term) bool { return t == r }) {
				continue
			}
			n, isc := cond.Args[1-i].unconv().Int()
			if !isc {
				continue
			}
			if cond.Name == "==" && (n == 0 && !taken || n == 1 && taken) || cond.Name == "!=" && (n == 0 && taken || n == 1 && !taken) || cond.Name == "<" && (i == 1 && n == 0 && taken || i == 0 && n == 1 && !taken) {
				st.Add("done")
			}
		}
	}
	ei := ErrIndex(root.Signature)
	if ei < 0 {
		return
	}
	rule := "take"
	if exclusive || root.Name() == "ExtendLock" {
		rule = "owner"
	}
	seen := false
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		kd := en.Kind(st, res[ei])
		if rule == "take" {
			if kd != "nonnil" && !st.Has("taken") {
				c.Fail("take", name+" success", w.Pos(in.Pos()), "success is reported on a path on which the lock was not taken")
			}
			if kd != "nil" && st.Has("taken") {
				c.Fail("take", name+" failure", w.Pos(in.Pos()), "failure is reported on a path on which the lock was taken (it stays taken)")
			}
		} else if kd != "nonnil" && !st.Has("done") {
			c.Fail("owner", name+" success", w.Pos(in.Pos()), "success is reported although nothing was found to be released or extended")
		}
		seen = true
	}
	en.Run(root, nil)
	if seen {
		c.Ok(rule, name+" success", w.Pos(root.Pos()))
	}
	c.Engine(en)
}

// multiLocker checks Lock, WaitLock and Unlock of a set of lockers.
func (c *Ctx) multiLocker(root *ssa.Function) {
	w := c.W
	name := fnName(root)
	ei := ErrIndex(root.Signature)
	if ei < 0 {
		return
	}
	en := NewEngine(w)
	en.Relevant = map[*ssa.Function]bool{}
	isSingle := func(f *ssa.Function) bool {
		return f.Signature.Recv() != nil && strings.HasSuffix(typeName(f.Signature.Recv().Type()), ".Locker")
	}
	for _, f := range w.Funcs {
		if inPkg(f, lockPkg) && !isSingle(f) {
			en.Relevant[f] = true
		}
	}
	// loops over lockers, per frame
	type loopInfo struct {
		cov *coverage
	}
	lockLoop := map[*ssa.BasicBlock]*loopInfo{}
	unlockLoop := map[string]*loopInfo{}
	loopOf := func(f *Frame, v ssa.Value) *coverage { return vctxOf(f).covers(v) }
	scanned := map[*Frame]map[*ssa.BasicBlock]string{}
	scan := func(f *Frame) map[*ssa.BasicBlock]string {
		if r, ok := scanned[f]; ok {
			return r
		}
		r := map[*ssa.BasicBlock]string{}
		Instrs(f.Fn, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			g := ci.Common().StaticCallee()
			if g == nil || !inPkg(g, lockPkg) || !isSingle(g) || len(ci.Common().Args) == 0 {
				return
			}
			cov := loopOf(f, ci.Common().Args[0])
			if cov == nil || !eachTurn(cov.Header, in.Block()) {
				return
			}
			switch {
			case isLockPrim(g):
				r[cov.Header] = "lock"
				lockLoop[cov.Header] = &loopInfo{cov}
			case isUnlockPrim(g):
				r[cov.Header] = "unlock"
				unlockLoop[fmt.Sprintf("%d/%d", f.ID, cov.Header.Index)] = &loopInfo{cov}
			}
		})
		scanned[f] = r
		return r
	}
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		if k.Fn == nil || !inPkg(k.Fn, lockPkg) || !isSingle(k.Fn) {
			return nil, false
		}
		switch {
		case isLockPrim(k.Fn):
			cov := loopOf(k.F, k.Site.(ssa.CallInstruction).Common().Args[0])
			c.Check(cov != nil, "all", name+" lockers visited", w.Pos(k.Site.Pos()), "a lock is taken outside a loop over the set's lockers")
			ok, fail := en.Fork(st, k)
			fail.Add("lock-failed")
			ok.Add("took")
			if cov != nil {
				fail.vals["at"] = en.mk("const", cov.Index.plus(cov.Whole.lo, 1).String(), nil, nil)
			}
			return []*State{ok, fail}, true
		case isUnlockPrim(k.Fn):
			en.opaque(k.F, st, k)
			return []*State{st}, true
		}
		return nil, false
	}
	en.H.Edge = func(en *Engine, st *State, b, to *ssa.BasicBlock, f *Frame) {
		in := b.Instrs[len(b.Instrs)-1]
		kind := scan(f)[b]
		if kind == "" {
			return
		}
		var cov *coverage
		if kind == "lock" {
			cov = lockLoop[b].cov
		} else {
			cov = unlockLoop[fmt.Sprintf("%d/%d", f.ID, b.Index)].cov
		}
		if to != cov.Exit {
			return // goes on
		}
		if kind == "lock" {
			if cov.whole() {
				st.Add("all-locked")
			} else {
				c.Fail("all", name+" lockers visited", w.Pos(in.Pos()), "the locking loop visits [%s,%s) of the lockers, not all", cov.Lo, cov.Hi)
			}
			return
		}
		if cov.whole() {
			st.Add("all-unlocked")
		}
		if at, ok := st.vals["at"]; ok && len(cov.Lo) == 0 && (at.Name == cov.Hi.String()) {
			st.Add("rolled-back")
		}
	}
	isUnlock := root.Name() == "Unlock"
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		kd := en.Kind(st, res[ei])
		if isUnlock {
			c.Check(st.Has("all-unlocked"), "all", name+" releases all", w.Pos(in.Pos()), "the release can end without having visited every lock")
			return
		}
		if kd != "nonnil" {
			c.Check(st.Has("all-locked"), "all", name+" success", w.Pos(in.Pos()), "success is reported on a path on which not every lock was taken")
		}
		if st.Has("lock-failed") && kd != "nonnil" && !st.Has("all-locked") {
			c.Fail("all", name+" failure", w.Pos(in.Pos()), "a lock that could not be taken is reported as success")
		}
		if kd != "nil" && st.Has("lock-failed") {
			c.Check(st.Has("rolled-back"), "all", name+" rollback", w.Pos(in.Pos()), "a failure is reported without having released exactly the locks already taken")
		}
		if kd != "nil" && st.Has("all-locked") {
			c.Fail("all", name+" failure", w.Pos(in.Pos()), "failure is reported although every lock was taken (they stay taken)")
		}
	}
	// a retry loop starts a new attempt: facts of the previous one end when it was rolled back
	en.H.AfterCall = func(en *Engine, st *State, k *Call) {
		if k.Fn != nil && isLockPrim(k.Fn) && !isSingle(k.Fn) && st.Has("lock-failed") && st.Has("rolled-back") {
			st.Del("lock-failed")
			st.Del("rolled-back")
			delete(st.vals, "at")
			st.Del("took")
		}
	}
	en.Run(root, nil)
	c.Engine(en)
}

// multiCtor: sorted, duplicate-free lockers.
func (c *Ctx) multiCtor(root *ssa.Function) {
	w := c.W
	en := NewEngine(w)
	en.Relevant = map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if inPkg(f, lockPkg) {
			en.Relevant[f] = true
		}
	}
	name := fnName(root)
	sorts := map[string]int{"sort.Strings": 0, "slices.Sort": 0, "sort.Sort": 0, "sort.Slice": 0}
	made := false
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		n := k.Name
		if i := strings.Index(n, "["); i > 0 {
			n = n[:i]
		}
		if _, ok := sorts[n]; ok && len(k.Args) > 0 {
			st.Add("sorted:" + k.Args[0].Strip().key)
			return nil, false
		}
		if n == "slices.Compact" && len(k.Args) > 0 {
			en.opaque(k.F, st, k)
			if st.Has("sorted:" + k.Args[0].Strip().key) {
				r := en.Res(st, k, 0)
				st.Add("sorted:" + r.key)
				st.Add("unique:" + r.key)
			}
			return []*State{st}, true
		}
		if k.Name == "append" {

			st.DelPrefix("sorted:" + k.Args[0].Strip().key)
			if va, ok := en.VarArgs(st, k.Args[1]); ok && len(va) == 1 {
				if st.Has("new:" + va[0].key) {
					st.Add("dedup")
				} else {
					st.Add("undup")
				}
				st.Add("todo:" + va[0].key)
			}
		}
		if k.Fn != nil && k.Fn.Name() == "NewLocker" && inPkg(k.Fn, lockPkg) {
			made = true
			cov := vctxOf(k.F).covers(k.Site.(ssa.CallInstruction).Common().Args[1])
			key := k.Args[1].Strip()
			var base *Term
			if key.Op == "load" {
				key = key.Args[0]
			}
			if key.Op == "index" {
				base = key.Args[0].Strip()
			}
			c.Check(cov.whole(), "order", name+" every key", w.Pos(k.Site.Pos()), "the lockers are not built from every key")
			c.Check(base != nil && st.Has("sorted:"+base.key), "order", name+" sorted", w.Pos(k.Site.Pos()), "the lockers are built from keys that were not sorted")
			c.Check(base != nil && (st.Has("unique:"+base.key) || !st.Has("undup")), "order", name+" unique", w.Pos(k.Site.Pos()), "the lockers are built from keys that may contain duplicates")
			c.Check(k.Args[2].Strip().Op == "param", "order", name+" token", w.Pos(k.Site.Pos()), "a locker is built with another token than the set's")
		}
		return nil, false
	}
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
		neg := false
		for cond.Op == "un" && cond.Name == "!" {
			cond = cond.Args[0]
			neg = !neg
		}
		lk := cond
		if cond.Op == "res" && cond.Name == "ok" {
			lk = cond.Args[0]
		}
		if lk.Op == "lookup" && taken == neg {
			st.Add("new:" + lk.Args[1].key)
			st.vals["set:"+lk.Args[1].key] = lk.Args[0]
		}
	}
	en.H.MapUpd = func(en *Engine, st *State, m, k, v *Term, in ssa.Instruction, f *Frame) {
		if s := st.vals["set:"+k.key]; s == m {
			st.Del("todo:" + k.key)
			st.Add("marked:" + k.key)
		}
		if kd := en.Kind(st, v); kd == "false" {
			c.Fail("order", name+" unique", w.Pos(in.Pos()), "a key already seen is marked as not seen")
		}
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		for _, x := range st.Facts() {
			if strings.HasPrefix(x, "todo:") && !st.HasPrefix("unique:") && !st.Has("marked:"+x[5:]) {
				c.Fail("order", name+" unique", w.Pos(in.Pos()), "a key is added without being marked as seen")
			}
		}
	}
	en.Run(root, nil)
	c.Check(made, "order", name+" lockers", w.Pos(root.Pos()), "no locker is built")
	c.Engine(en)
}

// origins walks a value backwards through parameters to the values it comes from.
func (w *World) origins(v ssa.Value, visit func(ssa.Value)) {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value, d int)
	rec = func(v ssa.Value, d int) {
		if v == nil || seen[v] || d > 30 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e, d+1)
			}
		case *ssa.Convert:
			rec(x.X, d+1)
		case *ssa.ChangeType:
			rec(x.X, d+1)
		case *ssa.MakeInterface:
			rec(x.X, d+1)
		case *ssa.Parameter:
			f := x.Parent()
			n := 0
			for i, p := range f.Params {
				if p != x {
					continue
				}
				for _, s := range w.callSites(f) {
					if a := argAt(s, i); a != nil {
						n++
						rec(a, d+1)
					}
				}
			}
			if n == 0 {
				visit(v)
			}
		case *ssa.FreeVar:
			f := x.Parent()
			n := 0
			for i, fv := range f.FreeVars {
				if fv != x || f.Parent() == nil {
					continue
				}
				Instrs(f.Parent(), func(in ssa.Instruction) {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
						n++
						rec(mc.Bindings[i], d+1)
					}
				})
			}
			if n == 0 {
				visit(v)
			}
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok {
				n := 0
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == al {
						n++
						rec(s.Val, d+1)
					}
				}
				if n > 0 {
					return
				}
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				rec(fv, d+1)
				return
			}
			visit(v)
		case *ssa.Alloc:
			n := 0
			for _, r := range *x.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == x {
					n++
					rec(s.Val, d+1)
				}
			}
			if n == 0 {
				visit(v)
			}
		default:
			visit(v)
		}
	}
	rec(v, 0)
}

func (c *Ctx) lockCallers() {
	w := c.W
	gen := w.Reaches(func(f *ssa.Function) bool {
		return w.callsName(f, func(n string) bool { return strings.HasPrefix(n, "github.com/google/uuid.New") })
	})
	for _, f := range w.Funcs {
		if inPkg(f, lockPkg) || f.Blocks == nil {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			g := ci.Common().StaticCallee()
			if g == nil || !inPkg(g, lockPkg) {
				return
			}
			where := w.Pos(in.Pos())
			switch g.Name() {
			case "NewLocker", "NewMultiLocker":
				ok := true
				bad := ""
				w.origins(ci.Common().Args[2], func(v ssa.Value) {
					if !w.freshToken(v, gen, 0) {
						ok = false
						bad = v.String()
					}
				})
				c.Check(ok, "token", fnName(f)+" "+g.Name(), where, "the lock's token can be %s, which no unique generator made", bad)
			case "Lock", "WaitLock", "ExtendLock":
				ok := true
				bad := ""
				w.origins(ci.Common().Args[2], func(v ssa.Value) {
					if k, isc := v.(*ssa.Const); isc {
						if k.Value == nil || k.Int64() <= 0 {
							ok, bad = false, k.String()
						}
						return
					}
					if !fromField(v) {
						ok, bad = false, v.String()
					}
				})
				c.Check(ok, "expiry", fnName(f)+" "+g.Name(), where, "the lock's expiry can be %s", bad)
			}
		})
	}
	c.noLeak()
}

func fromField(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		return fromField(x.X)
	case *ssa.FieldAddr, *ssa.Field:
		return true
	case *ssa.BinOp:
		if x.Op.String() == "*" || x.Op.String() == "+" {
			_, a := x.X.(*ssa.Const)
			_, b := x.Y.(*ssa.Const)
			return (a || fromField(x.X)) && (b || fromField(x.Y))
		}
	case *ssa.Convert:
		return fromField(x.X)
	}
	return false
}

func (w *World) freshToken(v ssa.Value, gen map[*ssa.Function]bool, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil {
			if strings.HasPrefix(g.String(), "github.com/google/uuid.New") {
				return true
			}
			if g.String() == "(github.com/google/uuid.UUID).String" || g.String() == "fmt.Sprintf" {
				for _, a := range x.Call.Args {
					if w.freshToken(a, gen, d+1) {
						return true
					}
				}
				for _, it := range variadicItems(x.Call.Args[len(x.Call.Args)-1]) {
					if w.freshToken(it, gen, d+1) {
						return true
					}
				}
			}
			if w.InModule(g) && gen[g] && g.Blocks != nil {
				// the generator's result itself comes from the generator
				ok := true
				Instrs(g, func(in ssa.Instruction) {
					if r, isr := in.(*ssa.Return); isr && len(r.Results) > 0 && !w.freshToken(r.Results[0], gen, d+1) {
						ok = false
					}
				})
				return ok
			}
		}
	case *ssa.BinOp:
		return w.freshToken(x.X, gen, d+1) || w.freshToken(x.Y, gen, d+1)
	case *ssa.Extract:
		return w.freshToken(x.Tuple, gen, d+1)
	case *ssa.MakeInterface:
		return w.freshToken(x.X, gen, d+1)
	case *ssa.ChangeType:
		return w.freshToken(x.X, gen, d+1)
	}
	return false
}

// noLeak: typestate of lockers in the functions that take locks.
func (c *Ctx) noLeak() {
	w := c.W
	takes := w.Reaches(func(f *ssa.Function) bool { return isLockPrim(f) })
	var roots []*ssa.Function
	for _, f := range w.Funcs {
		if f.Blocks == nil || inPkg(f, lockPkg) || isMock(f) || f.Parent() != nil && false {
			continue
		}
		direct := false
		Instrs(f, func(in ssa.Instruction) {
			for _, t := range w.callees(in) {
				if isLockPrim(t) || takes[t] && handsLocker(t) {
					direct = true
				}
			}
		})
		if direct {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return fnName(roots[i]) < fnName(roots[j]) })
	for _, r := range roots {
		en := NewEngine(w)
		en.SmallMax = 0
		en.MaxDepth = 6
		en.Relevant = map[*ssa.Function]bool{}
		rel := w.Reaches(isUnlockPrim)
		for _, f := range w.Funcs {
			if inPkg(f, lockPkg) {
				continue
			}
			if takes[f] && (handsLocker(f) || takesLocker(f)) || rel[f] && takesLocker(f) {
				en.Relevant[f] = true
			}
			if rel[f] && f.Parent() == r {
				en.Relevant[f] = true
			}
		}
		name := fnName(r)
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			op, l := lockOp(k)
			switch op {
			case "lock":
				ok, fail := en.Fork(st, k)
				ok.Add("held:" + l.Strip().key)
				ok.vals["held:"+l.Strip().key] = l.Strip()
				ok.Add("any")
				return []*State{ok, fail}, true
			case "unlock":
				en.opaque(k.F, st, k)
				st.Del("held:" + l.Strip().key)
				delete(st.vals, "held:"+l.Strip().key)
				return []*State{st}, true
			}
			return nil, false
		}
		en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
			for _, x := range st.Facts() {
				if !strings.HasPrefix(x, "held:") {
					continue
				}
				l := st.vals[x]
				if l.Op == "param" && takesLocker(r) && !handsLocker(r) {
					continue // the caller's locker: locking is the function's purpose
				}
				given := false
				for _, t := range res {
					if t.Strip() == l {
						given = true
					}
				}
				if given {
					if i := ErrIndex(r.Signature); i >= 0 && en.Kind(st, res[i]) == "nonnil" {
						given = false
					}
				}
				if !given {
					c.Fail("no-leak", name, w.Pos(in.Pos()), "the function ends here with a lock taken and not released")
				}
			}
			c.Ok("no-leak", name, w.Pos(r.Pos()))
		}
		en.Run(r, nil)
		c.Engine(en)
	}
}

func lockerType(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "*"+lockPkg+".Locker" || s == "*"+lockPkg+".MultiLocker"
}

func handsLocker(f *ssa.Function) bool {
	r := f.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if lockerType(r.At(i).Type()) {
			return true
		}
	}
	return false
}

func takesLocker(f *ssa.Function) bool {
	for _, p := range f.Params {
		if lockerType(p.Type()) {
			return true
		}
	}
	return false
}

// storesTotals: datasource methods that write balance totals.
func (w *World) storesTotals() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	_, all := w.SQLEffects()
	for f, effs := range all {
		if !inPkg(f, Mod+"/database") || f.Signature.Recv() == nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		for e := range effs {
			if e.Kind == "UPDATE" && e.Table == "balances" && isTotalsEff(e) {
				r[f] = true
			}
		}
	}
	return r
}

func isTotalsEff(e WriteEff) bool {
	for _, col := range strings.Split(e.Cols, ",") {
		for _, t := range totalCols {
			if col == t {
				return true
			}
		}
	}
	return false
}

// readsBalance: datasource methods that answer stored balances.
func readsBalance(f *ssa.Function) bool {
	if !inPkg(f, Mod+"/database") || f.Signature.Recv() == nil || !strings.HasPrefix(f.Name(), "Get") {
		return false
	}
	r := f.Signature.Results()
	return r.Len() > 0 && strings.Contains(r.At(0).Type().String(), "*"+Mod+"/model.Balance") && !strings.Contains(r.At(0).Type().String(), "Monitor")
}

func ruleT03(c *Ctx) {
	w := c.W
	c.Rule("locked", "wherever balance totals are persisted, the lock of a set of balances is held on every path")
	c.Rule("read-under-lock", "the balances persisted were read after the lock was taken, by identifiers the lock covers")
	c.Rule("released", "on every exit after the lock was taken it has been released")
	c.Rule("entry", "no code reaches a write of balance totals except through a function that takes the lock")
	stores := w.storesTotals()
	isStore := func(k *Call) *ssa.Function {
		if k.Fn != nil && stores[k.Fn] {
			return k.Fn
		}
		for _, t := range k.Targets {
			if stores[t] {
				return t
			}
		}
		return nil
	}
	reachStore := w.Reaches(func(f *ssa.Function) bool { return stores[f] })
	reachLock := w.Reaches(isLockPrim)
	reachUnlock := w.Reaches(isUnlockPrim)
	reachRead := w.Reaches(readsBalance)
	isRoot := w.lowest(reachStore, reachLock)
	// functions above may add nothing of their own: every store is reached through a root
	var entries []*ssa.Function
	for _, f := range w.Funcs {
		if f.Blocks == nil || isMock(f) || inPkg(f, Mod+"/database") || strings.HasPrefix(fnName(f), "tests/") {
			continue
		}
		if len(w.callers[f]) == 0 || f.Object() != nil && f.Object().Exported() {
			entries = append(entries, f)
		}
	}
	free := w.ReachableAvoiding(func(f *ssa.Function) bool { return isRoot[f] }, entries...)
	for _, s := range sortedFns(stores) {
		n := 0
		for _, g := range sortedFns(free) {
			if isRoot[g] || inPkg(g, Mod+"/database") || isMock(g) {
				continue
			}
			Instrs(g, func(in ssa.Instruction) {
				for _, t := range w.callees(in) {
					if t == s {
						c.Fail("entry", fnName(g)+" "+fnName(s), w.Pos(in.Pos()), "balance totals are persisted by code that no lock-taking function encloses")
						n++
					}
				}
			})
		}
		if n == 0 {
			c.Ok("entry", fnName(s), w.Pos(s.Pos()))
		}
	}
	c.Floor("entry", 2)
	c.Floor("locked", 2)
	c.Floor("read-under-lock", 2)
	c.Floor("released", 2)
	for _, r := range sortedFns(isRoot) {
		c.lockedRoot(r, isStore, reachStore, reachLock, reachUnlock, reachRead)
	}
}

func (c *Ctx) lockedRoot(r *ssa.Function, isStore func(*Call) *ssa.Function, reachStore, reachLock, reachUnlock, reachRead map[*ssa.Function]bool) {
	w := c.W
	name := fnName(r)
	// work done after the lock was released or unrelated to the pair is not followed
	en := NewEngine(w)
	en.SmallMax = 6
	en.MaxDepth = 10
	en.Relevant = map[*ssa.Function]bool{}
	async := w.Reaches(func(f *ssa.Function) bool { return fnName(f) == "(*blnk.Blnk).SendWebhook" })
	// functions that read or create a balance, with work of their own that is of no concern here
	readers := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if inPkg(f, lockPkg) || inPkg(f, Mod+"/database") || isMock(f) {
			continue
		}
		if reachRead[f] && async[f] && !reachStore[f] && onlyNames(f) {
			if rs := f.Signature.Results(); rs.Len() > 0 && strings.HasSuffix(rs.At(0).Type().String(), "*"+Mod+"/model.Balance") {
				readers[f] = true
			}
		}
		if reachStore[f] || (reachLock[f] || reachUnlock[f]) && (takesLocker(f) || handsLocker(f)) {
			en.Relevant[f] = true
		}
		// readers that hand balances back
		if reachRead[f] && !readers[f] && strings.Contains(f.Signature.Results().String(), "*"+Mod+"/model.Balance") {
			en.Relevant[f] = true
		}
		if reachLock[f] && reachUnlock[f] && takesFunc(f) {
			en.Relevant[f] = true
		}
	}
	en.NoInline = func(f *ssa.Function) bool { return inPkg(f, Mod+"/database") || isMock(f) }
	// id is one of the locked identifiers: the same value, or an element of the very list locked
	among := func(t *Term, ks []*Term) bool {
		for {
			for _, k := range ks {
				if t == k || t.key == k.key {
					return true
				}
			}
			switch t.Op {
			case "load", "iface", "conv", "index", "extract", "next", "range", "elem", "ix", "lookup":
				t = t.Args[0]
			default:
				return false
			}
		}
	}
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		if k.Fn != nil && inPkg(k.Fn, lockPkg) && k.Fn.Name() == "NewMultiLocker" {
			en.opaque(k.F, st, k)
			l := en.Res(st, k, 0).Strip()
			if va, ok := en.VarArgs(st, k.Args[1]); ok {
				for i, a := range va {
					st.vals[fmt.Sprintf("key:%s:%d", l.key, i)] = a.Strip()
				}
			} else {
				st.vals["keys:"+l.key] = k.Args[1].Strip()
			}
			return []*State{st}, true
		}
		switch op, l := lockOp(k); op {
		case "lock":
			ok, fail := en.Fork(st, k)
			l = l.Strip()
			ok.Add("held:" + l.key)
			ok.Add("once")
			ok.Del("read")
			for n, t := range st.vals {
				if strings.HasPrefix(n, "key:"+l.key+":") || n == "keys:"+l.key {
					ok.vals["cover:"+n] = t
				}
			}
			return []*State{ok, fail}, true
		case "unlock":
			en.opaque(k.F, st, k)
			st.Del("held:" + l.Strip().key)
			st.Del("read")
			return []*State{st}, true
		}
		rd := false
		for _, t := range append([]*ssa.Function{k.Fn}, k.Targets...) {
			if t != nil && (readsBalance(t) || readers[t]) {
				rd = true
			}
		}
		if rd {
			en.opaque(k.F, st, k)
			res := en.Res(st, k, 0)
			if !st.HasPrefix("held:") {
				st.vals["early:"+res.key] = res
				return []*State{st}, true
			}
			st.vals["fresh:"+res.key] = res
			delete(st.vals, "early:"+res.key)
			// by what?
			var covered []*Term
			for n, t := range st.vals {
				if strings.HasPrefix(n, "cover:") {
					covered = append(covered, t)
				}
			}
			m := k.Method()
			if strings.Contains(m, "ByIndicator") {
				st.Add("read")
				st.vals["unlocked:"+res.key] = res
			} else {
				id := k.Args[1]
				if k.Sig.Params().Len() > 1 && strings.Contains(k.Sig.Params().At(0).Type().String(), "context.Context") {
					id = k.Args[2]
				}
				if !among(id, covered) {
					st.vals["uncovered:"+res.key] = id
				} else {
					st.Add("read")
				}
			}
			return []*State{st}, true
		}
		if s := isStore(k); s != nil {
			where := w.Pos(k.Site.Pos())
			con := name + " " + fnName(s)
			c.Check(st.HasPrefix("held:"), "locked", con, where, "balance totals are persisted on a path on which no balance lock is held")
			if st.HasPrefix("held:") {
				c.Check(st.Has("read"), "read-under-lock", con, where, "the balances persisted were not read since the lock was taken")
				for _, a := range en.AllArgs(st, k)[1:] {
					for n, t := range st.vals {
						switch {
						case strings.HasPrefix(n, "early:") && reachesResult(st, []*Term{a}, t, true):
							c.Fail("read-under-lock", con, where, "a balance persisted here was read before the lock was taken")
						case strings.HasPrefix(n, "uncovered:") && reachesResult(st, []*Term{a}, st.vals["fresh:"+n[len("uncovered:"):]], true):
							c.Fail("read-under-lock", con, where, "a balance persisted here was read by %s, which is not among the locked identifiers", t)
						}
					}
				}
			}
			ok, fail := en.Fork(st, k)
			return []*State{ok, fail}, true
		}
		return nil, false
	}
	// a loop that reads one balance per iteration has read all there is to read once it is left
	en.H.Edge = func(en *Engine, st *State, from, to *ssa.BasicBlock, f *Frame) {
		body := loopBlocks(from)
		if body == nil || body[to] || !st.HasPrefix("held:") {
			return
		}
		for b := range body {
			for _, in := range b.Instrs {
				for _, t := range w.callees(in) {
					un := false
					for n := range st.vals {
						un = un || strings.HasPrefix(n, "uncovered:")
					}
					if (readsBalance(t) || readers[t]) && !un {
						st.Add("read")
					}
				}
			}
		}
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		if st.Has("once") {
			c.Check(!st.HasPrefix("held:"), "released", name, w.Pos(in.Pos()), "the function ends here with the balance lock still held")
		}
	}
	en.Run(r, nil)
	c.Engine(en)
}

func takesFunc(f *ssa.Function) bool {
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

// onlyNames: a function that is given nothing but a context and text.
func onlyNames(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	for _, p := range f.Params[1:] {
		t := p.Type().String()
		if t != "context.Context" && t != "string" {
			return false
		}
	}
	return true
}

// lowest: the functions reaching both without calling another function that does.
func (w *World) lowest(a, b map[*ssa.Function]bool) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if f.Blocks == nil || inPkg(f, Mod+"/database") || isMock(f) || !a[f] || !b[f] || f.Parent() != nil {
			continue
		}
		lower := false
		for _, g := range w.refs[f] {
			if g != f && a[g] && b[g] && g.Parent() == nil && !inPkg(g, Mod+"/database") {
				lower = true
			}
		}
		if !lower {
			r[f] = true
		}
	}
	return r
}
