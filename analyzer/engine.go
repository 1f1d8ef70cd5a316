package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type vkey struct {
	f *Frame
	v ssa.Value
	i int
}

type knownRec struct {
	kind string
	t    *Term
}

type deferRec struct {
	f  *Frame
	in *ssa.Defer
	// evaluated operands at the defer statement
	call *Call
}

// State is one abstract state of the disjunctive analysis.
type State struct {
	alias  map[vkey]*Term
	mem    map[string]memRec
	known  map[string]knownRec
	facts  map[string]bool
	vals   map[string]*Term // rule-owned term registers
	num    map[string]*Lin  // symbolic big.Int object values
	defers []deferRec
	Trace  []string // branch trace for diagnostics (not part of identity)
}

type memRec struct {
	addr, val *Term
}

func newState() *State {
	return &State{alias: map[vkey]*Term{}, mem: map[string]memRec{}, known: map[string]knownRec{}, facts: map[string]bool{}, vals: map[string]*Term{}, num: map[string]*Lin{}}
}

func (s *State) Clone() *State {
	n := &State{alias: make(map[vkey]*Term, len(s.alias)), mem: make(map[string]memRec, len(s.mem)), known: make(map[string]knownRec, len(s.known)), facts: make(map[string]bool, len(s.facts)), vals: make(map[string]*Term, len(s.vals)), num: make(map[string]*Lin, len(s.num))}
	for k, v := range s.alias {
		n.alias[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.known {
		n.known[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.vals {
		n.vals[k] = v
	}
	for k, v := range s.num {
		n.num[k] = v
	}
	n.defers = append([]deferRec(nil), s.defers...)
	n.Trace = s.Trace[:len(s.Trace):len(s.Trace)]
	return n
}

func (s *State) Has(f string) bool { return s.facts[f] }
func (s *State) Add(f string)      { s.facts[f] = true }
func (s *State) Del(f string)      { delete(s.facts, f) }
func (s *State) HasPrefix(p string) bool {
	for f := range s.facts {
		if strings.HasPrefix(f, p) {
			return true
		}
	}
	return false
}
func (s *State) DelPrefix(p string) {
	for f := range s.facts {
		if strings.HasPrefix(f, p) {
			delete(s.facts, f)
		}
	}
}
func (s *State) Facts() []string { return sortedKeys(s.facts) }

func (en *Engine) hash(s *State) uint64 {
	h := fnv.New64a()
	w := func(x string) { h.Write([]byte(x)); h.Write([]byte{0}) }
	var ks []string
	for k, v := range s.alias {
		ks = append(ks, fmt.Sprintf("a%d.%d.%d=%s", k.f.ID, en.siteID(k.v), k.i, v.key))
	}
	for k, v := range s.mem {
		ks = append(ks, "m"+k+"="+v.val.key)
	}
	for k, v := range s.known {
		ks = append(ks, "k"+k+"="+v.kind)
	}
	for k := range s.facts {
		ks = append(ks, "f"+k)
	}
	for k, v := range s.vals {
		ks = append(ks, "v"+k+"="+v.key)
	}
	for k, v := range s.num {
		ks = append(ks, "n"+k+"="+v.String())
	}
	sort.Strings(ks)
	for _, k := range ks {
		w(k)
	}
	for _, d := range s.defers {
		w(fmt.Sprintf("d%d.%d", d.f.ID, en.instrID(d.in)))
	}
	return h.Sum64()
}

// Call describes a call event.
type Call struct {
	Name    string // short name of the resolved callee ("" if unresolved)
	Iface   string // interface method name for invoke calls
	Fn      *ssa.Function
	Targets []*ssa.Function
	Args    []*Term // receiver first
	Free    []*Term
	Site    ssa.Instruction
	Value   ssa.Value // the call value, nil for go/defer
	F       *Frame
	Kind    string // "call", "defer", "go"
	Sig     *types.Signature
}

// Is matches the resolved callee or the interface method against short names.
func (c *Call) Is(names ...string) bool {
	for _, n := range names {
		if c.Name == n || c.Iface == n {
			return true
		}
	}
	return false
}

// Method returns the bare function/method name.
func (c *Call) Method() string {
	n := c.Name
	if n == "" {
		n = c.Iface
	}
	if i := strings.LastIndex(n, "."); i >= 0 {
		n = n[i+1:]
	}
	return n
}

// Hooks are the rule's transfer functions.
type Hooks struct {
	// Call may mutate st; return handled=true (with out states) to replace default treatment.
	Call func(en *Engine, st *State, c *Call) (out []*State, handled bool)
	// AfterCall runs on every state after the default treatment (inlined or opaque).
	AfterCall func(en *Engine, st *State, c *Call)
	Store     func(en *Engine, st *State, addr, val *Term, in ssa.Instruction, f *Frame)
	MapUpd    func(en *Engine, st *State, m, k, v *Term, in ssa.Instruction, f *Frame)
	Branch    func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame)
	Return    func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) // root exits
	Exit      func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) // every inlined function's exits
	Go        func(en *Engine, st *State, c *Call)
	Instr     func(en *Engine, st *State, in ssa.Instruction, f *Frame)
	Edge      func(en *Engine, st *State, from, to *ssa.BasicBlock, f *Frame) // taken edges of conditional branches
	// Header runs on every edge into a loop header, with what each phi stood for on the edge and stands for now.
	Header func(en *Engine, st *State, from, to *ssa.BasicBlock, f *Frame, subs []PhiSub)
}

// PhiSub is the value of a phi on an edge and the term that stands for it afterwards.
type PhiSub struct{ Old, New *Term }

// signRec marks sign knowledge, which is never pruned by liveness.
var signRec = &Term{Op: "global", Name: "sign", key: "sign"}

// Sign returns the set of possible signs of l known in st, e.g. "0+".
func (en *Engine) Sign(st *State, l *Lin) string {
	if len(l.C) == 0 {
		return "0"
	}
	if len(l.C) == 1 {
		if c, ok := l.C["1"]; ok {
			if c > 0 {
				return "+"
			}
			return "-"
		}
	}
	if k, ok := st.known["S|"+l.String()]; ok {
		return k.kind
	}
	n := newLin().add(l, -1)
	if k, ok := st.known["S|"+n.String()]; ok {
		r := ""
		if strings.Contains(k.kind, "+") {
			r += "-"
		}
		if strings.Contains(k.kind, "0") {
			r += "0"
		}
		if strings.Contains(k.kind, "-") {
			r += "+"
		}
		return r
	}
	return "-0+"
}

// Engine runs the disjunctive analysis.
type Engine struct {
	W         *World
	H         Hooks
	Relevant  map[*ssa.Function]bool // functions always inlined
	SmallMax  int                    // inline other module functions up to this many blocks
	MaxDepth  int
	NoInline  func(*ssa.Function) bool
	Affine    bool
	Copies    bool // a struct assignment copies what is known of the fields
	MaxStates int
	MaxSteps  int
	Ignore    func(field string) bool         // fields whose content does not matter: stores to them and tests of them are not followed
	KindOf    func(st *State, t *Term) string // extra knowledge about terms nothing else is known of

	Steps     int
	Total     int // steps of earlier runs
	Undecided []string
	Inlined   map[*ssa.Function]bool

	terms  map[string]*Term
	sites  map[ssa.Value]int
	instrs map[ssa.Instruction]int
	frames map[string]*Frame
	memo   map[string][]exit
	small  map[*ssa.Function]bool
	lins   map[string]*Lin
	opVals map[string][]*Lin // what the operands of other arithmetic were when it was last evaluated
}

type exit struct {
	st  *State
	res []*Term
	ret *ssa.Return
}

func NewEngine(w *World) *Engine {
	return &Engine{W: w, SmallMax: 12, MaxDepth: 14, MaxStates: 600, MaxSteps: 6000000,
		terms: map[string]*Term{}, sites: map[ssa.Value]int{}, instrs: map[ssa.Instruction]int{},
		frames: map[string]*Frame{}, lins: map[string]*Lin{}, memo: map[string][]exit{}, Inlined: map[*ssa.Function]bool{}}
}

func (en *Engine) siteID(v ssa.Value) int {
	if v == nil {
		return 0
	}
	if n, ok := en.sites[v]; ok {
		return n
	}
	n := len(en.sites) + 1
	en.sites[v] = n
	return n
}

func (en *Engine) instrID(v ssa.Instruction) int {
	if n, ok := en.instrs[v]; ok {
		return n
	}
	n := len(en.instrs) + 1
	en.instrs[v] = n
	return n
}

func (en *Engine) frame(caller *Frame, site ssa.Instruction, fn *ssa.Function, args, free []*Term) *Frame {
	k := ""
	if caller != nil {
		k = fmt.Sprintf("%d/%d/", caller.ID, en.instrID(site))
	}
	k += fn.String()
	for _, a := range args {
		k += "|" + a.key
	}
	for _, a := range free {
		k += "!" + a.key
	}
	if f, ok := en.frames[k]; ok {
		return f
	}
	f := &Frame{ID: len(en.frames) + 1, Fn: fn, Caller: caller, Site: site, Args: args, Free: free}
	if caller != nil {
		f.Depth = caller.Depth + 1
	}
	en.frames[k] = f
	return f
}

// Run analyses fn as a root from the given entry state (nil = empty).
func (en *Engine) Run(fn *ssa.Function, entry *State) []exit {
	var args, free []*Term
	for i, p := range fn.Params {
		args = append(args, en.mk("param", fmt.Sprintf("%s$%d", fnName(fn), i), p, nil))
	}
	for i, p := range fn.FreeVars {
		free = append(free, en.mk("free", fmt.Sprintf("%s!%d", fnName(fn), i), p, nil))
	}
	return en.RunArgs(fn, entry, args, free)
}

func (en *Engine) RunArgs(fn *ssa.Function, entry *State, args, free []*Term) []exit {
	if entry == nil {
		entry = newState()
	}
	en.Total += en.Steps
	en.Steps = 0
	f := en.frame(nil, nil, fn, args, free)
	ex := en.run(f, entry)
	if en.H.Return != nil {
		for _, e := range ex {
			en.H.Return(en, e.st, e.res, e.ret, f)
		}
	}
	return ex
}

type item struct {
	b  *ssa.BasicBlock
	st *State
}

func (en *Engine) run(f *Frame, entry *State) []exit {
	mk := fmt.Sprintf("%d|%x", f.ID, en.hash(entry))
	if ex, ok := en.memo[mk]; ok {
		return ex
	}
	en.Inlined[f.Fn] = true
	saved := entry.defers
	st0 := entry.Clone()
	st0.defers = nil
	var exits []exit
	seenExit := map[string]bool{}
	seen := map[*ssa.BasicBlock]map[uint64]bool{}
	work := []item{{f.Fn.Blocks[0], st0}}
	lv := en.W.Live(f.Fn)
	push := func(b *ssa.BasicBlock, st *State) {
		en.prune(f, st, b, lv)
		m := seen[b]
		if m == nil {
			m = map[uint64]bool{}
			seen[b] = m
		}
		if len(m) > en.MaxStates {
			// widen: forget branch correlations that are not rule facts
			st.known = map[string]knownRec{}
			if len(m) > 4*en.MaxStates {
				en.undecided(fmt.Sprintf("state explosion in %s", fnName(f.Fn)))
				if dbgStates > 0 {
					dbgStates--
					fmt.Println("STATE", b.Index, b.Comment)
					for k, v := range st.alias {
						fmt.Println("  a", k.v.Name(), k.i, v.key)
					}
					for k, v := range st.mem {
						fmt.Println("  m", k, v.val.key)
					}
					for k, v := range st.known {
						fmt.Println("  k", k, v.kind)
					}
					fmt.Println("  f", st.Facts())
				}
				return
			}
		}
		h := en.hash(st)
		if m[h] {
			return
		}
		m[h] = true
		work = append(work, item{b, st})
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		states := []*State{it.st}
		b := it.b
		for _, in := range b.Instrs {
			en.Steps += len(states)
			if en.Steps > en.MaxSteps {
				en.undecided(fmt.Sprintf("step budget exhausted in %s", fnName(f.Fn)))
				return exits
			}
			switch x := in.(type) {
			case *ssa.Phi:
				continue
			case *ssa.If:
				for _, st := range states {
					c := en.Eval(st, f, x.Cond)
					cond, pol := norm(c)
					k := en.kind(st, cond)
					for i, s := range b.Succs {
						taken := (i == 0) == pol
						if (k == "true" && !taken) || (k == "false" && taken) {
							continue
						}
						n := st.Clone()
						if k == "" {
							if !en.refine(n, cond, taken) {
								continue
							}
						}
						if en.H.Branch != nil {
							en.H.Branch(en, n, cond, taken, in, f)
						}
						if en.H.Edge != nil {
							en.H.Edge(en, n, b, s, f)
						}
						en.edge(f, n, b, s)
						push(s, n)
					}
				}
				states = nil
			case *ssa.Jump:
				for _, st := range states {
					n := st.Clone()
					en.edge(f, n, b, b.Succs[0])
					push(b.Succs[0], n)
				}
				states = nil
			case *ssa.Return:
				for _, st := range states {
					var res []*Term
					for _, r := range x.Results {
						res = append(res, en.Eval(st, f, r))
					}
					n := st.Clone()
					n.defers = saved
					if en.H.Exit != nil {
						en.H.Exit(en, n, res, x, f)
					}
					if f.Caller != nil {
						en.gc(f, n, res)
					}
					k := fmt.Sprintf("%x", en.hash(n))
					for _, r := range res {
						k += "|" + r.key
					}
					if !seenExit[k] {
						seenExit[k] = true
						exits = append(exits, exit{n, res, x})
					}
				}
				states = nil
			case *ssa.Panic:
				states = nil
			case *ssa.RunDefers:
				var next []*State
				for _, st := range states {
					next = append(next, en.runDefers(f, st)...)
				}
				states = next
			default:
				var next []*State
				for _, st := range states {
					next = append(next, en.step(f, st, in)...)
				}
				states = next
				if len(states) > 1 {
					states = en.dedupe(states)
				}
			}
			if len(states) == 0 {
				break
			}
		}
	}
	en.memo[mk] = exits
	return exits
}

func (en *Engine) dedupe(ss []*State) []*State {
	seen := map[uint64]bool{}
	var out []*State
	for _, s := range ss {
		h := en.hash(s)
		if !seen[h] {
			seen[h] = true
			out = append(out, s)
		}
	}
	return out
}

func (en *Engine) undecided(s string) {
	for _, u := range en.Undecided {
		if u == s {
			return
		}
	}
	en.Undecided = append(en.Undecided, s)
}

// edge evaluates phis of succ for the edge pred->succ.
func (en *Engine) edge(f *Frame, st *State, pred, succ *ssa.BasicBlock) {
	idx := -1
	for i, p := range succ.Preds {
		if p == pred {
			idx = i
		}
	}
	type upd struct {
		k vkey
		t *Term
	}
	var us []upd
	var subs []PhiSub
	back := succ.Dominates(pred)
	for _, in := range succ.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		t := en.Eval(st, f, ph.Edges[idx])
		old := t
		loopHeader := back || en.isLoopHeader(succ)
		if loopHeader && !simpleKind(t, en, st) {
			o := en.mk("phi", ph.Comment, ph, f)
			k := en.kind(st, t)
			_, ne := st.known["NE|"+t.key]
			for kk, r := range st.known {
				if r.t != nil && r.t != signRec && r.t.Mentions(func(x *Term) bool { return x == o }) {
					delete(st.known, kk)
				}
			}
			delete(st.known, o.key)
			if k != "" && !strings.HasPrefix(k, "=") {
				st.known[o.key] = knownRec{k, o}
			}
			if ne {
				st.known["NE|"+o.key] = knownRec{"nonempty", o}
			}
			t = o
		} else if t.deep > 10 {
			t = en.mk("phi", ph.Comment, ph, f)
		}
		us = append(us, upd{vkey{f, ph, -1}, t})
		subs = append(subs, PhiSub{old, t})
	}
	if en.H.Header != nil && (len(subs) > 0 || back || en.isLoopHeader(succ)) {
		en.H.Header(en, st, pred, succ, f, subs)
	}
	for _, u := range us {
		st.alias[u.k] = u.t
	}
}

func simpleKind(t *Term, en *Engine, st *State) bool {
	if t.Op == "const" {
		if t.Name == "nil" || t.Name == "true" || t.Name == "false" {
			return true
		}
		return strings.HasPrefix(t.Name, `"`)
	}
	return t.Op == "param" || t.Op == "fn"
}

func (en *Engine) isLoopHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// prune drops dead bindings at entry of block b.
func (en *Engine) prune(f *Frame, st *State, b *ssa.BasicBlock, lv *liveInfo) {
	live := lv.in[b]
	phis := map[ssa.Value]bool{}
	for _, in := range b.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis[ph] = true
		} else {
			break
		}
	}
	for k := range st.alias {
		if k.f == f && !live[k.v] && !phis[k.v] {
			// tuple results: live if any extract may follow
			delete(st.alias, k)
		}
	}
	reach := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || reach[t] {
			return
		}
		reach[t] = true
		for _, a := range t.Args {
			mark(a)
		}
	}
	for _, t := range st.alias {
		mark(t)
	}
	for _, t := range st.vals {
		mark(t)
	}
	for _, d := range st.defers {
		if d.call != nil {
			for _, a := range d.call.Args {
				mark(a)
			}
			for _, a := range d.call.Free {
				mark(a)
			}
		}
	}
	// memory: cells rooted at a local of this frame that is dead and unreachable are dropped
	dead := map[string]*Term{}
	for k, m := range st.mem {
		r := addrRoot(m.addr)
		if r.Op == "alloc" && r.F == f && !live[r.V] && !reach[r] {
			dead[k] = r
		} else {
			mark(m.val)
		}
	}
	for ch := len(dead) > 0; ch; {
		ch = false
		for k, r := range dead {
			if reach[r] {
				mark(st.mem[k].val)
				delete(dead, k)
				ch = true
			}
		}
	}
	for k := range dead {
		delete(st.mem, k)
	}
	for k, r := range st.known {
		t := r.t
		if t.fr != f && t.fr != nil {
			continue // belongs to another frame
		}
		if en.liveTerm(t, live, lv.fields[b], reach, f) {
			continue
		}
		delete(st.known, k)
	}
}

// liveTerm: may knowledge about t still be consulted by code reachable in this frame or a caller?
func (en *Engine) liveTerm(t *Term, live map[ssa.Value]bool, fields map[string]bool, reach map[*Term]bool, f *Frame) bool {
	if reach[t] {
		return true
	}
	switch t.Op {
	case "bin", "un", "pure", "len", "lookup":
		for _, a := range t.Args {
			if a.Op == "const" || a.Op == "zero" {
				continue
			}
			if !en.liveTerm(a, live, fields, reach, f) {
				return false
			}
		}
		return true
	case "load", "conv", "iface":
		return en.liveTerm(t.Args[0], live, fields, reach, f)
	case "field", "fieldv":
		// a field path: keep while some caller or later instruction mentions the field
		if fields[t.Name] {
			return true
		}
		for c := f; c.Caller != nil; c = c.Caller {
			cb := c.Site.Block()
			if en.W.Live(c.Caller.Fn).fields[cb][t.Name] {
				return true
			}
		}
		return false
	case "param", "global", "free":
		return true
	case "alloc":
		return true
	case "res":
		return live[t.Args[0].V] || liveExtract(t, live)
	}
	if t.V != nil {
		return live[t.V]
	}
	return false
}

func liveExtract(t *Term, live map[ssa.Value]bool) bool {
	c := t.Args[0].V
	if c == nil || c.Referrers() == nil {
		return false
	}
	for _, r := range *c.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && live[e] && fmt.Sprint(e.Index) == t.Name {
			return true
		}
	}
	return false
}

// gc removes everything belonging to frame f that is unreachable after its return.
func (en *Engine) gc(f *Frame, st *State, res []*Term) {
	for k := range st.alias {
		if k.f == f {
			delete(st.alias, k)
		}
	}
	reach := map[string]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || reach[t.key] {
			return
		}
		reach[t.key] = true
		for _, a := range t.Args {
			mark(a)
		}
	}
	for _, r := range res {
		mark(r)
	}
	for _, t := range st.alias {
		mark(t)
	}
	for _, t := range st.vals {
		mark(t)
	}
	for _, d := range st.defers {
		if d.call != nil {
			for _, a := range d.call.Args {
				mark(a)
			}
		}
	}
	owned := func(t *Term) bool { return t.fr != nil && t.fr.Within(f) }
	for ch := true; ch; {
		ch = false
		for _, m := range st.mem {
			root := addrRoot(m.addr)
			if (!owned(m.addr) || reach[root.key]) && !reach[m.val.key] {
				mark(m.val)
				ch = true
			}
		}
	}
	for k, m := range st.mem {
		if owned(m.addr) && !reach[addrRoot(m.addr).key] {
			delete(st.mem, k)
		}
	}
	for k, r := range st.known {
		if owned(r.t) && !reach[r.t.key] {
			delete(st.known, k)
		}
	}
	for k := range st.num {
		t := en.terms[k]
		if t != nil && owned(t) && !reach[k] && !reach[addrRoot(t).key] {
			delete(st.num, k)
		}
	}
}

func addrRoot(t *Term) *Term {
	for t != nil && (t.Op == "field" || t.Op == "index" || t.Op == "load" || t.Op == "slice" || t.Op == "fieldv" || t.Op == "iface" || t.Op == "conv") {
		t = t.Args[0]
	}
	return t
}

// Eval returns the term of v in frame f under st.
func (en *Engine) Eval(st *State, f *Frame, v ssa.Value) *Term {
	if t, ok := st.alias[vkey{f, v, -1}]; ok {
		return t
	}
	switch x := v.(type) {
	case *ssa.Const:
		return en.constTerm(x)
	case *ssa.Parameter:
		for i, p := range f.Fn.Params {
			if p == x && i < len(f.Args) {
				return f.Args[i]
			}
		}
		return en.mk("opaque", x.Name(), v, f)
	case *ssa.FreeVar:
		for i, p := range f.Fn.FreeVars {
			if p == x && i < len(f.Free) {
				return f.Free[i]
			}
		}
		return en.mk("opaque", x.Name(), v, f)
	case *ssa.Global:
		return en.mk("global", short(x.String()), x, nil)
	case *ssa.Function:
		t := en.mk("fn", fnName(x), x, nil)
		t.Fn = x
		return t
	case *ssa.Builtin:
		return en.mk("fn", x.Name(), x, nil)
	case *ssa.Alloc:
		return en.mk("alloc", x.Comment, x, f)
	case *ssa.FieldAddr:
		return en.mk("field", fieldName(x.X.Type(), x.Field), nil, nil, en.Eval(st, f, x.X))
	case *ssa.Field:
		return en.fieldOf(st, en.Eval(st, f, x.X), fieldName(x.X.Type(), x.Field))
	case *ssa.IndexAddr:
		return en.mk("index", "", nil, nil, en.Eval(st, f, x.X), en.Eval(st, f, x.Index))
	case *ssa.Index:
		return en.mk("indexv", "", nil, nil, en.Eval(st, f, x.X), en.Eval(st, f, x.Index))
	case *ssa.Lookup:
		if !x.CommaOk {
			return en.mk("lookup", "", nil, nil, en.Eval(st, f, x.X), en.Eval(st, f, x.Index))
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			// loads are bound when executed; reaching here means the binding was pruned
			return en.Load(st, en.Eval(st, f, x.X))
		case token.ARROW:
			return en.mk("recv", "", v, f, en.Eval(st, f, x.X))
		case token.NOT:
			a := en.Eval(st, f, x.X)
			if a.Op == "un" && a.Name == "!" {
				return a.Args[0]
			}
			return en.mk("un", "!", nil, nil, a)
		default:
			return en.mk("un", x.Op.String(), nil, nil, en.Eval(st, f, x.X))
		}
	case *ssa.BinOp:
		return en.binop(x.Op, en.Eval(st, f, x.X), en.Eval(st, f, x.Y))
	case *ssa.ChangeType:
		return en.Eval(st, f, x.X)
	case *ssa.ChangeInterface:
		return en.Eval(st, f, x.X)
	case *ssa.MakeInterface:
		if isErr(x.Type()) {
			return en.mk("iface", typeName(x.X.Type()), nil, nil, en.Eval(st, f, x.X))
		}
		return en.Eval(st, f, x.X)
	case *ssa.Convert:
		return en.mk("conv", typeName(x.Type()), nil, nil, en.Eval(st, f, x.X))
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return en.Eval(st, f, x.X)
		}
	case *ssa.Slice:
		a := en.Eval(st, f, x.X)
		if x.Low == nil && x.High == nil {
			return en.mk("slice", "", nil, nil, a)
		}
		if a.deep < 8 {
			return en.mk("opaque", v.Name(), v, f, a)
		}
	case *ssa.MakeClosure:
		t := en.mk("closure", fnName(x.Fn.(*ssa.Function)), x, f)
		if t.Fn == nil {
			t.Fn = x.Fn.(*ssa.Function)
			for _, b := range x.Bindings {
				t.Args = append(t.Args, en.Eval(st, f, b))
			}
		}
		return t
	case *ssa.Extract:
		if t, ok := st.alias[vkey{f, x.Tuple, x.Index}]; ok {
			return t
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return en.mk("res", "0", nil, nil, en.mk("opaque", "assert", ta, f, en.Eval(st, f, ta.X)))
		}
		if lk, ok := x.Tuple.(*ssa.Lookup); ok {
			base := en.mk("lookup", "", nil, nil, en.Eval(st, f, lk.X), en.Eval(st, f, lk.Index))
			if x.Index == 0 {
				return base
			}
			return en.mk("res", "ok", nil, nil, base)
		}
		return en.mk("res", fmt.Sprint(x.Index), nil, nil, en.callTerm(st, f, x.Tuple))
	case *ssa.Call:
		return en.callTerm(st, f, x)
	}
	return en.mk("opaque", v.Name(), v, f)
}

func (en *Engine) callTerm(st *State, f *Frame, v ssa.Value) *Term {
	if c, ok := v.(*ssa.Call); ok {
		name := ""
		if fn := c.Call.StaticCallee(); fn != nil {
			name = fnName(unwrap(fn))
		} else if c.Call.IsInvoke() {
			name = short("(" + types.TypeString(c.Call.Value.Type(), nil) + ")." + c.Call.Method.Name())
		}
		return en.mk("call", name, v, f)
	}
	return en.mk("opaque", v.Name(), v, f)
}

func (en *Engine) fieldOf(st *State, s *Term, name string) *Term {
	if s.Op == "load" {
		return en.Load(st, en.mk("field", name, nil, nil, s.Args[0]))
	}
	if s.Op == "zero" {
		return en.mk("fieldv", name, nil, nil, s)
	}
	return en.mk("fieldv", name, nil, nil, s)
}

// Load reads the content of the location denoted by addr.
func (en *Engine) Load(st *State, addr *Term) *Term {
	if m, ok := st.mem[addr.key]; ok {
		if en.Copies && st.partly(addr) {
			return en.mk("load", "", nil, nil, addr) // some of its fields were set since
		}
		return m.val
	}
	if addr.Op == "field" {
		base := addr.Args[0]
		if m, ok := st.mem[base.key]; ok {
			switch m.val.Op {
			case "load":
				src := en.mk("field", addr.Name, nil, nil, m.val.Args[0])
				if a, ok := m.val.Args[0].V.(*ssa.Alloc); ok && en.Copies && m.val.Args[0].Op == "alloc" && a.Comment == "complit" {
					return en.Load(st, src) // a literal is not changed after it was copied from
				}
				return en.mk("load", "", nil, nil, src)
			case "zero":
				return en.zeroField(base, addr.Name)
			default:
				return en.mk("fieldv", addr.Name, nil, nil, m.val)
			}
		}
		if base.Op == "alloc" {
			return en.zeroField(base, addr.Name)
		}
	}
	if addr.Op == "alloc" {
		if a, ok := addr.V.(*ssa.Alloc); ok {
			et := a.Type().Underlying().(*types.Pointer).Elem()
			if _, isS := et.Underlying().(*types.Struct); isS {
				return en.mk("load", "", nil, nil, addr)
			}
			if _, isA := et.Underlying().(*types.Array); isA {
				return en.mk("load", "", nil, nil, addr)
			}
			return en.zeroTerm(et)
		}
	}
	return en.mk("load", "", nil, nil, addr)
}

// partly: fields of the struct stored at addr have been assigned on their own.
func (s *State) partly(addr *Term) bool {
	if addr.Op != "alloc" {
		return false
	}
	if _, ok := addr.V.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); !ok {
		return false
	}
	for _, m := range s.mem {
		if m.addr != addr && addrUnder(m.addr, addr) {
			return true
		}
	}
	return false
}

func (en *Engine) zeroField(base *Term, name string) *Term {
	if a, ok := base.V.(*ssa.Alloc); ok && base.Op == "alloc" {
		if s := structOf(a.Type()); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					if _, isS := s.Field(i).Type().Underlying().(*types.Struct); isS {
						return en.mk("zero", typeName(s.Field(i).Type()), nil, nil)
					}
					return en.zeroTerm(s.Field(i).Type())
				}
			}
		}
	}
	return en.mk("load", "", nil, nil, en.mk("field", name, nil, nil, base))
}

func (en *Engine) binop(op token.Token, a, b *Term) *Term {
	if a.Op == "const" && b.Op == "const" {
		if r := foldConst(en, op, a, b); r != nil {
			return r
		}
	}
	switch op {
	case token.NEQ:
		return en.not(en.binop(token.EQL, a, b))
	case token.EQL:
		// b == true / false
		if b.Op == "const" && b.Name == "true" {
			return a
		}
		if b.Op == "const" && b.Name == "false" {
			return en.not(a)
		}
		if a.Op == "const" || (b.Op != "const" && a.key > b.key) {
			a, b = b, a
		}
		return en.mk("bin", "==", nil, nil, a, b)
	case token.GTR:
		return en.mk("bin", "<", nil, nil, b, a)
	case token.GEQ:
		return en.not(en.mk("bin", "<", nil, nil, a, b))
	case token.LEQ:
		return en.not(en.mk("bin", "<", nil, nil, b, a))
	}
	return en.mk("bin", op.String(), nil, nil, a, b)
}

func (en *Engine) not(t *Term) *Term {
	if t.Op == "un" && t.Name == "!" {
		return t.Args[0]
	}
	if t.Op == "const" && t.Name == "true" {
		return en.mk("const", "false", nil, nil)
	}
	if t.Op == "const" && t.Name == "false" {
		return en.mk("const", "true", nil, nil)
	}
	return en.mk("un", "!", nil, nil, t)
}

func constVal(t *Term) constant.Value {
	if c, ok := t.V.(*ssa.Const); ok {
		if c.Value != nil && c.Value.Kind() == constant.Float {
			if i := constant.ToInt(c.Value); i.Kind() == constant.Int {
				return i
			}
		}
		return c.Value
	}
	switch t.Name {
	case "nil":
		return nil
	case "true":
		return constant.MakeBool(true)
	case "false":
		return constant.MakeBool(false)
	}
	if strings.HasPrefix(t.Name, `"`) {
		return constant.MakeString(unq(t.Name))
	}
	return constant.MakeFromLiteral(t.Name, token.INT, 0)
}

func foldConst(en *Engine, op token.Token, a, b *Term) *Term {
	if a.Name == "nil" && b.Name == "nil" {
		switch op {
		case token.EQL:
			return en.mk("const", "true", nil, nil)
		case token.NEQ:
			return en.mk("const", "false", nil, nil)
		}
		return nil
	}
	va, vb := constVal(a), constVal(b)
	if va == nil || vb == nil || va.Kind() != vb.Kind() || va.Kind() == constant.Unknown {
		return nil
	}
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if constant.Compare(va, op, vb) {
			return en.mk("const", "true", nil, nil)
		}
		return en.mk("const", "false", nil, nil)
	case token.ADD:
		if va.Kind() == constant.String {
			return en.strTerm(constant.StringVal(va) + constant.StringVal(vb))
		}
		if va.Kind() == constant.Int {
			return en.mk("const", constant.BinaryOp(va, op, vb).ExactString(), nil, nil)
		}
	case token.SUB, token.MUL:
		if va.Kind() == constant.Int {
			return en.mk("const", constant.BinaryOp(va, op, vb).ExactString(), nil, nil)
		}
	}
	return nil
}

func norm(t *Term) (*Term, bool) {
	pol := true
	for t.Op == "un" && t.Name == "!" {
		pol = !pol
		t = t.Args[0]
	}
	return t, pol
}

var nonnilCalls = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "fmt.Sprintf": true,
	"internal/apierror.NewAPIError": true, "internal/apierror.NewAPIErrorWithCode": true,
	"github.com/pkg/errors.New": true, "github.com/pkg/errors.Errorf": true,
}

// lenBound decides comparisons of a length with constants when the slice is known not to be empty.
func lenBound(st *State, t *Term) string {
	for i := 0; i < 2; i++ {
		l, b := t.Args[i].unconv(), t.Args[1-i]
		if l == nil || l.Op != "len" {
			continue
		}
		if _, ok := st.known["NE|"+l.Args[0].key]; !ok {
			continue
		}
		n, isc := b.Int()
		if !isc {
			continue
		}
		switch {
		case t.Name == "==" && n <= 0:
			return "false"
		case t.Name == "<" && i == 1 && n < 1: // n < len
			return "true"
		case t.Name == "<" && i == 0 && n <= 1: // len < n
			return "false"
		}
	}
	return ""
}

// kind evaluates what is known about a term: nil, nonnil, true, false, =const, or "".
func (en *Engine) kind(st *State, t *Term) string {
	if t.Op == "const" {
		switch t.Name {
		case "nil", "true", "false":
			return t.Name
		}
		return "=" + t.Name
	}
	if k, ok := st.known[t.key]; ok {
		return k.kind
	}
	switch t.Op {
	case "alloc", "closure", "fn", "field", "index", "iface", "slicelit":
		return "nonnil"
	case "conv":
		return en.kind(st, t.Args[0])
	case "call":
		if nonnilCalls[t.Name] {
			return "nonnil"
		}
		if c, ok := t.V.(*ssa.Call); ok {
			// a value (non-pointer, non-interface) result
			if tt := c.Type(); !isNillable(tt) {
				return ""
			}
		}
	case "pure":
		if nonnilCalls[t.Name] {
			return "nonnil"
		}
		if t.Name == "errors.Is" && len(t.Args) == 2 {
			a, b := en.kind(st, t.Args[0]), en.kind(st, t.Args[1])
			if a == "nil" && b == "nonnil" {
				return "false"
			}
			if t.Args[0] == t.Args[1] && a == "nonnil" {
				return "true"
			}
		}
	case "load":
		if t.Args[0].Op == "global" {
			if g, ok := t.Args[0].V.(*ssa.Global); ok && isErr(g.Type().(*types.Pointer).Elem()) {
				return "nonnil"
			}
		}
	case "un":
		if t.Name == "!" {
			switch en.kind(st, t.Args[0]) {
			case "true":
				return "false"
			case "false":
				return "true"
			}
		}
	case "bin":
		if r := lenBound(st, t); r != "" {
			return r
		}
		if t.Name == "==" {
			a, b := t.Args[0], t.Args[1]
			if a == b && a.Op != "opaque" {
				return "true"
			}
			ka, kb := en.kind(st, a), en.kind(st, b)
			if ka != "" && kb != "" {
				if ka == kb && ka != "nonnil" {
					return "true"
				}
				if (ka == "nil" && kb == "nonnil") || (ka == "nonnil" && kb == "nil") {
					return "false"
				}
				if strings.HasPrefix(ka, "=") && strings.HasPrefix(kb, "=") && ka != kb {
					return "false"
				}
				if (ka == "true" && kb == "false") || (ka == "false" && kb == "true") {
					return "false"
				}
			}
			if b.Op == "const" {
				if _, ok := st.known[a.key+"≠"+b.Name]; ok {
					return "false"
				}
			}
		}
		if l, _ := en.SignCond(t, true); l != nil {
			if k, ok := st.known["S|"+l.String()]; ok {
				_, yes := en.SignCond(t, true)
				all, none := true, true
				for _, s := range []struct {
					c string
					v int
				}{{"-", -1}, {"0", 0}, {"+", 1}} {
					if !strings.Contains(k.kind, s.c) {
						continue
					}
					if yes[s.v] {
						none = false
					} else {
						all = false
					}
				}
				if all {
					return "true"
				}
				if none {
					return "false"
				}
			}
		}
		if t.Name == "<" {
			ka, kb := en.kind(st, t.Args[0]), en.kind(st, t.Args[1])
			if strings.HasPrefix(ka, "=") && strings.HasPrefix(kb, "=") {
				va := constant.MakeFromLiteral(ka[1:], token.INT, 0)
				vb := constant.MakeFromLiteral(kb[1:], token.INT, 0)
				if va.Kind() == constant.Int && vb.Kind() == constant.Int {
					if constant.Compare(va, token.LSS, vb) {
						return "true"
					}
					return "false"
				}
			}
		}
	}
	if en.KindOf != nil {
		return en.KindOf(st, t)
	}
	return ""
}

// Kind is the exported form used by rules.
func (en *Engine) Kind(st *State, t *Term) string { return en.kind(st, t) }

func (en *Engine) setKind(st *State, t *Term, k string) {
	if t.Op == "const" {
		return
	}
	st.known[t.key] = knownRec{k, t}
	if t.Op == "conv" {
		en.setKind(st, t.Args[0], k)
	}
}

// refine records the outcome of a branch; false if contradictory.
func (en *Engine) refine(st *State, t *Term, taken bool) bool {
	if en.Ignore != nil && t.Mentions(func(x *Term) bool {
		return (x.Op == "field" || x.Op == "fieldv") && en.Ignore(x.Name)
	}) {
		return true
	}
	if t.Op == "un" && t.Name == "!" {
		return en.refine(st, t.Args[0], !taken)
	}
	if l, yes := en.SignCond(t, taken); l != nil {
		key := "S|" + l.String()
		cur := "-0+"
		if k, ok := st.known[key]; ok {
			cur = k.kind
		}
		nk := ""
		for i, s := range []string{"-", "0", "+"} {
			if yes[i-1] && strings.Contains(cur, s) {
				nk += s
			}
		}
		if nk == "" {
			return false
		}
		st.known[key] = knownRec{nk, signRec}
		return true
	}
	if t.Op == "bin" && t.Name == "==" {
		a, b := t.Args[0], t.Args[1]
		kb := en.kind(st, b)
		if ka := en.kind(st, a); kb == "" && ka != "" && ka != "nonnil" {
			a, b, kb = b, a, ka
		}
		if kb == "nil" {
			if taken {
				en.setKind(st, a, "nil")
			} else {
				en.setKind(st, a, "nonnil")
			}
			return true
		}
		if strings.HasPrefix(kb, "=") {
			if taken {
				en.setKind(st, a, kb)
			} else {
				st.known[a.key+"≠"+kb[1:]] = knownRec{"true", a}
			}
			return true
		}
		if taken && kb == "nonnil" {
			en.setKind(st, a, "nonnil")
		}
	}
	if t.Op == "pure" && (t.Name == "errors.Is" || t.Name == "errors.As") && taken {
		en.setKind(st, t.Args[0], "nonnil")
	}
	if taken {
		en.setKind(st, t, "true")
	} else {
		en.setKind(st, t, "false")
	}
	return true
}

// define forgets what was known about the previous definition of v.
func (en *Engine) define(st *State, f *Frame, v ssa.Value, t *Term) {
	delete(st.known, t.key)
}

// SetMem stores val at addr, killing sub-locations.
func (en *Engine) SetMem(st *State, addr, val *Term) {
	if en.Ignore != nil && addr.Op == "field" && en.Ignore(addr.Name) {
		return
	}
	p := "(" + addr.key + ")"
	for k, m := range st.mem {
		if k != addr.key && strings.Contains(k, p) && addrUnder(m.addr, addr) {
			delete(st.mem, k)
		}
	}
	st.mem[addr.key] = memRec{addr, val}
}

// isClosed: a struct type (not a pointer to one).
func isClosed(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

// rebase rewrites a field address under from to the same one under to.
func (en *Engine) rebase(a, from, to *Term) *Term {
	if a == from {
		return to
	}
	if a.Op != "field" {
		return nil
	}
	b := en.rebase(a.Args[0], from, to)
	if b == nil {
		return nil
	}
	return en.mk("field", a.Name, nil, nil, b)
}

func addrUnder(a, root *Term) bool {
	for a != nil {
		if a == root {
			return true
		}
		if a.Op != "field" && a.Op != "index" {
			return false
		}
		a = a.Args[0]
	}
	return false
}

func (en *Engine) step(f *Frame, st *State, in ssa.Instruction) []*State {
	if en.H.Instr != nil {
		en.H.Instr(en, st, in, f)
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		a := en.Eval(st, f, x)
		for k, m := range st.mem {
			if addrRoot(m.addr) == a {
				delete(st.mem, k)
			}
		}
		delete(st.num, a.key)
		return []*State{st}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			t := en.Load(st, en.Eval(st, f, x.X))
			st.alias[vkey{f, x, -1}] = t
		} else if x.Op == token.ARROW {
			t := en.mk("recv", "", x, f, en.Eval(st, f, x.X))
			delete(st.known, t.key)
		}
		return []*State{st}
	case *ssa.Store:
		addr, val := en.Eval(st, f, x.Addr), en.Eval(st, f, x.Val)
		if old, ok := st.mem[addr.key]; ok && val != old.val && val.deep > 0 && en.W.inLoop(f.Fn)[x.Block()] && val.Mentions(func(t *Term) bool { return t == old.val }) && old.val.Op != "const" {
			val = en.mk("opaque", "stored", x.Val, f)
			delete(st.known, val.key)
		} else if val.deep > 10 || (val.deep > 3 && en.W.inLoop(f.Fn)[x.Block()] && val.Mentions(func(t *Term) bool { return t == addr })) {
			val = en.mk("opaque", "stored", x.Val, f)
		}
		if en.H.Store != nil {
			en.H.Store(en, st, addr, val, in, f)
		}
		var cells []memRec
		if en.Copies && val.Op == "load" && val.Args[0].Op == "alloc" && val.Args[0] != addr && structOf(x.Val.Type()) != nil && isClosed(x.Val.Type()) {
			// a struct is copied with what its fields hold now
			for _, m := range st.mem {
				if m.addr != val.Args[0] && addrUnder(m.addr, val.Args[0]) {
					if a := en.rebase(m.addr, val.Args[0], addr); a != nil {
						cells = append(cells, memRec{a, m.val})
					}
				}
			}
		}
		en.SetMem(st, addr, val)
		for _, c := range cells {
			st.mem[c.addr.key] = c
		}
		return []*State{st}
	case *ssa.MapUpdate:
		if en.H.MapUpd != nil {
			en.H.MapUpd(en, st, en.Eval(st, f, x.Map), en.Eval(st, f, x.Key), en.Eval(st, f, x.Value), in, f)
		}
		return []*State{st}
	case *ssa.Call:
		return en.doCall(f, st, x, x.Common(), "call", x)
	case *ssa.Go:
		c := en.mkCall(f, st, x, x.Common(), "go", nil)
		if en.H.Go != nil {
			en.H.Go(en, st, c)
		}
		return []*State{st}
	case *ssa.Defer:
		c := en.mkCall(f, st, x, x.Common(), "defer", nil)
		for _, d := range st.defers {
			if d.f == f && d.in == x {
				return []*State{st}
			}
		}
		st.defers = append(st.defers, deferRec{f, x, c})
		return []*State{st}
	case *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice:
		t := en.Eval(st, f, in.(ssa.Value))
		st.known[t.key] = knownRec{"nonnil", t}
		return []*State{st}
	case *ssa.Select, *ssa.Next, *ssa.Range:
		t := en.Eval(st, f, in.(ssa.Value))
		delete(st.known, t.key)
		en.forgetRes(st, t)
		return []*State{st}
	case *ssa.TypeAssert:
		if x.CommaOk {
			t := en.mk("opaque", "assert", x, f, en.Eval(st, f, x.X))
			en.forgetRes(st, t)
		}
		return []*State{st}
	case *ssa.Lookup:
		if x.CommaOk {
			base := en.mk("lookup", "", nil, nil, en.Eval(st, f, x.X), en.Eval(st, f, x.Index))
			st.alias[vkey{f, x, 0}] = base
			st.alias[vkey{f, x, 1}] = en.mk("res", "ok", nil, nil, base)
		} else {
			st.alias[vkey{f, x, -1}] = en.mk("lookup", "", nil, nil, en.Eval(st, f, x.X), en.Eval(st, f, x.Index))
		}
		return []*State{st}
	case *ssa.Phi, *ssa.DebugRef:
		return []*State{st}
	case ssa.Value:
		// pure value: evaluate eagerly only when it depends on memory through aliasing
		switch in.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.BinOp, *ssa.Convert, *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Field, *ssa.Index, *ssa.Slice:
			v := in.(ssa.Value)
			if vv, ok := in.(*ssa.BinOp); ok {
				t := en.Eval(st, f, vv)
				if t.deep > 12 {
					t = en.mk("opaque", "expr", vv, f)
				}
				st.alias[vkey{f, v, -1}] = t
			}
			if vv, ok := in.(*ssa.Field); ok {
				st.alias[vkey{f, v, -1}] = en.Eval(st, f, vv)
			}
		case *ssa.Extract:
			x := in.(*ssa.Extract)
			if t, ok := st.alias[vkey{f, x.Tuple, x.Index}]; ok {
				st.alias[vkey{f, x, -1}] = t
			}
		case *ssa.MakeClosure:
			en.Eval(st, f, in.(ssa.Value))
		}
		return []*State{st}
	}
	return []*State{st}
}

func (en *Engine) forgetRes(st *State, t *Term) {
	for i := 0; i < 6; i++ {
		delete(st.known, fmt.Sprintf("res:%d(%s)", i, t.key))
	}
}

var pureFns = map[string]bool{
	"errors.Is": true, "errors.As": true, "strings.TrimSpace": true, "strings.ToLower": true, "strings.ToUpper": true,
	"strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Contains": true, "strings.EqualFold": true,
	"strings.TrimPrefix": true, "strings.TrimSuffix": true, "strings.Split": true, "strings.Join": true, "strings.Replace": true, "strings.ReplaceAll": true,
	"fmt.Sprintf": true, "fmt.Sprint": true, "strconv.Itoa": true, "strconv.Quote": true, "strings.Trim": true, "strings.Title": true,
	"(error).Error": true, "strings.Fields": true, "strings.Index": true, "strings.SplitN": true, "strings.Repeat": true, "github.com/lib/pq.CopyIn": true, "github.com/lib/pq.CopyInSchema": true,
	"(*math/big.Int).String": false, "crypto/subtle.ConstantTimeCompare": true, "path.Join": true, "path/filepath.Base": true, "path/filepath.Join": true,
	"(time.Time).IsZero": true, "(time.Time).UTC": true, "net/http.CanonicalHeaderKey": true,
}

var noReturn = map[string]bool{"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true,
	"github.com/sirupsen/logrus.Fatal": true, "github.com/sirupsen/logrus.Fatalf": true, "log.Panic": true, "log.Panicf": true}

func (en *Engine) mkCall(f *Frame, st *State, in ssa.Instruction, cc *ssa.CallCommon, kind string, v ssa.Value) *Call {
	c := &Call{Site: in, Value: v, F: f, Kind: kind, Sig: cc.Signature()}
	if cc.IsInvoke() {
		recv := en.Eval(st, f, cc.Value)
		c.Args = append(c.Args, recv)
		c.Iface = short("(" + types.TypeString(cc.Value.Type(), nil) + ")." + cc.Method.Name())
		c.Targets = en.W.Implementations(cc.Value.Type(), cc.Method)
		if len(c.Targets) == 1 {
			c.Fn = c.Targets[0]
		}
	} else if b, ok := cc.Value.(*ssa.Builtin); ok {
		c.Name = b.Name()
	} else if fn := cc.StaticCallee(); fn != nil && !isClosureVal(cc.Value) {
		c.Fn = fn
	} else {
		t := en.Eval(st, f, cc.Value)
		t2 := t.Strip()
		if t2 != nil && t2.Fn != nil {
			t = t2
		}
		switch t.Op {
		case "fn", "closure":
			c.Fn = t.Fn
			c.Free = t.Args
		default:
			c.Name = "dyn:" + t.String()
		}
	}
	for _, a := range cc.Args {
		c.Args = append(c.Args, en.Eval(st, f, a))
	}
	if c.Fn != nil {
		g := unwrap(c.Fn)
		if g != c.Fn && len(c.Free) == 1 && len(g.Params) == len(c.Args)+1 { // bound method
			c.Args = append([]*Term{c.Free[0]}, c.Args...)
			c.Free = nil
		}
		c.Fn = g
		c.Name = fnName(g)
	}
	return c
}

func isClosureVal(v ssa.Value) bool { _, ok := v.(*ssa.MakeClosure); return ok }

func (en *Engine) doCall(f *Frame, st *State, in ssa.Instruction, cc *ssa.CallCommon, kind string, v ssa.Value) []*State {
	c := en.mkCall(f, st, in, cc, kind, v)
	return en.perform(f, st, c)
}

func (en *Engine) perform(f *Frame, st *State, c *Call) []*State {
	// forget facts about the previous value of this site
	if c.Value != nil {
		ct := en.callTerm(st, f, c.Value)
		delete(st.known, ct.key)
		en.forgetRes(st, ct)
		for i := -1; i < 6; i++ {
			delete(st.alias, vkey{f, c.Value, i})
		}
	}
	if noReturn[c.Name] {
		return nil
	}
	if en.H.Call != nil {
		if out, ok := en.H.Call(en, st, c); ok {
			en.after(out, c)
			return out
		}
	}
	if en.Affine {
		if out, ok := en.affineCall(st, c); ok {
			en.after(out, c)
			return out
		}
	}
	if c.Fn != nil && c.Fn.Blocks != nil && en.W.InModule(c.Fn) && !f.Has(c.Fn) && f.Depth < en.MaxDepth && en.shouldInline(c.Fn) {
		out := en.inline(f, st, c)
		en.after(out, c)
		return out
	}
	en.opaque(f, st, c)
	out := []*State{st}
	en.after(out, c)
	return out
}

func (en *Engine) after(out []*State, c *Call) {
	if en.H.AfterCall == nil {
		return
	}
	for _, s := range out {
		en.H.AfterCall(en, s, c)
	}
}

func (en *Engine) inline(f *Frame, st *State, c *Call) []*State {
	args := c.Args
	if en.W.inLoop(f.Fn)[c.Site.Block()] {
		args = append([]*Term{}, args...)
		for i, a := range args {
			if a.Mentions(func(t *Term) bool {
				for g := t.F; g != nil; g = g.Caller {
					if g.Caller == f && g.Site == c.Site {
						return true
					}
				}
				return false
			}) {
				args[i] = en.mk("opaque", fmt.Sprintf("loop%d.%d", en.instrID(c.Site), i), c.siteVal(), f)
			}
		}
	}
	cf := en.frame(f, c.Site, c.Fn, args, c.Free)
	exits := en.run(cf, st)
	var out []*State
	for _, e := range exits {
		n := e.st.Clone()
		if c.Value != nil {
			if len(e.res) == 1 {
				n.alias[vkey{f, c.Value, -1}] = e.res[0]
			} else {
				for i, r := range e.res {
					n.alias[vkey{f, c.Value, i}] = r
				}
			}
		}
		out = append(out, n)
	}
	return out
}

func (en *Engine) shouldInline(fn *ssa.Function) bool {
	if en.NoInline != nil && en.NoInline(fn) {
		return false
	}
	if en.Relevant[fn] {
		return true
	}
	if en.small == nil {
		en.small = map[*ssa.Function]bool{}
	}
	if r, ok := en.small[fn]; ok {
		return r
	}
	r := len(fn.Blocks) <= en.SmallMax && len(en.W.inLoop(fn)) == 0
	en.small[fn] = r
	return r
}

var harmless = []string{"fmt.", "log.", "github.com/sirupsen/logrus.", "(*github.com/sirupsen/logrus.", "errors.", "strings.", "time.", "(time.", "context.", "go.opentelemetry.io", "(go.opentelemetry.io", "strconv."}

// opaque treats the call as unknown: fresh results, written-through pointer arguments havocked.
func (en *Engine) opaque(f *Frame, st *State, c *Call) {
	if c.Value != nil {
		name := c.Name
		if name == "" {
			name = c.Iface
		}
		var t *Term
		switch {
		case c.Name == "len" && len(c.Args) == 1:
			if va, ok := en.VarArgs(st, c.Args[0]); ok && (c.Args[0].Op != "const" || len(va) > 0) {
				t = en.mk("const", fmt.Sprint(len(va)), nil, nil)
			} else {
				t = en.mk("len", "", nil, nil, c.Args[0])
			}
		case c.Name == "append" && len(c.Args) == 2:
			a, ok1 := en.VarArgs(st, c.Args[0])
			b, ok2 := en.VarArgs(st, c.Args[1])
			if ok1 && ok2 && len(a)+len(b) <= 80 && !en.W.inLoop(f.Fn)[c.Site.Block()] {
				t = en.mk("slicelit", "", nil, nil, append(append([]*Term{}, a...), b...)...)
			} else {
				t = en.mk("call", name, c.Value, f)
				t.CArg = c.Args
				_, ne := st.known["NE|"+c.Args[0].key]
				_, ne2 := st.known["NE|"+c.Args[1].key]
				delete(st.known, "NE|"+t.key)
				if ne || ne2 || ok2 && len(b) > 0 {
					st.known["NE|"+t.key] = knownRec{"nonempty", t}
				}
			}
		case c.Sig.Results().Len() <= 1 && (pureFns[name] || c.Fn != nil && en.W.Pure(c.Fn)):
			args := c.Args
			if c.Sig.Variadic() && len(args) > 0 {
				if va, ok := en.VarArgs(st, args[len(args)-1]); ok {
					args = append(append([]*Term{}, args[:len(args)-1]...), va...)
				}
			}
			t = en.mk("pure", name, c.Value, nil, args...)
			if t.deep > 12 {
				t = nil
			}
		default:
			t = en.mk("call", name, c.Value, f)
			// remember the most recent arguments on the term for rule inspection
			t.CArg = c.Args
		}
		if t != nil {
			if c.Sig.Results().Len() <= 1 {
				st.alias[vkey{f, c.Value, -1}] = t
			}
		}
	}
	for _, h := range harmless {
		if strings.HasPrefix(c.Name, h) {
			return
		}
	}
	en.havocArgs(f, st, c)
}

func (en *Engine) havocArgs(f *Frame, st *State, c *Call) {
	if c.Name == "append" || c.Name == "len" || c.Name == "cap" || c.Name == "delete" || c.Name == "print" {
		return
	}
	mod := map[string]bool(nil)
	inmod := c.Fn != nil && en.W.InModule(c.Fn)
	if inmod {
		mod = en.W.Mods(c.Fn)
	}
	var hv func(a *Term, depth int)
	hv = func(a *Term, depth int) {
		if a == nil || depth > 2 {
			return
		}
		switch a.Op {
		case "iface", "conv":
			if a.Op == "iface" && inmod {
				// what the callee does with a value of any type (decode into it) is
				// not seen in the fields it writes
				inmod = false
				hv(a.Args[0], depth)
				inmod = true
				return
			}
			hv(a.Args[0], depth)
		case "slice":
			if va, ok := en.VarArgs(st, a); ok {
				for _, x := range va {
					hv(x, depth+1)
				}
			}
		case "alloc", "field", "index":
			if inmod {
				// only the fields the callee can write
				for m := range mod {
					i := strings.LastIndex(m, ".")
					if typeOfAddr(a) == m[:i] || typeOfAddr(a) == "" {
						fa := en.mk("field", m[i+1:], nil, nil, a)
						if _, ok := st.mem[fa.key]; ok || a.Op == "alloc" {
							en.SetMem(st, fa, en.mk("out", c.Name+"."+m[i+1:], c.siteVal(), f))
						}
					}
				}
				if a.Op == "alloc" && structOf(a.V.Type()) == nil {
					en.SetMem(st, a, en.mk("out", c.Name, a.V, f))
				}
				return
			}
			if en.isBigInt(a) || isSync(a) {
				return
			}
			o := en.mk("out", c.Name, a.V, f)
			if c.Site != nil {
				o = en.mk("out", fmt.Sprintf("%s~%d~%s", c.Name, en.instrID(c.Site), a.key), a.V, f)
			}
			o.CArg = []*Term{a}
			if a.Op == "alloc" && allocHolds(a, types.IsInterface) {
				// a spilled any: what it holds is written through it
				hv(en.Load(st, a), depth+1)
			}
			delete(st.known, o.key)
			en.SetMem(st, a, o)
		}
	}
	capt := func(fn *ssa.Function, free []*Term) {
		for i, w := range en.W.writesFree(fn) {
			if w && i < len(free) && free[i].Op == "alloc" {
				o := en.mk("out", fmt.Sprintf("captured%d~%d", i, en.instrID(c.Site)), free[i].V, f)
				delete(st.known, o.key)
				en.SetMem(st, free[i], o)
			}
		}
	}
	if c.Fn != nil && len(c.Free) > 0 {
		capt(c.Fn, c.Free)
	}
	for i, a := range c.Args {
		if a2 := a.unconv(); a2.Op == "closure" && a2.Fn != nil {
			capt(a2.Fn, a2.Args)
		}
		if i == 0 && c.Sig.Recv() != nil && !inmod {
			// method receivers of external types own their state
			continue
		}
		if j := i - (len(c.Args) - c.Sig.Params().Len()); inmod && j >= 0 && types.IsInterface(c.Sig.Params().At(j).Type()) {
			// what the callee does with a value of any type (decode into it) is not seen in the fields it writes
			inmod = false
			hv(a, 0)
			inmod = true
			continue
		}
		hv(a, 0)
	}
}

// writesFree tells which captured variables a closure may assign.
func (w *World) writesFree(fn *ssa.Function) []bool {
	out := make([]bool, len(fn.FreeVars))
	for i, fv := range fn.FreeVars {
		if fv.Referrers() == nil {
			continue
		}
		for _, r := range *fv.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == fv {
					out[i] = true
				}
			case *ssa.MakeClosure:
				g := x.Fn.(*ssa.Function)
				for j, b := range x.Bindings {
					if b == fv && w.writesFree(g)[j] {
						out[i] = true
					}
				}
			case *ssa.Call, *ssa.MakeInterface:
				out[i] = true
			}
		}
	}
	return out
}

func isSync(a *Term) bool {
	if a.V == nil {
		return false
	}
	n := typeName(a.V.Type())
	return strings.HasPrefix(n, "sync.")
}

func (c *Call) siteVal() ssa.Value {
	if c.Value != nil {
		return c.Value
	}
	return nil
}

func typeOfAddr(a *Term) string {
	if a.V != nil {
		return typeName(a.V.Type())
	}
	return ""
}

func (en *Engine) isBigInt(a *Term) bool {
	if a.V != nil {
		return typeName(a.V.Type()) == "math/big.Int"
	}
	return false
}

// VarArgs expands a variadic slice built at the call site.
func (en *Engine) VarArgs(st *State, a *Term) ([]*Term, bool) {
	a2 := a
	if a2.Op == "const" && a2.Name == "nil" {
		return nil, true
	}
	if a2.Op == "slicelit" {
		return a2.Args, true
	}
	if a2.Op == "opaque" {
		if ms, ok := a2.V.(*ssa.MakeSlice); ok {
			if n, ok := ms.Len.(*ssa.Const); ok && n.Value != nil && n.Int64() == 0 {
				return nil, true
			}
		}
	}
	if a2.Op != "slice" {
		return nil, false
	}
	arr := a2.Args[0]
	if arr.Op != "alloc" {
		return nil, false
	}
	pt, ok := arr.V.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	at, ok := pt.Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < at.Len(); i++ {
		found := false
		for _, m := range st.mem {
			if m.addr.Op == "index" && m.addr.Args[0] == arr {
				if n, ok := m.addr.Args[1].Int(); ok && n == i {
					out = append(out, m.val)
					found = true
					break
				}
			}
		}
		if !found {
			out = append(out, en.mk("const", "nil", nil, nil))
		}
	}
	return out, true
}

// AllArgs returns the call's arguments with a trailing variadic slice expanded.
func (en *Engine) AllArgs(st *State, c *Call) []*Term {
	args := c.Args
	if c.Sig.Variadic() && len(args) > 0 {
		if va, ok := en.VarArgs(st, args[len(args)-1]); ok {
			return append(append([]*Term{}, args[:len(args)-1]...), va...)
		}
	}
	return args
}

func (en *Engine) runDefers(f *Frame, st *State) []*State {
	ds := st.defers
	states := []*State{st}
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		if d.f != f {
			continue
		}
		var next []*State
		for _, s := range states {
			n := s.Clone()
			var rest []deferRec
			for j, x := range n.defers {
				if j != i {
					rest = append(rest, x)
				}
			}
			n.defers = rest
			next = append(next, en.perform(f, n, d.call)...)
		}
		states = en.dedupe(next)
	}
	return states
}

// ErrIndex returns the index of the (last) error result of a signature, or -1.
func ErrIndex(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErr(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// Res returns the term for result i of call c in state st.
func (en *Engine) Res(st *State, c *Call, i int) *Term {
	if c.Value == nil {
		return nil
	}
	n := c.Sig.Results().Len()
	if n == 1 {
		if t, ok := st.alias[vkey{c.F, c.Value, -1}]; ok {
			return t
		}
		return en.callTerm(st, c.F, c.Value)
	}
	if t, ok := st.alias[vkey{c.F, c.Value, i}]; ok {
		return t
	}
	return en.mk("res", fmt.Sprint(i), nil, nil, en.callTerm(st, c.F, c.Value))
}

// Fork splits st into (success: error result nil, failure: error result non-nil).
// If the error result is discarded both still exist.
func (en *Engine) Fork(st *State, c *Call) (ok, fail *State) {
	en.opaque(c.F, st, c)
	ok, fail = st, st.Clone()
	i := ErrIndex(c.Sig)
	if i >= 0 && c.Value != nil {
		t := en.Res(st, c, i)
		if t.Op == "call" && nonnilCalls[t.Name] {
			return
		}
		ok.known[t.key] = knownRec{"nil", t}
		fail.known[t.key] = knownRec{"nonnil", t}
	}
	return
}

// Pure: a module function whose result depends only on its arguments and which writes
// nothing but its own locals (so two calls with equal arguments agree).
func (w *World) Pure(fn *ssa.Function) bool {
	if w.pure == nil {
		w.pure = map[*ssa.Function]bool{}
	}
	if r, ok := w.pure[fn]; ok {
		return r
	}
	w.pure[fn] = false
	if fn.Blocks == nil || !w.InModule(fn) || fn.Signature.Results().Len() == 0 || len(fn.FreeVars) > 0 {
		return false
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		switch fn.Signature.Results().At(i).Type().Underlying().(type) {
		case *types.Basic:
		default:
			return false
		}
	}
	ok := true
	Instrs(fn, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			a := x.Addr
			for {
				if ia, isI := a.(*ssa.IndexAddr); isI {
					a = ia.X
				} else if fa, isF := a.(*ssa.FieldAddr); isF {
					a = fa.X
				} else {
					break
				}
			}
			if al, isA := a.(*ssa.Alloc); !isA || al.Heap && !onlyLocal(al) {
				ok = false
			}
		case *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select, *ssa.MakeClosure:
			ok = false
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				ok = false
			}
			if g, isG := x.X.(*ssa.Global); isG && g.Pkg != nil && !strings.HasPrefix(g.Name(), "err") {
				// package-level variable: assume set up once if never stored outside init
				if w.storedOutsideInit(g) {
					ok = false
				}
			}
		case *ssa.Call:
			if b, isB := x.Call.Value.(*ssa.Builtin); isB {
				if b.Name() == "delete" || b.Name() == "close" || b.Name() == "copy" {
					ok = false
				}
				return
			}
			g := x.Call.StaticCallee()
			if g == nil {
				ok = false
				return
			}
			if !pureFns[fnName(g)] && !pureStd(fnName(g)) && !(g != fn && w.Pure(unwrap(g))) {
				ok = false
			}
		}
	})
	w.pure[fn] = ok
	return ok
}

func pureStd(n string) bool {
	for _, p := range []string{"strings.", "strconv.", "unicode.", "path.", "fmt.Sprint", "(*regexp.Regexp).MatchString", "slices.", "math.", "errors.", "net/url."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func onlyLocal(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		switch r.(type) {
		case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.UnOp, *ssa.Slice, *ssa.DebugRef, *ssa.Store:
		default:
			return false
		}
	}
	return true
}

func (w *World) storedOutsideInit(g *ssa.Global) bool {
	if w.gstores == nil {
		w.gstores = map[*ssa.Global]bool{}
		for _, f := range w.Funcs {
			if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
				continue
			}
			Instrs(f, func(in ssa.Instruction) {
				if s, ok := in.(*ssa.Store); ok {
					if gg, ok := s.Addr.(*ssa.Global); ok {
						w.gstores[gg] = true
					}
				}
			})
		}
	}
	return w.gstores[g]
}

// Mods: "pkg.Type.field" names the function may store to (transitively, static calls).
func (w *World) Mods(fn *ssa.Function) map[string]bool {
	if w.mods == nil {
		w.mods = map[*ssa.Function]map[string]bool{}
	}
	if m, ok := w.mods[fn]; ok {
		return m
	}
	m := map[string]bool{}
	w.mods[fn] = m
	for g := range w.ReachableFrom(fn) {
		Instrs(g, func(in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					m[typeName(fa.X.Type())+"."+fieldName(fa.X.Type(), fa.Field)] = true
				}
			}
		})
	}
	return m
}

// Stack renders the inlining stack.
func (en *Engine) Stack(f *Frame) string {
	var s []string
	for ; f != nil; f = f.Caller {
		s = append(s, fnName(f.Fn))
	}
	return strings.Join(s, " < ")
}

var dbgStates = 0

// allocHolds: what the variable holds has a type like that.
func allocHolds(a *Term, is func(types.Type) bool) bool {
	p, ok := a.V.Type().Underlying().(*types.Pointer)
	return ok && is(p.Elem())
}
