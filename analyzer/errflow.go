package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The error-flow analysis decides, function by function, that after a tracked
// operation failed no success exit is reachable: neither a return whose error
// result is nil, nor (in HTTP handlers) a success response.

// dbPrim classifies the database/sql primitives.
func dbPrim(n string) string {
	switch {
	case strings.HasPrefix(n, "(*database/sql."):
	default:
		return ""
	}
	switch {
	case strings.HasSuffix(n, ".Exec"), strings.HasSuffix(n, ".ExecContext"), strings.HasSuffix(n, "Tx).Commit"):
		return "W"
	case strings.HasSuffix(n, ".Query"), strings.HasSuffix(n, ".QueryContext"), strings.HasSuffix(n, ".QueryRow"), strings.HasSuffix(n, ".QueryRowContext"),
		strings.HasSuffix(n, "Rows).Scan"), strings.HasSuffix(n, "Row).Scan"), strings.HasSuffix(n, "Rows).Err"), strings.HasSuffix(n, ".Prepare"), strings.HasSuffix(n, ".PrepareContext"):
		return "R"
	case strings.HasSuffix(n, ".Begin"), strings.HasSuffix(n, ".BeginTx"):
		return "B"
	}
	return ""
}

// calleesOf lists the functions a call instruction may enter.
func (w *World) callees(in ssa.Instruction) []*ssa.Function {
	if c, ok := in.(ssa.CallInstruction); ok {
		return w.StaticTargets(c.Common())
	}
	return nil
}

// advisory: operations whose failure loses no ledger data and is tolerated by design.
var advisory = []string{
	"(database.Datasource).SaveReconciliationProgress", // checkpoint counters of a running reconciliation
	"(database.Datasource).LoadReconciliationProgress",
	"(database.Datasource).CountQueuedTransactionsForPairLane", // picks a queue lane, normal lane otherwise
}

// dbFuncs returns the module functions that (transitively) write and read the database.
func (w *World) dbFuncs() (wr, rd map[*ssa.Function]bool) {
	has := func(k string) func(*ssa.Function) bool {
		return func(f *ssa.Function) bool {
			r := false
			for _, n := range advisory {
				if fnName(f) == n {
					return false
				}
			}
			Instrs(f, func(in ssa.Instruction) {
				for _, t := range w.callees(in) {
					if p := dbPrim(t.String()); p == k {
						r = true
					}
				}
			})
			return r
		}
	}
	return w.Reaches(has("W")), w.Reaches(has("R"))
}

// SwallowObs: an operation failed and a success exit was reached.
type SwallowObs struct {
	Root   *ssa.Function
	Callee string
	Site   ssa.Instruction
	Exit   string
}

type ErrFlow struct {
	W      *World
	Source func(c *Call) string // class of the tracked operation, "" = not tracked
	// Declines: a (bool, error) function that may answer (false, nil) to leave the work to its caller.
	Declines func(f *ssa.Function) bool
	Found    map[string]*SwallowObs
	Checked  map[string]string // root|callee|class -> pos
	En       *Engine
}

// ginSuccess: a response-writing call with a constant success status.
func ginSuccess(en *Engine, st *State, c *Call) bool {
	if !strings.HasPrefix(c.Name, "(*github.com/gin-gonic/gin.Context).") || len(c.Args) < 2 {
		return false
	}
	switch c.Method() {
	case "JSON", "IndentedJSON", "PureJSON", "SecureJSON", "AsciiJSON", "String", "Status", "XML", "YAML", "Data", "HTML", "AbortWithStatusJSON", "DataFromReader":
		if n, ok := c.Args[1].Int(); ok {
			return n < 400
		}
	}
	return false
}

func (e *ErrFlow) Run(roots []*ssa.Function) {
	e.Found = map[string]*SwallowObs{}
	e.Checked = map[string]string{}
	en := NewEngine(e.W)
	e.En = en
	en.SmallMax = 0
	en.MaxDepth = 2
	sites := map[string]ssa.Instruction{}
	names := map[string]string{}
	classes := map[string]string{}
	attempt := map[string]bool{}
	errs := map[string]*Term{}
	var root *ssa.Function
	found := func(tag, exit string) {
		s := sites[tag]
		k := fnName(s.Parent()) + "|" + names[tag]
		if _, ok := e.Found[k]; !ok {
			e.Found[k] = &SwallowObs{Root: root, Callee: names[tag], Site: s, Exit: exit}
		}
	}
	en.NoInline = func(f *ssa.Function) bool {
		return ErrIndex(f.Signature) >= 0 && e.Source(&Call{Name: fnName(f), Fn: f, Sig: f.Signature}) != ""
	}
	en.H.Call = func(en *Engine, st *State, c *Call) ([]*State, bool) {
		if st.HasPrefix("fail:") && ginSuccess(en, st, c) {
			for f := range st.facts {
				if strings.HasPrefix(f, "fail:") {
					found(f[5:], "a success response")
				}
			}
		}
		cl := e.Source(c)
		if cl == "" {
			return nil, false
		}
		if c.Kind == "defer" || c.Value == nil {
			return nil, false
		}
		i := ErrIndex(c.Sig)
		if i < 0 {
			return nil, false
		}
		tag := fmt.Sprintf("%d.%d", en.instrID(c.Site), c.F.ID)
		nm := c.Name
		if c.Iface != "" {
			nm = c.Iface
		}
		sites[tag], names[tag], classes[tag] = c.Site, nm, cl
		e.Checked[fnName(c.F.Fn)+"|"+nm+"|"+cl] = e.W.Pos(c.Site.Pos())
		st.Del("fail:" + tag)
		if r := c.Sig.Results(); cl == "W" && r.Len() == 2 && types.Identical(r.At(0).Type(), types.Typ[types.Bool]) {
			attempt[tag] = true
		}
		if strings.HasPrefix(c.Method(), "Create") || strings.HasPrefix(c.Method(), "create") {
			// get-or-create: the creation, guarded by its unique key, decides
			for f := range st.facts {
				if strings.HasPrefix(f, "fail:") && sameNoun(names[f[5:]], c.Method()) {
					st.Del(f)
				}
			}
		}
		if cl == "W" {
			// an attempt that may leave the work to its caller failed and another one is made
			for f := range st.facts {
				if strings.HasPrefix(f, "fail:") && attempt[f[5:]] {
					st.Del(f)
				}
			}
		}
		if st.HasPrefix("fail:") { // single fault: what follows a failure is not failed again
			en.opaque(c.F, st, c)
			return []*State{st}, true
		}
		ok, fail := en.Fork(st, c)
		fail.Add("fail:" + tag)
		t := en.Res(fail, c, i)
		errs[tag] = t
		fail.vals["err:"+tag] = t
		return []*State{ok, fail}, true
	}
	en.H.Store = func(en *Engine, st *State, addr, val *Term, in ssa.Instruction, f *Frame) {
		// a projection says so itself when part of it failed
		if addr.Op == "field" && addr.Name == "WouldApply" && en.Kind(st, val) == "false" {
			for fct := range st.facts {
				if strings.HasPrefix(fct, "fail:") {
					st.Del(fct)
					delete(st.vals, "err:"+fct[5:])
				}
			}
		}
	}
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
		if !taken && cond.Op == "load" && cond.IsField("TrackFundLineage") {
			// established that there is no lineage to book: the balances are not needed
			for fct := range st.facts {
				if strings.HasPrefix(fct, "fail:") && strings.HasSuffix(names[fct[5:]], ".GetBalanceByIDLite") {
					st.Del(fct)
					delete(st.vals, "err:"+fct[5:])
				}
			}
		}
		for fct := range st.facts {
			if !strings.HasPrefix(fct, "fail:") {
				continue
			}
			tag := fct[5:]
			t := st.vals["err:"+tag]
			if t == nil {
				continue
			}
			if sibling(cond, t) { // another result of the same call says how to go on
				st.Del(fct)
				delete(st.vals, "err:"+tag)
				continue
			}
			if !mentionsDeep(cond, t) {
				continue
			}
			if benignCond(cond, taken, t) || (taken && e.classified(cond, t, classes[tag])) || (taken && e.classifiedAs(cond, t, classes[tag])) {
				st.Del(fct)
				delete(st.vals, "err:"+tag)
			}
		}
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		i := ErrIndex(f.Fn.Signature)
		for fct := range st.facts {
			if !strings.HasPrefix(fct, "fail:") {
				continue
			}
			tag := fct[5:]
			if i < 0 {
				continue
			}
			if f.Fn.Parent() != nil && len(res) <= i {
				continue
			}
			r := res[i]
			k := en.Kind(st, r)
			if k != "nonnil" && reachesResult(st, append(append([]*Term{}, res[:i]...), res[i+1:]...), st.vals["err:"+tag], true) {
				continue // the failure is part of the answer
			}
			if k == "nil" && e.Declines != nil && e.Declines(f.Fn) && i == 1 && len(res) == 2 && en.Kind(st, res[0]) == "false" {
				continue // (false, nil): the caller falls back
			}
			if k == "nonnil" {
				continue
			}
			et := st.vals["err:"+tag]
			if k == "" && (mentionsDeep(r, et)) {
				continue
			}
			if k == "" && r.Op == "call" { // the outcome of a later operation decides
				if c, ok := r.V.(*ssa.Call); ok && c.Call.StaticCallee() != nil && !e.W.InModule(c.Call.StaticCallee()) {
					found(tag, "the outcome of "+r.Name)
					continue
				}
			}
			found(tag, "a return of "+r.String())
		}
	}
	for _, f := range roots {
		root = f
		if dbgRoots {
			fmt.Println("start", fnName(f))
		}
		t0 := time.Now()
		en.Run(f, nil)
		if d := time.Since(t0); dbgRoots && d > 500*time.Millisecond {
			fmt.Println("slow", fnName(f), d, en.Steps)
		}
		en.memo = map[string][]exit{}
	}
}

func mentionsDeep(r, e *Term) bool {
	if r == nil || e == nil {
		return false
	}
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] || len(seen) > 300 {
			return false
		}
		seen[x] = true
		if x == e {
			return true
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		for _, a := range x.CArg {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(r)
}

// benignCond: the branch established that the failure is the "no such record" answer.
func benignCond(cond *Term, taken bool, err *Term) bool {
	no := func(t *Term) bool {
		return t.Mentions(func(x *Term) bool {
			return x.Op == "global" && (strings.HasSuffix(x.Name, "sql.ErrNoRows") || strings.HasSuffix(x.Name, "redis.Nil") || strings.HasSuffix(x.Name, ".Nil"))
		})
	}
	switch {
	case cond.Op == "bin" && cond.Name == "==" && no(cond):
		return taken
	case cond.Op == "pure" && cond.Name == "errors.Is" && no(cond):
		return taken
	case cond.Op == "pure" && strings.HasPrefix(cond.Name, "errors.Is") && no(cond):
		return taken
	}
	return false
}

func sigReturnsError(s *types.Signature) bool { return ErrIndex(s) >= 0 }

// classified: the branch established, through a predicate of the module, what kind of failure it is.
func (e *ErrFlow) classified(cond, err *Term, class string) bool {
	switch cond.Op {
	case "call", "pure":
	default:
		return false
	}
	if cond.Name == "strings.Contains" && len(cond.Args) == 2 && class == "R" {
		s, ok := cond.Args[1].Str()
		if ok {
			return strings.Contains(s, "not found") || strings.Contains(s, "no rows")
		}
		return cond.Args[1].Op == "pure" && strings.Contains(cond.Args[1].key, "not found")
	}
	if cond.Name == "strings.Contains" && len(cond.Args) == 2 && class == "W" {
		// the work was found done already
		s, ok := cond.Args[1].Str()
		return ok && (strings.Contains(s, "already") || strings.Contains(s, "not in inflight"))
	}
	if cond.Name == "errors.Is" && len(cond.Args) == 2 && class == "W" {
		g := cond.Args[1].Strip()
		return g != nil && g.Op == "global" && strings.Contains(strings.ToLower(g.Name), "already")
	}
	var fn *ssa.Function
	if c, ok := cond.V.(*ssa.Call); ok {
		fn = c.Call.StaticCallee()
	}
	if fn == nil || !e.W.InModule(unwrap(fn)) {
		return false
	}
	args := cond.CArg
	if cond.Op == "pure" {
		args = cond.Args
	}
	for _, a := range args {
		if a.Strip() == err || a == err {
			return true
		}
	}
	return false
}

// classifiedAs: the branch compared the class a module function assigned to the failure with a constant one.
func (e *ErrFlow) classifiedAs(cond, err *Term, class string) bool {
	if cond.Op != "bin" || cond.Name != "==" {
		return false
	}
	for i := 0; i < 2; i++ {
		a, b := cond.Args[i], cond.Args[1-i]
		if s, ok := b.Str(); ok && s != "" && e.classified(a, err, class) {
			return true
		}
	}
	return false
}

// sibling: cond is another (boolean) result of the call err comes from.
func sibling(cond, err *Term) bool {
	return cond.Op == "res" && err.Op == "res" && cond != err && cond.Args[0] == err.Args[0]
}

func sameNoun(get, create string) bool {
	if i := strings.LastIndex(get, "."); i >= 0 {
		get = get[i+1:]
	}
	if !strings.HasPrefix(get, "Get") && !strings.HasPrefix(get, "get") {
		return false
	}
	noun := create[len("Create"):]
	return noun != "" && strings.HasPrefix(get[3:], noun)
}
