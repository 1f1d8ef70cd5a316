package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// aff is an affine expression over loop iteration counters ("n:"), lengths ("len:") and other values ("v:").
type aff map[string]int64

func (a aff) plus(b aff, k int64) aff {
	r := aff{}
	for x, c := range a {
		r[x] = c
	}
	for x, c := range b {
		r[x] += k * c
		if r[x] == 0 {
			delete(r, x)
		}
	}
	return r
}

func (a aff) eq(b aff) bool { return len(a.plus(b, -1)) == 0 }

func (a aff) String() string {
	var p []string
	for k, c := range a {
		p = append(p, fmt.Sprintf("%d*%s", c, k))
	}
	sort.Strings(p)
	if len(p) == 0 {
		return "0"
	}
	return strings.Join(p, "+")
}

func affConst(n int64) aff {
	if n == 0 {
		return aff{}
	}
	return aff{"1": n}
}

// vctx is a value context: a function instance reached through known call sites.
type vctx struct {
	fn   *ssa.Function
	site ssa.CallInstruction
	up   *vctx
}

// affOf expresses an integer value canonically.
func (x *vctx) affOf(v ssa.Value, d int) aff {
	opaque := func() aff { return aff{fmt.Sprintf("v:%s:%s", v.Parent(), x.path(v, 0)): 1} }
	if d > 12 {
		return opaque()
	}
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value == nil {
			return aff{}
		}
		return affConst(t.Int64())
	case *ssa.Convert:
		return x.affOf(t.X, d+1)
	case *ssa.BinOp:
		switch t.Op {
		case token.ADD:
			return x.affOf(t.X, d+1).plus(x.affOf(t.Y, d+1), 1)
		case token.SUB:
			return x.affOf(t.X, d+1).plus(x.affOf(t.Y, d+1), -1)
		}
	case *ssa.Phi:
		var init aff
		var step *int64
		blk := t.Block()
		for i, e := range t.Edges {
			if blk.Dominates(blk.Preds[i]) { // back edge
				s, ok := stepOf(e, t)
				if !ok || (step != nil && *step != s) {
					return opaque()
				}
				step = &s
			} else {
				a := x.affOf(e, d+1)
				if init != nil && !init.eq(a) {
					return opaque()
				}
				init = a
			}
		}
		if step == nil || init == nil {
			return opaque()
		}
		return init.plus(aff{loopKey(blk): 1}, *step)
	case *ssa.Parameter:
		if x.up != nil {
			for i, p := range x.fn.Params {
				if p == t {
					if a := argAt(x.site, i); a != nil {
						return x.up.affOf(a, d+1)
					}
				}
			}
		}
	case *ssa.Call:
		if b, ok := t.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			s := x.sliceOf(t.Call.Args[0], 0)
			return s.len()
		}
	}
	return opaque()
}

func loopKey(b *ssa.BasicBlock) string { return fmt.Sprintf("n:%s:%d", b.Parent(), b.Index) }

func argAt(site ssa.CallInstruction, i int) ssa.Value {
	c := site.Common()
	if c.IsInvoke() {
		if i == 0 {
			return c.Value
		}
		i--
	}
	if i < len(c.Args) {
		return c.Args[i]
	}
	return nil
}

// stepOf: e = phi + const on every way round the loop.
func stepOf(e ssa.Value, phi *ssa.Phi) (int64, bool) {
	if e == phi {
		return 0, true
	}
	if b, ok := e.(*ssa.BinOp); ok {
		k, isc := b.Y.(*ssa.Const)
		if isc && k.Value != nil && (b.Op == token.ADD || b.Op == token.SUB) {
			s, ok := stepOf(b.X, phi)
			if b.Op == token.SUB {
				return s - k.Int64(), ok
			}
			return s + k.Int64(), ok
		}
	}
	return 0, false
}

// path names the storage a value comes from, resolving parameters through call sites.
func (x *vctx) path(v ssa.Value, d int) string {
	if d > 12 {
		return "?"
	}
	switch t := v.(type) {
	case *ssa.UnOp:
		if t.Op == token.MUL {
			return x.path(t.X, d+1)
		}
	case *ssa.FieldAddr:
		return x.path(t.X, d+1) + "." + fieldName(t.X.Type(), t.Field)
	case *ssa.Field:
		return x.path(t.X, d+1) + "." + fieldName(t.X.Type(), t.Field)
	case *ssa.Parameter:
		if x.up != nil {
			for i, p := range x.fn.Params {
				if p == t {
					if a := argAt(x.site, i); a != nil {
						return x.up.path(a, d+1)
					}
				}
			}
		}
		return t.Name()
	case *ssa.ChangeType:
		return x.path(t.X, d+1)
	case *ssa.Alloc:
		// a local that is assigned once stands for the value assigned
		var val ssa.Value
		n := 0
		if t.Referrers() != nil {
			for _, r := range *t.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == t {
					val = s.Val
					n++
				}
			}
		}
		if n == 1 {
			return x.path(val, d+1)
		}
	case *ssa.Const:
		return t.Name()
	}
	return fmt.Sprintf("%s@%s", v.Name(), v.Parent())
}

// sl is a window [lo,hi) of a slice identified by path.
type sl struct {
	path   string
	lo, hi aff
}

func (s sl) len() aff { return s.hi.plus(s.lo, -1) }

func (x *vctx) sliceOf(v ssa.Value, d int) sl {
	if d < 12 {
		switch t := v.(type) {
		case *ssa.Slice:
			b := x.sliceOf(t.X, d+1)
			r := sl{b.path, b.lo, b.hi}
			if t.Low != nil {
				r.lo = b.lo.plus(x.affOf(t.Low, 0), 1)
			}
			if t.High != nil {
				r.hi = b.lo.plus(x.affOf(t.High, 0), 1)
			}
			return r
		case *ssa.Parameter:
			if x.up != nil {
				for i, p := range x.fn.Params {
					if p == t {
						if a := argAt(x.site, i); a != nil {
							return x.up.sliceOf(a, d+1)
						}
					}
				}
			}
		case *ssa.MakeSlice:
			return sl{x.path(v, 0), aff{}, x.affOf(t.Len, 0)}
		case *ssa.ChangeType:
			return x.sliceOf(t.X, d+1)
		}
	}
	p := x.path(v, 0)
	return sl{p, aff{}, aff{"len:" + p: 1}}
}

// coverage describes which elements of a slice a loop visits.
type coverage struct {
	Slice  string
	Lo, Hi aff // [Lo,Hi)
	Header *ssa.BasicBlock
	Exit   *ssa.BasicBlock // where the loop goes when exhausted
	Index  aff
	Whole  sl
}

// covers determines, for a value that is an element of a slice (load of an index address) used inside a loop, the range of elements the loop visits.
func (x *vctx) covers(elem ssa.Value) *coverage {
	var ia *ssa.IndexAddr
	var find func(v ssa.Value, d int)
	find = func(v ssa.Value, d int) {
		if ia != nil || d > 6 || v == nil {
			return
		}
		switch t := v.(type) {
		case *ssa.IndexAddr:
			ia = t
		case *ssa.UnOp:
			if t.Op == token.MUL {
				find(t.X, d+1)
			}
		case *ssa.FieldAddr:
			find(t.X, d+1)
		case *ssa.Field:
			find(t.X, d+1)
		case *ssa.Alloc:
			if t.Referrers() != nil {
				for _, r := range *t.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == t {
						find(s.Val, d+1)
					}
				}
			}
		case *ssa.ChangeType:
			find(t.X, d+1)
		case *ssa.MakeInterface:
			find(t.X, d+1)
		}
	}
	find(elem, 0)
	if ia == nil {
		return nil
	}
	return x.coversIndex(ia)
}

func (x *vctx) coversIndex(ia *ssa.IndexAddr) *coverage {
	s := x.sliceOf(ia.X, 0)
	idx := x.affOf(ia.Index, 0)
	// the loop counter involved
	for key, k := range idx {
		if !strings.HasPrefix(key, "n:"+x.fn.String()+":") || (k != 1 && k != -1) {
			continue
		}
		var h *ssa.BasicBlock
		for _, b := range x.fn.Blocks {
			if loopKey(b) == key {
				h = b
			}
		}
		if h == nil || !h.Dominates(ia.Block()) {
			continue
		}
		start := idx.plus(aff{key: 1}, -k) // element at n=0
		iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		bodyIdx := -1
		for i, sc := range h.Succs {
			if h.Dominates(sc) && sc.Dominates(ia.Block()) {
				bodyIdx = i
			}
		}
		if bodyIdx < 0 {
			continue
		}
		op := cond.Op
		if bodyIdx == 1 { // loop continues when the condition is false
			op = negOp(op)
		}
		l, r := x.affOf(cond.X, 0), x.affOf(cond.Y, 0)
		if l[key] == 0 && r[key] != 0 {
			l, r = r, l
			op = swapOp(op)
		}
		if l[key] != k || r[key] != 0 {
			continue
		}
		off := l.plus(idx, -1) // tested = idx + off
		bound := r.plus(off, -1)
		c := &coverage{Slice: s.path, Header: h, Exit: h.Succs[1-bodyIdx], Index: idx, Whole: s}
		if k == 1 {
			c.Lo = start
			switch op {
			case token.LSS, token.NEQ:
				c.Hi = bound
			case token.LEQ:
				c.Hi = bound.plus(affConst(1), 1)
			default:
				continue
			}
		} else {
			c.Hi = start.plus(affConst(1), 1)
			switch op {
			case token.GEQ:
				c.Lo = bound
			case token.GTR, token.NEQ:
				c.Lo = bound.plus(affConst(1), 1)
			default:
				continue
			}
		}
		c.Lo = c.Lo.plus(s.lo, 1)
		c.Hi = c.Hi.plus(s.lo, 1)
		return c
	}
	return nil
}

func negOp(o token.Token) token.Token {
	switch o {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return token.ILLEGAL
}

func swapOp(o token.Token) token.Token {
	switch o {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return o
}

// vctxOf builds the value context of an engine frame.
func vctxOf(f *Frame) *vctx {
	if f == nil {
		return nil
	}
	x := &vctx{fn: f.Fn}
	if f.Caller != nil {
		if s, ok := f.Site.(ssa.CallInstruction); ok && len(f.Fn.Params) == len(f.Args) && s.Common().Signature().Variadic() == f.Fn.Signature.Variadic() {
			x.site, x.up = s, vctxOf(f.Caller)
		}
	}
	return x
}

// wholeLoop: the loop visits every element of the slice.
func (c *coverage) whole() bool {
	return c != nil && len(c.Lo) == 0 && c.Hi.eq(aff{"len:" + c.Slice: 1}) || c != nil && c.Lo.eq(c.Whole.lo) && c.Hi.eq(c.Whole.hi)
}

// loopBlocks is the natural loop of a header block, or nil if the block heads no loop.
func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			work = append(work, p)
		}
	}
	if work == nil {
		return nil
	}
	r := map[*ssa.BasicBlock]bool{h: true}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if r[b] {
			continue
		}
		r[b] = true
		work = append(work, b.Preds...)
	}
	return r
}

// eachTurn: every completed turn of the loop headed by h executes the block.
func eachTurn(h, b *ssa.BasicBlock) bool {
	for _, p := range h.Preds {
		if h.Dominates(p) && !b.Dominates(p) {
			return false
		}
	}
	return true
}

// leavesOnlyFailing: apart from the header, every block of the loop that leads out of it only leads to an error.
func leavesOnlyFailing(h *ssa.BasicBlock) bool {
	body := loopBlocks(h)
	for b := range body {
		if b == h {
			continue
		}
		for _, s := range b.Succs {
			if !body[s] && !onlyErrors(s, map[*ssa.BasicBlock]bool{}) {
				return false
			}
		}
	}
	return true
}

// loopOver: the innermost loop around the block, by header.
func loopAround(b *ssa.BasicBlock) *ssa.BasicBlock {
	for h := b; h != nil; h = h.Idom() {
		if body := loopBlocks(h); body != nil && body[b] {
			return h
		}
	}
	return nil
}
