package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a canonical symbolic description of an SSA value in an inlining context.
type Term struct {
	Op   string
	Name string
	Args []*Term
	CArg []*Term // arguments of the (site-bound) call that produced the value, as last seen
	V    ssa.Value
	Fn   *ssa.Function
	F    *Frame // frame the term is tied to (site-bound terms)
	key  string
	deep int // nesting depth
	fr   *Frame
}

func (t *Term) Key() string { return t.key }

// Frame is one activation of a function in the (bounded) inlining tree.
type Frame struct {
	ID     int
	Fn     *ssa.Function
	Caller *Frame
	Site   ssa.Instruction
	Args   []*Term
	Free   []*Term
	Depth  int
}

func (f *Frame) Has(fn *ssa.Function) bool {
	for ; f != nil; f = f.Caller {
		if f.Fn == fn {
			return true
		}
	}
	return false
}

// Within reports whether f is g or a descendant of g.
func (f *Frame) Within(g *Frame) bool {
	for ; f != nil; f = f.Caller {
		if f == g {
			return true
		}
	}
	return false
}

func (en *Engine) mk(op, name string, v ssa.Value, f *Frame, args ...*Term) *Term {
	t := &Term{Op: op, Name: name, Args: args, V: v, F: f}
	var b strings.Builder
	b.WriteString(op)
	if name != "" {
		b.WriteByte(':')
		b.WriteString(name)
	}
	t.fr = f
	for _, a := range args {
		if a.deep+1 > t.deep {
			t.deep = a.deep + 1
		}
		if a.fr != nil && (t.fr == nil || a.fr.Depth > t.fr.Depth) {
			t.fr = a.fr
		}
	}
	switch op {
	case "field", "load", "index", "bin", "un", "const", "param", "free", "fn", "global", "fieldv", "lookup", "len", "zero", "conv", "iface", "slice", "res", "pure", "indexv", "slicelit":
		if len(args) > 0 {
			b.WriteByte('(')
			for i, a := range args {
				if i > 0 {
					b.WriteByte(',')
				}
				b.WriteString(a.key)
			}
			b.WriteByte(')')
		}
	default: // site-bound
		fmt.Fprintf(&b, "#%d", en.siteID(v))
		if f != nil {
			fmt.Fprintf(&b, "@%d", f.ID)
		}
	}
	t.key = b.String()
	if len(t.key) > 600 {
		t.key = fmt.Sprintf("%s…%x", t.key[:200], keyHash(t.key))
	}
	if o, ok := en.terms[t.key]; ok {
		return o
	}
	en.terms[t.key] = t
	return t
}

func keyHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// String renders a term for humans.
func (t *Term) String() string {
	if t == nil {
		return "?"
	}
	switch t.Op {
	case "const":
		return t.Name
	case "zero":
		return "zero"
	case "param", "free":
		if t.V != nil {
			return t.V.Name()
		}
		return t.Name
	case "field":
		return t.Args[0].String() + "." + t.Name
	case "fieldv":
		return t.Args[0].String() + "." + t.Name
	case "load":
		return t.Args[0].String()
	case "iface", "conv":
		return t.Args[0].String()
	case "index", "lookup", "indexv":
		return t.Args[0].String() + "[" + t.Args[1].String() + "]"
	case "bin":
		return "(" + t.Args[0].String() + " " + t.Name + " " + t.Args[1].String() + ")"
	case "un":
		return t.Name + t.Args[0].String()
	case "len":
		return "len(" + t.Args[0].String() + ")"
	case "call":
		return t.Name + "(…)"
	case "pure":
		var a []string
		for _, x := range t.Args {
			s := x.String()
			if len(s) > 60 {
				s = s[:60] + "…"
			}
			a = append(a, s)
		}
		return t.Name + "(" + strings.Join(a, ", ") + ")"
	case "res":
		return t.Args[0].String() + "#" + t.Name
	case "fn":
		return t.Name
	case "global":
		return t.Name
	case "alloc":
		if a, ok := t.V.(*ssa.Alloc); ok && a.Comment != "" {
			return a.Comment
		}
		return "local"
	}
	return t.Op + ":" + t.Name
}

// Path returns the trailing field-name chain of an access path (x.a.b -> base x, [a b]).
func (t *Term) Path() (base *Term, fields []string) {
	for t != nil {
		switch t.Op {
		case "load", "iface", "conv":
			t = t.Args[0]
			continue
		case "field", "fieldv":
			fields = append([]string{t.Name}, fields...)
			t = t.Args[0]
			continue
		}
		break
	}
	return t, fields
}

// IsField reports whether t reads/addresses field name (directly).
func (t *Term) IsField(name string) bool {
	t = t.Strip()
	return t != nil && (t.Op == "field" || t.Op == "fieldv") && t.Name == name
}

// Strip removes loads, conversions and interface wrapping.
func (t *Term) Strip() *Term {
	for t != nil && (t.Op == "load" || t.Op == "iface" || t.Op == "conv") {
		t = t.Args[0]
	}
	return t
}

// Mentions reports whether any subterm satisfies p.
func (t *Term) Mentions(p func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if p(x) {
			return true
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (t *Term) IsConst() bool { return t != nil && t.Op == "const" }

// Str returns the string value of a string constant.
func (t *Term) Str() (string, bool) {
	t = t.unconv()
	if t == nil || t.Op != "const" {
		return "", false
	}
	if c, ok := t.V.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value), true
	}
	if len(t.Name) >= 2 && t.Name[0] == '"' {
		return unq(t.Name), true
	}
	return "", false
}

func (t *Term) unconv() *Term {
	for t != nil && (t.Op == "conv" || t.Op == "iface") {
		t = t.Args[0]
	}
	return t
}

func (t *Term) Int() (int64, bool) {
	t = t.unconv()
	if t == nil || t.Op != "const" {
		return 0, false
	}
	if c, ok := t.V.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		n, ok := constant.Int64Val(c.Value)
		return n, ok
	}
	var n int64
	if _, err := fmt.Sscanf(t.Name, "%d", &n); err == nil {
		return n, true
	}
	return 0, false
}

func unq(s string) string {
	if v := constant.MakeFromLiteral(s, token.STRING, 0); v.Kind() == constant.String {
		return constant.StringVal(v)
	}
	return strings.Trim(s, `"`)
}

func (en *Engine) constTerm(c *ssa.Const) *Term {
	name := "nil"
	if c.Value != nil {
		switch c.Value.Kind() {
		case constant.String:
			name = fmt.Sprintf("%q", constant.StringVal(c.Value))
		default:
			name = c.Value.ExactString()
		}
	} else if !isNillable(c.Type()) {
		return en.mk("zero", typeName(c.Type()), nil, nil)
	}
	t := en.mk("const", name, c, nil)
	return t
}

func (en *Engine) strTerm(s string) *Term { return en.mk("const", fmt.Sprintf("%q", s), nil, nil) }

func isNillable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return t.Underlying().(*types.Basic).Kind() == types.UntypedNil || t.Underlying().(*types.Basic).Kind() == types.UnsafePointer
	}
	return false
}

func (en *Engine) zeroTerm(t types.Type) *Term {
	if isNillable(t) {
		return en.mk("const", "nil", nil, nil)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return en.mk("const", "false", nil, nil)
		case b.Info()&types.IsString != 0:
			return en.mk("const", `""`, nil, nil)
		case b.Info()&types.IsNumeric != 0:
			return en.mk("const", "0", nil, nil)
		}
	}
	return en.mk("zero", typeName(t), nil, nil)
}

func isErr(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func sortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
