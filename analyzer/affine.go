package main

import (
	"fmt"
	"sort"
	"strings"
)

// Lin is a linear combination of symbolic big.Int values (entry contents of locations or opaque values).
type Lin struct {
	C map[string]int64 // key of atom -> coefficient ("1" = constant unit)
	T map[string]*Term
}

func newLin() *Lin { return &Lin{C: map[string]int64{}, T: map[string]*Term{}} }

func linConst(n int64) *Lin {
	l := newLin()
	if n != 0 {
		l.C["1"] = n
	}
	return l
}

func linAtom(t *Term) *Lin {
	l := newLin()
	l.C[t.key] = 1
	l.T[t.key] = t
	return l
}

func (a *Lin) add(b *Lin, k int64) *Lin {
	r := newLin()
	for x, c := range a.C {
		r.C[x] = c
		if t, ok := a.T[x]; ok {
			r.T[x] = t
		}
	}
	for x, c := range b.C {
		r.C[x] += k * c
		if r.C[x] == 0 {
			delete(r.C, x)
			delete(r.T, x)
		} else if t, ok := b.T[x]; ok {
			r.T[x] = t
		}
	}
	return r
}

func (a *Lin) Eq(b *Lin) bool { return a.String() == b.String() }

func (a *Lin) String() string {
	ks := make([]string, 0, len(a.C))
	for k := range a.C {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var p []string
	for _, k := range ks {
		p = append(p, fmt.Sprintf("%+d*%s", a.C[k], k))
	}
	if len(p) == 0 {
		return "0"
	}
	return strings.Join(p, " ")
}

// Human renders with readable atom names.
func (a *Lin) Human() string {
	ks := make([]string, 0, len(a.C))
	for k := range a.C {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var p []string
	for _, k := range ks {
		n := "1"
		if t, ok := a.T[k]; ok {
			n = t.String()
		}
		switch a.C[k] {
		case 1:
			p = append(p, "+"+n)
		case -1:
			p = append(p, "-"+n)
		default:
			p = append(p, fmt.Sprintf("%+d·%s", a.C[k], n))
		}
	}
	if len(p) == 0 {
		return "0"
	}
	return strings.Join(p, " ")
}

// Val returns the symbolic value of the big.Int object denoted by pointer term o.
func (en *Engine) Val(st *State, o *Term) *Lin {
	if l, ok := st.num[o.key]; ok {
		return l
	}
	if o.Op == "alloc" {
		return linConst(0)
	}
	if k := en.kind(st, o); k == "nil" {
		return linConst(0)
	}
	if o.Op == "call" && o.Name == "math/big.NewInt" && len(o.CArg) == 1 {
		return en.intLin(o.CArg[0])
	}
	return linAtom(o)
}

func (en *Engine) intLin(t *Term) *Lin {
	if n, ok := t.Int(); ok {
		return linConst(n)
	}
	if t.Op == "un" && t.Name == "-" {
		return newLin().add(en.intLin(t.Args[0]), -1)
	}
	return linAtom(t)
}

// affineCall models the methods of *big.Int.
func (en *Engine) affineCall(st *State, c *Call) ([]*State, bool) {
	const p = "(*math/big.Int)."
	if c.Name == "math/big.NewInt" {
		en.opaque(c.F, st, c)
		if c.Value != nil {
			t := en.Res(st, c, 0)
			st.known[t.key] = knownRec{"nonnil", t}
			st.num[t.key] = en.intLin(c.Args[0])
		}
		return []*State{st}, true
	}
	if !strings.HasPrefix(c.Name, p) {
		return nil, false
	}
	m := c.Name[len(p):]
	set := func(l *Lin) {
		st.num[c.Args[0].key] = l
		if c.Value != nil && c.Sig.Results().Len() == 1 {
			st.alias[vkey{c.F, c.Value, -1}] = c.Args[0]
		}
	}
	switch m {
	case "Add":
		set(en.Val(st, c.Args[1]).add(en.Val(st, c.Args[2]), 1))
	case "Sub":
		set(en.Val(st, c.Args[1]).add(en.Val(st, c.Args[2]), -1))
	case "Neg":
		set(newLin().add(en.Val(st, c.Args[1]), -1))
	case "Set":
		set(en.Val(st, c.Args[1]))
	case "SetInt64", "SetUint64":
		set(en.intLin(c.Args[1]))
	case "Cmp":
		d := en.Val(st, c.Args[0]).add(en.Val(st, c.Args[1]), -1)
		en.signTerm(st, c, d)
	case "CmpAbs":
		en.opaque(c.F, st, c)
	case "Sign":
		en.signTerm(st, c, en.Val(st, c.Args[0]))
	case "String", "Text", "Int64", "Uint64", "IsInt64", "BitLen", "Bytes", "IsUint64", "Format", "MarshalJSON", "MarshalText":
		en.opaque(c.F, st, c)
	default:
		// any other mutator: value becomes unknown
		var ops []*Lin
		for _, a := range c.Args[1:] {
			if en.isBigInt(a) || a.Op == "alloc" || a.Op == "param" || a.Op == "load" || a.Op == "call" || a.Op == "fieldv" || a.Op == "res" {
				ops = append(ops, en.Val(st, a))
			}
		}
		en.opaque(c.F, st, c)
		t := en.mk("bigop", m, c.siteVal(), c.F)
		if en.opVals == nil {
			en.opVals = map[string][]*Lin{}
		}
		en.opVals[t.key] = ops
		st.num[c.Args[0].key] = linAtom(t)
		if c.Value != nil && c.Sig.Results().Len() == 1 {
			st.alias[vkey{c.F, c.Value, -1}] = c.Args[0]
		}
	}
	return []*State{st}, true
}

// signTerm binds the call result to a canonical sign term of linear expression d.
// Its key is "sign(<lin>)"; -d is represented as the negation of sign(d).
func (en *Engine) signTerm(st *State, c *Call, d *Lin) {
	neg := newLin().add(d, -1)
	flip := neg.String() < d.String()
	if flip {
		d = neg
	}
	t := en.mk("pure", "sign["+d.String()+"]", nil, nil)
	en.lins[t.key] = d
	if flip {
		t = en.mk("un", "-", nil, nil, t)
	}
	if c.Value != nil {
		st.alias[vkey{c.F, c.Value, -1}] = t
	}
}

// SignCond interprets a branch condition as a constraint on the sign of a linear expression.
// It returns the expression and the set of allowed signs {-1,0,1} when cond has the given outcome.
func (en *Engine) SignCond(cond *Term, taken bool) (*Lin, map[int]bool) {
	if cond.Op != "bin" || (cond.Name != "==" && cond.Name != "<") {
		return nil, nil
	}
	side := func(t *Term) (*Lin, bool, bool) { // lin, negated, ok
		if t.Op == "un" && t.Name == "-" {
			if l, ok := en.lins[t.Args[0].key]; ok {
				return l, true, true
			}
		}
		if l, ok := en.lins[t.key]; ok {
			return l, false, true
		}
		return nil, false, false
	}
	a, b := cond.Args[0], cond.Args[1]
	out := map[int]bool{}
	if l, ng, ok := side(a); ok {
		k, isC := b.Int()
		if !isC {
			return nil, nil
		}
		for s := -1; s <= 1; s++ {
			v := int64(s)
			if ng {
				v = -v
			}
			r := v == k
			if cond.Name == "<" {
				r = v < k
			}
			if r == taken {
				out[s] = true
			}
		}
		return l, out
	}
	if l, ng, ok := side(b); ok {
		k, isC := a.Int()
		if !isC {
			return nil, nil
		}
		for s := -1; s <= 1; s++ {
			v := int64(s)
			if ng {
				v = -v
			}
			r := v == k
			if cond.Name == "<" {
				r = k < v
			}
			if r == taken {
				out[s] = true
			}
		}
		return l, out
	}
	return nil, nil
}
