package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// ---- recognising database/sql calls ----

var sqlMeth = regexp.MustCompile(`^\(\*database/sql\.(DB|Tx|Conn|Stmt)\)\.(Exec|ExecContext|Query|QueryContext|QueryRow|QueryRowContext|Prepare|PrepareContext)$`)

// SQLEvent is one statement handed to database/sql on some path.
type SQLEvent struct {
	Recv   string // DB, Tx, Conn, Stmt
	Op     string // Exec, Query, QueryRow, Prepare
	Handle *Term
	Text   []Part
	Args   []*Term // bound parameters (nil if unknown)
	ArgsOK bool
	Call   *Call
}

// Part is a literal piece of text or a hole.
type Part struct {
	Lit  string
	Hole *Term
}

func isSQLName(n string) bool { return sqlMeth.MatchString(n) }

// SQLOf decodes a call; nil if it is not a database/sql statement call.
func (en *Engine) SQLOf(st *State, c *Call) *SQLEvent {
	m := sqlMeth.FindStringSubmatch(c.Name)
	if m == nil {
		return nil
	}
	ev := &SQLEvent{Recv: m[1], Op: strings.TrimSuffix(m[2], "Context"), Handle: c.Args[0], Call: c}
	args := en.AllArgs(st, c)
	rest := args[1:]
	if strings.HasSuffix(m[2], "Context") {
		rest = rest[1:]
	}
	if ev.Recv == "Stmt" {
		ev.Text = nil
		if q := en.stmtText(st, c.Args[0]); q != nil {
			ev.Text = q
		}
	} else {
		ev.Text = en.Text(st, rest[0])
		rest = rest[1:]
	}
	if ev.Op == "Prepare" {
		ev.ArgsOK = false
		if c.Value != nil {
			st.vals["stmt:"+en.callTerm(st, c.F, c.Value).key] = en.strTerm(Flat(ev.Text))
		}
		return ev
	}
	if c.Sig.Variadic() {
		if _, ok := en.VarArgs(st, c.Args[len(c.Args)-1]); ok {
			ev.ArgsOK = true
			ev.Args = rest
		}
	}
	return ev
}

// stmtText finds the text a prepared statement was made from.
func (en *Engine) stmtText(st *State, h *Term) []Part {
	if h.Op == "res" {
		if t, ok := st.vals["stmt:"+h.Args[0].key]; ok {
			return en.Text(st, t)
		}
	}
	return nil
}

// Text folds a string term into literal pieces and holes.
func (en *Engine) Text(st *State, t *Term) []Part {
	if t == nil {
		return nil
	}
	if s, ok := t.Str(); ok {
		return []Part{{Lit: s}}
	}
	switch t.Op {
	case "conv", "iface":
		return en.Text(st, t.Args[0])
	case "bin":
		if t.Name == "+" {
			return joinParts(en.Text(st, t.Args[0]), en.Text(st, t.Args[1]))
		}
	case "pure", "call":
		targs := t.Args
		if t.Op == "call" {
			targs = t.CArg
		}
		if t.Name == "fmt.Sprintf" && len(targs) > 0 {
			if f, ok := targs[0].Str(); ok {
				args := targs[1:]
				if t.Op == "call" && len(args) == 1 {
					if va, ok := en.VarArgs(st, args[0]); ok {
						args = va
					}
				}
				return en.sprintf(st, f, args)
			}
		}
		if t.Name == "strings.Join" && len(targs) == 2 {
			if va, ok := en.VarArgs(st, targs[0]); ok {
				var out []Part
				for i, a := range va {
					if i > 0 {
						out = joinParts(out, en.Text(st, targs[1]))
					}
					out = joinParts(out, en.Text(st, a))
				}
				return out
			}
		}
		if t.Name == "strings.TrimSpace" {
			return en.Text(st, targs[0])
		}
		if strings.HasSuffix(t.Name, "strings.Builder).String") && len(targs) == 1 {
			if v, ok := st.vals["sb:"+targs[0].key]; ok {
				return en.Text(st, v)
			}
		}
		if strings.HasPrefix(t.Name, "github.com/lib/pq.CopyIn") {
			var s []string
			args := targs
			if t.Op == "call" && len(args) > 0 {
				if va, ok := en.VarArgs(st, args[len(args)-1]); ok {
					args = append(append([]*Term{}, args[:len(args)-1]...), va...)
				}
			}
			for _, a := range args {
				x, ok := a.Str()
				if !ok {
					return []Part{{Hole: t}}
				}
				s = append(s, x)
			}
			if strings.HasSuffix(t.Name, "Schema") && len(s) > 2 {
				return []Part{{Lit: "COPY " + s[0] + "." + s[1] + " (" + strings.Join(s[2:], ", ") + ") FROM STDIN"}}
			}
			if len(s) > 1 {
				return []Part{{Lit: "COPY " + s[0] + " (" + strings.Join(s[1:], ", ") + ") FROM STDIN"}}
			}
		}
	}
	return []Part{{Hole: t}}
}

var verbRe = regexp.MustCompile(`%[-+# 0]*[0-9]*(\.[0-9]+)?(\[[0-9]+\])?[a-zA-Z%]`)

func (en *Engine) sprintf(st *State, f string, args []*Term) []Part {
	var out []Part
	i, last := 0, 0
	for _, m := range verbRe.FindAllStringIndex(f, -1) {
		out = joinParts(out, []Part{{Lit: f[last:m[0]]}})
		last = m[1]
		v := f[m[0]:m[1]]
		if v == "%%" {
			out = joinParts(out, []Part{{Lit: "%"}})
			continue
		}
		idx := i
		if k := strings.Index(v, "["); k >= 0 {
			fmt.Sscanf(v[k:], "[%d]", &idx)
			idx--
		}
		i = idx + 1
		if idx < len(args) {
			if n, ok := args[idx].Int(); ok && strings.HasSuffix(v, "d") {
				out = joinParts(out, []Part{{Lit: fmt.Sprint(n)}})
			} else if strings.HasSuffix(v, "d") {
				out = joinParts(out, []Part{{Hole: args[idx]}})
			} else {
				out = joinParts(out, en.Text(st, args[idx]))
			}
		} else {
			out = joinParts(out, []Part{{Hole: en.mk("const", "missing", nil, nil)}})
		}
	}
	return joinParts(out, []Part{{Lit: f[last:]}})
}

func joinParts(a, b []Part) []Part {
	out := append([]Part{}, a...)
	for _, p := range b {
		if p.Hole == nil && p.Lit == "" {
			continue
		}
		if n := len(out); n > 0 && out[n-1].Hole == nil && p.Hole == nil {
			out[n-1] = Part{Lit: out[n-1].Lit + p.Lit}
			continue
		}
		out = append(out, p)
	}
	return out
}

// Flat renders the text with holes as ⟨⟩.
func Flat(ps []Part) string {
	var b strings.Builder
	for _, p := range ps {
		if p.Hole != nil {
			b.WriteString("⟨⟩")
		} else {
			b.WriteString(p.Lit)
		}
	}
	return b.String()
}

// StringBuilderCall models strings.Builder writes (call from a rule's Call hook).
func (en *Engine) StringBuilderCall(st *State, c *Call) bool {
	var add *Term
	var sb *Term
	switch c.Name {
	case "(*strings.Builder).WriteString":
		sb, add = c.Args[0], c.Args[1]
	case "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune":
		sb = c.Args[0]
		if n, ok := c.Args[1].Int(); ok {
			add = en.strTerm(string(rune(n)))
		} else {
			add = c.Args[1]
		}
	case "fmt.Fprintf":
		sb = c.Args[0].Strip()
		if sb.Op == "alloc" && typeName(sb.V.Type()) == "strings.Builder" {
			args := en.AllArgs(st, c)
			add = en.mk("pure", "fmt.Sprintf", nil, nil, args[1:]...)
		} else {
			return false
		}
	case "fmt.Fprint":
		return false
	case "(*strings.Builder).Reset":
		delete(st.vals, "sb:"+c.Args[0].key)
		en.opaque(c.F, st, c)
		return true
	case "(*strings.Builder).String":
		en.opaque(c.F, st, c)
		t := en.Res(st, c, 0)
		_ = t
		return true
	default:
		return false
	}
	en.opaque(c.F, st, c)
	k := "sb:" + sb.key
	cur, ok := st.vals[k]
	if !ok {
		cur = en.strTerm("")
	}
	if c.Site != nil && c.F != nil && en.W.inLoop(c.F.Fn)[c.Site.Block()] {
		hole := en.mk("opaque", "loop", c.Site.(ssa.Value), c.F)
		if cur.Op == "bin" && cur.Args[1].Op == "opaque" && cur.Args[1].Name == "loop" {
			return true
		}
		add = hole
	}
	st.vals[k] = en.binop(tokADD, cur, add)
	return true
}

// ---- SQL lexer and light parser ----

// Tok is an SQL token; kind: w (word), q (quoted ident), s (string), n (number), p (placeholder), o (operator/punct), h (hole).
type Tok struct {
	K string
	S string
}

func lexSQL(s string) []Tok {
	var out []Tok
	r := []rune(s)
	for i := 0; i < len(r); {
		c := r[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case c == '-' && i+1 < len(r) && r[i+1] == '-':
			for i < len(r) && r[i] != '\n' {
				i++
			}
		case c == '/' && i+1 < len(r) && r[i+1] == '*':
			i += 2
			for i+1 < len(r) && !(r[i] == '*' && r[i+1] == '/') {
				i++
			}
			i += 2
		case c == '\'':
			j := i + 1
			for j < len(r) {
				if r[j] == '\'' {
					if j+1 < len(r) && r[j+1] == '\'' {
						j += 2
						continue
					}
					break
				}
				j++
			}
			out = append(out, Tok{"s", string(r[i+1 : min(j, len(r))])})
			i = j + 1
		case c == '"':
			j := i + 1
			for j < len(r) && r[j] != '"' {
				j++
			}
			out = append(out, Tok{"w", string(r[i+1 : min(j, len(r))])})
			i = j + 1
		case c == '$' && i+1 < len(r) && unicode.IsDigit(r[i+1]):
			j := i + 1
			for j < len(r) && unicode.IsDigit(r[j]) {
				j++
			}
			out = append(out, Tok{"p", string(r[i+1 : j])})
			i = j
		case c == '$' && i+1 < len(r) && r[i+1] == '$':
			// dollar-quoted body
			j := i + 2
			for j+1 < len(r) && !(r[j] == '$' && r[j+1] == '$') {
				j++
			}
			out = append(out, Tok{"b", string(r[i+2 : min(j, len(r))])})
			i = j + 2
		case c == '$' && i+1 < len(r) && (r[i+1] == '⟨'):
			out = append(out, Tok{"p", "?"})
			i += 3
		case c == '⟨':
			out = append(out, Tok{"h", ""})
			i += 2
		case unicode.IsLetter(c) || c == '_':
			j := i
			for j < len(r) && (unicode.IsLetter(r[j]) || unicode.IsDigit(r[j]) || r[j] == '_') {
				j++
			}
			out = append(out, Tok{"w", string(r[i:j])})
			i = j
		case unicode.IsDigit(c):
			j := i
			for j < len(r) && (unicode.IsDigit(r[j]) || r[j] == '.') {
				j++
			}
			out = append(out, Tok{"n", string(r[i:j])})
			i = j
		default:
			two := ""
			if i+1 < len(r) {
				two = string(r[i : i+2])
			}
			three := ""
			if i+2 < len(r) {
				three = string(r[i : i+3])
			}
			switch {
			case three == "->>" || three == "#>>":
				out = append(out, Tok{"o", three})
				i += 3
			case two == "<=" || two == ">=" || two == "<>" || two == "!=" || two == "::" || two == "||" || two == "->" || two == "@>" || two == "<@" || two == "?|" || two == ":=":
				out = append(out, Tok{"o", two})
				i += 2
			default:
				out = append(out, Tok{"o", string(c)})
				i++
			}
		}
	}
	return out
}

func (t Tok) is(w string) bool { return t.K == "w" && strings.EqualFold(t.S, w) }
func (t Tok) op(o string) bool { return t.K == "o" && t.S == o }

// Stmt is a lightly parsed SQL statement.
type Stmt struct {
	Kind     string // SELECT INSERT UPDATE DELETE COPY OTHER
	Table    string // target table for writes (schema stripped)
	Alias    string
	Cols     []string // INSERT/COPY columns
	Values   [][]Tok  // INSERT first tuple values
	ValHole  bool     // VALUES contains holes at top level
	Set      map[string][]Tok
	SetHole  bool
	Where    [][]Tok // top-level conjuncts
	WhereOK  bool
	Sel      [][]Tok // select list items
	Ret      [][]Tok // RETURNING items
	From     []TableRef
	Subs     []*Stmt // CTEs and subqueries
	CTEs     map[string]*Stmt
	Tail     string // text after WHERE (ORDER/LIMIT/FOR UPDATE/ON CONFLICT ...)
	Toks     []Tok
	OrderBy  []Tok
	Conflict []Tok
	Parent   *Stmt
}

// TableRef is a table in FROM/JOIN with its alias; Sub for derived tables.
type TableRef struct {
	Name  string
	Alias string
	Sub   *Stmt
	Func  bool
}

func tokStr(ts []Tok) string {
	var b []string
	for _, t := range ts {
		switch t.K {
		case "s":
			b = append(b, "'"+t.S+"'")
		case "p":
			b = append(b, "$"+t.S)
		case "h":
			b = append(b, "⟨⟩")
		default:
			b = append(b, t.S)
		}
	}
	return strings.Join(b, " ")
}

// splitTop splits tokens at top-level separator tokens.
func splitTop(ts []Tok, sep func(Tok) bool) [][]Tok {
	var out [][]Tok
	d, last := 0, 0
	for i, t := range ts {
		if t.op("(") {
			d++
		} else if t.op(")") {
			d--
		} else if d == 0 && sep(t) {
			out = append(out, ts[last:i])
			last = i + 1
		}
	}
	out = append(out, ts[last:])
	return out
}

func comma(t Tok) bool { return t.op(",") }

// findTop returns the index of the first top-level token satisfying f at or after i, or -1.
func findTop(ts []Tok, i int, f func(Tok) bool) int {
	d := 0
	for ; i < len(ts); i++ {
		t := ts[i]
		if t.op("(") {
			d++
		} else if t.op(")") {
			d--
			if d < 0 {
				return -1
			}
		} else if d == 0 && f(t) {
			return i
		}
	}
	return -1
}

func word(ws ...string) func(Tok) bool {
	return func(t Tok) bool {
		for _, w := range ws {
			if t.is(w) {
				return true
			}
		}
		return false
	}
}

// matchParen returns the index of the ")" matching ts[i]=="(".
func matchParen(ts []Tok, i int) int {
	d := 0
	for ; i < len(ts); i++ {
		if ts[i].op("(") {
			d++
		} else if ts[i].op(")") {
			d--
			if d == 0 {
				return i
			}
		}
	}
	return len(ts) - 1
}

func parseSQL(s string) *Stmt { return parseToks(lexSQL(s), nil) }

func parseToks(ts []Tok, parent *Stmt) *Stmt {
	st := &Stmt{Set: map[string][]Tok{}, CTEs: map[string]*Stmt{}, Toks: ts, Parent: parent}
	for len(ts) > 0 && ts[len(ts)-1].op(";") {
		ts = ts[:len(ts)-1]
	}
	for len(ts) > 0 && ts[0].op("(") && matchParen(ts, 0) == len(ts)-1 {
		ts = ts[1 : len(ts)-1]
	}
	if len(ts) == 0 {
		st.Kind = "OTHER"
		return st
	}
	if ts[0].is("WITH") {
		i := 1
		if i < len(ts) && ts[i].is("RECURSIVE") {
			i++
		}
		for i < len(ts) {
			if ts[i].K == "h" { // hole in the CTE list
				i++
				continue
			}
			name := ts[i].S
			j := i + 1
			if j < len(ts) && ts[j].op("(") {
				j = matchParen(ts, j) + 1
			}
			if j < len(ts) && ts[j].is("AS") {
				j++
			}
			if j < len(ts) && ts[j].is("NOT") {
				j++
			}
			if j < len(ts) && ts[j].is("MATERIALIZED") {
				j++
			}
			if j >= len(ts) || !ts[j].op("(") {
				break
			}
			e := matchParen(ts, j)
			sub := parseToks(ts[j+1:e], st)
			st.CTEs[strings.ToLower(name)] = sub
			st.Subs = append(st.Subs, sub)
			i = e + 1
			if i < len(ts) && ts[i].op(",") {
				i++
				continue
			}
			break
		}
		if i < len(ts) {
			ts = ts[i:]
		}
	}
	switch {
	case ts[0].is("SELECT"):
		st.parseSelect(ts)
	case ts[0].is("INSERT"):
		st.parseInsert(ts)
	case ts[0].is("UPDATE"):
		st.parseUpdate(ts)
	case ts[0].is("DELETE"):
		st.parseDelete(ts)
	case ts[0].is("COPY"):
		st.Kind = "COPY"
		i, name := qname(ts, 1)
		st.Table = name
		if i < len(ts) && ts[i].op("(") {
			e := matchParen(ts, i)
			for _, c := range splitTop(ts[i+1:e], comma) {
				st.Cols = append(st.Cols, strings.ToLower(tokStr(c)))
			}
		}
	case ts[0].is("VALUES"):
		st.Kind = "VALUES"
		st.Tail = tokStr(ts)
	default:
		st.Kind = "OTHER"
	}
	return st
}

// qname parses [schema.]name at i; returns next index and the bare lower-case name.
func qname(ts []Tok, i int) (int, string) {
	if i >= len(ts) || ts[i].K != "w" {
		if i < len(ts) && ts[i].K == "h" {
			return i + 1, "⟨⟩"
		}
		return i, ""
	}
	name := ts[i].S
	i++
	for i+1 < len(ts) && ts[i].op(".") {
		name = ts[i+1].S
		i += 2
	}
	return i, strings.ToLower(name)
}

var clauseWords = []string{"WHERE", "GROUP", "ORDER", "HAVING", "LIMIT", "OFFSET", "FOR", "UNION", "RETURNING", "ON", "WINDOW", "FETCH", "EXCEPT", "INTERSECT"}

func (st *Stmt) collectSubs(ts []Tok) {
	for i := 0; i < len(ts); i++ {
		if ts[i].op("(") && i+1 < len(ts) && (ts[i+1].is("SELECT") || ts[i+1].is("WITH") || ts[i+1].is("UPDATE") || ts[i+1].is("INSERT")) {
			e := matchParen(ts, i)
			st.Subs = append(st.Subs, parseToks(ts[i+1:e], st))
			i = e
		}
	}
}

func (st *Stmt) parseWhere(ts []Tok, i int) int {
	if i < len(ts) && ts[i].is("WHERE") {
		e := findTop(ts, i+1, word("GROUP", "ORDER", "HAVING", "LIMIT", "OFFSET", "FOR", "UNION", "RETURNING", "WINDOW"))
		if e < 0 {
			e = len(ts)
		}
		body := ts[i+1 : e]
		st.WhereOK = true
		// BETWEEN a AND b: protect
		var conj [][]Tok
		d, last, betw := 0, 0, false
		for k, t := range body {
			if t.op("(") {
				d++
			} else if t.op(")") {
				d--
			} else if d == 0 && t.is("BETWEEN") {
				betw = true
			} else if d == 0 && t.is("AND") {
				if betw {
					betw = false
					continue
				}
				conj = append(conj, body[last:k])
				last = k + 1
			}
		}
		conj = append(conj, body[last:])
		st.Where = conj
		st.collectSubs(body)
		return e
	}
	return i
}

func (st *Stmt) parseFrom(ts []Tok) {
	// ts: everything between FROM and the next clause
	i := 0
	for i < len(ts) {
		t := ts[i]
		switch {
		case t.op(",") || t.is("JOIN") || t.is("LEFT") || t.is("RIGHT") || t.is("INNER") || t.is("OUTER") || t.is("CROSS") || t.is("FULL") || t.is("LATERAL"):
			i++
		case t.is("ON"):
			e := findTop(ts, i+1, func(t Tok) bool {
				return t.op(",") || word("JOIN", "LEFT", "RIGHT", "INNER", "CROSS", "FULL")(t)
			})
			if e < 0 {
				e = len(ts)
			}
			st.collectSubs(ts[i+1 : e])
			i = e
		case t.op("("):
			e := matchParen(ts, i)
			sub := parseToks(ts[i+1:e], st)
			st.Subs = append(st.Subs, sub)
			i = e + 1
			ref := TableRef{Sub: sub}
			if i < len(ts) && ts[i].is("AS") {
				i++
			}
			if i < len(ts) && ts[i].K == "w" && !word("ON", "JOIN", "LEFT", "RIGHT", "INNER", "CROSS", "FULL")(ts[i]) {
				ref.Alias = strings.ToLower(ts[i].S)
				i++
				if i < len(ts) && ts[i].op("(") {
					e2 := matchParen(ts, i)
					for _, c := range splitTop(ts[i+1:e2], comma) {
						sub.Cols = append(sub.Cols, strings.ToLower(tokStr(c)))
					}
					i = e2 + 1
				}
			}
			st.From = append(st.From, ref)
		case t.K == "w":
			j, name := qname(ts, i)
			ref := TableRef{Name: name}
			i = j
			if i < len(ts) && ts[i].op("(") {
				ref.Func = true
				i = matchParen(ts, i) + 1
			}
			if i < len(ts) && ts[i].is("AS") {
				i++
			}
			if i < len(ts) && ts[i].K == "w" && !word("ON", "JOIN", "LEFT", "RIGHT", "INNER", "CROSS", "FULL", "WHERE")(ts[i]) {
				ref.Alias = strings.ToLower(ts[i].S)
				i++
			}
			st.From = append(st.From, ref)
		default:
			i++
		}
	}
}

func (st *Stmt) parseSelect(ts []Tok) {
	st.Kind = "SELECT"
	i := 1
	if i < len(ts) && ts[i].is("DISTINCT") {
		i++
		if i < len(ts) && ts[i].is("ON") {
			i++
			if i < len(ts) && ts[i].op("(") {
				i = matchParen(ts, i) + 1
			}
		}
	}
	f := findTop(ts, i, word("FROM", "WHERE", "UNION", "ORDER", "LIMIT", "GROUP"))
	e := f
	if e < 0 {
		e = len(ts)
	}
	st.Sel = splitTop(ts[i:e], comma)
	st.collectSubs(ts[i:e])
	if f < 0 {
		return
	}
	p := f
	if ts[f].is("FROM") {
		e = findTop(ts, f+1, word("WHERE", "GROUP", "ORDER", "HAVING", "LIMIT", "OFFSET", "FOR", "UNION", "WINDOW"))
		if e < 0 {
			e = len(ts)
		}
		st.parseFrom(ts[f+1 : e])
		p = e
	}
	p = st.parseWhere(ts, p)
	if p < len(ts) {
		st.Tail = tokStr(ts[p:])
		if o := findTop(ts, p, word("ORDER")); o >= 0 {
			e := findTop(ts, o, word("LIMIT", "OFFSET", "FOR"))
			if e < 0 {
				e = len(ts)
			}
			st.OrderBy = ts[o:e]
		}
		if u := findTop(ts, p, word("UNION")); u >= 0 {
			v := u + 1
			if v < len(ts) && ts[v].is("ALL") {
				v++
			}
			if v < len(ts) {
				st.Subs = append(st.Subs, parseToks(ts[v:], st))
			}
		}
	}
}

func (st *Stmt) parseInsert(ts []Tok) {
	st.Kind = "INSERT"
	i := 1
	if i < len(ts) && ts[i].is("INTO") {
		i++
	}
	i, st.Table = qname(ts, i)
	if i < len(ts) && ts[i].is("AS") {
		i += 2
	}
	if i < len(ts) && ts[i].op("(") {
		e := matchParen(ts, i)
		for _, c := range splitTop(ts[i+1:e], comma) {
			st.Cols = append(st.Cols, strings.ToLower(tokStr(c)))
		}
		i = e + 1
	}
	if i < len(ts) && ts[i].is("VALUES") {
		i++
		if i < len(ts) && ts[i].op("(") {
			e := matchParen(ts, i)
			st.Values = splitTop(ts[i+1:e], comma)
			st.collectSubs(ts[i+1 : e])
			i = e + 1
		} else {
			st.ValHole = true
			for i < len(ts) && ts[i].K == "h" {
				i++
			}
		}
	} else if i < len(ts) && (ts[i].is("SELECT") || ts[i].is("WITH")) {
		e := findTop(ts, i, word("ON", "RETURNING"))
		if e < 0 {
			e = len(ts)
		}
		sub := parseToks(ts[i:e], st)
		st.Subs = append(st.Subs, sub)
		st.Values = sub.Sel
		i = e
	}
	if o := findTop(ts, min(i, len(ts)), word("ON")); o >= 0 {
		e := findTop(ts, o, word("RETURNING"))
		if e < 0 {
			e = len(ts)
		}
		st.Conflict = ts[o:e]
	}
	if r := findTop(ts, min(i, len(ts)), word("RETURNING")); r >= 0 {
		st.Ret = splitTop(ts[r+1:], comma)
	}
	if i < len(ts) {
		st.Tail = tokStr(ts[i:])
	}
}

func (st *Stmt) parseSet(ts []Tok) {
	for _, a := range splitTop(ts, comma) {
		if len(a) == 0 {
			continue
		}
		if a[0].K == "h" {
			st.SetHole = true
			continue
		}
		eq := findTop(a, 0, func(t Tok) bool { return t.op("=") })
		if eq < 0 {
			st.SetHole = true
			continue
		}
		_, name := qname(a, 0)
		st.Set[name] = a[eq+1:]
		st.collectSubs(a[eq+1:])
	}
}

func (st *Stmt) parseUpdate(ts []Tok) {
	st.Kind = "UPDATE"
	i := 1
	if i < len(ts) && ts[i].is("ONLY") {
		i++
	}
	i, st.Table = qname(ts, i)
	if i < len(ts) && ts[i].is("AS") {
		i++
	}
	if i < len(ts) && ts[i].K == "w" && !ts[i].is("SET") {
		st.Alias = strings.ToLower(ts[i].S)
		i++
	}
	if i < len(ts) && ts[i].is("SET") {
		e := findTop(ts, i+1, word("FROM", "WHERE", "RETURNING"))
		if e < 0 {
			e = len(ts)
		}
		st.parseSet(ts[i+1 : e])
		i = e
	}
	if i < len(ts) && ts[i].is("FROM") {
		e := findTop(ts, i+1, word("WHERE", "RETURNING"))
		if e < 0 {
			e = len(ts)
		}
		st.parseFrom(ts[i+1 : e])
		i = e
	}
	i = st.parseWhere(ts, i)
	if i < len(ts) && ts[i].is("RETURNING") {
		st.Ret = splitTop(ts[i+1:], comma)
	}
}

func (st *Stmt) parseDelete(ts []Tok) {
	st.Kind = "DELETE"
	i := 1
	if i < len(ts) && ts[i].is("FROM") {
		i++
	}
	i, st.Table = qname(ts, i)
	if i < len(ts) && ts[i].K == "w" && !word("WHERE", "USING", "RETURNING")(ts[i]) {
		st.Alias = strings.ToLower(ts[i].S)
		i++
	}
	if w := findTop(ts, min(i, len(ts)), word("WHERE")); w >= 0 {
		i = st.parseWhere(ts, w)
	}
	if i < len(ts) && ts[i].is("RETURNING") {
		st.Ret = splitTop(ts[i+1:], comma)
	}
}

// All returns the statement and every nested one.
func (st *Stmt) All() []*Stmt {
	out := []*Stmt{st}
	for _, s := range st.Subs {
		out = append(out, s.All()...)
	}
	return out
}

// Writes returns the nested statements that write table (any if "").
func (st *Stmt) Writes(table string) []*Stmt {
	var out []*Stmt
	for _, s := range st.All() {
		switch s.Kind {
		case "INSERT", "UPDATE", "DELETE", "COPY":
			if table == "" || s.Table == table {
				out = append(out, s)
			}
		}
	}
	return out
}

// MaxParam returns the highest $n.
func MaxParam(ts []Tok) (max int, hole bool) {
	for _, t := range ts {
		if t.K == "p" {
			if t.S == "?" {
				hole = true
				continue
			}
			var n int
			fmt.Sscanf(t.S, "%d", &n)
			if n > max {
				max = n
			}
		}
		if t.K == "h" {
			hole = true
		}
	}
	return
}

// SQLSite aggregates all texts observed at one call site.
type SQLSite struct {
	Fn     *ssa.Function
	Site   ssa.Instruction
	Op     string
	Recv   string
	Events []*SQLObs
}

// SQLObs is one observed text with its argument count.
type SQLObs struct {
	Text   string
	Parts  []Part
	NArgs  int
	ArgsOK bool
	Args   []*Term
	Root   *ssa.Function
	Stack  string
	Stmt   *Stmt
}

// ScanObs is a Scan call on rows produced by a known statement.
type ScanObs struct {
	Fn    *ssa.Function
	Site  ssa.Instruction
	Text  string
	Stmt  *Stmt
	Dests []*Term
	OK    bool
}

// FlowObs is a scanned column value stored into a struct field.
type FlowObs struct {
	Fn    *ssa.Function
	Site  ssa.Instruction
	Cols  []string // scanned columns the value derives from
	All   []string // every column of the statement
	Field string
	Type  string
}

// SQLFacts is everything CollectSQL observed.
type SQLFacts struct {
	Sites []*SQLSite
	Scans []*ScanObs
	Flows []*FlowObs
	En    *Engine
}

// selName is the output name of a select item.
func selName(it []Tok) string {
	if len(it) == 0 {
		return ""
	}
	for i := len(it) - 2; i >= 0; i-- {
		if it[i].is("AS") {
			return strings.ToLower(it[i+1].S)
		}
	}
	i, n := qname(it, 0)
	for i+1 < len(it) && it[i].op("::") {
		i += 2
	}
	if i == len(it) && it[0].K == "w" {
		return n
	}
	return ""
}

// Outputs returns the result columns of a row-returning statement (nil if unknown).
func (st *Stmt) Outputs() []string {
	items := st.Sel
	if st.Kind != "SELECT" {
		items = st.Ret
	}
	var out []string
	for _, it := range items {
		for i, t := range it {
			if (t.op("*") && (i == 0 || it[i-1].op("."))) || (t.K == "h" && len(it) == 1) {
				return nil
			}
		}
		out = append(out, selName(it))
	}
	return out
}

// derives collects the scan markers a term is computed from.
func derives(t *Term, seen map[*Term]bool, out map[string]bool) {
	if t == nil || seen[t] || len(seen) > 400 {
		return
	}
	seen[t] = true
	if t.Op == "opaque" && strings.HasPrefix(t.Name, "scan:") {
		out[t.Name[5:]] = true
		return
	}
	for _, a := range t.Args {
		derives(a, seen, out)
	}
	if t.Op == "call" || t.Op == "out" {
		for _, a := range t.CArg {
			derives(a, seen, out)
		}
	}
}

func isScanName(c *Call) bool {
	if c.Method() != "Scan" || len(c.Args) == 0 || !c.Sig.Variadic() {
		return false
	}
	return c.Name == "(*database/sql.Rows).Scan" || c.Name == "(*database/sql.Row).Scan" || c.Iface != ""
}

// takesRows: a parameter is a row source.
func takesRows(f *ssa.Function) bool {
	for _, p := range f.Params {
		s := p.Type().String()
		if s == "*database/sql.Rows" || s == "*database/sql.Row" || s == "*database/sql.Stmt" {
			return true
		}
		if it, ok := p.Type().Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == "Scan" {
					return true
				}
			}
		}
	}
	return false
}

// CollectSQL enumerates every statement text of the module.
func (w *World) CollectSQL() *SQLFacts {
	if w.sqlFacts != nil {
		return w.sqlFacts
	}
	F := &SQLFacts{}
	w.sqlFacts = F
	has := func(f *ssa.Function) bool {
		r := false
		Instrs(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if fn := c.Common().StaticCallee(); fn != nil && isSQLName(fn.String()) {
					r = true
				}
			}
		})
		return r
	}
	reach := map[*ssa.Function]bool{}
	// only through functions of the same package (query builders are inlined because they are called from there)
	q := []*ssa.Function{}
	for _, f := range w.Funcs {
		if has(f) {
			reach[f] = true
			q = append(q, f)
		}
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		for _, c := range w.callers[f] {
			if !reach[c] && fnPkg(c) == fnPkg(f) && w.usesTextParam(f) {
				reach[c] = true
				q = append(q, c)
			}
		}
		if p := f.Parent(); p != nil && !reach[p] {
			reach[p] = true
			q = append(q, p)
		}
	}
	en := NewEngine(w)
	rel := map[*ssa.Function]bool{}
	pk := map[string]bool{}
	for f := range reach {
		rel[f] = true
		if p := fnPkg(f); p != nil {
			pk[p.Path()] = true
		}
	}
	for _, f := range w.Funcs { // text builders
		p := fnPkg(f)
		if p == nil || !pk[p.Path()] || len(f.Blocks) > 60 {
			continue
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			t := f.Signature.Results().At(i).Type().String()
			if t == "string" || t == "[]string" || t == "[]any" || t == "[]interface{}" {
				rel[f] = true
			}
		}
		for _, q := range f.Params {
			if q.Type().String() == "*strings.Builder" {
				rel[f] = true
			}
		}
	}
	for _, f := range w.Funcs {
		if takesRows(f) {
			rel[f] = true
		}
	}
	en.Relevant = rel
	en.SmallMax = 4
	en.NoInline = func(f *ssa.Function) bool {
		p := fnPkg(f)
		return p != nil && (p.Path() == Mod+"/internal/filter" || p.Path() == Mod+"/internal/apierror")
	}
	en.MaxDepth = 6
	sites := map[ssa.Instruction]*SQLSite{}
	var order []ssa.Instruction
	var root *ssa.Function
	seen := map[string]bool{}
	en.H.Call = func(en *Engine, st *State, c *Call) ([]*State, bool) {
		if en.StringBuilderCall(st, c) {
			return []*State{st}, true
		}
		if isScanName(c) {
			q, ok := st.vals["rows:"+c.Args[0].Strip().key]
			if !ok {
				return nil, false
			}
			text, _ := q.Str()
			en.opaque(c.F, st, c)
			o := &ScanObs{Fn: c.F.Fn, Site: c.Site, Text: text, Stmt: parseSQL(text)}
			if d, ok := en.VarArgs(st, c.Args[len(c.Args)-1]); ok && c.Args[len(c.Args)-1].Op != "const" {
				o.Dests, o.OK = d, true
				outs := o.Stmt.Outputs()
				for i, a := range d {
					a = a.unconv()
					if i < len(outs) && outs[i] != "" && (a.Op == "alloc" || a.Op == "field") {
						en.SetMem(st, a, en.mk("opaque", "scan:"+outs[i], c.siteVal(), c.F))
					}
				}
				st.vals["scanned"] = en.strTerm(strings.Join(outs, ","))
			}
			k := fmt.Sprintf("scan|%d|%s|%d", en.instrID(c.Site), text, len(o.Dests))
			if !seen[k] {
				seen[k] = true
				F.Scans = append(F.Scans, o)
			}
			return []*State{st}, true
		}
		ev := en.SQLOf(st, c)
		if ev == nil {
			return nil, false
		}
		if c.Value != nil && (ev.Op == "Query" || ev.Op == "QueryRow") {
			ct := en.callTerm(st, c.F, c.Value)
			if ev.Op == "Query" {
				ct = en.mk("res", "0", nil, nil, ct)
			}
			st.vals["rows:"+ct.key] = en.strTerm(Flat(ev.Text))
		}
		s := sites[c.Site]
		if s == nil {
			s = &SQLSite{Fn: c.F.Fn, Site: c.Site, Op: ev.Op, Recv: ev.Recv}
			sites[c.Site] = s
			order = append(order, c.Site)
		}
		txt := Flat(ev.Text)
		n := len(ev.Args)
		k := fmt.Sprintf("%d|%s|%d|%v|%v", en.instrID(c.Site), txt, n, ev.ArgsOK, root)
		if !seen[k] {
			seen[k] = true
			o := &SQLObs{Text: txt, Parts: ev.Text, NArgs: n, ArgsOK: ev.ArgsOK, Args: ev.Args, Root: root, Stack: en.Stack(c.F)}
			if txt != "" {
				o.Stmt = parseSQL(txt)
			}
			s.Events = append(s.Events, o)
		}
		return nil, false
	}
	en.H.Store = func(en *Engine, st *State, addr, val *Term, in ssa.Instruction, f *Frame) {
		if addr.Op != "field" {
			return
		}
		cols := map[string]bool{}
		derives(val, map[*Term]bool{}, cols)
		if len(cols) == 0 {
			return
		}
		typ := ""
		if x, ok := in.(*ssa.Store); ok {
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				typ = typeName(fa.X.Type())
			}
		}
		all := ""
		if t, ok := st.vals["scanned"]; ok {
			all, _ = t.Str()
		}
		k := fmt.Sprintf("flow|%d|%v|%s", en.instrID(in), sortedKeys(cols), all)
		if !seen[k] {
			seen[k] = true
			F.Flows = append(F.Flows, &FlowObs{Fn: f.Fn, Site: in, Cols: sortedKeys(cols), All: strings.Split(all, ","), Field: addr.Name, Type: typ})
		}
	}
	for _, f := range w.Funcs {
		if !reach[f] {
			continue
		}
		// run as root unless inlined from a same-package caller that is itself a root
		if f.Parent() != nil {
			continue
		}
		skip := false
		if w.usesTextParam(f) {
			for _, c := range w.callers[f] {
				if c != f && reach[c] {
					skip = true
				}
			}
		}
		if skip {
			continue
		}
		root = f
		if dbgRoots {
			fmt.Println("start", fnName(f))
		}
		en.Run(f, nil)
		if dbgRoots {
			fmt.Println("root", fnName(f), en.Steps, len(en.memo))
		}
	}
	var out []*SQLSite
	for _, in := range order {
		out = append(out, sites[in])
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Site.Pos() < out[j].Site.Pos() })
	F.Sites, F.En = out, en
	return F
}

// usesTextParam: f takes a string (or statement/handle) parameter that may be part of the SQL text.
func (w *World) usesTextParam(f *ssa.Function) bool {
	for i, p := range f.Params {
		if i == 0 && f.Signature.Recv() != nil {
			continue
		}
		s := p.Type().String()
		if s == "string" || s == "[]string" || s == "*strings.Builder" || s == "*database/sql.Stmt" {
			return true
		}
	}
	return len(f.FreeVars) > 0
}

const tokADD = token.ADD

var dbgRoots bool
