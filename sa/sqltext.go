package main

import (
	"strconv"
	"strings"
	"unicode"
)

// A small reader for the SQL the repository contains: statements are tokenised,
// parentheses are nested, and the clauses needed by the rules are picked out.

type sqlTok struct {
	kind byte // 'i' identifier/keyword, 'q' quoted identifier, 's' string, 'n' number, 'p' placeholder, 'o' operator, '(' group
	s    string
	sub  []sqlTok
}

func (t sqlTok) kw(words ...string) bool {
	if t.kind != 'i' {
		return false
	}
	for _, w := range words {
		if strings.EqualFold(t.s, w) {
			return true
		}
	}
	return false
}

func (t sqlTok) ident() bool { return t.kind == 'i' || t.kind == 'q' }

// sqlLex returns nil, false when the text does not tokenise.
func sqlLex(s string) ([]sqlTok, bool) {
	var stack [][]sqlTok
	cur := []sqlTok{}
	q := 0
	rs := []rune(s)
	isId := func(r rune) bool { return r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) }
	for i := 0; i < len(rs); {
		r := rs[i]
		switch {
		case unicode.IsSpace(r):
			i++
		case r == '-' && i+1 < len(rs) && rs[i+1] == '-':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case r == '\'' || r == '"':
			j := i + 1
			for j < len(rs) {
				if rs[j] == r {
					if j+1 < len(rs) && rs[j+1] == r {
						j += 2
						continue
					}
					break
				}
				j++
			}
			if j >= len(rs) {
				return nil, false
			}
			k := byte('s')
			if r == '"' {
				k = 'q'
			}
			cur = append(cur, sqlTok{kind: k, s: string(rs[i+1 : j])})
			i = j + 1
		case r == '(':
			stack = append(stack, cur)
			cur = []sqlTok{}
			i++
		case r == ')':
			if len(stack) == 0 {
				return nil, false
			}
			g := sqlTok{kind: '(', sub: cur}
			cur = append(stack[len(stack)-1], g)
			stack = stack[:len(stack)-1]
			i++
		case r == '?':
			q++
			cur = append(cur, sqlTok{kind: 'p', s: "?" + strconv.Itoa(q)})
			i++
		case r == '$' || (r == ':' || r == '@') && i+1 < len(rs) && isId(rs[i+1]) && (i == 0 || rs[i-1] != ':'):
			j := i + 1
			for j < len(rs) && isId(rs[j]) {
				j++
			}
			cur = append(cur, sqlTok{kind: 'p', s: string(rs[i:j])})
			i = j
		case unicode.IsDigit(r):
			j := i
			for j < len(rs) && (isId(rs[j]) || rs[j] == '.') {
				j++
			}
			cur = append(cur, sqlTok{kind: 'n', s: string(rs[i:j])})
			i = j
		case isId(r):
			j := i
			for j < len(rs) && isId(rs[j]) {
				j++
			}
			cur = append(cur, sqlTok{kind: 'i', s: string(rs[i:j])})
			i = j
		default:
			op := string(r)
			if i+1 < len(rs) {
				switch two := string(rs[i : i+2]); two {
				case "<=", ">=", "<>", "!=", "==", "@@", "||", "::":
					op = two
				}
			}
			cur = append(cur, sqlTok{kind: 'o', s: op})
			i += len([]rune(op))
		}
	}
	if len(stack) > 0 {
		return nil, false
	}
	return cur, true
}

func splitToks(ts []sqlTok, sep func(sqlTok) bool) [][]sqlTok {
	var out [][]sqlTok
	var cur []sqlTok
	for _, t := range ts {
		if sep(t) {
			out = append(out, cur)
			cur = nil
			continue
		}
		cur = append(cur, t)
	}
	if len(cur) > 0 || len(out) > 0 {
		out = append(out, cur)
	}
	return out
}

func isComma(t sqlTok) bool { return t.kind == 'o' && t.s == "," }
func isSemi(t sqlTok) bool  { return t.kind == 'o' && t.s == ";" }

type sqlSource struct {
	table, alias string
	sub          *sqlStmt
}

type sqlCol struct{ qual, name string }

// sqlStmt is one SELECT, INSERT, UPDATE or DELETE.
type sqlStmt struct {
	kind    string // select, insert, update, delete, other
	table   string // target of insert, update, delete
	cols    []string
	vals    [][]sqlTok // inserted expressions, one per column
	insSel  *sqlStmt
	sets    []sqlSet
	items   [][]sqlTok
	from    []sqlSource
	on      [][]sqlTok // join conditions
	where   []sqlTok
	limit   []sqlTok
	order   []sqlTok
	ret     []sqlTok
	hasWher bool
	upsert  bool
}

type sqlSet struct {
	col string
	val []sqlTok
}

var clauseWords = []string{"FROM", "WHERE", "GROUP", "ORDER", "LIMIT", "RETURNING", "ON", "JOIN", "INNER", "LEFT", "CROSS", "LATERAL", "HAVING", "OFFSET", "SET", "VALUES", "AS", "UNION"}

// parseSQL reads the statements of a text; unreadable ones have kind "other".
func parseSQL(s string) []*sqlStmt {
	ts, ok := sqlLex(s)
	if !ok {
		return nil
	}
	var out []*sqlStmt
	for _, st := range splitToks(ts, isSemi) {
		if len(st) == 0 {
			continue
		}
		out = append(out, parseStmt(st))
	}
	return out
}

func parseStmt(ts []sqlTok) *sqlStmt {
	if len(ts) == 0 {
		return &sqlStmt{kind: "other"}
	}
	st := &sqlStmt{kind: "other"}
	i := 0
	switch {
	case ts[0].kw("SELECT"):
		st.kind = "select"
		i = 1
		if i < len(ts) && ts[i].kw("DISTINCT") {
			i++
		}
		j := i
		for j < len(ts) && !ts[j].kw("FROM", "WHERE", "ORDER", "LIMIT") {
			j++
		}
		st.items = splitToks(ts[i:j], isComma)
		i = j
	case ts[0].kw("DELETE"):
		st.kind = "delete"
		i = 1
		if i < len(ts) && ts[i].kw("FROM") && i+1 < len(ts) {
			st.table = ts[i+1].s
			i += 2
			st.from = append(st.from, sqlSource{table: st.table, alias: st.table})
			if i < len(ts) && ts[i].kw("AS") {
				i++
			}
			if i < len(ts) && ts[i].ident() && !ts[i].kw(clauseWords...) {
				st.from[0].alias = ts[i].s
				i++
			}
		}
	case ts[0].kw("UPDATE"):
		st.kind = "update"
		i = 1
		if i < len(ts) {
			st.table = ts[i].s
			st.from = append(st.from, sqlSource{table: st.table, alias: st.table})
			i++
		}
	case ts[0].kw("INSERT"):
		st.kind = "insert"
		i = 1
		for i < len(ts) && !ts[i].kw("INTO") {
			i++
		}
		i++
		if i < len(ts) {
			st.table = ts[i].s
			i++
		}
		if i < len(ts) && ts[i].kind == '(' {
			for _, c := range splitToks(ts[i].sub, isComma) {
				if len(c) == 1 {
					st.cols = append(st.cols, c[0].s)
				} else {
					st.cols = append(st.cols, "")
				}
			}
			i++
		}
		if i < len(ts) && ts[i].kw("VALUES") {
			i++
			if i < len(ts) && ts[i].kind == '(' {
				st.vals = splitToks(ts[i].sub, isComma)
				i++
			}
		} else if i < len(ts) && ts[i].kw("SELECT") {
			j := i
			for j < len(ts) && !ts[j].kw("RETURNING", "ON") {
				j++
			}
			st.insSel = parseStmt(ts[i:j])
			st.vals = st.insSel.items
			i = j
		}
	default:
		return st
	}
	for i < len(ts) {
		t := ts[i]
		switch {
		case t.kw("SET"):
			j := i + 1
			for j < len(ts) && !ts[j].kw("WHERE", "RETURNING", "FROM") {
				j++
			}
			for _, a := range splitToks(ts[i+1:j], isComma) {
				if len(a) >= 3 && a[1].kind == 'o' && a[1].s == "=" {
					st.sets = append(st.sets, sqlSet{a[0].s, a[2:]})
				} else {
					st.sets = append(st.sets, sqlSet{"", a})
				}
			}
			i = j
		case t.kw("FROM"):
			i = st.parseFrom(ts, i+1)
		case t.kw("WHERE"):
			j := i + 1
			for j < len(ts) && !ts[j].kw("GROUP", "ORDER", "LIMIT", "RETURNING", "HAVING") {
				if ts[j].kw("ON") && j+1 < len(ts) && ts[j+1].kw("CONFLICT") {
					break
				}
				j++
			}
			st.where = ts[i+1 : j]
			st.hasWher = true
			i = j
		case t.kw("LIMIT"):
			j := i + 1
			for j < len(ts) && !ts[j].kw("RETURNING", "OFFSET", "ORDER") {
				j++
			}
			st.limit = ts[i+1 : j]
			i = j
		case t.kw("ORDER"):
			j := i + 1
			for j < len(ts) && !ts[j].kw("LIMIT", "RETURNING") {
				j++
			}
			st.order = ts[i+1 : j]
			i = j
		case t.kw("RETURNING"):
			st.ret = ts[i+1:]
			i = len(ts)
		case t.kw("ON"):
			st.upsert = true
			j := i + 1
			for j < len(ts) && !ts[j].kw("RETURNING") {
				j++
			}
			i = j
		default:
			i++
		}
	}
	return st
}

func (st *sqlStmt) parseFrom(ts []sqlTok, i int) int {
	for i < len(ts) {
		t := ts[i]
		if t.kw("WHERE", "GROUP", "ORDER", "LIMIT", "RETURNING", "HAVING", "UNION") {
			return i
		}
		switch {
		case isComma(t), t.kw("JOIN", "INNER", "LEFT", "CROSS", "OUTER", "LATERAL"):
			i++
		case t.kw("ON"):
			j := i + 1
			for j < len(ts) && !ts[j].kw("WHERE", "GROUP", "ORDER", "LIMIT", "RETURNING", "JOIN", "INNER", "LEFT", "CROSS") && !isComma(ts[j]) {
				j++
			}
			st.on = append(st.on, ts[i+1:j])
			i = j
		case t.kind == '(' || t.ident():
			src := sqlSource{}
			if t.kind == '(' {
				src.sub = parseStmt(t.sub)
			} else {
				src.table, src.alias = t.s, t.s
			}
			i++
			if i < len(ts) && ts[i].kw("AS") {
				i++
			}
			if i < len(ts) && ts[i].ident() && !ts[i].kw(clauseWords...) {
				src.alias = ts[i].s
				i++
			}
			st.from = append(st.from, src)
		default:
			i++
		}
	}
	return i
}

// A sqlCond is one conjunct "col op rhs".
type sqlCond struct {
	col sqlCol
	lhs []sqlTok
	op  string
	rhs []sqlTok
}

// conjuncts splits a condition on AND; a condition with OR or NOT at its top
// level yields nothing that can be relied on (opaque is set).
func conjuncts(ts []sqlTok) (out []sqlCond, opaque bool) {
	for len(ts) == 1 && ts[0].kind == '(' {
		ts = ts[0].sub
	}
	for _, t := range ts {
		if t.kw("OR") {
			return nil, true
		}
	}
	for _, c := range splitToks(ts, func(t sqlTok) bool { return t.kw("AND") }) {
		if len(c) == 1 && c[0].kind == '(' {
			sub, op := conjuncts(c)
			if !op {
				out = append(out, sub...)
			}
			continue
		}
		at := -1
		op := ""
		n := 1
		for i, t := range c {
			if t.kind == 'o' && (t.s == "=" || t.s == "==" || t.s == "<" || t.s == ">" || t.s == "<=" || t.s == ">=" || t.s == "<>" || t.s == "!=" || t.s == "@@") {
				at, op = i, t.s
				if op == "==" {
					op = "="
				}
				break
			}
			if t.kw("IN", "MATCH", "LIKE") {
				at, op = i, strings.ToUpper(t.s)
				if i > 0 && c[i-1].kw("NOT") {
					op = "NOT " + op
				}
				break
			}
			if t.kw("IS") {
				at, op = i, "IS"
				if i+3 < len(c) && c[i+1].kw("NOT") && c[i+2].kw("DISTINCT") && c[i+3].kw("FROM") {
					n = 4
				} else if i+1 < len(c) && c[i+1].kw("NOT") {
					op, n = "IS NOT", 2
				}
				break
			}
		}
		if at < 1 || at+n > len(c) {
			out = append(out, sqlCond{lhs: c, op: "?"})
			continue
		}
		cd := sqlCond{lhs: c[:at], op: op, rhs: c[at+n:]}
		cd.col, _ = colRef(cd.lhs)
		if cd.col.name == "" {
			if rc, ok := colRef(cd.rhs); ok {
				// flip
				cd.lhs, cd.rhs = cd.rhs, cd.lhs
				cd.col = rc
				switch op {
				case "<":
					cd.op = ">"
				case ">":
					cd.op = "<"
				case "<=":
					cd.op = ">="
				case ">=":
					cd.op = "<="
				}
			}
		}
		out = append(out, cd)
	}
	return out, false
}

func colRef(ts []sqlTok) (sqlCol, bool) {
	switch {
	case len(ts) == 1 && ts[0].ident() && !ts[0].kw("NULL", "TRUE", "FALSE"):
		return sqlCol{"", ts[0].s}, true
	case len(ts) == 3 && ts[0].ident() && ts[1].s == "." && ts[2].ident():
		return sqlCol{ts[0].s, ts[2].s}, true
	}
	return sqlCol{}, false
}

// placeholders lists the placeholders of a token list, in order.
func placeholders(ts []sqlTok) []string {
	var out []string
	for _, t := range ts {
		if t.kind == 'p' {
			out = append(out, t.s)
		}
		out = append(out, placeholders(t.sub)...)
	}
	return out
}

// Schema.

type sqlColumn struct {
	added      bool // by ALTER TABLE
	name       string
	notNull    bool
	hasDefault bool
	pk         bool
	refTable   string
	refCol     string
	cascade    bool
	generated  bool
}

type sqlTable struct {
	name string
	cols map[string]*sqlColumn
}

type sqlSchema map[string]*sqlTable

func (s sqlSchema) col(table, col string) *sqlColumn {
	if t := s[strings.ToLower(table)]; t != nil {
		return t.cols[strings.ToLower(col)]
	}
	return nil
}

func parseSchema(text string, into sqlSchema) {
	ts, ok := sqlLex(text)
	if !ok {
		return
	}
	for _, st := range splitToks(ts, isSemi) {
		if len(st) < 4 || !st[0].kw("CREATE") || !st[1].kw("TABLE") {
			continue
		}
		i := 2
		for i < len(st) && st[i].kw("IF", "NOT", "EXISTS") {
			i++
		}
		if i+1 >= len(st) || st[i+1].kind != '(' {
			continue
		}
		t := &sqlTable{name: st[i].s, cols: map[string]*sqlColumn{}}
		for _, d := range splitToks(st[i+1].sub, isComma) {
			if len(d) == 0 {
				continue
			}
			if d[0].kw("UNIQUE", "CHECK", "PRIMARY", "CONSTRAINT") {
				continue
			}
			if d[0].kw("FOREIGN") {
				if len(d) >= 5 && d[2].kind == '(' && len(d[2].sub) == 1 && d[3].kw("REFERENCES") {
					if c := t.cols[strings.ToLower(d[2].sub[0].s)]; c != nil {
						setRef(c, d[3:])
					}
				}
				continue
			}
			c := &sqlColumn{name: d[0].s}
			for j := 1; j < len(d); j++ {
				switch {
				case d[j].kw("NOT") && j+1 < len(d) && d[j+1].kw("NULL"):
					c.notNull = true
				case d[j].kw("DEFAULT", "SERIAL", "BIGSERIAL"):
					c.hasDefault = true
				case d[j].kw("GENERATED"):
					c.generated = true
				case d[j].kw("PRIMARY"):
					c.pk = true
				case d[j].kw("REFERENCES"):
					setRef(c, d[j:])
				}
			}
			t.cols[strings.ToLower(c.name)] = c
		}
		into[strings.ToLower(t.name)] = t
	}
}

func setRef(c *sqlColumn, d []sqlTok) {
	if len(d) < 2 {
		return
	}
	c.refTable = d[1].s
	c.refCol = "id"
	if len(d) > 2 && d[2].kind == '(' && len(d[2].sub) == 1 {
		c.refCol = d[2].sub[0].s
	}
	for j := range d {
		if d[j].kw("CASCADE") && j >= 2 && d[j-1].kw("DELETE") {
			c.cascade = true
		}
	}
}

// class names what a column identifies, following foreign keys: two columns of
// one class hold the same kind of identifier.
func (s sqlSchema) class(table, col string) string {
	for i := 0; i < 5; i++ {
		c := s.col(table, col)
		if c == nil || c.refTable == "" {
			break
		}
		table, col = c.refTable, c.refCol
	}
	return strings.ToLower(table) + "." + strings.ToLower(col)
}

// scope resolves column references of a statement.
type sqlScope struct {
	sch sqlSchema
	st  *sqlStmt
	up  *sqlScope
}

// resolve gives the index of the source and the table of a column (-1 when it
// belongs to an enclosing statement or cannot be resolved).
func (sc *sqlScope) resolve(c sqlCol) (src int, table string, col string) {
	for s := sc; s != nil; s = s.up {
		for i, f := range s.st.from {
			if c.qual != "" {
				if !strings.EqualFold(f.alias, c.qual) {
					continue
				}
				if f.sub != nil {
					// derived table: look the output column up in its items
					if t, cc := s.derived(f.sub, c.name); t != "" {
						return pick(s == sc, i), t, cc
					}
					return pick(s == sc, i), "", c.name
				}
				return pick(s == sc, i), f.table, c.name
			}
			if f.sub == nil && s.sch.col(f.table, c.name) != nil {
				return pick(s == sc, i), f.table, c.name
			}
		}
	}
	return -1, "", c.name
}

func pick(local bool, i int) int {
	if local {
		return i
	}
	return -1
}

func (sc *sqlScope) derived(sub *sqlStmt, name string) (table, col string) {
	in := &sqlScope{sch: sc.sch, st: sub, up: sc}
	for _, it := range sub.items {
		expr, as := itemName(it)
		if strings.EqualFold(as, name) {
			if c, ok := colRef(expr); ok {
				_, t, cc := in.resolve(c)
				return t, cc
			}
		}
	}
	return "", ""
}

// itemName splits "expr AS name".
func itemName(it []sqlTok) (expr []sqlTok, as string) {
	n := len(it)
	if n >= 3 && it[n-2].kw("AS") {
		return it[:n-2], it[n-1].s
	}
	if n >= 2 && it[n-1].ident() && it[n-2].kind == '(' {
		return it[:n-1], it[n-1].s
	}
	if c, ok := colRef(it); ok {
		return it, c.name
	}
	return it, ""
}
