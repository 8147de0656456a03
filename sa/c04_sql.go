package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{ID: "C04", Explanation: "Every call into database/sql is found, its text is evaluated by constant propagation (one alternative per combination of optional fragments) and read with a small SQL parser; text, placeholders, row restriction and columns are compared with the argument list, the schema text and the parameters of the database method.",
		Assumptions: []string{"database/sql and the drivers bind placeholders as documented", "the SQL reader understands the subset used here; statements whose text cannot be evaluated are only checked for constant origin"},
		Variants:    []string{"", "moderncsqlite"},
		Run:         runC04})
	register(&property{ID: "C13", Explanation: "For every table and column, the record field the column is read into (Scan destinations) is compared with the fields the column is written from (INSERT and UPDATE arguments), in both database backends.",
		Assumptions: []string{"database/sql converts between column and Go types without loss"},
		Variants:    []string{"", "moderncsqlite"},
		Run:         runC13})
}

// dbKeys: what the scalar parameters of a database method identify.
var dbKeys = map[string][]struct {
	param int
	class string
}{
	"GetUser":                     {{2, "user.username"}},
	"DeleteUser":                  {{2, "user.id"}},
	"ListNetworks":                {{2, "user.id"}},
	"StoreNetwork":                {{2, "user.id"}},
	"DeleteNetwork":               {{2, "network.id"}},
	"ListChannels":                {{2, "network.id"}},
	"StoreChannel":                {{2, "network.id"}},
	"DeleteChannel":               {{2, "channel.id"}},
	"ListDeliveryReceipts":        {{2, "network.id"}},
	"StoreClientDeliveryReceipts": {{2, "network.id"}, {3, "*.client"}},
	"GetReadReceipt":              {{2, "network.id"}, {3, "*.target"}},
	"StoreReadReceipt":            {{2, "network.id"}},
	"ListWebPushSubscriptions":    {{2, "user.id"}, {3, "network.id"}},
	"StoreWebPushSubscription":    {{2, "user.id"}, {3, "network.id"}},
	"DeleteWebPushSubscription":   {{2, "webpushsubscription.id"}},
	"GetMessageLastID":            {{2, "network.id"}, {3, "*.target"}},
	"StoreMessages":               {{2, "network.id"}, {3, "*.target"}},
	"ListMessageLastPerTarget":    {{2, "network.id"}},
	"ListMessages":                {{2, "network.id"}, {3, "*.target"}},
}

func classMatch(want, got string) bool {
	if strings.HasPrefix(want, "*.") {
		return strings.HasSuffix(got, want[1:])
	}
	return want == got
}

type sqlAnchor struct {
	class string
	ph    string
}

// anchors computes how a statement's rows are restricted: the equalities with
// placeholders that hold of every row, and whether every source of rows is
// joined (along foreign keys) to a restricted one.
func (sch sqlSchema) anchors(st *sqlStmt, up *sqlScope) (as []sqlAnchor, all bool) {
	sc := &sqlScope{sch: sch, st: st, up: up}
	n := len(st.from)
	par := make([]int, n)
	anch := make([]bool, n)
	for i := range par {
		par[i] = i
	}
	var find func(i int) int
	find = func(i int) int {
		for par[i] != i {
			i = par[i]
		}
		return i
	}
	var conds []sqlCond
	add := func(ts []sqlTok) {
		cs, _ := conjuncts(ts)
		conds = append(conds, cs...)
	}
	add(st.where)
	for _, o := range st.on {
		add(o)
	}
	for i, f := range st.from {
		if f.sub != nil {
			sub, ok := sch.anchors(f.sub, sc)
			if ok && len(sub) > 0 {
				anch[i] = true
				as = append(as, sub...)
			}
		}
	}
	for _, cd := range conds {
		if cd.op != "=" && cd.op != "IS" && cd.op != "IN" || cd.col.name == "" {
			continue
		}
		i, t, col := sc.resolve(cd.col)
		cls := sch.class(t, col)
		if rc, ok := colRef(cd.rhs); ok && cd.op == "=" {
			j, t2, c2 := sc.resolve(rc)
			if sch.class(t2, c2) != cls {
				continue
			}
			switch {
			case i >= 0 && j >= 0:
				par[find(i)] = find(j)
			case i >= 0:
				anch[i] = true
			case j >= 0:
				anch[j] = true
			}
			continue
		}
		if i < 0 {
			continue
		}
		if len(cd.rhs) == 1 && cd.rhs[0].kind == 'p' && cd.op != "IN" {
			anch[i] = true
			as = append(as, sqlAnchor{cls, cd.rhs[0].s})
			continue
		}
		if len(cd.rhs) == 1 && cd.rhs[0].kind == '(' {
			sub := parseStmt(cd.rhs[0].sub)
			if sub.kind != "select" || len(sub.items) != 1 {
				continue
			}
			c, ok := colRef(sub.items[0])
			if !ok {
				continue
			}
			in := &sqlScope{sch: sch, st: sub, up: sc}
			_, t2, c2 := in.resolve(c)
			if sch.class(t2, c2) != cls {
				continue
			}
			if sa, ok := sch.anchors(sub, sc); ok && len(sa) > 0 {
				anch[i] = true
				as = append(as, sa...)
			}
		}
	}
	all = true
	for i := 0; i < n; i++ {
		ok := false
		for j := 0; j < n; j++ {
			if anch[j] && find(i) == find(j) {
				ok = true
			}
		}
		if !ok {
			all = false
		}
	}
	return as, all
}

// schemas collects each backend's schema from the texts it executes.
func schemas(uses []*sqlUse) map[string]sqlSchema {
	out := map[string]sqlSchema{}
	for _, u := range uses {
		if u.known && strings.Contains(u.text, "CREATE TABLE") {
			if out[u.backend] == nil {
				out[u.backend] = sqlSchema{}
			}
			parseSchema(u.text, out[u.backend])
		}
	}
	return out
}

func (p *Program) useKey(u *sqlUse, st *sqlStmt) string {
	t := st.table
	if t == "" && len(st.from) > 0 {
		t = st.from[0].table
	}
	return fmt.Sprintf("%s.%s: %s %s", u.backend, u.method, strings.ToUpper(st.kind), t)
}

func runC04(p *Program, r *Report) {
	r.Rule("constant-text", "the text of every SQL statement is built from constants and integers only; values reach the database as bound parameters", 60)
	r.Rule("placeholders", "every placeholder of a statement is bound to an argument, positional arguments match the placeholders one to one", 50)
	r.Rule("confined", "every statement of a database method is restricted to the rows the method's parameters identify (all joined sources included), and inserts store them under those identifiers", 50)
	r.Rule("columns", "every table and column named by a statement exists in the backend's schema, and inserts supply as many values as columns and every mandatory column", 40)
	uses := p.sqlUses()
	sch := schemas(uses)

	// constant text: over all call sites, prepared ones included
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		ci, ok := ins.(ssa.CallInstruction)
		if !ok {
			return
		}
		qi, _, _, ok := p.sqlMethod(ci)
		if !ok || qi < 0 {
			return
		}
		if bad := p.nonConstText(callArgs(ci)[qi]); bad != nil {
			r.Bad("constant-text", p.fnID(fn), "%s: the SQL text contains %s", p.at(ins), p.describe(bad))
		} else {
			r.Ok("constant-text", p.at(ins))
		}
	})

	for _, u := range uses {
		if !u.known {
			continue
		}
		bound, argsOK := p.bound(u)
		toks, lexed := sqlLex(u.text)
		sts := parseSQL(u.text)
		if !lexed || len(sts) == 0 {
			r.Bad("placeholders", p.useKey(u, &sqlStmt{kind: "unreadable"}), "%s: the SQL text does not tokenise (unbalanced quotes or parentheses): %.120q", p.at(u.call), u.text)
			continue
		}
		key := p.useKey(u, sts[0])
		if strings.Contains(u.text, "CREATE ") || sts[0].kind == "other" {
			continue
		}
		if argsOK {
			p.checkPlaceholders(r, u, key, toks, bound)
			for _, st := range sts {
				p.checkMatch(r, u, key, st, bound)
			}
		}
		s := sch[u.backend]
		if s == nil {
			continue
		}
		for _, st := range sts {
			key := p.useKey(u, st)
			s.checkColumns(p, r, u, key, st, nil)
			keys := dbKeys[u.method]
			src := func(ph string) map[string]bool {
				if l, ok := bound[ph]; ok {
					return p.sourcesOf(l, u.root)
				}
				return nil
			}
			switch st.kind {
			case "select", "delete":
				if len(keys) == 0 {
					if st.kind == "delete" {
						r.Bad("confined", key, "%s: a DELETE outside the methods that name what to delete", p.at(u.call))
					}
					continue
				}
				as, all := s.anchors(st, nil)
				if !all {
					r.Bad("confined", key, "%s: the statement reads or deletes rows that no condition ties to the method's parameters: %.200q", p.at(u.call), squeeze(u.text))
					continue
				}
				for _, k := range keys {
					ok := false
					for _, a := range as {
						if classMatch(k.class, a.class) && src(a.ph)[fmt.Sprintf("param:%d", k.param)] {
							ok = true
						}
					}
					r.Check(ok || !argsOK, "confined", key+" by "+k.class, "%s: no condition restricts %s to the value passed to %s: %.200q", p.at(u.call), k.class, u.method, squeeze(u.text))
				}
			case "update":
				as, all := s.anchors(st, nil)
				ok := false
				for _, a := range as {
					id := s.class(st.table, "id")
					for path := range src(a.ph) {
						if a.class == id && strings.HasSuffix(path, ".ID") && strings.EqualFold(path, st.table+".ID") {
							ok = true
						}
						if a.class == "user.username" && path == "User.Username" {
							ok = true
						}
						if a.class == id && strings.HasPrefix(path, "param:") {
							ok = true
						}
					}
				}
				r.Check(all && (ok || !argsOK), "confined", key, "%s: the UPDATE is not restricted to the row of the record being stored: %.200q", p.at(u.call), squeeze(u.text))
			case "insert":
				if len(keys) == 0 || s.col(st.table, "id") == nil {
					continue
				}
				var as []sqlAnchor
				if st.insSel != nil {
					var all bool
					as, all = s.anchors(st.insSel, nil)
					if !all {
						r.Bad("confined", key, "%s: the INSERT copies from rows that no condition restricts: %.200q", p.at(u.call), squeeze(u.text))
						continue
					}
				}
				for i, c := range st.cols {
					if i < len(st.vals) {
						if len(st.vals[i]) == 1 && st.vals[i][0].kind == 'p' {
							as = append(as, sqlAnchor{s.class(st.table, c), st.vals[i][0].s})
						} else if cr, ok := colRef(st.vals[i]); ok && st.insSel != nil {
							sc := &sqlScope{sch: s, st: st.insSel}
							_, t2, c2 := sc.resolve(cr)
							r.Check(s.class(t2, c2) == s.class(st.table, c), "confined", key+" "+c, "%s: %s.%s is filled from %s.%s, which identifies something else", p.at(u.call), st.table, c, t2, c2)
						}
					}
				}
				for _, k := range keys {
					ok := false
					for _, a := range as {
						if classMatch(k.class, a.class) && src(a.ph)[fmt.Sprintf("param:%d", k.param)] {
							ok = true
						}
					}
					r.Check(ok || !argsOK, "confined", key+" by "+k.class, "%s: the inserted row is not stored under the %s passed to %s: %.200q", p.at(u.call), k.class, u.method, squeeze(u.text))
				}
			}
		}
	}
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }

func (p *Program) checkPlaceholders(r *Report, u *sqlUse, key string, toks []sqlTok, bound map[string]located) {
	used := map[string]bool{}
	maxN := 0
	for _, ph := range placeholders(toks) {
		used[ph] = true
		if ph[0] == '$' || ph[0] == '?' {
			n, err := strconv.Atoi(ph[1:])
			if err != nil {
				r.Bad("placeholders", key, "%s: malformed placeholder %q", p.at(u.call), ph)
				return
			}
			if n > maxN {
				maxN = n
			}
		}
		if _, ok := bound[ph]; !ok {
			r.Bad("placeholders", key, "%s: placeholder %s has no argument: %.160q", p.at(u.call), ph, squeeze(u.text))
			return
		}
	}
	positional := 0
	for k := range bound {
		if k[0] == '$' {
			positional++
		}
	}
	if positional != maxN {
		r.Bad("placeholders", key, "%s: %d positional arguments for %d placeholders: %.160q", p.at(u.call), positional, maxN, squeeze(u.text))
		return
	}
	for i := 1; i <= maxN; i++ {
		if !used["$"+strconv.Itoa(i)] && !used["?"+strconv.Itoa(i)] {
			r.Bad("placeholders", key, "%s: argument %d is bound to no placeholder: %.160q", p.at(u.call), i, squeeze(u.text))
			return
		}
	}
	r.Ok("placeholders", key)
}

// checkColumns resolves every column a statement names.
func (sch sqlSchema) checkColumns(p *Program, r *Report, u *sqlUse, key string, st *sqlStmt, up *sqlScope) {
	sc := &sqlScope{sch: sch, st: st, up: up}
	bad := func(f string, a ...interface{}) {
		r.Bad("columns", key, "%s: "+f, append([]interface{}{p.at(u.call)}, a...)...)
	}
	for _, f := range st.from {
		if f.sub != nil {
			sch.checkColumns(p, r, u, key, f.sub, sc)
		} else if strings.HasSuffix(strings.ToLower(f.table), "fts") {
			return // the full-text index is declared with USING
		} else if sch[strings.ToLower(f.table)] == nil {
			bad("no table %q in the schema", f.table)
			return
		}
	}
	if st.table != "" && sch[strings.ToLower(st.table)] == nil {
		bad("no table %q in the schema", st.table)
		return
	}
	col := func(ts []sqlTok) {
		c, ok := colRef(ts)
		if !ok {
			return
		}
		for s := sc; s != nil; s = s.up {
			for _, it := range s.st.items { // output names (ORDER BY latest, correlated filters)
				if _, as := itemName(it); as != "" && strings.EqualFold(as, c.name) && c.qual == "" {
					if rc, isCol := colRef(it); !isCol || rc != c {
						return
					}
				}
			}
		}
		_, t, cn := sc.resolve(c)
		if t == "" || sch.col(t, cn) == nil {
			bad("no column %q in the tables of %.140q", c.name, squeeze(u.text))
		}
	}
	for _, it := range st.items {
		e, _ := itemName(it)
		col(e)
		for _, t := range e {
			if t.kind == '(' {
				if sub := parseStmt(t.sub); sub.kind == "select" {
					sch.checkColumns(p, r, u, key, sub, sc)
				}
			}
		}
	}
	conds, _ := conjuncts(st.where)
	for _, o := range st.on {
		cs, _ := conjuncts(o)
		conds = append(conds, cs...)
	}
	for _, cd := range conds {
		if cd.op == "MATCH" {
			continue
		}
		if cd.op != "?" {
			col(cd.lhs)
			col(cd.rhs)
		}
		for _, t := range cd.rhs {
			if t.kind == '(' {
				if sub := parseStmt(t.sub); sub.kind == "select" {
					sch.checkColumns(p, r, u, key, sub, sc)
				}
			}
		}
	}
	t := sch[strings.ToLower(st.table)]
	for _, s := range st.sets {
		if s.col == "" || t.cols[strings.ToLower(s.col)] == nil {
			bad("SET of unknown column in %.140q", squeeze(u.text))
		}
	}
	if st.kind == "insert" {
		have := map[string]bool{}
		for _, c := range st.cols {
			have[strings.ToLower(c)] = true
			if t.cols[strings.ToLower(c)] == nil {
				bad("INSERT into unknown column %q of %s", c, st.table)
			}
		}
		if len(st.cols) != len(st.vals) {
			bad("%d columns but %d values: %.140q", len(st.cols), len(st.vals), squeeze(u.text))
		}
		for n, c := range t.cols {
			if c.notNull && !c.hasDefault && !c.pk && !c.generated && !have[n] {
				bad("INSERT omits the mandatory column %q of %s", c.name, st.table)
			}
		}
	}
	r.Ok("columns", key)
}

// nonConstText returns a root of v that is neither a constant nor a number.
func (p *Program) nonConstText(v ssa.Value) ssa.Value {
	for _, o := range p.origins(v, nil, sliceOpts{Data: true, Up: true,
		Through: func(name string, call ssa.CallInstruction) []ssa.Value {
			if name == "strings.Builder.String" {
				return p.builderWrites(callArgs(call)[0])
			}
			if len(p.callees[call]) > 0 {
				return nil
			}
			if strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "fmt.Sprint") || strings.HasPrefix(name, "strconv.") {
				return callArgs(call)
			}
			return nil
		}}) {
		switch x := o.V.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Alloc, *ssa.MakeSlice:
			continue
		case *ssa.UnOp:
			if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
				ok := true
				for _, v := range p.globalStores(g) {
					if v == nil {
						ok = false
					}
				}
				if ok {
					continue
				}
			}
		case *ssa.Call:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" {
				continue
			}
		}
		if b, ok := o.V.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0 {
			continue
		}
		return o.V
	}
	return nil
}

// Round trips.

type colKey struct{ table, col string }

type colRead struct {
	use    *sqlUse
	path   string
	dest   types.Type
	codecs map[string]bool
}

type colWrite struct {
	use    *sqlUse
	kind   string
	srcs   map[string]bool
	null   bool
	codecs map[string]bool
}

var identityCols = map[string]bool{"id": true, "user": true, "network": true, "target": true, "username": true,
	"client": true, "created_at": true, "updated_at": true, "endpoint": true}

func runC13(p *Program, r *Report) {
	r.Rule("same-field", "a column is read into the record field it is written from", 90)
	r.Rule("complete-insert", "every column that is read back is written when the record is created", 12)
	r.Rule("complete-update", "every column that is read back and can change is written when the record is updated", 8)
	r.Rule("scan-arity", "a row is scanned into exactly as many destinations as the statement selects columns", 20)
	r.Rule("null", "a column that may be stored as NULL is read into something that accepts NULL", 20)
	r.Rule("codec", "a value encoded when stored (joined lists, durations) is decoded with the inverse operation", 4)
	r.Rule("new-id", "the record learns the identifier of the row created for it", 12)
	r.Rule("all-fields", "reading a record fills every field of it", 12)
	r.Rule("options", "every option of a history request has its effect on the statement exactly when it is given", 10)
	r.Rule("null-compare", "a value that may be NULL is compared with an operator that matches NULL", 2)
	r.Rule("filters", "history queries apply every requested bound in the right direction", 16)

	uses := p.sqlUses()
	sch := schemas(uses)
	byCall := map[ssa.CallInstruction][]*sqlUse{}
	for _, u := range uses {
		if u.known {
			byCall[u.call] = append(byCall[u.call], u)
		}
	}
	ev := &sqlEval{p: p}
	reads := map[string]map[colKey][]colRead{}
	writes := map[string]map[colKey][]colWrite{}
	opts := map[string]map[string]bool{}                 // options seen to have an effect, per method
	scanned := map[ssa.CallInstruction]map[string]bool{} // paths scanned per executing call

	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		ci, ok := ins.(ssa.CallInstruction)
		if !ok {
			return
		}
		c := ci.Common()
		name := ""
		if c.IsInvoke() {
			name = c.Method.Name()
		} else if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil {
			name = f.Name()
		}
		if name != "Scan" || !c.Signature().Variadic() {
			return
		}
		args := callArgs(ci)
		da := ev.eval(args[1], nil, sqlEnv{}, 0)
		if len(da) != 1 || da[0].val.kind != 'l' {
			return
		}
		dests := da[0].val.el
		temps := p.tempPaths(fn, dests)
		for _, o := range p.origins(args[0], nil, sliceOpts{Up: true}) {
			var qc *ssa.Call
			switch x := o.V.(type) {
			case *ssa.Call:
				qc = x
			case *ssa.Extract:
				qc, _ = x.Tuple.(*ssa.Call)
			}
			if qc == nil {
				continue
			}
			for _, u := range byCall[qc] {
				sts := parseSQL(u.text)
				if len(sts) != 1 {
					continue
				}
				st := sts[0]
				items := st.items
				if st.kind != "select" {
					items = splitToks(st.ret, isComma)
				}
				if st.kind == "other" {
					continue
				}
				key := p.useKey(u, st)
				if len(items) != len(dests) {
					r.Bad("scan-arity", key, "%s: %d columns are selected but %d destinations given", p.at(ci), len(items), len(dests))
					continue
				}
				r.Ok("scan-arity", key)
				s := sch[u.backend]
				if s == nil {
					continue
				}
				sc := &sqlScope{sch: s, st: st}
				if st.kind != "select" {
					sc.st = &sqlStmt{from: []sqlSource{{table: st.table, alias: st.table}}}
				}
				for i, it := range items {
					e, _ := itemName(it)
					cr, ok := colRef(e)
					if !ok {
						continue
					}
					_, t, col := sc.resolve(cr)
					path, dt, codecs := p.destPath(dests[i], temps)
					if path == "" {
						continue
					}
					if reads[u.backend] == nil {
						reads[u.backend] = map[colKey][]colRead{}
					}
					k := colKey{strings.ToLower(t), strings.ToLower(col)}
					reads[u.backend][k] = append(reads[u.backend][k], colRead{u, path, dt, codecs})
					if scanned[u.call] == nil {
						scanned[u.call] = map[string]bool{}
					}
					scanned[u.call][path] = true
				}
				if st.kind == "select" {
					p.checkAllFields(r, u, key, fn, scanned[u.call])
				}
			}
		}
	})

	for _, u := range uses {
		if !u.known {
			continue
		}
		bound, ok := p.bound(u)
		if !ok {
			continue
		}
		for _, st := range parseSQL(u.text) {
			add := func(col string, val []sqlTok) {
				ps := placeholders(val)
				w := colWrite{use: u, kind: st.kind, srcs: map[string]bool{}, codecs: map[string]bool{}}
				if len(ps) == 0 {
					if len(val) == 2 && val[1].kind == '(' {
						w.srcs["now"] = true
					} else if _, isCol := colRef(val); isCol {
						w.srcs["other"] = true
					}
				}
				for _, ph := range ps {
					if l, ok := bound[ph]; ok {
						for s := range p.sourcesOf(l, u.root) {
							w.srcs[s] = true
						}
						rv, rc := p.res(l.v, l.ctx)
						_ = rc
						n := p.typeName(rv.Type())
						if strings.HasPrefix(n, "database/sql.Null") || n == "database.sqliteTime" {
							w.null = true
						}
						p.codecsOf(l, w.codecs)
					}
				}
				if writes[u.backend] == nil {
					writes[u.backend] = map[colKey][]colWrite{}
				}
				k := colKey{strings.ToLower(st.table), strings.ToLower(col)}
				writes[u.backend][k] = append(writes[u.backend][k], w)
			}
			for i, c := range st.cols {
				if i < len(st.vals) {
					add(c, st.vals[i])
				}
			}
			for _, s := range st.sets {
				add(s.col, s.val)
			}
			if argsOK := ok; argsOK {
				p.checkNullCompare(r, u, st, bound)
			}
			p.checkFilters(r, u, st, bound, sch[u.backend], opts)
		}
	}

	p.checkIntact(r)
	for _, id := range sortedKeys(opts) {
		for _, o := range []string{"AfterTime", "BeforeTime", "Events", "TakeLast", "AfterID", "Sender", "Text"} {
			if opts[id]["!"+o] || opts[id][o] {
				r.Check(opts[id][o] && opts[id]["!"+o], "options", id+" "+o, "%s: the statement does not depend on the option %s", id, o)
			}
		}
	}

	// the field of each column, over both backends
	field := map[colKey]map[string]string{}
	for b, m := range reads {
		for k, rs := range m {
			if field[k] == nil {
				field[k] = map[string]string{}
			}
			for _, rd := range rs {
				field[k][rd.path] = b + "." + rd.use.method
			}
		}
	}
	var keys []colKey
	for k := range field {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].table+"."+keys[i].col < keys[j].table+"."+keys[j].col })
	for _, k := range keys {
		var paths []string
		for pth := range field[k] {
			paths = append(paths, pth)
		}
		sort.Strings(paths)
		id := k.table + "." + k.col
		if len(paths) > 1 {
			r.Bad("same-field", id+" read", "column %s is read into different fields: %s (in %s) and %s (in %s)", id, paths[0], field[k][paths[0]], paths[1], field[k][paths[1]])
			continue
		}
		want := paths[0]
		for _, b := range sortedBackends(reads) {
			rec := want[:strings.Index(want, ".")]
			if rec == "MessageTarget" || rec == "DatabaseStats" {
				continue
			}
			for _, w := range writes[b][k] {
				wid := fmt.Sprintf("%s %s %s", b, w.kind, id)
				if k.col == "id" {
					continue
				}
				got := []string{}
				for s := range w.srcs {
					got = append(got, s)
				}
				sort.Strings(got)
				ok := w.srcs[want] && recordCount(w.srcs) == 1 || recordCount(w.srcs) == 0 && (w.srcs["now"] && strings.HasSuffix(k.col, "_at") || identityCols[k.col] && len(w.srcs) > 0)
				r.Check(ok, "same-field", wid, "%s: column %s is written from %v but read into %s", p.at(w.use.call), id, got, want)
			}
			ins, upd := false, false
			hasIns, hasUpd := false, false
			var at *sqlUse
			for kk, ws := range writes[b] {
				if kk.table != k.table {
					continue
				}
				for _, w := range ws {
					at = w.use
					if w.kind == "insert" {
						hasIns = true
						ins = ins || kk == k
					} else {
						hasUpd = true
						upd = upd || kk == k
					}
				}
			}
			if hasIns && k.col != "id" {
				r.Check(ins, "complete-insert", b+" "+id, "%s: the INSERT into %s does not store %s, which %s reads back from column %s", p.at(at.call), k.table, want, field[k][want], k.col)
			}
			if hasUpd && !identityCols[k.col] {
				r.Check(upd, "complete-update", b+" "+id, "%s: the UPDATE of %s does not store %s, which %s reads back from column %s", p.at(at.call), k.table, want, field[k][want], k.col)
			}
			null := false
			for _, w := range writes[b][k] {
				null = null || w.null
			}
			if null {
				for _, rd := range reads[b][k] {
					r.Check(acceptsNull(p, rd.dest), "null", b+" "+id+" in "+rd.use.method, "%s: column %s may hold NULL but is scanned into %s", p.at(rd.use.call), id, rd.dest)
				}
			}
			wc, rc := map[string]bool{}, map[string]bool{}
			for _, w := range writes[b][k] {
				for c := range w.codecs {
					wc[c] = true
				}
			}
			for _, rd := range reads[b][k] {
				for c := range rd.codecs {
					rc[c] = true
				}
			}
			if len(wc)+len(rc) > 0 && len(writes[b][k]) > 0 {
				r.Check(setString(wc) == setString(rc), "codec", b+" "+id, "column %s (%s) is encoded with %s but decoded with %s", id, b, setString(wc), setString(rc))
			}
		}
	}
	// identifiers of new rows
	for _, u := range uses {
		if !u.known || !strings.HasPrefix(u.method, "Store") || u.method == "StoreMessages" {
			continue
		}
		for _, st := range parseSQL(u.text) {
			if st.kind != "insert" {
				continue
			}
			key := p.useKey(u, st)
			ok := scanned[u.call][st.table+".ID"]
			for _, sto := range p.storesTo("database."+st.table, "ID") {
				if sto.Parent() != u.root {
					continue
				}
				for _, o := range p.origins(sto.Val, nil, sliceOpts{}) {
					if call, is := p.isCallTo(o.V, 0, "database/sql.Result.LastInsertId"); is {
						rv, _ := p.res(callArgs(call)[0], nil)
						for _, ro := range p.origins(rv, nil, sliceOpts{}) {
							if ex, is := ro.V.(*ssa.Extract); is && ex.Tuple == ssa.Value(u.call.Value()) {
								ok = true
							}
						}
					}
				}
			}
			r.Check(ok, "new-id", key, "%s: the record does not receive the identifier of the row inserted for it, so a later store would create a second row", p.at(u.call))
		}
	}
}

func sortedBackends(m map[string]map[colKey][]colRead) []string {
	var out []string
	for b := range m {
		out = append(out, b)
	}
	sort.Strings(out)
	return out
}

func setString(m map[string]bool) string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	if len(out) == 0 {
		return "nothing"
	}
	return strings.Join(out, ",")
}

func recordCount(m map[string]bool) int {
	n := 0
	for k := range m {
		if strings.Contains(k, ".") {
			n++
		}
	}
	return n
}

func acceptsNull(p *Program, t types.Type) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n := p.typeName(t)
	if strings.HasPrefix(n, "database/sql.Null") {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Interface:
		return true
	}
	ms := types.NewMethodSet(types.NewPointer(t))
	return ms.Lookup(nil, "Scan") != nil
}

// destPath: the record field a Scan destination ends up in.
func (p *Program) destPath(l located, temps map[*ssa.Alloc]tempUse) (string, types.Type, map[string]bool) {
	v, _ := p.res(l.v, l.ctx)
	if path, ok := p.addrPath(v); ok {
		return path, v.Type(), nil
	}
	if al, ok := v.(*ssa.Alloc); ok {
		if t, ok := temps[al]; ok {
			return t.path, v.Type(), t.codecs
		}
	}
	return "", nil, nil
}

type tempUse struct {
	path   string
	codecs map[string]bool
}

// tempPaths: the record field that each local Scan destination is copied to.
func (p *Program) tempPaths(fn *ssa.Function, dests []located) map[*ssa.Alloc]tempUse {
	want := map[*ssa.Alloc]bool{}
	for _, d := range dests {
		v, _ := p.res(d.v, d.ctx)
		if al, ok := v.(*ssa.Alloc); ok {
			want[al] = true
		}
	}
	root := func(v ssa.Value) *ssa.Alloc {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return nil
		}
		a := u.X
		for {
			if fa, ok := a.(*ssa.FieldAddr); ok {
				a = fa.X
				continue
			}
			break
		}
		al, ok := a.(*ssa.Alloc)
		if ok && want[al] {
			return al
		}
		return nil
	}
	out := map[*ssa.Alloc]tempUse{}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			path, ok := p.addrPath(st.Addr)
			if !ok {
				continue
			}
			codecs := map[string]bool{}
			for _, o := range p.origins(st.Val, nil, sliceOpts{Data: true,
				Stop: func(v ssa.Value, c *Ctx) bool {
					p.codec(v, codecs)
					return root(v) != nil
				},
				Through: func(name string, call ssa.CallInstruction) []ssa.Value {
					if len(p.callees[call]) > 0 {
						return nil
					}
					return callArgs(call)
				}}) {
				if al := root(o.V); al != nil {
					out[al] = tempUse{path, codecs}
				}
			}
		}
	}
	return out
}

// codec records an encoding operation v performs.
func (p *Program) codec(v ssa.Value, into map[string]bool) {
	switch x := v.(type) {
	case *ssa.Call:
		args := x.Common().Args
		switch p.calleeName(x) {
		case "strings.Join", "strings.Split":
			if s, ok := constString(args[1]); ok {
				into[fmt.Sprintf("list(%q)", s)] = true
			}
		case "strings.Fields":
			into["list(fields)"] = true
		case "time.Duration.Seconds":
			into["duration(1000000000)"] = true
		case "time.Duration.Milliseconds":
			into["duration(1000000)"] = true
		case "time.Duration.Minutes":
			into["duration(60000000000)"] = true
		}
	case *ssa.BinOp:
		if n := p.typeName(x.Type()); n == "time.Duration" && (x.Op == token.MUL || x.Op == token.QUO) {
			for _, o := range []ssa.Value{x.X, x.Y} {
				if k, ok := constInt(o); ok {
					into[fmt.Sprintf("duration(%d)", k)] = true
				}
			}
		}
	}
}

func (p *Program) codecsOf(l located, into map[string]bool) {
	got := map[string]bool{}
	p.origins(l.v, l.ctx, sliceOpts{Data: true,
		Stop: func(v ssa.Value, c *Ctx) bool {
			p.codec(v, got)
			_, ok := p.recordPath(v)
			return ok
		},
		Through: func(name string, call ssa.CallInstruction) []ssa.Value {
			if len(p.callees[call]) > 0 {
				return nil
			}
			return callArgs(call)
		}})
	for k := range got {
		into[k] = true
	}
}

// checkAllFields: every leaf field of the record a query fills is set.
func (p *Program) checkAllFields(r *Report, u *sqlUse, key string, fn *ssa.Function, got map[string]bool) {
	recs := map[string]bool{}
	for path := range got {
		recs[path[:strings.Index(path, ".")]] = true
	}
	for rec := range recs {
		if rec == "Message" {
			continue
		}
		set := map[string]bool{}
		for k := range got {
			set[k] = true
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if path, ok := p.addrPath(st.Addr); ok {
						set[path] = true
					}
				}
			}
		}
		if fn != u.root {
			continue // split over helpers: other rules still compare columns
		}
		tn, ok := p.ByPkg["database"].Pkg.Scope().Lookup(rec).(*types.TypeName)
		if !ok {
			continue
		}
		var missing []string
		var leafs func(t types.Type, pre string)
		leafs = func(t types.Type, pre string) {
			st, ok := t.Underlying().(*types.Struct)
			if !ok || p.typeName(t) == "time.Time" {
				if !set[pre] {
					missing = append(missing, pre)
				}
				return
			}
			if set[pre] {
				return
			}
			for i := 0; i < st.NumFields(); i++ {
				leafs(st.Field(i).Type(), pre+"."+st.Field(i).Name())
			}
		}
		leafs(tn.Type(), rec)
		r.Check(len(missing) == 0, "all-fields", key, "%s: %s is returned without %s", p.at(u.call), rec, strings.Join(missing, ", "))
	}
}

// checkFilters: conditions bound to a requested bound use the right operator.
func (p *Program) checkFilters(r *Report, u *sqlUse, st *sqlStmt, bound map[string]located, sch sqlSchema, opts map[string]map[string]bool) {
	type want struct{ op, col string }
	spec := map[string]want{
		"MessageOptions.AfterID":    {">", "id"},
		"MessageOptions.AfterTime":  {">", "time"},
		"MessageOptions.BeforeTime": {"<", "time"},
		"MessageOptions.Sender":     {"=", "sender"},
	}
	if st.kind != "select" || sch == nil {
		return
	}
	sc := &sqlScope{sch: sch, st: st}
	conds, opaque := conjuncts(st.where)
	where := map[string]bool{}
	for _, cd := range conds {
		for _, ph := range placeholders(cd.rhs) {
			l, ok := bound[ph]
			if !ok {
				continue
			}
			where[ph] = true
			for s := range p.sourcesOf(l, u.root) {
				key := p.useKey(u, st) + " " + s
				if u.method == "ListInactiveUsernames" && s == "param:2" {
					r.Check(cd.op == "<" || cd.op == "<=", "filters", key, "%s: inactive users are selected with %q", p.at(u.call), cd.op)
				}
				w, ok := spec[s]
				if !ok {
					continue
				}
				_, _, col := sc.resolve(cd.col)
				col = strings.ToLower(col)
				if col == "latest" {
					col = "time"
				}
				r.Check(cd.op == w.op && col == w.col, "filters", key, "%s: %s is applied as %q %s, expected %s %s: %.200q", p.at(u.call), s, cd.col.name, cd.op, w.col, w.op, squeeze(u.text))
			}
		}
	}
	if opaque {
		for _, ph := range placeholders(st.where) {
			if l, ok := bound[ph]; ok {
				for s := range p.sourcesOf(l, u.root) {
					if _, ok := spec[s]; ok {
						r.Bad("filters", p.useKey(u, st)+" "+s, "%s: %s is only one alternative of an OR: %.200q", p.at(u.call), s, squeeze(u.text))
					}
				}
			}
		}
	}
	if dbKeys[u.method] != nil && strings.HasPrefix(u.method, "ListMessage") {
		lim := false
		for _, ph := range placeholders(st.limit) {
			if l, ok := bound[ph]; ok && p.sourcesOf(l, u.root)["MessageOptions.Limit"] {
				lim = true
			}
		}
		r.Check(lim, "filters", p.useKey(u, st)+" LIMIT", "%s: the number of rows is not limited by the requested limit", p.at(u.call))
	}
	if strings.HasPrefix(u.method, "ListMessage") {
		p.checkOptions(r, u, st, bound, opts)
	}
}

// optionState: whether the branches of this alternative say that an option of
// the request is given.
func optionState(u *sqlUse, opt string) (given, known bool) {
	for k, v := range u.env.conds {
		switch {
		case strings.HasPrefix(k, "time.Time.IsZero(") && strings.HasSuffix(k, "."+opt+")"),
			strings.HasSuffix(k, "."+opt+`==K:""`), strings.HasSuffix(k, "."+opt+"==K:0"), strings.HasSuffix(k, "."+opt+"<=K:0"):
			return !v, true
		case strings.HasSuffix(k, "."+opt+">K:0"), strings.HasSuffix(k, "."+opt):
			return v, true
		}
	}
	return false, false
}

func allText(ts []sqlTok) string {
	var sb strings.Builder
	for _, t := range ts {
		if t.kind == '(' {
			sb.WriteString("( " + allText(t.sub) + ") ")
			continue
		}
		sb.WriteString(strings.ToUpper(t.s) + " ")
	}
	return sb.String()
}

// checkOptions: a requested option has its effect on the statement, an option
// that is not given has none.
func (p *Program) checkOptions(r *Report, u *sqlUse, st *sqlStmt, bound map[string]located, seen map[string]map[string]bool) {
	has := map[string]bool{}
	for _, ph := range placeholders(st.where) {
		if l, ok := bound[ph]; ok {
			for s := range p.sourcesOf(l, u.root) {
				if strings.HasPrefix(s, "MessageOptions.") {
					has[strings.TrimPrefix(s, "MessageOptions.")] = true
				}
			}
		}
	}
	toks, _ := sqlLex(u.text)
	text := allText(toks)
	has["Events"] = !strings.Contains(text, "TEXT IS NOT NULL")
	has["TakeLast"] = strings.Contains(allText(st.order), "DESC")
	opt := []string{"AfterTime", "BeforeTime", "Events", "TakeLast"}
	if u.method == "ListMessages" {
		opt = append(opt, "AfterID", "Sender", "Text")
	}
	for _, o := range opt {
		id := u.backend + "." + u.method
		if seen[id] == nil {
			seen[id] = map[string]bool{}
		}
		if has[o] {
			seen[id][o] = true
		} else {
			seen[id]["!"+o] = true
		}
		given, known := optionState(u, o)
		key := p.useKey(u, st) + " option " + o
		if !known {
			rest := !has[o]
			for _, q := range opt {
				if _, k := optionState(u, q); q != o && !k {
					rest = false
				}
			}
			if rest {
				r.Bad("options", key, "%s: the statement omits %s without looking at it: %.300q", p.at(u.call), o, squeeze(u.text))
			}
			continue
		}
		switch {
		case given && !has[o]:
			r.Bad("options", key, "%s: the request's %s is ignored: %.300q", p.at(u.call), o, squeeze(u.text))
		case !given && has[o]:
			r.Bad("options", key, "%s: %s is applied although the request does not give it: %.300q", p.at(u.call), o, squeeze(u.text))
		default:
			r.Ok("options", key)
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// checkNullCompare: "col = NULL" is never true, so a nullable key must be
// compared with IS (or IS NOT DISTINCT FROM).
func (p *Program) checkNullCompare(r *Report, u *sqlUse, st *sqlStmt, bound map[string]located) {
	conds, _ := conjuncts(st.where)
	for _, cd := range conds {
		for _, ph := range placeholders(cd.rhs) {
			l, ok := bound[ph]
			if !ok {
				continue
			}
			v, _ := p.res(l.v, l.ctx)
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			if !strings.HasPrefix(p.typeName(v.Type()), "database/sql.Null") {
				continue
			}
			r.Check(cd.op == "IS", "null-compare", p.useKey(u, st)+" "+cd.col.name, "%s: %s is compared with %q to a value that may be NULL, which never matches then: %.200q", p.at(u.call), cd.col.name, cd.op, squeeze(u.text))
		}
	}
}
