package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{ID: "C34", Explanation: "The list of migrations of each backend is evaluated from the source and applied to an abstract schema; what it creates or adds is compared with the schema text used for fresh databases. The upgrade function is checked for running migrations and version change in one transaction, starting at the stored version.",
		Assumptions: []string{"tables that predate the migration list had the columns the oldest version defined; only what the list itself creates or changes is compared"},
		Variants:    []string{"", "moderncsqlite"},
		Run:         runC34})
}

// applyMigration interprets the schema statements of one migration.
func applyMigration(text string, sch sqlSchema, full map[string]bool) {
	ts, ok := sqlLex(text)
	if !ok {
		return
	}
	for _, st := range splitToks(ts, isSemi) {
		if len(st) < 3 {
			continue
		}
		switch {
		case st[0].kw("CREATE") && st[1].kw("TABLE"):
			one := sqlSchema{}
			parseSchema(joinToks(st), one)
			for n, t := range one {
				sch[n] = t
				full[n] = true
			}
		case st[0].kw("DROP") && st[1].kw("TABLE"):
			n := strings.ToLower(st[len(st)-1].s)
			delete(sch, n)
			delete(full, n)
		case st[0].kw("ALTER") && st[1].kw("TABLE"):
			n := strings.ToLower(st[2].s)
			rest := st[3:]
			for len(rest) > 0 {
				switch {
				case rest[0].kw("RENAME") && len(rest) > 2 && rest[1].kw("TO"):
					nn := strings.ToLower(rest[2].s)
					sch[nn], full[nn] = sch[n], full[n]
					delete(sch, n)
					delete(full, n)
				case rest[0].kw("ADD") && len(rest) > 2:
					def := rest[1:]
					if def[0].kw("COLUMN") {
						def = def[1:]
					}
					one := sqlSchema{}
					parseSchema("CREATE TABLE x ("+joinToks(cutAt(def))+")", one)
					if t := one["x"]; t != nil {
						if sch[n] == nil {
							sch[n] = &sqlTable{name: st[2].s, cols: map[string]*sqlColumn{}}
						}
						for cn, c := range t.cols {
							c.added = true
							sch[n].cols[cn] = c
						}
					}
				case rest[0].kw("DROP") && len(rest) > 2 && rest[1].kw("COLUMN") && sch[n] != nil:
					delete(sch[n].cols, strings.ToLower(rest[2].s))
				case rest[0].kw("ALTER") && len(rest) > 4 && rest[1].kw("COLUMN"):
					if c := sch.col(n, rest[2].s); c != nil {
						if rest[3].kw("SET") && rest[4].kw("NOT") {
							c.notNull = true
						}
						if rest[3].kw("DROP") && rest[4].kw("NOT") {
							c.notNull = false
						}
					}
				}
				i := 0
				for i < len(rest) && !isComma(rest[i]) {
					i++
				}
				if i >= len(rest) {
					break
				}
				rest = rest[i+1:]
			}
		}
	}
}

func cutAt(ts []sqlTok) []sqlTok {
	for i, t := range ts {
		if isComma(t) {
			return ts[:i]
		}
	}
	return ts
}

func joinToks(ts []sqlTok) string {
	var sb strings.Builder
	for _, t := range ts {
		switch t.kind {
		case '(':
			sb.WriteString("(" + joinToks(t.sub) + ")")
		case 'q':
			sb.WriteString(`"` + t.s + `"`)
		case 's':
			sb.WriteString("'" + strings.ReplaceAll(t.s, "'", "''") + "'")
		default:
			sb.WriteString(t.s)
		}
		sb.WriteByte(' ')
	}
	return sb.String()
}

func runC34(p *Program, r *Report) {
	r.Rule("same-schema", "every column the migrations create is in the fresh schema with the same nullability and deletion behaviour, and a table the migrations create has every column of the fresh schema", 20)
	r.Rule("version", "the stored schema version is the number of migrations, and migrations run from the stored version on", 2)
	uses := p.sqlUses()
	sch := schemas(uses)
	ev := &sqlEval{p: p, embeds: p.embeddedText()}
	lists := map[string]*ssa.Global{}
	for _, u := range uses {
		if u.known || u.prep != nil {
			continue
		}
		qi, _, _, ok := p.sqlMethod(u.call)
		if !ok || qi < 0 {
			continue
		}
		for _, o := range p.origins(callArgs(u.call)[qi], nil, sliceOpts{Data: true, Through: func(n string, c ssa.CallInstruction) []ssa.Value {
			if strings.HasPrefix(n, "strings.") {
				return callArgs(c)
			}
			return nil
		}}) {
			v := o.V
			if uo, ok := v.(*ssa.UnOp); ok && uo.Op == token.MUL {
				v = uo.X
			}
			if g, ok := v.(*ssa.Global); ok && strings.HasPrefix(g.Type().String(), "*[]string") {
				lists[u.backend] = g
				p.checkUpgrade(r, u, g, uses)
			}
		}
	}
	for _, b := range []string{"SqliteDB", "PostgresDB"} {
		g := lists[b]
		fresh := sch[b]
		if g == nil || fresh == nil {
			continue
		}
		vs := p.globalStores(g)
		if len(vs) != 1 || vs[0] == nil {
			continue
		}
		al := ev.eval(vs[0], nil, sqlEnv{}, 0)
		if len(al) != 1 || al[0].val.kind != 'l' {
			continue
		}
		mig := sqlSchema{}
		full := map[string]bool{}
		for _, el := range al[0].val.el {
			a := ev.eval(el.v, nil, sqlEnv{}, 0)
			if len(a) == 1 && a[0].val.kind == 's' {
				applyMigration(a[0].val.s, mig, full)
			}
		}
		var names []string
		for t := range mig {
			names = append(names, t)
		}
		sort.Strings(names)
		for _, t := range names {
			ft := fresh[t]
			if ft == nil {
				r.Bad("same-schema", b+" "+t, "%s: migrations leave a table %q that a fresh database does not have", b, t)
				continue
			}
			for _, cn := range sortedCols(mig[t]) {
				c, f := mig[t].cols[cn], ft.cols[cn]
				key := fmt.Sprintf("%s %s.%s", b, t, cn)
				switch {
				case f == nil:
					r.Bad("same-schema", key, "%s: column %s.%s exists after migration but not in a fresh database", b, t, cn)
				case f.notNull != c.notNull && (b != "SqliteDB" || !c.added || c.notNull):
					// SQLite cannot add a NOT NULL column without a default.
					r.Bad("same-schema", key, "%s: column %s.%s is NOT NULL in only one of migrated and fresh databases", b, t, cn)
				case !strings.EqualFold(f.refTable, c.refTable) && (full[t] || c.refTable != "") || f.cascade != c.cascade:
					r.Bad("same-schema", key, "%s: column %s.%s refers to other rows differently in migrated and fresh databases", b, t, cn)
				default:
					r.Ok("same-schema", key)
				}
			}
			if full[t] {
				for _, cn := range sortedCols(ft) {
					if mig[t].cols[cn] == nil {
						r.Bad("same-schema", fmt.Sprintf("%s %s.%s", b, t, cn), "%s: column %s.%s exists in a fresh database but no migration adds it to older ones", b, t, cn)
					}
				}
			}
		}
	}
}

// checkUpgrade: migrations run from the stored version to the end of the list.
func (p *Program) checkUpgrade(r *Report, u *sqlUse, g *ssa.Global, uses []*sqlUse) {
	fn := u.call.Parent()
	isLen := func(v ssa.Value) bool {
		v, _ = p.res(v, nil)
		c, ok := v.(*ssa.Call)
		if !ok || p.calleeName(c) != "builtin.len" {
			return false
		}
		a, ok := c.Common().Args[0].(*ssa.UnOp)
		return ok && a.X == ssa.Value(g)
	}
	// the version written is the length of the list
	wrote := false
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			qi, ai, _, ok := p.sqlMethod(ci)
			if !ok || qi < 0 {
				continue
			}
			args := callArgs(ci)
			text := ""
			for _, o := range p.origins(args[qi], nil, sliceOpts{Data: true, Through: func(n string, c ssa.CallInstruction) []ssa.Value { return callArgs(c) }}) {
				if s, ok := constString(o.V); ok {
					text += s
				}
			}
			if !strings.Contains(text, "version") || strings.HasPrefix(strings.ToUpper(strings.TrimSpace(text)), "SELECT") {
				continue
			}
			for _, a := range []int{qi, ai} {
				if a < 0 || a >= len(args) {
					continue
				}
				for _, o := range p.origins(args[a], nil, sliceOpts{Data: true, Stop: func(v ssa.Value, c *Ctx) bool { return isLen(v) }, Through: func(n string, c ssa.CallInstruction) []ssa.Value { return callArgs(c) }}) {
					if isLen(o.V) {
						wrote = true
					}
				}
			}
		}
	}
	r.Check(wrote, "version", p.fnID(fn)+" stored", "%s: the schema version stored after an upgrade is not the number of migrations", p.at(u.call))
	// a fresh schema is for a database without one
	none := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		a, b, op, ok := cmpFact(cond, pol)
		if !ok {
			return false
		}
		for i := 0; i < 2; i++ {
			k, isk := constInt(b)
			if isk && (op == token.EQL && k == 0 || op == token.LEQ && k == 0 || op == token.LSS && k == 1) {
				return true
			}
			a, b, op = b, a, flip(op)
		}
		return false
	}}
	for _, o := range uses {
		if o.backend != u.backend || o.root != u.root || !o.known || !strings.Contains(strings.ToUpper(o.text), "CREATE TABLE") || strings.Contains(strings.ToUpper(o.text), "IF NOT EXISTS") {
			continue
		}
		r.Check(len(p.Unguarded(o.call, fixed(none), GuardOpts{MaxDepth: 2})) == 0, "version", p.fnID(fn)+" fresh", "%s: the fresh schema can be applied to a database that has one", p.at(o.call))
	}
	// no migration is passed over
	blk := u.call.Block()
	for h := blk.Idom(); h != nil; h = h.Idom() {
		head := false
		for _, pr := range h.Preds {
			head = head || h.Dominates(pr) && (pr == blk || blockReaches(blk, pr))
		}
		if !head {
			continue
		}
		seen := map[*ssa.BasicBlock]bool{}
		skip := false
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			for i, s := range b.Succs {
				if f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					if _, y, op, ok := cmpFact(f.Cond, i == 0); ok && op == token.EQL {
						if t, ok := constString(y); ok && t == "" {
							continue
						}
					}
				}
				if s == h {
					skip = true
				}
				if s == blk || seen[s] || !h.Dominates(s) {
					continue
				}
				seen[s] = true
				walk(s)
			}
		}
		walk(h)
		r.Check(!skip, "version", p.fnID(fn)+" each", "%s: a migration can be passed over", p.at(u.call))
		break
	}
	// the loop starts at the version read
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if sl, ok := ins.(*ssa.Slice); ok {
				if l, ok := sl.X.(*ssa.UnOp); ok && l.X == ssa.Value(g) {
					uo, ok := sl.Low.(*ssa.UnOp)
					good := ok && uo.Op == token.MUL && p.cell(uo.X) != nil && sl.High == nil
					r.Check(good, "version", p.fnID(fn)+" start", "%s: migrations do not run one by one from the stored schema version on", p.at(u.call))
				}
				continue
			}
			ia, ok := ins.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			if l, ok := ia.X.(*ssa.UnOp); !ok || l.X != ssa.Value(g) {
				continue
			}
			ph, ok := ia.Index.(*ssa.Phi)
			if !ok {
				continue
			}
			good := true
			for i, e := range ph.Edges {
				if ph.Block().Dominates(ph.Block().Preds[i]) {
					if bo, ok := e.(*ssa.BinOp); !ok || bo.Op != token.ADD || bo.X != ssa.Value(ph) {
						good = false
					} else if k, ok := constInt(bo.Y); !ok || k != 1 {
						good = false
					}
					continue
				}
				uo, ok := e.(*ssa.UnOp)
				if !ok || uo.Op != token.MUL {
					good = false
					continue
				}
				if al := p.cell(uo.X); al == nil {
					good = false
				}
			}
			r.Check(good, "version", p.fnID(fn)+" start", "%s: migrations do not run one by one from the stored schema version on", p.at(u.call))
		}
	}
}

// blockReaches: control can flow from a to b.
func blockReaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(a)
}
