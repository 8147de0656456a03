package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{ID: "C14", Explanation: "Inside the database package: every error of database/sql is followed through its function; functions making several changes are checked for one transaction that is committed on every successful path and rolled back otherwise; the tables removed with a user or network are compared with the foreign keys of the schema.",
		Assumptions: []string{"the database engine implements transactions and ON DELETE CASCADE"},
		Variants:    []string{"", "moderncsqlite"},
		Run:         runC14})
}

var modifies = map[string]bool{"insert": true, "update": true, "delete": true, "other": true}

func runC14(p *Program, r *Report) {
	r.Rule("error-reported", "a failing database operation makes the database method fail", 80)
	r.Rule("rows-checked", "iterating a result set ends with a check of the iteration error before success is reported", 10)
	r.Rule("rows-closed", "a result set is closed on every path", 10)
	r.Rule("one-transaction", "a method making several changes makes them in one transaction", 5)
	r.Rule("commit", "a method that opened a transaction reports success only after committing it", 5)
	r.Rule("rollback", "an opened transaction is always ended: rolled back or committed on every path", 5)
	r.Rule("cascade", "deleting a user or network removes every table row that refers to it, children first", 8)

	const db = "database/sql."
	noRows := func(cond ssa.Value, pol bool, holds func(ssa.Value) bool) bool {
		isNoRows := func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return false
			}
			g, ok := u.X.(*ssa.Global)
			return ok && g.Name() == "ErrNoRows"
		}
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, pol = u.X, !pol
		}
		if b, ok := cond.(*ssa.BinOp); ok && (b.Op == token.EQL) == pol && (b.Op == token.EQL || b.Op == token.NEQ) {
			return holds(b.X) && isNoRows(b.Y) || holds(b.Y) && isNoRows(b.X)
		}
		if c, ok := cond.(*ssa.Call); ok && pol && p.calleeName(c) == "errors.Is" {
			return holds(c.Common().Args[0]) && isNoRows(c.Common().Args[1])
		}
		return false
	}
	inDB := func(fn *ssa.Function) bool { return p.pkgOf(fn) == "database" }
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		call, ok := ins.(*ssa.Call)
		if !ok || !inDB(fn) {
			return
		}
		name := p.calleeName(call)
		_, _, _, isSQL := p.sqlMethod(call)
		scan := strings.HasSuffix(name, ".Scan") && call.Common().Signature().Variadic()
		if !isSQL && !scan && !strings.HasPrefix(name, db) {
			return
		}
		if name == db+"Tx.Rollback" || strings.HasSuffix(name, ".Close") || errResult(call) < 0 {
			return
		}
		at, ok := p.lostError(call, noRows)
		short := name[strings.LastIndex(name, "/")+1:]
		if ok {
			r.Ok("error-reported", p.at(ins))
		} else {
			r.Bad("error-reported", p.fnID(fn)+": "+short, "%s: an error of %s can be lost: %s reports success", p.at(ins), short, p.at(at))
		}
		// result sets
		if isSQL && strings.Contains(name, ".Query") && call.Common().Signature().Results().Len() == 2 {
			rows := extractOf(call, 0)
			if rows == nil || p.escapes(rows) {
				return
			}
			p.checkRows(r, fn, call, rows)
		}
	})

	// transactions
	uses := p.sqlUses()
	sch := schemas(uses)
	byRoot := map[*ssa.Function][]*sqlUse{}
	var roots []*ssa.Function
	for _, u := range uses {
		if !inDB(u.root) {
			continue
		}
		if byRoot[u.root] == nil {
			roots = append(roots, u.root)
		}
		byRoot[u.root] = append(byRoot[u.root], u)
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].Pos() < roots[j].Pos() })
	for _, f := range roots {
		calls := map[ssa.CallInstruction]string{}
		loops := false
		for _, u := range byRoot[f] {
			kind := "other"
			if u.known {
				if sts := parseSQL(u.text); len(sts) > 0 {
					kind = sts[0].kind
					if strings.HasPrefix(strings.TrimSpace(strings.ToUpper(u.text)), "PRAGMA") && !strings.Contains(u.text, "=") {
						kind = "select"
					}
				}
			}
			if modifies[kind] {
				calls[u.call] = kind
				if p.inLoop(u.call.Block()) {
					loops = true
				}
			}
		}
		if len(calls) == 0 || !loops && !sequential(p, calls) {
			continue
		}
		key := p.fnID(f)
		good := true
		for c := range calls {
			if !p.onTx(callArgs(c)[0]) {
				r.Bad("one-transaction", key, "%s: one of several changes made by %s is made outside its transaction, so a failure half-way leaves the others behind", p.at(c), key)
				good = false
				break
			}
		}
		if good {
			r.Ok("one-transaction", key)
		}
	}
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != db+"DB.Begin" && name != db+"DB.BeginTx" || !inDB(fn) {
			return
		}
		call := ci.(*ssa.Call)
		tx := extractOf(call, 0)
		key := p.fnID(fn)
		if tx == nil || !p.hasErrResult(fn) {
			r.Bad("commit", key, "%s: transaction opened and not used", p.at(ci))
			return
		}
		ended := func(names ...string) func(ins ssa.Instruction) bool {
			return func(ins ssa.Instruction) bool {
				k, ok := ins.(ssa.CallInstruction)
				if !ok {
					return false
				}
				n := p.calleeName(k)
				for _, w := range names {
					if n == db+w {
						return true
					}
				}
				if d, isd := ins.(*ssa.Defer); isd {
					for _, g := range p.callees[d] {
						hit := false
						p.reachableCalls(g, func(_ ssa.CallInstruction, n string) { hit = hit || n == db+"Tx.Rollback" })
						if hit {
							return true
						}
					}
				}
				return false
			}
		}
		// success only after a successful commit, unless nothing was changed
		first := map[ssa.Instruction]bool{}
		for _, u := range uses {
			if u.call.Parent() == fn && p.onTx(callArgs(u.call)[0]) {
				kind := "other"
				if sts := parseSQL(u.text); u.known && len(sts) > 0 {
					kind = sts[0].kind
				}
				if modifies[kind] && !strings.Contains(u.text, "IF NOT EXISTS") {
					first[u.call] = true
				}
			}
		}
		commit := p.nilErrOf(nil, db+"Tx.Commit")
		bad := false
		for ins := range first {
			if at := p.successWithout(ins, commit); at != nil {
				r.Bad("commit", key, "%s: success is reported at %s without the transaction having been committed", p.at(ins), p.at(at))
				bad = true
				break
			}
		}
		if !bad {
			r.Ok("commit", key)
		}
		// ended on every path
		at := p.returnWithout(call, ended("Tx.Rollback", "Tx.Commit"))
		r.Check(at == nil, "rollback", key, "%s: the transaction is neither rolled back nor committed on a path to a return", p.at(ci))
	})

	// cascades
	for _, b := range []string{"SqliteDB", "PostgresDB"} {
		s := sch[b]
		if s == nil {
			continue
		}
		for _, m := range []struct{ method, table string }{{"DeleteUser", "user"}, {"DeleteNetwork", "network"}} {
			var us []*sqlUse
			unknown := false
			for _, u := range uses {
				if u.backend == b && u.method == m.method {
					if !u.known {
						unknown = true
					}
					us = append(us, u)
				}
			}
			if len(us) == 0 || unknown {
				continue
			}
			del := map[string]int{}
			n := 0
			sort.SliceStable(us, func(i, j int) bool {
				a, b := us[i].chain(), us[j].chain()
				for k := 0; k < len(a) && k < len(b); k++ {
					if a[k] != b[k] {
						return earlier(a[k], b[k])
					}
				}
				return len(a) < len(b)
			})
			for _, u := range us {
				for _, st := range parseSQL(u.text) {
					if st.kind == "delete" {
						n++
						if del[strings.ToLower(st.table)] == 0 {
							del[strings.ToLower(st.table)] = n
						}
					}
				}
			}
			if del[m.table] == 0 {
				r.Bad("cascade", b+"."+m.method+" "+m.table, "%s.%s does not delete the row itself", b, m.method)
				continue
			}
			var names []string
			for t := range s {
				names = append(names, t)
			}
			sort.Strings(names)
			// everything removed by the time a table is removed
			gone := map[string]bool{m.table: true}
			for ch := true; ch; {
				ch = false
				for _, t := range names {
					if gone[t] {
						continue
					}
					for _, c := range s[t].cols {
						if ref := strings.ToLower(c.refTable); ref != "" && gone[ref] {
							gone[t] = true
							ch = true
						}
					}
				}
			}
			for _, t := range names {
				if !gone[t] || t == m.table {
					continue
				}
				for _, cn := range sortedCols(s[t]) {
					c := s[t].cols[cn]
					ref := strings.ToLower(c.refTable)
					if ref == "" || !gone[ref] {
						continue
					}
					key := fmt.Sprintf("%s.%s %s.%s", b, m.method, t, cn)
					switch {
					case c.cascade:
						r.Ok("cascade", key)
					case del[t] == 0:
						r.Bad("cascade", key, "%s.%s leaves rows of %s behind, which refer to the deleted %s through %s", b, m.method, t, ref, cn)
					case del[ref] != 0 && del[t] > del[ref]:
						r.Bad("cascade", key, "%s.%s deletes from %s before the rows of %s that refer to it (%s): the deletion fails or misses them", b, m.method, ref, t, cn)
					default:
						r.Ok("cascade", key)
					}
				}
			}
		}
	}
}

func sortedCols(t *sqlTable) []string {
	var out []string
	for c := range t.cols {
		out = append(out, c)
	}
	sort.Strings(out)
	return out
}

func extractOf(call *ssa.Call, i int) ssa.Value {
	for _, r := range *call.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok && ex.Index == i {
			return ex
		}
	}
	return nil
}

func (p *Program) hasErrResult(fn *ssa.Function) bool {
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if isErrorType(fn.Signature.Results().At(i).Type()) {
			return true
		}
	}
	return false
}

// escapes: v is handed to a repository function or returned.
func (p *Program) escapes(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case ssa.CallInstruction:
			if len(p.callees[x]) > 0 {
				return true
			}
		case *ssa.Return, *ssa.Store, *ssa.MakeInterface, *ssa.MakeClosure:
			return true
		}
	}
	return false
}

func (p *Program) checkRows(r *Report, fn *ssa.Function, call *ssa.Call, rows ssa.Value) {
	key := p.fnID(fn)
	isOn := func(ins ssa.Instruction, m string) bool {
		k, ok := ins.(ssa.CallInstruction)
		if !ok || p.calleeName(k) != "database/sql.Rows."+m {
			return false
		}
		v, _ := p.res(callArgs(k)[0], nil)
		return v == rows
	}
	// Next() == false must be followed by Err() before success
	bad := ssa.Instruction(nil)
	for _, ref := range *rows.Referrers() {
		k, ok := ref.(*ssa.Call)
		if !ok || !isOn(k, "Next") {
			continue
		}
		if at := p.successWithout(k, &Cut{Local: true, Instr: func(ins ssa.Instruction, c *Ctx) bool { return isOn(ins, "Err") }}); at != nil {
			bad = at
		}
	}
	r.Check(bad == nil, "rows-checked", key, "%s: the rows read so far are returned as complete although the iteration may have stopped on an error", atOr(p, bad, call))
	// closed
	at := p.returnWithoutFrom(call, rows, func(ins ssa.Instruction) bool { return isOn(ins, "Close") })
	r.Check(at == nil, "rows-closed", key, "%s: the result set is not closed on a path to a return, which keeps the connection busy", p.at(call))
}

func atOr(p *Program, ins ssa.Instruction, def ssa.Instruction) string {
	if ins == nil {
		return p.at(def)
	}
	return p.at(ins)
}

// successWithout: a return reachable from after ins that may report success
// without the cut having been passed.
func (p *Program) successWithout(ins ssa.Instruction, cut *Cut) ssa.Instruction {
	fn := ins.Parent()
	can := func(r ssa.Value) tri { return triNil(p, r, true) }
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, v := range ret.Results {
			if !isErrorType(v.Type()) || can(v) == no {
				continue
			}
			c := p.excluding(cut, v, false, nil)
			if !p.searchAfter(ins, b, len(b.Instrs)-1, c) {
				continue
			}
			if p.resultEst(v, can, true, true, nil, cut, 0) {
				continue
			}
			return ret
		}
	}
	return nil
}

// returnWithout: a return reachable from after call (which succeeded) without
// passing an instruction satisfying done.
func (p *Program) returnWithout(call *ssa.Call, done func(ssa.Instruction) bool) ssa.Instruction {
	return p.returnWithoutFrom(call, nil, done)
}

func (p *Program) returnWithoutFrom(call *ssa.Call, _ ssa.Value, done func(ssa.Instruction) bool) ssa.Instruction {
	var e ssa.Value
	if i := errResult(call); i >= 0 {
		e = extractOf(call, i)
	}
	cut := &Cut{Local: true,
		Instr: func(ins ssa.Instruction, c *Ctx) bool { return done(ins) },
		Nil:   func(v ssa.Value, isNil bool, c *Ctx) bool { return !isNil && e != nil && v == e },
	}
	for _, b := range call.Parent().Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if p.searchAfter(call, b, len(b.Instrs)-1, cut) {
			return ret
		}
	}
	return nil
}

// onTx: the receiver is a transaction, or a statement prepared on one.
func (p *Program) onTx(recv ssa.Value) bool {
	for _, o := range p.origins(recv, nil, sliceOpts{Up: true}) {
		if p.typeName(o.V.Type()) == "database/sql.Tx" {
			continue
		}
		if pc, ok := p.isPrepare(o.V); ok {
			if p.onTx(callArgs(pc)[0]) {
				continue
			}
		}
		return false
	}
	return true
}

// inLoop: b lies on a cycle.
func (p *Program) inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if rec(s) {
					return true
				}
			}
		}
		return false
	}
	return rec(b)
}

// sequential: two of the calls can both happen in one execution.
func sequential(p *Program, calls map[ssa.CallInstruction]string) bool {
	for a := range calls {
		for b := range calls {
			if a == b {
				continue
			}
			if a.Parent() != b.Parent() {
				return true
			}
			if p.searchAfter(a, b.Block(), indexOf(b), &Cut{Local: true}) {
				return true
			}
		}
	}
	return false
}

// chain: the calls from the database method down to the executing call.
func (u *sqlUse) chain() []ssa.CallInstruction {
	out := []ssa.CallInstruction{u.call}
	for c := u.ctx; c != nil; c = c.up {
		if c.call != nil {
			out = append([]ssa.CallInstruction{c.call}, out...)
		}
	}
	return out
}

// earlier: a comes before b in its function, in the order of control flow.
func earlier(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return a.Pos() < b.Pos()
	}
	if a.Block() == b.Block() {
		return indexOf(a) < indexOf(b)
	}
	reach := func(from, to *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		work := append([]*ssa.BasicBlock(nil), from.Succs...)
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if seen[x] {
				continue
			}
			seen[x] = true
			work = append(work, x.Succs...)
		}
		return seen[to]
	}
	ab, ba := reach(a.Block(), b.Block()), reach(b.Block(), a.Block())
	if ab != ba {
		return ab
	}
	return a.Pos() < b.Pos()
}
