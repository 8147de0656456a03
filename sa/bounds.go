package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A small prover for difference constraints "a <= b + k" between integer
// values and lengths, used to show that index and slice expressions stay in
// range. It combines facts about how values are defined with branch facts on
// every path to the expression.

// lin is atom + k, where atom is nothing (a constant), a length or a value.
type lin struct {
	atom string
	k    int64
	v    ssa.Value // the value, or the slice/string whose length it is
	c    *Ctx
	len  bool
}

type prover struct {
	p     *Program
	depth int
}

func (b *prover) of(v ssa.Value, c *Ctx) lin {
	p := b.p
	v, c = p.res(v, c)
	if k, ok := constInt(v); ok {
		return lin{k: k}
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB:
			l, r := b.of(x.X, c), b.of(x.Y, c)
			if r.atom == "" {
				if x.Op == token.ADD {
					l.k += r.k
				} else {
					l.k -= r.k
				}
				return l
			}
			if l.atom == "" && x.Op == token.ADD {
				r.k += l.k
				return r
			}
			// strings.Index(s, sub) + len(sub)
			if x.Op == token.ADD {
				for i := 0; i < 2; i++ {
					if call, ok := l.v.(*ssa.Call); ok && !l.len && l.k == 0 && r.len && r.k == 0 {
						switch p.calleeName(call) {
						case "strings.Index", "strings.LastIndex":
							if b.lenOf(call.Common().Args[1], l.c).atom == r.atom {
								return lin{atom: "end:" + l.atom, v: x, c: c}
							}
						}
					}
					l, r = r, l
				}
			}
		}
	case *ssa.Call:
		if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return b.lenOf(x.Common().Args[0], c)
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			if k, ok := p.globalInt(g); ok {
				return lin{k: k}
			}
		}
	}
	return lin{atom: p.ap(v, c), v: v, c: c}
}

// lenOf is the length of v.
func (b *prover) lenOf(v ssa.Value, c *Ctx) lin {
	p := b.p
	v, c = p.res(v, c)
	if s, ok := constString(v); ok {
		return lin{k: int64(len(s))}
	}
	switch x := v.(type) {
	case *ssa.Slice:
		// &array[:] of a literal, or x[k:]
		if n, ok := arrayLen(x.X.Type()); ok && x.Low == nil && x.High == nil {
			return lin{k: n}
		}
		if x.High != nil {
			h := b.of(x.High, c)
			if x.Low == nil {
				return h
			}
			l := b.of(x.Low, c)
			if l.atom == "" {
				h.k -= l.k
				return h
			}
			if l.atom == h.atom {
				return lin{k: h.k - l.k}
			}
		} else if x.Low != nil {
			l := b.of(x.Low, c)
			if l.atom == "" {
				var n lin
				if al, ok := arrayLen(x.X.Type()); ok {
					n = lin{k: al}
				} else {
					n = b.lenOf(x.X, c)
				}
				n.k -= l.k
				return n
			}
		} else {
			return b.lenOf(x.X, c)
		}
	case *ssa.MakeSlice:
		return b.of(x.Len, c)
	}
	if n, ok := arrayLen(v.Type()); ok {
		return lin{k: n}
	}
	return lin{atom: "len:" + p.ap(v, c), v: v, c: c, len: true}
}

// globalInt: the constant a package-level variable holds throughout.
func (p *Program) globalInt(g *ssa.Global) (int64, bool) {
	vs := p.globalStores(g)
	if len(vs) != 1 || vs[0] == nil {
		return 0, false
	}
	if call, ok := vs[0].(*ssa.Call); ok && p.calleeName(call) == "builtin.len" {
		if s, ok := constString(call.Common().Args[0]); ok {
			return int64(len(s)), true
		}
	}
	return constInt(vs[0])
}

func arrayLen(t types.Type) (int64, bool) {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

// fact: cond/pol implies a <= b + k.
func (b *prover) fact(cond ssa.Value, pol bool, c *Ctx, want func(x, y lin, k int64) bool) bool {
	p := b.p
	// string facts
	if call, ok := cond.(*ssa.Call); ok && pol {
		switch p.calleeName(call) {
		case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix":
			sub := b.lenOf(call.Common().Args[1], c)
			s := b.lenOf(call.Common().Args[0], c)
			return want(sub, s, 0)
		}
	}
	x, y, op, ok := cmpFact(cond, pol)
	if !ok {
		return false
	}
	if bt, isb := x.Type().Underlying().(*types.Basic); isb && bt.Info()&types.IsString != 0 {
		for i := 0; i < 2; i++ {
			if s, isk := constString(y); isk {
				lx := b.lenOf(x, c)
				if op == token.EQL && want(lin{k: int64(len(s))}, lx, 0) {
					return true
				}
				if op == token.NEQ && s == "" && want(lin{k: 1}, lx, 0) {
					return true
				}
			}
			x, y = y, x
		}
		return false
	}
	if bt, isb := x.Type().Underlying().(*types.Basic); !isb || bt.Info()&types.IsInteger == 0 {
		return false
	}
	lx, ly := b.of(x, c), b.of(y, c)
	switch op {
	case token.LSS:
		return want(lx, ly, -1)
	case token.LEQ:
		return want(lx, ly, 0)
	case token.GTR:
		return want(ly, lx, -1)
	case token.GEQ:
		return want(ly, lx, 0)
	case token.EQL:
		return want(lx, ly, 0) || want(ly, lx, 0)
	case token.NEQ:
		// a length other than 0 is at least 1; an index other than -1 at
		// least 0; a value at least k here and other than k is at least k+1
		for i := 0; i < 2; i++ {
			if ly.atom == "" && lx.atom != "" && want(lin{k: ly.k + 1}, lx, 0) {
				if lb, ok := b.lower(lx, 0); ok && lb >= ly.k {
					return true
				}
				if b.depth < 3 {
					ins := cond.(ssa.Instruction)
					b.depth++
					ok := b.holds(lin{k: ly.k}, lx, 0, ins.Block(), indexOf(ins), c, 3, map[string]bool{})
					b.depth--
					if ok {
						return true
					}
				}
			}
			lx, ly = ly, lx
		}
	}
	return false
}

// implies: x <= y + k gives a <= bb + n.
func implies(x, y lin, k int64, a, bb lin, n int64) bool {
	// normalise: xa - ya <= k + y.k - x.k
	if x.atom == a.atom && y.atom == bb.atom {
		return k+y.k-x.k <= n+bb.k-a.k
	}
	return false
}

// lower returns a constant lower bound known from the definition.
func (b *prover) lower(l lin, d int) (int64, bool) {
	if l.atom == "" {
		return l.k, true
	}
	if d > 6 {
		return 0, false
	}
	p := b.p
	if l.len {
		return l.k + b.minLen(l.v, l.c, d+1), true
	}
	switch x := l.v.(type) {
	case *ssa.Call:
		n := p.calleeName(x)
		if strings.HasPrefix(n, "strings.Index") || strings.HasPrefix(n, "strings.LastIndex") || strings.HasPrefix(n, "bytes.Index") {
			return l.k - 1, true
		}
		if n == "builtin.copy" || n == "builtin.min" || n == "builtin.max" || n == "builtin.cap" {
			if n == "builtin.max" {
				best, ok := int64(0), false
				for _, a := range x.Common().Args {
					if lb, is := b.lower(b.of(a, l.c), d+1); is && (!ok || lb > best) {
						best, ok = lb, true
					}
				}
				return l.k + best, ok
			}
			if n == "builtin.min" {
				best, ok := int64(0), true
				for i, a := range x.Common().Args {
					lb, is := b.lower(b.of(a, l.c), d+1)
					if !is {
						ok = false
					}
					if i == 0 || lb < best {
						best = lb
					}
				}
				return l.k + best, ok
			}
			return l.k, true
		}
		if strings.HasSuffix(n, ".Len") || strings.HasSuffix(n, ".NArg") {
			return l.k, true
		}
		if f := x.Common().StaticCallee(); f != nil && f.Blocks != nil && l.c.depth() < 4 {
			return b.retLower(f, 0, mkCtx(Ctx{up: l.c, call: x}), l.k, d)
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			if x.Index == 1 && t.IsString {
				return l.k, true
			}
		case *ssa.Call:
			n := p.calleeName(t)
			if x.Index == 0 && (strings.HasSuffix(n, ".Read") || n == "io.ReadFull" || strings.HasPrefix(n, "io.ReadAtLeast")) {
				return l.k, true
			}
			if x.Index == 1 && strings.HasPrefix(n, "unicode/utf8.Decode") {
				return l.k, true
			}
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.REM:
			if lb, ok := b.lower(b.of(x.X, l.c), d+1); ok && lb >= 0 {
				return l.k, true
			}
		case token.ADD, token.MUL:
			a, ok1 := b.lower(b.of(x.X, l.c), d+1)
			c, ok2 := b.lower(b.of(x.Y, l.c), d+1)
			if ok1 && ok2 && a >= 0 && c >= 0 {
				if x.Op == token.ADD {
					return l.k + a + c, true
				}
				return l.k + a*c, true
			}
		case token.AND, token.SHR, token.QUO:
			if a, ok := b.lower(b.of(x.X, l.c), d+1); ok && a >= 0 {
				return l.k, true
			}
		}
	case *ssa.Phi:
		// induction: every edge is a start with a bound or the phi plus a
		// non-negative step
		best, ok := int64(0), false
		for _, e := range x.Edges {
			el := b.of(e, l.c)
			if el.atom == l.atom {
				if el.k < 0 {
					return 0, false
				}
				continue
			}
			lb, is := b.lower(el, d+1)
			if !is {
				return 0, false
			}
			if !ok || lb < best {
				best, ok = lb, true
			}
		}
		return l.k + best, ok
	}
	if bt, ok := l.v.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
		return l.k, true
	}
	return 0, false
}

func (b *prover) retLower(f *ssa.Function, idx int, c *Ctx, k int64, d int) (int64, bool) {
	best, ok := int64(0), false
	for _, bl := range f.Blocks {
		r, isr := bl.Instrs[len(bl.Instrs)-1].(*ssa.Return)
		if !isr || idx >= len(r.Results) {
			continue
		}
		lb, is := b.lower(b.of(r.Results[idx], c), d+1)
		if !is {
			return 0, false
		}
		if !ok || lb < best {
			best, ok = lb, true
		}
	}
	return best + k, ok
}

// minLen is a lower bound on the length of v.
func (b *prover) minLen(v ssa.Value, c *Ctx, d int) int64 {
	if d > 6 {
		return 0
	}
	p := b.p
	v, c = p.res(v, c)
	if s, ok := constString(v); ok {
		return int64(len(s))
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		// IRC parameters other than the last are never empty
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && p.middleParam(al) {
			return 1
		}
	case *ssa.Call:
		n := p.calleeName(x)
		args := x.Common().Args
		switch n {
		case "strings.Split", "strings.SplitAfter":
			if s, ok := constString(args[1]); ok && s != "" {
				return 1
			}
		case "strings.SplitN":
			if s, ok := constString(args[1]); ok && s != "" {
				if k, isk := constInt(args[2]); isk && k != 0 {
					return 1
				}
			}
		case "builtin.append":
			n := b.minLen(args[0], c, d+1)
			if len(args) > 1 {
				l := b.lenOf(args[1], c)
				if l.atom == "" {
					n += l.k
				} else if l.len {
					n += b.minLen(l.v, l.c, d+1) + l.k
				}
			}
			return n
		case "path.Join", "path/filepath.Join":
			if s, ok := constString(firstElem(args[0])); ok && s != "" {
				return 1
			}
		case "strings.Repeat":
			return 0
		}
		if f := x.Common().StaticCallee(); f != nil && f.Blocks != nil && c.depth() < 4 {
			return b.retMinLen(f, 0, mkCtx(Ctx{up: c, call: x}), d)
		}
	case *ssa.Slice:
		l := b.lenOf(x, c)
		if l.atom == "" {
			return l.k
		}
		if l.len && l.v != ssa.Value(x) {
			return max(0, b.minLen(l.v, l.c, d+1)+l.k)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return b.minLen(x.X, c, d+1) + b.minLen(x.Y, c, d+1)
		}
	case *ssa.Phi:
		best := int64(-1)
		for _, e := range x.Edges {
			if e == ssa.Value(x) {
				continue
			}
			n := b.minLen(e, c, d+1)
			if best < 0 || n < best {
				best = n
			}
		}
		return max(0, best)
	}
	return 0
}

func (b *prover) retMinLen(f *ssa.Function, idx int, c *Ctx, d int) int64 {
	best := int64(-1)
	for _, bl := range f.Blocks {
		r, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(r.Results) {
			continue
		}
		n := b.minLen(r.Results[idx], c, d+1)
		if best < 0 || n < best {
			best = n
		}
	}
	return max(0, best)
}

// middleParam: al is only filled by parseMessageParams, with a message
// parameter that others follow.
func (p *Program) middleParam(al *ssa.Alloc) bool {
	if len(p.allCellStores(al)) > 0 {
		return false
	}
	found := false
	for _, r := range *al.Referrers() {
		st, ok := r.(*ssa.Store)
		if !ok || st.Val != ssa.Value(al) {
			continue
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		k, isk := constInt(ia.Index)
		n, isArr := arrayLen(ia.X.Type())
		if !isk || !isArr || k >= n-1 {
			return false
		}
		arr, ok := ia.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, rr := range *arr.Referrers() {
			sl, ok := rr.(*ssa.Slice)
			if !ok {
				continue
			}
			for _, u := range *sl.Referrers() {
				if ci, ok := u.(ssa.CallInstruction); ok && p.calleeName(ci) == "soju.parseMessageParams" {
					found = true
				}
			}
		}
	}
	return found
}

func firstElem(v ssa.Value) ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return v
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			if k, isk := constInt(ia.Index); isk && k == 0 {
				for _, rr := range *ia.Referrers() {
					if st, ok := rr.(*ssa.Store); ok {
						return st.Val
					}
				}
			}
		}
	}
	return v
}

// def: a <= bb + n follows from how the values are defined.
func (b *prover) def(a, bb lin, n int64, d int) bool {
	if d > 8 {
		return false
	}
	n += bb.k - a.k
	a.k, bb.k = 0, 0
	if a.atom == bb.atom {
		return n >= 0
	}
	if a.atom == "" {
		lb, ok := b.lower(bb, 0)
		return ok && -lb <= n
	}
	p := b.p
	// upper bounds of a
	if a.len {
		switch x := a.v.(type) {
		case *ssa.Slice:
			// no longer than what it is cut from
			if _, isArr := arrayLen(x.X.Type()); !isArr {
				return b.def(b.lenOf(x.X, a.c), bb, n, d+1)
			}
		case *ssa.Call:
			if strings.HasPrefix(p.calleeName(x), "strings.Trim") {
				return b.def(b.lenOf(x.Common().Args[0], a.c), bb, n, d+1)
			}
		}
	} else {
		switch x := a.v.(type) {
		case *ssa.Call:
			name := p.calleeName(x)
			args := x.Common().Args
			switch {
			case strings.HasPrefix(name, "strings.Index") || strings.HasPrefix(name, "strings.LastIndex"):
				s := b.lenOf(args[0], a.c)
				sub := int64(1)
				if name == "strings.Index" || name == "strings.LastIndex" {
					sub = b.minLen(args[1], a.c, 0)
				}
				return b.def(s, bb, n+sub, d+1)
			case name == "builtin.copy":
				for _, y := range args {
					if b.def(b.lenOf(y, a.c), bb, n, d+1) {
						return true
					}
				}
			case name == "builtin.min":
				for _, y := range args {
					if b.def(b.of(y, a.c), bb, n, d+1) {
						return true
					}
				}
			}
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.Next:
				if x.Index == 1 && t.IsString {
					if rg, ok := t.Iter.(*ssa.Range); ok {
						return b.def(b.lenOf(rg.X, a.c), bb, n+1, d+1)
					}
				}
			case *ssa.Call:
				name := p.calleeName(t)
				if x.Index == 0 && (strings.HasSuffix(name, ".Read") || name == "io.ReadFull") {
					args := t.Common().Args
					return b.def(b.lenOf(args[len(args)-1], a.c), bb, n, d+1)
				}
			}
		case *ssa.BinOp:
			if x.Op == token.REM {
				return b.def(b.of(x.Y, a.c), bb, n+1, d+1)
			}
			if strings.HasPrefix(a.atom, "end:") {
				for _, o := range []ssa.Value{x.X, x.Y} {
					if call, ok := mustRes(p, o).(*ssa.Call); ok && strings.HasPrefix(p.calleeName(call), "strings.") {
						return b.def(b.lenOf(call.Common().Args[0], a.c), bb, n, d+1)
					}
				}
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				el := b.of(e, a.c)
				if el.atom == a.atom {
					if el.k > 0 {
						return false
					}
					continue
				}
				if !b.def(el, bb, n, d+1) {
					return false
				}
			}
			return true
		}
	}
	// lower bounds of bb beyond a constant
	if bb.len {
		if sl, ok := bb.v.(*ssa.Call); ok && p.calleeName(sl) == "builtin.append" {
			return b.def(a, b.lenOf(sl.Common().Args[0], bb.c), n, d+1)
		}
	}
	return false
}

// holds: a <= bb + n whenever control is about to execute (blk, idx), in
// context c; paths are searched within blk's function.
func (b *prover) holds(a, bb lin, n int64, blk *ssa.BasicBlock, idx int, c *Ctx, d int, seen map[string]bool) bool {
	if b.def(a, bb, n, 0) {
		return true
	}
	if strings.HasPrefix(bb.atom, "end:") && a.atom == "" {
		// the end of a match is no earlier than its start
		bo := bb.v.(*ssa.BinOp)
		for _, o := range []ssa.Value{bo.X, bo.Y} {
			if call, ok := mustRes(b.p, o).(*ssa.Call); ok && strings.HasPrefix(b.p.calleeName(call), "strings.") {
				l := b.of(o, bb.c)
				l.k += bb.k
				return b.holds(a, l, n, blk, idx, c, d, seen)
			}
		}
	}
	if d > 6 {
		return false
	}
	p := b.p
	cut := &Cut{Local: true, Atom: func(cond ssa.Value, pol bool, cc *Ctx) bool {
		return b.fact(cond, pol, cc, func(x, y lin, k int64) bool {
			if implies(x, y, k, a, bb, n) {
				return true
			}
			// x <= k' (a constant) and k' <= bb at the same place
			if x.atom == a.atom && x.atom != "" && y.atom == "" && bb.atom != "" && b.depth < 3 {
				ins := cond.(ssa.Instruction)
				b.depth++
				ok := b.holds(lin{k: y.k + k + a.k - x.k}, bb, n, ins.Block(), indexOf(ins), cc, 3, map[string]bool{})
				b.depth--
				return ok
			}
			// y + k is itself small enough: x <= y+k with x = a, y <= bb
			if x.atom == a.atom && x.atom != "" && y.atom != bb.atom && y.atom != "" {
				// a = x + (a.k-x.k) <= y + k + a.k - x.k
				y2 := y
				y2.k += k + a.k - x.k
				return b.def(y2, bb, n, 2)
			}
			if y.atom == bb.atom && y.atom != "" && x.atom != a.atom && x.atom != "" {
				// bb >= x - k + (bb.k - y.k)
				x2 := x
				x2.k += bb.k - y.k - k
				return b.def(a, x2, n, 2)
			}
			return false
		})
	}}
	if _, reach := p.pathTo(blk, idx, c, cut, 0); !reach {
		return true
	}
	key := fmt.Sprintf("%s|%s|%d|%p", a.atom, bb.atom, n+bb.k-a.k, blk)
	if seen[key] {
		return false
	}
	seen[key] = true
	// case split on phis
	for i, l := range []lin{a, bb} {
		ph, ok := l.v.(*ssa.Phi)
		if !ok {
			continue
		}
		all := true
		for j, e := range ph.Edges {
			if e == ssa.Value(ph) {
				continue
			}
			var el lin
			if l.len {
				el = b.lenOf(e, l.c)
			} else {
				el = b.of(e, l.c)
			}
			el.k += l.k
			if el.atom == l.atom {
				if i == 0 && el.k <= l.k || i == 1 && el.k >= l.k {
					continue // induction
				}
			}
			pred := ph.Block().Preds[j]
			na, nb := a, bb
			if i == 0 {
				na = el
			} else {
				nb = el
			}
			if !b.holds(na, nb, n, pred, len(pred.Instrs), l.c, d+1, seen) && !b.edgeHolds(na, nb, n, pred, ph.Block(), l.c) {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

func (b *prover) edgeHolds(a, bb lin, n int64, from, to *ssa.BasicBlock, c *Ctx) bool {
	cut := &Cut{Local: true, Atom: func(cond ssa.Value, pol bool, cc *Ctx) bool {
		return b.fact(cond, pol, cc, func(x, y lin, k int64) bool { return implies(x, y, k, a, bb, n) })
	}}
	return b.p.edgeCut(from, to, c, cut, 0)
}

// prove shows mk(ctx): a <= b + n at site for every way of reaching it: within
// its function, or else at each call site.
func (b *prover) prove(site ssa.Instruction, mk func(c *Ctx) (lin, lin, int64)) bool {
	p := b.p
	var rec func(links []chainLink, onPath map[*ssa.Function]bool) bool
	rec = func(links []chainLink, onPath map[*ssa.Function]bool) bool {
		a, bb, n := mk(buildCtx(links, 0))
		cur := site
		for i := 0; i <= len(links); i++ {
			if b.holds(a, bb, n, cur.Block(), indexOf(cur), buildCtx(links, i), 0, map[string]bool{}) {
				return true
			}
			if i < len(links) {
				cur = links[i].instr()
			}
		}
		fn := cur.Parent()
		if len(links) >= 4 {
			return false
		}
		var next []chainLink
		if fn.Parent() != nil && len(p.closures[fn]) > 0 {
			for _, mc := range p.closures[fn] {
				next = append(next, chainLink{mc: mc})
			}
			// arguments of a closure called where it is bound
			for _, ci := range p.callers[fn] {
				if len(fn.Params) > 0 {
					next = append(next, chainLink{call: ci})
				}
			}
			if len(fn.Params) > 0 && len(p.callers[fn]) > 0 {
				next = next[1:]
			}
		} else {
			for _, ci := range p.callers[fn] {
				next = append(next, chainLink{call: ci})
			}
		}
		if len(next) == 0 {
			return false
		}
		for _, l := range next {
			g := l.instr().Parent()
			if onPath[g] {
				return false
			}
			onPath[g] = true
			ok := rec(append(append([]chainLink{}, links...), l), onPath)
			delete(onPath, g)
			if !ok {
				return false
			}
		}
		return true
	}
	return rec(nil, map[*ssa.Function]bool{site.Parent(): true})
}

// sortIndex: idx is an index handed to a comparison callback of the sort
// package over base.
func (b *prover) sortIndex(idx, base ssa.Value) bool {
	p := b.p
	par, ok := mustRes(p, idx).(*ssa.Parameter)
	if !ok {
		return false
	}
	fn := par.Parent()
	if fn.Signature.Recv() != nil {
		switch p.fname(fn) {
		case "Less", "Swap":
			return mustRes(p, base) == ssa.Value(fn.Params[0]) || strings.HasPrefix(p.ap(base, nil), p.ap(fn.Params[0], nil))
		}
		return false
	}
	for _, t := range p.taken[fn] {
		refs := referrersOf(t)
		if mc, ok := t.(*ssa.MakeClosure); ok {
			refs = *mc.Referrers()
		}
		for _, rr := range refs {
			if ci, ok := rr.(ssa.CallInstruction); ok {
				switch p.calleeName(ci) {
				case "sort.Slice", "sort.SliceStable":
					x, _ := p.res(callArgs(ci)[0], nil)
					if p.ap(x, nil) == p.ap(base, nil) {
						return true
					}
				}
			}
		}
	}
	return false
}

var _ = constant.Int
