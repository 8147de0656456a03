package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{ID: "C17", Explanation: "Abstract interpretation of path strings: every path handed to the operating system is evaluated backwards over an abstract domain of path shapes, through helpers, callers and struct fields.",
		Assumptions: []string{"path, path/filepath, strings and os do what they document", "names reported by the file system for directory entries are single components", "symbolic links are not planted inside the configured directories by others", "the configuration file and command line are the administrator's"},
		Run:         runC17})
}

// The shape of a string used as a path, or as a part of one.
type shape int

const (
	shBad     shape = iota // may leave any directory
	shPiece                // no separator, but may be "", "." or ".."
	shComp                 // a single component that is neither "." nor ".."; may be empty
	shName                 // same, not empty
	shRooted               // relative, never leads upwards
	shAbs                  // cleaned absolute path, anything below "/"
	shInside               // below a configured directory
	shTrusted              // configured
)

type pathVal struct {
	sh    shape
	depth int // components certainly below the configured directory (shInside)
	why   string
}

type pathEval struct {
	p    *Program
	seen map[string]bool
}

func (p *Program) pathOf(v ssa.Value, c *Ctx, site ssa.Instruction) pathVal {
	e := &pathEval{p, map[string]bool{}}
	return e.eval(v, c, site, 0)
}

func (e *pathEval) bad(v ssa.Value, what string) pathVal {
	return pathVal{shBad, 0, what + " " + e.p.valAt(v)}
}

func joinShape(a, b pathVal) pathVal {
	if a.sh == shBad {
		return a
	}
	if b.sh == shBad {
		return b
	}
	if a.sh == b.sh {
		if b.depth < a.depth {
			return b
		}
		return a
	}
	if a.sh > b.sh {
		a, b = b, a
	}
	// a is the weaker
	switch {
	case b.sh <= shName:
		return a
	case b.sh == shRooted && (a.sh == shComp || a.sh == shName):
		return b
	case b.sh == shTrusted && a.sh != shPiece && a.sh != shAbs:
		// e.g. a constant next to a configured value
		if a.sh == shInside {
			a.depth = 0
			return a
		}
		return b
	case b.sh == shInside && a.sh == shTrusted:
		b.depth = 0
		return b
	}
	return pathVal{shBad, 0, "mixed path"}
}

func constShape(s string) pathVal {
	switch {
	case s == "":
		return pathVal{sh: shComp}
	case s == "." || s == "..":
		return pathVal{sh: shPiece}
	case !strings.ContainsAny(s, "/\\"):
		return pathVal{sh: shName}
	case strings.Contains(s, ".."):
		return pathVal{shBad, 0, "constant " + s}
	case strings.HasPrefix(s, "/"):
		return pathVal{sh: shTrusted}
	}
	return pathVal{sh: shRooted}
}

func slashFree(s shape) bool { return s == shPiece || s == shComp || s == shName }

// join: the shape of the components put one below the other.
func (e *pathEval) join(args []pathVal) pathVal {
	if len(args) == 0 {
		return pathVal{sh: shComp}
	}
	cur := args[0]
	for i, a := range args {
		if a.sh == shBad {
			return a
		}
		if i == 0 {
			continue
		}
		switch a.sh {
		case shPiece:
			return pathVal{shBad, 0, "a component that may be \"..\""}
		case shTrusted:
			if cur.sh != shTrusted {
				return pathVal{shBad, 0, "mixed path"}
			}
			continue
		case shInside:
			return pathVal{shBad, 0, "mixed path"}
		}
		switch cur.sh {
		case shTrusted:
			cur = pathVal{sh: shInside}
		case shComp, shName:
			cur = pathVal{sh: shRooted}
		case shPiece:
			return pathVal{shBad, 0, "a component that may be \"..\""}
		}
		if a.sh == shName && cur.sh == shInside {
			cur.depth++
		}
	}
	return cur
}

// elems gives the elements of a variadic argument or slice literal.
func (p *Program) elems(v ssa.Value, c *Ctx) (out []located, ok bool) {
	w, wc := p.res(v, c)
	if k, isk := w.(*ssa.Const); isk && k.Value == nil {
		return nil, true
	}
	sl, isSl := w.(*ssa.Slice)
	if !isSl {
		return nil, false
	}
	al, isAl := sl.X.(*ssa.Alloc)
	if !isAl {
		return nil, false
	}
	arr, isArr := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !isArr {
		return nil, false
	}
	out = make([]located, arr.Len())
	for _, ref := range *al.Referrers() {
		ia, isIA := ref.(*ssa.IndexAddr)
		if !isIA {
			continue
		}
		i, isk := constInt(ia.Index)
		if !isk || i >= arr.Len() {
			return nil, false
		}
		for _, rr := range *ia.Referrers() {
			if st, isSt := rr.(*ssa.Store); isSt && st.Addr == ssa.Value(ia) {
				out[i] = located{st.Val, wc, st}
			}
		}
	}
	for _, l := range out {
		if l.v == nil {
			return nil, false
		}
	}
	return out, true
}

func (e *pathEval) eval(v ssa.Value, c *Ctx, site ssa.Instruction, d int) pathVal {
	p := e.p
	if d > 40 {
		return e.bad(v, "value too deep")
	}
	v, c = p.res(v, c)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return constShape(constant.StringVal(x.Value))
		}
	case *ssa.Phi:
		k := "phi" + x.Parent().String() + x.Name() + p.ctxKey(c)
		if e.seen[k] {
			return pathVal{sh: -1}
		}
		e.seen[k] = true
		defer delete(e.seen, k)
		out := pathVal{sh: -1}
		for i, ed := range x.Edges {
			if ed == ssa.Value(x) {
				continue
			}
			pr := x.Block().Preds[i]
			o := e.eval(ed, c, pr.Instrs[len(pr.Instrs)-1], d+1)
			out = merge(out, o)
		}
		return out
	case *ssa.Parameter:
		if c == nil {
			callers := p.callers[x.Parent()]
			if len(callers) == 0 {
				return e.bad(v, "value from outside")
			}
			k := "par" + x.Parent().String() + x.Name()
			if e.seen[k] {
				return pathVal{sh: -1}
			}
			e.seen[k] = true
			defer delete(e.seen, k)
			idx := paramIndex(x)
			out := pathVal{sh: -1}
			for _, ci := range callers {
				args := callArgs(ci)
				i := idx
				if !ci.Common().IsInvoke() && len(args) == len(x.Parent().Params)-1 {
					i--
				}
				if i < 0 || i >= len(args) {
					return e.bad(v, "value from outside")
				}
				o := e.eval(args[i], nil, ci.(ssa.Instruction), d+1)
				out = merge(out, o)
			}
			return out
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return e.concat(x, c, site, d)
		}
	case *ssa.Slice:
		in := e.eval(x.X, c, site, d+1)
		if in.sh < 0 {
			return in
		}
		lo, isk := int64(0), true
		if x.Low != nil {
			lo, isk = constInt(x.Low)
		}
		switch {
		case slashFree(in.sh):
			return pathVal{sh: shPiece}
		case in.sh == shAbs && isk && lo == 1 && x.High == nil:
			return pathVal{sh: shRooted}
		case in.sh == shBad:
			return in
		}
		return e.bad(v, "cut path")
	case *ssa.Extract:
		switch y := x.Tuple.(type) {
		case *ssa.Lookup:
			return e.lookup(y, c, site, d)
		case *ssa.Next:
			if r, ok := y.Iter.(*ssa.Range); ok {
				return e.element(r.X, c, site, d)
			}
		case *ssa.Call:
			return e.call(y, x.Index, v, c, site, d)
		}
	case *ssa.Call:
		return e.call(x, 0, v, c, site, d)
	case *ssa.Lookup:
		return e.lookup(x, c, site, d)
	case *ssa.Index:
		return e.element(x.X, c, site, d)
	case *ssa.Field:
		return e.field(x.X.Type(), x.Field, v, c, site, d)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		if al := p.cell(x.X); al != nil {
			sts := p.allCellStores(al)
			if len(sts) > 0 {
				k := "cell" + al.Parent().String() + al.Name() + p.ctxKey(c)
				if e.seen[k] {
					return pathVal{sh: -1}
				}
				e.seen[k] = true
				defer delete(e.seen, k)
				out := pathVal{sh: -1}
				for _, st := range sts {
					sc := c
					if st.Parent() != x.Parent() {
						sc = p.storeCtx(al, p.cellCtx(x.X, c), st)
					}
					o := e.eval(st.Val, sc, st, d+1)
					out = merge(out, o)
				}
				return out
			}
		}
		switch y := x.X.(type) {
		case *ssa.FieldAddr:
			return e.field(y.X.Type(), y.Field, v, c, site, d)
		case *ssa.IndexAddr:
			return e.element(y.X, c, site, d)
		case *ssa.Global:
			return pathVal{sh: shTrusted}
		}
	}
	return e.bad(v, "value")
}

func merge(a, b pathVal) pathVal {
	if a.sh < 0 {
		return b
	}
	if b.sh < 0 {
		return a
	}
	return joinShape(a, b)
}

func (e *pathEval) field(t types.Type, idx int, v ssa.Value, c *Ctx, site ssa.Instruction, d int) pathVal {
	p := e.p
	tn := p.typeName(t)
	if strings.HasPrefix(tn, "config.") || tn == "soju.Config" || strings.HasPrefix(tn, "main.") {
		return pathVal{sh: shTrusted}
	}
	fv := fieldVar(t, idx)
	if fv == nil || !p.inRepo(fv.Pkg()) {
		return e.bad(v, "value")
	}
	if strings.HasPrefix(tn, "database.") || strings.HasPrefix(tn, "irc.") {
		return e.bad(v, "unescaped value")
	}
	k := "field" + tn + "." + fv.Name()
	if e.seen[k] {
		return pathVal{sh: -1}
	}
	e.seen[k] = true
	defer delete(e.seen, k)
	out := pathVal{sh: -1}
	for _, st := range p.storesTo(tn, fv.Name()) {
		out = merge(out, e.eval(st.Val, nil, st, d+1))
	}
	if out.sh < 0 {
		return e.bad(v, "value")
	}
	return out
}

// element of a slice, array or map.
func (e *pathEval) element(s ssa.Value, c *Ctx, site ssa.Instruction, d int) pathVal {
	p := e.p
	s, c = p.res(s, c)
	if ex, ok := s.(*ssa.Extract); ok {
		if call, ok := ex.Tuple.(*ssa.Call); ok {
			switch n := p.calleeName(call); {
			case strings.HasSuffix(n, ".Readdirnames"):
				return pathVal{sh: shName}
			case strings.HasSuffix(n, "mime.ExtensionsByType"):
				return pathVal{sh: shPiece}
			}
		}
	}
	if u, ok := s.(*ssa.UnOp); ok {
		if _, ok := u.X.(*ssa.Global); ok {
			return pathVal{sh: shPiece}
		}
		if al := p.cell(u.X); al != nil {
			out := pathVal{sh: -1}
			for _, st := range p.allCellStores(al) {
				out = merge(out, e.element(st.Val, c, st, d+1))
			}
			if out.sh >= 0 {
				return out
			}
		}
	}
	if ph, ok := s.(*ssa.Phi); ok && d < 30 {
		out := pathVal{sh: -1}
		for _, ed := range ph.Edges {
			if ed != s {
				out = merge(out, e.element(ed, c, site, d+5))
			}
		}
		if out.sh >= 0 {
			return out
		}
	}
	if els, ok := p.elems(s, c); ok {
		out := pathVal{sh: -1}
		for _, el := range els {
			out = merge(out, e.eval(el.v, el.ctx, el.site, d+1))
		}
		if out.sh >= 0 {
			return out
		}
	}
	return e.bad(s, "element of")
}

func (e *pathEval) lookup(x *ssa.Lookup, c *Ctx, site ssa.Instruction, d int) pathVal {
	return e.element(x.X, c, site, d)
}

// flatten a concatenation.
func flattenAdd(v ssa.Value, c *Ctx, p *Program, out *[]located) {
	w, wc := p.res(v, c)
	if b, ok := w.(*ssa.BinOp); ok && b.Op == token.ADD {
		flattenAdd(b.X, wc, p, out)
		flattenAdd(b.Y, wc, p, out)
		return
	}
	*out = append(*out, located{w, wc, nil})
}

func (e *pathEval) concat(x *ssa.BinOp, c *Ctx, site ssa.Instruction, d int) pathVal {
	var parts []located
	flattenAdd(x, c, e.p, &parts)
	return e.concatParts(parts, site, d)
}

func (e *pathEval) concatParts(parts []located, site ssa.Instruction, d int) pathVal {
	// split at the separators of constants into components
	var comps []pathVal
	var cur []pathVal
	flush := func() {
		out := pathVal{sh: shComp}
		named := false
		for _, pv := range cur {
			if pv.sh == shName {
				named = true
			}
		}
		if len(cur) == 1 {
			out = cur[0]
		} else {
			all := len(cur) > 0
			for _, pv := range cur {
				switch {
				case pv.sh == shBad:
					out = pv
					all = false
				case !slashFree(pv.sh):
					out = pathVal{shBad, 0, "text glued to a path"}
					all = false
				}
				if !all {
					break
				}
			}
			if all {
				out = pathVal{sh: shPiece}
				if named {
					out = pathVal{sh: shName}
				}
			}
		}
		comps = append(comps, out)
		cur = nil
	}
	first := true
	abs := false
	for _, l := range parts {
		if s, ok := constString(l.v); ok {
			if first && strings.HasPrefix(s, "/") {
				abs = true
			}
			for i, seg := range strings.Split(s, "/") {
				if i > 0 {
					flush()
				}
				if seg != "" {
					cur = append(cur, constShape(seg))
				}
			}
		} else {
			pv := e.eval(l.v, l.ctx, site, d+1)
			if pv.sh < 0 {
				// part of a loop: what it starts with is counted elsewhere
				pv = pathVal{sh: shName}
			}
			cur = append(cur, pv)
		}
		first = false
	}
	flush()
	if len(comps) == 1 {
		return comps[0]
	}
	if abs {
		return pathVal{shBad, 0, "absolute path"}
	}
	return e.join(comps)
}

func (e *pathEval) call(call *ssa.Call, idx int, v ssa.Value, c *Ctx, site ssa.Instruction, d int) pathVal {
	p := e.p
	n := p.calleeName(call)
	args := callArgs(call)
	arg := func(i int) pathVal { return e.eval(args[i], c, call, d+1) }
	switch n {
	case "path/filepath.Join", "path.Join":
		els, ok := p.elems(args[0], c)
		if !ok {
			return e.bad(v, "path of unknown parts")
		}
		// a cleaned path below "/"
		if s, isk := constString(mustResC(p, els[0].v, els[0].ctx)); len(els) > 1 && isk && s == "/" {
			return pathVal{sh: shAbs}
		}
		var vals []pathVal
		for _, el := range els {
			pv := e.eval(el.v, el.ctx, call, d+1)
			if pv.sh < 0 {
				pv = pathVal{sh: shName}
			}
			vals = append(vals, pv)
		}
		return e.join(vals)
	case "path/filepath.Clean", "path.Clean":
		var parts []located
		flattenAdd(args[0], c, p, &parts)
		if s, isk := constString(parts[0].v); len(parts) > 1 && isk && strings.HasPrefix(s, "/") {
			return pathVal{sh: shAbs}
		}
		return arg(0)
	case "path/filepath.FromSlash", "path/filepath.ToSlash", "strings.ToLower", "strings.ToUpper", "strings.Clone":
		return arg(0)
	case "path/filepath.Base", "path.Base":
		return pathVal{sh: shPiece}
	case "path/filepath.Ext", "path.Ext":
		return pathVal{sh: shPiece}
	case "path/filepath.Dir", "path.Dir":
		in := arg(0)
		if in.sh == shInside && in.depth > 0 {
			in.depth--
			return in
		}
		if in.sh == shTrusted {
			return in
		}
		return e.bad(v, "parent directory of")
	case "encoding/hex.EncodeToString", "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
		return pathVal{sh: shName}
	case "net/url.PathEscape", "net/url.QueryEscape":
		return pathVal{sh: shPiece}
	case "strings.TrimPrefix", "strings.TrimLeft":
		in := arg(0)
		if s, isk := constString(mustResC(p, args[1], c)); in.sh == shAbs && isk && s == "/" {
			return pathVal{sh: shRooted}
		}
		if slashFree(in.sh) {
			return pathVal{sh: shPiece}
		}
		return in
	case "strings.TrimSuffix", "strings.TrimRight", "strings.TrimSpace", "strings.Trim":
		in := arg(0)
		if slashFree(in.sh) {
			return pathVal{sh: shPiece}
		}
		return e.bad(v, "trimmed")
	case "fmt.Sprintf":
		return e.sprintf(args, v, c, call, d)
	case "strings.ReplaceAll", "strings.Map", "strings.Replace":
		if n != "strings.Map" && e.replaced(v, c, 0) {
			return e.undotted(args[0], v, c, site)
		}
		return e.bad(v, "value")
	case "strings.Join":
		if sep, isk := constString(mustResC(p, args[1], c)); isk && !strings.ContainsAny(sep, "/\\") {
			if els, ok := p.elems(args[0], c); ok {
				var parts []located
				for i, el := range els {
					if i > 0 && sep != "" {
						parts = append(parts, located{args[1], c, call})
					}
					parts = append(parts, el)
				}
				return e.concatParts(parts, call, d)
			}
		}
		return e.bad(v, "value")
	}
	switch {
	case strings.HasSuffix(n, "strings.Replacer.Replace"):
		if e.replaced(v, c, 0) {
			return e.undotted(args[1], v, c, site)
		}
		return e.bad(v, "value")
	case strings.HasSuffix(n, "time.Time.Format"):
		if s, isk := constString(mustResC(p, args[1], c)); isk && !strings.ContainsAny(s, "/\\") && s != "" {
			return pathVal{sh: shName}
		}
	case strings.HasSuffix(n, "os.File.Name"):
		return pathVal{sh: shInside, depth: 1}
	case (strings.HasSuffix(n, "FileInfo.Name") || strings.HasSuffix(n, "DirEntry.Name")):
		return pathVal{sh: shName}
	}
	callees := p.callees[call]
	if len(callees) == 0 || c.depth() > maxCallDepth {
		return e.bad(v, "result")
	}
	k := "call" + call.Parent().String() + call.Name() + p.ctxKey(c)
	if e.seen[k] {
		return pathVal{sh: -1}
	}
	e.seen[k] = true
	defer delete(e.seen, k)
	out := pathVal{sh: -1}
	for _, g := range callees {
		rets := returnsOf(g)
		if hasErrResult(g) {
			rets = nil
			for _, ret := range p.nilReturns(g, &Cut{}) {
				rets = append(rets, ret)
			}
		}
		for _, ri := range rets {
			ret, ok := ri.(*ssa.Return)
			if !ok || idx >= len(ret.Results) {
				continue
			}
			out = merge(out, e.eval(ret.Results[idx], mkCtx(Ctx{up: c, call: call}), ret, d+1))
		}
	}
	return out
}

// replaced: v is a string in which "/" has been replaced with something harmless.
func (e *pathEval) replaced(v ssa.Value, c *Ctx, d int) bool {
	p := e.p
	v, c = p.res(v, c)
	call, ok := v.(*ssa.Call)
	if !ok || d > 6 {
		return false
	}
	args := callArgs(call)
	harmless := func(s string) bool { return s != "" && !strings.ContainsAny(s, "/.") }
	switch n := p.calleeName(call); {
	case n == "strings.ReplaceAll" || n == "strings.Replace":
		from, ok1 := constString(mustResC(p, args[1], c))
		to, ok2 := constString(mustResC(p, args[2], c))
		if !ok1 || !ok2 || !harmless(to) {
			return false
		}
		if n == "strings.Replace" {
			if k, isk := constInt(args[3]); !isk || k >= 0 {
				return false
			}
		}
		if from == "/" {
			return true
		}
		return e.replaced(args[0], c, d+1)
	case strings.HasSuffix(n, "strings.Replacer.Replace"):
		rv, rc := p.res(args[0], c)
		if u, ok := rv.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok {
				sts := p.globalStores(g)
				if len(sts) != 1 || sts[0] == nil {
					return false
				}
				rv, rc = p.res(sts[0], nil)
			}
		}
		rep, ok := rv.(*ssa.Call)
		if !ok || p.calleeName(rep) != "strings.NewReplacer" {
			return false
		}
		els, ok := p.elems(callArgs(rep)[0], rc)
		if !ok || len(els)%2 != 0 {
			return false
		}
		has := false
		for i := 0; i < len(els); i += 2 {
			from, ok1 := constString(mustResC(p, els[i].v, els[i].ctx))
			to, ok2 := constString(mustResC(p, els[i+1].v, els[i+1].ctx))
			if !ok1 || !ok2 || !harmless(to) {
				return false
			}
			if from == "/" {
				has = true
			}
		}
		return has || e.replaced(args[1], c, d+1)
	}
	return false
}

// undotted: the slash-free value v is made of src; it is a component unless
// src may be "." or ".." where v is computed.
func (e *pathEval) undotted(src, v ssa.Value, c *Ctx, site ssa.Instruction) pathVal {
	p := e.p
	for {
		w, wc := p.res(src, c)
		call, ok := w.(*ssa.Call)
		if !ok {
			src = w
			break
		}
		n := p.calleeName(call)
		if n == "strings.ReplaceAll" || n == "strings.Replace" {
			src, c = callArgs(call)[0], wc
			continue
		}
		if strings.HasSuffix(n, "strings.Replacer.Replace") {
			src, c = callArgs(call)[1], wc
			continue
		}
		src = w
		break
	}
	ap := p.ap(src, c)
	is := func(w ssa.Value, wc *Ctx) bool {
		w, wc = p.res(w, wc)
		if w == src {
			return true
		}
		vv, _ := p.res(v, c)
		if w == vv {
			return true
		}
		return ap != "" && p.ap(w, wc) == ap
	}
	for _, dots := range []string{".", ".."} {
		dots := dots
		cut := &Cut{Atom: func(cond ssa.Value, pol bool, cc *Ctx) bool {
			return eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool {
				s, isk := constString(mustResC(p, b, cc))
				return isk && s == dots && is(a, cc)
			})
		}}
		at := site
		if at == nil || at.Parent() != v.(ssa.Instruction).Parent() {
			at = v.(ssa.Instruction)
		}
		if _, open := p.reachInstr(at, c, cut); open {
			return pathVal{sh: shPiece}
		}
	}
	return pathVal{sh: shComp}
}

func (e *pathEval) sprintf(args []ssa.Value, v ssa.Value, c *Ctx, call *ssa.Call, d int) pathVal {
	p := e.p
	f, ok := constString(mustResC(p, args[0], c))
	if !ok {
		return e.bad(v, "format of")
	}
	els, ok := p.elems(args[1], c)
	if !ok {
		return e.bad(v, "arguments of")
	}
	var parts []located
	ai := 0
	lit := ""
	mk := func(s string) ssa.Value { return ssa.NewConst(constant.MakeString(s), types.Typ[types.String]) }
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("0123456789.+-# ", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			return e.bad(v, "format of")
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if ai >= len(els) {
			return e.bad(v, "format of")
		}
		if lit != "" {
			parts = append(parts, located{mk(lit), nil, call})
			lit = ""
		}
		el := els[ai]
		ai++
		w := el.v
		if mi, ok := w.(*ssa.MakeInterface); ok {
			w = mi.X
		}
		if b, ok := w.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 || f[i] == 'x' || f[i] == 'X' || f[i] == 'd' {
			parts = append(parts, located{mk("0"), nil, call})
			continue
		}
		parts = append(parts, located{w, el.ctx, call})
	}
	if lit != "" {
		parts = append(parts, located{mk(lit), nil, call})
	}
	return e.concatParts(parts, call, d)
}

// pathArgs: the arguments of the call that name files.
var pathArgs = map[string][]int{
	"os.Open": {0}, "os.OpenFile": {0}, "os.Create": {0}, "os.Mkdir": {0}, "os.MkdirAll": {0}, "os.Remove": {0}, "os.RemoveAll": {0},
	"os.Rename": {0, 1}, "os.Link": {0, 1}, "os.Symlink": {0, 1}, "os.Stat": {0}, "os.Lstat": {0}, "os.ReadFile": {0}, "os.WriteFile": {0},
	"os.ReadDir": {0}, "os.Truncate": {0}, "os.Chmod": {0}, "os.Chown": {0}, "os.Chtimes": {0}, "os.CreateTemp": {0}, "os.MkdirTemp": {0},
	"os.DirFS": {0}, "os.OpenRoot": {0}, "path/filepath.Walk": {0}, "path/filepath.WalkDir": {0}, "path/filepath.Glob": {0},
	"io/ioutil.ReadFile": {0}, "io/ioutil.WriteFile": {0}, "io/ioutil.ReadDir": {0}, "io/ioutil.TempFile": {0}, "net/http.ServeFile": {2},
}

func runC17(p *Program, r *Report) {
	r.Rule("confined", "every path handed to the operating system for a user stays below the configured directory", 6)
	r.Rule("private", "files and directories created for users are not accessible to everybody", 2)
	r.Rule("no-overwrite", "what a user stored is never overwritten or truncated", 2)
	r.Rule("right-file", "a message is only written to the file of its own network, conversation and day", 1)
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != "msgstore.EscapeFilename" || fn.Pkg == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/msgstore") {
			return
		}
		v := mustResC(p, callArgs(ci)[0], nil)
		bad := ""
		switch x := v.(type) {
		case *ssa.Slice, *ssa.BinOp:
			bad = "a part of a name or another text"
		case *ssa.Call:
			n := p.calleeName(x)
			for _, pre := range []string{"strings.Trim", "strings.Replace", "strings.Cut", "strings.Split", "strings.Map", "strings.Fields", "path.", "path/filepath.", "regexp."} {
				if strings.HasPrefix(n, pre) {
					bad = "the result of " + n
				}
			}
		}
		r.Check(bad == "", "right-file", p.fnID(fn)+":name", "%s: a log is named after %s instead of the whole name: different conversations share a log", p.at(ci), bad)
	})
	// a file kept open from earlier is only written to when it is the one the path names
	sameFile := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
			call, ok := mustResC(p, a, c).(*ssa.Call)
			if !ok || !strings.HasSuffix(p.calleeName(call), "os.File.Name") {
				return false
			}
			pv := p.pathOf(b, c, nil)
			return pv.sh == shInside && pv.depth > 0
		})
	}}
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if p.pkgOf(fn) != "msgstore" {
			return
		}
		args := callArgs(ci)
		var f ssa.Value
		switch {
		case strings.HasPrefix(name, "fmt.Fprint") || name == "io.WriteString" || name == "io.Copy":
			f = args[0]
		case strings.HasPrefix(name, "os.File.Write"):
			f = args[0]
		default:
			return
		}
		f = mustRes(p, f)
		if mi, ok := f.(*ssa.MakeInterface); ok {
			f = mi.X
		}
		// *os.File embedded in the entry of the table of open files
		if u, ok := f.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && p.cell(u.X) == nil {
				f = fa.X
			}
		}
		for _, u := range p.lift(f, ci) {
			for i, lf := range p.leaves(u, nil) {
				lf := lf
				key := p.fnID(u.site.Parent()) + "#" + itoa(i)
				v := lf.v
				if ex, ok := v.(*ssa.Extract); ok {
					v = ex.Tuple
				}
				if _, ok := v.(*ssa.Lookup); !ok {
					r.Ok("right-file", key)
					continue
				}
				lv := lf.v
				none := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
					return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool { return isNilConst(b) && mustResC(p, a, c) == lv })
				}}
				r.Check(!p.leafOpen(&lf, u.site, anyOf(sameFile, none)), "right-file", key, "%s: a file opened earlier is written to without it being the one that belongs to the message", p.at(ci))
			}
		}
	})
	n := map[string]int{}
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		pkg := p.pkgOf(fn)
		if pkg == "config" || pkg == "main" || strings.HasPrefix(pkg, "cmd/") || strings.HasPrefix(pkg, "contrib/") {
			return
		}
		idx, ok := pathArgs[name]
		if !ok {
			return
		}
		args := callArgs(ci)
		for _, i := range idx {
			key := p.fnID(fn) + ":" + name + itoa(i)
			n[key]++
			key += "#" + itoa(n[key])
			pv := p.pathOf(args[i], nil, ci)
			r.Check(pv.sh == shInside || pv.sh == shTrusted || pv.sh < 0, "confined", key, "%s: %s may be given a path outside of the configured directory: %s", p.at(ci), name, pv.why)
		}
		user := func(i int) bool { pv := p.pathOf(args[i], nil, ci); return pv.sh != shTrusted }
		mode := func(i int) (int64, bool) {
			v, _ := p.res(args[i], nil)
			if cv, ok := v.(*ssa.Convert); ok {
				v, _ = p.res(cv.X, nil)
			}
			return constInt(v)
		}
		switch name {
		case "os.Create", "os.WriteFile", "io/ioutil.WriteFile", "os.Truncate":
			if user(0) {
				r.Bad("no-overwrite", p.fnID(fn)+":"+name, "%s: %s truncates a file that may exist", p.at(ci), name)
			}
		case "os.OpenFile":
			if !user(0) {
				return
			}
			fl, ok := constInt(mustRes(p, args[1]))
			if !ok {
				r.Bad("no-overwrite", p.fnID(fn)+":flags", "%s: the flags are not known", p.at(ci))
				return
			}
			const wr, rdwr, create, excl, trunc, app = 0x1, 0x2, 0x40, 0x80, 0x200, 0x400
			if fl&(wr|rdwr) != 0 {
				r.Check(fl&trunc == 0 || fl&excl != 0 && fl&create != 0, "no-overwrite", p.fnID(fn)+":trunc", "%s: a file that may exist is truncated", p.at(ci))
				r.Check(fl&app != 0 || fl&excl != 0 && fl&create != 0, "no-overwrite", p.fnID(fn)+":append", "%s: a file that may exist is overwritten from its start: it is opened neither for appending nor as a new file", p.at(ci))
			}
			if fl&create != 0 {
				m, ok := mode(2)
				r.Check(ok && m&07 == 0, "private", p.fnID(fn)+":file", "%s: the file is created with a mode that lets everybody access it", p.at(ci))
			}
		case "os.MkdirAll", "os.Mkdir":
			if !user(0) {
				return
			}
			m, ok := mode(1)
			r.Check(ok && m&07 == 0, "private", p.fnID(fn)+":dir", "%s: the directory is created with a mode that lets everybody access it", p.at(ci))
		case "os.Rename":
			dst := args[1]
			ap := p.ap(dst, nil)
			cut := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
				same := func(ev ssa.Value) bool {
					call := p.errOf(mustResC(p, ev, c))
					if call == nil {
						return false
					}
					nm := p.calleeName(call)
					if nm != "os.Stat" && nm != "os.Lstat" {
						return false
					}
					a := callArgs(call)[0]
					x, y := mustResC(p, a, c), mustResC(p, dst, nil)
					return x == y || ap != "" && p.ap(a, c) == ap
				}
				if eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool { return isNilConst(b) && same(a) }) {
					return true
				}
				w, _ := p.res(cond, c)
				if call, ok := w.(*ssa.Call); ok && pol {
					switch p.calleeName(call) {
					case "os.IsNotExist":
						return same(callArgs(call)[0])
					case "errors.Is":
						return same(callArgs(call)[0])
					}
				}
				return false
			}}
			p.guardRule(r, "no-overwrite", p.fnID(fn)+":rename", ci, fixed(cut), GuardOpts{MaxDepth: 3}, "a directory may be moved over one that exists")
		}
	})
}
