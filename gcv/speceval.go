package main

// Evaluation of contract expressions to terms.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SV struct {
	v   Val
	typ types.Type
}

type Env struct {
	x      *Exec
	st     *State
	old    *State // state in which old() is evaluated
	vars   map[string]SV
	oldv   map[string]SV // values of variables in old()
	dyn    func(st *State, name string) (SV, bool)
	pkg    string
	parent *Env
	inOld  bool
	head   *Env // the loop head, for head()
}

type specErr struct{ msg string }

func serr(n *Node, f string, a ...any) {
	panic(specErr{n.pos + ": " + fmt.Sprintf(f, a...)})
}

var mathInt = types.Typ[types.UntypedInt]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]
var tByteSlice = types.NewSlice(types.Typ[types.Uint8])
var tBytesArr = &SpecType{"(Array Int Int)"}
var tAny = types.Universe.Lookup("any").Type()
var tError = types.Universe.Lookup("error").Type()

func (x *Exec) findPkg(name, from string) *types.Package {
	var self *types.Package
	for _, p := range x.w.pkgs {
		if p.Pkg.Name() == from {
			self = p.Pkg
		}
		if p.Pkg.Name() == name {
			return p.Pkg
		}
	}
	if self != nil {
		for _, q := range self.Imports() {
			if q.Name() == name {
				return q
			}
		}
	}
	var best *types.Package
	for path, q := range x.w.tpkgs {
		if q.Name() == name && (best == nil || len(path) < len(best.Path()) || len(path) == len(best.Path()) && path < best.Path()) {
			best = q
		}
	}
	return best
}

func (x *Exec) typeOf(s, pkg, pos string) types.Type {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(x.typeOf(s[1:], pkg, pos))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(x.typeOf(s[2:], pkg, pos))
	case strings.HasPrefix(s, "["):
		i := strings.Index(s, "]")
		n := new(big.Int)
		n.SetString(s[1:i], 10)
		return types.NewArray(x.typeOf(s[i+1:], pkg, pos), n.Int64())
	case strings.HasPrefix(s, "map["):
		d, i := 1, 4
		for ; d > 0; i++ {
			if s[i] == '[' {
				d++
			} else if s[i] == ']' {
				d--
			}
		}
		return types.NewMap(x.typeOf(s[4:i-1], pkg, pos), x.typeOf(s[i:], pkg, pos))
	}
	if strings.HasPrefix(s, "raw:") {
		return &SpecType{s[4:]}
	}
	switch s {
	case "mathint":
		return mathInt
	case "barr":
		return tBytesArr
	case "strset":
		return &SpecType{"(Array Str Bool)"}
	case "func":
		return types.NewSignatureType(nil, nil, nil, nil, nil, false)
	case "any":
		return tAny
	}
	if strings.HasPrefix(s, "arr_") { // arr_K_V of basic spec sorts
		p := strings.SplitN(s, "_", 3)
		return &SpecType{"(Array " + x.w.sortOf(x.typeOf(p[1], pkg, pos)) + " " + x.w.sortOf(x.typeOf(p[2], pkg, pos)) + ")"}
	}
	for _, q := range x.sp.sorts {
		if q == s {
			return &SpecType{q}
		}
	}
	if i := strings.Index(s, "."); i > 0 {
		p := x.findPkg(s[:i], pkg)
		if p == nil {
			panic(specErr{pos + ": unknown package in type " + s})
		}
		o := p.Scope().Lookup(s[i+1:])
		if o == nil {
			panic(specErr{pos + ": unknown type " + s})
		}
		return o.Type()
	}
	if p := x.findPkg(pkg, pkg); p != nil {
		if o, ok := p.Scope().Lookup(s).(*types.TypeName); ok {
			return o.Type()
		}
	}
	if o, ok := types.Universe.Lookup(s).(*types.TypeName); ok {
		return o.Type()
	}
	panic(specErr{pos + ": unknown type " + s})
}

// specSort gives the sort of a specification parameter: Go integers are
// mathematical integers there.
func (e *Env) get(name string) (SV, bool) {
	for q := e; q != nil; q = q.parent {
		if e.inOld && q.oldv != nil {
			if v, ok := q.oldv[name]; ok {
				return v, true
			}
		}
		if v, ok := q.vars[name]; ok {
			return v, true
		}
		if q.dyn != nil && !e.inOld {
			if v, ok := q.dyn(e.st, name); ok {
				return v, true
			}
		}
	}
	return SV{}, false
}

func (e *Env) child(vars map[string]SV) *Env {
	n := *e
	n.parent = e
	n.vars = vars
	n.oldv = nil
	n.dyn = nil
	return &n
}

// Term evaluates a boolean expression.
func (e *Env) Bool(n *Node) *Term {
	e.x.spec0++
	defer func() { e.x.spec0-- }()
	v := e.eval(n)
	t := e.x.asTerm(v.v)
	if t.sort != SBool {
		serr(n, "not a boolean: %s", n.show())
	}
	return t
}

func (e *Env) Term(n *Node) SV {
	e.x.spec0++
	defer func() { e.x.spec0-- }()
	return e.eval(n)
}

func (n *Node) show() string {
	switch n.kind {
	case "num", "ident":
		return n.s
	case "str":
		return fmt.Sprintf("%q", n.s)
	case "field":
		return n.n[0].show() + "." + n.s
	case "bin":
		return n.n[0].show() + " " + n.s + " " + n.n[1].show()
	case "call":
		var a []string
		for _, q := range n.n[1:] {
			a = append(a, q.show())
		}
		return n.n[0].show() + "(" + strings.Join(a, ", ") + ")"
	case "index":
		return n.n[0].show() + "[" + n.n[1].show() + "]"
	}
	return n.kind + " " + n.s
}

func (e *Env) tm(n *Node) *Term { return e.x.asTerm(e.eval(n).v) }

func (e *Env) eval(n *Node) SV {
	x, tb := e.x, e.x.tb
	switch n.kind {
	case "num":
		v, ok := new(big.Int).SetString(n.s, 0)
		if !ok {
			serr(n, "bad number %s", n.s)
		}
		return SV{tb.Num(v), mathInt}
	case "str":
		return SV{x.str(n.s), tString}
	case "ident":
		return e.ident(n)
	case "un":
		switch n.s {
		case "!":
			return SV{tb.Not(e.tm(n.n[0])), tBool}
		case "-":
			return SV{tb.Sub(tb.I(0), e.tm(n.n[0])), mathInt}
		case "*":
			p := e.eval(n.n[0])
			pt, ok := p.typ.Underlying().(*types.Pointer)
			if !ok {
				serr(n, "dereference of a non-pointer")
			}
			return e.loaded(x.loadPtr(e.st, x.deref(p.v, pt.Elem())), pt.Elem())
		}
	case "ite":
		c := e.tm(n.n[0])
		a, b := e.eval(n.n[1]), e.eval(n.n[2])
		a, b = e.unify(a, b)
		return SV{tb.Ite(c, x.asTerm(a.v), x.asTerm(b.v)), a.typ}
	case "let":
		v := e.eval(n.n[0])
		return e.child(map[string]SV{n.s: v}).eval(n.n[1])
	case "quant":
		vars := map[string]SV{}
		var bs []*Term
		guard := tb.B(true)
		for _, p := range n.vars {
			t := x.typeOf(p.typ, e.pkg, n.pos)
			b := tb.BoundVar(p.name, x.w.sortOf(t))
			bs = append(bs, b)
			if bt, ok := t.(*types.Basic); ok && bt.Kind() == types.Int {
				t = mathInt
			}
			if lo, hi, ok := intRange(t); ok {
				guard = tb.And(guard, tb.App(SBool, "<=", tb.Num(lo), b), tb.App(SBool, "<=", b, tb.Num(hi)))
			}
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				guard = tb.And(guard, tb.App(SBool, "<", tb.I(0), b), tb.App(SBool, "<=", b, x.topNow(e.st)))
				if tag := x.w.rtag(pt.Elem()); tag != 0 {
					guard = tb.And(guard, tb.App(SBool, "=", tb.App(SInt, "rtype", b), tb.I(tag)))
				}
			}
			vars[p.name] = SV{b, t}
		}
		c := e.child(vars)
		var pats [][]*Term
		for _, ps := range n.pats {
			var pt []*Term
			for _, p := range ps {
				pt = append(pt, patTerm(c.tm(p)))
			}
			pats = append(pats, pt)
		}
		body := c.tm(n.n[0])
		if n.s == "forall" {
			body = tb.Imp(guard, body)
		} else {
			body = tb.And(guard, body)
		}
		if len(pats) == 0 && n.s == "forall" {
			pats = autoPats(body, bs)
		}
		return SV{x.normQuant(n.s, bs, pats, body), tBool}
	case "bin":
		return e.bin(n)
	case "field":
		return e.field(n)
	case "index":
		a := e.eval(n.n[0])
		switch u := a.typ.Underlying().(type) {
		case *types.Slice:
			i := e.tm(n.n[1])
			s := x.asTerm(a.v)
			comp := "E_" + typeKey(u.Elem())
			x.compSort(comp, u.Elem())
			return e.loaded(tb.Select(tb.Select(x.heapGet(e.st, comp), x.sarr(s)), tb.Add(x.soff(s), i)), u.Elem())
		case *types.Map:
			_, v := x.mapGet(e.st, x.asTerm(a.v), e.tm(n.n[1]), u)
			return e.loaded(v, u.Elem())
		case *types.Array:
			return e.loaded(tb.Select(x.asTerm(a.v), e.tm(n.n[1])), u.Elem())
		case *types.Basic:
			return SV{x.byteAt(x.asTerm(a.v), e.tm(n.n[1])), types.Typ[types.Uint8]}
		case *SpecType:
			_, vs := arrSorts(u.sort)
			t := tb.Select(x.asTerm(a.v), e.tm(n.n[1]))
			return SV{t, sortTypeW(x.w, vs)}
		}
		serr(n, "cannot index %s", a.typ)
	case "slice":
		a := e.eval(n.n[0])
		var lo, hi *Term
		lo = tb.I(0)
		if n.n[1] != nil {
			lo = e.tm(n.n[1])
		}
		if b, ok := a.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			s := x.asTerm(a.v)
			hi = x.strLen(s)
			if n.n[2] != nil {
				hi = e.tm(n.n[2])
			}
			return SV{x.sub(s, lo, hi), tString}
		}
		if _, ok := a.typ.Underlying().(*types.Slice); ok {
			s := x.asTerm(a.v)
			hi = x.slen(s)
			if n.n[2] != nil {
				hi = e.tm(n.n[2])
			}
			return SV{x.mkslc(x.sarr(s), tb.Add(x.soff(s), lo), tb.Sub(hi, lo), tb.Sub(x.scap(s), lo)), a.typ}
		}
		serr(n, "cannot slice %s", a.typ)
	case "call":
		return e.call(n)
	}
	serr(n, "cannot evaluate %s", n.kind)
	return SV{}
}

func sortType(s Sort) types.Type {
	return sortTypeW(nil, s)
}

func sortTypeW(w *World, s Sort) types.Type {
	switch s {
	case SInt:
		return mathInt
	case SBool:
		return tBool
	case SStr:
		return tString
	case SAny:
		return tAny
	}
	if w != nil {
		if r, ok := w.recs[s]; ok {
			return r.typ
		}
	}
	return &SpecType{s}
}

// loaded gives a heap value its type facts.
func (e *Env) loaded(t *Term, typ types.Type) SV {
	if !t.free {
		e.x.typed(e.st, t, typ)
	} else if lo, hi, ok := intRange(typ); ok {
		_, _ = lo, hi
	}
	return SV{t, typ}
}

// autoPats picks triggers for a quantifier without explicit ones.
func autoPats(body *Term, bs []*Term) [][]*Term {
	var cands []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term, inq bool)
	walk = func(t *Term, inq bool) {
		if seen[t] || !t.free {
			return
		}
		seen[t] = true
		if t.op == "forall" || t.op == "exists" {
			walk(t.args[0], true)
			return
		}
		for _, a := range t.args {
			walk(a, inq)
		}
		if len(t.args) == 0 {
			return
		}
		switch t.op {
		case "and", "or", "not", "=>", "=", "<", "<=", "+", "-", "*", "div", "mod", "ite", "store", "sEq", "rtype":
			return
		}
		if strings.HasPrefix(t.op, "is:") || inq && mentionsOther(t, bs, map[*Term]bool{}) {
			return
		}
		// no arithmetic on bound variables inside
		ok := true
		var bad func(a *Term)
		bad = func(a *Term) {
			if !a.free {
				return
			}
			switch a.op {
			case "and", "or", "not", "=>", "=", "<", "<=", "ite", "forall", "exists", "div", "mod":
				ok = false
				return
			}
			for _, q := range a.args {
				bad(q)
			}
		}
		bad(t)
		if ok {
			cands = append(cands, t)
		}
	}
	walk(body, false)
	has := func(t *Term, b *Term) bool {
		var f func(t *Term) bool
		m := map[*Term]bool{}
		f = func(t *Term) bool {
			if t == b {
				return true
			}
			if !t.free || m[t] {
				return false
			}
			m[t] = true
			for _, a := range t.args {
				if f(a) {
					return true
				}
			}
			return false
		}
		return f(t)
	}
	all := func(t *Term) bool {
		for _, b := range bs {
			if !has(t, b) {
				return false
			}
		}
		return true
	}
	arith := func(t *Term) bool {
		var f func(t *Term) bool
		f = func(t *Term) bool {
			if !t.free {
				return false
			}
			if t.op == "+" || t.op == "-" || t.op == "*" || t.op == "div" || t.op == "mod" {
				return true
			}
			for _, a := range t.args {
				if f(a) {
					return true
				}
			}
			return false
		}
		return f(t)
	}
	var out [][]*Term
	for pass := 0; pass < 2 && len(out) == 0; pass++ {
		for _, c := range cands {
			if all(c) && (pass == 1 || !arith(c)) {
				// minimal: no other candidate inside it
				min := true
				for _, d := range cands {
					if d != c && all(d) && (pass == 1 || !arith(d)) && has2(c, d) {
						min = false
						break
					}
				}
				if min {
					out = append(out, []*Term{c})
				}
			}
			if len(out) >= 6 {
				break
			}
		}
	}
	if len(out) == 0 && len(bs) > 1 {
		var mp []*Term
		for _, b := range bs {
			for _, c := range cands {
				if has(c, b) {
					mp = append(mp, c)
					break
				}
			}
		}
		if len(mp) == len(bs) {
			out = append(out, mp)
		}
	}
	return out
}

func has2(t, d *Term) bool {
	if t == d {
		return true
	}
	for _, a := range t.args {
		if a.free && has2(a, d) {
			return true
		}
	}
	return false
}

func (e *Env) ident(n *Node) SV {
	x, tb := e.x, e.x.tb
	switch n.s {
	case "true":
		return SV{tb.B(true), tBool}
	case "false":
		return SV{tb.B(false), tBool}
	case "nil":
		return SV{nil, types.Typ[types.UntypedNil]}
	}
	if v, ok := e.get(n.s); ok {
		return v
	}
	if strings.HasPrefix(n.s, "$") {
		if ts, ok := x.sp.ghosts[n.s]; ok {
			t := x.typeOf(ts, e.pkg, n.pos)
			x.csort[n.s] = x.w.sortOf(t)
			return SV{x.heapGet(e.st, n.s), t}
		}
		serr(n, "unknown ghost %s", n.s)
	}
	if d := x.sp.defs[n.s]; d != nil && len(d.params) == 0 {
		return e.call(&Node{kind: "call", n: []*Node{n}, pos: n.pos})
	}
	if p := x.findPkg(e.pkg, e.pkg); p != nil {
		if v, ok := x.pkgObj(e.st, p, n.s); ok {
			return v
		}
	}
	serr(n, "unknown name %s", n.s)
	return SV{}
}

func (x *Exec) pkgObj(st *State, p *types.Package, name string) (SV, bool) {
	switch o := p.Scope().Lookup(name).(type) {
	case *types.Const:
		switch o.Val().Kind() {
		case constant.Bool:
			return SV{x.tb.B(constant.BoolVal(o.Val())), o.Type()}, true
		case constant.String:
			return SV{x.str(constant.StringVal(o.Val())), tString}, true
		case constant.Int:
			b, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
			return SV{x.tb.Num(b), o.Type()}, true
		}
	case *types.Var:
		for _, sp := range x.w.prog.AllPackages() {
			if sp.Pkg == p {
				if g, ok := sp.Members[name].(*ssa.Global); ok {
					return SV{x.globalValue(st, g), o.Type()}, true
				}
			}
		}
		return SV{x.globalByName(p.Path()+"."+name, o.Type()), o.Type()}, true
	}
	return SV{}, false
}

func (e *Env) unify(a, b SV) (SV, SV) {
	if isNilSV(a) && isNilSV(b) {
		panic(specErr{"nil on both sides"})
	}
	if isNilSV(a) {
		a = SV{e.nilOf(b), b.typ}
	}
	if isNilSV(b) {
		b = SV{e.nilOf(a), a.typ}
	}
	// a concrete value against an interface: box it
	ta, tb := e.x.asTerm(a.v), e.x.asTerm(b.v)
	if ta.sort == SAny && tb.sort != SAny {
		b = SV{e.x.boxVal(b.v, b.typ), a.typ}
	}
	if tb.sort == SAny && ta.sort != SAny {
		a = SV{e.x.boxVal(a.v, a.typ), b.typ}
	}
	return a, b
}

func isNilSV(a SV) bool {
	b, ok := a.typ.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (e *Env) nilOf(v SV) *Term {
	switch e.x.asTerm(v.v).sort {
	case SInt:
		return e.x.tb.I(0)
	case SAny:
		return e.x.tb.Sym("anil", SAny)
	case SFn:
		return e.x.tb.Sym("fnil", SFn)
	case SSlc:
		return e.x.zero(tByteSlice)
	}
	panic(specErr{"nil of " + e.x.asTerm(v.v).sort})
}

func (e *Env) bin(n *Node) SV {
	x, tb := e.x, e.x.tb
	switch n.s {
	case "&&":
		a := e.tm(n.n[0])
		if a.isFalse() {
			return SV{a, tBool}
		}
		return SV{tb.And(a, e.tm(n.n[1])), tBool}
	case "||":
		a := e.tm(n.n[0])
		if a.isTrue() {
			return SV{a, tBool}
		}
		return SV{tb.Or(a, e.tm(n.n[1])), tBool}
	case "==>":
		a := e.tm(n.n[0])
		if a.isFalse() {
			return SV{tb.B(true), tBool}
		}
		return SV{tb.Imp(a, e.tm(n.n[1])), tBool}
	case "<==>":
		return SV{tb.Eq(e.tm(n.n[0]), e.tm(n.n[1])), tBool}
	}
	av, bv := e.eval(n.n[0]), e.eval(n.n[1])
	switch n.s {
	case "==", "!=":
		av, bv = e.unify(av, bv)
		t := x.eq(x.asTerm(av.v), x.asTerm(bv.v))
		if n.s == "!=" {
			t = tb.Not(t)
		}
		return SV{t, tBool}
	}
	a, b := x.asTerm(av.v), x.asTerm(bv.v)
	isStr := a.sort == SStr
	switch n.s {
	case "<":
		if isStr {
			return SV{tb.App(SBool, "slt", a, b), tBool}
		}
		return SV{tb.Lt(a, b), tBool}
	case "<=":
		if isStr {
			return SV{tb.Not(tb.App(SBool, "slt", b, a)), tBool}
		}
		return SV{tb.Le(a, b), tBool}
	case ">":
		if isStr {
			return SV{tb.App(SBool, "slt", b, a), tBool}
		}
		return SV{tb.Lt(b, a), tBool}
	case ">=":
		if isStr {
			return SV{tb.Not(tb.App(SBool, "slt", a, b)), tBool}
		}
		return SV{tb.Le(b, a), tBool}
	case "+":
		if isStr {
			return SV{x.cat(a, b), tString}
		}
		return SV{tb.Add(a, b), mathInt}
	case "-":
		return SV{tb.Sub(a, b), mathInt}
	case "*":
		return SV{tb.Mul(a, b), mathInt}
	case "/":
		return SV{tb.Div(a, b), mathInt}
	case "%":
		return SV{tb.Mod(a, b), mathInt}
	case "<<":
		return SV{tb.Mul(a, x.pow2(e.st, b)), mathInt}
	case ">>":
		return SV{tb.Div(a, x.pow2(e.st, b)), mathInt}
	case "&", "|", "&^":
		rt := types.Type(types.Typ[types.Uint64])
		op := map[string]token.Token{"&": token.AND, "|": token.OR, "&^": token.AND_NOT}[n.s]
		for _, v := range []SV{av, bv} {
			if _, _, ok := intRange(v.typ); ok {
				rt = v.typ
			}
		}
		return SV{x.bitop(e.st, op, a, b, rt), mathInt}
	}
	serr(n, "operator %s", n.s)
	return SV{}
}

func (e *Env) field(n *Node) SV {
	x := e.x
	// package-qualified name
	if id := n.n[0]; id.kind == "ident" {
		if _, ok := e.get(id.s); !ok && x.sp.defs[id.s] == nil {
			if p := x.findPkg(id.s, e.pkg); p != nil {
				if v, ok := x.pkgObj(e.st, p, n.s); ok {
					return v
				}
				serr(n, "unknown name %s.%s", id.s, n.s)
			}
		}
	}
	b := e.eval(n.n[0])
	return e.sel(n, b, n.s)
}

func (e *Env) sel(n *Node, b SV, name string) SV {
	x := e.x
	t := b.typ
	var st types.Type = t
	ptr := false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		st, ptr = p.Elem(), true
	}
	if _, ok := st.Underlying().(*types.Struct); !ok {
		serr(n, "no field %s in %s", name, t)
	}
	r := x.w.rec(st)
	if i, ok := r.fields[name]; ok {
		if ptr {
			p := x.deref(b.v, st)
			q := &Ptr{comp: p.comp, ref: p.ref, root: p.root, path: append(append([]PathEl{}, p.path...), PathEl{field: i}), elem: r.types[i]}
			return e.loaded(x.loadPtr(e.st, q), r.types[i])
		}
		return e.loaded(x.recSel(r, i, x.asTerm(b.v)), r.types[i])
	}
	// promoted field
	s := st.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Embedded() {
			continue
		}
		ft := f.Type()
		if p, ok := ft.Underlying().(*types.Pointer); ok {
			ft = p.Elem()
		}
		if fs, ok := ft.Underlying().(*types.Struct); ok {
			for j := 0; j < fs.NumFields(); j++ {
				if fs.Field(j).Name() == name {
					return e.sel(n, e.sel(n, b, f.Name()), name)
				}
			}
		}
	}
	serr(n, "no field %s in %s", name, st)
	return SV{}
}

// place resolves an expression to a pointer to it (for modifies clauses).
func (e *Env) place(n *Node) *ModTarget {
	e.x.spec0++
	defer func() { e.x.spec0-- }()
	x := e.x
	switch n.kind {
	case "ident":
		if strings.HasPrefix(n.s, "$") {
			e.ident(n)
			return &ModTarget{comp: n.s}
		}
		// a variable that lives in a cell
		if v, ok := e.get("&" + n.s); ok {
			p := v.v.(*Ptr)
			return &ModTarget{comp: p.comp, ref: p.ref, path: p.path}
		}
		serr(n, "not a location: %s", n.s)
	case "un":
		if n.s == "*" {
			p := e.eval(n.n[0])
			pt, ok := p.typ.Underlying().(*types.Pointer)
			if !ok {
				serr(n, "not a pointer")
			}
			q := x.deref(p.v, pt.Elem())
			return &ModTarget{comp: q.comp, ref: q.ref, path: q.path}
		}
	case "field":
		b := e.eval(n.n[0])
		pt, ok := b.typ.Underlying().(*types.Pointer)
		if !ok {
			serr(n, "not a location: %s", n.show())
		}
		r := x.w.rec(pt.Elem())
		i, ok := r.fields[n.s]
		if !ok {
			serr(n, "no field %s", n.s)
		}
		q := x.deref(b.v, pt.Elem())
		return &ModTarget{comp: q.comp, ref: q.ref, path: append(append([]PathEl{}, q.path...), PathEl{field: i})}
	case "call":
		f := n.n[0].s
		switch f {
		case "elems":
			s := e.eval(n.n[1])
			el := s.typ.Underlying().(*types.Slice).Elem()
			comp := "E_" + typeKey(el)
			x.compSort(comp, el)
			return &ModTarget{comp: comp, ref: x.sarr(x.asTerm(s.v))}
		case "mapof": // both components are handled by the caller
			s := e.eval(n.n[1])
			md, _ := x.mapComps(s.typ.Underlying().(*types.Map))
			return &ModTarget{comp: md, ref: x.asTerm(s.v)}
		case "allmaps":
			md, _ := x.mapComps(x.typeOf(n.n[1].s, e.pkg, n.pos).Underlying().(*types.Map))
			return &ModTarget{comp: md}
		case "objs":
			t := x.typeOf(n.n[1].s, e.pkg, n.pos)
			p := x.deref(x.tb.I(0), t)
			return &ModTarget{comp: p.comp}
		case "allelems":
			t := x.typeOf(n.n[1].s, e.pkg, n.pos)
			comp := "E_" + typeKey(t)
			x.compSort(comp, t)
			return &ModTarget{comp: comp}
		}
	}
	serr(n, "not a location: %s", n.show())
	return nil
}

// places expands a modifies clause.
func (e *Env) places(n *Node) []*ModTarget {
	m := e.place(n)
	if strings.HasPrefix(m.comp, "MD_") {
		c := *m
		c.comp = "MV_" + m.comp[3:]
		return []*ModTarget{m, &c}
	}
	return []*ModTarget{m}
}

func (e *Env) atOld() *Env {
	if e.old == nil {
		panic(specErr{"old() without a pre-state"})
	}
	c := *e
	c.st = e.old
	c.inOld = true
	c.parent = e.parent
	return &c
}

func (e *Env) call(n *Node) SV {
	x, tb := e.x, e.x.tb
	if n.n[0].kind == "field" {
		serr(n, "method calls are not allowed in specifications")
	}
	f := n.n[0].s
	arg := func(i int) SV { return e.eval(n.n[i+1]) }
	at := func(i int) *Term { return x.asTerm(arg(i).v) }
	switch f {
	case "old":
		return e.atOld().eval(n.n[1])
	case "len":
		v := arg(0)
		switch u := v.typ.Underlying().(type) {
		case *types.Slice:
			return SV{x.slen(x.asTerm(v.v)), mathInt}
		case *types.Basic:
			return SV{x.strLen(x.asTerm(v.v)), mathInt}
		case *types.Array:
			return SV{tb.I(u.Len()), mathInt}
		case *types.Map:
			md, _ := x.mapComps(u)
			t := x.mapLen(tb.Select(x.heapGet(e.st, md), x.asTerm(v.v)))
			x.nonneg(t)
			return SV{t, mathInt}
		}
		serr(n, "len of %s", v.typ)
	case "cap":
		return SV{x.scap(at(0)), mathInt}
	case "arrid":
		return SV{x.sarr(at(0)), mathInt}
	case "off":
		return SV{x.soff(at(0)), mathInt}
	case "arr": // contents of a slice's backing array
		v := arg(0)
		el := v.typ.Underlying().(*types.Slice).Elem()
		comp := "E_" + typeKey(el)
		x.compSort(comp, el)
		return SV{tb.Select(x.heapGet(e.st, comp), x.sarr(x.asTerm(v.v))), &SpecType{"(Array Int " + x.w.sortOf(el) + ")"}}
	case "str":
		v := arg(0)
		switch u := v.typ.Underlying().(type) {
		case *types.Slice:
			return SV{x.sliceStr(e.st, x.asTerm(v.v), u.Elem()), tString}
		case *types.Array:
			return SV{x.arr2s(x.asTerm(v.v), tb.I(0), tb.I(u.Len())), tString}
		}
		serr(n, "str of %s", v.typ)
	case "zeros": // n zero bytes
		return SV{x.arr2s(tb.App("(Array Int Int)", "constarr", tb.I(0)), tb.I(0), at(0)), tString}
	case "has":
		v := arg(0)
		h, _ := x.mapGet(e.st, x.asTerm(v.v), at(1), v.typ.Underlying().(*types.Map))
		return SV{h, tBool}
	case "dom":
		v := arg(0)
		mt := v.typ.Underlying().(*types.Map)
		md, _ := x.mapComps(mt)
		return SV{tb.Select(x.heapGet(e.st, md), x.asTerm(v.v)), &SpecType{"(Array " + x.w.sortOf(mt.Key()) + " Bool)"}}
	case "mvals":
		v := arg(0)
		mt := v.typ.Underlying().(*types.Map)
		_, mv := x.mapComps(mt)
		return SV{tb.Select(x.heapGet(e.st, mv), x.asTerm(v.v)), &SpecType{"(Array " + x.w.sortOf(mt.Key()) + " " + x.w.sortOf(mt.Elem()) + ")"}}
	case "is":
		v := at(0)
		t := x.typeOf(n.n[2].s, e.pkg, n.pos)
		if it, ok := t.Underlying().(*types.Interface); ok {
			return SV{x.implements(v, t, it), tBool}
		}
		return SV{tb.Is(x.w.box(t).ctor, v), tBool}
	case "as":
		v := at(0)
		t := x.typeOf(n.n[2].s, e.pkg, n.pos)
		return e.loaded(x.unbox(x.w.box(t), v), t)
	case "box":
		v := arg(0)
		return SV{x.boxVal(v.v, v.typ), tAny}
	case "plain": // not the address of an embedded struct
		return SV{tb.Not(tb.App(SBool, "imark", at(0))), tBool}
	case "inner": // the address of an embedded struct
		m := e.place(n.n[1])
		had := false
		t := x.asTerm(&Ptr{comp: m.comp, ref: m.ref, path: m.path})
		for _, q := range x.mirrored {
			had = had || q == t
		}
		if had {
			delete(x.iptrs, t)
		}
		return SV{t, mathInt}
	case "objheap":
		t := x.typeOf(n.n[1].s, e.pkg, n.pos)
		p := x.deref(tb.I(0), t)
		h := x.heapGet(e.st, p.comp)
		return SV{h, &SpecType{h.sort}}
	case "elemheap":
		t := x.typeOf(n.n[1].s, e.pkg, n.pos)
		h := x.heapGetE(e.st, t)
		return SV{h, &SpecType{h.sort}}
	case "mapdoms", "mapvals":
		t := x.typeOf(n.n[1].s, e.pkg, n.pos)
		md, mv := x.mapComps(t.Underlying().(*types.Map))
		if f == "mapvals" {
			md = mv
		}
		h := x.heapGet(e.st, md)
		return SV{h, &SpecType{h.sort}}
	case "zero":
		t := x.typeOf(n.n[1].s, e.pkg, n.pos)
		return SV{x.zero(t), t}
	case "fresh":
		v := arg(0)
		t := x.asTerm(v.v)
		if t.sort == SSlc {
			t = x.sarr(t)
		}
		if e.old == nil {
			serr(n, "fresh without a pre-state")
		}
		return SV{tb.And(tb.Lt(x.topNow(e.old), t), tb.App(SBool, "<=", t, x.topNow(e.st))), tBool}
	case "alive":
		v := arg(0)
		t := x.asTerm(v.v)
		if t.sort == SSlc {
			t = x.sarr(t)
		}
		return SV{tb.And(tb.Lt(tb.I(0), t), tb.App(SBool, "<=", t, x.topNow(e.st))), tBool}
	case "head":
		for q := e; q != nil; q = q.parent {
			if q.head != nil {
				c := *e
				c.st, c.dyn = q.head.st, q.head.dyn
				return c.eval(n.n[1])
			}
		}
		serr(n, "head() outside a loop assertion")
	case "full": // unfolds a recursive definition once more
		l := x.limited
		x.limited = ""
		v := arg(0)
		x.limited = l
		return v
	case "top":
		return SV{x.topNow(e.st), mathInt}
	case "isobj": // the object at this reference is of a named struct type
		t := x.typeOf(n.n[2].s, e.pkg, n.pos)
		return SV{tb.App(SBool, "=", tb.App(SInt, "rtype", at(0)), tb.I(x.w.rtag(t))), tBool}
	case "valid": // an allocated object of the pointer's type
		v := arg(0)
		t := x.asTerm(v.v)
		g := tb.And(tb.Lt(tb.I(0), t), tb.App(SBool, "<=", t, x.topNow(e.st)))
		if pt, ok := v.typ.Underlying().(*types.Pointer); ok {
			if tag := x.w.rtag(pt.Elem()); tag != 0 {
				g = tb.And(g, tb.App(SBool, "=", tb.App(SInt, "rtype", t), tb.I(tag)))
			}
		}
		return SV{g, tBool}
	case "ref":
		return SV{at(0), mathInt}
	case "int":
		return SV{at(0), mathInt}
	case "min":
		a, b := at(0), at(1)
		return SV{tb.Ite(tb.Le(a, b), a, b), mathInt}
	case "max":
		a, b := at(0), at(1)
		return SV{tb.Ite(tb.Le(b, a), a, b), mathInt}
	case "abs":
		a := at(0)
		return SV{tb.Ite(tb.Le(tb.I(0), a), a, tb.Sub(tb.I(0), a)), mathInt}
	case "pow2":
		return SV{x.pow2(e.st, at(0)), mathInt}
	case "errIs":
		return SV{x.errIs(e.st, at(0), at(1), 0), tBool}
	case "closure": // closure(f, "key"): f is the closure of the given function
		return SV{tb.Is(e.cloOf(n, n.n[2].s).ctor, at(0)), tBool}
	case "capt": // capt(f, key, v): the value of variable v captured by the closure f
		v := at(0)
		c := e.cloOf(n, n.n[2].s)
		for i, fv := range c.fn.FreeVars {
			if fv.Name() != n.n[3].s {
				continue
			}
			el := fv.Type().Underlying().(*types.Pointer).Elem()
			b := tb.Sel(c.ctor, i, fmt.Sprintf("%s_%d", c.ctor, i), c.sort[i], v)
			return e.loaded(x.loadPtr(e.st, x.deref(b, el)), el)
		}
		serr(n, "%s does not capture %s", n.n[2].s, n.n[3].s)
	case "captref": // the variable itself
		v := at(0)
		c := e.cloOf(n, n.n[2].s)
		for i, fv := range c.fn.FreeVars {
			if fv.Name() == n.n[3].s {
				return SV{tb.Sel(c.ctor, i, fmt.Sprintf("%s_%d", c.ctor, i), c.sort[i], v), mathInt}
			}
		}
		serr(n, "%s does not capture %s", n.n[2].s, n.n[3].s)
	case "with": // with(r, f, v): the struct r with field f set to v
		a := arg(0)
		r := x.w.rec(a.typ)
		i, ok := r.fields[n.n[2].s]
		if !ok {
			serr(n, "%s has no field %s", a.typ, n.n[2].s)
		}
		return SV{x.recUpd(r, i, x.asTerm(a.v), at(2)), a.typ}
	case "store":
		a := arg(0)
		return SV{tb.Store(x.asTerm(a.v), at(1), at(2)), a.typ}
	case "visited":
		if v, ok := e.get("$visited"); ok {
			return SV{tb.Select(x.asTerm(v.v), at(0)), tBool}
		}
		serr(n, "visited outside a map loop")
	}
	d := x.sp.defs[f]
	if d == nil {
		serr(n, "unknown function %s", f)
	}
	if len(n.n)-1 != len(d.params) {
		serr(n, "%s takes %d arguments", f, len(d.params))
	}
	ret := x.typeOf(d.ret, d.pkg, d.pos)
	if bt, ok := ret.(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
		if bt.Kind() == types.Int {
			ret = mathInt
		}
	}
	vals := map[string]SV{}
	var ts []*Term
	for i, p := range d.params {
		v := arg(i)
		pt := x.typeOf(p.typ, d.pkg, d.pos)
		if isNilSV(v) {
			s := x.w.sortOf(pt)
			var z *Term
			switch s {
			case SInt:
				z = tb.I(0)
			case SAny:
				z = tb.Sym("anil", SAny)
			case SSlc:
				z = x.zero(tByteSlice)
			default:
				serr(n, "nil argument")
			}
			v = SV{z, pt}
		}
		if x.w.sortOf(pt) == SAny && x.asTerm(v.v).sort != SAny {
			v = SV{x.boxVal(v.v, v.typ), pt}
		}
		if got := x.asTerm(v.v).sort; got != x.w.sortOf(pt) {
			serr(n, "argument %s of %s has sort %s, want %s", p.name, f, got, x.w.sortOf(pt))
		}
		if bt, ok := pt.(*types.Basic); ok && bt.Kind() == types.Int {
			pt = mathInt
		}
		vals[p.name] = SV{v.v, pt}
		ts = append(ts, x.asTerm(v.v))
	}
	if d.body != nil && (!d.rec || d.opaque && x.reveal[f]) {
		c := &Env{x: x, st: e.st, old: e.old, vars: vals, pkg: d.pkg, inOld: false}
		r := c.eval(d.body)
		if isNilSV(r) {
			serr(n, "nil definition")
		}
		return SV{r.v, ret}
	}
	if x.limited == f {
		f += "_lim"
	}
	return SV{tb.App(x.w.sortOf(ret), f, ts...), ret}
}

func (e *Env) cloOf(n *Node, key string) *Clo {
	fn := e.x.w.byKey[key]
	if fn == nil {
		serr(n, "unknown closure %s", key)
	}
	return e.x.w.clo(fn)
}

// patTerm makes a term usable as a trigger.
func patTerm(t *Term) *Term {
	for t.op == "and" || t.op == "not" {
		t = t.args[len(t.args)-1]
	}
	return t
}

// normQuant builds a quantifier. A trigger in which a variable only occurs in a
// sum c+i is replaced by one on a fresh variable j = c+i, because matching
// modulo arithmetic is unreliable.
func (x *Exec) normQuant(q string, bs []*Term, pats [][]*Term, body *Term) *Term {
	tb := x.tb
	// no conditionals in triggers: ground ones get a name, and triggers with
	// others are dropped
	var kept [][]*Term
	for _, pt := range pats {
		ok := true
		var np []*Term
		for _, p := range pt {
			p = x.nameItes(p)
			if hasIte(p) || p.op == "true" || p.op == "false" || p.num != nil {
				ok = false
			}
			np = append(np, p)
		}
		if ok {
			kept = append(kept, np)
		}
	}
	pats = kept
	type group struct {
		bs   []*Term
		pats [][]*Term
		body *Term
		key  string
	}
	var groups []*group
	for _, pt := range pats {
		sub := map[*Term]*Term{}
		nbs := append([]*Term{}, bs...)
		key := ""
		for k, b := range bs {
			if b.sort != SInt {
				continue
			}
			var sum *Term
			ok := true
			for _, p := range pt {
				if !sumOf(p, b, &sum) {
					ok = false
				}
			}
			if !ok || sum == nil || sum == b {
				continue
			}
			c := rest(tb, sum, b)
			if c == nil || mentionsAny(c, bs) {
				continue
			}
			j := tb.BoundVar("j", SInt)
			nbs[k] = j
			sub[sum] = j
			sub[b] = tb.Sub(j, c)
			key += fmt.Sprintf("%p/%p;", b, c)
		}
		var g *group
		for _, h := range groups {
			if h.key == key {
				g = h
			}
		}
		if g == nil {
			g = &group{bs: nbs, key: key, body: body}
			if len(sub) > 0 {
				g.body = substTerm(tb, body, sub)
			}
			groups = append(groups, g)
			g.pats = nil
		} else if len(sub) > 0 {
			for k, b := range bs { // share the group's variables
				if sub[b] != nil {
					sub2 := map[*Term]*Term{nbs[k]: g.bs[k]}
					for t, v := range sub {
						sub[t] = substTerm(tb, v, sub2)
					}
				}
			}
		}
		var np []*Term
		for _, p := range pt {
			if len(sub) > 0 {
				p = substTerm(tb, p, sub)
			}
			np = append(np, p)
		}
		g.pats = append(g.pats, np)
	}
	if len(groups) == 0 {
		return tb.Quant(q, bs, pats, body)
	}
	if q == "exists" {
		r := tb.B(false)
		for _, g := range groups {
			r = tb.Or(r, tb.Quant(q, g.bs, g.pats, g.body))
		}
		return r
	}
	r := tb.B(true)
	for _, g := range groups {
		r = tb.And(r, tb.Quant(q, g.bs, g.pats, g.body))
	}
	return r
}

// sumOf finds the one sum in which b occurs in t.
func sumOf(t, b *Term, sum **Term) bool {
	if !t.free {
		return true
	}
	if t == b {
		if *sum != nil && *sum != b {
			return false
		}
		*sum = b
		return true
	}
	if t.op == "+" || t.op == "-" {
		if !mentionsAny(t, []*Term{b}) {
			return true
		}
		if *sum != nil && *sum != t {
			return false
		}
		*sum = t
		return true
	}
	for _, a := range t.args {
		if !sumOf(a, b, sum) {
			return false
		}
	}
	return true
}

// rest is t - b for a sum t with one b in it.
func rest(tb *TB, t, b *Term) *Term {
	if t == b {
		return tb.I(0)
	}
	if t.op == "+" && len(t.args) == 2 {
		if mentionsAny(t.args[0], []*Term{b}) {
			if mentionsAny(t.args[1], []*Term{b}) {
				return nil
			}
			r := rest(tb, t.args[0], b)
			if r == nil {
				return nil
			}
			return tb.Add(r, t.args[1])
		}
		r := rest(tb, t.args[1], b)
		if r == nil {
			return nil
		}
		return tb.Add(t.args[0], r)
	}
	if t.op == "-" && len(t.args) == 2 && !mentionsAny(t.args[1], []*Term{b}) {
		r := rest(tb, t.args[0], b)
		if r == nil {
			return nil
		}
		return tb.Sub(r, t.args[1])
	}
	return nil
}

func mentionsAny(t *Term, bs []*Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if !t.free || seen[t] {
			return false
		}
		seen[t] = true
		for _, b := range bs {
			if t == b {
				return true
			}
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// substTerm replaces terms.
func substTerm(tb *TB, t *Term, sub map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := sub[t]; ok {
			return r
		}
		if !t.free || len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if len(t.bound) > 0 {
			var ps [][]*Term
			for _, p := range t.pats {
				var np []*Term
				for _, q := range p {
					np = append(np, f(q))
				}
				ps = append(ps, np)
			}
			r = tb.Quant(t.op, t.bound, ps, f(t.args[0]))
		} else {
			as := make([]*Term, len(t.args))
			for i, a := range t.args {
				as[i] = f(a)
			}
			switch t.op {
			case "+":
				r = tb.Add(as[0], as[1])
				for _, a := range as[2:] {
					r = tb.Add(r, a)
				}
			default:
				r = tb.App(t.sort, t.op, as...)
			}
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func hasIte(t *Term) bool {
	if t.op == "ite" || t.op == "and" || t.op == "or" || t.op == "not" || t.op == "=" {
		return true
	}
	for _, a := range t.args {
		if hasIte(a) {
			return true
		}
	}
	return false
}

func (x *Exec) nameItes(t *Term) *Term {
	if !hasIte(t) {
		return t
	}
	if !t.free {
		if n, ok := x.iteNames[t]; ok {
			return n
		}
		if x.iteNames == nil {
			x.iteNames = map[*Term]*Term{}
		}
		n := x.tb.Fresh("pat", t.sort)
		x.lemmaFacts = append(x.lemmaFacts, x.tb.App(SBool, "=", n, t))
		x.iteNames[t] = n
		return n
	}
	if len(t.bound) > 0 || t.op == "ite" {
		return t
	}
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = x.nameItes(a)
	}
	return x.tb.App(t.sort, t.op, as...)
}
