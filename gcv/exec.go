package main

// Symbolic execution of SSA functions against contracts.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Val any

// Ptr is an interior pointer: a path inside the object ref of component comp.
type Ptr struct {
	comp string
	ref  *Term
	root types.Type // type of the object ref (element type of the E component array for E comps)
	path []PathEl
	elem types.Type
}

type PathEl struct {
	field int   // record field, or -1
	idx   *Term // array index
	typ   types.Type
}

type Closure struct {
	fn   *ssa.Function
	bind []Val
}

// SMap is a map whose keys are interior pointers, known structurally.
type SMap struct {
	keys, vals []Val
}

type MapIter struct {
	instr *ssa.Range
	m     *Term
	mt    *types.Map
	dom0  *Term
	sm    *SMap
}

type Tuple []Val

type State struct {
	heap    map[string]*Term
	facts   *Fact
	top     *Term
	nalloc  int64
	known   map[*Term]bool
	iters   map[ssa.Value]*Term // visited sets
	sidx    map[ssa.Value]int   // progress of structural map iteration
	invHeap map[string]*Term    // heap for which the type invariants are known to hold
	frames  []*FrameCtx
	dead    bool
}

// FrameCtx restricts writes to objects allocated after top or in mods.
type FrameCtx struct {
	top  *Term
	mods []*ModTarget
	name string
	tags []string
}

type ModTarget struct {
	comp  string
	ref   *Term // nil: any object of the component
	path  []PathEl
	field int // -1: whole
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.known = make(map[*Term]bool, len(s.known))
	for k, v := range s.known {
		n.known[k] = v
	}
	n.iters = map[ssa.Value]*Term{}
	for k, v := range s.iters {
		n.iters[k] = v
	}
	n.sidx = map[ssa.Value]int{}
	for k, v := range s.sidx {
		n.sidx[k] = v
	}
	n.frames = append([]*FrameCtx{}, s.frames...)
	return &n
}

type Frame struct {
	fn        *ssa.Function
	regs      map[ssa.Value]Val
	defers    []deferred
	active    map[*ssa.BasicBlock]*loopCtx
	count     map[*ssa.BasicBlock]*Term // iterations so far
	depth     int
	caller    *Frame
	outs      *[]outcome
	free      []Val
	callInstr ssa.Instruction
}

type deferred struct {
	instr *ssa.Defer
	fnv   Val
	args  []Val
}

type loopCtx struct {
	headEnv *Env
	top     *Term
	ws      *WriteSet
	head    map[string]*Term
	measure []*Term
	spec    *LoopSpec
	name    string
	ctxIdx  int
}

type outcome struct {
	st  *State
	res []Val
}

type Obl struct {
	Func   string   `json:"func"`
	Name   string   `json:"name"`
	Kind   string   `json:"kind"`
	Tags   []string `json:"tags,omitempty"`
	Pos    string   `json:"pos,omitempty"`
	Text   string   `json:"text,omitempty"`
	Status string   `json:"status"` // proved failed limit
	Tool   string   `json:"tool,omitempty"`
	Why    string   `json:"why,omitempty"`
	Ms     int64    `json:"ms"`
}

type Exec struct {
	reveal       map[string]bool // opaque definitions that may be unfolded
	limited      string          // recursive definition being unfolded
	allocTag     int64
	w            *World
	sp           *Specs
	tb           *TB
	sol          *Solver
	fn           *ssa.Function
	key          string
	spec         *FuncSpec
	obls         []*Obl
	limit        []string // reasons the function could not be decided
	init         map[string]*Term
	csort        map[string]Sort
	entry        *State
	strs         map[string]*Term
	lits         map[*Term]string
	globs        map[string]*Term
	prop         string
	spec0        int             // >0: evaluating a specification (no obligations, no queries)
	ext          map[string]bool // external functions used
	trusted      map[string]bool
	calls        map[string]bool // contracts used
	npaths       int
	nchk         int
	loopInfo     map[*ssa.Function]*loopInfo
	interference bool
	envTop       *Env
	lemmaFacts   []*Term
	iteNames     map[*Term]*Term
	dbg          bool
	sm           map[*Term]*SMap
	vars         map[string]string // loop variable renamings tried
	deadline     time.Time
	smapReg      map[ssa.Value]bool
	curDesc      string
	reads        map[string]bool
	quickMS      int
	bindUse      map[string]bool
	tagDefault   []string
	loopOrd      map[string]int
	shape        []string
	nloops       int
	boundLoops   map[int]bool
	lastLoop     string
	wsDebug      func(string, *WriteSet)
	compRoot     map[string]types.Type
	inlined      map[string]bool
	pendingCall  ssa.Instruction
	closureEnv   map[string]SV
	iptrs        map[*Term]*Ptr // interior pointers that were turned into terms
	mirrored     []*Term        // those that were made objects (see mirror)
}

// ---------- heap ----------

func (x *Exec) compSort(comp string, t types.Type) {
	if _, ok := x.csort[comp]; ok {
		return
	}
	switch comp[:2] {
	case "E_":
		x.csort[comp] = "(Array Int (Array Int " + x.w.sortOf(t) + "))"
	default:
		x.csort[comp] = "(Array Int " + x.w.sortOf(t) + ")"
	}
	if comp[:2] == "S_" {
		x.compRoot[comp] = t
	}
}

func (x *Exec) heapGet(st *State, comp string) *Term {
	if x.reads != nil {
		x.reads[comp] = true
	}
	if t, ok := st.heap[comp]; ok {
		return t
	}
	return x.initComp(comp)
}

func (x *Exec) initComp(comp string) *Term {
	if t, ok := x.init[comp]; ok {
		return t
	}
	s, ok := x.csort[comp]
	if !ok {
		panic("no sort for component " + comp)
	}
	t := x.tb.Fresh(comp+"_0", s)
	x.init[comp] = t
	return t
}

func (x *Exec) heapSet(st *State, comp string, t *Term) {
	if t.size > 40 && t.def == nil && x.spec0 == 0 {
		c := x.tb.Fresh(comp, t.sort)
		c.def = t
		st.assume(x.tb.App(SBool, "=", c, t))
		t = c
	}
	st.heap[comp] = t
}

func (s *State) assume(t *Term) {
	if t.isTrue() {
		return
	}
	if t.isFalse() {
		s.dead = true
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	for f := s.facts; f != nil; f = f.parent { // cheap duplicate check near the tip
		if f.t == t {
			return
		}
		if s.facts.depth-f.depth > 40 {
			break
		}
	}
	d := 1
	if s.facts != nil {
		d = s.facts.depth + 1
	}
	s.facts = &Fact{t, s.facts, d}
}

func (x *Exec) mapComps(mt *types.Map) (string, string) {
	k := typeKey(mt.Key()) + "_" + typeKey(mt.Elem())
	ks, vs := x.w.sortOf(mt.Key()), x.w.sortOf(mt.Elem())
	md, mv := "MD_"+k, "MV_"+k
	if _, ok := x.csort[md]; !ok {
		x.csort[md] = "(Array Int (Array " + ks + " Bool))"
		x.csort[mv] = "(Array Int (Array " + ks + " " + vs + "))"
	}
	return md, mv
}

func (x *Exec) alloc(st *State) *Term {
	st.nalloc++
	r := x.tb.Add(st.top, x.tb.I(st.nalloc))
	if tag := x.allocTag; tag != 0 {
		st.assume(x.tb.App(SBool, "=", x.tb.App(SInt, "rtype", r), x.tb.I(tag)))
	} else {
		st.assume(x.tb.App(SBool, "=", x.tb.App(SInt, "rtype", r), x.tb.I(0)))
	}
	x.allocTag = 0
	st.assume(x.tb.Not(x.tb.App(SBool, "imark", r)))
	if x.csort["$shared"] != "" && x.spec0 == 0 {
		st.assume(x.tb.Not(x.tb.Select(x.heapGet(st, "$shared"), r)))
	}
	return r
}

func (x *Exec) topNow(st *State) *Term { return x.tb.Add(st.top, x.tb.I(st.nalloc)) }

func (x *Exec) newTop(st *State) {
	old := x.topNow(st)
	t := x.tb.Fresh("top", SInt)
	t.lo = big.NewInt(0)
	st.assume(x.tb.Le(old, t))
	st.top, st.nalloc = t, 0
}

// ---------- values ----------

func (x *Exec) zero(t types.Type) *Term {
	t = types.Unalias(t)
	s := x.w.sortOf(t)
	switch {
	case s == SInt:
		return x.tb.I(0)
	case s == SBool:
		return x.tb.B(false)
	case s == SStr:
		return x.str("")
	case s == SAny:
		return x.tb.Sym("anil", SAny)
	case s == SFn:
		return x.tb.Sym("fnil", SFn)
	case s == SSlc:
		return x.mkslc(x.tb.I(0), x.tb.I(0), x.tb.I(0), x.tb.I(0))
	case strings.HasPrefix(s, "R_"):
		r := x.w.recs[s]
		var as []*Term
		for i := range r.names {
			as = append(as, x.zero(r.types[i]))
		}
		return x.tb.App(s, r.ctor, as...)
	case strings.HasPrefix(s, "(Array"):
		if at, ok := t.Underlying().(*types.Array); ok {
			return x.tb.App(s, "constarr", x.zero(at.Elem()))
		}
	}
	return x.tb.Sym("zero_"+s, s)
}

func (x *Exec) mkslc(a, o, l, c *Term) *Term { return x.tb.App(SSlc, "mkslc", a, o, l, c) }
func (x *Exec) sarr(s *Term) *Term           { return x.tb.Sel("mkslc", 0, "sarr", SInt, s) }
func (x *Exec) soff(s *Term) *Term           { return x.tb.Sel("mkslc", 1, "soff", SInt, s) }
func (x *Exec) slen(s *Term) *Term {
	t := x.tb.Sel("mkslc", 2, "sln", SInt, s)
	x.nonneg(t)
	return t
}
func (x *Exec) scap(s *Term) *Term {
	t := x.tb.Sel("mkslc", 3, "scp", SInt, s)
	x.nonneg(t)
	return t
}
func (x *Exec) nonneg(t *Term) {
	if t.num == nil {
		if t.lo == nil {
			t.lo = big.NewInt(0)
		}
		if t.hi == nil {
			t.hi = maxInt64
		}
	}
}

var maxInt64 = big.NewInt(1<<63 - 1)

// str is a string literal.
func (x *Exec) str(s string) *Term {
	if t, ok := x.strs[s]; ok {
		return t
	}
	tb := x.tb
	t := tb.Sym(fmt.Sprintf("str!%d", len(x.strs)), SStr)
	tb.decls = append(tb.decls, fmt.Sprintf("(declare-const %s Str)", t.op))
	x.strs[s] = t
	x.lits[t] = s
	ax := []*Term{tb.App(SBool, "=", tb.App(SInt, "slen", t), tb.I(int64(len(s))))}
	for i := 0; i < len(s) && i < 80; i++ {
		ax = append(ax, tb.App(SBool, "=", tb.App(SInt, "sat", t, tb.I(int64(i))), tb.I(int64(s[i]))))
	}
	x.lemmaFacts = append(x.lemmaFacts, tb.And(ax...))
	return t
}

func (x *Exec) strLen(s *Term) *Term {
	u := unname(s)
	if u.op == "scat" {
		return x.tb.Add(x.strLen(u.args[0]), x.strLen(u.args[1]))
	}
	if strings.HasPrefix(u.op, "str!") {
		return x.tb.I(int64(len(x.lits[u])))
	}
	if u.op == "arr2s" {
		return u.args[2]
	}
	t := x.tb.App(SInt, "slen", s)
	x.nonneg(t)
	return t
}

func (x *Exec) litOf(s *Term) (string, bool) {
	l, ok := x.lits[unname(s)]
	return l, ok
}

func (x *Exec) cat(a, b *Term) *Term {
	la, ok1 := x.litOf(a)
	lb, ok2 := x.litOf(b)
	switch {
	case ok1 && la == "":
		return b
	case ok2 && lb == "":
		return a
	case ok1 && ok2:
		return x.str(la + lb)
	}
	if ub := unname(b); ub.op == "scat" { // left-associate
		return x.cat(x.cat(a, ub.args[0]), ub.args[1])
	}
	return x.tb.App(SStr, "scat", a, b)
}

func (x *Exec) byteAt(s, i *Term) *Term {
	if l, ok := x.litOf(s); ok && i.num != nil && i.num.IsInt64() && i.num.Int64() >= 0 && i.num.Int64() < int64(len(l)) {
		return x.tb.I(int64(l[i.num.Int64()]))
	}
	t := x.tb.App(SInt, "sat", s, i)
	t.lo, t.hi = big.NewInt(0), big.NewInt(255)
	return t
}

func intRange(t types.Type) (*big.Int, *big.Int, bool) {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, signed := 64, true
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32, types.UntypedRune:
		bits = 32
	case types.Uint8:
		bits, signed = 8, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		signed = false
	case types.UntypedInt:
		return nil, nil, false
	}
	one := big.NewInt(1)
	if signed {
		h := new(big.Int).Lsh(one, uint(bits-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, one), true
	}
	h := new(big.Int).Lsh(one, uint(bits))
	return big.NewInt(0), h.Sub(h, one), true
}

// typed records what the type of t guarantees about its value.
func (x *Exec) typed(st *State, t *Term, typ types.Type) *Term {
	if t == nil || t.num != nil {
		return t
	}
	typ = types.Unalias(typ)
	tb := x.tb
	fact := func(f *Term) {
		if x.spec0 == 0 || !f.free {
			if st != nil && !f.free {
				st.assume(f)
			}
		}
	}
	if lo, hi, ok := intRange(typ); ok && x.w.sortOf(typ) == SInt {
		if u := unname(t); u.op == "ite" || u.op == "+" || u.op == "-" || u.op == "*" || u.op == "div" || u.op == "mod" {
			return t
		}
		first := st != nil && !st.known[t]
		if first && !t.free {
			st.known[t] = true
			st.assume(tb.App(SBool, "and", tb.App(SBool, "<=", tb.Num(lo), t), tb.App(SBool, "<=", t, tb.Num(hi))))
		}
		if t.lo == nil || t.lo.Cmp(lo) < 0 {
			t.lo = lo
		}
		if t.hi == nil || t.hi.Cmp(hi) > 0 {
			t.hi = hi
		}
		return t
	}
	if st == nil || st.known[t] || t.free {
		return t
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer, *types.Map:
		if s := x.w.sortOf(typ); s == SInt {
			if o := unname(t); o.op == "+" || o.op == "top" {
				return t
			}
			st.known[t] = true
			t.lo = big.NewInt(0)
			fact(tb.And(tb.App(SBool, "<=", tb.I(0), t), tb.Le(t, x.topNow(st))))
			if pt, ok := u.(*types.Pointer); ok {
				if tag := x.w.rtag(pt.Elem()); tag != 0 {
					fact(tb.Or(tb.App(SBool, "=", t, tb.I(0)), tb.App(SBool, "=", tb.App(SInt, "rtype", t), tb.I(tag))))
				}
			}
		}
		_ = u
	case *types.Slice:
		if unname(t).op == "mkslc" || unname(t).op == "ite" {
			return t
		}
		st.known[t] = true
		a, o, l, c := x.sarr(t), x.soff(t), x.slen(t), x.scap(t)
		a.lo, o.lo = big.NewInt(0), big.NewInt(0)
		i0 := tb.I(0)
		st.assume(tb.App(SBool, "<=", i0, a))
		st.assume(tb.Le(a, x.topNow(st)))
		st.assume(tb.App(SBool, "<=", i0, o))
		st.assume(tb.App(SBool, "<=", i0, l))
		st.assume(tb.App(SBool, "<=", l, c))
		st.assume(tb.App(SBool, "<=", c, tb.Num(maxInt64)))
		st.assume(tb.App(SBool, "<=", tb.App(SInt, "+", o, c), tb.Num(maxInt64)))
		st.assume(tb.Imp(tb.App(SBool, "=", a, i0), tb.App(SBool, "=", l, i0)))
	case *types.Struct:
		if s := x.w.sortOf(typ); strings.HasPrefix(s, "R_") {
			st.known[t] = true
			r := x.w.recs[s]
			for i := range r.names {
				x.typed(st, x.recSel(r, i, t), r.types[i])
			}
		}
	}
	return t
}

func (x *Exec) recSel(r *Rec, i int, t *Term) *Term {
	return x.tb.Sel(r.ctor, i, r.sel(i), r.sorts[i], t)
}

func (x *Exec) recUpd(r *Rec, i int, t, v *Term) *Term {
	var as []*Term
	for j := range r.names {
		if j == i {
			as = append(as, v)
		} else {
			as = append(as, x.recSel(r, j, t))
		}
	}
	return x.tb.App(r.sort, r.ctor, as...)
}

// asTerm converts a value to a term (for storing, comparing, boxing).
func (x *Exec) asTerm(v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *Ptr:
		if len(v.path) == 0 {
			return v.ref
		}
		op := "iptr_" + sanitizeSym(v.comp)
		args := []*Term{v.ref}
		for _, p := range v.path {
			if p.field >= 0 {
				op += fmt.Sprintf("_%d", p.field)
			} else {
				op += "_x"
				args = append(args, p.idx)
			}
		}
		x.declFun(op, args, SInt)
		t := x.tb.App(SInt, op, args...)
		t.lo = big.NewInt(1) // not nil: the field address of a nil pointer panics
		if x.iptrs == nil {
			x.iptrs = map[*Term]*Ptr{}
		}
		x.iptrs[t] = v
		return t
	case *Closure:
		c, ok := x.w.clos[fnKey(v.fn)]
		if !ok {
			unsup("function value %s", v.fn)
		}
		var as []*Term
		for _, b := range v.bind {
			as = append(as, x.asTerm(b))
		}
		if len(as) == 0 {
			return x.tb.Sym(c.ctor, SFn)
		}
		return x.tb.App(SFn, c.ctor, as...)
	case nil:
		panic("nil value")
	}
	unsup("value %T as a term", v)
	return nil
}

func (x *Exec) declFun(op string, args []*Term, s Sort) {
	if x.globs["fun:"+op] != nil {
		return
	}
	x.globs["fun:"+op] = x.tb.I(1)
	var ss []string
	for _, a := range args {
		ss = append(ss, a.sort)
	}
	x.tb.decls = append(x.tb.decls, fmt.Sprintf("(declare-fun %s (%s) %s)", op, strings.Join(ss, " "), s))
}

// fnVal turns a function term back into a closure when it is known.
func (x *Exec) fnVal(v Val) Val {
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	u := unname(t)
	if strings.HasPrefix(u.op, "clo_") {
		for _, c := range x.w.cloList {
			if c.ctor == u.op {
				cl := &Closure{fn: c.fn}
				for _, a := range u.args {
					cl.bind = append(cl.bind, a)
				}
				return cl
			}
		}
	}
	return v
}

// deref turns a pointer value into a Ptr.
func (x *Exec) deref(v Val, elem types.Type) *Ptr {
	switch v := v.(type) {
	case *Ptr:
		return v
	case *Term:
		if p := x.iptrs[unname(v)]; p != nil {
			return p
		}
		comp := x.w.compFor(elem)
		root := elem
		if at, ok := types.Unalias(elem).Underlying().(*types.Array); ok {
			root = at.Elem()
		}
		x.compSort(comp, root)
		return &Ptr{comp: comp, ref: v, root: root, elem: elem}
	}
	unsup("dereference of %T", v)
	return nil
}

func (x *Exec) loadPtr(st *State, p *Ptr) *Term {
	t := x.tb.Select(x.heapGet(st, p.comp), p.ref)
	typ := p.rootType()
	for _, e := range p.path {
		if e.field >= 0 {
			r := x.w.rec(typ)
			t = x.recSel(r, e.field, t)
			typ = r.types[e.field]
		} else {
			t = x.tb.Select(t, e.idx)
			typ = e.typ
		}
	}
	return t
}

func (p *Ptr) rootType() types.Type { return p.root }

func (x *Exec) storePtr(st *State, p *Ptr, v *Term) {
	h := x.heapGet(st, p.comp)
	if len(p.path) == 0 {
		x.heapSet(st, p.comp, x.tb.Store(h, p.ref, v))
		return
	}
	root := x.tb.Select(h, p.ref)
	x.heapSet(st, p.comp, x.tb.Store(h, p.ref, x.pathUpd(root, p.root, p.path, v)))
}

func (x *Exec) pathUpd(t *Term, typ types.Type, path []PathEl, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	e := path[0]
	if e.field >= 0 {
		r := x.w.rec(typ)
		return x.recUpd(r, e.field, t, x.pathUpd(x.recSel(r, e.field, t), r.types[e.field], path[1:], v))
	}
	return x.tb.Store(t, e.idx, x.pathUpd(x.tb.Select(t, e.idx), e.typ, path[1:], v))
}

// ---------- obligations ----------

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.w.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *Exec) wants(tags []string) bool {
	if x.prop == "" || len(tags) == 0 {
		return true
	}
	for _, t := range tags {
		if t == x.prop {
			return true
		}
	}
	return false
}

type limitErr struct{ why string }

func (x *Exec) prove(st *State, goal *Term, kind, name string, tags []string, pos token.Pos, text string) bool {
	if x.spec0 > 0 || st.dead {
		return true
	}
	if !x.wants(tags) {
		st.assume(goal)
		return true
	}
	if goal.op == "and" && len(goal.args) <= 12 {
		ok := true
		for _, a := range goal.args {
			if !x.prove(st, a, kind, name, tags, pos, text) {
				ok = false
			}
		}
		return ok
	}
	o := &Obl{Func: x.key, Name: name, Kind: kind, Tags: tags, Pos: x.pos(pos), Text: text}
	t0 := time.Now()
	if goal.isTrue() {
		o.Status, o.Tool = "proved", "simplifier"
	} else {
		if time.Now().After(x.deadline) {
			panic(limitErr{"time budget exhausted"})
		}
		r, why := x.sol.check(x.facts(st), x.tb.Not(goal), x.sol.timeout)
		o.Tool = "z3-5.3.2"
		switch {
		case r == "unsat":
			o.Status = "proved"
		default:
			o.Status, o.Why = "failed", r+" "+why
			if strings.Contains(why, "timeout") || strings.Contains(why, "canceled") || strings.Contains(why, "resource") {
				o.Status = "limit"
			}
			if os.Getenv("GCV_NOFALLBACK") == "" {
				sec := 15
				if o.Status == "failed" {
					sec = 5
				}
				tool, gaveUp := x.sol.race(x.facts(st), x.tb.Not(goal), sec)
				switch {
				case tool != "":
					o.Status, o.Tool, o.Why = "proved", tool, ""
				case o.Status == "failed" && !gaveUp:
					// It depends on what was asked before, and when.
					o.Status, o.Why = "limit", o.Why+"; no answer when asked afresh (canceled)"
				}
			}
			if o.Status != "proved" && x.dbg {
				fmt.Fprintf(os.Stderr, "FAILED %s %s %s [%s] %s\n   goal: %s\n", x.key, name, o.Pos, o.Why, text, trunc(goal.String(), 1500))
				if os.Getenv("GCV_DUMP") != "" {
					fn := fmt.Sprintf("%s/%s_%d.smt2", os.Getenv("GCV_DUMP"), sanitizeSym(x.key+"_"+name), len(x.obls))
					os.WriteFile(fn, []byte(z3opts+x.sol.script(x.facts(st), x.tb.Not(goal))), 0o644)
					fmt.Fprintf(os.Stderr, "   dumped %s\n", fn)
				}
				if os.Getenv("GCV_FACTS") != "" {
					for _, f := range factPath(st.facts) {
						fmt.Fprintf(os.Stderr, "      %s\n", trunc(f.t.String(), 600))
					}
				}
			}
		}
	}
	o.Ms = time.Since(t0).Milliseconds()
	x.obls = append(x.obls, o)
	st.assume(goal)
	return o.Status == "proved"
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// facts is the path condition, with the literal facts that it needs.
func (x *Exec) facts(st *State) *Fact {
	if len(x.lemmaFacts) > 0 {
		// string literal facts: put them into this state's facts
		for _, t := range x.lemmaFacts {
			if !st.known[t] {
				st.known[t] = true
				d := 1
				if st.facts != nil {
					d = st.facts.depth + 1
				}
				st.facts = &Fact{t, st.facts, d}
			}
		}
	}
	return st.facts
}

// entails asks whether the facts imply t (best effort).
func (x *Exec) entails(st *State, t *Term) bool {
	if t.isTrue() {
		return true
	}
	if t.isFalse() || x.spec0 > 0 || t.free {
		return false
	}
	r, _ := x.sol.check(x.facts(st), x.tb.Not(t), x.quickMS)
	x.nchk++
	return r == "unsat"
}

func (x *Exec) feasible(st *State) bool {
	if st.dead {
		return false
	}
	if x.spec0 > 0 {
		return true
	}
	if time.Now().After(x.deadline) {
		panic(limitErr{"time budget exhausted"})
	}
	x.nchk++
	r, _ := x.sol.check(x.facts(st), nil, x.quickMS)
	if r == "unsat" {
		st.dead = true
	}
	return r != "unsat"
}

// checkNonNil is the obligation that a pointer can be dereferenced.
func (x *Exec) checkNonNil(st *State, ref *Term, what string, pos token.Pos) {
	x.prove(st, x.tb.Not(x.tb.Eq(ref, x.tb.I(0))), "safety", "nil", x.safetyTags(), pos, "nil dereference of "+what)
}

func (x *Exec) safetyTags() []string {
	if x.spec != nil {
		if s, ok := x.spec.flags["safety"]; ok {
			return splitTags(s)
		}
	}
	return x.tagDefault
}

// checkWrite is the frame obligation for a write to p.
func (x *Exec) checkWrite(st *State, comp string, ref *Term, path []PathEl, pos token.Pos) {
	if x.spec0 > 0 {
		return
	}
	for _, fc := range st.frames {
		ok := x.tb.Lt(fc.top, ref)
		if ok.isTrue() {
			continue
		}
		alts := []*Term{ok}
		if strings.HasPrefix(comp, "M") || strings.HasPrefix(comp, "E_") { // nothing is written to a nil map or slice
			alts = append(alts, x.tb.Eq(ref, x.tb.I(0)))
		}
		for _, m := range fc.mods {
			if m.comp != comp {
				continue
			}
			if len(m.path) > 0 {
				if !pathPrefix(m.path, path) {
					continue
				}
			}
			if m.ref == nil {
				alts = []*Term{x.tb.B(true)}
				break
			}
			alts = append(alts, x.tb.Eq(m.ref, ref))
		}
		x.prove(st, x.tb.Or(alts...), "frame", fc.name, fc.tags, pos, "write to "+comp+" outside the modifies clause")
	}
}

func pathPrefix(a, b []PathEl) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i].field != b[i].field || a[i].idx != b[i].idx {
			return false
		}
	}
	return true
}

// ---------- execution ----------

func (x *Exec) get(fr *Frame, v ssa.Value) Val {
	if r, ok := fr.regs[v]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		return x.constant(v)
	case *ssa.Global:
		return x.globalPtr(v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Builtin:
		return v
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.free[i]
			}
		}
	}
	panic(fmt.Sprintf("%s: no value for %s (%T)", fr.fn, v.Name(), v))
}

func (x *Exec) term(fr *Frame, v ssa.Value) *Term { return x.asTerm(x.get(fr, v)) }

func (x *Exec) constant(c *ssa.Const) Val {
	if c.Value == nil {
		return x.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return x.tb.B(constant.BoolVal(c.Value))
	case constant.String:
		return x.str(constant.StringVal(c.Value))
	case constant.Int:
		n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		if x.w.sortOf(c.Type()) == SInt {
			return x.tb.Num(n)
		}
	}
	if x.w.sortOf(c.Type()) == "Float" {
		return x.tb.Sym("zero_Float", "Float")
	}
	unsup("constant %s", c)
	return nil
}

func (x *Exec) globalPtr(g *ssa.Global) Val {
	elem := g.Type().(*types.Pointer).Elem()
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	k := "glob:" + name
	t, ok := x.globs[k]
	if !ok {
		t = x.tb.I(int64(-len(x.globs) - 1))
		x.globs[k] = t
	}
	p := x.deref(t, elem)
	return &Ptr{comp: p.comp, ref: p.ref, root: p.root, elem: elem}
}

// globalValue is the value of a package-level variable, which is assumed to
// be set by initialisation only.
func (x *Exec) globalValue(st *State, g *ssa.Global) Val {
	elem := g.Type().(*types.Pointer).Elem()
	if x.w.inRepoPkg(g.Pkg) {
		if v, ok := x.evalInit(g); ok {
			return v
		}
	}
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	return x.globalByName(name, elem)
}

func (x *Exec) globalByName(name string, elem types.Type) *Term {
	s := x.w.sortOf(elem)
	if s == SAny && types.Identical(elem, types.Universe.Lookup("error").Type()) {
		k := "err:" + name
		t, ok := x.globs[k]
		if !ok {
			n := 0
			for kk := range x.globs {
				if strings.HasPrefix(kk, "err:") {
					n++
				}
			}
			t = x.tb.App(SAny, "opq", x.tb.I(int64(-errID(name))))
			x.globs[k] = t
		}
		return t
	}
	k := "gval:" + name
	t, ok := x.globs[k]
	if !ok {
		t = x.tb.Fresh("g_"+name, s)
		x.globs[k] = t
	}
	return t
}

var errIDs = []string{"io.EOF", "io.ErrUnexpectedEOF", "io/fs.ErrNotExist", "io/fs.ErrInvalid", "io/fs.ErrExist", "io/fs.ErrClosed", "io/fs.ErrPermission",
	"os.ErrNotExist", "os.ErrInvalid", "os.ErrExist", "os.ErrClosed", "io/fs.SkipDir", "io/fs.SkipAll"}

func errID(name string) int {
	for i, n := range errIDs {
		if n == name {
			if strings.HasPrefix(name, "os.") { // the same values as in io/fs
				return errID("io/fs." + name[3:])
			}
			return i + 1
		}
	}
	h := 0
	for _, c := range name {
		h = (h*31 + int(c)) % 1000003
	}
	return 1000 + h
}

func (w *World) inRepoPkg(p *ssa.Package) bool {
	for _, q := range w.pkgs {
		if p == q {
			return true
		}
	}
	return false
}

// evalInit evaluates the initialiser of a package variable of the repository.
func (x *Exec) evalInit(g *ssa.Global) (v Val, ok bool) {
	// written anywhere else?
	var initStore *ssa.Store
	for _, fn := range x.w.byKey {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, isS := in.(*ssa.Store); isS && s.Addr == g {
					if fn.Name() != "init" || initStore != nil {
						return nil, false
					}
					initStore = s
				}
			}
		}
	}
	if initStore == nil {
		return nil, false
	}
	defer func() {
		if r := recover(); r != nil {
			v, ok = nil, false
		}
	}()
	fr := &Frame{fn: initStore.Parent(), regs: map[ssa.Value]Val{}}
	st := &State{heap: map[string]*Term{}, known: map[*Term]bool{}, top: x.tb.I(0), iters: map[ssa.Value]*Term{}, sidx: map[ssa.Value]int{}}
	x.spec0++
	defer func() { x.spec0-- }()
	var eval func(v ssa.Value)
	eval = func(v ssa.Value) {
		in, isI := v.(ssa.Instruction)
		if !isI {
			return
		}
		if _, done := fr.regs[v]; done {
			return
		}
		for _, o := range in.Operands(nil) {
			if *o != nil {
				eval(*o)
			}
		}
		switch in.(type) {
		case *ssa.Call, *ssa.Convert, *ssa.MakeInterface, *ssa.BinOp, *ssa.ChangeType:
		default:
			if u, isU := in.(*ssa.UnOp); !isU || u.Op == token.MUL {
				unsup("initialiser")
			}
		}
		outs := x.instr(fr, st, in)
		if len(outs) != 1 {
			unsup("initialiser")
		}
		fr.regs[v] = outs[0].res[0]
	}
	eval(initStore.Val)
	return x.get(fr, initStore.Val), true
}

// runFn executes fn from its entry and returns its normal outcomes.
func (x *Exec) runFn(st *State, fn *ssa.Function, args, free []Val, caller *Frame) []outcome {
	if fn.Blocks == nil {
		unsup("no body for %s", fn)
	}
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	if depth > 25 {
		unsup("call depth at %s", fn)
	}
	for c := caller; c != nil; c = c.caller {
		if c.fn == fn {
			unsup("recursion in %s without a contract", fn)
		}
	}
	if fn.Recover != nil && usesRecover(fn) {
		unsup("recover in %s", fn)
	}
	var outs []outcome
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, active: map[*ssa.BasicBlock]*loopCtx{}, depth: depth, caller: caller, outs: &outs, free: free}
	fr.callInstr = x.pendingCall
	x.pendingCall = nil
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	x.block(fr, st, fn.Blocks[0], nil)
	return outs
}

func usesRecover(fn *ssa.Function) bool {
	for _, a := range append([]*ssa.Function{fn}, fn.AnonFuncs...) {
		for _, b := range a.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
						return true
					}
				}
			}
		}
	}
	return false
}

func (fr *Frame) fork() *Frame {
	n := *fr
	n.regs = make(map[ssa.Value]Val, len(fr.regs))
	for k, v := range fr.regs {
		n.regs[k] = v
	}
	n.defers = append([]deferred{}, fr.defers...)
	n.count = make(map[*ssa.BasicBlock]*Term, len(fr.count))
	for k, v := range fr.count {
		n.count[k] = v
	}
	n.active = make(map[*ssa.BasicBlock]*loopCtx, len(fr.active))
	for k, v := range fr.active {
		n.active[k] = v
	}
	return &n
}

func (x *Exec) block(fr *Frame, st *State, b, prev *ssa.BasicBlock) {
	if st.dead {
		return
	}
	if lp := x.loopsOf(fr.fn).headers[b]; lp != nil && !x.structuralLoop(fr, lp) {
		if prev != nil && lp.blocks[prev] {
			x.backEdge(fr, st, lp, prev)
			return
		}
		if !x.enterLoop(fr, st, lp, prev) {
			return
		}
	} else {
		// phis in parallel
		var vals []Val
		var phis []*ssa.Phi
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, phi)
			vals = append(vals, x.get(fr, phi.Edges[predIndex(b, prev)]))
		}
		for i, p := range phis {
			fr.regs[p] = vals[i]
		}
	}
	// leaving loops: drop their contexts
	for h := range fr.active {
		if lp := x.loopsOf(fr.fn).headers[h]; lp != nil && !lp.blocks[b] {
			c := fr.active[h]
			if c.ctxIdx >= 0 {
				st.frames = st.frames[:c.ctxIdx]
			}
			delete(fr.active, h)
		}
	}
	x.instrs(fr, st, b, 0)
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	panic("no predecessor")
}

func (x *Exec) instrs(fr *Frame, st *State, b *ssa.BasicBlock, start int) {
	for i := start; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := x.term(fr, in.Cond)
			x.branch(fr, st, b, c)
			return
		case *ssa.Jump:
			x.block(fr, st, b.Succs[0], b)
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range in.Results {
				rs = append(rs, x.get(fr, r))
			}
			*fr.outs = append(*fr.outs, outcome{st, rs})
			return
		case *ssa.Panic:
			x.prove(st, x.tb.B(false), "safety", "panic", x.safetyTags(), in.Pos(), "panic is reachable")
			return
		case *ssa.RunDefers:
			x.runDefers(fr, st, b, i)
			return
		case *ssa.Defer:
			d := deferred{instr: in}
			if !in.Call.IsInvoke() {
				d.fnv = x.get(fr, in.Call.Value)
			} else {
				d.fnv = x.get(fr, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.get(fr, a))
			}
			fr.defers = append(fr.defers, d)
			continue
		default:
			outs := x.instr(fr, st, in)
			if len(outs) == 1 {
				st = outs[0].st
				if v, ok := in.(ssa.Value); ok && len(outs[0].res) > 0 {
					fr.regs[v] = outs[0].res[0]
				}
				continue
			}
			for _, o := range outs {
				if o.st.dead {
					continue
				}
				f2 := fr.fork()
				if v, ok := in.(ssa.Value); ok && len(o.res) > 0 {
					f2.regs[v] = o.res[0]
				}
				x.instrs(f2, o.st, b, i+1)
			}
			return
		}
	}
}

func (x *Exec) runDefers(fr *Frame, st *State, b *ssa.BasicBlock, i int) {
	if len(fr.defers) == 0 {
		x.instrs(fr, st, b, i+1)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	outs := x.call(fr, st, &d.instr.Call, d.instr, d.fnv, d.args)
	for k, o := range outs {
		f := fr
		if k < len(outs)-1 {
			f = fr.fork()
		}
		x.runDefers(f, o.st, b, i)
	}
}

func (x *Exec) branch(fr *Frame, st *State, b *ssa.BasicBlock, c *Term) {
	if c.isTrue() {
		x.block(fr, st, b.Succs[0], b)
		return
	}
	if c.isFalse() {
		x.block(fr, st, b.Succs[1], b)
		return
	}
	x.npaths++
	if x.npaths > 6000 {
		panic(limitErr{"too many paths"})
	}
	s1 := st.clone()
	f1 := fr.fork()
	s1.assume(c)
	if x.feasible(s1) {
		x.block(f1, s1, b.Succs[0], b)
		st.assume(x.tb.Not(c))
		if x.feasible(st) {
			x.block(fr, st, b.Succs[1], b)
		}
	} else {
		st.assume(x.tb.Not(c))
		x.block(fr, st, b.Succs[1], b)
	}
}

func one(st *State, vs ...Val) []outcome { return []outcome{{st, vs}} }

func (x *Exec) instr(fr *Frame, st *State, in ssa.Instruction) []outcome {
	tb := x.tb
	switch in := in.(type) {
	case *ssa.Alloc:
		elem := in.Type().(*types.Pointer).Elem()
		x.allocTag = x.w.rtag(elem)
		ref := x.alloc(st)
		p := x.deref(ref, elem)
		if at, ok := types.Unalias(elem).Underlying().(*types.Array); ok {
			x.heapSet(st, p.comp, tb.Store(x.heapGet(st, p.comp), ref, tb.App("(Array Int "+x.w.sortOf(at.Elem())+")", "constarr", x.zero(at.Elem()))))
		} else {
			x.heapSet(st, p.comp, tb.Store(x.heapGet(st, p.comp), ref, x.zero(elem)))
		}
		return one(st, ref)
	case *ssa.FieldAddr:
		base := x.get(fr, in.X)
		elem := in.X.Type().Underlying().(*types.Pointer).Elem()
		p := x.deref(base, elem)
		if len(p.path) == 0 {
			x.checkNonNil(st, p.ref, fieldName(elem, in.Field), in.Pos())
		}
		return one(st, &Ptr{comp: p.comp, ref: p.ref, root: p.root, path: append(append([]PathEl{}, p.path...), PathEl{field: x.fieldIdx(elem, in.Field)}),
			elem: in.Type().Underlying().(*types.Pointer).Elem()})
	case *ssa.Field:
		t := x.term(fr, in.X)
		r := x.w.rec(in.X.Type())
		return one(st, x.typed(st, x.recSel(r, x.fieldIdx(in.X.Type(), in.Field), t), in.Type()))
	case *ssa.IndexAddr:
		idx := x.term(fr, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.term(fr, in.X)
			x.bounds(st, idx, x.slen(s), in.Pos())
			comp := "E_" + typeKey(u.Elem())
			x.compSort(comp, u.Elem())
			return one(st, &Ptr{comp: comp, ref: x.sarr(s), root: u.Elem(), path: []PathEl{{field: -1, idx: tb.Add(x.soff(s), idx), typ: u.Elem()}}, elem: u.Elem()})
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			x.bounds(st, idx, tb.I(at.Len()), in.Pos())
			p := x.deref(x.get(fr, in.X), u.Elem())
			return one(st, &Ptr{comp: p.comp, ref: p.ref, root: p.root, path: append(append([]PathEl{}, p.path...), PathEl{field: -1, idx: idx, typ: at.Elem()}), elem: at.Elem()})
		}
		unsup("IndexAddr %s", in)
	case *ssa.Index:
		idx := x.term(fr, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			x.bounds(st, idx, tb.I(u.Len()), in.Pos())
			return one(st, x.typed(st, tb.Select(x.term(fr, in.X), idx), u.Elem()))
		case *types.Basic:
			s := x.term(fr, in.X)
			x.bounds(st, idx, x.strLen(s), in.Pos())
			return one(st, x.byteAt(s, idx))
		}
	case *ssa.UnOp:
		return x.unop(fr, st, in)
	case *ssa.BinOp:
		return one(st, x.binop(fr, st, in))
	case *ssa.Store:
		elem := in.Addr.Type().Underlying().(*types.Pointer).Elem()
		v := x.get(fr, in.Val)
		p := x.deref(x.get(fr, in.Addr), elem)
		if len(p.path) == 0 {
			if g, ok := in.Addr.(*ssa.Global); ok {
				unsup("assignment to global %s", g)
			}
			x.checkNonNil(st, p.ref, "pointer", in.Pos())
		}
		if sm, ok := v.(*SMap); ok {
			_ = sm
			unsup("structural map escapes")
		}
		x.hookStore(fr, st, p, in.Pos())
		x.checkWrite(st, p.comp, p.ref, p.path, in.Pos())
		x.storePtr(st, p, x.asTerm(v))
		return one(st)
	case *ssa.Convert:
		return one(st, x.convert(fr, st, in))
	case *ssa.ChangeType, *ssa.ChangeInterface:
		return one(st, x.get(fr, (*in.Operands(nil)[0])))
	case *ssa.MakeInterface:
		return one(st, x.boxVal(x.get(fr, in.X), in.X.Type()))
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, in)
	case *ssa.Extract:
		tu, ok := x.get(fr, in.Tuple).(Tuple)
		if !ok {
			panic(fmt.Sprintf("extract from %T in %s", x.get(fr, in.Tuple), in))
		}
		return one(st, tu[in.Index])
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.bind = append(c.bind, x.get(fr, b))
		}
		return one(st, c)
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		if _, ptr := mt.Key().Underlying().(*types.Pointer); ptr && !localMapEscapes(in) {
			return one(st, &SMap{})
		}
		md, mv := x.mapComps(mt)
		ref := x.alloc(st)
		ks := x.w.sortOf(mt.Key())
		x.heapSet(st, md, tb.Store(x.heapGet(st, md), ref, tb.App("(Array "+ks+" Bool)", "constarr", tb.B(false))))
		x.heapSet(st, mv, tb.Store(x.heapGet(st, mv), ref, tb.App("(Array "+ks+" "+x.w.sortOf(mt.Elem())+")", "constarr", x.zero(mt.Elem()))))
		return one(st, ref)
	case *ssa.MapUpdate:
		if sm, ok := x.get(fr, in.Map).(*SMap); ok {
			n := &SMap{keys: append(append([]Val{}, sm.keys...), x.get(fr, in.Key)), vals: append(append([]Val{}, sm.vals...), x.get(fr, in.Value))}
			fr.regs[in.Map] = n
			return one(st)
		}
		m := x.term(fr, in.Map)
		mt := in.Map.Type().Underlying().(*types.Map)
		x.prove(st, tb.Not(tb.Eq(m, tb.I(0))), "safety", "nilmap", x.safetyTags(), in.Pos(), "assignment to a nil map")
		md, mv := x.mapComps(mt)
		k, v := x.term(fr, in.Key), x.term(fr, in.Value)
		x.hookMap(fr, st, m, mt, k, v, true, in.Pos())
		x.checkWrite(st, md, m, nil, in.Pos())
		hd, hv := x.heapGet(st, md), x.heapGet(st, mv)
		x.heapSet(st, md, tb.Store(hd, m, tb.Store(tb.Select(hd, m), k, tb.B(true))))
		x.heapSet(st, mv, tb.Store(hv, m, tb.Store(tb.Select(hv, m), k, v)))
		return one(st)
	case *ssa.Lookup:
		return x.lookup(fr, st, in)
	case *ssa.Range:
		mt, ok := in.X.Type().Underlying().(*types.Map)
		if !ok {
			unsup("range over a string")
		}
		if sm, ok := x.get(fr, in.X).(*SMap); ok {
			st.sidx[in] = 0
			return one(st, &MapIter{instr: in, mt: mt, sm: sm})
		}
		m := x.term(fr, in.X)
		x.hookMap(fr, st, m, mt, nil, nil, false, in.Pos())
		md, _ := x.mapComps(mt)
		dom := tb.Select(x.heapGet(st, md), m)
		dom = tb.Ite(tb.Eq(m, tb.I(0)), tb.App(dom.sort, "constarr", tb.B(false)), dom)
		st.iters[in] = tb.App(dom.sort, "constarr", tb.B(false))
		return one(st, &MapIter{instr: in, m: m, mt: mt, dom0: dom})
	case *ssa.Next:
		return x.next(fr, st, in)
	case *ssa.MakeSlice:
		n, c := x.term(fr, in.Len), x.term(fr, in.Cap)
		elem := in.Type().Underlying().(*types.Slice).Elem()
		x.prove(st, tb.And(tb.Le(tb.I(0), n), tb.Le(n, c)), "safety", "makeslice", x.safetyTags(), in.Pos(), "make with a negative length")
		x.hookAlloc(fr, st, c, elem, in.Pos())
		comp := "E_" + typeKey(elem)
		x.compSort(comp, elem)
		ref := x.alloc(st)
		x.heapSet(st, comp, tb.Store(x.heapGet(st, comp), ref, tb.App("(Array Int "+x.w.sortOf(elem)+")", "constarr", x.zero(elem))))
		return one(st, x.mkslc(ref, tb.I(0), n, c))
	case *ssa.Slice:
		return one(st, x.slice(fr, st, in))
	case *ssa.Call:
		var fnv Val
		fnv = x.get(fr, in.Call.Value)
		var args []Val
		for _, a := range in.Call.Args {
			args = append(args, x.get(fr, a))
		}
		outs := x.call(fr, st, &in.Call, in, fnv, args)
		for i := range outs {
			if len(outs[i].res) != 1 {
				outs[i].res = []Val{Tuple(outs[i].res)}
			}
		}
		return outs
	}
	unsup("instruction %T", in)
	return nil
}

func localMapEscapes(mm *ssa.MakeMap) bool {
	for _, r := range *mm.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			if r.Map != mm {
				return true
			}
		case *ssa.Range, *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

func fieldName(t types.Type, i int) string {
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.Field(i).Name()
	}
	return "field"
}

func (x *Exec) fieldIdx(t types.Type, i int) int {
	st := t.Underlying().(*types.Struct)
	n := st.Field(i).Name()
	r := x.w.rec(t)
	if n == "_" {
		n = fmt.Sprintf("blank%d", i)
	}
	j, ok := r.fields[n]
	if !ok {
		unsup("field %s of opaque type %s", n, t)
	}
	return j
}

func (x *Exec) bounds(st *State, i, n *Term, pos token.Pos) {
	x.prove(st, x.tb.And(x.tb.Le(x.tb.I(0), i), x.tb.Lt(i, n)), "safety", "bounds", x.safetyTags(), pos, "index out of range")
}

func (x *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) []outcome {
	tb := x.tb
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok {
			v := x.globalValue(st, g)
			if t, ok := v.(*Term); ok {
				x.typed(st, t, in.Type())
			}
			return one(st, v)
		}
		elem := in.X.Type().Underlying().(*types.Pointer).Elem()
		p := x.deref(x.get(fr, in.X), elem)
		if len(p.path) == 0 {
			x.checkNonNil(st, p.ref, "pointer", in.Pos())
		}
		x.hookLoad(fr, st, p, in.Pos())
		t := x.typed(st, x.loadPtr(st, p), in.Type())
		return one(st, x.nameBig(st, t))
	case token.NOT:
		return one(st, tb.Not(x.term(fr, in.X)))
	case token.SUB:
		return one(st, x.wrap(st, tb.Sub(tb.I(0), x.term(fr, in.X)), in.Type()))
	case token.XOR:
		// ^x == -x-1, or max-x for unsigned types
		t := x.term(fr, in.X)
		lo, hi, _ := intRange(in.Type())
		if lo != nil && lo.Sign() == 0 {
			r := tb.Sub(tb.Num(hi), t)
			return one(st, r)
		}
		return one(st, tb.Sub(tb.I(-1), t))
	}
	unsup("unary %s", in.Op)
	return nil
}

// nameBig abbreviates a large term.
func (x *Exec) nameBig(st *State, t *Term) *Term {
	if t.size < 60 || x.spec0 > 0 || t.free || t.sort == SBool {
		return t
	}
	if strings.HasPrefix(t.op, "mk_") || t.op == "mkslc" || strings.HasPrefix(t.op, "box_") {
		// keep the constructor visible, abbreviate the arguments
		return t
	}
	c := x.tb.Fresh("v", t.sort)
	c.def = t
	c.lo, c.hi, c.bits = t.lo, t.hi, t.bits
	st.assume(x.tb.App(SBool, "=", c, t))
	return c
}

// wrap reduces an exact result to the range of its type.
func (x *Exec) wrap(st *State, t *Term, typ types.Type) *Term {
	lo, hi, ok := intRange(typ)
	if !ok {
		return t
	}
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	tb := x.tb
	in := tb.And(tb.App(SBool, "<=", tb.Num(lo), t), tb.App(SBool, "<=", t, tb.Num(hi)))
	if x.spec0 == 0 && x.entails(st, in) {
		// in range on this path: remember it
		st.assume(in)
		if t.num == nil && len(t.args) > 0 {
			c := tb.Fresh("a", SInt)
			c.def = t
			c.lo, c.hi, c.bits = lo, hi, t.bits
			if t.lo != nil && t.lo.Cmp(lo) > 0 {
				c.lo = t.lo
			}
			if t.hi != nil && t.hi.Cmp(hi) < 0 {
				c.hi = t.hi
			}
			st.assume(tb.App(SBool, "=", c, t))
			return c
		}
		return t
	}
	mod := new(big.Int).Sub(hi, lo)
	mod.Add(mod, big.NewInt(1))
	var w *Term
	if lo.Sign() == 0 {
		w = tb.Mod(t, tb.Num(mod))
	} else {
		w = tb.Add(tb.Mod(tb.Sub(t, tb.Num(lo)), tb.Num(mod)), tb.Num(lo))
	}
	r := w
	if t.lo == nil || t.hi == nil || t.hi.Cmp(hi) > 0 || t.lo.Cmp(lo) < 0 {
		r = tb.Ite(in, t, w)
	}
	if x.spec0 > 0 || t.free {
		r.lo, r.hi = lo, hi
		return r
	}
	c := tb.Fresh("w", SInt)
	c.lo, c.hi = lo, hi
	c.def = w // for the bit-level simplifier
	st.assume(tb.And(tb.App(SBool, "<=", tb.Num(lo), c), tb.App(SBool, "<=", c, tb.Num(hi))))
	st.assume(tb.App(SBool, "=", c, r))
	if lo.Sign() == 0 {
		if b := bitsOf(w); b != nil {
			c.bits = b
		}
	}
	return c
}

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) *Term {
	tb := x.tb
	xv, yv := x.get(fr, in.X), x.get(fr, in.Y)
	a, b := x.asTerm(xv), x.asTerm(yv)
	return x.binopT(st, in.Op, a, b, in.X.Type(), in.Y.Type(), in.Type(), in.Pos(), tb)
}

func (x *Exec) binopT(st *State, op token.Token, a, b *Term, xt, yt, rt types.Type, pos token.Pos, tb *TB) *Term {
	isStr := a.sort == SStr
	switch op {
	case token.EQL, token.NEQ:
		e := x.eq(a, b)
		if op == token.NEQ {
			e = tb.Not(e)
		}
		return e
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isStr {
			switch op {
			case token.LSS:
				return tb.App(SBool, "slt", a, b)
			case token.GTR:
				return tb.App(SBool, "slt", b, a)
			case token.LEQ:
				return tb.Not(tb.App(SBool, "slt", b, a))
			default:
				return tb.Not(tb.App(SBool, "slt", a, b))
			}
		}
		switch op {
		case token.LSS:
			return tb.Lt(a, b)
		case token.LEQ:
			return tb.Le(a, b)
		case token.GTR:
			return tb.Lt(b, a)
		default:
			return tb.Le(b, a)
		}
	case token.ADD:
		if isStr {
			return x.cat(a, b)
		}
		return x.wrap(st, tb.Add(a, b), rt)
	case token.SUB:
		return x.wrap(st, tb.Sub(a, b), rt)
	case token.MUL:
		return x.wrap(st, tb.Mul(a, b), rt)
	case token.QUO, token.REM:
		x.prove(st, tb.Not(tb.Eq(b, tb.I(0))), "safety", "divide", x.safetyTags(), pos, "division by zero")
		return x.handle(st, x.divmod(st, op, a, b, rt), op == token.QUO && b.num != nil && b.num.Cmp(big.NewInt(2)) == 0)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return x.bitop(st, op, a, b, rt)
	case token.SHL:
		_, hi, _ := intRange(rt)
		lo, _, _ := intRange(rt)
		if b.num != nil && b.num.IsInt64() {
			k := uint(b.num.Int64())
			if lo.Sign() >= 0 && k >= uint(hi.BitLen()) {
				return tb.I(0)
			}
			return x.wrap(st, tb.Mul(a, tb.Num(new(big.Int).Lsh(big.NewInt(1), k))), rt)
		}
		p := x.pow2(st, b)
		return x.wrap(st, tb.Mul(a, p), rt)
	case token.SHR:
		if b.num != nil && b.num.IsInt64() {
			k := uint(b.num.Int64())
			if k > 63 {
				k = 63
			}
			return x.handle(st, tb.Div(a, tb.Num(new(big.Int).Lsh(big.NewInt(1), k))), k == 1)
		}
		return tb.Div(a, x.pow2(st, b))
	}
	unsup("operator %s", op)
	return nil
}

// handle makes a midpoint known to the solver as a witness.
func (x *Exec) handle(st *State, t *Term, mid bool) *Term {
	if mid && x.sp.defs["idx"] != nil {
		st.assume(x.tb.App(SBool, "idx", t))
	}
	return t
}

func (x *Exec) eq(a, b *Term) *Term {
	if a.sort == SSlc && b.sort == SSlc { // comparison with nil only
		if unname(b).op == "mkslc" && x.sarr(b).num != nil {
			return x.tb.Eq(x.sarr(a), x.tb.I(0))
		}
		if unname(a).op == "mkslc" && x.sarr(a).num != nil {
			return x.tb.Eq(x.sarr(b), x.tb.I(0))
		}
	}
	return x.tb.Eq(a, b)
}

func (x *Exec) pow2(st *State, b *Term) *Term {
	if b.num != nil && b.num.IsInt64() && b.num.Sign() >= 0 && b.num.Int64() < 4096 {
		return x.tb.Num(new(big.Int).Lsh(big.NewInt(1), uint(b.num.Int64())))
	}
	if st != nil && !b.free { // a value known by a fact
		u := unname(b)
		for f := st.facts; f != nil; f = f.parent {
			if f.t.op == "=" && f.t.args[1].num != nil && (f.t.args[0] == b || unname(f.t.args[0]) == u) {
				return x.pow2(nil, f.t.args[1])
			}
			if f.t.op == "=" && f.t.args[0].num != nil && (f.t.args[1] == b || unname(f.t.args[1]) == u) {
				return x.pow2(nil, f.t.args[0])
			}
		}
	}
	t := x.tb.App(SInt, "pow2", b)
	t.lo = big.NewInt(1)
	if b.hi != nil && b.hi.IsInt64() && b.hi.Int64() < 256 {
		t.hi = new(big.Int).Lsh(big.NewInt(1), uint(b.hi.Int64()))
	}
	return t
}

// known is t, or the number that it is by the facts.
func (x *Exec) known(st *State, t *Term) *Term {
	if n := x.knownNum(st, t); n != nil {
		return x.tb.Num(n)
	}
	return t
}

func (x *Exec) knownNum(st *State, t *Term) *big.Int {
	if t.num != nil {
		return t.num
	}
	if st == nil || t.free {
		return nil
	}
	u := unname(t)
	if u.op == "+" {
		n := new(big.Int)
		for _, a := range u.args {
			m := x.knownNum(st, a)
			if m == nil {
				return nil
			}
			n.Add(n, m)
		}
		return n
	}
	if len(u.args) > 0 {
		return nil
	}
	for f := st.facts; f != nil; f = f.parent {
		if f.t.op == "=" && f.t.args[1].num != nil && (f.t.args[0] == t || unname(f.t.args[0]) == u) {
			return f.t.args[1].num
		}
		if f.t.op == "=" && f.t.args[0].num != nil && (f.t.args[1] == t || unname(f.t.args[1]) == u) {
			return f.t.args[0].num
		}
	}
	return nil
}

func (x *Exec) divmod(st *State, op token.Token, a, b *Term, rt types.Type) *Term {
	tb := x.tb
	b = x.known(st, b)
	nonneg := a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() > 0
	if !nonneg && b.num != nil && b.num.Sign() > 0 && x.spec0 == 0 && x.entails(st, tb.Le(tb.I(0), a)) {
		st.assume(tb.Le(tb.I(0), a))
		nonneg = true
	}
	if nonneg {
		if op == token.QUO {
			return tb.Div(a, b)
		}
		return tb.Mod(a, b)
	}
	// truncated division
	abs := func(t *Term) *Term { return tb.Ite(tb.Le(tb.I(0), t), t, tb.Sub(tb.I(0), t)) }
	q := tb.App(SInt, "div", abs(a), abs(b))
	neg := tb.Not(tb.Eq(tb.Lt(a, tb.I(0)), tb.Lt(b, tb.I(0))))
	q = tb.Ite(neg, tb.Sub(tb.I(0), q), q)
	if op == token.QUO {
		return x.wrap(st, q, rt)
	}
	r := tb.App(SInt, "mod", abs(a), abs(b))
	res := tb.Ite(tb.Lt(a, tb.I(0)), tb.Sub(tb.I(0), r), r)
	if b.num != nil {
		m := new(big.Int).Abs(b.num)
		m.Sub(m, big.NewInt(1))
		if res.num == nil {
			res.lo, res.hi = new(big.Int).Neg(m), m
		}
	}
	return res
}

// maskOf recognises pow2(b)-1.
func maskPow2(t *Term) *Term {
	u := unname(t)
	if u.op == "+" && len(u.args) == 2 && u.args[1].num != nil && u.args[1].num.IsInt64() && u.args[1].num.Int64() == -1 {
		p := unname(u.args[0])
		if p.op == "pow2" {
			return p
		}
	}
	return nil
}

func (x *Exec) bitop(st *State, op token.Token, a, b *Term, rt types.Type) *Term {
	tb := x.tb
	lo, hi, _ := intRange(rt)
	if lo == nil {
		hi = nil
	}
	if a.num != nil && b.num == nil && op != token.AND_NOT {
		a, b = b, a
	}
	full := hi
	b = x.known(st, b)
	switch op {
	case token.AND:
		if b.num != nil && b.num.Sign() >= 0 {
			return tb.AndConst(a, b.num)
		}
		if b.num != nil && lo != nil && lo.Sign() < 0 { // negative constant: clear bits
			inv := new(big.Int).Not(b.num)
			return tb.Sub(a, tb.AndConst(a, inv))
		}
		if p := maskPow2(b); p != nil {
			return tb.Mod(a, p)
		}
		if p := maskPow2(a); p != nil {
			return tb.Mod(b, p)
		}
	case token.OR:
		if b.num != nil && b.num.Sign() >= 0 && full != nil && lo.Sign() == 0 {
			return tb.OrConst(a, b.num, full)
		}
		if b.num != nil && b.num.Sign() >= 0 {
			return tb.Add(tb.Sub(a, tb.AndConst(a, b.num)), b)
		}
		if disjointBits(a, b) {
			return tb.Add(a, b)
		}
	case token.AND_NOT:
		if b.num != nil && b.num.Sign() >= 0 {
			return tb.Sub(a, tb.AndConst(a, b.num))
		}
		if p := maskPow2(b); p != nil {
			return tb.Sub(a, tb.Mod(a, p))
		}
	case token.XOR:
		if b.num != nil && full != nil && b.num.Cmp(full) == 0 && lo.Sign() == 0 {
			return tb.Sub(b, a)
		}
		if disjointBits(a, b) {
			return tb.Add(a, b)
		}
	}
	name := map[token.Token]string{token.AND: "band", token.OR: "bor", token.XOR: "bxor", token.AND_NOT: "bandnot"}[op]
	t := tb.App(SInt, name, a, b)
	if op == token.AND || op == token.AND_NOT {
		if a.lo != nil && a.lo.Sign() >= 0 && (op == token.AND_NOT || b.lo != nil && b.lo.Sign() >= 0) {
			t.lo = big.NewInt(0)
			t.hi = a.hi
		}
	}
	if t.lo == nil && lo != nil {
		t.lo, t.hi = lo, hi
		if x.spec0 == 0 {
			st.assume(tb.And(tb.App(SBool, "<=", tb.Num(lo), t), tb.App(SBool, "<=", t, tb.Num(hi))))
		}
	}
	return t
}

func (x *Exec) convert(fr *Frame, st *State, in *ssa.Convert) Val {
	v := x.get(fr, in.X)
	from, to := types.Unalias(in.X.Type()).Underlying(), types.Unalias(in.Type()).Underlying()
	fs, ts := x.w.sortOf(from), x.w.sortOf(to)
	switch {
	case fs == SInt && ts == SInt:
		if _, _, ok := intRange(to); ok {
			return x.wrap(st, x.asTerm(v), in.Type())
		}
		return v
	case fs == SSlc && ts == SStr:
		el := from.(*types.Slice).Elem()
		if b, ok := el.Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
			unsup("conversion from %s", from)
		}
		return x.sliceStr(st, x.asTerm(v), el)
	case fs == SStr && ts == SSlc:
		el := to.(*types.Slice).Elem()
		if b, ok := el.Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
			unsup("conversion to %s", to)
		}
		return x.strSlice(st, x.asTerm(v))
	case fs == SStr && ts == SStr:
		return v
	}
	unsup("conversion %s to %s", in.X.Type(), in.Type())
	return nil
}

// sliceStr is string(b).
func (x *Exec) sliceStr(st *State, s *Term, el types.Type) *Term {
	comp := "E_" + typeKey(el)
	x.compSort(comp, el)
	a := x.tb.Select(x.heapGet(st, comp), x.sarr(s))
	return x.arr2s(a, x.soff(s), x.slen(s))
}

func (x *Exec) arr2s(a, off, n *Term) *Term {
	if n.num != nil && n.num.Sign() == 0 {
		return x.str("")
	}
	u := unname(a)
	if u.op == "s2arr" && off.num != nil && off.num.Sign() == 0 {
		if n == x.strLen(u.args[0]) {
			return u.args[0]
		}
	}
	return x.tb.App(SStr, "arr2s", a, off, n)
}

// strSlice is []byte(s).
func (x *Exec) strSlice(st *State, s *Term) *Term {
	comp := "E_uint8"
	x.compSort(comp, types.Typ[types.Uint8])
	ref := x.alloc(st)
	x.heapSet(st, comp, x.tb.Store(x.heapGet(st, comp), ref, x.tb.App("(Array Int Int)", "s2arr", s)))
	n := x.strLen(s)
	return x.mkslc(ref, x.tb.I(0), n, n)
}

func (x *Exec) boxVal(v Val, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return x.asTerm(v)
	}
	b, ok := x.w.boxes[typeKey(t)]
	if !ok {
		unsup("boxing %s", t)
	}
	if p, ok := v.(*Ptr); ok && len(p.path) > 0 {
		x.trusted["interior pointer stored in an interface ("+typeKey(t)+"): not tracked further"] = true
	}
	tt := x.asTerm(v)
	if u := unname(tt); u.op == b.sel { // box(unbox(a)) of a known box is not simplified: a must be that box
		_ = u
	}
	return x.tb.App(SAny, b.ctor, tt)
}

func (x *Exec) unbox(b *Box, t *Term) *Term {
	return x.tb.Sel(b.ctor, 0, b.sel, b.sort, t)
}

func (x *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) []outcome {
	tb := x.tb
	v := x.term(fr, in.X)
	var is *Term
	var val Val
	if it, ok := in.AssertedType.Underlying().(*types.Interface); ok {
		is = x.implements(v, in.AssertedType, it)
		val = v
	} else {
		b := x.w.box(in.AssertedType)
		is = tb.Is(b.ctor, v)
		val = x.typed(st, x.unbox(b, v), in.AssertedType)
	}
	if !in.CommaOk {
		x.prove(st, is, "safety", "typeassert", x.safetyTags(), in.Pos(), "type assertion to "+in.AssertedType.String())
		return one(st, val)
	}
	z := x.zero(in.AssertedType)
	if is.isTrue() {
		return one(st, Tuple{val, is})
	}
	if is.isFalse() {
		return one(st, Tuple{z, is})
	}
	// keep the value exact when the assertion holds
	return one(st, Tuple{tb.Ite(is, x.asTerm(val), z), is})
}

func (x *Exec) implements(v *Term, t types.Type, it *types.Interface) *Term {
	u := unname(v)
	if u.op == "anil" {
		return x.tb.B(false)
	}
	for _, b := range x.w.boxList {
		if b.ctor == u.op {
			return x.tb.B(types.Implements(b.typ, it))
		}
	}
	op := "impl_" + typeKey(t)
	x.declFun(op, []*Term{v}, SBool)
	return x.tb.And(x.tb.Not(x.tb.Eq(v, x.tb.Sym("anil", SAny))), x.tb.App(SBool, op, v))
}

func (x *Exec) lookup(fr *Frame, st *State, in *ssa.Lookup) []outcome {
	tb := x.tb
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok { // string index
		s, i := x.term(fr, in.X), x.term(fr, in.Index)
		x.bounds(st, i, x.strLen(s), in.Pos())
		return one(st, x.byteAt(s, i))
	}
	m, k := x.term(fr, in.X), x.term(fr, in.Index)
	x.hookMap(fr, st, m, mt, nil, nil, false, in.Pos())
	has, val := x.mapGet(st, m, k, mt)
	t := tb.Ite(has, val, x.zero(mt.Elem()))
	if in.CommaOk {
		if !has.free {
			x.typedIf(st, has, val, mt.Elem())
		}
		return one(st, Tuple{t, has})
	}
	x.typedIf(st, has, val, mt.Elem())
	return one(st, t)
}

// typedIf records type facts of a map value (harmless when absent).
func (x *Exec) typedIf(st *State, c, v *Term, t types.Type) { x.typed(st, v, t) }

func (x *Exec) mapGet(st *State, m, k *Term, mt *types.Map) (*Term, *Term) {
	md, mv := x.mapComps(mt)
	has := x.tb.Select(x.tb.Select(x.heapGet(st, md), m), k)
	if !(m.lo != nil && m.lo.Sign() > 0) && unname(m).op != "+" {
		has = x.tb.And(x.tb.Not(x.tb.Eq(m, x.tb.I(0))), has)
	}
	val := x.tb.Select(x.tb.Select(x.heapGet(st, mv), m), k)
	return has, val
}

func (x *Exec) next(fr *Frame, st *State, in *ssa.Next) []outcome {
	tb := x.tb
	it := x.get(fr, in.Iter).(*MapIter)
	if it.sm != nil {
		i := st.sidx[it.instr]
		if i < len(it.sm.keys) {
			st.sidx[it.instr] = i + 1
			return one(st, Tuple{tb.B(true), it.sm.keys[i], it.sm.vals[i]})
		}
		return one(st, Tuple{tb.B(false), x.zero(it.mt.Key()), x.zero(it.mt.Elem())})
	}
	md, mv := x.mapComps(it.mt)
	ks := x.w.sortOf(it.mt.Key())
	vis := st.iters[it.instr]
	// another element
	s1 := st.clone()
	k := tb.Fresh("key", ks)
	x.typed(s1, k, it.mt.Key())
	dom := tb.Select(x.heapGet(s1, md), it.m)
	s1.assume(tb.Not(tb.Eq(it.m, tb.I(0))))
	s1.assume(tb.Select(dom, k))
	s1.assume(tb.Not(tb.Select(vis, k)))
	s1.iters[it.instr] = tb.Store(vis, k, tb.B(true))
	v := x.typed(s1, tb.Select(tb.Select(x.heapGet(s1, mv), it.m), k), it.mt.Elem())
	// the end: every key that was and still is in the map has been visited
	q := tb.BoundVar("k", ks)
	cur := tb.Select(x.heapGet(st, md), it.m)
	st.assume(tb.Quant("forall", []*Term{q}, [][]*Term{{tb.Select(cur, q)}, {tb.Select(vis, q)}},
		tb.Imp(tb.And(tb.Not(tb.Eq(it.m, tb.I(0))), tb.Select(it.dom0, q), tb.Select(cur, q)), tb.Select(vis, q))))
	out := []outcome{}
	if x.feasible(s1) {
		out = append(out, outcome{s1, []Val{Tuple{tb.B(true), k, v}}})
	}
	if x.feasible(st) {
		out = append(out, outcome{st, []Val{Tuple{tb.B(false), x.zero(it.mt.Key()), x.zero(it.mt.Elem())}}})
	}
	if len(out) == 0 {
		st.dead = true
		return one(st, Tuple{tb.B(false), x.zero(it.mt.Key()), x.zero(it.mt.Elem())})
	}
	return out
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) Val {
	tb := x.tb
	lo := tb.I(0)
	if in.Low != nil {
		lo = x.term(fr, in.Low)
	}
	check := func(hi, max *Term) {
		x.prove(st, tb.And(tb.Le(tb.I(0), lo), tb.Le(lo, hi), tb.Le(hi, max)), "safety", "slicebounds", x.safetyTags(), in.Pos(), "slice bounds out of range")
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.term(fr, in.X)
		hi := x.slen(s)
		if in.High != nil {
			hi = x.term(fr, in.High)
		}
		c := x.scap(s)
		if in.Max != nil {
			c = x.term(fr, in.Max)
		}
		check(hi, x.scap(s))
		n := tb.Sub(hi, lo)
		x.nonneg(n)
		cp := tb.Sub(c, lo)
		x.nonneg(cp)
		return x.mkslc(x.sarr(s), tb.Add(x.soff(s), lo), n, cp)
	case *types.Basic:
		s := x.term(fr, in.X)
		hi := x.strLen(s)
		if in.High != nil {
			hi = x.term(fr, in.High)
		}
		check(hi, x.strLen(s))
		return x.sub(s, lo, hi)
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := tb.I(at.Len())
		hi := n
		if in.High != nil {
			hi = x.term(fr, in.High)
		}
		check(hi, n)
		p := x.deref(x.get(fr, in.X), u.Elem())
		if len(p.path) > 0 {
			unsup("slice of an interior array")
		}
		return x.mkslc(p.ref, lo, tb.Sub(hi, lo), tb.Sub(n, lo))
	}
	unsup("slice of %s", in.X.Type())
	return nil
}

func (x *Exec) sub(s, lo, hi *Term) *Term {
	if lo.num != nil && lo.num.Sign() == 0 && hi == x.strLen(s) {
		return s
	}
	if lo == hi {
		return x.str("")
	}
	if l, ok := x.litOf(s); ok && lo.num != nil && hi.num != nil {
		a, b := lo.num.Int64(), hi.num.Int64()
		if 0 <= a && a <= b && b <= int64(len(l)) {
			return x.str(l[a:b])
		}
	}
	if u := unname(s); u.op == "arr2s" { // sub-range of an array view
		return x.arr2s(u.args[0], x.tb.Add(u.args[1], lo), x.tb.Sub(hi, lo))
	}
	t := x.tb.App(SStr, "ssub", s, lo, hi)
	return t
}

// ---------- loops ----------

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

type loopInfo struct {
	headers map[*ssa.BasicBlock]*loop
	order   []*loop
}

func (x *Exec) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := x.loopInfo[fn]; ok {
		return li
	}
	li := &loopInfo{headers: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := li.headers[s]
				if lp == nil {
					lp = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.headers[s] = lp
					li.order = append(li.order, lp)
				}
				var add func(n *ssa.BasicBlock)
				add = func(n *ssa.BasicBlock) {
					if lp.blocks[n] {
						return
					}
					lp.blocks[n] = true
					for _, p := range n.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	sort.Slice(li.order, func(i, j int) bool { return li.order[i].header.Index < li.order[j].header.Index })
	// order by source position where known
	sort.SliceStable(li.order, func(i, j int) bool { return loopPos(li.order[i]) < loopPos(li.order[j]) })
	for i, l := range li.order {
		l.ord = i + 1
	}
	x.loopInfo[fn] = li
	return li
}

func loopPos(l *loop) token.Pos {
	best := token.Pos(1 << 60)
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if p := in.Pos(); p.IsValid() && p < best {
				best = p
			}
		}
	}
	return best
}

// structuralLoop: ranging over a structural map is unrolled.
func (x *Exec) structuralLoop(fr *Frame, lp *loop) bool {
	for _, in := range lp.header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if it, ok := fr.regs[n.Iter].(*MapIter); ok && it.sm != nil {
				x.orderIndependent(lp, n)
				return true
			}
		}
	}
	return false
}

// orderIndependent: the iterations of a loop over a structural map only write
// through their own key and to variables of their own, so that visiting the
// keys in the order of the source text stands for every order.
func (x *Exec) orderIndependent(lp *loop, next *ssa.Next) {
	if x.smapReg == nil {
		x.smapReg = map[ssa.Value]bool{}
	}
	if x.smapReg[next] {
		return
	}
	local := func(v ssa.Value) bool {
		for {
			switch u := v.(type) {
			case *ssa.Alloc:
				return lp.blocks[u.Block()]
			case *ssa.FieldAddr:
				v = u.X
			case *ssa.IndexAddr:
				v = u.X
			case *ssa.Slice:
				v = u.X
			case *ssa.Extract:
				return u.Tuple == next && u.Index == 1
			default:
				return false
			}
		}
	}
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				if b == lp.header {
					unsup("a loop over a map of pointers carries %s along", in.Comment)
				}
			case *ssa.Store:
				if !local(in.Addr) {
					unsup("a loop over a map of pointers writes to something else")
				}
			case *ssa.UnOp:
				if in.Op == token.MUL && !local(in.X) {
					if _, ok := in.X.(*ssa.Global); !ok {
						unsup("a loop over a map of pointers reads something else")
					}
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
				unsup("%T in a loop over a map of pointers", in)
			case *ssa.Call:
				switch in.Call.StaticCallee() {
				case nil:
					if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
						unsup("a dynamic call in a loop over a map of pointers")
					}
				default:
					if x.w.inRepo(in.Call.StaticCallee()) {
						unsup("a call in a loop over a map of pointers")
					}
				}
			}
		}
	}
	x.smapReg[next] = true
}
