package main

// Verification of one function (or lemma) against its contract.

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FuncResult struct {
	Key      string   `json:"func"`
	Obls     []*Obl   `json:"obligations"`
	Limit    []string `json:"limit,omitempty"` // why the function is undecided
	Calls    []string `json:"calls,omitempty"`
	Inlined  []string `json:"inlined,omitempty"`
	Trusted  []string `json:"trusted,omitempty"`
	Ext      []string `json:"externals,omitempty"`
	Shape    []string `json:"shape,omitempty"` // the loops of the function: what each carries along
	Paths    int      `json:"paths"`
	Queries  int      `json:"queries"`
	SolverMs int64    `json:"solver_ms"`
	Ms       int64    `json:"ms"`
	Pos      string   `json:"pos,omitempty"`
}

type Config struct {
	prop    string
	timeout int
	quick   int
	budget  time.Duration
	dbg     bool
}

func newExec(w *World, sp *Specs, cfg *Config) *Exec {
	x := &Exec{w: w, sp: sp, tb: newTB(w), init: map[string]*Term{}, csort: map[string]Sort{}, strs: map[string]*Term{}, lits: map[*Term]string{},
		globs: map[string]*Term{}, ext: map[string]bool{}, trusted: map[string]bool{}, calls: map[string]bool{}, loopInfo: map[*ssa.Function]*loopInfo{},
		vars: map[string]string{}, boundLoops: map[int]bool{}, compRoot: map[string]types.Type{}, inlined: map[string]bool{},
		prop: cfg.prop, dbg: cfg.dbg, quickMS: cfg.quick}
	x.deadline = time.Now().Add(cfg.budget)
	return x
}

// prepare declares the specification functions and returns the initial state.
func (x *Exec) prepare(pkg string, cfg *Config, upto *AxiomSpec) *State {
	st := &State{heap: map[string]*Term{}, known: map[*Term]bool{}, iters: map[ssa.Value]*Term{}, sidx: map[ssa.Value]int{}}
	top := x.tb.Fresh("top", SInt)
	st.top = top
	for _, g := range x.sp.ghostO {
		x.csort[g] = x.w.sortOf(x.typeOf(x.sp.ghosts[g], "", "ghost"))
	}
	var base strings.Builder
	for s := range x.w.opaque {
		base.WriteString("(declare-const zero_" + s + " " + s + ")\n")
	}
	// axioms
	x.spec0++
	vis := func(p string) bool { return p == "prelude" || p == pkg }
	for _, n := range x.sp.defOrd {
		d := x.sp.defs[n]
		if d.body != nil && !d.rec {
			continue
		}
		var ss []string
		for _, p := range d.params {
			ss = append(ss, x.w.sortOf(x.typeOf(p.typ, d.pkg, d.pos)))
		}
		x.tb.decls = append(x.tb.decls, fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(ss, " "), x.w.sortOf(x.typeOf(d.ret, d.pkg, d.pos))))
		if d.rec && selfRef(d.body, n) { // the limited copy, which does not unfold
			x.tb.decls = append(x.tb.decls, fmt.Sprintf("(declare-fun %s_lim (%s) %s)", n, strings.Join(ss, " "), x.w.sortOf(x.typeOf(d.ret, d.pkg, d.pos))))
		}
	}
	st.assume(x.tb.App(SBool, "<=", x.tb.I(0), top))
	for _, n := range x.sp.defOrd {
		d := x.sp.defs[n]
		if d.rec && !d.opaque && d.body != nil && vis(d.pkg) {
			vars := map[string]SV{}
			var bs, as []*Term
			for _, p := range d.params {
				t := x.typeOf(p.typ, d.pkg, d.pos)
				b := x.tb.BoundVar(p.name, x.w.sortOf(t))
				if bt, ok := t.(*types.Basic); ok && bt.Kind() == types.Int {
					t = mathInt
				}
				vars[p.name] = SV{b, t}
				bs, as = append(bs, b), append(as, b)
			}
			e := &Env{x: x, st: st, old: st, vars: vars, pkg: d.pkg}
			app := x.tb.App(x.w.sortOf(x.typeOf(d.ret, d.pkg, d.pos)), d.name, as...)
			pats := [][]*Term{{app}}
			if len(d.trig) > 0 {
				pats = nil
				for _, ps := range d.trig {
					var pt []*Term
					for _, p := range ps {
						pt = append(pt, patTerm(e.tm(p)))
					}
					pats = append(pats, pt)
				}
			}
			if selfRef(d.body, n) {
				x.limited = n
				st.assume(x.tb.Quant("forall", bs, [][]*Term{{app}}, x.tb.App(SBool, "=", app, x.tb.App(app.sort, n+"_lim", as...))))
			}
			body := x.asTerm(e.eval(d.body).v)
			x.limited = ""
			st.assume(x.tb.Quant("forall", bs, pats, x.tb.Eq(app, body)))
		}
	}
	for _, a := range x.sp.axioms {
		if a == upto {
			break
		}
		if !vis(a.pkg) || x.reveal["-"+a.name] {
			continue
		}
		e := &Env{x: x, st: st, old: st, vars: map[string]SV{}, pkg: a.pkg}
		st.assume(x.asTerm(e.eval(a.e).v))
	}
	x.spec0--
	x.sol = newSolver(x.tb, x.w.decls()+preludeSMT+base.String(), cfg.timeout)
	return st
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func verifyFunc(w *World, sp *Specs, key string, cfg *Config) *FuncResult {
	var r *FuncResult
	for i := 0; i < 4; i++ {
		n := len(w.recList) + len(w.boxList) + len(w.cloList) + len(w.opaque)
		r = verifyOnce(w, sp, key, cfg)
		if len(w.recList)+len(w.boxList)+len(w.cloList)+len(w.opaque) == n {
			break
		}
	}
	return r
}

func verifyOnce(w *World, sp *Specs, key string, cfg *Config) (res *FuncResult) {
	t0 := time.Now()
	x := newExec(w, sp, cfg)
	x.key = key
	res = &FuncResult{Key: key}
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				x.limit = append(x.limit, r.msg)
			case limitErr:
				x.limit = append(x.limit, r.why)
			case specErr:
				x.limit = append(x.limit, "contract: "+r.msg)
			default:
				if os.Getenv("GCV_TRACE") != "" {
					debug.PrintStack()
				}
				x.limit = append(x.limit, fmt.Sprintf("internal: %v", r))
				if cfg.dbg {
					fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", key, r, debug.Stack())
				}
			}
		}
		if x.sol != nil {
			res.Queries = x.sol.queries
			res.SolverMs = x.sol.elapsed.Milliseconds()
			x.sol.close()
		}
		res.Obls = x.obls
		res.Limit = x.limit
		res.Calls = keys(x.calls)
		res.Inlined = keys(x.inlined)
		res.Trusted = keys(x.trusted)
		res.Ext = keys(x.ext)
		res.Shape = x.shape
		res.Paths = x.npaths
		res.Ms = time.Since(t0).Milliseconds()
	}()
	if strings.HasPrefix(key, "lemma:") {
		x.verifyLemma(key[6:], cfg)
		return
	}
	fs := sp.funcs[key]
	fn := w.byKey[key]
	if fn == nil {
		x.limit = append(x.limit, "the function is not in the program")
		return
	}
	res.Pos = x.pos(fn.Pos())
	x.fn, x.spec = fn, fs
	x.loopOrd = map[string]int{}
	x.numberLoops(fn, "", &x.nloops, []*ssa.Function{fn})
	if t, ok := fs.flags["safety"]; ok {
		x.tagDefault = splitTags(t)
	} else {
		x.tagDefault = splitTags(fs.flags["props"])
	}
	splits := []*Clause{nil}
	for _, c := range fs.clauses {
		if c.kind == "split" {
			splits = nil
			for _, s := range strings.Split(c.e.s, "|") {
				splits = append(splits, &Clause{kind: "requires", text: s, e: parseExpr(s, c.pos), pos: c.pos})
			}
		}
	}
	x.reveal = map[string]bool{}
	for _, n := range strings.Split(fs.flags["reveal"], ",") {
		x.reveal[n] = true
	}
	st := x.prepare(fs.pkg, cfg, nil)
	// parameters
	names, typs := specParams(fs, fn.Signature, nil)
	var args []Val
	vars := map[string]SV{}
	for i, n := range names {
		t := x.tb.Fresh("p_"+n, w.sortOf(typs[i]))
		x.typed(st, t, typs[i])
		args = append(args, t)
		vars[n] = SV{t, typs[i]}
	}
	var free []Val
	cells := map[string]SV{}
	for _, f := range fn.FreeVars {
		pt, ok := f.Type().Underlying().(*types.Pointer)
		t := x.tb.Fresh("fv_"+f.Name(), w.sortOf(f.Type()))
		x.typed(st, t, f.Type())
		st.assume(x.tb.Not(x.tb.Eq(t, x.tb.I(0))))
		free = append(free, t)
		if ok {
			cells["&"+f.Name()] = SV{x.deref(t, pt.Elem()), f.Type()}
		}
	}
	// distinct captured variables are distinct cells
	for i := range free {
		for j := 0; j < i; j++ {
			if free[i].(*Term).sort == free[j].(*Term).sort && types.Identical(fn.FreeVars[i].Type(), fn.FreeVars[j].Type()) {
				st.assume(x.tb.Not(x.tb.Eq(free[i].(*Term), free[j].(*Term))))
			}
		}
	}
	x.entry = st.clone()
	env := &Env{x: x, st: st, old: x.entry, vars: vars, pkg: fs.pkg}
	if len(cells) > 0 {
		env.dyn = x.cellDyn(cells)
		o := map[string]SV{}
		for k, v := range cells {
			p := v.v.(*Ptr)
			el := v.typ.Underlying().(*types.Pointer).Elem()
			o[k[1:]] = SV{x.loadPtr(st, p), el}
		}
		env.oldv = o
	}
	x.envTop = env
	for _, c := range fs.clauses {
		if c.kind == "requires" && x.wants(c.tags) {
			st.assume(env.Bool(c.e))
		}
	}
	// the precondition can be met
	if r, why := x.sol.check(x.facts(st), nil, 2000); r == "unsat" {
		x.obls = append(x.obls, &Obl{Func: key, Name: "pre.satisfiable", Kind: "vacuity", Status: "failed", Why: "the precondition is contradictory"})
		return
	} else {
		_ = why
	}
	fc := &FrameCtx{top: x.topNow(st), name: "frame", tags: splitTags(fs.flags["frame"])}
	for _, c := range fs.clauses {
		if c.kind == "modifies" {
			fc.mods = append(fc.mods, env.places(c.e)...)
		}
	}
	x.entry = st.clone()
	env.old = x.entry
	nret := 0
	for _, s := range splits {
		s1 := st.clone()
		if s != nil {
			e := *env
			e.st = s1
			s1.assume(e.Bool(s.e))
		}
		s1.frames = []*FrameCtx{fc}
		outs := x.runFn(s1, fn, args, free, nil)
		for _, o := range outs {
			if o.st.dead {
				continue
			}
			nret++
			x.checkPost(o, fs, fn, env, fc)
		}
	}
	if len(splits) > 1 || splits[0] != nil { // the cases are exhaustive
		any := x.tb.B(false)
		for _, s := range splits {
			any = x.tb.Or(any, env.Bool(s.e))
		}
		s1 := st.clone()
		x.prove(s1, any, "split", "split.exhaustive", nil, fn.Pos(), "the case split covers the precondition")
	}
	if nret == 0 && fs.flags["noreturn"] == "" && len(x.obls) == 0 {
		x.obls = append(x.obls, &Obl{Func: key, Name: "returns", Kind: "vacuity", Status: "failed", Why: "no path returns"})
	}
	for o := range fs.loops {
		if o > x.nloops && x.loopOrd != nil || x.loopOrd == nil && len(fs.loops) > 0 {
			x.limit = append(x.limit, fmt.Sprintf("the contract describes loop %d, which the code does not have", o))
			break
		}
	}
	return
}

func (x *Exec) checkPost(o outcome, fs *FuncSpec, fn *ssa.Function, top *Env, fc *FrameCtx) {
	rv := map[string]SV{}
	sig := fn.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		if i < len(fs.results) {
			rv[fs.results[i]] = SV{o.res[i], rt}
		}
		if sig.Results().Len() == 1 {
			rv["result"] = SV{o.res[i], rt}
		}
	}
	p := *top
	p.st = o.st
	e := &Env{x: x, st: o.st, old: x.entry, vars: rv, parent: &p, pkg: fs.pkg}
	// ghosts not listed as modified keep their value
	for g := range o.st.heap {
		if !strings.HasPrefix(g, "$") {
			continue
		}
		listed := false
		for _, m := range fc.mods {
			if m.comp == g {
				listed = true
			}
		}
		if !listed {
			was := x.heapGet(x.entry, g)
			x.prove(o.st, x.tb.Eq(x.heapGet(o.st, g), was), "frame", "ghost."+g[1:], fc.tags, fn.Pos(), g+" is unchanged")
		}
	}
	for i, c := range fs.clauses {
		if c.kind == "assert" && x.wants(c.tags) {
			x.prove(o.st, e.Bool(c.e), "assert", fmt.Sprintf("assert%d%s", i, nm(c)), c.tags, fn.Pos(), c.text)
		}
	}
	for i, c := range fs.clauses {
		if c.kind == "ensures" && x.wants(c.tags) {
			x.prove(o.st, e.Bool(c.e), "ensures", fmt.Sprintf("post%d%s", i, nm(c)), c.tags, fn.Pos(), c.text)
		}
	}
}

func (x *Exec) verifyLemma(name string, cfg *Config) {
	var a *AxiomSpec
	for _, q := range x.sp.axioms {
		if q.name == name && q.lemma {
			a = q
		}
	}
	if a == nil {
		panic(specErr{"no lemma " + name})
	}
	x.reveal = map[string]bool{}
	for _, n := range a.uses {
		x.reveal[n] = true
	}
	st := x.prepare(a.pkg, cfg, a)
	x.entry = st
	n := a.e
	e := &Env{x: x, st: st, old: st, vars: map[string]SV{}, pkg: a.pkg}
	if n.kind == "quant" && n.s == "forall" {
		vars := map[string]SV{}
		for _, p := range n.vars {
			t := x.typeOf(p.typ, a.pkg, a.pos)
			v := x.tb.Fresh("l_"+p.name, x.w.sortOf(t))
			if bt, ok := t.(*types.Basic); ok && bt.Kind() == types.Int {
				t = mathInt
			}
			vars[p.name] = SV{v, t}
		}
		if a.induct != "" {
			iv := vars[a.induct]
			if iv.v == nil {
				panic(specErr{"no induction variable " + a.induct})
			}
			// hypothesis: the statement for smaller non-negative values
			q := *n
			hyp := &Node{kind: "bin", s: "==>", n: []*Node{
				{kind: "bin", s: "&&", n: []*Node{
					{kind: "bin", s: "<=", n: []*Node{{kind: "num", s: "0"}, {kind: "ident", s: a.induct}}},
					{kind: "bin", s: "<", n: []*Node{{kind: "ident", s: a.induct}, {kind: "ident", s: "$n"}}}}},
				n.n[0]}}
			q.n = []*Node{hyp}
			h := (&Env{x: x, st: st, old: st, vars: map[string]SV{"$n": iv}, pkg: a.pkg}).Bool(&q)
			st.assume(h)
			if l := x.limited_(h); l != nil {
				st.assume(l)
			}
			// the instance for the predecessor
			vs := map[string]SV{}
			for k, v := range vars {
				vs[k] = v
			}
			p := x.tb.Sub(x.asTerm(iv.v), x.tb.I(1))
			vs[a.induct] = SV{p, iv.typ}
			st.assume(x.tb.Imp(x.tb.App(SBool, "<=", x.tb.I(0), p), (&Env{x: x, st: st, old: st, vars: vs, pkg: a.pkg}).Bool(n.n[0])))
		}
		e.vars = vars
		n = n.n[0]
	}
	x.prove(st, e.Bool(n), "lemma", "lemma."+name, a.tags, 0, a.text)
}

// limited_: a hypothesis triggered by the recursive occurrences of an unfolded definition.
func (x *Exec) limited_(h *Term) *Term {
	if h.op != "forall" || len(h.pats) == 0 {
		return nil
	}
	changed := false
	var pats [][]*Term
	for _, ps := range h.pats {
		var qs []*Term
		for _, p := range ps {
			if d := x.sp.defs[p.op]; d != nil && d.rec && !(d.opaque && x.reveal[p.op]) && d.body != nil && selfRef(d.body, p.op) {
				p = x.tb.App(p.sort, p.op+"_lim", p.args...)
				changed = true
			}
			qs = append(qs, p)
		}
		pats = append(pats, qs)
	}
	if !changed {
		return nil
	}
	return x.tb.Quant("forall", h.bound, pats, h.args[0])
}

func selfRef(n *Node, f string) bool {
	if n == nil {
		return false
	}
	if n.kind == "call" && n.n[0].kind == "ident" && n.n[0].s == f {
		return true
	}
	for _, c := range n.n {
		if selfRef(c, f) {
			return true
		}
	}
	return false
}
