package main

// Calls: contracts, inlining, builtins, interface dispatch.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	fr    *Frame
	st    *State
	key   string
	args  []Val
	argv  []ssa.Value // may be nil
	sig   *types.Signature
	pos   token.Pos
	instr ssa.Instruction
}

type intrinsic struct {
	run  func(x *Exec, c *callCtx) []outcome
	mods func(x *Exec, r *resolver, args []Val, argv []ssa.Value, ws *WriteSet)
}

// funcKey names the contract of unknown functions of a type.
func funcKey(t types.Type) string {
	s, ok := t.Underlying().(*types.Signature)
	if !ok {
		return "func:" + typeKey(t)
	}
	k := "func:"
	for i := 0; i < s.Params().Len(); i++ {
		k += typeKey(s.Params().At(i).Type()) + "_"
	}
	for i := 0; i < s.Results().Len(); i++ {
		k += "_" + typeKey(s.Results().At(i).Type())
	}
	return k
}

func invokeKey(cc *ssa.CallCommon) string {
	return ifaceKey(cc.Value.Type()) + "." + cc.Method.Name()
}

func ifaceKey(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name() // error
		}
		p := n.Obj().Pkg().Path()
		p = strings.TrimPrefix(p, "github.com/dpeckett/archivefs/")
		return p + ".(" + n.Obj().Name() + ")"
	}
	return typeKey(t)
}

func (x *Exec) boxOf(ctor string) *Box {
	for _, b := range x.w.boxList {
		if b.ctor == ctor {
			return b
		}
	}
	return nil
}

// methodOf finds the implementation of an interface method for a concrete type.
func (x *Exec) methodOf(t types.Type, m *types.Func) *ssa.Function {
	ms := x.w.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return x.w.prog.MethodValue(sel)
}

func (x *Exec) call(fr *Frame, st *State, cc *ssa.CallCommon, instr ssa.Instruction, fnv Val, args []Val) []outcome {
	pos := instr.Pos()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, cc, b, args, pos)
	}
	if cc.IsInvoke() {
		return x.invoke(fr, st, cc, x.asTerm(fnv), args, instr)
	}
	if c, ok := x.fnVal(fnv).(*Closure); ok {
		return x.callFn(fr, st, c, args, cc.Args, instr)
	}
	if t, ok := fnv.(*Term); ok {
		u := unname(t)
		if u.op == "ite" {
			return x.split(st, u.args[0], func(s *State, b bool) []outcome {
				v := u.args[1]
				if !b {
					v = u.args[2]
				}
				return x.call(fr.fork(), s, cc, instr, v, args)
			})
		}
		// a function value known by a fact
		if c := x.knownClosure(st, t, cc.Signature()); c != nil {
			return x.callFn(fr, st, c, args, cc.Args, instr)
		}
		x.prove(st, x.tb.Not(x.tb.Eq(t, x.tb.Sym("fnil", SFn))), "safety", "nil", x.safetyTags(), pos, "call of a nil function")
		key := funcKey(cc.Value.Type())
		if sp := x.sp.funcs[key]; sp != nil {
			return x.contract(fr, st, sp, cc.Signature(), cc.Value.Type(), append([]Val{t}, args...), instr, key)
		}
	}
	unsup("call of an unknown function value in %s", fr.fn)
	return nil
}

func (x *Exec) split(st *State, c *Term, f func(s *State, b bool) []outcome) []outcome {
	s1 := st.clone()
	s1.assume(c)
	var out []outcome
	if x.feasible(s1) {
		out = append(out, f(s1, true)...)
	}
	st.assume(x.tb.Not(c))
	if x.feasible(st) {
		out = append(out, f(st, false)...)
	}
	if len(out) == 0 {
		st.dead = true
		return []outcome{{st, nil}}
	}
	return out
}

func (x *Exec) knownClosure(st *State, t *Term, sig *types.Signature) *Closure {
	for _, c := range x.w.cloList {
		if types.Identical(c.fn.Signature, sig) && x.entails(st, x.tb.Is(c.ctor, t)) {
			st.assume(x.tb.Is(c.ctor, t))
			break
		}
	}
	for f := st.facts; f != nil; f = f.parent {
		if strings.HasPrefix(f.t.op, "is:clo_") && f.t.args[0] == t {
			for _, c := range x.w.cloList {
				if c.ctor == f.t.op[3:] {
					cl := &Closure{fn: c.fn}
					for i, s := range c.sort {
						v := x.tb.Sel(c.ctor, i, fmt.Sprintf("%s_%d", c.ctor, i), s, t)
						x.typed(st, v, c.fn.FreeVars[i].Type())
						cl.bind = append(cl.bind, v)
					}
					return cl
				}
			}
		}
	}
	return nil
}

// invoke dispatches an interface method call.
func (x *Exec) invoke(fr *Frame, st *State, cc *ssa.CallCommon, recv *Term, args []Val, instr ssa.Instruction) []outcome {
	tb := x.tb
	u := unname(recv)
	if u.op == "ite" {
		return x.split(st, u.args[0], func(s *State, b bool) []outcome {
			v := u.args[1]
			if !b {
				v = u.args[2]
			}
			return x.invoke(fr.fork(), s, cc, v, args, instr)
		})
	}
	x.prove(st, tb.Not(tb.Eq(recv, tb.Sym("anil", SAny))), "safety", "nil", x.safetyTags(), instr.Pos(), "method "+cc.Method.Name()+" of a nil interface")
	if u.op == "anil" {
		st.dead = true
		return []outcome{{st, nil}}
	}
	var b *Box
	if strings.HasPrefix(u.op, "box_") {
		b = x.boxOf(u.op)
	} else {
		for f := st.facts; f != nil; f = f.parent {
			if strings.HasPrefix(f.t.op, "is:box_") && (f.t.args[0] == recv || unname(f.t.args[0]) == u) {
				b = x.boxOf(f.t.op[3:])
				break
			}
		}
	}
	key := invokeKey(cc)
	if b != nil {
		fn := x.methodOf(b.typ, cc.Method)
		if fn == nil {
			unsup("no method %s on %s", cc.Method.Name(), b.typ)
		}
		rv := x.typed(st, x.unbox(b, recv), b.typ)
		if fn.Synthetic != "" { // promoted or wrapped
			if in := x.unwrap(fr, st, fn, b, rv, cc, args, instr); in != nil {
				return in
			}
		}
		return x.callFn(fr, st, &Closure{fn: fn}, append([]Val{rv}, args...), nil, instr)
	}
	sig := cc.Method.Type().(*types.Signature)
	if sp := x.sp.funcs[key]; sp != nil {
		return x.contract(fr, st, sp, sig, cc.Value.Type(), append([]Val{recv}, args...), instr, key)
	}
	if in, ok := intrinsics[key]; ok {
		x.ext[key] = true
		return in.run(x, &callCtx{fr: fr, st: st, key: key, args: append([]Val{recv}, args...), sig: sig, pos: instr.Pos(), instr: instr})
	}
	unsup("call of the interface method %s in %s", key, fr.fn)
	return nil
}

// unwrap handles methods promoted through embedding (synthetic wrappers).
func (x *Exec) unwrap(fr *Frame, st *State, fn *ssa.Function, b *Box, rv *Term, cc *ssa.CallCommon, args []Val, instr ssa.Instruction) []outcome {
	if fn.Blocks == nil {
		return nil
	}
	return x.inline(fr, st, fn, append([]Val{rv}, args...), nil, instr)
}

func (x *Exec) callFn(fr *Frame, st *State, c *Closure, args []Val, argv []ssa.Value, instr ssa.Instruction) []outcome {
	fn := c.fn
	key := fnKey(fn)
	if sp := x.sp.funcs[key]; sp != nil && !x.inlines(sp, fn, len(c.bind)) {
		a := args
		if len(c.bind) > 0 {
			return x.contractClosure(fr, st, sp, fn, c, a, instr, key)
		}
		return x.contract(fr, st, sp, fn.Signature, nil, a, instr, key)
	}
	if in, ok := intrinsics[key]; ok {
		x.ext[key] = true
		return in.run(x, &callCtx{fr: fr, st: st, key: key, args: args, argv: argv, sig: fn.Signature, pos: instr.Pos(), instr: instr})
	}
	if fn.Blocks != nil && (x.w.inRepo(fn) || fn.Synthetic != "" || fn.Parent() != nil) {
		return x.inline(fr, st, fn, args, c.bind, instr)
	}
	unsup("call of %s", key)
	return nil
}

// inlines: the contract asks for the function to be inlined at its calls.
func (x *Exec) inlines(sp *FuncSpec, fn *ssa.Function, bound int) bool {
	return sp.flags["inline"] != "" && (fn.Parent() == nil || bound > 0)
}

func (x *Exec) inline(fr *Frame, st *State, fn *ssa.Function, args, free []Val, instr ssa.Instruction) []outcome {
	x.inlined[fnKey(fn)] = true
	outs := x.runFnI(st, fn, args, free, fr, instr)
	var live []outcome
	for _, o := range outs {
		if !o.st.dead {
			live = append(live, o)
		}
	}
	if len(live) == 0 {
		st.dead = true
		n := fn.Signature.Results().Len()
		rs := make([]Val, n)
		for i := range rs {
			rs[i] = x.zero(fn.Signature.Results().At(i).Type())
		}
		return []outcome{{st, rs}}
	}
	return live
}

func (x *Exec) runFnI(st *State, fn *ssa.Function, args, free []Val, caller *Frame, instr ssa.Instruction) []outcome {
	x.pendingCall = instr
	return x.runFn(st, fn, args, free, caller)
}

// specParams names the parameters of a contract.
func specParams(sp *FuncSpec, sig *types.Signature, recvT types.Type) ([]string, []types.Type) {
	var typs []types.Type
	if sig.Recv() != nil && recvT == nil {
		typs = append(typs, sig.Recv().Type())
	} else if recvT != nil {
		typs = append(typs, recvT)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		typs = append(typs, sig.Params().At(i).Type())
	}
	if len(sp.params) != len(typs) {
		panic(specErr{fmt.Sprintf("%s: contract of %s names %d parameters, the function has %d", sp.pos, sp.key, len(sp.params), len(typs))})
	}
	return sp.params, typs
}

func (x *Exec) contractClosure(fr *Frame, st *State, sp *FuncSpec, fn *ssa.Function, c *Closure, args []Val, instr ssa.Instruction, key string) []outcome {
	x.closureEnv = map[string]SV{}
	for i, f := range fn.FreeVars {
		pt, ok := f.Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		x.closureEnv["&"+f.Name()] = SV{x.deref(c.bind[i], pt.Elem()), f.Type()}
	}
	defer func() { x.closureEnv = nil }()
	return x.contract(fr, st, sp, fn.Signature, nil, args, instr, key)
}

// cellDyn resolves captured variables through their cells.
func (x *Exec) cellDyn(cells map[string]SV) func(st *State, name string) (SV, bool) {
	return func(st *State, name string) (SV, bool) {
		if v, ok := cells[name]; ok {
			return v, true
		}
		if v, ok := cells["&"+name]; ok {
			p := v.v.(*Ptr)
			el := v.typ.Underlying().(*types.Pointer).Elem()
			return SV{x.typed(st, x.loadPtr(st, p), el), el}, true
		}
		return SV{}, false
	}
}

// contract applies a contract at a call site.
func (x *Exec) contract(fr *Frame, st *State, sp *FuncSpec, sig *types.Signature, recvT types.Type, args []Val, instr ssa.Instruction, key string) []outcome {
	sp.used = true
	if sp.extern {
		x.trusted["contract of "+key] = true
	} else {
		x.calls[key] = true
	}
	names, typs := specParams(sp, sig, recvT)
	if sp.flags["mirror"] != "" {
		for i := range args {
			args[i] = x.mirror(st, args[i])
		}
	}
	vars := map[string]SV{}
	for i, n := range names {
		vars[n] = SV{args[i], typs[i]}
	}
	pre := st.clone()
	env := &Env{x: x, st: st, old: pre, vars: vars, pkg: sp.pkg}
	if x.closureEnv != nil {
		env.dyn = x.cellDyn(x.closureEnv)
		x.closureEnv = nil
	}
	pos := instr.Pos()
	short := key
	for _, c := range sp.clauses {
		if c.kind == "requires" && x.wants(c.tags) {
			x.prove(st, env.Bool(c.e), "requires", "call."+short+".pre"+nm(c), c.tags, pos, c.text)
		}
	}
	if x.spec != nil && x.key == key {
		x.recursionCheck(st, env, sp, pos)
	}
	pre = st.clone()
	env.old = pre
	var mods []*ModTarget
	for _, c := range sp.clauses {
		if c.kind == "modifies" {
			if c.when != nil && x.entails(st, x.tb.Not(env.Bool(c.when))) {
				continue
			}
			ms := env.places(c.e)
			for _, m := range ms {
				if strings.HasPrefix(m.comp, "$") {
					continue
				}
				x.checkMod(st, m, pos)
			}
			mods = append(mods, ms...)
		}
	}
	x.newTopIf(st, sp, key, sig)
	x.havocTargets(st, pre, mods, x.topNow(pre))
	var res []Val
	rv := map[string]SV{}
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		t := x.tb.Fresh("r_"+lastDot(key), x.w.sortOf(rt))
		x.typed(st, t, rt)
		res = append(res, t)
		if i < len(sp.results) {
			rv[sp.results[i]] = SV{t, rt}
		}
		if sig.Results().Len() == 1 {
			rv["result"] = SV{t, rt}
		}
	}
	post := &Env{x: x, st: st, old: pre, vars: rv, parent: env, pkg: sp.pkg}
	env.st = st
	for _, c := range sp.clauses {
		if c.kind == "ensures" && x.wants(c.tags) {
			st.assume(post.Bool(c.e))
		}
	}
	if st.dead {
		return []outcome{{st, res}}
	}
	return []outcome{{st, res}}
}

// mirror makes an embedded struct that is passed by its address an object of its
// own, for a callee that only reads it.
func (x *Exec) mirror(st *State, v Val) Val {
	p, ok := v.(*Ptr)
	if t, isT := v.(*Term); isT {
		p, ok = x.iptrs[unname(t)]
	}
	if !ok || p == nil || len(p.path) == 0 || x.w.rec(p.elem) == nil {
		return v
	}
	tb := x.tb
	t := x.asTerm(p)
	q := &Ptr{comp: x.w.compFor(p.elem), ref: t, root: p.elem, elem: p.elem}
	x.compSort(q.comp, p.elem)
	x.heapSet(st, q.comp, tb.Store(x.heapGet(st, q.comp), t, x.loadPtr(st, p)))
	st.assume(tb.And(tb.App(SBool, "<=", tb.I(1), t), tb.App(SBool, "<=", t, x.topNow(st)), tb.App(SBool, "=", tb.App(SInt, "rtype", t), tb.I(x.w.rtag(p.elem)))))
	st.assume(tb.App(SBool, "imark", t))
	x.mirrored = append(x.mirrored, t)
	delete(x.iptrs, t)
	return t
}

func lastDot(s string) string {
	if i := strings.LastIndex(s, "."); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (x *Exec) newTopIf(st *State, sp *FuncSpec, key string, sig *types.Signature) {
	if sp.flags["noalloc"] != "" {
		return
	}
	was := x.topNow(st)
	x.newTop(st)
	switch {
	case sp.extern:
		if !mayCallBack(sig) || sp.flags["noobjs"] != "" {
			x.newObjs(st, was, &allocSet{}) // external code creates no objects of the repository's struct types
		}
	case x.w.byKey[key] != nil:
		x.newObjs(st, was, x.allocOf(x.w.byKey[key]))
	}
}

// checkMod: a callee's modifies target must be allowed by the frames in force.
func (x *Exec) checkMod(st *State, m *ModTarget, pos token.Pos) {
	if m.ref == nil {
		for _, fc := range st.frames {
			ok := false
			for _, q := range fc.mods {
				if q.comp == m.comp && q.ref == nil {
					ok = true
				}
			}
			if !ok {
				x.prove(st, x.tb.B(false), "frame", fc.name, fc.tags, pos, "callee may modify any "+m.comp)
			}
		}
		return
	}
	x.checkWrite(st, m.comp, m.ref, m.path, pos)
}

// recursionCheck proves that the measure of a recursive call decreases.
func (x *Exec) recursionCheck(st *State, env *Env, sp *FuncSpec, pos token.Pos) {
	var now, then []*Term
	var tags []string
	for _, c := range sp.clauses {
		if c.kind == "decreases" {
			now = append(now, x.asTerm(env.Term(c.e).v))
			e := *x.envTop
			e.st = x.entry
			then = append(then, x.asTerm(e.Term(c.e).v))
			tags = c.tags
		}
	}
	tb := x.tb
	goal := tb.B(false)
	for i := len(now) - 1; i >= 0; i-- {
		goal = tb.Or(tb.And(tb.Lt(now[i], then[i]), tb.Le(tb.I(0), then[i])), tb.And(tb.Eq(now[i], then[i]), goal))
	}
	if len(now) > 0 || x.needTermination() {
		x.prove(st, goal, "decreases", "recursion", tags, pos, "the measure of the recursive call decreases")
	}
}

func (x *Exec) builtin(fr *Frame, st *State, cc *ssa.CallCommon, b *ssa.Builtin, args []Val, pos token.Pos) []outcome {
	tb := x.tb
	switch b.Name() {
	case "len":
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return one(st, x.slen(x.asTerm(args[0])))
		case *types.Basic:
			return one(st, x.strLen(x.asTerm(args[0])))
		case *types.Array:
			return one(st, tb.I(u.Len()))
		case *types.Map:
			if sm, ok := args[0].(*SMap); ok {
				_ = sm
				unsup("len of a structural map")
			}
			md, _ := x.mapComps(u)
			t := x.mapLen(tb.Select(x.heapGet(st, md), x.asTerm(args[0])))
			st.assume(tb.And(tb.App(SBool, "<=", tb.I(0), t), tb.App(SBool, "<=", t, tb.Num(maxInt64))))
			x.nonneg(t)
			return one(st, t)
		case *types.Pointer:
			return one(st, tb.I(u.Elem().Underlying().(*types.Array).Len()))
		}
	case "cap":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			return one(st, x.scap(x.asTerm(args[0])))
		}
	case "min", "max":
		t := x.asTerm(args[0])
		if t.sort != SInt {
			unsup("min of %s", t.sort)
		}
		for _, a := range args[1:] {
			q := x.asTerm(a)
			if b.Name() == "min" {
				t = tb.Ite(tb.Le(t, q), t, q)
			} else {
				t = tb.Ite(tb.Le(q, t), t, q)
			}
		}
		return one(st, t)
	case "append":
		return one(st, x.appendTo(st, cc.Args[0].Type(), x.asTerm(args[0]), args[1], cc.Args[1].Type()))
	case "copy":
		dt := cc.Args[0].Type().Underlying().(*types.Slice)
		d := x.asTerm(args[0])
		comp := "E_" + typeKey(dt.Elem())
		x.compSort(comp, dt.Elem())
		h := x.heapGet(st, comp)
		var n, srcArr, srcOff *Term
		s := x.asTerm(args[1])
		if s.sort == SStr {
			n = x.strLen(s)
			srcArr, srcOff = tb.App("(Array Int Int)", "s2arr", s), tb.I(0)
		} else {
			n = x.slen(s)
			srcArr, srcOff = tb.Select(h, x.sarr(s)), x.soff(s)
		}
		n = tb.Ite(tb.Le(x.slen(d), n), x.slen(d), n)
		x.nonneg(n)
		zero := n.num != nil && n.num.Sign() == 0
		if !zero {
			// a zero-length copy writes nothing
			for _, fc := range st.frames {
				if !tb.Lt(fc.top, x.sarr(d)).isTrue() {
					x.checkWriteIf(st, tb.Lt(tb.I(0), n), comp, x.sarr(d), nil, pos)
					break
				}
			}
			na := x.blit(tb.Select(h, x.sarr(d)), x.soff(d), n, srcArr, srcOff)
			x.heapSet(st, comp, tb.Store(h, x.sarr(d), na))
		}
		return one(st, n)
	case "panic":
		x.prove(st, tb.B(false), "safety", "panic", x.safetyTags(), pos, "panic is reachable")
		st.dead = true
		return one(st)
	case "ssa:wrapnilchk":
		return one(st, args[0])
	}
	unsup("builtin %s", b.Name())
	return nil
}

func (x *Exec) checkWriteIf(st *State, c *Term, comp string, ref *Term, path []PathEl, pos token.Pos) {
	for _, fc := range st.frames {
		alts := []*Term{x.tb.Lt(fc.top, ref), x.tb.Not(c)}
		for _, m := range fc.mods {
			if m.comp != comp {
				continue
			}
			if m.ref == nil {
				alts = append(alts, x.tb.B(true))
			} else {
				alts = append(alts, x.tb.Eq(m.ref, ref))
			}
		}
		x.prove(st, x.tb.Or(alts...), "frame", fc.name, fc.tags, pos, "write to "+comp+" outside the modifies clause")
	}
}

func (x *Exec) mapLen(dom *Term) *Term {
	op := "card_" + sanitizeSym(dom.sort)
	x.declFun(op, []*Term{dom}, SInt)
	return x.tb.App(SInt, op, dom)
}

// blit is dst with n elements from off replaced by src[soff..].
func (x *Exec) blit(dst, off, n, src, soff *Term) *Term {
	op := "blit_" + sanitizeSym(arrElem(dst.sort))
	x.needBlit(arrElem(dst.sort))
	return x.tb.App(dst.sort, op, dst, off, n, src, soff)
}

func (x *Exec) needBlit(el Sort) {
	op := "blit_" + sanitizeSym(el)
	if x.globs["fun:"+op] != nil {
		return
	}
	as := "(Array Int " + el + ")"
	x.globs["fun:"+op] = x.tb.I(1)
	x.tb.decls = append(x.tb.decls, fmt.Sprintf("(declare-fun %s (%s Int Int %s Int) %s)", op, as, as, as))
	tb := x.tb
	d, o, n, s, so, i := tb.BoundVar("d", as), tb.BoundVar("o", SInt), tb.BoundVar("n", SInt), tb.BoundVar("s", as), tb.BoundVar("so", SInt), tb.BoundVar("i", SInt)
	bl := tb.App(as, op, d, o, n, s, so)
	sel := tb.App(el, "select", bl, i)
	x.lemmaFacts = append(x.lemmaFacts, tb.Quant("forall", []*Term{d, o, n, s, so, i}, [][]*Term{{sel}},
		tb.App(SBool, "=", sel, tb.App(el, "ite", tb.And(tb.App(SBool, "<=", o, i), tb.App(SBool, "<", i, tb.App(SInt, "+", o, n))),
			tb.App(el, "select", s, tb.App(SInt, "+", so, tb.App(SInt, "-", i, o))), tb.App(el, "select", d, i)))))
}

// appendTo models append as copying to a new array.
func (x *Exec) appendTo(st *State, t types.Type, s *Term, more Val, mt types.Type) *Term {
	tb := x.tb
	el := t.Underlying().(*types.Slice).Elem()
	comp := "E_" + typeKey(el)
	x.compSort(comp, el)
	h := x.heapGet(st, comp)
	m := x.asTerm(more)
	var n, arr, off *Term
	if m.sort == SStr {
		n, arr, off = x.strLen(m), tb.App("(Array Int Int)", "s2arr", m), tb.I(0)
	} else {
		n, arr, off = x.slen(m), tb.Select(h, x.sarr(m)), x.soff(m)
	}
	if n.num != nil && n.num.Sign() == 0 {
		return s
	}
	x.trusted["append never writes to a live part of its argument's backing array (results are modelled as fresh arrays)"] = true
	total := tb.Add(x.slen(s), n)
	ref := x.alloc(st)
	var na *Term
	if x.slen(s).num != nil && x.slen(s).num.Sign() == 0 {
		if n.num != nil && n.num.IsInt64() && n.num.Int64() <= 8 {
			na = tb.App("(Array Int "+x.w.sortOf(el)+")", "constarr", x.zero(el))
			for i := int64(0); i < n.num.Int64(); i++ {
				na = tb.Store(na, tb.I(i), tb.Select(arr, tb.Add(off, tb.I(i))))
			}
		} else {
			na = x.blit(tb.App("(Array Int "+x.w.sortOf(el)+")", "constarr", x.zero(el)), tb.I(0), n, arr, off)
		}
	} else {
		base := tb.Select(h, x.sarr(s))
		if !(x.soff(s).num != nil && x.soff(s).num.Sign() == 0) {
			base = x.blit(tb.App("(Array Int "+x.w.sortOf(el)+")", "constarr", x.zero(el)), tb.I(0), x.slen(s), base, x.soff(s))
		}
		if n.num != nil && n.num.IsInt64() && n.num.Int64() <= 8 {
			na = base
			for i := int64(0); i < n.num.Int64(); i++ {
				na = tb.Store(na, tb.Add(x.slen(s), tb.I(i)), tb.Select(arr, tb.Add(off, tb.I(i))))
			}
		} else {
			na = x.blit(base, x.slen(s), n, arr, off)
		}
	}
	x.heapSet(st, comp, tb.Store(h, ref, na))
	cp := tb.Fresh("cap", SInt)
	x.nonneg(cp)
	st.assume(tb.App(SBool, "<=", total, cp))
	st.assume(tb.App(SBool, "<=", cp, tb.Num(maxInt64)))
	// lengths that do not fit in memory end the program, so they never get this far
	return x.mkslc(ref, tb.I(0), total, cp)
}

// ---------- hooks ----------

func (x *Exec) hookLoad(fr *Frame, st *State, p *Ptr, pos token.Pos) {}

// hookStore: objects of protected types are only written before they are shared.
func (x *Exec) hookStore(fr *Frame, st *State, p *Ptr, pos token.Pos) {
	for _, g := range x.sp.guards {
		if g.kind != "private" && g.kind != "frozen" || x.spec0 > 0 {
			continue
		}
		if x.guardComp(g) != p.comp {
			continue
		}
		if g.kind == "frozen" {
			x.prove(st, x.tb.Lt(x.topNow(x.entry), p.ref), "sharing", "write-after-construction", g.tags, pos, "write to a "+g.typ+" that this call did not create")
		}
		x.csort["$shared"] = "(Array Int Bool)"
		sh := x.tb.Select(x.heapGet(st, "$shared"), p.ref)
		x.prove(st, x.tb.Not(sh), "sharing", "write-after-publication", g.tags, pos, "write to a "+g.typ+" that other goroutines can see")
	}
}

func (x *Exec) guardComp(g *Guard) string {
	t := x.typeOf(g.typ, g.pkg, "guard")
	return x.w.compFor(t)
}

// guardedMap reports whether maps of this type are protected by a lock.
func (x *Exec) guardedMap(mt *types.Map) bool {
	for _, g := range x.sp.guards {
		if g.kind != "locked" {
			continue
		}
		r := x.w.rec(x.typeOf(g.typ, g.pkg, "guard"))
		if fi, ok := r.fields[g.field]; ok && types.Identical(r.types[fi].Underlying(), mt) {
			return true
		}
	}
	return false
}

// hookMap: accesses of a protected map happen with its lock held, and values
// put into it become shared.
func (x *Exec) hookMap(fr *Frame, st *State, m *Term, mt *types.Map, k, v *Term, write bool, pos token.Pos) {
	for _, g := range x.sp.guards {
		if g.kind != "locked" || x.spec0 > 0 {
			continue
		}
		t := x.typeOf(g.typ, g.pkg, "guard")
		r := x.w.rec(t)
		fi, ok := r.fields[g.field]
		if !ok || !types.Identical(r.types[fi].Underlying(), mt) {
			continue
		}
		comp := x.w.compFor(t)
		x.compSort(comp, t)
		x.csort["$held"] = SInt
		held := x.heapGet(st, "$held")
		cur := x.recSel(r, fi, x.tb.Select(x.heapGet(st, comp), held))
		x.prove(st, x.tb.And(x.tb.Not(x.tb.Eq(held, x.tb.I(0))), x.tb.Eq(cur, m)), "locking", "lock-held", g.tags, pos, "access to "+g.typ+"."+g.field+" without holding its lock")
		if write && v != nil && g.put != "" {
			// Others may have been there since the lock was last released.
			has, old := x.mapGet(st, m, k, mt)
			env := &Env{x: x, st: st, old: st, vars: map[string]SV{"had": {has, types.Typ[types.Bool]}, "o": {old, mt.Elem()}, "n": {v, mt.Elem()}}, pkg: g.pkg}
			ok := env.Bool(&Node{kind: "call", n: []*Node{{kind: "ident", s: g.put}, {kind: "ident", s: "had"}, {kind: "ident", s: "o"}, {kind: "ident", s: "n"}}})
			x.prove(st, ok, "locking", "put", g.tags, pos, "what is in "+g.typ+"."+g.field+" is replaced only as "+g.put+" allows")
		}
		if write && v != nil {
			x.publish(st, v)
		}
	}
}

// publish marks an object stored in a shared structure, and what it points to, as shared.
func (x *Exec) publish(st *State, v *Term) {
	u := unname(v)
	b := x.boxOf(u.op)
	if b == nil {
		return
	}
	pt, ok := b.typ.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	x.csort["$shared"] = "(Array Int Bool)"
	ref := x.asTerm(u.args[0])
	sh := x.tb.Store(x.heapGet(st, "$shared"), ref, x.tb.B(true))
	if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
		r := x.w.rec(pt.Elem())
		for i := 0; i < s.NumFields(); i++ {
			if _, isP := s.Field(i).Type().Underlying().(*types.Pointer); isP {
				p := x.deref(ref, pt.Elem())
				f := x.recSel(r, x.fieldIdx(pt.Elem(), i), x.tb.Select(x.heapGet(st, p.comp), ref))
				sh = x.tb.Store(sh, f, x.tb.B(true))
			}
		}
	}
	st.heap["$shared"] = sh
}

// hookAlloc: bounded allocations.
func (x *Exec) hookAlloc(fr *Frame, st *State, n *Term, el types.Type, pos token.Pos) {
	if x.spec == nil {
		return
	}
	f, ok := x.spec.flags["alloc"]
	if !ok {
		return
	}
	// alloc=C05:65536
	tag, lim, _ := strings.Cut(f, ":")
	var l int64
	fmt.Sscan(lim, &l)
	sz := types.SizesFor("gc", "amd64").Sizeof(el)
	x.prove(st, x.tb.Le(x.tb.Mul(n, x.tb.I(sz)), x.tb.I(l)), "allocation", "alloc-bound", []string{tag}, pos, fmt.Sprintf("allocation of at most %d bytes", l))
}
