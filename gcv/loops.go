package main

// Loops: invariants, havoc, preservation, termination measures.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// WriteSet is a conservative description of what a piece of code may modify.
type WriteSet struct {
	known   []*ModTarget // locations with a base that does not change
	unknown map[string]bool
	all     string // reason why anything may be modified
	allocs  bool
}

func (ws *WriteSet) add(m *ModTarget) {
	for _, k := range ws.known {
		if k.comp == m.comp && k.ref == m.ref && samePath(k.path, m.path) {
			return
		}
	}
	ws.known = append(ws.known, m)
}

func samePath(a, b []PathEl) bool {
	if len(a) != len(b) {
		return false
	}
	return pathPrefix(a, b)
}

// resolver maps SSA values to values that are fixed during the analysed code.
type resolver struct {
	argv   []ssa.Value // of the call at hand
	x      *Exec
	fr     *Frame
	fn     *ssa.Function
	inside map[*ssa.BasicBlock]bool // nil: everything is inside
	args   map[ssa.Value]Val        // parameters and free variables with fixed values
	fresh  map[ssa.Value]bool
	depth  int
	stack  []*ssa.Function
}

func (r *resolver) val(v ssa.Value) (Val, bool) {
	if r.args != nil {
		if a, ok := r.args[v]; ok {
			return a, a != nil
		}
	}
	switch v := v.(type) {
	case *ssa.Const:
		return r.x.constantSafe(v)
	case *ssa.Function:
		return &Closure{fn: v}, true
	case *ssa.Global:
		return r.x.globalPtr(v), true
	case *ssa.FreeVar:
		if r.fr != nil && r.fr.fn == r.fn {
			for i, f := range r.fn.FreeVars {
				if f == v {
					return r.fr.free[i], true
				}
			}
		}
		return nil, false
	case *ssa.Parameter:
		if r.fr != nil && r.fr.fn == r.fn {
			a, ok := r.fr.regs[v]
			return a, ok
		}
		return nil, false
	case *ssa.MakeClosure:
		c := &Closure{fn: v.Fn.(*ssa.Function)}
		for _, b := range v.Bindings {
			bv, ok := r.val(b)
			if !ok {
				bv = nil
			}
			c.bind = append(c.bind, bv)
		}
		return c, true
	case *ssa.MakeInterface:
		if a, ok := r.val(v.X); ok {
			return r.x.boxVal(a, v.X.Type()), true
		}
		return nil, false
	case *ssa.ChangeType:
		return r.val(v.X)
	case *ssa.ChangeInterface:
		return r.val(v.X)
	}
	in, ok := v.(ssa.Instruction)
	if !ok || r.inside == nil || r.inside[in.Block()] {
		return nil, false
	}
	if r.fr != nil && r.fr.fn == r.fn {
		a, ok := r.fr.regs[v]
		return a, ok
	}
	return nil, false
}

func (x *Exec) constantSafe(c *ssa.Const) (v Val, ok bool) {
	defer func() {
		if recover() != nil {
			v, ok = nil, false
		}
	}()
	return x.constant(c), true
}

// isFresh: the value is an object allocated inside the analysed code.
func (r *resolver) isFresh(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return r.inside == nil || r.inside[v.(ssa.Instruction).Block()]
	case *ssa.Slice:
		return r.isFresh(v.X)
	case *ssa.Parameter, *ssa.FreeVar:
		return r.fresh[v]
	}
	return false
}

// place resolves an address.
func (r *resolver) place(v ssa.Value) (m *ModTarget, comp string, fresh bool) {
	x := r.x
	if r.isFresh(v) {
		return nil, "", true
	}
	if a, ok := r.val(v); ok {
		if pt, isP := v.Type().Underlying().(*types.Pointer); isP {
			p := x.deref(a, pt.Elem())
			return &ModTarget{comp: p.comp, ref: p.ref, path: p.path}, p.comp, false
		}
	}
	switch v := v.(type) {
	case *ssa.FieldAddr:
		m, comp, fresh := r.place(v.X)
		if fresh {
			return nil, "", true
		}
		if m != nil {
			elem := v.X.Type().Underlying().(*types.Pointer).Elem()
			c := *m
			c.path = append(append([]PathEl{}, m.path...), PathEl{field: x.fieldIdx(elem, v.Field)})
			return &c, c.comp, false
		}
		return nil, comp, false
	case *ssa.IndexAddr:
		switch u := v.X.Type().Underlying().(type) {
		case *types.Slice:
			comp := "E_" + typeKey(u.Elem())
			x.compSort(comp, u.Elem())
			if r.isFresh(v.X) {
				return nil, "", true
			}
			if a, ok := r.val(v.X); ok {
				return &ModTarget{comp: comp, ref: x.sarr(x.asTerm(a))}, comp, false
			}
			return nil, comp, false
		case *types.Pointer:
			m, comp, fresh := r.place(v.X)
			return m, comp, fresh
		}
	}
	if pt, isP := v.Type().Underlying().(*types.Pointer); isP {
		p := x.deref(x.tb.I(0), pt.Elem())
		return nil, p.comp, false
	}
	return nil, "?", false
}

func (x *Exec) writeSet(fr *Frame, lp *loop) *WriteSet {
	ws := &WriteSet{unknown: map[string]bool{}}
	r := &resolver{x: x, fr: fr, fn: fr.fn, inside: lp.blocks}
	for b := range lp.blocks {
		x.wsBlock(r, b, ws)
	}
	return ws
}

func (x *Exec) wsBlock(r *resolver, b *ssa.BasicBlock, ws *WriteSet) {
	addPlace := func(v ssa.Value) {
		m, comp, fresh := r.place(v)
		switch {
		case fresh:
		case m != nil:
			ws.add(m)
		default:
			ws.unknown[comp] = true
		}
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Store:
			addPlace(in.Addr)
		case *ssa.MapUpdate:
			mt := in.Map.Type().Underlying().(*types.Map)
			if _, ptr := mt.Key().Underlying().(*types.Pointer); ptr {
				continue
			}
			md, mv := x.mapComps(mt)
			if x.guardedMap(mt) {
				ws.add(&ModTarget{comp: "$shared"})
			}
			if r.isFresh(in.Map) {
				continue
			}
			if a, ok := r.val(in.Map); ok {
				if t, ok := a.(*Term); ok {
					ws.add(&ModTarget{comp: md, ref: t})
					ws.add(&ModTarget{comp: mv, ref: t})
					continue
				}
			}
			ws.unknown[md], ws.unknown[mv] = true, true
		case *ssa.Call:
			x.wsCall(r, &in.Call, ws)
		case *ssa.Defer:
			x.wsCall(r, &in.Call, ws)
		case *ssa.Go, *ssa.Send, *ssa.Select:
			ws.all = "concurrency"
		}
	}
}

func (x *Exec) wsCall(r *resolver, cc *ssa.CallCommon, ws *WriteSet) {
	if x.wsDepthExceeded(r) {
		ws.all = "call depth"
		return
	}
	var args []Val
	var fresh []bool
	for _, a := range cc.Args {
		v, ok := r.val(a)
		if !ok {
			v = nil
		}
		args = append(args, v)
		fresh = append(fresh, r.isFresh(a))
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		switch f.Name() {
		case "copy":
			u := cc.Args[0].Type().Underlying().(*types.Slice)
			comp := "E_" + typeKey(u.Elem())
			x.compSort(comp, u.Elem())
			if fresh[0] {
				return
			}
			if args[0] != nil {
				ws.add(&ModTarget{comp: comp, ref: x.sarr(x.asTerm(args[0]))})
			} else {
				ws.unknown[comp] = true
			}
		case "delete", "clear":
			ws.all = f.Name()
		}
		return
	}
	if cc.IsInvoke() {
		recv, ok := r.val(cc.Value)
		if ok {
			if t, isT := recv.(*Term); isT {
				if u := unname(t); strings.HasPrefix(u.op, "box_") {
					if b := x.boxOf(u.op); b != nil {
						if fn := x.methodOf(b.typ, cc.Method); fn != nil {
							x.wsStatic(r, fn, append([]Val{u.args[0]}, args...), append([]bool{false}, fresh...), nil, ws)
							return
						}
					}
				}
			}
		}
		key := invokeKey(cc)
		if sp := x.sp.funcs[key]; sp != nil {
			sig := cc.Method.Type().(*types.Signature)
			if recv == nil || !ok {
				recv = nil
			}
			x.wsSpec(r, sp, sig, cc.Value.Type(), append([]Val{recv}, args...), ws)
			return
		}
		if in, ok := intrinsics[key]; ok {
			if in.mods != nil {
				in.mods(x, r, append([]Val{recv}, args...), append([]ssa.Value{cc.Value}, cc.Args...), ws)
			}
			return
		}
		ws.all = "call of " + key
		return
	}
	if fn, ok := cc.Value.(*ssa.Function); ok {
		r.argv = cc.Args
		x.wsStatic(r, fn, args, fresh, nil, ws)
		return
	}
	if v, ok := r.val(cc.Value); ok {
		if c, ok := x.fnVal(v).(*Closure); ok {
			x.wsStatic(r, c.fn, args, fresh, c.bind, ws)
			return
		}
	}
	if sp := x.sp.funcs[funcKey(cc.Value.Type())]; sp != nil {
		x.wsSpec(r, sp, cc.Signature(), cc.Value.Type(), append([]Val{nil}, args...), ws)
		return
	}
	ws.all = "call of a function value"
}

func (x *Exec) wsDepthExceeded(r *resolver) bool { return r.depth > 12 }

func (x *Exec) wsStatic(r *resolver, fn *ssa.Function, args []Val, fresh []bool, bind []Val, ws *WriteSet) {
	key := fnKey(fn)
	if sp := x.sp.funcs[key]; sp != nil && !x.inlines(sp, fn, len(bind)) {
		x.wsSpec(r, sp, fn.Signature, nil, args, ws)
		return
	}
	if in, ok := intrinsics[key]; ok {
		if in.mods != nil {
			in.mods(x, r, args, r.argv, ws)
		}
		return
	}
	if !x.w.inRepo(fn) || fn.Blocks == nil {
		ws.all = "call of " + key
		return
	}
	for _, f := range r.stack {
		if f == fn {
			ws.all = "recursion in " + key
			return
		}
	}
	q := &resolver{x: x, fn: fn, args: map[ssa.Value]Val{}, fresh: map[ssa.Value]bool{}, depth: r.depth + 1, stack: append(append([]*ssa.Function{}, r.stack...), fn)}
	for i, p := range fn.Params {
		q.args[p] = args[i]
		if i < len(fresh) && fresh[i] {
			q.fresh[p] = true
		}
	}
	for i, p := range fn.FreeVars {
		if bind != nil {
			q.args[p] = bind[i]
		} else {
			q.args[p] = nil
		}
	}
	for _, b := range fn.Blocks {
		x.wsBlock(q, b, ws)
	}
}

// wsSpec adds the modifies clause of a contract.
func (x *Exec) wsSpec(r *resolver, sp *FuncSpec, sig *types.Signature, recvT types.Type, args []Val, ws *WriteSet) {
	st := x.entry.clone()
	names, typs := specParams(sp, sig, recvT)
	vars := map[string]SV{}
	dummy := map[*Term]bool{}
	fixed := map[*Term]bool{}
	for i, n := range names {
		v := Val(nil)
		if i < len(args) {
			v = args[i]
		}
		if v == nil {
			t := x.tb.Fresh("dummy", x.w.sortOf(typs[i]))
			dummy[t] = true
			v = t
		} else if t, ok := v.(*Term); ok {
			fixed[t] = true
			if t.sort == SSlc {
				fixed[x.sarr(t)] = true
			}
			if u := unname(t); strings.HasPrefix(u.op, "box_") {
				fixed[u.args[0]] = true
			}
		} else if p, ok := v.(*Ptr); ok {
			fixed[p.ref] = true
		}
		vars[n] = SV{v, typs[i]}
	}
	e := &Env{x: x, st: st, old: st, vars: vars, pkg: sp.pkg}
	for _, c := range sp.clauses {
		if c.kind != "modifies" {
			continue
		}
		for _, m := range e.places(c.e) {
			switch {
			case strings.HasPrefix(m.comp, "$"):
				ws.add(m)
			case m.ref != nil && fixed[m.ref]:
				ws.add(m)
			default:
				ws.unknown[m.comp] = true
			}
		}
	}
}

// ---------- names ----------

// lookupVar finds the value of a source variable at block b of fr.
func (x *Exec) lookupVar(fr *Frame, st *State, name string, hdr *ssa.BasicBlock) (SV, bool) {
	if nn, ok := x.vars[fr.fn.Name()+"/"+name]; ok {
		name = nn
	}
	amp := strings.HasPrefix(name, "&")
	if amp {
		name = name[1:]
	}
	if hdr != nil {
		if name == "$i" {
			for _, in := range hdr.Instrs {
				if p, ok := in.(*ssa.Phi); ok && (p.Comment == "rangeindex" || p.Comment == "rangeint.iter") {
					t := x.asTerm(fr.regs[p])
					if p.Comment == "rangeindex" {
						t = x.tb.Add(t, x.tb.I(1))
					}
					return SV{t, mathInt}, true
				}
			}
		}
		if name == "$o" { // the index of the loop around this one
			var out *loop
			for _, l := range x.loopsOf(fr.fn).order {
				if l.header != hdr && l.blocks[hdr] && (out == nil || out.blocks[l.header]) {
					out = l
				}
			}
			if out != nil {
				return x.lookupVar(fr, st, "$i", out.header)
			}
			return SV{}, false
		}
		if name == "$k" && fr.count[hdr] != nil {
			return SV{fr.count[hdr], mathInt}, true
		}
		if name == "$visited" {
			for _, in := range hdr.Instrs {
				if n, ok := in.(*ssa.Next); ok {
					if it, ok := fr.regs[n.Iter].(*MapIter); ok {
						t := st.iters[it.instr]
						return SV{t, &SpecType{t.sort}}, true
					}
				}
			}
			if len(st.iters) == 1 { // a loop inside it
				for _, t := range st.iters {
					return SV{t, &SpecType{t.sort}}, true
				}
			}
		}
		for _, in := range hdr.Instrs {
			if p, ok := in.(*ssa.Phi); ok && p.Comment == name {
				return SV{fr.regs[p], p.Type()}, true
			}
		}
	}
	// cells
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Comment == name {
				v, ok := fr.regs[a]
				if !ok {
					continue
				}
				el := a.Type().(*types.Pointer).Elem()
				p := x.deref(v, el)
				if amp {
					return SV{p, a.Type()}, true
				}
				return SV{x.typedSV(st, x.loadPtr(st, p), el), el}, true
			}
		}
	}
	for i, f := range fr.fn.FreeVars {
		if f.Name() == name {
			pt, ok := f.Type().Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			p := x.deref(fr.free[i], pt.Elem())
			if amp {
				return SV{p, f.Type()}, true
			}
			return SV{x.typedSV(st, x.loadPtr(st, p), pt.Elem()), pt.Elem()}, true
		}
	}
	if amp {
		if fr.caller != nil {
			return x.lookupVar(fr.caller, st, "&"+name, nil)
		}
		return SV{}, false
	}
	// debug references: the last definition that reaches the header
	var best ssa.Value
	var bestBlk *ssa.BasicBlock
	var bestIdx int
	consider := func(v ssa.Value, b *ssa.BasicBlock, i int) {
		if _, ok := fr.regs[v]; !ok {
			if _, isC := v.(*ssa.Const); !isC {
				return
			}
		}
		if hdr != nil && !(b.Dominates(hdr) && b != hdr) {
			return
		}
		if best == nil || bestBlk == b && i >= bestIdx || bestBlk != b && bestBlk.Dominates(b) {
			best, bestBlk, bestIdx = v, b, i
		}
	}
	for _, b := range fr.fn.Blocks {
		for i, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.DebugRef:
				if in.IsAddr {
					continue
				}
				if id, ok := in.Expr.(*ast.Ident); ok && id.Name == name {
					// the value is current where it is defined, and stays so until redefined
					consider(in.X, b, i)
				}
			case *ssa.Phi:
				if in.Comment == name {
					consider(in, b, i)
				}
			}
		}
	}
	if best != nil {
		return SV{x.get(fr, best), best.Type()}, true
	}
	for _, p := range fr.fn.Params {
		if p.Name() == name {
			return SV{fr.regs[p], p.Type()}, true
		}
	}
	if fr.caller != nil {
		return x.lookupVar(fr.caller, st, name, nil)
	}
	return SV{}, false
}

func (x *Exec) typedSV(st *State, t *Term, typ types.Type) *Term { return x.typed(st, t, typ) }

// loopSpecFor finds the contract of a loop: loops are numbered in source
// order over the function and everything inlined into it.
func (x *Exec) loopSpecFor(fr *Frame, lp *loop) *LoopSpec {
	if x.spec == nil {
		return nil
	}
	if x.loopOrd == nil {
		x.loopOrd = map[string]int{}
		n := 0
		x.numberLoops(x.fn, "", &n, []*ssa.Function{x.fn})
		x.nloops = n
	}
	k := x.loopKey(fr, lp)
	o, ok := x.loopOrd[k]
	if !ok {
		o, ok = x.loopOrd[fmt.Sprintf("fn:%s:%d", fnKey(fr.fn), lp.header.Index)]
	}
	if !ok {
		return nil
	}
	return x.spec.loops[o]
}

func (x *Exec) loopKey(fr *Frame, lp *loop) string {
	s := ""
	for f := fr; f != nil && f.caller != nil; f = f.caller {
		s = fmt.Sprintf("%p/", f.callInstr) + s
	}
	return s + fmt.Sprintf("%s:%d", fnKey(fr.fn), lp.header.Index)
}

func (x *Exec) numberLoops(fn *ssa.Function, prefix string, n *int, stack []*ssa.Function) {
	type item struct {
		pos  token.Pos
		lp   *loop
		call ssa.Instruction
		fn   *ssa.Function
	}
	var items []item
	for _, l := range x.loopsOf(fn).order {
		items = append(items, item{pos: loopPos(l), lp: l})
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			var callee *ssa.Function
			switch in := in.(type) {
			case ssa.CallInstruction:
				callee = in.Common().StaticCallee()
			}
			if callee == nil || callee.Blocks == nil || !x.w.inRepo(callee) || x.sp.funcs[fnKey(callee)] != nil && !x.inlines(x.sp.funcs[fnKey(callee)], callee, 0) {
				// closures passed along
				if mc, ok := in.(*ssa.MakeClosure); ok {
					f := mc.Fn.(*ssa.Function)
					if x.sp.funcs[fnKey(f)] == nil && !calledDirectly(mc) {
						items = append(items, item{pos: mc.Pos(), call: in, fn: f})
					}
				}
				continue
			}
			items = append(items, item{pos: in.Pos(), call: in, fn: callee})
		}
	}
	sortItems(len(items), func(i, j int) bool { return items[i].pos < items[j].pos }, func(i, j int) { items[i], items[j] = items[j], items[i] })
	for _, it := range items {
		if it.lp != nil {
			*n++
			x.shape = append(x.shape, fmt.Sprintf("%d:%s", *n, loopShape(it.lp)))
			x.loopOrd[prefix+fmt.Sprintf("%s:%d", fnKey(fn), it.lp.header.Index)] = *n
			k := fmt.Sprintf("fn:%s:%d", fnKey(fn), it.lp.header.Index)
			if _, ok := x.loopOrd[k]; !ok {
				x.loopOrd[k] = *n
			}
			continue
		}
		rec := false
		for _, s := range stack {
			if s == it.fn {
				rec = true
			}
		}
		if rec || len(stack) > 12 {
			continue
		}
		x.numberLoops(it.fn, prefix+fmt.Sprintf("%p/", it.call), n, append(append([]*ssa.Function{}, stack...), it.fn))
	}
}

// loopShape names what a loop carries from one iteration to the next, and whether it ranges.
func loopShape(l *loop) string {
	var ns []string
	for _, in := range l.header.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			ns = append(ns, in.Comment)
		case *ssa.Next:
			ns = append(ns, "next")
		}
	}
	sort.Strings(ns)
	return strings.Join(ns, ",")
}

func calledDirectly(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		if c, ok := r.(ssa.CallInstruction); ok && c.Common().Value == mc {
			return true
		}
	}
	return false
}

func sortItems(n int, less func(i, j int) bool, swap func(i, j int)) {
	for i := 1; i < n; i++ { // insertion sort: stable
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(j, j-1)
		}
	}
}

// ---------- the loop rule ----------

func (x *Exec) loopEnv(fr *Frame, st *State, hdr *ssa.BasicBlock) *Env {
	var parent *Env
	if x.envTop != nil {
		c := *x.envTop
		c.st = st
		// program variables take precedence over the entry values of parameters
		oldv := c.vars
		c.vars = map[string]SV{}
		c.oldv = oldv
		c.parent = &Env{x: x, st: st, old: c.old, vars: oldv, oldv: oldv, pkg: c.pkg}
		c.dyn = func(s *State, name string) (SV, bool) { return x.lookupVar(fr, s, name, hdr) }
		return &c
	}
	return &Env{x: x, st: st, old: st, vars: map[string]SV{}, parent: parent,
		dyn: func(s *State, name string) (SV, bool) { return x.lookupVar(fr, s, name, hdr) }}
}

func (x *Exec) loopName(fr *Frame, lp *loop, spec *LoopSpec) string {
	if spec != nil {
		return fmt.Sprintf("loop%d", spec.ord)
	}
	return fmt.Sprintf("loop@%s", x.pos(loopPos(lp)))
}

// rangePattern recognises the header of "for i := range s" and returns phi and length.
func rangePattern(hdr *ssa.BasicBlock) (*ssa.Phi, ssa.Value) {
	for _, in := range hdr.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if p.Comment != "rangeindex" {
			continue
		}
		iff, ok := hdr.Instrs[len(hdr.Instrs)-1].(*ssa.If)
		if !ok {
			return nil, nil
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.LSS {
			return nil, nil
		}
		inc, ok := cmp.X.(*ssa.BinOp)
		if !ok || inc.Op != token.ADD || inc.X != p {
			return nil, nil
		}
		return p, cmp.Y
	}
	return nil, nil
}

func (x *Exec) enterLoop(fr *Frame, st *State, lp *loop, prev *ssa.BasicBlock) bool {
	tb := x.tb
	hdr := lp.header
	spec := x.loopSpecFor(fr, lp)
	if spec != nil {
		x.boundLoops[spec.ord] = true
	}
	name := x.loopName(fr, lp, spec)
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range hdr.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, x.get(fr, phi.Edges[predIndex(hdr, prev)]))
	}
	for i, p := range phis {
		fr.regs[p] = vals[i]
	}
	x.lastLoop = name
	if fr.count == nil {
		fr.count = map[*ssa.BasicBlock]*Term{}
	}
	fr.count[hdr] = tb.I(0)
	// initially
	env := x.loopEnv(fr, st, hdr)
	if spec != nil {
		for i, c := range spec.clauses {
			if c.kind != "invariant" || !x.wants(c.tags) {
				continue
			}
			x.prove(st, env.Bool(c.e), "invariant-init", fmt.Sprintf("%s.inv%d%s", name, i+1, nm(c)), c.tags, loopPos(lp), c.text)
		}
	}
	// what the body may change
	ws := x.writeSet(fr, lp)
	if os := x.wsDebug; os != nil {
		os(name, ws)
	}
	entryTop := x.topNow(st)
	if spec != nil {
		for _, c := range spec.clauses {
			if c.kind == "forget" {
				x.forget(st)
			}
		}
	}
	preHeap := st.clone()
	var mods []*ModTarget
	explicit := false
	if spec != nil {
		for _, c := range spec.clauses {
			if c.kind == "modifies" {
				mods = append(mods, env.places(c.e)...)
				explicit = true
			}
		}
	}
	if ws.all != "" && !explicit {
		unsup("loop at %s may modify anything (%s)", x.pos(loopPos(lp)), ws.all)
	}
	x.newTop(st)
	as := &allocSet{tags: map[int64]bool{}}
	seen := map[*ssa.Function]bool{}
	for b := range lp.blocks {
		x.allocBlock(b, as, seen)
	}
	x.newObjs(st, entryTop, as)
	if explicit {
		x.havocTargets(st, preHeap, mods, entryTop)
	} else {
		var known []*ModTarget
		for _, m := range ws.known {
			if !ws.unknown[m.comp] && !x.ghostKept(st, m.comp) {
				known = append(known, m)
			}
		}
		x.havocTargets(st, preHeap, known, entryTop)
		for comp := range ws.unknown {
			if comp == "?" {
				unsup("unresolved write in the loop at %s", x.pos(loopPos(lp)))
			}
			x.havocComp(st, comp, entryTop)
		}
	}
	// the values that change
	k := tb.Fresh("iter", SInt)
	st.assume(tb.App(SBool, "<=", tb.I(0), k))
	k.lo = big.NewInt(0)
	fr.count[hdr] = k
	for _, p := range phis {
		if _, ok := fr.regs[p].(*Term); !ok {
			switch fr.regs[p].(type) {
			case *Ptr, *Closure, *SMap:
				t := tb.Fresh(p.Comment, x.w.sortOf(p.Type()))
				x.typed(st, t, p.Type())
				fr.regs[p] = t
				continue
			}
		}
		t := tb.Fresh(p.Comment, x.w.sortOf(p.Type()))
		x.typed(st, t, p.Type())
		fr.regs[p] = t
	}
	if p, ln := rangePattern(hdr); p != nil {
		t := x.asTerm(fr.regs[p])
		n := x.asTerm(x.get(fr, ln))
		st.assume(tb.App(SBool, "<=", tb.I(-1), t))
		st.assume(tb.Or(tb.App(SBool, "<", t, n), tb.App(SBool, "=", t, tb.I(-1))))
		t.lo = big.NewInt(-1)
	}
	for _, in := range hdr.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if it, ok := fr.regs[n.Iter].(*MapIter); ok && it.sm == nil {
				ks := x.w.sortOf(it.mt.Key())
				vis := tb.Fresh("visited", "(Array "+ks+" Bool)")
				st.iters[it.instr] = vis
				md, _ := x.mapComps(it.mt)
				if st.heap[md] == preHeap.heap[md] {
					q := tb.BoundVar("k", ks)
					st.assume(tb.Quant("forall", []*Term{q}, [][]*Term{{tb.Select(vis, q)}}, tb.Imp(tb.Select(vis, q), tb.Select(it.dom0, q))))
				}
			}
		}
	}
	env = x.loopEnv(fr, st, hdr)
	ctx := &loopCtx{spec: spec, name: name, ctxIdx: -1, top: x.topNow(st), ws: ws, head: map[string]*Term{}}
	if spec != nil {
		for _, c := range spec.clauses {
			switch c.kind {
			case "invariant":
				if !x.wants(c.tags) {
					continue
				}
				st.assume(env.Bool(c.e))
			}
		}
		for _, c := range spec.clauses {
			if c.kind == "decreases" {
				ctx.measure = append(ctx.measure, x.asTerm(env.Term(c.e).v))
			}
		}
	}
	for k, v := range st.heap {
		ctx.head[k] = v
	}
	if explicit {
		ctx.ctxIdx = len(st.frames)
		st.frames = append(st.frames, &FrameCtx{top: entryTop, mods: mods, name: name + ".frame"})
	}
	ctx.headEnv = x.loopEnv(fr.fork(), st.clone(), hdr)
	fr.active[hdr] = ctx
	return x.feasible(st)
}

// forget drops the quantified facts since the entry of the function, except
// that the frame still holds.
func (x *Exec) forget(st *State) {
	base := 0
	if x.entry.facts != nil {
		base = x.entry.facts.depth
	}
	var keep []*Term
	f := st.facts
	for ; f != nil && f.depth > base; f = f.parent {
		if st.known[f.t] || !quantified(f.t, map[*Term]bool{}) {
			keep = append(keep, f.t)
		}
	}
	st.facts = f
	for i := len(keep) - 1; i >= 0; i-- {
		st.assume(keep[i])
	}
	tb := x.tb
	var comps []string
	for comp := range st.heap {
		comps = append(comps, comp)
	}
	sort.Strings(comps)
	for _, comp := range comps {
		now := st.heap[comp]
		if strings.HasPrefix(comp, "$") || !strings.HasPrefix(now.sort, "(Array ") || len(st.frames) == 0 {
			continue
		}
		old := x.heapGet(x.entry, comp)
		if old == now {
			continue
		}
		fc := st.frames[0]
		q := tb.BoundVar("r", SInt)
		cond := []*Term{tb.Le(q, fc.top)}
		whole := false
		for _, m := range fc.mods {
			if m.comp != comp {
				continue
			}
			if m.ref == nil {
				whole = true
				break
			}
			cond = append(cond, tb.Not(tb.Eq(q, m.ref)))
		}
		if !whole {
			n := tb.Fresh(comp, now.sort)
			st.assume(tb.Eq(n, now))
			st.heap[comp] = n
			st.assume(tb.Quant("forall", []*Term{q}, [][]*Term{{tb.App(arrElem(n.sort), "select", n, q)}},
				tb.Imp(tb.And(cond...), tb.Eq(tb.App(arrElem(n.sort), "select", n, q), tb.Select(old, q)))))
		}
	}
}

func quantified(t *Term, seen map[*Term]bool) bool {
	if len(t.bound) > 0 {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if quantified(a, seen) {
			return true
		}
	}
	return false
}

func nm(c *Clause) string {
	if c.name != "" {
		return "." + c.name
	}
	return ""
}

// havocTargets makes the listed locations arbitrary.
func (x *Exec) havocTargets(st, pre *State, mods []*ModTarget, entryTop *Term) {
	for _, m := range mods {
		if strings.HasPrefix(m.comp, "$") {
			st.heap[m.comp] = x.tb.Fresh(m.comp[1:], x.csort[m.comp])
			continue
		}
		if m.ref == nil {
			st.heap[m.comp] = x.tb.Fresh(m.comp, x.csort[m.comp])
			continue
		}
		h := x.heapGet(st, m.comp)
		es := arrElem(h.sort)
		if len(m.path) == 0 {
			x.heapSet(st, m.comp, x.tb.Store(h, m.ref, x.tb.Fresh("h_"+m.comp, es)))
			continue
		}
		// path into a record
		root := x.compRoot[m.comp]
		if root == nil {
			x.heapSet(st, m.comp, x.tb.Store(h, m.ref, x.tb.Fresh("h_"+m.comp, es)))
			continue
		}
		path := m.path
		for i, p := range path { // up to the first index
			if p.field < 0 {
				path = path[:i]
				break
			}
		}
		if len(path) == 0 {
			x.heapSet(st, m.comp, x.tb.Store(h, m.ref, x.tb.Fresh("h_"+m.comp, es)))
			continue
		}
		var typ types.Type = root
		for _, p := range path {
			typ = x.w.rec(typ).types[p.field]
		}
		f := x.tb.Fresh("h", x.w.sortOf(typ))
		x.typed(st, f, typ)
		cur := x.tb.Select(h, m.ref)
		x.heapSet(st, m.comp, x.tb.Store(h, m.ref, x.pathUpd(cur, root, path, f)))
	}
}

// havocComp makes a whole component arbitrary, except for what the frame of
// the function protects.
func (x *Exec) havocComp(st *State, comp string, entryTop *Term) {
	if strings.HasPrefix(comp, "$") {
		st.heap[comp] = x.tb.Fresh(comp[1:], x.csort[comp])
		return
	}
	old := x.heapGet(st, comp)
	n := x.tb.Fresh(comp, x.csort[comp])
	st.heap[comp] = n
	tb := x.tb
	for _, fc := range st.frames {
		whole := false
		q := tb.BoundVar("r", SInt)
		cond := []*Term{tb.Le(q, fc.top)}
		for _, m := range fc.mods {
			if m.comp != comp {
				continue
			}
			if m.ref == nil {
				whole = true
				break
			}
			cond = append(cond, tb.Not(tb.Eq(q, m.ref)))
		}
		if whole {
			continue
		}
		st.assume(tb.Quant("forall", []*Term{q}, [][]*Term{{tb.App(arrElem(n.sort), "select", n, q)}},
			tb.Imp(tb.And(cond...), tb.Eq(tb.App(arrElem(n.sort), "select", n, q), tb.Select(old, q)))))
	}
}

func (x *Exec) backEdge(fr *Frame, st *State, lp *loop, prev *ssa.BasicBlock) {
	hdr := lp.header
	ctx := fr.active[hdr]
	if ctx == nil {
		panic("back edge without a loop context")
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range hdr.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, x.get(fr, phi.Edges[predIndex(hdr, prev)]))
	}
	f2 := fr.fork()
	for i, p := range phis {
		f2.regs[p] = vals[i]
	}
	f2.count[hdr] = x.tb.Add(fr.count[hdr], x.tb.I(1))
	x.checkWS(st, ctx)
	x.lastLoop = ctx.name
	env := x.loopEnv(f2, st, hdr)
	if ctx.spec != nil {
		env.head = ctx.headEnv
		for i, c := range ctx.spec.clauses {
			if c.kind != "assert" || !x.wants(c.tags) {
				continue
			}
			g := env.Bool(c.e)
			x.prove(st, g, "assert", fmt.Sprintf("%s.assert%d%s", ctx.name, i+1, nm(c)), c.tags, loopPos(lp), c.text)
			st.assume(g)
		}
		for i, c := range ctx.spec.clauses {
			if c.kind != "invariant" || !x.wants(c.tags) {
				continue
			}
			x.prove(st, env.Bool(c.e), "invariant", fmt.Sprintf("%s.inv%d%s", ctx.name, i+1, nm(c)), c.tags, loopPos(lp), c.text)
		}
		if len(ctx.measure) > 0 {
			var now []*Term
			var tags []string
			for _, c := range ctx.spec.clauses {
				if c.kind == "decreases" {
					now = append(now, x.asTerm(env.Term(c.e).v))
					tags = c.tags
				}
			}
			tb := x.tb
			goal := tb.B(false)
			for i := len(now) - 1; i >= 0; i-- {
				lt := tb.And(tb.Lt(now[i], ctx.measure[i]), tb.Le(tb.I(0), ctx.measure[i]))
				goal = tb.Or(lt, tb.And(tb.Eq(now[i], ctx.measure[i]), goal))
			}
			x.prove(st, goal, "decreases", ctx.name+".decreases", tags, loopPos(lp), "the measure decreases")
			return
		}
	}
	if x.needTermination() {
		if p, _ := rangePattern(hdr); p != nil {
			return
		}
		for _, in := range hdr.Instrs {
			if _, ok := in.(*ssa.Next); ok {
				return
			}
			if p, ok := in.(*ssa.Phi); ok && p.Comment == "rangeint.iter" {
				return
			}
		}
		x.prove(st, x.tb.B(false), "decreases", ctx.name+".decreases", x.termTags(), loopPos(lp), "no termination measure for this loop")
	}
}

func (x *Exec) needTermination() bool {
	if x.spec == nil {
		return false
	}
	_, ok := x.spec.flags["terminates"]
	return ok
}

func (x *Exec) termTags() []string { return splitTags(x.spec.flags["terminates"]) }

// ghostKept: the function leaves the ghost variable as it is, so a loop of it does, too.
func (x *Exec) ghostKept(st *State, comp string) bool {
	if !strings.HasPrefix(comp, "$") || len(st.frames) == 0 || !x.wants(st.frames[0].tags) {
		return false
	}
	for _, m := range st.frames[0].mods {
		if m.comp == comp {
			return false
		}
	}
	return true
}

// checkWS checks that the loop body changed only what was havocked.
func (x *Exec) checkWS(st *State, ctx *loopCtx) {
	for comp, t := range st.heap {
		h, ok := ctx.head[comp]
		if !ok {
			h = x.initComp(comp)
		}
		if t == h || ctx.ws.unknown[comp] || ctx.ctxIdx >= 0 {
			continue
		}
		if strings.HasPrefix(comp, "$") {
			found := false
			for _, m := range ctx.ws.known {
				if m.comp == comp {
					found = true
				}
			}
			if !found {
				unsup("internal: %s modified in %s but not in its write set", comp, ctx.name)
			}
			if x.ghostKept(st, comp) {
				x.prove(st, x.tb.Eq(t, h), "frame", ctx.name+".ghost."+comp[1:], st.frames[0].tags, token.NoPos, comp+" is unchanged")
			}
			continue
		}
		for u := unname(t); u != unname(h); {
			if u.op != "store" {
				unsup("internal: %s modified in %s in an unexpected way", comp, ctx.name)
			}
			r := u.args[1]
			fresh := x.tb.Lt(ctx.top, r).isTrue()
			if !fresh {
				found := false
				for _, m := range ctx.ws.known {
					if m.comp == comp && m.ref == r {
						found = true
					}
				}
				if !found && !x.entails(st, x.tb.Lt(ctx.top, r)) {
					unsup("internal: write to %s[%s] in %s not in its write set", comp, trunc(r.String(), 60), ctx.name)
				}
			}
			u = unname(u.args[0])
		}
	}
}
