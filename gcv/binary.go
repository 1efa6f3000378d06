package main

// encoding/binary, and values that are computed once (sync.Once).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// binSize is encoding/binary's size of a fixed-size type, or -1.
func binSize(t types.Type) int64 {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32:
			return 4
		case types.Int64, types.Uint64:
			return 8
		}
	case *types.Array:
		if n := binSize(u.Elem()); n >= 0 {
			return n * u.Len()
		}
	case *types.Struct:
		s := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			n := binSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

// boxed finds the concrete type of an interface value and what it holds.
func (x *Exec) boxed(v Val) (types.Type, *Term) {
	u := unname(x.asTerm(v))
	if b := x.boxOf(u.op); b != nil {
		return b.typ, u.args[0]
	}
	return nil, nil
}

// pointee is the value behind a boxed pointer, or the boxed value itself.
func (x *Exec) boxedData(st *State, v Val) (types.Type, *Term, *Ptr) {
	t, q := x.boxed(v)
	if t == nil {
		unsup("encoding/binary with an unknown value")
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		p := x.deref(q, pt.Elem())
		return pt.Elem(), x.loadPtr(st, p), p
	}
	return t, q, nil
}

// leVal is the value decoded at offset o of ra.
func (x *Exec) leVal(st *State, ra, o *Term, t types.Type) *Term {
	tb := x.tb
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		v := tb.App(SInt, "raLe", ra, o, tb.I(binSize(t)))
		return x.typed(st, v, t)
	case *types.Array:
		return tb.App(x.w.sortOf(t), "raArr", ra, o, tb.I(binSize(t)))
	case *types.Struct:
		r := x.w.rec(t)
		var as []*Term
		off := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, x.leVal(st, ra, tb.Add(o, tb.I(off)), u.Field(i).Type()))
			off += binSize(u.Field(i).Type())
		}
		return tb.App(r.sort, r.ctor, as...)
	}
	unsup("encoding/binary of %s", t)
	return nil
}

// marsh is the encoding of a value, as a string.
func (x *Exec) marsh(st *State, t types.Type, v *Term) *Term {
	op := "marsh_" + typeKey(t)
	if x.sp.defs[op] == nil {
		x.declFun(op, []*Term{v}, SStr)
	}
	m := x.tb.App(SStr, op, v)
	st.assume(x.tb.App(SBool, "=", x.tb.App(SInt, "slen", m), x.tb.I(binSize(t))))
	return m
}

func initBinary() {
	intrinsics["encoding/binary.Size"] = &intrinsic{run: func(x *Exec, c *callCtx) []outcome {
		if t, _ := x.boxed(c.args[0]); t == nil {
			_, n := x.anyData(c.st, c.args[0], c.fr.fn)
			return one(c.st, n)
		}
		t, _, _ := x.boxedData(c.st, c.args[0])
		if binSize(t) < 0 {
			unsup("binary.Size of %s", t)
		}
		return one(c.st, x.tb.I(binSize(t)))
	}}
	intrinsics["encoding/binary.Read"] = &intrinsic{run: binaryRead, mods: func(x *Exec, r *resolver, args []Val, argv []ssa.Value, ws *WriteSet) {
		ws.add(&ModTarget{comp: "$rfault"})
		if args[2] != nil {
			if t, q := x.boxed(args[2]); t != nil {
				p := x.deref(q, t.Underlying().(*types.Pointer).Elem())
				ws.add(&ModTarget{comp: p.comp, ref: p.ref, path: p.path})
			}
		}
	}}
	intrinsics["encoding/binary.Write"] = &intrinsic{run: binaryWrite, mods: func(x *Exec, r *resolver, args []Val, argv []ssa.Value, ws *WriteSet) {
		if len(argv) == 0 {
			ws.all = "binary.Write"
			return
		}
		mi, ok := argv[0].(*ssa.MakeInterface)
		if ok && mi.X.Type().String() == "*io.OffsetWriter" {
			ws.add(&ModTarget{comp: "$wAt"})
			ws.add(&ModTarget{comp: "$fault"})
			return
		}
		if ok && mi.X.Type().String() == "*bytes.Buffer" {
			el := mi.X.Type().Underlying().(*types.Pointer).Elem()
			if v, ok := r.val(mi.X); ok && v != nil {
				p := x.deref(v, el)
				ws.add(&ModTarget{comp: p.comp, ref: p.ref, path: p.path})
			} else {
				ws.unknown[x.deref(x.tb.I(0), el).comp] = true
			}
			return
		}
		ws.all = "binary.Write"
	}}
	intrinsics["encoding/binary.(littleEndian).Uint16"] = &intrinsic{run: func(x *Exec, c *callCtx) []outcome {
		sl := x.asTerm(c.args[1])
		tb := x.tb
		x.prove(c.st, tb.Le(tb.I(2), x.slen(sl)), "safety", "index", x.safetyTags(), c.pos, "Uint16 of at least two bytes")
		s := x.sliceStr(c.st, sl, types.Typ[types.Uint8])
		r := tb.App(SInt, "leStr", s, tb.I(2))
		return one(c.st, x.typed(c.st, r, types.Typ[types.Uint16]))
	}}
	intrinsics["sync.(*Once).Do"] = &intrinsic{run: onceDo, mods: func(x *Exec, r *resolver, args []Val, argv []ssa.Value, ws *WriteSet) {
		ws.all = "sync.Once"
	}}
}

// binaryRead describes binary.Read from a section of an io.ReaderAt.
func binaryRead(x *Exec, c *callCtx) []outcome {
	tb := x.tb
	st := c.st
	x.trusted["encoding/binary.Read decodes the little-endian bytes of a fixed-size struct field by field, or fails"] = true
	rt, ref := x.boxed(c.args[0])
	if rt == nil || rt.String() != "*io.SectionReader" {
		unsup("binary.Read from an unknown reader")
	}
	ot, _ := x.boxed(c.args[1])
	if ot == nil || !strings.HasSuffix(typeKey(ot), "littleEndian") {
		unsup("binary.Read with an unknown byte order")
	}
	dt, _, dp := x.boxedData(st, c.args[2])
	n := binSize(dt)
	if dp == nil || n < 0 {
		unsup("binary.Read into %s", dt)
	}
	sp := x.deref(ref, rt.Underlying().(*types.Pointer).Elem())
	sr := x.loadPtr(st, sp)
	rec := x.w.rec(sp.root)
	fld := func(f string) *Term { i := rec.fields[f]; return x.recSel(rec, i, sr) }
	ra, off, lim := fld("r"), fld("off"), fld("limit")
	end := tb.Add(off, tb.I(n))
	// only sections that hold the value are decided
	x.prove(st, tb.Or(tb.Le(end, lim), tb.Lt(tb.App(SInt, "raLen", ra), end)), "requires", "binary.Read.section", x.safetyTags(), c.pos, "the section is large enough for the value")
	x.checkWrite(st, dp.comp, dp.ref, dp.path, c.pos)
	x.checkWrite(st, sp.comp, sp.ref, nil, c.pos)
	was := x.heapGet(st, "$rfault")
	ok := st.clone()
	// failure
	st.heap["$rfault"] = tb.Fresh("rfault", SBool)
	now := st.heap["$rfault"]
	st.assume(tb.Imp(was, now))
	st.assume(tb.Or(now, tb.Lt(off, tb.I(0)), tb.Lt(tb.App(SInt, "raLen", ra), end)))
	x.newTop(st)
	err := x.freshErr(st)
	var outs []outcome
	if x.feasible(st) {
		outs = append(outs, outcome{st, []Val{err}})
	}
	// success
	ok.assume(tb.Le(tb.I(0), off))
	ok.assume(tb.Le(end, tb.App(SInt, "raLen", ra)))
	if x.feasible(ok) {
		x.newTop(ok)
		v := x.leVal(ok, ra, off, dt)
		x.storePtr(ok, dp, v)
		x.storePtr(ok, &Ptr{comp: sp.comp, ref: sp.ref, root: sp.root, elem: sp.elem}, x.recUpd(rec, rec.fields["off"], sr, end))
		outs = append(outs, outcome{ok, []Val{tb.Sym("anil", SAny)}})
	}
	if len(outs) == 0 {
		st.dead = true
		return []outcome{{st, []Val{err}}}
	}
	return outs
}

// binaryWrite describes binary.Write to a bytes.Buffer.
func binaryWrite(x *Exec, c *callCtx) []outcome {
	tb := x.tb
	st := c.st
	ot, _ := x.boxed(c.args[1])
	if ot == nil || !strings.HasSuffix(typeKey(ot), "littleEndian") {
		unsup("binary.Write with an unknown byte order")
	}
	var m, size *Term
	if dt, _ := x.boxed(c.args[2]); dt == nil {
		m, size = x.anyData(st, c.args[2], c.fr.fn)
		x.prove(st, tb.Le(tb.I(0), size), "requires", "binary.Write.fixed", x.safetyTags(), c.pos, "the value has a fixed size")
	} else {
		dt, dv, _ := x.boxedData(st, c.args[2])
		if binSize(dt) < 0 {
			unsup("binary.Write of %s", dt)
		}
		m, size = x.marsh(st, dt, dv), tb.I(binSize(dt))
	}
	x.trusted["encoding/binary.Write emits the fixed-size little-endian encoding of a value"] = true
	rt, ref := x.boxed(c.args[0])
	if rt != nil && rt.String() == "*io.OffsetWriter" {
		return x.writeAt(c, rt, ref, m)
	}
	if rt == nil || rt.String() != "*bytes.Buffer" {
		unsup("binary.Write to an unknown writer %v %v", rt, x.asTerm(c.args[0]).op)
	}
	bp := x.deref(ref, rt.Underlying().(*types.Pointer).Elem())
	rec := x.w.rec(bp.elem)
	x.checkWrite(st, bp.comp, bp.ref, bp.path, c.pos)
	b := x.loadPtr(st, bp)
	buf := x.recSel(rec, 0, b)
	el := types.Typ[types.Uint8]
	comp := "E_" + typeKey(el)
	was := x.sliceStr(st, buf, el)
	if unname(x.slen(buf)).num != nil && x.slen(buf).num.Sign() == 0 {
		was = x.str("")
	}
	nr := x.alloc(st)
	arr := tb.Fresh("written", "(Array Int Int)")
	total := tb.Add(x.slen(buf), size)
	st.assume(tb.Eq(x.arr2s(arr, tb.I(0), total), x.cat(was, m)))
	x.heapSet(st, comp, tb.Store(x.heapGet(st, comp), nr, arr))
	cp := tb.Fresh("cap", SInt)
	x.nonneg(cp)
	st.assume(tb.Le(total, cp))
	st.assume(tb.App(SBool, "<=", cp, tb.Num(maxInt64)))
	x.storePtr(st, bp, tb.App(rec.sort, rec.ctor, x.mkslc(nr, tb.I(0), total, cp)))
	return one(st, tb.Sym("anil", SAny))
}

// writeAt is the effect of writing m to a part of an io.WriterAt.
func (x *Exec) writeAt(c *callCtx, rt types.Type, ref, m *Term) []outcome {
	tb, st := x.tb, c.st
	p := x.deref(ref, rt.Underlying().(*types.Pointer).Elem())
	rec := x.w.rec(p.root)
	o := x.loadPtr(st, p)
	fld := func(f string) *Term { i := rec.fields[f]; return x.recSel(rec, i, o) }
	x.prove(st, tb.Eq(fld("w"), x.heapGet(st, "$dst")), "requires", "binary.Write.dst", x.safetyTags(), c.pos, "the destination is written")
	x.checkMod(st, &ModTarget{comp: "$wAt"}, c.pos)
	x.checkMod(st, &ModTarget{comp: "$fault"}, c.pos)
	x.checkWrite(st, p.comp, p.ref, nil, c.pos)
	bad := st.clone()
	bad.heap["$wAt"] = tb.Fresh("wAt", x.heapGet(st, "$wAt").sort)
	bad.heap["$fault"] = tb.B(true)
	x.storePtr(bad, p, tb.Fresh("offw", rec.sort))
	x.newTop(bad)
	err := x.freshErr(bad)
	x.heapSet(st, "$wAt", tb.Store(x.heapGet(st, "$wAt"), fld("off"), m))
	x.storePtr(st, p, x.recUpd(rec, rec.fields["off"], o, tb.Add(fld("off"), x.strLen(m))))
	x.newTop(st)
	return []outcome{{bad, []Val{err}}, {st, []Val{tb.Sym("anil", SAny)}}}
}

// anyData is the encoding, and its size, of a value that is one of the package's structs.
func (x *Exec) anyData(st *State, v Val, fn *ssa.Function) (m, size *Term) {
	tb := x.tb
	t := x.asTerm(v)
	m, size = tb.Fresh("enc", SStr), tb.I(-1)
	sc := fn.Pkg.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		b := x.w.boxes[typeKey(tn.Type())]
		if _, ok := tn.Type().Underlying().(*types.Struct); !ok || b == nil || binSize(tn.Type()) < 0 {
			continue
		}
		is := tb.Is(b.ctor, t)
		m = tb.Ite(is, x.marsh(st, tn.Type(), x.unbox(b, t)), m)
		size = tb.Ite(is, tb.I(binSize(tn.Type())), size)
	}
	return m, size
}

// onceDo treats the fields of a memo declaration as a value that some caller
// may compute at any time: the function is proved to establish the memo's
// invariant from the zero value, and what is seen after Do is any value that
// satisfies it.
func onceDo(x *Exec, c *callCtx) []outcome {
	tb := x.tb
	st := c.st
	p, ok := c.args[0].(*Ptr)
	if !ok || len(p.path) != 1 {
		unsup("sync.Once outside a struct")
	}
	rec := x.w.rec(p.root)
	var m *Memo
	for _, q := range x.sp.memos {
		t := x.typeOf(q.typ, q.pkg, q.pos)
		if x.w.rec(t) == rec && p.path[0].field == rec.fields[q.once] {
			m = q
		}
	}
	if m == nil {
		unsup("sync.Once without a memo declaration")
	}
	cl, ok := x.fnVal(c.args[1]).(*Closure)
	if !ok {
		unsup("sync.Once with an unknown function")
	}
	x.checkMemo(m, rec, c.fr.fn)
	x.trusted["sync.Once runs its function once, before any Do returns, and orders it before what follows"] = true
	inv := func(s *State) *Term {
		vars := map[string]SV{"$o": {p.ref, types.NewPointer(p.root)}}
		e := &Env{x: x, st: s, old: s, vars: vars, pkg: m.pkg}
		return e.Bool(&Node{kind: "call", pos: m.pos, n: []*Node{{kind: "ident", s: m.inv}, {kind: "ident", s: "$o"}}})
	}
	set := func(s *State, f func(t types.Type) *Term) {
		v := tb.Select(x.heapGet(s, p.comp), p.ref)
		for _, n := range m.fields {
			i := rec.fields[n]
			v = x.recUpd(rec, i, v, f(rec.types[i]))
		}
		x.heapSet(s, p.comp, tb.Store(x.heapGet(s, p.comp), p.ref, v))
	}
	// the computation
	s := st.clone()
	set(s, x.zero)
	fc := &FrameCtx{top: x.topNow(s), name: "once.frame", tags: x.safetyTags()}
	for _, n := range m.fields {
		fc.mods = append(fc.mods, &ModTarget{comp: p.comp, ref: p.ref, path: []PathEl{{field: rec.fields[n]}}})
	}
	s.frames = []*FrameCtx{fc}
	if x.spec != nil && x.spec.flags["frame"] != "" {
		fc.tags = splitTags(x.spec.flags["frame"])
	}
	outs := x.callFn(c.fr.fork(), s, cl, nil, nil, c.instr)
	for _, o := range outs {
		if !o.st.dead {
			x.prove(o.st, inv(o.st), "once", "once.establishes", x.spec0Tags(), c.pos, "the computed value satisfies "+m.inv)
			for g := range o.st.heap {
				if strings.HasPrefix(g, "$") && g != "$rfault" {
					x.prove(o.st, tb.Eq(x.heapGet(o.st, g), x.heapGet(st, g)), "once", "once.ghost", nil, c.pos, "the computation leaves "+g+" alone")
				}
			}
		}
	}
	// what every caller sees
	x.newTop(st)
	was := x.heapGet(st, "$rfault")
	st.heap["$rfault"] = tb.Fresh("rfault", SBool)
	st.assume(tb.Imp(was, st.heap["$rfault"]))
	set(st, func(t types.Type) *Term {
		v := tb.Fresh("memo", x.w.sortOf(t))
		x.typed(st, v, t)
		return v
	})
	st.assume(inv(st))
	return one(st)
}

func (x *Exec) spec0Tags() []string { return nil }

// checkMemo: the fields of a memo are only used where it is computed.
func (x *Exec) checkMemo(m *Memo, rec *Rec, user *ssa.Function) {
	names := map[string]bool{}
	for _, f := range m.fields {
		names[f] = true
	}
	for _, fn := range x.w.byKey {
		if fn == user || fn.Parent() == user {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var t types.Type
				var f int
				switch in := in.(type) {
				case *ssa.FieldAddr:
					t, f = in.X.Type().Underlying().(*types.Pointer).Elem(), in.Field
				case *ssa.Field:
					t, f = in.X.Type(), in.Field
				default:
					continue
				}
				if types.Unalias(t) == rec.typ && names[rec.names[f]] {
					unsup("%s uses %s.%s, which is computed once elsewhere", fnKey(fn), m.typ, rec.names[f])
				}
			}
		}
	}
}
