package main

// External functions that cannot be described by a contract alone.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics map[string]*intrinsic

const preludeSMT = `
(declare-fun slen (Str) Int)
(declare-fun sat (Str Int) Int)
(declare-fun ssub (Str Int Int) Str)
(declare-fun scat (Str Str) Str)
(declare-fun arr2s ((Array Int Int) Int Int) Str)
(declare-fun s2arr (Str) (Array Int Int))
(declare-fun sEq (Str Str) Bool)
(declare-fun sdiff (Str Str) Int)
(declare-fun slt (Str Str) Bool)
(declare-fun pow2 (Int) Int)
(declare-fun rtype (Int) Int)
(declare-fun imark (Int) Bool)
(declare-fun band (Int Int) Int)
(declare-fun bor (Int Int) Int)
(declare-fun bxor (Int Int) Int)
(declare-fun bandnot (Int Int) Int)
(declare-fun errIsU (Any Any) Bool)
(assert (forall ((s Str)) (! (<= 0 (slen s)) :pattern ((slen s)))))
(assert (forall ((s Str) (i Int)) (! (and (<= 0 (sat s i)) (<= (sat s i) 255)) :pattern ((sat s i)))))
(assert (forall ((a Str) (b Str)) (! (=> (sEq a b) (= a b)) :pattern ((sEq a b)))))
(assert (forall ((a Str)) (! (sEq a a) :pattern ((sEq a a)))))
(assert (forall ((a Str) (b Str)) (! (or (sEq a b) (not (= (slen a) (slen b))) (and (<= 0 (sdiff a b)) (< (sdiff a b) (slen a)) (not (= (sat a (sdiff a b)) (sat b (sdiff a b)))))) :pattern ((sEq a b)))))
(assert (forall ((s Str) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (slen s))) (= (slen (ssub s l h)) (- h l))) :pattern ((ssub s l h)))))
(assert (forall ((s Str) (l Int) (h Int) (i Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (slen s)) (<= 0 i) (< i (- h l))) (= (sat (ssub s l h) i) (sat s (+ l i)))) :pattern ((sat (ssub s l h) i)))))
(assert (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))
(assert (forall ((a Str) (b Str) (i Int)) (! (=> (and (<= 0 i) (< i (+ (slen a) (slen b)))) (= (sat (scat a b) i) (ite (< i (slen a)) (sat a i) (sat b (- i (slen a)))))) :pattern ((sat (scat a b) i)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (<= 0 n) (= (slen (arr2s a o n)) n)) :pattern ((arr2s a o n)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (sat (arr2s a o n) i) (select a (+ o i)))) :pattern ((sat (arr2s a o n) i)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h n)) (= (ssub (arr2s a o n) l h) (arr2s a (+ o l) (- h l)))) :pattern ((ssub (arr2s a o n) l h)))))
(assert (forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (< i (slen s))) (= (select (s2arr s) i) (sat s i))) :pattern ((select (s2arr s) i)))))
(assert (forall ((a Str) (b Str)) (! (not (and (slt a b) (slt b a))) :pattern ((slt a b)))))
(assert (forall ((a Str)) (! (not (slt a a)) :pattern ((slt a a)))))
(assert (forall ((a Str) (b Str)) (! (or (slt a b) (slt b a) (sEq a b)) :pattern ((slt a b)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (slt a b) (slt b c)) (slt a c)) :pattern ((slt a b) (slt b c)))))
(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= 0 b)) (and (<= 0 (band a b)) (<= (band a b) a) (<= (band a b) b))) :pattern ((band a b)))))
`

func init() {
	p2 := ""
	_ = p2
}

func pow2Table() string {
	var sb strings.Builder
	for i := 0; i <= 64; i++ {
		fmt.Fprintf(&sb, "(assert (= (pow2 %d) %s))\n", i, new(big.Int).Lsh(big.NewInt(1), uint(i)))
	}
	return sb.String()
}

// errIs is errors.Is(e, t).
func (x *Exec) errIs(st *State, e, t *Term, depth int) *Term {
	tb := x.tb
	u := unname(e)
	switch {
	case u.op == "anil":
		return tb.Eq(e, t)
	case u.op == "ite":
		return tb.Ite(u.args[0], x.errIs(st, u.args[1], t, depth), x.errIs(st, u.args[2], t, depth))
	case u.op == "box_P_fs_PathError" && depth < 4:
		pt := x.boxOf(u.op).typ.Underlying().(*types.Pointer)
		p := x.deref(u.args[0], pt.Elem())
		r := x.w.rec(pt.Elem())
		err := x.recSel(r, r.fields["Err"], tb.Select(x.heapGet(st, p.comp), p.ref))
		return tb.Or(tb.Eq(e, t), x.errIs(st, err, t, depth+1))
	}
	return tb.Or(tb.Eq(e, t), tb.And(tb.Not(tb.Eq(e, tb.Sym("anil", SAny))), tb.App(SBool, "errIsU", e, t)))
}

// freshErr is a new opaque error.
func (x *Exec) freshErr(st *State) *Term {
	id := x.tb.Fresh("err", SInt)
	st.assume(x.tb.App(SBool, "<", x.tb.I(0), id))
	id.lo = big.NewInt(1)
	return x.tb.App(SAny, "opq", id)
}

func init() {
	pureErr := func(x *Exec, c *callCtx) []outcome {
		e := x.freshErr(c.st)
		q := x.tb.BoundVar("t", SAny)
		u := x.tb.App(SBool, "errIsU", e, q)
		c.st.assume(x.tb.Quant("forall", []*Term{q}, [][]*Term{{u}}, x.tb.Not(u)))
		return one(c.st, e)
	}
	intrinsics = map[string]*intrinsic{
		"errors.New": {run: pureErr},
		"fmt.Errorf": {run: func(x *Exec, c *callCtx) []outcome {
			f, ok := x.litOf(x.asTerm(c.args[0]))
			e := x.freshErr(c.st)
			q := x.tb.BoundVar("t", SAny)
			u := x.tb.App(SBool, "errIsU", e, q)
			is := x.tb.B(false)
			if ok {
				s := x.asTerm(c.args[1])
				arr := x.tb.Select(x.heapGetE(c.st, tAny), x.sarr(s))
				n := int64(0)
				for i := 0; i+1 < len(f); i++ {
					if f[i] != '%' {
						continue
					}
					i++
					if f[i] == '%' {
						continue
					}
					for i < len(f)-1 && strings.ContainsRune("+-# 0123456789.", rune(f[i])) {
						i++
					}
					if f[i] == 'w' {
						w := x.tb.Select(arr, x.tb.Add(x.soff(s), x.tb.I(n)))
						is = x.tb.Or(is, x.errIs(c.st, w, q, 0))
					}
					n++
				}
				c.st.assume(x.tb.Quant("forall", []*Term{q}, [][]*Term{{u}}, x.tb.App(SBool, "=", u, is)))
			}
			return one(c.st, e)
		}},
		"fmt.Sprintf": {run: func(x *Exec, c *callCtx) []outcome {
			if t := x.sprintf(c); t != nil {
				return one(c.st, t)
			}
			t := x.tb.Fresh("sprintf", SStr)
			return one(c.st, t)
		}},
		"errors.Is": {run: func(x *Exec, c *callCtx) []outcome {
			return one(c.st, x.errIs(c.st, x.asTerm(c.args[0]), x.asTerm(c.args[1]), 0))
		}},
		"io/fs.WalkDir": {run: walkDir, mods: func(x *Exec, r *resolver, args []Val, argv []ssa.Value, ws *WriteSet) {
			ws.all = "fs.WalkDir"
		}},
		"slices.SortFunc":      {run: sortFunc, mods: sortFuncMods},
		"sync.(*Mutex).Lock":   {run: lockFn(true), mods: lockMods},
		"sync.(*Mutex).Unlock": {run: lockFn(false), mods: lockMods},
	}
	initBinary()
}

// sprintf describes the result of fmt.Sprintf with a literal format of simple
// verbs by the functions padR, itoa and oct0 of the contracts.
func (x *Exec) sprintf(c *callCtx) *Term {
	f, ok := x.litOf(x.asTerm(c.args[0]))
	if !ok {
		return nil
	}
	for _, d := range []string{"padR", "itoa", "oct0"} {
		if x.sp.defs[d] == nil {
			return nil
		}
	}
	s := x.asTerm(c.args[1])
	arr := x.tb.Select(x.heapGetE(c.st, tAny), x.sarr(s))
	var parts []*Term
	lit := func(s string) {
		if s != "" {
			parts = append(parts, x.str(s))
		}
	}
	n := int64(0)
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			lit(f[i:])
			break
		}
		lit(f[i : i+j])
		i += j + 1
		left, zero, w := false, false, int64(0)
		for ; i < len(f) && strings.IndexByte("-0", f[i]) >= 0; i++ {
			left = left || f[i] == '-'
			zero = zero || f[i] == '0'
		}
		for ; i < len(f) && f[i] >= '0' && f[i] <= '9'; i++ {
			w = w*10 + int64(f[i]-'0')
		}
		if i >= len(f) {
			return nil
		}
		a := unname(x.tb.Select(arr, x.tb.Add(x.soff(s), x.tb.I(n))))
		n++
		v := f[i]
		i++
		b := x.boxOf(a.op)
		if b == nil {
			return nil
		}
		var t *Term
		bt, ok := b.typ.Underlying().(*types.Basic)
		switch {
		case !ok:
			return nil
		case v == 's' && bt.Info()&types.IsString != 0 && !zero:
			t = a.args[0]
		case v == 'd' && bt.Info()&types.IsInteger != 0 && !zero:
			t = x.tb.App(SStr, "itoa", a.args[0])
		case v == 'o' && bt.Info()&types.IsInteger != 0 && zero && !left:
			t = x.tb.App(SStr, "oct0", a.args[0], x.tb.I(w))
			w = 0
		default:
			return nil
		}
		if w > 0 {
			if !left {
				return nil
			}
			t = x.tb.App(SStr, "padR", t, x.tb.I(w))
		}
		parts = append(parts, t)
	}
	if len(parts) == 0 {
		return x.str("")
	}
	r := parts[0]
	for _, p := range parts[1:] {
		r = x.tb.App(SStr, "scat", r, p)
	}
	return r
}

func (x *Exec) heapGetE(st *State, el types.Type) *Term {
	comp := "E_" + typeKey(el)
	x.compSort(comp, el)
	return x.heapGet(st, comp)
}

func lockMods(x *Exec, r *resolver, args []Val, argv []ssa.Value, ws *WriteSet) {
	ws.add(&ModTarget{comp: "$held"})
	for _, g := range x.sp.guards {
		if g.kind == "locked" && g.inv != "" && x.prop != "" && hasTag(g.tags, x.prop) {
			t := x.typeOf(g.typ, g.pkg, "guard")
			rc := x.w.rec(t)
			md, mv := x.mapComps(rc.types[rc.fields[g.field]].Underlying().(*types.Map))
			ws.unknown[md], ws.unknown[mv] = true, true
		}
	}
	x.csort["$held"] = SInt
}

func lockFn(lock bool) func(x *Exec, c *callCtx) []outcome {
	return func(x *Exec, c *callCtx) []outcome {
		tb := x.tb
		st := c.st
		x.csort["$held"] = SInt
		var tags []string
		var gd *Guard
		for _, g := range x.sp.guards {
			if g.kind == "locked" {
				tags = g.tags
				gd = g
			}
		}
		p, ok := c.args[0].(*Ptr)
		if !ok {
			unsup("lock through an unknown pointer")
		}
		held := x.heapGet(st, "$held")
		if lock {
			x.prove(st, tb.Eq(held, tb.I(0)), "locking", "lock-free", tags, c.pos, "a lock is taken while another one (or the same) is held")
			st.heap["$held"] = p.ref
			if gd != nil && gd.inv != "" && x.prop != "" && hasTag(gd.tags, x.prop) {
				// other goroutines may have changed the protected map since it was last seen
				t := x.typeOf(gd.typ, gd.pkg, "guard")
				r := x.w.rec(t)
				md, mv := x.mapComps(r.types[r.fields[gd.field]].Underlying().(*types.Map))
				x.newTop(st)
				st.heap[md] = tb.Fresh(md+"_shared", x.csort[md])
				st.heap[mv] = tb.Fresh(mv+"_shared", x.csort[mv])
				st.assume((&Env{x: x, st: st, old: st, vars: map[string]SV{}, pkg: gd.pkg}).Bool(&Node{kind: "call", n: []*Node{{kind: "ident", s: gd.inv}}}))
			}
		} else {
			x.prove(st, tb.Eq(held, p.ref), "locking", "unlock-held", tags, c.pos, "unlock of a lock that is not held")
			if gd != nil && gd.inv != "" && x.prop != "" && hasTag(gd.tags, x.prop) {
				inv := (&Env{x: x, st: st, old: st, vars: map[string]SV{}, pkg: gd.pkg}).Bool(&Node{kind: "call", n: []*Node{{kind: "ident", s: gd.inv}}})
				x.prove(st, inv, "locking", "monitor-invariant", tags, c.pos, "the lock is released with the tree in a consistent shape")
			}
			st.heap["$held"] = tb.I(0)
		}
		return one(st)
	}
}

func sortFuncMods(x *Exec, r *resolver, args []Val, argv []ssa.Value, ws *WriteSet) {
	el := argv[0].Type().Underlying().(*types.Slice).Elem()
	comp := "E_" + typeKey(el)
	x.compSort(comp, el)
	if r.isFresh(argv[0]) {
		return
	}
	if args[0] == nil {
		ws.unknown[comp] = true
		return
	}
	ws.add(&ModTarget{comp: comp, ref: x.sarr(x.asTerm(args[0]))})
}

// sortFunc describes slices.SortFunc by the contract of the comparison: the
// elements are permuted, and in order. It is an obligation that the comparison
// is a weak order.
func sortFunc(x *Exec, c *callCtx) []outcome {
	tb := x.tb
	st := c.st
	cl, ok := x.fnVal(c.args[1]).(*Closure)
	if !ok {
		unsup("slices.SortFunc with an unknown comparison")
	}
	key := fnKey(cl.fn)
	sp := x.sp.funcs[key]
	if sp == nil || sp.flags["pure"] == "" || len(cl.bind) > 0 {
		unsup("slices.SortFunc with a comparison without a contract")
	}
	x.calls[key] = true
	x.trusted["slices.SortFunc permutes and sorts"] = true
	sl := x.asTerm(c.args[0])
	el := c.argv[0].Type().Underlying().(*types.Slice).Elem()
	comp := "E_" + typeKey(el)
	x.compSort(comp, el)
	off, n, ref := x.soff(sl), x.slen(sl), x.sarr(sl)
	before := tb.Select(x.heapGet(st, comp), ref)
	cmp := func(s *State, kind string, a, b, r *Term) *Term {
		vars := map[string]SV{sp.params[0]: {a, el}, sp.params[1]: {b, el}}
		if r != nil {
			vars[sp.results[0]] = SV{r, types.Typ[types.Int]}
		}
		e := &Env{x: x, st: s, old: s, vars: vars, pkg: sp.pkg}
		t := tb.B(true)
		for _, cl := range sp.clauses {
			if cl.kind == kind && x.wants(cl.tags) {
				t = tb.And(t, e.Bool(cl.e))
			}
		}
		return t
	}
	in := func(i *Term) *Term {
		return tb.And(tb.Le(tb.I(0), i), tb.Lt(i, n))
	}
	elem := func(a, i *Term) *Term { return tb.Select(a, tb.Add(off, i)) }
	// the comparison is applicable, and a weak order on the elements
	t := st.clone()
	var is [3]*Term
	for k := range is {
		is[k] = tb.Fresh("cmp_i", SInt)
		t.assume(in(is[k]))
	}
	at := func(k int) *Term { return elem(before, is[k]) }
	x.prove(t, cmp(t, "requires", at(0), at(1), nil), "requires", "sort.comparable", nil, c.pos, "the comparison's precondition holds for the elements")
	res := func(i, j int) *Term {
		r := tb.Fresh("cmp_r", SInt)
		t.assume(cmp(t, "requires", at(i), at(j), nil))
		t.assume(cmp(t, "ensures", at(i), at(j), r))
		return r
	}
	ab, ba, bc, ac := res(0, 1), res(1, 0), res(1, 2), res(0, 2)
	z := tb.I(0)
	x.prove(t, tb.And(tb.Imp(tb.And(tb.Le(ab, z), tb.Le(bc, z)), tb.Le(ac, z)), tb.Eq(tb.Lt(ab, z), tb.Lt(z, ba))), "ensures", "sort.order", nil, c.pos, "the comparison is a weak order")
	// the result
	after := tb.Fresh("sorted", before.sort)
	perm, inv, r := tb.Fresh("perm", "(Array Int Int)"), tb.Fresh("inv", "(Array Int Int)"), tb.Fresh("cmp", "(Array Int (Array Int Int))")
	i, j := tb.BoundVar("i", SInt), tb.BoundVar("j", SInt)
	pi := tb.Select(perm, i)
	// where an element came from, and where it went, can be the witness of a contract
	mark := func(fn string, t *Term) *Term {
		if x.sp.defs[fn] == nil {
			return tb.B(true)
		}
		return tb.App(SBool, fn, t)
	}
	ij := tb.Select(inv, i)
	// (a bijection of all integers, that moves those only that are indices)
	st.assume(tb.Quant("forall", []*Term{i}, [][]*Term{{pi}}, tb.Eq(tb.Select(inv, pi), i)))
	st.assume(tb.Quant("forall", []*Term{i}, [][]*Term{{ij}}, tb.Eq(tb.Select(perm, ij), i)))
	st.assume(x.normQuant("forall", []*Term{i}, [][]*Term{{elem(after, i)}}, tb.And(mark("idx", pi), tb.Eq(in(i), in(pi)), tb.Eq(elem(after, i), elem(before, pi)))))
	st.assume(x.normQuant("forall", []*Term{i}, [][]*Term{{elem(before, i)}}, tb.And(mark("wit", ij), tb.Eq(in(i), in(ij)), tb.Eq(elem(after, ij), elem(before, i)))))
	rij := tb.Select(tb.Select(r, i), j)
	st.assume(x.normQuant("forall", []*Term{i, j}, [][]*Term{{elem(after, i), elem(after, j)}}, tb.Imp(tb.And(tb.Le(z, i), tb.Lt(i, j), tb.Lt(j, n)),
		tb.And(tb.Le(rij, z), cmp(st, "ensures", elem(after, i), elem(after, j), rij)))))
	k := tb.BoundVar("k", SInt)
	st.assume(tb.Quant("forall", []*Term{k}, [][]*Term{{tb.Select(after, k)}}, tb.Imp(tb.Not(tb.And(tb.Le(off, k), tb.Lt(k, tb.Add(off, n)))), tb.Eq(tb.Select(after, k), tb.Select(before, k)))))
	x.checkWriteIf(st, tb.Lt(z, n), comp, ref, nil, c.pos)
	x.heapSet(st, comp, tb.Store(x.heapGet(st, comp), ref, after))
	return one(st)
}
