package main

// fs.WalkDir, as a loop over the entries of the source whose body is the callback.
// The contract of the caller describes that loop as its loop 0.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func walkDir(x *Exec, c *callCtx) []outcome {
	tb, st, fr := x.tb, c.st, c.fr
	cl, ok := x.fnVal(c.args[2]).(*Closure)
	if !ok {
		unsup("fs.WalkDir with an unknown callback")
	}
	if fr.caller != nil || x.spec == nil || x.spec.loops[0] == nil {
		unsup("fs.WalkDir without invariants")
	}
	next, done := x.sp.funcs["io/fs.WalkDir$next"], x.sp.funcs["io/fs.WalkDir$done"]
	if next == nil || done == nil {
		unsup("fs.WalkDir without a contract")
	}
	spec := x.spec.loops[0]
	x.boundLoops[0] = true
	x.lastLoop = "walk"
	x.trusted["fs.WalkDir calls its callback for each entry, in order, until it returns an error"] = true
	x.trusted["the source returns neither fs.SkipDir nor fs.SkipAll"] = true
	fsT := c.argv[0].Type()
	strT, intT := types.Typ[types.String], types.Typ[types.Int]
	csig := cl.fn.Signature
	v := func(t types.Type) *types.Var { return types.NewVar(token.NoPos, nil, "", t) }
	nextSig := types.NewSignatureType(nil, nil, nil, types.NewTuple(v(fsT), v(strT), v(intT)),
		types.NewTuple(v(csig.Params().At(0).Type()), v(csig.Params().At(1).Type()), v(csig.Params().At(2).Type())), false)
	doneSig := types.NewSignatureType(nil, nil, nil, types.NewTuple(v(fsT), v(strT), v(intT)), nil, false)

	env := func(s *State, k *Term) *Env {
		e := x.loopEnv(fr, s, nil)
		e.dyn = func(s *State, name string) (SV, bool) {
			if name == "$k" {
				return SV{k, mathInt}, true
			}
			return x.lookupVar(fr, s, name, nil)
		}
		return e
	}
	inv := func(s *State, k *Term, f func(i int, c *Clause, t *Term)) {
		e := env(s, k)
		for i, c := range spec.clauses {
			if c.kind == "invariant" && x.wants(c.tags) {
				f(i, c, e.Bool(c.e))
			}
		}
	}
	prove := func(s *State, k *Term, kind string) {
		inv(s, k, func(i int, cl *Clause, t *Term) {
			x.prove(s, t, kind, fmt.Sprintf("walk.inv%d%s", i+1, nm(cl)), cl.tags, c.pos, cl.text)
		})
	}
	prove(st, tb.I(0), "invariant-init")
	entryTop := x.topNow(st)
	pre := st.clone()
	var mods []*ModTarget
	e := env(st, tb.I(0))
	for _, c := range spec.clauses {
		if c.kind == "modifies" {
			mods = append(mods, e.places(c.e)...)
		}
	}
	x.newTop(st)
	as := &allocSet{tags: map[int64]bool{}}
	x.allocFn(cl.fn, as, map[*ssa.Function]bool{})
	x.newObjs(st, entryTop, as)
	x.havocTargets(st, pre, mods, entryTop)
	k := tb.Fresh("walk", SInt)
	st.assume(tb.App(SBool, "<=", tb.I(0), k))
	inv(st, k, func(i int, c *Clause, t *Term) { st.assume(t) })
	if !x.feasible(st) {
		st.dead = true
		return one(st, tb.Sym("anil", SAny))
	}
	var outs []outcome
	// no more entries
	end := st.clone()
	for _, o := range x.contract(fr, end, done, doneSig, nil, []Val{c.args[0], c.args[1], k}, c.instr, "io/fs.WalkDir$done") {
		outs = append(outs, outcome{o.st, []Val{tb.Sym("anil", SAny)}})
	}
	// another one
	depth := len(st.frames)
	st.frames = append(st.frames, &FrameCtx{top: entryTop, mods: mods, name: "walk.frame"})
	head := map[string]*Term{}
	for k, v := range st.heap {
		head[k] = v
	}
	for _, o := range x.contract(fr, st, next, nextSig, nil, []Val{c.args[0], c.args[1], k}, c.instr, "io/fs.WalkDir$next") {
		for _, r := range x.inline(fr, o.st, cl.fn, o.res, cl.bind, c.instr) {
			if r.st.dead {
				continue
			}
			err := x.asTerm(r.res[0])
			skips := ""
			for _, n := range []string{"SkipDir", "SkipAll"} {
				if g := x.w.prog.ImportedPackage("io/fs").Var(n); unname(err) == unname(x.asTerm(x.globalValue(r.st, g))) {
					skips = n
				}
			}
			if skips == "SkipAll" { // that was all
				r.st.frames = r.st.frames[:depth]
				outs = append(outs, outcome{r.st, []Val{tb.Sym("anil", SAny)}})
				continue
			}
			if skips == "SkipDir" { // some entries are left out
				k2 := tb.Fresh("walk", SInt)
				r.st.assume(tb.App(SBool, "<=", k, k2))
				prove(r.st, tb.Add(k2, tb.I(1)), "invariant")
				continue
			}
			x.split(r.st, tb.Eq(err, tb.Sym("anil", SAny)), func(s *State, nil_ bool) []outcome {
				if !nil_ {
					s.frames = s.frames[:depth]
					outs = append(outs, outcome{s, []Val{err}})
					return nil
				}
				prove(s, tb.Add(k, tb.I(1)), "invariant")
				for comp, t := range s.heap {
					if h := head[comp]; strings.HasPrefix(comp, "$") && h != nil && h != t && !modsComp(mods, comp) {
						x.prove(s, tb.Eq(h, t), "frame", "walk.frame", nil, c.pos, comp+" is unchanged")
					}
				}
				return nil
			})
		}
	}
	return outs
}

func modsComp(mods []*ModTarget, comp string) bool {
	for _, m := range mods {
		if m.comp == comp {
			return true
		}
	}
	return false
}
