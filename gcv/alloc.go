package main

// Which struct types of the repository a piece of code may allocate: a
// conservative static analysis, used to give the objects that appear during a
// call or a loop a type.

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type allocSet struct {
	tags map[int64]bool
	any  bool
}

func (x *Exec) allocOf(fn *ssa.Function) *allocSet {
	a := &allocSet{tags: map[int64]bool{}}
	x.allocFn(fn, a, map[*ssa.Function]bool{})
	return a
}

func (x *Exec) allocFn(fn *ssa.Function, a *allocSet, seen map[*ssa.Function]bool) {
	if seen[fn] || a.any {
		return
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		x.allocBlock(b, a, seen)
	}
}

func (x *Exec) allocBlock(b *ssa.BasicBlock, a *allocSet, seen map[*ssa.Function]bool) {
	add := func(t types.Type) {
		if g := x.w.rtag(t); g > 0 {
			a.tags[g] = true
		}
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Alloc:
			add(in.Type().Underlying().(*types.Pointer).Elem())
		case *ssa.MakeClosure:
			x.allocFn(in.Fn.(*ssa.Function), a, seen)
		case *ssa.Go:
			a.any = true
		}
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			continue
		}
		cc := c.Common()
		callback := false
		if cc.IsInvoke() {
			// methods of the repository with this name
			for _, f := range x.w.byKey {
				if f.Signature.Recv() != nil && f.Name() == cc.Method.Name() {
					x.allocFn(f, a, seen)
				}
			}
			continue
		}
		switch f := cc.Value.(type) {
		case *ssa.Builtin, *ssa.MakeClosure: // closures are looked at where they are made
		case *ssa.Function:
			if x.w.inRepo(f) || f.Synthetic != "" || f.Parent() != nil {
				x.allocFn(f, a, seen)
			} else {
				callback = mayCallBack(f.Signature)
			}
		default:
			callback = true
		}
		if callback && !pureExternal(cc) {
			a.any = true
		}
	}
}

// mayCallBack: the function takes values through which it may run code of the repository.
func mayCallBack(sig *types.Signature) bool {
	has := func(t types.Type) bool { return carriesCode(t, 0) }
	if sig.Recv() != nil && has(sig.Recv().Type()) {
		return true
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if has(sig.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

func carriesCode(t types.Type, d int) bool {
	if d > 4 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Signature:
		return true
	case *types.Pointer:
		return carriesCode(u.Elem(), d+1)
	case *types.Slice:
		return carriesCode(u.Elem(), d+1)
	case *types.Array:
		return carriesCode(u.Elem(), d+1)
	case *types.Map:
		return carriesCode(u.Key(), d+1) || carriesCode(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if carriesCode(u.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func pureExternal(cc *ssa.CallCommon) bool {
	f, ok := cc.Value.(*ssa.Function)
	if !ok {
		return false
	}
	switch fnKey(f) {
	case "errors.Is", "errors.As", "errors.New", "fmt.Errorf", "fmt.Sprintf":
		return true
	}
	return false
}

// newObjs gives the objects allocated between was and now their possible types.
func (x *Exec) newObjs(st *State, was *Term, a *allocSet) {
	if a.any {
		return
	}
	tb := x.tb
	r := tb.BoundVar("r", SInt)
	rt := tb.App(SInt, "rtype", r)
	alts := tb.App(SBool, "<=", rt, tb.I(0))
	var ts []int64
	for t := range a.tags {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	for _, t := range ts {
		alts = tb.Or(alts, tb.App(SBool, "=", rt, tb.I(t)))
	}
	st.assume(tb.Quant("forall", []*Term{r}, [][]*Term{{rt}}, tb.Imp(tb.And(tb.App(SBool, "<", was, r), tb.App(SBool, "<=", r, x.topNow(st))), alts)))
}
