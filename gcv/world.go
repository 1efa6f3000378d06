package main

// World: the program under verification, and the mapping of Go types to SMT sorts.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	prog  *ssa.Program
	pkgs  []*ssa.Package
	byKey map[string]*ssa.Function // "memfs.(*FS).Open", "arfs.Open$1"
	tpkgs map[string]*types.Package

	recs    map[string]*Rec // by sort name
	recList []*Rec
	boxes   map[string]*Box // by type key
	boxList []*Box
	clos    map[string]*Clo // by function key
	cloList []*Clo
	ctors   map[string]bool
	opaque  map[string]bool // uninterpreted sorts

	closures map[*ssa.Function]bool
	rtags    map[string]int64
}

type Rec struct {
	sort   Sort
	typ    types.Type
	names  []string
	types  []types.Type
	sorts  []Sort
	ctor   string
	fields map[string]int
}

func (r *Rec) sel(i int) string { return fmt.Sprintf("%s_%s", r.sort, sanitizeSym(r.names[i])) }

type Box struct {
	typ  types.Type
	key  string
	ctor string
	sel  string
	sort Sort
}

type Clo struct {
	fn   *ssa.Function
	key  string
	ctor string
	sort []Sort
}

func (w *World) ctorOf(t *Term) string {
	if w.ctors[t.op] {
		return t.op
	}
	return ""
}

func loadWorld(dir string) (*World, error) {
	os.Setenv("GOFLAGS", "-mod=mod")
	os.Setenv("GOPROXY", "off")
	cfg := &packages.Config{Mode: (packages.LoadAllSyntax &^ packages.NeedDeps) | packages.NeedExportFile, Dir: dir}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("loading %s: %v", p.PkgPath, e)
		}
	}
	prog, ps := ssautil.Packages(pk, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, byKey: map[string]*ssa.Function{}, tpkgs: map[string]*types.Package{},
		recs: map[string]*Rec{}, boxes: map[string]*Box{}, clos: map[string]*Clo{}, ctors: map[string]bool{}, opaque: map[string]bool{},
		closures: map[*ssa.Function]bool{}}
	inRepo := map[*ssa.Package]bool{}
	for _, p := range ps {
		if p == nil || strings.Contains(p.Pkg.Path(), "/testutil") {
			continue
		}
		w.pkgs = append(w.pkgs, p)
		inRepo[p] = true
	}
	var addPkg func(p *types.Package)
	addPkg = func(p *types.Package) {
		if _, ok := w.tpkgs[p.Path()]; ok {
			return
		}
		w.tpkgs[p.Path()] = p
		for _, q := range p.Imports() {
			addPkg(q)
		}
	}
	for _, p := range w.pkgs {
		addPkg(p.Pkg)
	}
	for _, c := range []string{"anil", "opq", "fnil", "fopq", "mkslc"} {
		w.ctors[c] = true
	}
	var fns []*ssa.Function
	for fn := range ssautil.AllFunctions(prog) {
		if !inRepo[fn.Pkg] && !(fn.Parent() != nil && inRepo[fn.Pkg]) {
			continue
		}
		if fn.Synthetic != "" && fn.Name() != "init" {
			continue
		}
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fnKey(fns[i]) < fnKey(fns[j]) })
	for _, fn := range fns {
		w.byKey[fnKey(fn)] = fn
	}
	// Register every type the functions mention.
	for _, fn := range fns {
		w.scanFn(fn)
	}
	for _, p := range w.pkgs {
		for _, n := range p.Pkg.Scope().Names() {
			if tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName); ok {
				if _, isI := tn.Type().Underlying().(*types.Interface); !isI {
					w.sortOf(tn.Type())
					w.box(types.NewPointer(tn.Type()))
				}
			}
		}
	}
	for _, t := range []types.BasicKind{types.String, types.Int, types.Int64, types.Uint32, types.Uint16, types.Uint64, types.Bool, types.Int32, types.Uint8} {
		w.box(types.Typ[t])
	}
	return w, nil
}

func (w *World) scanFn(fn *ssa.Function) {
	reg := func(t types.Type) {
		if t == nil {
			return
		}
		w.sortOf(t)
		if p, ok := t.Underlying().(*types.Pointer); ok {
			w.sortOf(p.Elem())
		}
	}
	for _, p := range fn.Params {
		reg(p.Type())
	}
	for _, p := range fn.FreeVars {
		reg(p.Type())
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg(v.Type())
			}
			switch in := in.(type) {
			case *ssa.MakeInterface:
				w.box(in.X.Type())
			case *ssa.TypeAssert:
				if _, isI := in.AssertedType.Underlying().(*types.Interface); !isI {
					w.box(in.AssertedType)
				}
			case *ssa.MakeClosure:
				w.clo(in.Fn.(*ssa.Function))
			}
			for _, op := range in.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok && f.Signature.Recv() == nil {
					if c, isCall := in.(ssa.CallInstruction); isCall && c.Common().Value == *op {
						continue
					}
					w.clo(f)
				}
			}
		}
	}
}

// fnKey names a function independently of the module path.
func fnKey(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, "github.com/dpeckett/archivefs/internal/", "")
	s = strings.ReplaceAll(s, "github.com/dpeckett/archivefs/", "")
	s = strings.ReplaceAll(s, "github.com/dpeckett/", "")
	if i := strings.Index(s, "["); i > 0 && len(fn.TypeArgs()) > 0 {
		s = s[:i]
	}
	if strings.HasPrefix(s, "(*") { // (*memfs.FS).Open -> memfs.(*FS).Open
		if i := strings.Index(s, "."); i > 0 {
			s = s[2:i] + ".(*" + s[i+1:]
		}
	} else if strings.HasPrefix(s, "(") {
		if i := strings.Index(s, "."); i > 0 {
			s = s[1:i] + ".(" + s[i+1:]
		}
	}
	return s
}

func (w *World) inRepo(fn *ssa.Function) bool { return w.byKey[fnKey(fn)] == fn }

// unalias removes the aliases inside t.
func unalias(t types.Type) types.Type {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Pointer:
		if e := unalias(u.Elem()); e != u.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := unalias(u.Elem()); e != u.Elem() {
			return types.NewSlice(e)
		}
	case *types.Array:
		if e := unalias(u.Elem()); e != u.Elem() {
			return types.NewArray(e, u.Len())
		}
	case *types.Map:
		k, e := unalias(u.Key()), unalias(u.Elem())
		if k != u.Key() || e != u.Elem() {
			return types.NewMap(k, e)
		}
	case *types.Chan:
		if e := unalias(u.Elem()); e != u.Elem() {
			return types.NewChan(u.Dir(), e)
		}
	case *types.Tuple:
		return unaliasTuple(u)
	case *types.Signature:
		p, r := unaliasTuple(u.Params()), unaliasTuple(u.Results())
		if p != u.Params() || r != u.Results() {
			return types.NewSignatureType(nil, nil, nil, p, r, u.Variadic())
		}
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8:
			return types.Typ[types.Uint8]
		case types.Int32:
			return types.Typ[types.Int32]
		}
	}
	return t
}

func unaliasTuple(u *types.Tuple) *types.Tuple {
	if u == nil {
		return u
	}
	ch := false
	var vs []*types.Var
	for i := 0; i < u.Len(); i++ {
		v := u.At(i)
		if e := unalias(v.Type()); e != v.Type() {
			ch = true
			v = types.NewVar(v.Pos(), v.Pkg(), v.Name(), e)
		}
		vs = append(vs, v)
	}
	if !ch {
		return u
	}
	return types.NewTuple(vs...)
}

func typeKey(t types.Type) string {
	t = unalias(t)
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "*", "P_")
	s = strings.ReplaceAll(s, "[]", "L_")
	s = strings.ReplaceAll(s, "interface {}", "any")
	s = strings.ReplaceAll(s, "interface{}", "any")
	s = strings.ReplaceAll(s, "byte", "uint8")
	s = strings.ReplaceAll(s, "rune", "int32")
	// types declared inside functions may share a name
	for u := t; u != nil; {
		switch v := u.(type) {
		case *types.Pointer:
			u = v.Elem()
		case *types.Slice:
			u = v.Elem()
		case *types.Array:
			u = v.Elem()
		case *types.Map:
			u = v.Elem()
		case *types.Named:
			if o := v.Obj(); o.Pkg() != nil && o.Parent() != nil && o.Parent() != o.Pkg().Scope() {
				s += fmt.Sprintf("_at%d", o.Pos())
			}
			u = nil
		default:
			u = nil
		}
	}
	return sanitizeSym(s)
}

func qualified(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// SpecType is a type that exists in specifications only.
type SpecType struct{ sort Sort }

func (s *SpecType) Underlying() types.Type { return s }
func (s *SpecType) String() string         { return "spec " + s.sort }

func (w *World) sortOf(t types.Type) Sort {
	t = types.Unalias(t)
	if s, ok := t.(*SpecType); ok {
		return s.sort
	}
	switch qualified(t) {
	case "time.Time":
		w.opaque["Time"] = true
		return "Time"
	case "sync.Mutex", "sync.Once", "sync.RWMutex":
		return SBool
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0, u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return SInt
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0, u.Info()&types.IsComplex != 0:
			w.opaque["Float"] = true
			return "Float"
		}
		return SInt
	case *types.Pointer, *types.Map, *types.Chan:
		return SInt
	case *types.Slice:
		return SSlc
	case *types.Interface:
		return SAny
	case *types.Signature:
		return SFn
	case *types.Array:
		return "(Array Int " + w.sortOf(u.Elem()) + ")"
	case *types.Struct:
		return w.rec(t).sort
	case *types.Tuple:
		return SInt
	}
	w.opaque["Float"] = true
	return "Float"
}

func (w *World) rec(t types.Type) *Rec {
	t = types.Unalias(t)
	key := "R_" + typeKey(t)
	if r, ok := w.recs[key]; ok {
		return r
	}
	r := &Rec{sort: key, typ: t, ctor: "mk_" + key, fields: map[string]int{}}
	w.recs[key] = r
	w.ctors[r.ctor] = true
	add := func(n string, ft types.Type) {
		if n == "_" {
			n = fmt.Sprintf("blank%d", len(r.names))
		}
		r.fields[n] = len(r.names)
		r.names = append(r.names, n)
		r.types = append(r.types, ft)
		r.sorts = append(r.sorts, "")
	}
	switch qualified(t) {
	case "bytes.Buffer":
		add("buf", types.NewSlice(types.Typ[types.Uint8]))
	case "strings.Builder":
		add("str", types.Typ[types.String])
	case "io.SectionReader", "io.OffsetWriter": // described by contracts
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			add(st.Field(i).Name(), st.Field(i).Type())
		}
	default:
		st := t.Underlying().(*types.Struct)
		n, isNamed := t.(*types.Named)
		if isNamed && n.Obj().Pkg() != nil && !strings.Contains(n.Obj().Pkg().Path(), "dpeckett") && hasUnexported(st) {
			add("opaque", types.Typ[types.Int]) // an opaque library type
		} else {
			for i := 0; i < st.NumFields(); i++ {
				add(st.Field(i).Name(), st.Field(i).Type())
			}
		}
	}
	if len(r.names) == 0 {
		add("unit", types.Typ[types.Int])
	}
	for i, ft := range r.types {
		r.sorts[i] = w.sortOf(ft)
	}
	w.recList = append(w.recList, r)
	return r
}

func hasUnexported(st *types.Struct) bool {
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() && st.Field(i).Name() != "_" {
			return true
		}
	}
	return false
}

func (w *World) box(t types.Type) *Box {
	t = types.Unalias(t)
	key := typeKey(t)
	if b, ok := w.boxes[key]; ok {
		return b
	}
	b := &Box{typ: t, key: key, ctor: "box_" + key, sel: "unbox_" + key, sort: w.sortOf(t)}
	w.boxes[key] = b
	w.boxList = append(w.boxList, b)
	w.ctors[b.ctor] = true
	return b
}

func (w *World) clo(fn *ssa.Function) *Clo {
	key := fnKey(fn)
	if c, ok := w.clos[key]; ok {
		return c
	}
	c := &Clo{fn: fn, key: key, ctor: "clo_" + sanitizeSym(key)}
	for _, fv := range fn.FreeVars {
		c.sort = append(c.sort, w.sortOf(fv.Type()))
	}
	w.clos[key] = c
	w.cloList = append(w.cloList, c)
	w.ctors[c.ctor] = true
	return c
}

// rtag numbers the named struct types, so that an object's type is known.
func (w *World) rtag(t types.Type) int64 {
	t = types.Unalias(t)
	if _, ok := t.(*types.Named); !ok {
		return 0
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return 0
	}
	k := typeKey(t)
	if w.rtags == nil {
		w.rtags = map[string]int64{}
	}
	if _, ok := w.rtags[k]; !ok {
		w.rtags[k] = int64(len(w.rtags) + 1)
		if n := t.(*types.Named); n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), "github.com/dpeckett/archivefs") {
			w.rtags[k] = -w.rtags[k] // code outside the repository only creates objects of these types
		}
	}
	return w.rtags[k]
}

// compFor names the heap component that holds objects of type t.
func (w *World) compFor(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if w.sortOf(t) == SBool || w.sortOf(t) == "Time" {
			return "C_" + typeKey(t)
		}
		return "S_" + typeKey(t)
	case *types.Array:
		return "E_" + typeKey(u.Elem())
	}
	return "C_" + typeKey(t)
}

// decls emits the sort and datatype declarations.
func (w *World) decls() string {
	var sb strings.Builder
	sb.WriteString("(declare-sort Str 0)\n")
	var ops []string
	for o := range w.opaque {
		ops = append(ops, o)
	}
	sort.Strings(ops)
	for _, o := range ops {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", o)
	}
	sb.WriteString("(declare-datatypes ((Slc 0) (Any 0) (Fn 0)")
	for _, r := range w.recList {
		fmt.Fprintf(&sb, " (%s 0)", r.sort)
	}
	sb.WriteString(") (\n ((mkslc (sarr Int) (soff Int) (sln Int) (scp Int)))\n")
	sb.WriteString(" ((anil) (opq (opqid Int))")
	for _, b := range w.boxList {
		fmt.Fprintf(&sb, " (%s (%s %s))", b.ctor, b.sel, b.sort)
	}
	sb.WriteString(")\n ((fnil) (fopq (fopqid Int))")
	for _, c := range w.cloList {
		fmt.Fprintf(&sb, " (%s", c.ctor)
		for i, s := range c.sort {
			fmt.Fprintf(&sb, " (%s_%d %s)", c.ctor, i, s)
		}
		sb.WriteString(")")
	}
	sb.WriteString(")\n")
	for _, r := range w.recList {
		fmt.Fprintf(&sb, " ((%s", r.ctor)
		for i := range r.names {
			fmt.Fprintf(&sb, " (%s %s)", r.sel(i), r.sorts[i])
		}
		sb.WriteString("))\n")
	}
	sb.WriteString("))\n")
	return sb.String()
}
