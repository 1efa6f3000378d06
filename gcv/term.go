package main

// Terms: hash-consed SMT-LIB terms with a light simplifier.

import (
	"fmt"
	"math/big"
	"strings"
)

type Sort = string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
	SAny  Sort = "Any"
	SFn   Sort = "Fn"
	SSlc  Sort = "Slc"
)

// Term is an immutable SMT term.
type Term struct {
	op    string // function symbol, or literal text for leaves
	args  []*Term
	sort  Sort
	num   *big.Int // integer literal
	def   *Term    // for named constants: the term it abbreviates
	lo    *big.Int // known interval (inclusive), nil if unbounded
	hi    *big.Int
	key   string
	size  int
	bits  *big.Int // mask of bits that may be set (nonnegative terms only), nil if unknown
	bound []*Term  // for quantifiers: bound variables
	pats  [][]*Term
	free  bool // mentions a bound variable
}

// TB builds terms; one per verification task (not safe for concurrent use).
type TB struct {
	tab   map[string]*Term
	n     int
	decls []string // declarations of constants, in order
	w     *World
}

func newTB(w *World) *TB { return &TB{tab: map[string]*Term{}, w: w} }

func (b *TB) intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	for _, a := range t.args {
		fmt.Fprintf(&sb, " %s", a.key)
	}
	for _, a := range t.bound {
		fmt.Fprintf(&sb, " !%s", a.key)
	}
	for _, p := range t.pats {
		sb.WriteString("|")
		for _, a := range p {
			fmt.Fprintf(&sb, " %s", a.key)
		}
	}
	k := sb.String() + ":" + t.sort
	if x, ok := b.tab[k]; ok {
		return x
	}
	t.key = fmt.Sprintf("#%d", len(b.tab))
	t.size = 1
	for _, a := range t.args {
		t.size += a.size
		if a.free {
			t.free = true
		}
	}
	b.tab[k] = t
	return t
}

func (t *Term) String() string {
	if len(t.args) == 0 {
		return t.op
	}
	var sb strings.Builder
	t.write(&sb)
	return sb.String()
}

func (t *Term) write(sb *strings.Builder) {
	if t.num != nil {
		if t.num.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.num).String())
		} else {
			sb.WriteString(t.num.String())
		}
		return
	}
	if len(t.args) == 0 {
		sb.WriteString(t.op)
		return
	}
	if t.op == "forall" || t.op == "exists" {
		sb.WriteByte('(')
		sb.WriteString(t.op)
		sb.WriteString(" (")
		for _, v := range t.bound {
			fmt.Fprintf(sb, "(%s %s)", v.op, v.sort)
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		t.args[0].write(sb)
		for _, p := range t.pats {
			sb.WriteString(" :pattern (")
			for i, a := range p {
				if i > 0 {
					sb.WriteByte(' ')
				}
				a.write(sb)
			}
			sb.WriteByte(')')
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteByte(')')
		return
	}
	sb.WriteByte('(')
	if strings.HasPrefix(t.op, "is:") {
		fmt.Fprintf(sb, "(_ is %s)", t.op[3:])
	} else if t.op == "constarr" {
		fmt.Fprintf(sb, "(as const %s)", t.sort)
	} else {
		sb.WriteString(t.op)
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		a.write(sb)
	}
	sb.WriteByte(')')
}

// BoundVar makes a variable to be bound by a quantifier.
func (b *TB) BoundVar(hint string, s Sort) *Term {
	b.n++
	t := b.intern(&Term{op: fmt.Sprintf("%s?%d", sanitizeSym(hint), b.n), sort: s})
	t.free = true
	return t
}

func (b *TB) Quant(q string, vs []*Term, pats [][]*Term, body *Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	if len(vs) == 0 {
		return body
	}
	t := b.intern(&Term{op: q, args: []*Term{body}, sort: SBool, bound: vs, pats: pats})
	// free only if it mentions other bound variables
	t.free = mentionsOther(body, vs, map[*Term]bool{})
	return t
}

func mentionsOther(t *Term, vs []*Term, seen map[*Term]bool) bool {
	if !t.free || seen[t] {
		return false
	}
	seen[t] = true
	if len(t.args) == 0 {
		for _, v := range vs {
			if v == t {
				return false
			}
		}
		return true
	}
	if len(t.bound) > 0 {
		return mentionsOther(t.args[0], append(append([]*Term{}, vs...), t.bound...), map[*Term]bool{})
	}
	for _, a := range t.args {
		if mentionsOther(a, vs, seen) {
			return true
		}
	}
	return false
}

// Is tests a datatype constructor.
func (b *TB) Is(ctor string, x *Term) *Term {
	u := unname(x)
	if c := b.w.ctorOf(u); c != "" {
		return b.B(c == ctor)
	}
	if u.op == "ite" {
		return b.Ite(u.args[0], b.Is(ctor, u.args[1]), b.Is(ctor, u.args[2]))
	}
	return b.App(SBool, "is:"+ctor, x)
}

// Sel selects field i of a single- or multi-constructor datatype value.
func (b *TB) Sel(ctor string, i int, selName string, s Sort, x *Term) *Term {
	u := unname(x)
	if u.op == ctor {
		return u.args[i]
	}
	if u.op == "ite" {
		p, q := unname(u.args[1]), unname(u.args[2])
		if p.op == ctor || q.op == ctor || p.op == "ite" || q.op == "ite" {
			return b.Ite(u.args[0], b.Sel(ctor, i, selName, s, p), b.Sel(ctor, i, selName, s, q))
		}
	}
	return b.App(s, selName, x)
}

func (b *TB) Num(n *big.Int) *Term {
	t := b.intern(&Term{op: "num:" + n.String(), sort: SInt, num: n})
	t.lo, t.hi = n, n
	return t
}
func (b *TB) I(n int64) *Term { return b.Num(big.NewInt(n)) }
func (b *TB) B(v bool) *Term {
	if v {
		return b.intern(&Term{op: "true", sort: SBool})
	}
	return b.intern(&Term{op: "false", sort: SBool})
}

// Sym is a declared (or defined elsewhere) constant symbol.
func (b *TB) Sym(name string, s Sort) *Term { return b.intern(&Term{op: name, sort: s}) }

// Fresh declares a new constant.
func (b *TB) Fresh(hint string, s Sort) *Term {
	b.n++
	hint = sanitizeSym(hint)
	name := fmt.Sprintf("%s!%d", hint, b.n)
	b.decls = append(b.decls, fmt.Sprintf("(declare-const %s %s)", name, s))
	return b.intern(&Term{op: name, sort: s})
}

func sanitizeSym(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	if sb.Len() == 0 {
		return "x"
	}
	return sb.String()
}

func (b *TB) App(s Sort, op string, args ...*Term) *Term {
	return b.intern(&Term{op: op, args: args, sort: s})
}

func (t *Term) isTrue() bool  { return t.op == "true" && t.sort == SBool }
func (t *Term) isFalse() bool { return t.op == "false" && t.sort == SBool }

func (b *TB) Not(x *Term) *Term {
	switch {
	case x.isTrue():
		return b.B(false)
	case x.isFalse():
		return b.B(true)
	case x.op == "not":
		return x.args[0]
	case x.op == "<" && len(x.args) == 2:
		return b.Le(x.args[1], x.args[0])
	case x.op == "<=" && len(x.args) == 2:
		return b.Lt(x.args[1], x.args[0])
	}
	return b.App(SBool, "not", x)
}
func (b *TB) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x == nil || x.isTrue() || seen[x] {
			continue
		}
		if x.isFalse() {
			return x
		}
		seen[x] = true
		if x.op == "and" {
			out = append(out, x.args...)
		} else {
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return b.B(true)
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.App(SBool, "and", out...)
}
func (b *TB) Or(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		if x == nil || x.isFalse() {
			continue
		}
		if x.isTrue() {
			return x
		}
		if x.op == "or" {
			out = append(out, x.args...)
		} else {
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return b.B(false)
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.App(SBool, "or", out...)
}
func (b *TB) Imp(x, y *Term) *Term {
	if x.isTrue() {
		return y
	}
	if x.isFalse() || y.isTrue() {
		return b.B(true)
	}
	if y.isFalse() {
		return b.Not(x)
	}
	return b.App(SBool, "=>", x, y)
}
func (b *TB) Ite(c, x, y *Term) *Term {
	if c.isTrue() {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x == y {
		return x
	}
	if x.sort == SBool {
		if x.isTrue() && y.isFalse() {
			return c
		}
		if x.isFalse() && y.isTrue() {
			return b.Not(c)
		}
	}
	t := b.App(x.sort, "ite", c, x, y)
	if x.lo != nil && y.lo != nil {
		t.lo = minB(x.lo, y.lo)
	}
	if x.hi != nil && y.hi != nil {
		t.hi = maxB(x.hi, y.hi)
	}
	return t
}

func minB(x, y *big.Int) *big.Int {
	if x.Cmp(y) < 0 {
		return x
	}
	return y
}
func maxB(x, y *big.Int) *big.Int {
	if x.Cmp(y) > 0 {
		return x
	}
	return y
}

// distinctTerms reports whether x and y are certainly different.
func (b *TB) distinctTerms(x, y *Term) bool {
	if x == y {
		return false
	}
	if x.num != nil && y.num != nil {
		return true
	}
	if x.sort == SInt {
		bx, ox := splitOff(x)
		by, oy := splitOff(y)
		if bx == by && ox.Cmp(oy) != 0 {
			return true
		}
		if x.lo != nil && y.hi != nil && x.lo.Cmp(y.hi) > 0 || y.lo != nil && x.hi != nil && y.lo.Cmp(x.hi) > 0 {
			return true
		}
	}
	if x.sort == SAny {
		cx, cy := b.boxCtor(x), b.boxCtor(y)
		if cx != "" && cy != "" && cx != cy {
			return true
		}
	}
	if strings.HasPrefix(x.op, "str!") && strings.HasPrefix(y.op, "str!") {
		return true
	}
	return false
}

func (b *TB) boxCtor(x *Term) string { return b.w.ctorOf(unname(x)) }

func splitOff(x *Term) (*Term, *big.Int) {
	if x.num != nil {
		return nil, x.num
	}
	if x.op == "+" && len(x.args) == 2 && x.args[1].num != nil {
		return x.args[0], x.args[1].num
	}
	return x, big.NewInt(0)
}

func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.B(true)
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("Eq: sorts %s / %s: %s = %s", x.sort, y.sort, x, y))
	}
	if b.distinctTerms(x, y) {
		return b.B(false)
	}
	if x.sort == SBool {
		if x.isTrue() {
			return y
		}
		if y.isTrue() {
			return x
		}
		if x.isFalse() {
			return b.Not(y)
		}
		if y.isFalse() {
			return b.Not(x)
		}
	}
	if x.sort == SStr {
		return b.App(SBool, "sEq", x, y)
	}
	// constructor injectivity
	if x.op == y.op && (strings.HasPrefix(x.op, "mk_") || strings.HasPrefix(x.op, "box_") || x.op == "mkslc") {
		var cs []*Term
		for i := range x.args {
			cs = append(cs, b.Eq(x.args[i], y.args[i]))
		}
		return b.And(cs...)
	}
	return b.App(SBool, "=", x, y)
}

func (b *TB) Add(x, y *Term) *Term {
	if x.num != nil && y.num != nil {
		return b.Num(new(big.Int).Add(x.num, y.num))
	}
	if x.num != nil {
		x, y = y, x
	}
	if y.num != nil {
		if y.num.Sign() == 0 {
			return x
		}
		base, off := splitOff(x)
		if base != x {
			return b.Add(base, b.Num(new(big.Int).Add(off, y.num)))
		}
	}
	t := b.App(SInt, "+", x, y)
	if disjointBits(x, y) {
		b.setBits(t, new(big.Int).Or(bitsOf(x), bitsOf(y)))
	}
	if x.lo != nil && y.lo != nil {
		t.lo = new(big.Int).Add(x.lo, y.lo)
	}
	if x.hi != nil && y.hi != nil {
		t.hi = new(big.Int).Add(x.hi, y.hi)
	}
	return t
}
func (b *TB) Sub(x, y *Term) *Term {
	if y.num != nil {
		return b.Add(x, b.Num(new(big.Int).Neg(y.num)))
	}
	if x == y {
		return b.I(0)
	}
	t := b.App(SInt, "-", x, y)
	if x.lo != nil && y.hi != nil {
		t.lo = new(big.Int).Sub(x.lo, y.hi)
	}
	if x.hi != nil && y.lo != nil {
		t.hi = new(big.Int).Sub(x.hi, y.lo)
	}
	return t
}
func (b *TB) Mul(x, y *Term) *Term {
	if x.num != nil && y.num != nil {
		return b.Num(new(big.Int).Mul(x.num, y.num))
	}
	if x.num != nil {
		x, y = y, x
	}
	if y.num != nil {
		if y.num.Sign() == 0 {
			return y
		}
		if y.num.IsInt64() && y.num.Int64() == 1 {
			return x
		}
	}
	if y.num != nil && x.op == "*" && x.args[1].num != nil {
		return b.Mul(x.args[0], b.Num(new(big.Int).Mul(x.args[1].num, y.num)))
	}
	t := b.App(SInt, "*", x, y)
	if y.num != nil {
		if k, ok := isPow2(y.num); ok {
			if bx := bitsOf(x); bx != nil {
				b.setBits(t, new(big.Int).Lsh(bx, k))
			}
		}
	}
	if x.lo != nil && x.hi != nil && y.lo != nil && y.hi != nil {
		var c []*big.Int
		for _, p := range []*big.Int{x.lo, x.hi} {
			for _, q := range []*big.Int{y.lo, y.hi} {
				c = append(c, new(big.Int).Mul(p, q))
			}
		}
		lo, hi := c[0], c[0]
		for _, v := range c {
			lo, hi = minB(lo, v), maxB(hi, v)
		}
		t.lo, t.hi = lo, hi
	}
	return t
}

// Div is SMT-LIB (Euclidean, for positive divisors: floor) division.
func (b *TB) Div(x, y *Term) *Term {
	if y.num != nil && y.num.Sign() > 0 {
		if y.num.IsInt64() && y.num.Int64() == 1 {
			return x
		}
		if x.num != nil {
			return b.Num(floorDiv(x.num, y.num))
		}
		u := unname(x)
		if u.op == "*" && u.args[1].num != nil {
			q, m := new(big.Int).QuoRem(u.args[1].num, y.num, new(big.Int))
			if m.Sign() == 0 {
				return b.Mul(u.args[0], b.Num(q))
			}
			q2, m2 := new(big.Int).QuoRem(y.num, u.args[1].num, new(big.Int))
			if m2.Sign() == 0 && u.args[1].num.Sign() > 0 {
				return b.Div(u.args[0], b.Num(q2))
			}
		}
		if _, ok := isPow2(y.num); ok {
			if u.op == "+" && len(u.args) == 2 && disjointBits(u.args[0], u.args[1]) {
				return b.Add(b.Div(u.args[0], y), b.Div(u.args[1], y))
			}
			if u.op == "div" && u.args[1].num != nil && u.args[1].num.Sign() > 0 {
				return b.Div(u.args[0], b.Num(new(big.Int).Mul(u.args[1].num, y.num)))
			}
		}
		if u.op == "ite" && u.args[1].num != nil && u.args[2].num != nil {
			return b.Ite(u.args[0], b.Div(u.args[1], y), b.Div(u.args[2], y))
		}
		if k, ok := isPow2(y.num); ok {
			if bx := bitsOf(x); bx != nil {
				m := new(big.Int).Rsh(bx, k)
				if m.Sign() == 0 {
					return b.I(0)
				}
				t := b.App(SInt, "div", x, y)
				b.setBits(t, m)
			}
		}
		if x.lo != nil && x.hi != nil {
			l, h := floorDiv(x.lo, y.num), floorDiv(x.hi, y.num)
			if l.Cmp(h) == 0 {
				return b.Num(l)
			}
			t := b.App(SInt, "div", x, y)
			t.lo, t.hi = l, h
			return t
		}
		if x.lo != nil {
			t := b.App(SInt, "div", x, y)
			t.lo = floorDiv(x.lo, y.num)
			return t
		}
	}
	return b.App(SInt, "div", x, y)
}
func floorDiv(x, y *big.Int) *big.Int { // y > 0
	q, m := new(big.Int).DivMod(x, y, new(big.Int))
	_ = m
	return q
}
func (b *TB) Mod(x, y *Term) *Term {
	if y.num != nil && y.num.Sign() > 0 {
		if x.num != nil {
			return b.Num(new(big.Int).Mod(x.num, y.num))
		}
		if x.lo != nil && x.hi != nil && x.lo.Sign() >= 0 && x.hi.Cmp(y.num) < 0 {
			return x
		}
		u := unname(x)
		if u.op == "mod" && u.args[1].num != nil && new(big.Int).Mod(u.args[1].num, y.num).Sign() == 0 {
			return b.Mod(u.args[0], y)
		}
		if u.op == "*" && u.args[1].num != nil && new(big.Int).Mod(u.args[1].num, y.num).Sign() == 0 {
			return b.I(0)
		}
		if u.op == "+" && len(u.args) == 2 && u.args[1].num != nil && new(big.Int).Mod(u.args[1].num, y.num).Sign() == 0 {
			return b.Mod(u.args[0], y)
		}
		if u.op == "ite" && u.args[1].num != nil && u.args[2].num != nil {
			return b.Ite(u.args[0], b.Mod(u.args[1], y), b.Mod(u.args[2], y))
		}
		if k, ok := isPow2(y.num); ok {
			if u.op == "+" && len(u.args) == 2 && disjointBits(u.args[0], u.args[1]) {
				return b.Add(b.Mod(u.args[0], y), b.Mod(u.args[1], y))
			}
			if u.op == "*" && u.args[1].num != nil {
				if j, ok := isPow2(u.args[1].num); ok && j < k {
					return b.Mul(b.Mod(u.args[0], b.Num(new(big.Int).Lsh(big.NewInt(1), k-j))), u.args[1])
				}
			}
			low := new(big.Int).Sub(y.num, big.NewInt(1))
			if bx := bitsOf(x); bx != nil {
				m := new(big.Int).And(bx, low)
				if m.Sign() == 0 {
					return b.I(0)
				}
				t := b.App(SInt, "mod", x, y)
				b.setBits(t, m)
				low = m
			}
			t := b.App(SInt, "mod", x, y)
			b.setBits(t, low)
		}
		t := b.App(SInt, "mod", x, y)
		t.lo, t.hi = big.NewInt(0), new(big.Int).Sub(y.num, big.NewInt(1))
		return t
	}
	return b.App(SInt, "mod", x, y)
}
func (b *TB) Le(x, y *Term) *Term {
	if x == y {
		return b.B(true)
	}
	if x.hi != nil && y.lo != nil && x.hi.Cmp(y.lo) <= 0 {
		return b.B(true)
	}
	if x.lo != nil && y.hi != nil && x.lo.Cmp(y.hi) > 0 {
		return b.B(false)
	}
	bx, ox := splitOff(x)
	by, oy := splitOff(y)
	if bx == by && bx != nil {
		return b.B(ox.Cmp(oy) <= 0)
	}
	return b.App(SBool, "<=", x, y)
}
func (b *TB) Lt(x, y *Term) *Term {
	if x == y {
		return b.B(false)
	}
	if x.hi != nil && y.lo != nil && x.hi.Cmp(y.lo) < 0 {
		return b.B(true)
	}
	if x.lo != nil && y.hi != nil && x.lo.Cmp(y.hi) >= 0 {
		return b.B(false)
	}
	bx, ox := splitOff(x)
	by, oy := splitOff(y)
	if bx == by && bx != nil {
		return b.B(ox.Cmp(oy) < 0)
	}
	return b.App(SBool, "<", x, y)
}

func arrElem(s Sort) Sort {
	// "(Array K V)"
	_, v := arrSorts(s)
	return v
}
func arrSorts(s Sort) (Sort, Sort) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i, c := range in {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func unname(t *Term) *Term {
	for t.def != nil {
		t = t.def
	}
	return t
}

func (b *TB) Select(a, i *Term) *Term {
	for {
		u := unname(a)
		if u.op == "store" {
			if u.args[1] == i {
				return u.args[2]
			}
			if b.distinctTerms(u.args[1], i) {
				a = u.args[0]
				continue
			}
		}
		if u.op == "constarr" {
			return u.args[0]
		}
		break
	}
	return b.App(arrElem(a.sort), "select", a, i)
}
func (b *TB) Store(a, i, v *Term) *Term {
	return b.App(a.sort, "store", a, i, v)
}
