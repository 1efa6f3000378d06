package main

// Contract language: lexer, parser, and the items of a contract file.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type Node struct {
	kind string // num str ident field index slice call un bin quant ite let
	s    string
	n    []*Node
	vars []Param
	pats [][]*Node
	pos  string
}

type Param struct {
	name string
	typ  string
}

type Clause struct {
	kind string // requires ensures invariant decreases modifies split
	tags []string
	name string
	e    *Node
	text string
	pos  string
	ord  int
	when *Node // modifies: only if this holds
}

type LoopSpec struct {
	ord     int
	vars    []Param // local names and types, for rebinding
	clauses []*Clause
}

type FuncSpec struct {
	key     string
	params  []string
	results []string
	clauses []*Clause
	loops   map[int]*LoopSpec
	flags   map[string]string // props, inline, trusted, terminates, safety, frame...
	pkg     string
	extern  bool
	pos     string
	used    bool
}

type DefSpec struct {
	opaque bool // its definition is only used where a contract reveals it
	name   string
	params []Param
	ret    string
	body   *Node // nil: uninterpreted
	rec    bool
	pkg    string
	pos    string
	trig   [][]*Node
}

type AxiomSpec struct {
	name   string
	e      *Node
	pkg    string
	lemma  bool
	induct string
	uses   []string
	pos    string
	text   string
	tags   []string
	only   []string
}

type TypeInv struct {
	typ  string
	v    string
	e    *Node
	pkg  string
	tags []string
	name string
	text string
}

type Specs struct {
	funcs  map[string]*FuncSpec
	defs   map[string]*DefSpec
	defOrd []string
	axioms []*AxiomSpec
	invs   []*TypeInv
	ghosts map[string]string // name -> type
	ghostO []string
	sorts  []string
	guards []*Guard
	memos  []*Memo
}

// Memo describes fields that a sync.Once computes on demand:
//
//	memo T.once inv field...
//
// inv holds for every object once the computation has run.
type Memo struct {
	typ, once, inv, pkg, pos string
	fields                   []string
}

// Guard is a locking or sharing rule:
//
//	guard [tags] locked T.mu field
//	guard [tags] private T
type Guard struct {
	kind, typ, mu, field, pkg, inv string
	put                            string // what may be put in the place of what
	tags                           []string
}

// ---- lexer ----

type tok struct {
	k string // id num str op eof
	s string
}

var opRe = regexp.MustCompile(`^(==>|<==>|::|==|!=|<=|>=|&&|\|\||<<|>>|&\^|[-+*/%<>!(){}\[\],.:&|?=])`)

func lex(s, pos string) []tok {
	var out []tok
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] == 'x' || s[j] == 'o' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F') {
				j++
			}
			out = append(out, tok{"num", s[i:j]})
			i = j
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			u, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				panic(fmt.Sprintf("%s: bad string %s", pos, s[i:j+1]))
			}
			out = append(out, tok{"str", u})
			i = j + 1
		case c == '\'':
			j := i + 1
			for s[j] != '\'' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(s[i+1:j], '\'')
			if err != nil {
				panic(fmt.Sprintf("%s: bad char %s", pos, s[i:j+1]))
			}
			out = append(out, tok{"num", strconv.Itoa(int(r))})
			i = j + 1
		case c == '$' || c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i + 1
			for j < len(s) && (s[j] == '_' || s[j] == '$' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		default:
			m := opRe.FindString(s[i:])
			if m == "" {
				panic(fmt.Sprintf("%s: bad character %q in %q", pos, c, s))
			}
			out = append(out, tok{"op", m})
			i += len(m)
		}
	}
	return append(out, tok{"eof", ""})
}

type parser struct {
	t   []tok
	i   int
	pos string
}

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *parser) is(s string) bool {
	t := p.t[p.i]
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Sprintf("%s: expected %q, got %q", p.pos, s, p.peek().s))
	}
}

var binPrec = map[string]int{
	"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"+": 6, "-": 6, "|": 6, "*": 7, "/": 7, "%": 7, "&": 7, "<<": 7, ">>": 7, "&^": 7,
}

func (p *parser) expr(min int) *Node {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := binPrec[t.s]
		if t.k != "op" || !ok || pr < min {
			return l
		}
		p.next()
		if t.s == "==>" {
			r := p.expr(pr)
			l = &Node{kind: "bin", s: t.s, n: []*Node{l, r}, pos: p.pos}
			continue
		}
		r := p.expr(pr + 1)
		// chained comparisons: a <= b < c < d
		if pr == 5 && l.kind == "bin" && binPrec[l.s] == 5 && l.pos != "paren" {
			l = &Node{kind: "bin", s: "&&", n: []*Node{l, {kind: "bin", s: t.s, n: []*Node{l.n[1], r}, pos: p.pos}}, pos: "chain"}
			continue
		}
		if pr == 5 && l.kind == "bin" && l.pos == "chain" {
			l = &Node{kind: "bin", s: "&&", n: []*Node{l, {kind: "bin", s: t.s, n: []*Node{l.n[1].n[1], r}, pos: p.pos}}, pos: "chain"}
			continue
		}
		l = &Node{kind: "bin", s: t.s, n: []*Node{l, r}, pos: p.pos}
	}
}

func (p *parser) unary() *Node {
	if p.accept("!") {
		return &Node{kind: "un", s: "!", n: []*Node{p.unary()}, pos: p.pos}
	}
	if p.accept("-") {
		return &Node{kind: "un", s: "-", n: []*Node{p.unary()}, pos: p.pos}
	}
	if p.accept("*") {
		return &Node{kind: "un", s: "*", n: []*Node{p.unary()}, pos: p.pos}
	}
	return p.postfix(p.primary())
}

var typeFirst = map[string]bool{"objs": true, "zero": true, "allelems": true, "allmaps": true, "objheap": true, "mapdoms": true, "mapvals": true, "elemheap": true}

func (p *parser) postfix(e *Node) *Node {
	for {
		switch {
		case p.accept("."):
			t := p.next()
			e = &Node{kind: "field", s: t.s, n: []*Node{e}, pos: p.pos}
		case p.accept("["):
			if p.accept(":") {
				hi := p.expr(1)
				p.expect("]")
				e = &Node{kind: "slice", n: []*Node{e, nil, hi}, pos: p.pos}
				continue
			}
			i := p.expr(1)
			if p.accept(":") {
				var hi *Node
				if !p.is("]") {
					hi = p.expr(1)
				}
				p.expect("]")
				e = &Node{kind: "slice", n: []*Node{e, i, hi}, pos: p.pos}
				continue
			}
			p.expect("]")
			e = &Node{kind: "index", n: []*Node{e, i}, pos: p.pos}
		case p.is("(") && (e.kind == "ident" || e.kind == "field"):
			p.next()
			c := &Node{kind: "call", n: []*Node{e}, pos: p.pos}
			for !p.accept(")") {
				// the second argument of is/as is a type
				if e.kind == "ident" && (e.s == "is" || e.s == "as" || e.s == "isobj" || typeFirst[e.s]) && (len(c.n) == 2 || typeFirst[e.s]) {
					c.n = append(c.n, &Node{kind: "type", s: p.typ(), pos: p.pos})
				} else {
					c.n = append(c.n, p.expr(1))
				}
				if !p.is(")") {
					p.expect(",")
				}
			}
			e = c
		default:
			return e
		}
	}
}

func (p *parser) typ() string {
	switch {
	case p.accept("*"):
		return "*" + p.typ()
	case p.accept("["):
		if p.accept("]") {
			return "[]" + p.typ()
		}
		n := p.next().s
		p.expect("]")
		return "[" + n + "]" + p.typ()
	}
	t := p.next()
	if t.k == "str" {
		return "raw:" + t.s
	}
	if t.k != "id" {
		panic(fmt.Sprintf("%s: bad type at %q", p.pos, t.s))
	}
	if t.s == "map" {
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return "map[" + k + "]" + p.typ()
	}
	if t.s == "func" {
		return "func"
	}
	s := t.s
	for p.accept(".") {
		s += "." + p.next().s
	}
	return s
}

func (p *parser) vars() []Param {
	var vs []Param
	for {
		n := p.next().s
		ns := []string{n}
		vs = append(vs, Param{n, p.typ()})
		_ = ns
		if !p.accept(",") {
			return vs
		}
	}
}

func (p *parser) primary() *Node {
	t := p.next()
	switch {
	case t.k == "num":
		return &Node{kind: "num", s: t.s, pos: p.pos}
	case t.k == "str":
		return &Node{kind: "str", s: t.s, pos: p.pos}
	case t.k == "op" && t.s == "(":
		e := p.expr(1)
		p.expect(")")
		if e.kind == "bin" {
			c := *e
			c.pos = "paren"
			return &c
		}
		return e
	case t.k == "id" && (t.s == "forall" || t.s == "exists"):
		q := &Node{kind: "quant", s: t.s, pos: p.pos}
		q.vars = p.vars()
		for p.accept("{") {
			var pat []*Node
			for {
				pat = append(pat, p.expr(1))
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			q.pats = append(q.pats, pat)
		}
		p.expect("::")
		q.n = []*Node{p.expr(1)}
		return q
	case t.k == "id" && t.s == "if":
		c := p.expr(1)
		p.expect("then")
		a := p.expr(1)
		p.expect("else")
		b := p.expr(1)
		return &Node{kind: "ite", n: []*Node{c, a, b}, pos: p.pos}
	case t.k == "id" && t.s == "let":
		v := p.next().s
		p.expect("=")
		a := p.expr(1)
		p.expect("in")
		b := p.expr(1)
		return &Node{kind: "let", s: v, n: []*Node{a, b}, pos: p.pos}
	case t.k == "id":
		return &Node{kind: "ident", s: t.s, pos: p.pos}
	}
	panic(fmt.Sprintf("%s: unexpected %q", p.pos, t.s))
}

func parseExpr(s, pos string) *Node {
	p := &parser{t: lex(s, pos), pos: pos}
	e := p.expr(1)
	if p.peek().k != "eof" {
		panic(fmt.Sprintf("%s: trailing %q in %q", pos, p.peek().s, s))
	}
	return e
}

// ---- contract files ----

var keywords = map[string]bool{"package": true, "fn": true, "def": true, "rec": true, "axiom": true, "lemma": true,
	"typeinv": true, "ghost": true, "sort": true, "func": true, "extern": true, "loop": true, "requires": true, "ensures": true,
	"invariant": true, "decreases": true, "modifies": true, "flag": true, "props": true, "split": true, "induction": true,
	"assert": true, "forget": true, "uses": true, "guard": true, "memo": true, "opaque": true}

func loadSpecs(dir string) *Specs {
	sp := &Specs{funcs: map[string]*FuncSpec{}, defs: map[string]*DefSpec{}, ghosts: map[string]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gcv"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		sp.parseFile(filepath.Base(f), string(b))
	}
	return sp
}

var tagRe = regexp.MustCompile(`^\[([A-Za-z0-9_., -]*)\]\s*`)

func (sp *Specs) parseFile(name, txt string) {
	type line struct {
		kw, rest, pos string
	}
	var lines []line
	for n, raw := range strings.Split(txt, "\n") {
		l := raw
		if i := commentAt(l); i >= 0 {
			l = l[:i]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		f := strings.Fields(l)[0]
		pos := fmt.Sprintf("%s:%d", name, n+1)
		if keywords[f] {
			lines = append(lines, line{f, strings.TrimSpace(strings.TrimSpace(l)[len(f):]), pos})
		} else if len(lines) > 0 {
			lines[len(lines)-1].rest += " " + strings.TrimSpace(l)
		} else {
			panic(pos + ": text before any item")
		}
	}
	pkg := ""
	var cur *FuncSpec
	var loop *LoopSpec
	var lem *AxiomSpec
	for _, l := range lines {
		switch l.kw {
		case "package":
			pkg = l.rest
		case "memo":
			f := strings.Fields(l.rest)
			i := strings.LastIndex(f[0], ".")
			sp.memos = append(sp.memos, &Memo{typ: f[0][:i], once: f[0][i+1:], inv: f[1], fields: f[2:], pkg: pkg, pos: l.pos})
		case "guard":
			r := l.rest
			g := &Guard{pkg: pkg}
			if m := tagRe.FindStringSubmatch(r); m != nil {
				g.tags = splitTags(m[1])
				r = r[len(m[0]):]
			}
			f := strings.Fields(r)
			g.kind = f[0]
			if g.kind == "locked" {
				i := strings.LastIndex(f[1], ".")
				g.typ, g.mu, g.field = f[1][:i], f[1][i+1:], f[2]
				if len(f) > 3 {
					g.inv = f[3]
				}
				if len(f) > 4 {
					g.put = f[4]
				}
			} else {
				g.typ = f[1]
			}
			sp.guards = append(sp.guards, g)
		case "sort":
			sp.sorts = append(sp.sorts, l.rest)
		case "ghost":
			f := strings.Fields(l.rest)
			gt := strings.TrimSpace(l.rest[len(f[0]):])
			if strings.HasPrefix(gt, "\"") {
				gt = "raw:" + strings.Trim(gt, "\"")
			}
			sp.ghosts["$"+f[0]] = gt
			sp.ghostO = append(sp.ghostO, "$"+f[0])
		case "fn", "def", "rec", "opaque":
			p := &parser{t: lex(l.rest, l.pos), pos: l.pos}
			d := &DefSpec{name: p.next().s, pkg: pkg, pos: l.pos, rec: l.kw == "rec" || l.kw == "opaque", opaque: l.kw == "opaque"}
			p.expect("(")
			if !p.accept(")") {
				d.params = p.vars()
				p.expect(")")
			}
			d.ret = p.typ()
			for p.accept("{") {
				var pat []*Node
				for {
					pat = append(pat, p.expr(1))
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				d.trig = append(d.trig, pat)
			}
			if p.accept("=") {
				d.body = p.expr(1)
			}
			if p.peek().k != "eof" {
				panic(l.pos + ": trailing " + p.peek().s)
			}
			if sp.defs[d.name] != nil {
				panic(l.pos + ": duplicate " + d.name)
			}
			sp.defs[d.name] = d
			sp.defOrd = append(sp.defOrd, d.name)
		case "axiom", "lemma":
			i := strings.Index(l.rest, ":")
			a := &AxiomSpec{name: strings.TrimSpace(l.rest[:i]), pkg: pkg, lemma: l.kw == "lemma", pos: l.pos}
			r := strings.TrimSpace(l.rest[i+1:])
			a.text = r
			if m := tagRe.FindStringSubmatch(a.name); m != nil {
				a.tags = splitTags(m[1])
				a.name = strings.TrimSpace(a.name[len(m[0]):])
			}
			a.e = parseExpr(r, l.pos)
			sp.axioms = append(sp.axioms, a)
			lem = a
			cur, loop = nil, nil
		case "induction":
			lem.induct = l.rest
		case "uses":
			lem.uses = strings.Fields(l.rest)
		case "typeinv":
			// typeinv [tags] T v: expr
			r := l.rest
			ti := &TypeInv{pkg: pkg}
			if m := tagRe.FindStringSubmatch(r); m != nil {
				ti.tags = splitTags(m[1])
				r = r[len(m[0]):]
			}
			i := strings.Index(r, ":")
			f := strings.Fields(r[:i])
			ti.typ, ti.v = f[0], f[1]
			ti.text = strings.TrimSpace(r[i+1:])
			ti.name = fmt.Sprintf("typeinv.%s.%d", ti.typ, len(sp.invs))
			ti.e = parseExpr(r[i+1:], l.pos)
			sp.invs = append(sp.invs, ti)
		case "func", "extern":
			cur = sp.parseHeader(l.rest, l.pos, pkg)
			cur.extern = l.kw == "extern"
			if sp.funcs[cur.key] != nil {
				panic(l.pos + ": duplicate contract for " + cur.key)
			}
			sp.funcs[cur.key] = cur
			loop = nil
		case "loop":
			f := strings.Fields(l.rest)
			n, err := strconv.Atoi(f[0])
			if err != nil {
				panic(l.pos + ": loop number")
			}
			loop = &LoopSpec{ord: n}
			if len(f) > 1 {
				p := &parser{t: lex(strings.Join(f[1:], " "), l.pos), pos: l.pos}
				p.expect("(")
				loop.vars = p.vars()
				p.expect(")")
			}
			cur.loops[n] = loop
		case "flag":
			for _, f := range strings.Fields(l.rest) {
				k, v, _ := strings.Cut(f, "=")
				cur.flags[k] = v
			}
		case "props":
			cur.flags["props"] = l.rest
		case "forget": // the loop is verified without the quantified facts from before it
			if loop != nil {
				loop.clauses = append(loop.clauses, &Clause{kind: l.kw, pos: l.pos})
			}
		case "requires", "ensures", "invariant", "decreases", "modifies", "split", "assert":
			r := l.rest
			c := &Clause{kind: l.kw, pos: l.pos}
			if m := tagRe.FindStringSubmatch(r); m != nil {
				for _, t := range splitTags(m[1]) {
					if regexp.MustCompile(`^C\d\d$`).MatchString(t) {
						c.tags = append(c.tags, t)
					} else {
						c.name = t
					}
				}
				r = r[len(m[0]):]
			}
			c.text = r
			if l.kw == "modifies" {
				if strings.TrimSpace(r) != "nothing" {
					if a, b, ok := strings.Cut(r, " when "); ok {
						c.when = parseExpr(b, l.pos)
						r = a
					}
					p := &parser{t: lex(r, l.pos), pos: l.pos}
					for {
						e := p.expr(1)
						cc := *c
						cc.e = e
						cl := &cc
						if loop != nil {
							loop.clauses = append(loop.clauses, cl)
						} else {
							cur.clauses = append(cur.clauses, cl)
						}
						if !p.accept(",") {
							break
						}
					}
				} else {
					cur.flags["pure"] = "1"
				}
				continue
			}
			if l.kw == "split" {
				c.e = &Node{kind: "str", s: r}
			} else {
				c.e = parseExpr(r, l.pos)
			}
			if loop != nil && (l.kw == "invariant" || l.kw == "decreases" || l.kw == "assert") {
				c.ord = len(loop.clauses)
				loop.clauses = append(loop.clauses, c)
			} else {
				c.ord = len(cur.clauses)
				cur.clauses = append(cur.clauses, c)
			}
		}
	}
}

func commentAt(l string) int {
	in := false
	for i := 0; i+1 < len(l); i++ {
		if l[i] == '\\' && in {
			i++
			continue
		}
		if l[i] == '"' {
			in = !in
		}
		if !in && l[i] == '/' && l[i+1] == '/' {
			return i
		}
	}
	return -1
}

func splitTags(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' })
}

var headRe = regexp.MustCompile(`^(.*?)\(([A-Za-z0-9_, ]*)\)\s*(?:\(([A-Za-z0-9_, ]*)\))?$`)

// parseHeader parses "memfs.(*FS).Open(fsys, name) (f, err)".
func (sp *Specs) parseHeader(s, pos, pkg string) *FuncSpec {
	// find the parameter list: the last one or two parenthesised groups
	s = strings.TrimSpace(s)
	groups := []string{}
	rest := s
	for len(groups) < 2 && strings.HasSuffix(rest, ")") {
		i := strings.LastIndex(rest, "(")
		g := rest[i+1 : len(rest)-1]
		if strings.HasPrefix(g, "*") {
			break
		}
		groups = append([]string{g}, groups...)
		rest = strings.TrimSpace(rest[:i])
		if i > 0 && s[i-1] != ' ' {
			break
		}
	}
	f := &FuncSpec{key: rest, loops: map[int]*LoopSpec{}, flags: map[string]string{}, pkg: pkg, pos: pos}
	sp2 := func(g string) []string {
		return strings.FieldsFunc(g, func(r rune) bool { return r == ',' || r == ' ' })
	}
	if len(groups) > 0 {
		f.params = sp2(groups[0])
	}
	if len(groups) > 1 {
		f.results = sp2(groups[1])
	}
	return f
}
