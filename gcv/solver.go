package main

// SMT solver back end: one incremental z3 process, with fresh-process fallbacks.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Fact is a node of a persistent list of assumptions (a path condition).
type Fact struct {
	t      *Term
	parent *Fact
	depth  int
}

type Solver struct {
	tb         *TB
	prelude    string
	cmd        *exec.Cmd
	in         io.WriteCloser
	out        *bufio.Reader
	stack      []*Fact
	ndecl      int // declarations already sent
	queries    int
	elapsed    time.Duration
	byTool     map[string]int
	timeout    int // ms
	log        io.Writer
	polP, polN map[*Term]*Term
}

func newSolver(tb *TB, prelude string, timeout int) *Solver {
	s := &Solver{tb: tb, prelude: prelude, timeout: timeout, byTool: map[string]int{}, polP: map[*Term]*Term{}, polN: map[*Term]*Term{}}
	if f := os.Getenv("GCV_SMTLOG"); f != "" {
		fh, _ := os.Create(f)
		s.log = fh
	}
	return s
}

const z3opts = `(set-option :global-declarations true)
(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :smt.qi.eager_threshold 30)
`

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReader(out)
	s.ndecl = 0
	s.stack = nil
	s.send(z3opts + fmt.Sprintf("(set-option :timeout %d)\n", s.timeout) + s.prelude)
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(t string) {
	if s.log != nil {
		io.WriteString(s.log, t)
	}
	io.WriteString(s.in, t)
}

func factPath(f *Fact) []*Fact {
	var p []*Fact
	if f != nil {
		p = make([]*Fact, f.depth)
		for ; f != nil; f = f.parent {
			p[f.depth-1] = f
		}
	}
	return p
}

func (s *Solver) sync(f *Fact) {
	if s.cmd == nil {
		s.start()
	}
	path := factPath(f)
	n := 0
	for n < len(path) && n < len(s.stack) && path[n] == s.stack[n] {
		n++
	}
	var sb strings.Builder
	// Declarations are global: pop everything only as far as necessary, and
	// declare at the current level (popped declarations are sent again).
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(&sb, "(pop %d)\n", k)
		s.stack = s.stack[:n]
	}
	sb.WriteString(s.newDecls())
	for _, x := range path[n:] {
		sb.WriteString("(push 1)\n(assert ")
		printTerm(&sb, s.norm(x.t))
		sb.WriteString(")\n")
		s.stack = append(s.stack, x)
	}
	s.send(sb.String())
}

func (s *Solver) newDecls() string {
	d := s.tb.decls[s.ndecl:]
	s.ndecl = len(s.tb.decls)
	if len(d) == 0 {
		return ""
	}
	return strings.Join(d, "\n") + "\n"
}

// check reports whether facts ∧ extra is satisfiable: "sat", "unsat" or "unknown".
func (s *Solver) check(f *Fact, extra *Term, timeoutMS int) (string, string) {
	t0 := time.Now()
	defer func() { s.elapsed += time.Since(t0) }()
	s.queries++
	s.sync(f)
	var sb strings.Builder
	sb.WriteString(s.newDecls())
	if timeoutMS != s.timeout {
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n", timeoutMS)
	}
	sb.WriteString("(push 1)\n")
	if extra != nil {
		sb.WriteString("(assert ")
		printTerm(&sb, s.norm(extra))
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	s.send(sb.String())
	r := s.readLine()
	why := ""
	if r == "unknown" {
		s.send("(get-info :reason-unknown)\n")
		why = s.readLine()
	}
	s.send("(pop 1)\n")
	if timeoutMS != s.timeout {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	}
	if r != "sat" && r != "unsat" && r != "unknown" {
		panic("z3: " + r + "\n" + sb.String())
	}
	return r, why
}

// norm replaces string equality in asserted positions by plain equality, which
// the solver merges at once; sEq is only needed where equality has to be shown.
func (s *Solver) norm(t *Term) *Term { return s.pol(t, true) }

func (s *Solver) pol(t *Term, pos bool) *Term {
	if t.sort != SBool {
		return t
	}
	switch t.op {
	case "sEq":
		if pos {
			return s.tb.App(SBool, "=", t.args[0], t.args[1])
		}
		return t
	case "and", "or", "not", "=>", "forall", "exists", "ite":
	default:
		return t
	}
	m := s.polP
	if !pos {
		m = s.polN
	}
	if r, ok := m[t]; ok {
		return r
	}
	var r *Term
	switch t.op {
	case "not":
		r = s.tb.App(SBool, "not", s.pol(t.args[0], !pos))
	case "=>":
		r = s.tb.App(SBool, "=>", s.pol(t.args[0], !pos), s.pol(t.args[1], pos))
	case "forall", "exists":
		b := s.pol(t.args[0], pos)
		if b == t.args[0] {
			r = t
		} else {
			r = s.tb.Quant(t.op, t.bound, t.pats, b)
		}
	default:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			if t.op == "ite" && i == 0 {
				as[i] = a
			} else {
				as[i] = s.pol(a, pos)
			}
		}
		r = s.tb.App(SBool, t.op, as...)
	}
	m[t] = r
	return r
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic(fmt.Sprintf("z3 ended: %v %s", err, l))
	}
	return strings.TrimSpace(l)
}

// script renders a self-contained query.
func (s *Solver) script(f *Fact, extra *Term) string {
	var sb strings.Builder
	sb.WriteString(s.prelude)
	sb.WriteString(strings.Join(s.tb.decls, "\n"))
	sb.WriteString("\n")
	for _, x := range factPath(f) {
		sb.WriteString("(assert ")
		printTerm(&sb, s.norm(x.t))
		sb.WriteString(")\n")
	}
	if extra != nil {
		sb.WriteString("(assert ")
		printTerm(&sb, s.norm(extra))
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// race runs the query in new processes of several solvers at once and names
// the first that refutes it. Otherwise it says whether one of them came to an
// end without: all that follows from the facts was not enough.
func (s *Solver) race(f *Fact, extra *Term, sec int) (tool string, gaveUp bool) {
	t0 := time.Now()
	defer func() { s.elapsed += time.Since(t0) }()
	s.queries++
	dir, err := os.MkdirTemp("", "gcv")
	if err != nil {
		return "", false
	}
	defer os.RemoveAll(dir)
	txt := s.script(f, extra)
	os.WriteFile(dir+"/z.smt2", []byte(z3opts+txt), 0o600)
	os.WriteFile(dir+"/c.smt2", []byte("(set-logic ALL)\n"+txt), 0o600)
	tools := [][]string{
		{"z3-new", fmt.Sprintf("-T:%d", sec), dir + "/z.smt2"},
		{"z3-new", fmt.Sprintf("-T:%d", sec), "smt.random_seed=7", dir + "/z.smt2"},
		{"z3", fmt.Sprintf("-T:%d", sec), dir + "/z.smt2"},
		{"cvc5", fmt.Sprintf("--tlimit=%d", sec*1000), dir + "/c.smt2"},
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(sec+5)*time.Second)
	ch := make(chan string, len(tools))
	for _, a := range tools {
		go func() {
			out, _ := exec.CommandContext(ctx, a[0], a[1:]...).Output()
			for _, l := range strings.Split(string(out), "\n") {
				switch strings.TrimSpace(l) {
				case "unsat":
					ch <- a[0]
					return
				case "sat", "unknown":
					if a[0] != "cvc5" {
						ch <- "?"
						return
					}
				}
			}
			ch <- ""
		}()
	}
	won := ""
	for i := range tools {
		switch r := <-ch; {
		case r == "?":
			gaveUp = true
		case r != "" && won == "":
			won = r
			cancel()
		}
		_ = i
	}
	cancel()
	return won, gaveUp
}

// printTerm writes t, sharing large repeated subterms with let.
func printTerm(sb *strings.Builder, t *Term) {
	if t.size < 60 {
		t.write(sb)
		return
	}
	count := map[*Term]int{}
	var walk func(x *Term)
	walk = func(x *Term) {
		count[x]++
		if count[x] > 1 || x.op == "forall" || x.op == "exists" {
			return
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(t)
	names := map[*Term]string{}
	var lets []string
	var pr func(x *Term, o *strings.Builder, top bool)
	pr = func(x *Term, o *strings.Builder, top bool) {
		if n, ok := names[x]; ok {
			o.WriteString(n)
			return
		}
		if len(x.args) == 0 || x.op == "forall" || x.op == "exists" {
			x.write(o)
			return
		}
		if !top && count[x] > 1 && x.size > 4 && !x.free {
			var d strings.Builder
			pr(x, &d, true)
			n := fmt.Sprintf("$l%d", len(lets))
			lets = append(lets, "(let (("+n+" "+d.String()+")) ")
			names[x] = n
			o.WriteString(n)
			return
		}
		o.WriteByte('(')
		if strings.HasPrefix(x.op, "is:") {
			fmt.Fprintf(o, "(_ is %s)", x.op[3:])
		} else if x.op == "constarr" {
			fmt.Fprintf(o, "(as const %s)", x.sort)
		} else {
			o.WriteString(x.op)
		}
		for _, a := range x.args {
			o.WriteByte(' ')
			pr(a, o, false)
		}
		o.WriteByte(')')
	}
	var body strings.Builder
	pr(t, &body, true)
	for _, l := range lets {
		sb.WriteString(l)
	}
	sb.WriteString(body.String())
	sb.WriteString(strings.Repeat(")", len(lets)))
}
