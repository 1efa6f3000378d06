package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Report struct {
	Prop      string         `json:"property"`
	Funcs     []*FuncResult  `json:"functions"`
	Proved    int            `json:"proved"`
	Failed    int            `json:"failed"`
	Undecided int            `json:"undecided"`
	ByTool    map[string]int `json:"by_tool"`
	SolverMs  int64          `json:"solver_ms"`
	Queries   int            `json:"queries"`
	Trusted   []string       `json:"trusted"`
	Inlined   []string       `json:"inlined"`
	WallMs    int64          `json:"wall_ms"`
	Error     string         `json:"error,omitempty"`
}

func hasTag(ts []string, p string) bool {
	for _, t := range ts {
		if t == p {
			return true
		}
	}
	return false
}

func rootsOf(sp *Specs, prop string) []string {
	var out []string
	for k, f := range sp.funcs {
		if f.extern {
			continue
		}
		if prop == "" || hasTag(splitTags(f.flags["props"]), prop) {
			out = append(out, k)
		}
	}
	for _, a := range sp.axioms {
		if a.lemma && (prop == "" || hasTag(a.tags, prop)) {
			out = append(out, "lemma:"+a.name)
		}
	}
	sort.Strings(out)
	return out
}

func main() {
	repo := flag.String("repo", "/repo", "")
	cdir := flag.String("contracts", "/verif/contracts", "")
	prop := flag.String("prop", "", "")
	fns := flag.String("fn", "", "verify only these functions")
	jsonOut := flag.String("json", "", "")
	jobs := flag.Int("j", 8, "")
	timeout := flag.Int("timeout", 2000, "ms per obligation")
	quick := flag.Int("quick", 400, "ms per feasibility query")
	budget := flag.Int("budget", 200, "seconds per function")
	verbose := flag.Bool("v", false, "")
	listExt := flag.Bool("ext", false, "list external functions called")
	dump := flag.String("ssa", "", "print the SSA of a function")
	loops := flag.String("loops", "", "print the loops of a function")
	flag.Parse()
	t0 := time.Now()
	rep := &Report{Prop: *prop, ByTool: map[string]int{}}
	fail := func(err any) {
		rep.Error = fmt.Sprint(err)
		fmt.Fprintln(os.Stderr, "gcv:", err)
		if *jsonOut != "" {
			b, _ := json.MarshalIndent(rep, "", " ")
			os.WriteFile(*jsonOut, b, 0o644)
		}
		os.Exit(2)
	}
	w, err := loadWorld(*repo)
	if err != nil {
		fail(err)
	}
	if *dump != "" {
		for k, f := range w.byKey {
			if k == *dump || *dump == "all" {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	if *listExt {
		ext := map[string]bool{}
		for _, f := range w.byKey {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if c.Common().IsInvoke() {
							ext["invoke "+invokeKey(c.Common())+"  "+fnKey(f)] = true
						} else if s := c.Common().StaticCallee(); s != nil && !w.inRepo(s) {
							ext[fnKey(s)+"  "+fnKey(f)] = true
						}
					}
				}
			}
		}
		for _, k := range keys(ext) {
			fmt.Println(k)
		}
		return
	}
	var sp *Specs
	func() {
		defer func() {
			if r := recover(); r != nil {
				fail(r)
			}
		}()
		sp = loadSpecs(*cdir)
	}()
	if *loops != "" {
		x := newExec(w, sp, &Config{})
		x.fn = w.byKey[*loops]
		x.spec = sp.funcs[*loops]
		x.loopOrd = map[string]int{}
		n := 0
		x.numberLoops(x.fn, "", &n, []*ssa.Function{x.fn})
		for k, v := range x.loopOrd {
			fmt.Println(v, k)
		}
		return
	}
	cfg := &Config{prop: *prop, timeout: *timeout, quick: *quick, budget: time.Duration(*budget) * time.Second, dbg: *verbose}
	var roots []string
	closure := true
	if *fns != "" {
		roots = strings.Split(*fns, ";")
		closure = false
	} else {
		roots = rootsOf(sp, *prop)
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	seen := map[string]bool{}
	var queue []string
	active := 0
	push := func(k string) {
		if !seen[k] {
			seen[k] = true
			queue = append(queue, k)
		}
	}
	for _, r := range roots {
		push(r)
	}
	nw := *jobs
	if nw > len(queue) && !closure {
		nw = len(queue)
	}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var ww *World
			var wsp *Specs
			for {
				mu.Lock()
				for len(queue) == 0 && active > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				k := queue[0]
				queue = queue[1:]
				active++
				mu.Unlock()
				if ww == nil {
					ww, _ = loadWorld(*repo)
					wsp = loadSpecs(*cdir)
				}
				r := verifyFunc(ww, wsp, k, cfg)
				mu.Lock()
				rep.Funcs = append(rep.Funcs, r)
				if closure {
					for _, c := range r.Calls {
						push(c)
					}
				}
				active--
				mu.Unlock()
				cond.Broadcast()
			}
		}(i)
	}
	wg.Wait()
	sort.Slice(rep.Funcs, func(i, j int) bool { return rep.Funcs[i].Key < rep.Funcs[j].Key })
	tr, il := map[string]bool{}, map[string]bool{}
	for _, f := range rep.Funcs {
		np, nf := 0, 0
		for _, o := range f.Obls {
			switch o.Status {
			case "proved":
				np++
				rep.ByTool[o.Tool]++
			case "failed":
				nf++
				rep.Failed++
			default:
				rep.Undecided++
			}
		}
		rep.Proved += np
		rep.SolverMs += f.SolverMs
		rep.Queries += f.Queries
		for _, t := range f.Trusted {
			tr[t] = true
		}
		for _, t := range f.Inlined {
			il[t] = true
		}
		if len(f.Limit) > 0 {
			rep.Undecided++
		}
		fmt.Printf("%-50s proved %3d failed %2d paths %4d queries %5d solver %6dms wall %6dms %s\n", f.Key, np, nf, f.Paths, f.Queries, f.SolverMs, f.Ms, strings.Join(f.Limit, "; "))
		for _, o := range f.Obls {
			if o.Status != "proved" {
				fmt.Printf("    %s %s %s [%s] %s: %s\n", o.Status, o.Kind, o.Name, o.Pos, trunc(o.Why, 80), trunc(o.Text, 200))
			}
		}
	}
	rep.Trusted, rep.Inlined = keys(tr), keys(il)
	rep.WallMs = time.Since(t0).Milliseconds()
	fmt.Printf("TOTAL proved %d failed %d undecided %d in %d functions, solver %dms, wall %dms\n", rep.Proved, rep.Failed, rep.Undecided, len(rep.Funcs), rep.SolverMs, rep.WallMs)
	if *jsonOut != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*jsonOut, b, 0o644)
	}
	switch {
	case rep.Failed > 0:
		os.Exit(1)
	case rep.Undecided > 0:
		os.Exit(3)
	}
}
