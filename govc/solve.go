package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// smtText assembles the query of one obligation.
func (c *Ctx) smtText(o *Obl, values bool) string {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	if values {
		b.WriteString("(set-option :produce-models true)\n")
	}
	body := strings.Join(c.prune(c.asserts[:o.Prefix], o.pruned, 0), "\n")
	for _, d := range c.m.decls {
		b.WriteString(d)
		b.WriteByte('\n')
	}
	var late []string
	for _, s := range c.m.strDecls() {
		if strings.HasPrefix(s, "(declare") {
			b.WriteString(s)
			b.WriteByte('\n')
		} else {
			late = append(late, s)
		}
	}
	for _, d := range c.consts {
		b.WriteString(d)
		b.WriteByte('\n')
	}
	for _, a := range c.prune(c.m.axioms, o.pruned, -1) {
		b.WriteString(a)
		b.WriteByte('\n')
	}
	for _, a := range late {
		b.WriteString(a)
		b.WriteByte('\n')
	}
	for _, a := range c.m.implFacts() {
		b.WriteString(a)
		b.WriteByte('\n')
	}
	b.WriteString(body)
	b.WriteString("\n; goal: " + strings.ReplaceAll(o.Name+" : "+o.Text, "\n", " ") + "\n")
	if o.inSplit {
		if o.only != nil {
			b.WriteString("(assert " + o.only.s + ")\n")
		} else {
			b.WriteString("(assert " + mkNot(mkOr(o.splits...)).s + ")\n")
		}
	}
	b.WriteString("(assert " + mkNot(o.Goal).s + ")\n(check-sat)\n")
	if values {
		var vs []string
		for _, p := range c.params {
			if p.t.so == sInt || p.t.so == sBool {
				vs = append(vs, p.t.s)
			}
			if p.t.so == sSlice {
				vs = append(vs, "(s-len "+p.t.s+")")
			}
			if p.t.so == sStr {
				vs = append(vs, "(slen "+p.t.s+")")
			}
		}
		if len(vs) > 0 {
			b.WriteString("(get-value (" + strings.Join(vs, " ") + "))\n")
		}
	}
	return b.String()
}

// prune leaves out the hypotheses with quantifiers which the hint does not name.
func (c *Ctx) prune(as []string, h *Hint, base int) []string {
	if h == nil {
		return as
	}
	var out []string
	for i, a := range as {
		keep := !strings.Contains(a, "(forall ")
		tag := ""
		if base >= 0 {
			tag = c.tags[i]
		}
		switch {
		case keep:
		case strings.Contains(a, ":pattern ((sum!"):
			tag = "sums"
		case strings.Contains(a, ":pattern ((pow2 "):
			tag = "pow2"
		case tag == "":
			tag = "other"
			keep = base < 0
		}
		for _, k := range h.Keep {
			if tag == k || strings.HasSuffix(k, "*") && strings.HasPrefix(tag, k[:len(k)-1]) {
				keep = true
			}
		}
		if keep {
			out = append(out, a)
		}
	}
	return out
}

// hint finds the hint for an obligation.
func (c *Ctx) hint(o *Obl) *Hint {
	if c.con == nil || o.pruned != nil || o.inSplit || o.Kind == "cover" {
		return nil
	}
	for _, h := range c.con.Hints {
		if h.Kind == o.Kind || strings.HasSuffix(h.Kind, "*") && strings.HasPrefix(o.Kind, h.Kind[:len(h.Kind)-1]) {
			return h
		}
	}
	return nil
}

type solverCfg struct {
	name string
	args func(sec int) []string
}

var portfolio = []solverCfg{
	{"z3-new", func(s int) []string { return []string{"z3-new", fmt.Sprintf("-T:%d", s)} }},
	{"z3-new/ematch", func(s int) []string {
		return []string{"z3-new", fmt.Sprintf("-T:%d", s), "auto_config=false", "smt.mbqi=false"}
	}},
	{"cvc5", func(s int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000)}
	}},
	{"z3", func(s int) []string { return []string{"z3", fmt.Sprintf("-T:%d", s)} }},
}

func runSolver(ctx context.Context, cfg solverCfg, file string, sec int) (string, string) {
	a := append(cfg.args(sec), file)
	cmd := exec.CommandContext(ctx, a[0], a[1:]...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	s := out.String()
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			return l, s
		}
		if strings.HasPrefix(l, "(error") {
			return "error", s
		}
	}
	return "timeout", s
}

type job struct {
	c *Ctx
	o *Obl
}

type solveOpts struct {
	dir   string
	quick int // seconds for the first attempt
	long  int // seconds for the portfolio
	cover int
	keep  bool

	maxFail int // failed obligations after which the others are left out
	budget  int // seconds after which the others are left out
}

var fileNo struct {
	sync.Mutex
	n int
}

func (j job) run(ctx context.Context, opt solveOpts, sem chan struct{}) {
	o := j.o
	if o.trivial {
		return
	}
	if ctx.Err() != nil {
		o.Status, o.Solver = "failed", "cancelled"
		return
	}
	if h := j.c.hint(o); h != nil {
		k := *o
		k.pruned = h
		job{j.c, &k}.run(ctx, opt, sem)
		if k.Status == "proved" {
			o.Status, o.Solver, o.Secs = k.Status, k.Solver, k.Secs
			return
		}
	}
	fileNo.Lock()
	fileNo.n++
	f := filepath.Join(opt.dir, fmt.Sprintf("o%05d.smt2", fileNo.n))
	fileNo.Unlock()
	text := j.c.smtText(o, false)
	os.WriteFile(f, []byte(text), 0o644)
	if !opt.keep {
		defer os.Remove(f)
	} else {
		o.Reason = f
	}
	t0 := time.Now()
	defer func() { o.Secs = time.Since(t0).Seconds() }()
	if o.Kind == "cover" {
		sem <- struct{}{}
		r, out := runSolver(ctx, portfolio[1], f, opt.cover)
		<-sem
		o.Solver = portfolio[1].name
		switch r {
		case "unsat":
			o.Status = "failed"
			o.Model = "unreachable: the assumptions contradict each other"
		case "error":
			o.Status = "failed"
			o.Model = out
		default:
			o.Status = "proved"
		}
		return
	}
	sem <- struct{}{}
	r, out := runSolver(ctx, portfolio[1], f, opt.quick)
	<-sem
	if r == "unsat" {
		o.Status, o.Solver = "proved", portfolio[1].name
		return
	}
	if r == "error" {
		o.Status, o.Solver, o.Model = "failed", portfolio[1].name, out
		return
	}
	if len(o.splits) > 0 && !o.inSplit {
		// branch by branch: every branch of the join, and the case that none was taken
		cases := make([]*Obl, len(o.splits)+1)
		cctx, cancel := context.WithCancel(ctx)
		defer cancel()
		bad := make(chan int, len(cases))
		var wg sync.WaitGroup
		for i := range cases {
			k := *o
			k.inSplit = true
			if i < len(o.splits) {
				k.only = &o.splits[i]
			}
			cases[i] = &k
			wg.Add(1)
			go func() {
				defer wg.Done()
				job{j.c, &k}.run(cctx, opt, sem)
				if k.Status != "proved" && cctx.Err() == nil {
					bad <- i
					if os.Getenv("GOVC_ALLBRANCHES") == "" {
						cancel()
					} else {
						fmt.Fprintln(os.Stderr, o.Name, "branch", i, k.Solver, k.Reason)
					}
				}
			}()
		}
		wg.Wait()
		o.Status, o.Solver = "proved", ""
		names := map[string]bool{}
		if len(bad) > 0 {
			i := <-bad
			k := cases[i]
			o.Status, o.Solver, o.Model, o.Reason = "failed", fmt.Sprintf("branch %d: %s", i, k.Solver), k.Model, k.Reason
			return
		}
		for _, k := range cases {
			if k.Status != "proved" {
				o.Status, o.Solver = "failed", k.Solver
				return
			}
			names[k.Solver] = true
		}
		var ns []string
		for n := range names {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		o.Solver = strings.Join(ns, "+")
		return
	}
	// portfolio in parallel
	fc := f
	if t := cvc5Text(text); t != text {
		fc = f + ".cvc5"
		os.WriteFile(fc, []byte(t), 0o644)
		if !opt.keep {
			defer os.Remove(fc)
		}
	}
	type ans struct{ r, out, name string }
	cctx, cancel := context.WithCancel(ctx)
	defer cancel()
	ch := make(chan ans, len(portfolio))
	for _, p := range portfolio {
		go func(p solverCfg) {
			sem <- struct{}{}
			defer func() { <-sem }()
			if cctx.Err() != nil {
				ch <- ans{"timeout", "", p.name}
				return
			}
			pf := f
			if p.name == "cvc5" {
				pf = fc
			}
			r, out := runSolver(cctx, p, pf, opt.long)
			ch <- ans{r, out, p.name}
		}(p)
	}
	var log []string
	sat := ""
	for range portfolio {
		a := <-ch
		if a.r == "unsat" {
			o.Status, o.Solver = "proved", a.name
			return
		}
		log = append(log, a.name+": "+a.r)
		if a.r == "sat" {
			sat = a.name
			break
		}
	}
	o.Status = "failed"
	o.Solver = strings.Join(log, ", ")
	if sat != "" {
		cancel()
		os.WriteFile(f+".m", []byte(j.c.smtText(o, true)), 0o644)
		sem <- struct{}{}
		r, out := runSolver(ctx, portfolio[0], f+".m", opt.long)
		<-sem
		os.Remove(f + ".m")
		if r == "sat" {
			o.Model = out
		}
	}
}

func solveAll(jobs []job, opt solveOpts) {
	sem := make(chan struct{}, runtime.NumCPU())
	var wg sync.WaitGroup
	var mu sync.Mutex
	fails := 0
	ctx, cancel := context.WithCancel(context.Background())
	if opt.budget > 0 {
		ctx, cancel = context.WithTimeout(ctx, time.Duration(opt.budget)*time.Second)
	}
	defer cancel()
	// outer limit keeps the number of pending query files small
	outer := make(chan struct{}, runtime.NumCPU()+4)
	for _, j := range jobs {
		wg.Add(1)
		outer <- struct{}{}
		go func(j job) {
			defer wg.Done()
			defer func() { <-outer }()
			j.run(ctx, opt, sem)
			if ctx.Err() != nil && j.o.Status != "proved" {
				j.o.Status, j.o.Solver = "failed", "left out"
				if j.o.Kind == "cover" {
					j.o.Status = "proved"
				}
				return
			}
			if j.o.Status == "failed" && j.o.Kind != "cover" {
				mu.Lock()
				fails++
				if opt.maxFail > 0 && fails >= opt.maxFail {
					cancel()
				}
				mu.Unlock()
			}
		}(j)
	}
	wg.Wait()
}
