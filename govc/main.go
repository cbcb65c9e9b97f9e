package main

import (
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// unit is one thing to verify: a function under contract or a lemma.
type unit struct {
	name string
	fn   *ssa.Function
	con  *Contract
	lem  *Lemma
	sum  *Macro
	impl types.Type // receiver type of a method verified against the contract of its interface
	ctx  *Ctx
	err  error
}

func (u *unit) obls() []*Obl {
	if u.ctx == nil {
		return nil
	}
	return u.ctx.obls
}

func (P *Program) contractUnit(key string) *unit {
	con := P.contracts[key]
	u := &unit{name: key, con: con, fn: P.fns[key]}
	return u
}

// implUnits returns one unit per type which implements the interface of the
// contract: its method must satisfy the contract of the interface method.
func (P *Program) implUnits(con *Contract) []*unit {
	if len(con.Props) == 0 {
		return nil
	}
	i := strings.LastIndex(con.Key, ".")
	j := strings.LastIndex(con.Key[:i], ".")
	bad := func(f string, a ...any) []*unit {
		return []*unit{{name: con.Key, con: con, err: fmt.Errorf(f, a...)}}
	}
	pkg := P.pkgByRel(con.Key[:j])
	if pkg == nil {
		return bad("unknown package %s", con.Key[:j])
	}
	o := pkg.Scope().Lookup(con.Key[j+1 : i])
	if o == nil {
		return bad("unknown interface %s", con.Key[:i])
	}
	var out []*unit
	for _, t := range P.implementers(o.Type()) {
		pt, ok := t.(*types.Pointer)
		if con.PtrImpls && !ok {
			continue // pointers to values are used
		}
		if ok && !con.PtrImpls && types.Implements(pt.Elem(), o.Type().Underlying().(*types.Interface)) {
			continue // values of the element type are used
		}
		fn := P.prog.LookupMethod(t, pkg, con.Key[i+1:])
		if fn == nil {
			return bad("%v has no method %s", t, con.Key[i+1:])
		}
		c := *con
		c.Key = shortTypeKey(t) + "." + con.Key[i+1:] + " as " + con.Key
		c.Trusted = false
		out = append(out, &unit{name: c.Key, con: &c, fn: fn, impl: t})
	}
	if len(out) == 0 {
		return bad("no type implements %s", con.Key[:i])
	}
	return out
}

// generate creates the obligations of a unit.
func (u *unit) generate(P *Program) {
	defer func() {
		if r := recover(); r != nil {
			if _, isSpec := r.(specErr); isSpec {
				u.err = r.(specErr)
				return
			}
			if _, isUns := r.(unsupportedErr); isUns {
				u.err = r.(unsupportedErr)
				return
			}
			if os.Getenv("GOVC_PANIC") != "" {
				panic(r)
			}
			u.err = fmt.Errorf("internal error: %v", r)
		}
	}()
	if u.err != nil {
		return
	}
	if u.lem != nil {
		u.ctx = newCtx(P, nil, nil)
		u.err = u.ctx.verifyLemma(u.lem)
		return
	}
	if u.sum != nil {
		u.ctx = newCtx(P, nil, nil)
		u.err = u.ctx.verifySum(u.sum)
		return
	}
	if u.fn == nil {
		u.err = fmt.Errorf("function %s does not exist", u.name)
		return
	}
	if len(u.fn.Blocks) == 0 {
		u.err = fmt.Errorf("function %s has no body", u.name)
		return
	}
	u.ctx = newCtx(P, u.fn, u.con)
	u.ctx.implType = u.impl
	u.err = u.ctx.verify()
}

func hasProp(ps []string, p string) bool {
	for _, x := range ps {
		if x == p {
			return true
		}
	}
	return false
}

// collect returns the units of a property, including every contract and lemma they rely on.
func collect(P *Program, prop string, re *regexp.Regexp, closure bool) []*unit {
	var units []*unit
	seen := map[string]bool{}
	var queue []*unit
	add := func(u *unit) {
		if seen[u.name] {
			return
		}
		seen[u.name] = true
		queue = append(queue, u)
	}
	addLem := func(n string) {
		l := P.lemmas[n]
		if l == nil || l.Trusted {
			return
		}
		add(&unit{name: "lemma " + n, lem: l})
	}
	for _, k := range P.conOrder {
		con := P.contracts[k]
		if con.Invoke && (prop == "" || hasProp(con.Props, prop)) && (re == nil || re.MatchString(k)) {
			for _, u := range P.implUnits(con) {
				add(u)
			}
			continue
		}
		if con.Trusted || con.NoVerify {
			continue
		}
		if re != nil && !re.MatchString(k) {
			continue
		}
		if prop != "" && !hasProp(con.Props, prop) {
			continue
		}
		add(P.contractUnit(k))
	}
	for _, k := range P.lemOrder {
		if re != nil && !re.MatchString("lemma "+k) {
			continue
		}
		if prop != "" && !hasProp(P.lemmas[k].Props, prop) {
			continue
		}
		addLem(k)
	}
	for len(queue) > 0 {
		u := queue[0]
		queue = queue[1:]
		units = append(units, u)
		P.usedLemmas = map[string]bool{}
		P.usedSums = map[string]bool{}
		u.generate(P)
		if !closure {
			continue
		}
		if u.ctx != nil {
			for _, k := range sortedKeys(u.ctx.usedCon) {
				con := P.contracts[k]
				if con == nil || con.Trusted || con.NoVerify {
					continue
				}
				add(P.contractUnit(k))
			}
		}
		for _, l := range sortedKeys(P.usedSums) {
			add(&unit{name: "sum " + l, sum: P.sums[l]})
		}
		for _, l := range sortedKeys(P.usedLemmas) {
			addLem(l)
		}
	}
	return units
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check|list|ssa ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("govc", flag.ExitOnError)
	root := fs.String("root", "/repo", "module to verify")
	cdir := fs.String("contracts", "/verif/contracts", "directory of contract files")
	prop := fs.String("prop", "", "property identifier")
	fre := fs.String("func", "", "regular expression on contract keys")
	tier := fs.String("tier", "quick", "quick or thorough")
	closure := fs.Bool("closure", true, "verify contracts which are relied upon")
	keep := fs.String("keep", "", "directory which keeps the queries")
	verbose := fs.Bool("v", false, "print every obligation")
	out := fs.String("out", "", "write the result as JSON")
	tq := fs.Int("t1", 5, "seconds, first attempt")
	tl := fs.Int("t2", 40, "seconds, portfolio")
	maxFail := fs.Int("maxfail", 0, "leave out what is pending after so many failed obligations")
	budget := fs.Int("budget", 0, "seconds for the solvers, what is pending then is left out")
	fs.Parse(os.Args[2:])

	t0 := time.Now()
	P, err := loadProgram(*root)
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		if *out != "" {
			writeLoadFailure(*out, err)
		}
		os.Exit(3)
	}
	switch os.Args[1] {
	case "list":
		for _, k := range sortedKeys(P.fns) {
			fmt.Println(k, sigStr(P.fns[k].Signature))
		}
		return
	case "ssa":
		for _, k := range sortedKeys(P.fns) {
			if k == *fre {
				P.fns[k].WriteTo(os.Stdout)
			}
		}
		return
	}
	if err := P.loadContracts(*cdir); err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		os.Exit(3)
	}
	P.rebind(filepath.Join(*cdir, "functions.txt"))
	var re *regexp.Regexp
	if *fre != "" {
		re = regexp.MustCompile(*fre)
	}
	if *tier == "thorough" && *tl == 40 {
		*tl = 150
		*tq = 10
	}
	units := collect(P, *prop, re, *closure && *prop != "")
	tgen := time.Since(t0)
	dir := *keep
	if dir == "" {
		dir, err = os.MkdirTemp("", "govc")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		defer os.RemoveAll(dir)
	} else {
		os.MkdirAll(dir, 0o755)
	}
	var jobs []job
	for _, u := range units {
		if u.ctx == nil || u.err != nil {
			continue
		}
		for _, o := range u.ctx.obls {
			jobs = append(jobs, job{u.ctx, o})
		}
		for _, o := range u.ctx.covers {
			jobs = append(jobs, job{u.ctx, o})
		}
	}
	solveAll(jobs, solveOpts{dir: dir, quick: *tq, long: *tl, cover: 2, keep: *keep != "", maxFail: *maxFail, budget: *budget})
	n, bad, cov := 0, 0, 0
	var slow []*Obl
	for _, u := range units {
		if u.err != nil {
			fmt.Printf("UNDECIDED %s: %v\n", u.name, u.err)
			bad++
			continue
		}
		judgeCovers(u.ctx)
		for _, o := range u.ctx.covers {
			if o.Status == "failed" {
				fmt.Printf("VACUOUS %s (%s) %s\n", o.Name, o.Pos, strings.TrimSpace(o.Model))
				bad++
			}
			cov++
		}
		for _, o := range u.ctx.obls {
			n++
			if o.Status != "proved" {
				bad++
				fmt.Printf("FAILED %s (%s): %s [%s] %s\n", o.Name, o.Pos, o.Text, o.Solver, o.Reason)
				if *verbose && o.Model != "" {
					fmt.Println(o.Model)
				}
			} else if *verbose {
				fmt.Printf("ok %s (%s) %s %.2fs %s\n", o.Name, o.Pos, o.Solver, o.Secs, o.Text)
			}
			if o.Secs > 3 && o.Status == "proved" {
				slow = append(slow, o)
			}
		}
	}
	sort.Slice(slow, func(i, j int) bool { return slow[i].Secs > slow[j].Secs })
	for i, o := range slow {
		if i < 15 {
			fmt.Printf("slow %s %.1fs %s\n", o.Name, o.Secs, o.Solver)
		}
	}
	fmt.Printf("%d units, %d obligations, %d covers, %d not discharged, load %.1fs total %.1fs\n", len(units), n, cov, bad, tgen.Seconds(), time.Since(t0).Seconds())
	if *out != "" {
		writeResult(P, *out, *prop, *tier, units, time.Since(t0).Seconds())
	}
	if bad > 0 {
		os.Exit(1)
	}
}

// judgeCovers accepts unreachable returns as long as the precondition is
// satisfiable and some return can be reached.
func judgeCovers(c *Ctx) {
	rets, dead := 0, 0
	for _, o := range c.covers {
		if strings.Contains(o.Name, "/cover(ret") {
			rets++
			if o.Status == "failed" {
				dead++
			}
		}
	}
	if rets == dead {
		return
	}
	for _, o := range c.covers {
		if strings.Contains(o.Name, "/cover(ret") && o.Status == "failed" {
			o.Status = "dead"
		}
	}
}
