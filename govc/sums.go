package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"
)

// Finite sums over slices.
//
//	sum NAME(it T) := term
//
// declares NAME(x, k), the sum of the term over the first k elements of the slice
// x in the current heap. It is a function of the contents of the slice and of the
// heap components which the term reads, defined by
//
//	NAME(x, 0) = 0        NAME(x, k+1) = NAME(x, k) + term(x[k])
//
// Congruence and monotonicity follow by induction, they are obligations of the unit
// "sum NAME". That a permutation keeps the sum is assumed.

type sumInfo struct {
	fn    string
	comps []string // heap components, in the order of the arguments
	elem  types.Type
	inner string // sort of the contents of the slice
	es    string // sort of the elements
	body  string // term with s!it, s!h0, s!h1 ...
}

var sumTok = regexp.MustCompile(`[^\s()]+`)

func (s *sumInfo) term(it string, hs []string) string {
	return sumTok.ReplaceAllStringFunc(s.body, func(t string) string {
		if t == "s!it" {
			return it
		}
		if n, ok := strings.CutPrefix(t, "s!h"); ok {
			var k int
			if _, err := fmt.Sscanf(n, "%d", &k); err == nil && k < len(hs) {
				return hs[k]
			}
		}
		return t
	})
}

func (c *Ctx) sumInfo(m *Macro, facts bool) *sumInfo {
	if s, ok := c.sums[m.Name]; ok {
		return s
	}
	st := &State{heap: map[string]T{}, cells: map[string]T{}, alloc: mkInt(1)}
	et := c.P.lookupType(m.Params[0].Type, m.pkg)
	es := c.m.sortOf(et)
	env := &SpecEnv{c: c, vars: map[string]SVal{m.Params[0].Name: {t: T{"s!it", es}, typ: et}}, st: st, old: st, guard: tTrue, pkg: m.pkg}
	n := len(c.asserts)
	t := c.eval(m.Body, env).t.s
	for _, a := range c.asserts[n:] {
		if strings.Contains(a, "s!it") {
			panic(specErr("sum " + m.Name + ": term is too complex"))
		}
	}
	s := &sumInfo{fn: "sum!" + m.Name, elem: et, es: es, inner: arrSort(sInt, es)}
	seen := map[string]int{}
	s.body = sumTok.ReplaceAllStringFunc(t, func(tk string) string {
		if !strings.HasPrefix(tk, "H0!") {
			return tk
		}
		for _, k := range sortedKeys(c.comps) {
			if c.initName(k) == tk {
				i, ok := seen[k]
				if !ok {
					i = len(s.comps)
					seen[k] = i
					s.comps = append(s.comps, k)
				}
				return fmt.Sprintf("s!h%d", i)
			}
		}
		return tk
	})
	sorts := []string{s.inner}
	for _, k := range s.comps {
		sorts = append(sorts, c.comps[k].so)
	}
	sorts = append(sorts, sInt, sInt)
	c.m.fun(s.fn, sorts, sInt)
	c.sums[m.Name] = s
	v := s.names("")
	f := func(v sumVars, k string) string { return s.app(v, k) }
	at := func(v sumVars, k string) string { return s.at(v, k) }
	ax := func(x string) { c.m.axioms = append(c.m.axioms, "(assert "+x+")") }
	ax(fmt.Sprintf("(forall (%s (k Int)) (! (=> (<= k 0) (= %s 0)) :pattern (%s)))", s.binders(c, v), f(v, "k"), f(v, "k")))
	ax(fmt.Sprintf("(forall (%s (k Int) (j Int)) (! (=> (and (= j (+ k 1)) (<= 0 k)) (= %s (+ %s %s))) :pattern (%s %s)))",
		s.binders(c, v), f(v, "j"), f(v, "k"), at(v, "k"), f(v, "k"), f(v, "j")))
	if !facts {
		return s
	}
	w := s.names("q")
	// congruence
	ax(fmt.Sprintf("(forall (%s %s (k Int)) (! (=> %s (= %s %s)) :pattern (%s %s)))",
		s.binders(c, v), s.binders(c, w), s.agree(v, w, "k"), f(v, "k"), f(w, "k"), f(v, "k"), f(w, "k")))
	// monotonicity
	ax(fmt.Sprintf("(forall (%s (k Int) (n Int)) (! (=> (and (<= 0 k) (<= k n) %s) (<= %s %s)) :pattern (%s %s)))",
		s.binders(c, v), s.nonneg(v, "n"), f(v, "k"), f(v, "n"), f(v, "k"), f(v, "n")))
	ax(fmt.Sprintf("(forall (%s (n Int)) (! (=> %s (<= 0 %s)) :pattern (%s)))", s.binders(c, v), s.nonneg(v, "n"), f(v, "n"), f(v, "n")))
	// permutation
	w = v
	w.arr = "q!A"
	c.permFun(es)
	ax(fmt.Sprintf("(forall (%s (q!A %s) (k Int)) (! (=> (perm!%s %s %s %s k) (= %s %s)) :pattern ((perm!%s %s %s %s k) %s) :pattern ((perm!%s %s %s %s k) %s)))",
		s.binders(c, v), s.inner, sanitize(es), v.arr, w.arr, v.off, f(v, "k"), f(w, "k"),
		sanitize(es), v.arr, w.arr, v.off, f(v, "k"), sanitize(es), v.arr, w.arr, v.off, f(w, "k")))
	return s
}

// hasSum tells whether a sum over slices of the given type of elements is declared.
func (P *Program) hasSum(et types.Type) bool {
	for _, k := range sortedKeys(P.sums) {
		if types.Identical(P.lookupType(P.sums[k].Params[0].Type, P.sums[k].pkg), et) {
			return true
		}
	}
	return false
}

func (c *Ctx) permFun(es string) string {
	p := "perm!" + sanitize(es)
	c.m.fun(p, []string{arrSort(sInt, es), arrSort(sInt, es), sInt, sInt}, sBool)
	return p
}

type sumVars struct {
	arr, off string
	hs       []string
}

func (s *sumInfo) names(pre string) sumVars {
	v := sumVars{arr: pre + "s!A", off: pre + "s!o"}
	for i := range s.comps {
		v.hs = append(v.hs, fmt.Sprintf("%ss!h%d", pre, i))
	}
	return v
}

func (s *sumInfo) binders(c *Ctx, v sumVars) string {
	b := fmt.Sprintf("(%s %s)", v.arr, s.inner)
	for i, k := range s.comps {
		b += fmt.Sprintf(" (%s %s)", v.hs[i], c.comps[k].so)
	}
	return b + fmt.Sprintf(" (%s Int)", v.off)
}

func (s *sumInfo) app(v sumVars, k string) string {
	return fmt.Sprintf("(%s %s)", s.fn, strings.Join(append(append([]string{v.arr}, v.hs...), v.off, k), " "))
}

func (s *sumInfo) at(v sumVars, k string) string {
	return s.term(fmt.Sprintf("(select %s (+ %s %s))", v.arr, v.off, k), v.hs)
}

func (s *sumInfo) agree(v, w sumVars, k string) string {
	return fmt.Sprintf("(forall ((i!s Int)) (=> (and (<= 0 i!s) (< i!s %s)) (= %s %s)))", k, s.at(v, "i!s"), s.at(w, "i!s"))
}

func (s *sumInfo) nonneg(v sumVars, k string) string {
	return fmt.Sprintf("(forall ((i!s Int)) (=> (and (<= 0 i!s) (< i!s %s)) (<= 0 %s)))", k, s.at(v, "i!s"))
}

// sumCall evaluates NAME(x, k).
func (c *Ctx) sumCall(m *Macro, x, k SVal, env *SpecEnv) SVal {
	s := c.sumInfo(m, true)
	c.P.usedSums[m.Name] = true
	sl, ok := x.typ.Underlying().(*types.Slice)
	if !ok {
		panic(specErr(m.Name + ": not a slice"))
	}
	c.assumed["a permutation of a slice keeps the sum over its elements (sum "+m.Name+")"] = true
	v := sumVars{arr: mkSelect(c.heapTerm(env.st, c.compElem(sl.Elem())), slArr(x.t), s.inner).s, off: slOff(x.t).s}
	for _, k := range s.comps {
		v.hs = append(v.hs, c.heapTerm(env.st, k).s)
	}
	r := s.app(v, k.t.s)
	if p, ok := strings.CutSuffix(k.t.s, " 1)"); ok && strings.HasPrefix(p, "(+ ") && !strings.Contains(r, "!q") && !strings.Contains(r, "!ih") && !strings.Contains(r, "!m ") {
		// instance of the definition
		p = p[3:]
		if !c.declared["step:"+r] {
			c.declared["step:"+r] = true
			c.assume(tTrue, T{fmt.Sprintf("(=> (<= 0 %s) (= %s (+ %s %s)))", p, r, s.app(v, p), s.at(v, p)), sBool})
		}
	}
	return SVal{t: T{r, sInt}, typ: untypedInt}
}

// verifySum proves congruence and monotonicity of a sum by induction.
func (c *Ctx) verifySum(m *Macro) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	c.name = "sum " + m.Name
	c.entry = &State{heap: map[string]T{}, cells: map[string]T{}, alloc: mkInt(1)}
	s := c.sumInfo(m, false)
	v, w := s.names("c"), s.names("d")
	for _, x := range []sumVars{v, w} {
		c.decl(x.arr, s.inner)
		c.decl(x.off, sInt)
		for i, k := range s.comps {
			c.decl(x.hs[i], c.comps[k].so)
		}
	}
	c.decl("k!c", sInt)
	c.decl("n!c", sInt)
	// definition at n, n+1
	for _, x := range []sumVars{v, w} {
		c.assume(tTrue, T{fmt.Sprintf("(=> (<= 0 n!c) (= %s (+ %s %s)))", s.app(x, "(+ n!c 1)"), s.app(x, "n!c"), s.at(x, "n!c")), sBool})
	}
	ob := func(name, text, f string, args ...any) {
		c.oblige(name, tTrue, T{fmt.Sprintf(f, args...), sBool}, token.NoPos, text)
	}
	ob("congruence/base", "sums of no elements are equal", "(= %s %s)", s.app(v, "0"), s.app(w, "0"))
	ob("congruence/step", "equal terms have equal sums", "(=> (and (<= 0 n!c) %s (=> %s (= %s %s))) (= %s %s))",
		s.agree(v, w, "(+ n!c 1)"), s.agree(v, w, "n!c"), s.app(v, "n!c"), s.app(w, "n!c"), s.app(v, "(+ n!c 1)"), s.app(w, "(+ n!c 1)"))
	ob("monotone/base", "sums of no elements", "(=> (and (<= 0 k!c) (<= k!c 0)) (<= %s %s))", s.app(v, "k!c"), s.app(v, "0"))
	ob("monotone/step", "sums of non-negative terms grow", "(=> (and (<= 0 n!c) (<= 0 k!c) (<= k!c (+ n!c 1)) %s (=> (and %s (<= k!c n!c)) (<= %s %s))) (<= %s %s))",
		s.nonneg(v, "(+ n!c 1)"), s.nonneg(v, "n!c"), s.app(v, "k!c"), s.app(v, "n!c"), s.app(v, "k!c"), s.app(v, "(+ n!c 1)"))
	return nil
}
