package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isSortSlice(f *ssa.Function) bool {
	s := f.String()
	return s == "sort.Slice" || s == "sort.SliceStable"
}

// sortElem returns the element type of the slice passed to sort.Slice.
func sortElem(cc *ssa.CallCommon) types.Type {
	if mi, ok := cc.Args[0].(*ssa.MakeInterface); ok {
		if sl, ok := mi.X.Type().Underlying().(*types.Slice); ok {
			return sl.Elem()
		}
	}
	return nil
}

func (c *Ctx) call(fr *Frame, in ssa.CallInstruction, cc *ssa.CallCommon, g T, st *State) (Val, T) {
	pos := in.Pos()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return c.builtin(fr, in, b, cc, g, st), g
	}
	if cc.IsInvoke() {
		return c.invoke(fr, in, cc, g, st)
	}
	callee := cc.StaticCallee()
	var binds []Val
	if callee == nil {
		v := c.get(fr, st, cc.Value)
		if v.fn != nil {
			callee = v.fn
			binds = v.binds
		}
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		binds = c.get(fr, st, mc).binds
	}
	var args []Val
	for _, a := range cc.Args {
		args = append(args, c.get(fr, st, a))
	}
	if callee == nil {
		c.assumed["dynamic call in "+c.P.funcKey(fr.fn)+" returns an arbitrary value and changes no modelled state"] = true
		return c.havocResult(cc.Signature(), "dyn", g, st), g
	}
	if isSortSlice(callee) {
		c.sortSlice(fr, cc, args, g, st)
		return Val{}, g
	}
	if con := c.P.contractFor(callee); con != nil && !(callee == c.fn && false) {
		return c.applyContract(con, callee.Signature, args, g, st, pos)
	}
	if len(callee.Blocks) > 0 && c.P.inRepo(callee) {
		for _, f := range c.inStack {
			if f == callee {
				panic(unsupported("recursive call without contract: " + callee.String()))
			}
		}
		if callee == c.fn {
			panic(unsupported("recursive call without contract: " + callee.String()))
		}
		return c.inline(fr, callee, binds, args, g, st)
	}
	return c.external(fr, callee, cc, args, g, st, pos)
}

func (c *Ctx) inline(fr *Frame, callee *ssa.Function, binds, args []Val, g T, st *State) (Val, T) {
	if fr.depth > 12 {
		panic(unsupported("inlining too deep"))
	}
	c.inlined[c.P.funcKey(callee)] = true
	c.nframe++
	nf := &Frame{fn: callee, env: map[ssa.Value]Val{}, parent: fr, id: fmt.Sprintf("f%d.", c.nframe), depth: fr.depth + 1}
	for i, p := range callee.Params {
		nf.env[p] = args[i]
	}
	for i, fv := range callee.FreeVars {
		if i < len(binds) {
			nf.env[fv] = binds[i]
		}
	}
	c.inStack = append(c.inStack, callee)
	rets := c.execFunc(nf, st.clone(), g)
	c.inStack = c.inStack[:len(c.inStack)-1]
	if len(rets) == 0 {
		return Val{}, tFalse
	}
	var ins []edge
	for _, r := range rets {
		ins = append(ins, edge{r.guard, r.st})
	}
	ng, nst := c.merge(nf, nil, ins)
	*st = *nst
	nres := callee.Signature.Results().Len()
	mk := func(k int) Val {
		if len(rets) == 1 {
			return rets[0].vals[k]
		}
		if rets[0].vals[k].fn != nil {
			return rets[0].vals[k]
		}
		var ts []T
		for _, r := range rets {
			ts = append(ts, c.asTerm(r.vals[k]))
		}
		return Val{t: c.mergeTerms("res", ins, ts)}
	}
	switch nres {
	case 0:
		return Val{}, ng
	case 1:
		return mk(0), ng
	}
	var tup []Val
	for k := 0; k < nres; k++ {
		tup = append(tup, mk(k))
	}
	return Val{tup: tup}, ng
}

func (c *Ctx) havocResult(sig *types.Signature, hint string, g T, st *State) Val {
	res := sig.Results()
	mk := func(t types.Type) Val {
		v := c.fresh(hint, c.m.sortOf(t))
		c.assumeFacts(g, v, t, st)
		return Val{t: v}
	}
	switch res.Len() {
	case 0:
		return Val{}
	case 1:
		return mk(res.At(0).Type())
	}
	var tup []Val
	for i := 0; i < res.Len(); i++ {
		tup = append(tup, mk(res.At(i).Type()))
	}
	return Val{tup: tup}
}

func (c *Ctx) sortSlice(fr *Frame, cc *ssa.CallCommon, args []Val, g T, st *State) {
	c.tagged("sort", func() { c.sortFacts(fr, cc, args, g, st) })
}

func (c *Ctx) sortFacts(fr *Frame, cc *ssa.CallCommon, args []Val, g T, st *State) {
	mi, ok := cc.Args[0].(*ssa.MakeInterface)
	if !ok {
		panic(unsupported("sort of unknown slice"))
	}
	sl := c.term(fr, st, mi.X)
	et := mi.X.Type().Underlying().(*types.Slice).Elem()
	comp := c.compElem(et)
	es := c.m.sortOf(et)
	as := arrSort(sInt, es)
	h := c.heapTerm(st, comp)
	old := c.define("srtold", mkSelect(h, slArr(sl), as))
	nw := c.fresh("srtnew", as)
	c.nframe++
	p, q := fmt.Sprintf("perm!%d", c.nframe), fmt.Sprintf("permi!%d", c.nframe)
	c.m.fun(p, []string{sInt}, sInt)
	c.m.fun(q, []string{sInt}, sInt)
	n, off := slLen(sl), slOff(sl)
	c.assume(g, T{fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %s)) (and (<= 0 (%s j)) (< (%s j) %s) (= (%s (%s j)) j) (= (select %s (+ %s j)) (select %s (+ %s (%s j)))))) :pattern ((select %s (+ %s j))) :pattern ((%s j))))", n.s, p, p, n.s, q, p, nw.s, off.s, old.s, off.s, p, nw.s, off.s, p), sBool})
	c.assume(g, T{fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %s)) (and (<= 0 (%s j)) (< (%s j) %s) (= (%s (%s j)) j) (= (select %s (+ %s j)) (select %s (+ %s (%s j)))))) :pattern ((select %s (+ %s j))) :pattern ((%s j))))", n.s, q, q, n.s, p, q, old.s, off.s, nw.s, off.s, q, old.s, off.s, q), sBool})
	if off.s == "0" {
		c.assume(g, T{fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %s)) (and (<= 0 (%s j)) (< (%s j) %s) (= (%s (%s j)) j) (= (select %s j) (select %s (%s j))))) :pattern ((select %s j))))", n.s, p, p, n.s, q, p, nw.s, old.s, p, nw.s), sBool})
		c.assume(g, T{fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %s)) (and (<= 0 (%s j)) (< (%s j) %s) (= (%s (%s j)) j) (= (select %s j) (select %s (%s j))))) :pattern ((select %s j))))", n.s, q, q, n.s, p, q, old.s, nw.s, q, old.s), sBool})
	}
	if c.P.hasSum(et) {
		c.assume(g, T{fmt.Sprintf("(%s %s %s %s %s)", c.permFun(es), old.s, nw.s, off.s, n.s), sBool})
	}
	c.assume(g, T{fmt.Sprintf("(forall ((j Int)) (! (=> (or (< j %s) (>= j (+ %s %s))) (= (select %s j) (select %s j))) :pattern ((select %s j))))", off.s, off.s, n.s, nw.s, old.s, nw.s), sBool})
	pre := st.clone()
	st.heap[comp] = c.define("H_"+comp, mkStore(h, slArr(sl), nw))
	c.tagged("order", func() { c.sorted(args[1], n, off, nw, es, g, pre, st, fr.fn.Pos()) })
	c.assumed["sort.Slice/SliceStable permute the elements of their slice and change nothing else; the comparison closures are pure"] = true
}

// sorted states what sort.Slice guarantees when the comparison closure is under
// contract: it is called with indices of the slice, and it is false for a later and
// an earlier element of the result.
func (c *Ctx) sorted(less Val, n, off, nw T, es string, g T, pre, st *State, pos token.Pos) {
	if less.fn == nil {
		return
	}
	con := c.P.contractFor(less.fn)
	if con == nil {
		return
	}
	c.usedCon[con.Key] = true
	mk := func(st *State, a, b T) *SpecEnv {
		env := &SpecEnv{c: c, vars: map[string]SVal{}, st: st, old: st, guard: tTrue, pkg: con.pkg}
		for i, p := range less.fn.Params {
			env.vars[p.Name()] = SVal{t: []T{a, b}[i], typ: p.Type()}
		}
		for i, fv := range less.fn.FreeVars {
			env.vars[fv.Name()] = SVal{t: c.asTerm(less.binds[i]), typ: fv.Type()}
		}
		env.oldVars = env.vars
		return env
	}
	c.callCnt["sort"]++
	for _, s := range []*State{pre, st} {
		a, b := c.fresh("srti", sInt), c.fresh("srtj", sInt)
		in := mkAnd(g, mkLe(mkInt(0), a), mkLt(a, n), mkLe(mkInt(0), b), mkLt(b, n))
		for k, r := range con.Requires {
			when := map[bool]string{true: "before", false: "after"}[s == pre]
			c.oblige(fmt.Sprintf("pre(%s)[%d]/%s@%d", con.Short(), k, when, c.callCnt["sort"]), in, c.evalBool(r.Expr, mk(s, a, b)), pos, r.Text)
		}
	}
	c.nframe++
	a, b := T{fmt.Sprintf("srta!%d", c.nframe), sInt}, T{fmt.Sprintf("srtb!%d", c.nframe), sInt}
	env := mk(st, b, a)
	env.results(less.fn.Signature, []Val{{t: tFalse}})
	k := len(c.asserts)
	var es2 []T
	for _, e := range con.Ensures {
		es2 = append(es2, c.evalBool(e.Expr, env))
	}
	for _, x := range c.asserts[k:] {
		if strings.Contains(x, a.s) || strings.Contains(x, b.s) {
			panic(unsupported("contract of the comparison closure " + con.Key))
		}
	}
	at := func(x T) string { return fmt.Sprintf("(select %s (+ %s %s))", nw.s, off.s, x.s) }
	c.assume(g, T{fmt.Sprintf("(forall ((%s Int) (%s Int)) (! (=> (and (<= 0 %s) (< %s %s) (< %s %s)) %s) :pattern (%s %s)))", a.s, b.s, a.s, a.s, b.s, b.s, n.s, mkAnd(es2...).s, at(a), at(b)), sBool})
	c.assumed["sort.Slice sorts: its comparison closure "+con.Key+" is false for a later and an earlier element of the result"] = true
}

func (c *Ctx) builtin(fr *Frame, in ssa.CallInstruction, b *ssa.Builtin, cc *ssa.CallCommon, g T, st *State) Val {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, c.get(fr, st, a))
	}
	switch b.Name() {
	case "len":
		t := cc.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return Val{t: app(sInt, "slen", args[0].t)}
		case *types.Slice:
			return Val{t: slLen(args[0].t)}
		case *types.Map:
			_, _, l := c.compMap(u)
			v := c.define("maplen", mkIte(mkEq(args[0].t, mkInt(0)), mkInt(0), mkSelect(c.heapTerm(st, l), args[0].t, sInt)))
			c.assume(g, mkLe(mkInt(0), v))
			return Val{t: v}
		case *types.Array:
			return Val{t: mkInt(u.Len())}
		case *types.Pointer:
			return Val{t: mkInt(u.Elem().Underlying().(*types.Array).Len())}
		}
	case "cap":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			return Val{t: slCap(args[0].t)}
		}
	case "append":
		return c.doAppend(fr, cc, args, g, st)
	case "copy":
		return c.doCopy(fr, cc, args, g, st)
	case "min", "max":
		r := args[0].t
		for _, a := range args[1:] {
			if b.Name() == "min" {
				r = mkIte(mkLe(r, a.t), r, a.t)
			} else {
				r = mkIte(mkLe(a.t, r), r, a.t)
			}
		}
		return Val{t: c.define("mm", r)}
	case "delete":
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		d, _, l := c.compMap(mt)
		ks := c.m.sortOf(mt.Key())
		dh, lh := c.heapTerm(st, d), c.heapTerm(st, l)
		din := mkSelect(dh, args[0].t, arrSort(ks, sBool))
		had := mkSelect(din, args[1].t, sBool)
		n := mkSelect(lh, args[0].t, sInt)
		st.heap[l] = c.define("H_"+l, mkStore(lh, args[0].t, mkIte(had, mkSub(n, mkInt(1)), n)))
		st.heap[d] = c.define("H_"+d, mkStore(dh, args[0].t, mkStore(din, args[1].t, tFalse)))
		return Val{}
	case "print", "println":
		return Val{}
	case "ssa:wrapnilchk":
		c.nonNil(g, c.asTerm(args[0]), in.Pos(), nil)
		return args[0]
	}
	panic(unsupported("builtin " + b.Name()))
}

// literalElems recognises slices of freshly allocated arrays of known length.
func literalElems(v ssa.Value) (int64, bool) {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Low != nil || s.High != nil {
		return 0, false
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return 0, false
	}
	at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || at.Len() > 4 {
		return 0, false
	}
	return at.Len(), true
}

func (c *Ctx) doAppend(fr *Frame, cc *ssa.CallCommon, args []Val, g T, st *State) Val {
	slT := cc.Args[0].Type().Underlying().(*types.Slice)
	comp := c.compElem(slT.Elem())
	es := c.m.sortOf(slT.Elem())
	as := arrSort(sInt, es)
	h := c.heapTerm(st, comp)
	s := c.define("aps", args[0].t)
	if k, ok := cc.Args[1].(*ssa.Const); ok && k.Value == nil {
		return Val{t: s}
	}
	var n T
	isStr := isString(cc.Args[1].Type())
	if isStr {
		n = app(sInt, "slen", args[1].t)
	} else {
		n = slLen(args[1].t)
	}
	n = c.define("apn", n)
	nlen := c.define("aplen", mkAdd(slLen(s), n))
	fits := c.define("fits", mkLe(nlen, slCap(s)))
	ref := c.newRef(st)
	ncap := c.fresh("apcap", sInt)
	c.assume(g, mkAnd(mkLe(nlen, ncap), mkLt(ncap, mkIntS("281474976710656"))))
	arr := mkIte(fits, slArr(s), ref)
	off := mkIte(fits, slOff(args[0].t), mkInt(0))
	oldA := c.define("apold", mkSelect(h, slArr(s), as))
	cpA := c.fresh("apcopy", as)
	c.assume(g, T{fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (< k %s)) (= (select %s k) (select %s (+ %s k)))) :pattern ((select %s k))))", slLen(s).s, cpA.s, oldA.s, slOff(s).s, cpA.s), sBool})
	if slOff(s).s != "0" {
		c.assume(g, T{fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= %s k) (< k (+ %s %s))) (= (select %s (- k %s)) (select %s k))) :pattern ((select %s k))))", slOff(s).s, slOff(s).s, slLen(s).s, cpA.s, slOff(s).s, oldA.s, oldA.s), sBool})
	} else {
		c.assume(g, T{fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (< k %s)) (= (select %s k) (select %s k))) :pattern ((select %s k))))", slLen(s).s, cpA.s, oldA.s, oldA.s), sBool})
	}
	base := c.define("apbase", mkIte(fits, oldA, cpA))
	start := mkAdd(off, slLen(args[0].t))
	if _, lit := litInt(start); !lit {
		start = c.define("apstart", start)
	}
	var newA T
	if ln, ok := literalElems(cc.Args[1]); ok && !isStr {
		newA = base
		src := mkSelect(h, slArr(args[1].t), as)
		for i := int64(0); i < ln; i++ {
			newA = mkStore(newA, mkAdd(start, mkInt(i)), mkSelect(src, mkAdd(slOff(args[1].t), mkInt(i)), es))
		}
		newA = c.define("apnew", newA)
	} else {
		newA = c.fresh("apnew", as)
		var srcSel string
		if isStr {
			srcSel = fmt.Sprintf("(sat %s (- k %s))", args[1].t.s, start.s)
		} else {
			srcSel = fmt.Sprintf("(select (select %s %s) (+ %s (- k %s)))", h.s, slArr(args[1].t).s, slOff(args[1].t).s, start.s)
		}
		if start.s == "0" {
			srcSel = strings.ReplaceAll(strings.ReplaceAll(srcSel, "(- k 0)", "k"), "(+ 0 k)", "k")
		}
		c.assume(g, T{fmt.Sprintf("(forall ((k Int)) (! (= (select %s k) (ite (and (<= %s k) (< k (+ %s %s))) %s (select %s k))) :pattern ((select %s k))))", newA.s, start.s, start.s, n.s, srcSel, base.s, newA.s), sBool})
		if !isStr && slOff(args[1].t).s == "0" {
			// from the source to the destination
			src := fmt.Sprintf("(select (select %s %s) k)", h.s, slArr(args[1].t).s)
			dst := mkSelect(newA, mkAdd(start, T{"k", sInt}), es)
			c.assume(g, T{fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (< k %s)) (= %s %s)) :pattern (%s)))", n.s, dst.s, src, src), sBool})
		}
	}
	if n.s == "0" {
		return Val{t: s}
	}
	st.heap[comp] = c.define("H_"+comp, mkStore(h, arr, newA))
	res := mkSlice(arr, off, nlen, mkIte(fits, slCap(s), ncap))
	// appending nothing to a nil slice keeps it nil
	v := c.define("appended", res)
	c.assume(g, mkLt(mkInt(0), mkAdd(mkInt(1), slLen(v))))
	return Val{t: v}
}

func (c *Ctx) doCopy(fr *Frame, cc *ssa.CallCommon, args []Val, g T, st *State) Val {
	slT := cc.Args[0].Type().Underlying().(*types.Slice)
	comp := c.compElem(slT.Elem())
	as := arrSort(sInt, c.m.sortOf(slT.Elem()))
	h := c.heapTerm(st, comp)
	d := args[0].t
	var sl T
	isStr := isString(cc.Args[1].Type())
	if isStr {
		sl = app(sInt, "slen", args[1].t)
	} else {
		sl = slLen(args[1].t)
	}
	n := c.define("cpn", mkIte(mkLe(slLen(d), sl), slLen(d), sl))
	oldA := c.define("cpold", mkSelect(h, slArr(d), as))
	newA := c.fresh("cpnew", as)
	var src string
	if isStr {
		src = fmt.Sprintf("(sat %s (- k %s))", args[1].t.s, slOff(d).s)
	} else {
		src = fmt.Sprintf("(select (select %s %s) (+ %s (- k %s)))", h.s, slArr(args[1].t).s, slOff(args[1].t).s, slOff(d).s)
	}
	c.assume(g, T{fmt.Sprintf("(forall ((k Int)) (! (= (select %s k) (ite (and (<= %s k) (< k (+ %s %s))) %s (select %s k))) :pattern ((select %s k))))", newA.s, slOff(d).s, slOff(d).s, n.s, src, oldA.s, newA.s), sBool})
	st.heap[comp] = c.define("H_"+comp, mkStore(h, slArr(d), newA))
	return Val{t: n}
}

// ---------- interface calls ----------

func (c *Ctx) invoke(fr *Frame, in ssa.CallInstruction, cc *ssa.CallCommon, g T, st *State) (Val, T) {
	recv := c.term(fr, st, cc.Value)
	var args []Val
	args = append(args, Val{t: recv})
	for _, a := range cc.Args {
		args = append(args, c.get(fr, st, a))
	}
	c.oblige("nil-iface", g, mkNot(mkEq(c.m.typeOf(recv), mkInt(0))), in.Pos(), "method call on a non-nil interface value")
	key := c.P.invokeKey(cc)
	sig := cc.Method.Type().(*types.Signature)
	if con := c.P.contracts[key]; con != nil {
		return c.applyContractSig(con, cc.Value.Type(), sig, args, g, st, in.Pos())
	}
	// devirtualise when every implementation is a simple function
	if v, ok := c.devirt(fr, cc, recv, args, g, st); ok {
		return v, g
	}
	c.assumed["interface method "+key+" returns an arbitrary value and changes no modelled state"] = true
	return c.havocResult(sig, "inv", g, st), g
}

func (c *Ctx) devirt(fr *Frame, cc *ssa.CallCommon, recv T, args []Val, g T, st *State) (Val, bool) {
	impls := c.P.implementers(cc.Value.Type())
	if len(impls) == 0 || len(impls) > 24 || len(args) > 1 {
		return Val{}, false
	}
	sig := cc.Method.Type().(*types.Signature)
	if sig.Results().Len() != 1 {
		return Val{}, false
	}
	type alt struct {
		tag int
		fn  *ssa.Function
		t   types.Type
	}
	var alts []alt
	for _, t := range impls {
		fn := c.P.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
		if fn == nil {
			return Val{}, false
		}
		if c.P.contractFor(fn) == nil && !simpleFn(fn, 0) {
			return Val{}, false
		}
		alts = append(alts, alt{c.m.tag(t), fn, t})
	}
	if len(alts) == 0 {
		return Val{}, false
	}
	rt := sig.Results().At(0).Type()
	res := c.fresh("dv", c.m.sortOf(rt))
	for _, a := range alts {
		ag := mkAnd(g, mkEq(c.m.typeOf(recv), mkInt(int64(a.tag))))
		as := st.clone()
		rv := c.define("dvr", c.m.unbox(a.t, recv))
		if _, ok := a.t.Underlying().(*types.Pointer); ok {
			c.assumeFacts(ag, rv, a.t, st)
			c.assume(ag, mkLt(mkInt(0), rv))
		}
		v, ng := c.inline(fr, a.fn, nil, []Val{{t: rv}}, ag, as)
		c.assume(ng, mkEq(res, c.asTerm(v)))
	}
	c.assumeFacts(g, res, rt, st)
	c.assumed["boxed pointers inside interface values are not nil when a method is called through the interface ("+shortTypeKey(cc.Value.Type())+")"] = true
	return Val{t: res}, true
}

// simpleFn: straight-line function without stores or calls.
func simpleFn(f *ssa.Function, d int) bool {
	if len(f.Blocks) != 1 || d > 3 {
		return false
	}
	for _, in := range f.Blocks[0].Instrs {
		switch x := in.(type) {
		case *ssa.Store:
			if _, ok := x.Addr.(*ssa.Alloc); !ok {
				return false
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "ssa:wrapnilchk" || b.Name() == "len") {
				continue
			}
			sc := x.Call.StaticCallee()
			if sc == nil || !simpleFn(sc, d+1) {
				return false
			}
		case *ssa.MapUpdate, *ssa.Panic:
			return false
		}
	}
	return true
}

// ---------- external functions ----------

func (c *Ctx) external(fr *Frame, f *ssa.Function, cc *ssa.CallCommon, args []Val, g T, st *State, pos token.Pos) (Val, T) {
	name := f.String()
	switch name {
	case "log.Fatalf", "log.Fatal", "log.Fatalln", "os.Exit":
		c.assumed[name+" does not return"] = true
		return Val{}, tFalse
	case "fmt.Errorf", "errors.New":
		v := c.fresh("err", sAny)
		tag := c.P.errTag(c.m)
		c.assume(g, mkEq(c.m.typeOf(v), mkInt(int64(tag))))
		c.assumed[name+" returns a non-nil error"] = true
		return Val{t: v}, g
	case "math.Ceil", "math.Floor":
		a := args[0]
		if a.fint != nil {
			return a, g
		}
		if a.fdivA != nil {
			x, y := *a.fdivA, *a.fdivB
			n := c.fresh("fround", sInt)
			cond := mkAnd(mkLt(mkInt(0), y), mkLt(y, mkIntS("9007199254740992")), mkLt(mkIntS("-9007199254740992"), x), mkLt(x, mkIntS("9007199254740992")))
			if name == "math.Ceil" {
				c.assume(mkAnd(g, cond), mkEq(n, mkSub(mkInt(0), app(sInt, "div", mkSub(mkInt(0), x), y))))
			} else {
				c.assume(mkAnd(g, cond), mkEq(n, app(sInt, "div", x, y)))
			}
			c.oblige("float-exact", g, cond, pos, "operands of the rounded quotient are below 2^53")
			c.assumed["lemma (IEEE 754): for integers |a| < 2^53 and 0 < b < 2^53, ceil and floor of the float64 quotient a/b equal the exact ceil and floor"] = true
			return Val{t: T{"(to_real " + n.s + ")", sReal}, fint: &n}, g
		}
		fn := "f" + strings.ToLower(name[5:])
		c.m.fun(fn, []string{sReal}, sReal)
		return Val{t: app(sReal, fn, a.t)}, g
	case "math.Pow", "math.Log2", "math.Abs", "math.Sqrt", "math.Log", "math.Log10", "math.Mod", "math.Trunc", "math.Round":
		fn := "f" + strings.ToLower(name[5:])
		var ss []string
		var ts []T
		for _, a := range args {
			ss = append(ss, sReal)
			ts = append(ts, a.t)
		}
		c.m.fun(fn, ss, sReal)
		return Val{t: app(sReal, fn, ts...)}, g
	case "math.Frexp":
		fr, ex := c.fresh("frac", sReal), c.fresh("exp", sInt)
		c.assume(g, mkAnd(mkLe(mkInt(-1073), ex), mkLe(ex, mkInt(1024))))
		c.assumed["math.Frexp returns an exponent of -1073 to 1024"] = true
		return Val{tup: []Val{{t: fr}, {t: ex}}}, g
	case "math/bits.Len64", "math/bits.Len":
		c.pow2Facts()
		n := c.fresh("bitlen", sInt)
		x := args[0].t
		c.assume(g, mkAnd(mkLe(mkInt(0), n), mkLe(n, mkInt(64)),
			mkEq(mkEq(n, mkInt(0)), mkEq(x, mkInt(0))),
			mkImp(mkLt(mkInt(0), x), mkAnd(mkLe(app(sInt, "pow2", mkSub(n, mkInt(1))), x), mkLt(x, app(sInt, "pow2", n))))))
		c.assumed["math/bits.Len64(x) is the least n with x < 2^n"] = true
		return Val{t: n}, g
	case "math/bits.Mul64":
		hi, lo := c.fresh("mulhi", sInt), c.fresh("mullo", sInt)
		m := mkIntS("18446744073709551616")
		c.assume(g, mkAnd(mkEq(mkMul(args[0].t, args[1].t), mkAdd(mkMul(hi, m), lo)), mkLe(mkInt(0), lo), mkLt(lo, m), mkLe(mkInt(0), hi), mkLt(hi, m)))
		return Val{tup: []Val{{t: hi}, {t: lo}}}, g
	case "strings.Compare":
		c.m.fun("strlt", []string{sStr, sStr}, sBool)
		r := c.fresh("cmp", sInt)
		c.assume(g, mkAnd(mkEq(mkLt(r, mkInt(0)), app(sBool, "strlt", args[0].t, args[1].t)), mkEq(mkEq(r, mkInt(0)), mkEq(args[0].t, args[1].t))))
		return Val{t: r}, g
	}
	c.assumed["external function "+name+" returns an arbitrary value and changes no modelled state"] = true
	return c.havocResult(f.Signature, "ext", g, st), g
}

// ---------- contracts at call sites ----------

func (c *Ctx) applyContract(con *Contract, sig *types.Signature, args []Val, g T, st *State, pos token.Pos) (Val, T) {
	var rt types.Type
	if sig.Recv() != nil {
		rt = sig.Recv().Type()
	}
	return c.applyContractSig(con, rt, sig, args, g, st, pos)
}

func paramNames(recv types.Type, sig *types.Signature, fn *ssa.Function) ([]string, []types.Type) {
	var names []string
	var ts []types.Type
	if recv != nil {
		n := "recv"
		if sig.Recv() != nil && sig.Recv().Name() != "" && sig.Recv().Name() != "_" {
			n = sig.Recv().Name()
		}
		names = append(names, n)
		ts = append(ts, recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", len(names))
		}
		names = append(names, n)
		ts = append(ts, p.Type())
	}
	return names, ts
}

func (c *Ctx) applyContractSig(con *Contract, recv types.Type, sig *types.Signature, args []Val, g T, st *State, pos token.Pos) (Val, T) {
	c.usedCon[con.Key] = true
	if con.Trusted {
		c.assumed["trusted contract: "+con.Key] = true
	}
	names, ts := paramNames(recv, sig, nil)
	env := &SpecEnv{c: c, vars: map[string]SVal{}, pkg: con.pkg, guard: g}
	for i := range names {
		if i >= len(args) {
			break
		}
		sv := SVal{typ: ts[i], name: names[i]}
		if args[i].place != nil && !(args[i].place.kind == pkRef && len(args[i].place.path) == 0) {
			// address of a location: contracts may use it only through field selection
			sv.place = args[i].place
		} else {
			sv.t = c.normSlice(g, c.asTerm(args[i]), pos)
		}
		env.vars[names[i]] = sv
		if i == 0 && recv != nil {
			env.vars["recv"] = sv
		}
	}
	pre := st.clone()
	env.st = pre
	env.old = pre
	c.callCnt[con.Short()]++
	cn := c.callCnt[con.Short()]
	if recv != nil && !con.NilRecv && env.vars[names[0]].place == nil {
		if _, ok := recv.Underlying().(*types.Pointer); ok {
			c.oblige(fmt.Sprintf("pre(%s)/recv@%d", con.Short(), cn), g, mkNot(mkEq(env.vars[names[0]].t, mkInt(0))), pos, "receiver is not nil")
		}
	}
	for i, r := range con.Requires {
		if r.Trusted {
			continue
		}
		c.oblige(fmt.Sprintf("pre(%s)[%d]@%d", con.Short(), i, cn), g, c.evalBool(r.Expr, env), pos, r.Text)
	}
	if con.PanicsWhen != nil {
		// the caller must avoid the panic
		c.oblige(fmt.Sprintf("pre(%s)/nopanic@%d", con.Short(), cn), g, mkNot(c.evalBool(con.PanicsWhen.Expr, env)), pos, "call does not panic: not ("+con.PanicsWhen.Text+")")
	}
	if c.fn != nil && c.con != nil && c.P.recursive(con.Key, c.fn) {
		if len(con.Decreases) > 0 && len(con.Decreases) == len(c.con.Decreases) {
			var n, o []T
			own := c.entryEnv()
			for i, d := range con.Decreases {
				n = append(n, c.eval(d.Expr, env).t)
				o = append(o, c.eval(c.con.Decreases[i].Expr, own).t)
			}
			c.oblige(fmt.Sprintf("decreases(%s)@%d", con.Short(), cn), g, lexLess(n, o), pos, "measure of the recursive call: "+con.Decreases[0].Text)
		} else {
			c.assumed["termination of the recursion through "+con.Key+" is not proved"] = true
		}
	}
	// havoc
	nst := pre.clone()
	if !con.Pure {
		nst.alloc = c.fresh("alloc", sInt)
		c.assume(tTrue, mkLe(pre.alloc, nst.alloc))
	}
	for _, m := range con.Modifies {
		c.havocMod(m, env, pre, nst)
	}
	for _, gu := range con.Ghosts {
		k := "X:" + gu.Name
		nst.heap[k] = c.fresh("H_"+k, c.comps[k].so)
	}
	// results
	var res Val
	rs := sig.Results()
	mk := func(k int) Val {
		t := rs.At(k).Type()
		so := c.m.sortOf(t)
		if con.Pure && !con.readsHeap {
			f := fmt.Sprintf("pf!%s!%d", sanitize(con.Key), k)
			var ss []string
			var as []T
			for i := range names {
				if i < len(args) {
					as = append(as, env.vars[names[i]].t)
					ss = append(ss, env.vars[names[i]].t.so)
				}
			}
			if len(as) > 0 {
				c.m.fun(f, ss, so)
				v := c.define("pr", app(so, f, as...))
				c.assumeFacts(g, v, t, nst)
				return Val{t: v}
			}
		}
		v := c.fresh("r_"+con.Short(), so)
		c.assumeFacts(g, v, t, nst)
		return Val{t: v}
	}
	var vals []Val
	for k := 0; k < rs.Len(); k++ {
		vals = append(vals, mk(k))
	}
	env.st = nst
	env.old = pre
	env.results(sig, vals)
	for _, gu := range con.Ghosts {
		c.ghostEffect(con, gu, env, g, pre, nst)
	}
	for k, e := range con.Ensures {
		c.tagged(fmt.Sprintf("%s.ensures[%d]", con.Short(), k), func() { c.assume(g, c.evalBool(e.Expr, env)) })
	}
	*st = *nst
	switch rs.Len() {
	case 0:
	case 1:
		res = vals[0]
	default:
		res = Val{tup: vals}
	}
	if con.NoReturn {
		return res, tFalse
	}
	return res, g
}

// ---------- modifies ----------

// modTarget resolves a modifies clause to (component, reference).
type modTarget struct {
	comp  string
	whole bool
	ref   T
	cond  func(r T) T
}

func (c *Ctx) modTargets(m *ModClause, env *SpecEnv) []modTarget {
	ts := c.modTargets0(m, env)
	if m.Cond == nil {
		return ts
	}
	t := types.Type(types.Typ[types.Int])
	if gt := c.P.lookupType(m.TypeName, env.pkg); gt != nil {
		if _, ok := gt.Underlying().(*types.Slice); !ok {
			t = types.NewPointer(gt)
		}
	}
	for i := range ts {
		ts[i].whole = false
		ts[i].cond = func(r T) T {
			n := env.child()
			n.vars["it"] = SVal{t: r, typ: t}
			return c.evalBool(m.Cond, n)
		}
	}
	return ts
}

func (c *Ctx) modTargets0(m *ModClause, env *SpecEnv) []modTarget {
	switch m.Kind {
	case "field": // expr.f , expr.*
		base := c.eval(m.Base, env)
		if base.place != nil {
			p := base.place
			return []modTarget{{comp: p.comp, ref: p.ref, whole: p.kind == pkGlobal || p.kind == pkCell}}
		}
		pt, ok := base.typ.Underlying().(*types.Pointer)
		if !ok {
			panic(specErr("modifies: base is not a pointer: " + m.Text))
		}
		et := pt.Elem()
		u, ok := et.Underlying().(*types.Struct)
		if !ok {
			return []modTarget{{comp: c.compPtr(et), ref: base.t}}
		}
		var out []modTarget
		for i := 0; i < u.NumFields(); i++ {
			if m.Field == "*" || u.Field(i).Name() == m.Field {
				out = append(out, modTarget{comp: c.compField(et, i), ref: base.t})
			}
		}
		if len(out) == 0 {
			panic(specErr("modifies: no field " + m.Field + " in " + et.String()))
		}
		return out
	case "elems":
		base := c.eval(m.Base, env)
		sl, ok := base.typ.Underlying().(*types.Slice)
		if !ok {
			panic(specErr("modifies elems: not a slice"))
		}
		return []modTarget{{comp: c.compElem(sl.Elem()), ref: slArr(base.t)}}
	case "map":
		base := c.eval(m.Base, env)
		mt, ok := base.typ.Underlying().(*types.Map)
		if !ok {
			panic(specErr("modifies map: not a map"))
		}
		d, v, l := c.compMap(mt)
		return []modTarget{{comp: d, ref: base.t}, {comp: v, ref: base.t}, {comp: l, ref: base.t}}
	case "any": // any T.f
		t := c.P.lookupType(m.TypeName, env.pkg)
		if sl, ok := t.Underlying().(*types.Slice); ok {
			return []modTarget{{comp: c.compElem(sl.Elem()), whole: true}}
		}
		if mt, ok := t.Underlying().(*types.Map); ok {
			d, v, l := c.compMap(mt)
			return []modTarget{{comp: d, whole: true}, {comp: v, whole: true}, {comp: l, whole: true}}
		}
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return []modTarget{{comp: c.compPtr(t), whole: true}}
		}
		var out []modTarget
		for i := 0; i < u.NumFields(); i++ {
			if m.Field == "*" || u.Field(i).Name() == m.Field {
				out = append(out, modTarget{comp: c.compField(t, i), whole: true})
			}
		}
		if len(out) == 0 {
			panic(specErr("modifies any: no field " + m.Field))
		}
		return out
	case "global":
		t, pkg := c.P.lookupGlobal(m.TypeName, env.pkg)
		return []modTarget{{comp: c.compGlobalVar(pkg, m.Field, t), whole: true}}
	}
	panic(specErr("modifies " + m.Text))
}

func (c *Ctx) havocMod(m *ModClause, env *SpecEnv, pre, nst *State) {
	if m.Kind == "field" {
		base := c.eval(m.Base, env)
		if base.place != nil {
			// location passed by address: replace field of the location
			p := *base.place
			ft := p.typ
			if m.Field != "*" {
				u := p.typ.Underlying().(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == m.Field {
						p.path = append(append([]step{}, p.path...), step{field: i, typ: p.typ})
						ft = u.Field(i).Type()
					}
				}
			}
			p.typ = ft
			c.storePlace(nst, &p, c.fresh("hv", c.m.sortOf(ft)))
			return
		}
	}
	for _, t := range c.modTargets(m, env) {
		if t.whole {
			nst.heap[t.comp] = c.fresh("H_"+t.comp, c.comps[t.comp].so)
			continue
		}
		if t.cond != nil {
			cur := c.heapTerm(nst, t.comp)
			nw := c.fresh("H_"+t.comp, c.comps[t.comp].so)
			nst.heap[t.comp] = nw
			r := T{"r!m", sInt}
			el := elemSort(c.comps[t.comp].so)
			a, b := mkSelect(nw, r, el), mkSelect(cur, r, el)
			body := mkImp(mkAnd(mkLt(mkInt(0), r), mkLt(r, pre.alloc), mkNot(t.cond(r))), mkEq(a, b))
			c.tagged("modifies", func() {
				c.assume(tTrue, T{fmt.Sprintf("(forall ((r!m Int)) (! %s :pattern (%s) :pattern (%s)))", body.s, a.s, b.s), sBool})
			})
			continue
		}
		cur := c.heapTerm(nst, t.comp)
		fv := c.fresh("hv_"+t.comp, elemSort(c.comps[t.comp].so))
		nst.heap[t.comp] = c.define("H_"+t.comp, mkStore(cur, t.ref, fv))
	}
}

// modComps lists components of a modifies clause without evaluating references.
func (c *Ctx) modComps(con *Contract, m *ModClause, cc *ssa.CallCommon, callee *ssa.Function) []string {
	// evaluate against a dummy environment: only types matter
	var sig *types.Signature
	var recv types.Type
	if cc.IsInvoke() {
		sig = cc.Method.Type().(*types.Signature)
		recv = cc.Value.Type()
	} else {
		sig = callee.Signature
		if sig.Recv() != nil {
			recv = sig.Recv().Type()
		}
	}
	names, ts := paramNames(recv, sig, callee)
	env := &SpecEnv{c: c, vars: map[string]SVal{}, pkg: con.pkg, st: c.entry, old: c.entry, guard: tTrue}
	for i := range names {
		env.vars[names[i]] = SVal{t: T{"dummy", c.m.sortOf(ts[i])}, typ: ts[i]}
		if i == 0 && recv != nil {
			env.vars["recv"] = env.vars[names[0]]
		}
	}
	var out []string
	for _, t := range c.modTargets(m, env) {
		out = append(out, t.comp)
	}
	return out
}

func (c *Ctx) buildModSet() *ModSet {
	ms := &ModSet{whole: map[string]bool{}, refs: map[string][]T{}, conds: map[string][]func(T) T{}}
	env := c.entryEnv()
	for _, m := range c.con.Modifies {
		for _, t := range c.modTargets(m, env) {
			if t.whole {
				ms.whole[t.comp] = true
			} else if t.cond != nil {
				ms.conds[t.comp] = append(ms.conds[t.comp], t.cond)
			} else {
				ms.refs[t.comp] = append(ms.refs[t.comp], t.ref)
			}
		}
	}
	return ms
}

var _ = sort.Strings

// recursive tells whether the function with the given key can call fn again.
func (P *Program) recursive(key string, fn *ssa.Function) bool {
	f := P.fns[key]
	if f == nil {
		return false
	}
	if P.reach == nil {
		P.reach = map[*ssa.Function]map[*ssa.Function]bool{}
	}
	r, ok := P.reach[f]
	if !ok {
		r = map[*ssa.Function]bool{}
		var walk func(x *ssa.Function)
		walk = func(x *ssa.Function) {
			if r[x] || !P.inRepo(x) {
				return
			}
			r[x] = true
			for _, b := range x.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if s := ci.Common().StaticCallee(); s != nil {
							walk(s)
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						walk(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
		walk(f)
		P.reach[f] = r
	}
	return r[fn]
}
