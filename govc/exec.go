package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obl is one proof obligation.
type Obl struct {
	Name   string
	Kind   string
	Func   string
	Pos    string
	Prefix int // number of assertions which may be used
	Goal   T   // formula which must be valid (guard already included)
	Text   string
	Expect string // "unsat" normally; "sat" for reachability covers

	Status  string // proved | failed | unknown
	Solver  string
	Secs    float64
	Model   string
	Reason  string
	trivial bool
	splits  []T // guards of the last join of many branches: a hard goal is decided branch by branch
	only    *T  // the branch of this query; nil means none of them
	inSplit bool
	pruned  *Hint
}

// Ctx verifies one function.
type Ctx struct {
	joins    []join
	curBlock *ssa.BasicBlock
	P        *Program
	m        *Model
	fn       *ssa.Function
	con      *Contract
	name     string
	comps    map[string]*Comp
	consts   []string
	declared map[string]bool
	nfresh   map[string]int
	asserts  []string
	tags     map[int]string // origin of the assertions, for the hints
	tag      string
	factSeen map[string]bool
	obls     []*Obl
	oblCount map[string]int
	callCnt  map[string]int
	loopNo   int
	nframe   int
	entry    *State
	entryG   T
	math     bool
	assumed  map[string]bool // external functions and other trusted things met
	implType types.Type
	inlined  map[string]bool
	usedCon  map[string]bool // contracts used at call sites
	sums     map[string]*sumInfo
	ghosts   map[string]*GhostDecl
	params   []SVal
	retGuard []T
	modset   *ModSet
	inStack  []*ssa.Function
	covers   []*Obl
	notes    []string
	termOK   bool
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	parent *Frame
	id     string
	depth  int
	loops  map[*ssa.BasicBlock]*loopInfo
	start  *State // state at the entry of this activation
	call   string
	defers []*ssa.Defer
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	backs  []*ssa.BasicBlock
	ord    int
	iterN  T
	auto   []autoInv
	pre    *State
	preEnv map[ssa.Value]Val // phi values at loop entry
	spec   *LoopSpec
	decr   []T
	guard  T
	hst    *State
}

type autoInv struct {
	phi  *ssa.Phi
	init T
	step T
	what string
}

type edge struct {
	guard T
	st    *State
}

type retInfo struct {
	guard T
	st    *State
	vals  []Val
	pos   token.Pos
	b     *ssa.BasicBlock
}

func (c *Ctx) oblige(kind string, g, cond T, pos token.Pos, text string) {
	goal := mkImp(g, cond)
	base := c.name + "/" + kind
	c.oblCount[base]++
	name := base
	if n := c.oblCount[base]; n > 1 || !strings.Contains(kind, "[") {
		name = fmt.Sprintf("%s#%d", base, n)
	}
	o := &Obl{Name: name, Kind: kind, Func: c.name, Pos: c.P.pos(pos), Prefix: len(c.asserts), Goal: goal, Text: text, Expect: "unsat", splits: c.lastJoin()}
	if goal.s == "true" {
		o.trivial = true
		o.Status = "proved"
		o.Solver = "syntactic"
	}
	c.obls = append(c.obls, o)
	c.tagged("have "+kind, func() { c.assume(g, cond) })
}

func (c *Ctx) tagged(tag string, f func()) {
	old := c.tag
	c.tag = tag
	f()
	c.tag = old
}

type join struct {
	b  *ssa.BasicBlock
	gs []T
}

// lastJoin returns the branches of the last join of many branches which the current block comes after.
func (c *Ctx) lastJoin() []T {
	for i := len(c.joins) - 1; i >= 0; i-- {
		j := c.joins[i]
		if c.curBlock == nil || j.b.Parent() != c.curBlock.Parent() || j.b == c.curBlock || j.b.Dominates(c.curBlock) {
			return j.gs
		}
	}
	return nil
}

// ---------- control flow ----------

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	loops := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				l.backs = append(l.backs, b)
				var stack []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	return loops
}

// order returns blocks in a topological order of the graph without back edges.
func order(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if s.Dominates(b) {
				continue
			}
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func (c *Ctx) execFunc(fr *Frame, st *State, guard T) []retInfo {
	fn := fr.fn
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body for " + fn.String()))
	}
	fr.loops = findLoops(fn)
	if fn.Recover != nil {
		c.checkDefers(fr)
	}
	fr.start = st.clone()
	edges := map[[2]int]edge{}
	var rets []retInfo

	for _, b := range order(fn) {
		var ins []edge
		var inIdx []int
		if b == fn.Blocks[0] {
			ins = append(ins, edge{guard, st})
			inIdx = append(inIdx, -1)
		}
		for i, p := range b.Preds {
			if b.Dominates(p) {
				continue // back edge
			}
			if e, ok := edges[[2]int{p.Index, b.Index*1000 + predOcc(b, i)}]; ok {
				ins = append(ins, e)
				inIdx = append(inIdx, i)
			}
		}
		if len(ins) == 0 {
			continue
		}
		if fr.parent == nil && fr.depth == 0 {
			c.curBlock = b
		}
		g, cur := c.merge(fr, b, ins)
		// phis
		li := fr.loops[b]
		phiVals := map[*ssa.Phi]Val{}
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			var vs []Val
			for _, i := range inIdx {
				vs = append(vs, c.get(fr, cur, phi.Edges[i]))
			}
			phiVals[phi] = c.mergeVals(phi, ins, vs)
		}
		for p, v := range phiVals {
			fr.env[p] = v
		}
		if li != nil {
			g, cur = c.enterLoop(fr, li, g, cur, phiVals)
		}
		if b.Comment == "recover" {
			continue
		}
		dead := false
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			switch x := in.(type) {
			case *ssa.Jump:
				c.takeEdge(fr, edges, b, 0, g, cur)
			case *ssa.If:
				cond := c.get(fr, cur, x.Cond).t
				c.takeEdge(fr, edges, b, 0, c.define("g", mkAnd(g, cond)), cur)
				c.takeEdge(fr, edges, b, 1, c.define("g", mkAnd(g, mkNot(cond))), cur)
			case *ssa.Return:
				var vals []Val
				for _, r := range x.Results {
					vals = append(vals, c.get(fr, cur, r))
				}
				rets = append(rets, retInfo{g, cur, vals, x.Pos(), b})
			case *ssa.Panic:
				c.handlePanic(fr, g, cur, x.Pos())
				dead = true
			default:
				ng := c.instr(fr, in, g, cur)
				if ng.s == "false" {
					dead = true
				}
				g = ng
			}
			if dead {
				break
			}
		}
	}
	return rets
}

// checkDefers refuses defers which are not executed exactly once at every return,
// and deferred functions which might recover from a panic.
func (c *Ctx) checkDefers(fr *Frame) {
	fn := fr.fn
	var runs, defs []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		if b == fn.Recover {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.RunDefers:
				runs = append(runs, b)
			case *ssa.Defer:
				defs = append(defs, b)
				for _, li := range fr.loops {
					if li.body[b] {
						panic(unsupported("defer in a loop in " + fn.String()))
					}
				}
				if _, ok := x.Call.Value.(*ssa.Builtin); ok && !x.Call.IsInvoke() {
					continue
				}
				callee := x.Call.StaticCallee()
				if callee == nil || c.mayRecover(callee) {
					panic(unsupported("deferred call in " + fn.String()))
				}
			}
		}
	}
	for _, d := range defs {
		for _, r := range runs {
			if !d.Dominates(r) {
				panic(unsupported("conditional defer in " + fn.String()))
			}
		}
	}
}

// mayRecover says whether the deferred function f might call recover.
func (c *Ctx) mayRecover(f *ssa.Function) bool {
	if !c.P.inRepo(f) {
		return c.P.contractFor(f) == nil
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return len(f.Blocks) == 0
}

func predOcc(b *ssa.BasicBlock, i int) int {
	n := 0
	for k := 0; k < i; k++ {
		if b.Preds[k] == b.Preds[i] {
			n++
		}
	}
	return n
}

func (c *Ctx) handlePanic(fr *Frame, g T, st *State, pos token.Pos) {
	if c.con != nil && c.con.PanicsWhen != nil {
		cond := c.evalBool(c.con.PanicsWhen.Expr, c.entryEnv())
		c.oblige("panic", g, cond, pos, "panic reached only when: "+c.con.PanicsWhen.Text)
		return
	}
	if c.con != nil && c.con.MayPanic {
		return
	}
	c.oblige("panic", g, tFalse, pos, "explicit panic is unreachable")
}

func (c *Ctx) takeEdge(fr *Frame, edges map[[2]int]edge, b *ssa.BasicBlock, k int, g T, st *State) {
	s := b.Succs[k]
	if s.Dominates(b) {
		c.backEdge(fr, fr.loops[s], b, k, g, st)
		return
	}
	// which occurrence of b among s.Preds?
	occ := 0
	for i := 0; i < k; i++ {
		if b.Succs[i] == s {
			occ++
		}
	}
	edges[[2]int{b.Index, s.Index*1000 + occ}] = edge{g, st.clone()}
}

func (c *Ctx) merge(fr *Frame, b *ssa.BasicBlock, ins []edge) (T, *State) {
	if len(ins) == 1 {
		return ins[0].guard, ins[0].st.clone()
	}
	var gs []T
	for _, e := range ins {
		gs = append(gs, e.guard)
	}
	g := c.define("g", mkOr(gs...))
	if len(gs) >= 6 {
		c.joins = append(c.joins, join{b, gs})
	}
	keys := map[string]bool{}
	cells := map[string]bool{}
	for _, e := range ins {
		for k := range e.st.heap {
			keys[k] = true
		}
		for k := range e.st.cells {
			cells[k] = true
		}
	}
	st := &State{heap: map[string]T{}, cells: map[string]T{}}
	for _, k := range sortedKeys(keys) {
		var ts []T
		for _, e := range ins {
			ts = append(ts, c.heapTerm(e.st, k))
		}
		st.heap[k] = c.mergeTerms("H_"+k, ins, ts)
	}
	for _, k := range sortedKeys(cells) {
		var ts []T
		ok := true
		for _, e := range ins {
			t, has := e.st.cells[k]
			if !has {
				ok = false
				break
			}
			ts = append(ts, t)
		}
		if ok {
			st.cells[k] = c.mergeTerms("v_"+k, ins, ts)
		}
	}
	var as []T
	for _, e := range ins {
		as = append(as, e.st.alloc)
	}
	st.alloc = c.mergeTerms("alloc", ins, as)
	return g, st
}

func (c *Ctx) mergeTerms(hint string, ins []edge, ts []T) T {
	for i := range ts {
		ts[i] = c.normSlice(ins[i].guard, ts[i], token.NoPos)
	}
	same := true
	for _, t := range ts {
		if t.s != ts[0].s {
			same = false
		}
	}
	if same {
		return ts[0]
	}
	r := ts[len(ts)-1]
	for i := len(ts) - 2; i >= 0; i-- {
		r = mkIte(ins[i].guard, ts[i], r)
	}
	return c.define(hint, r)
}

func (c *Ctx) mergeVals(phi *ssa.Phi, ins []edge, vs []Val) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	// tuples, places and closures must agree
	if vs[0].fn != nil {
		for _, v := range vs {
			if v.fn != vs[0].fn {
				return Val{t: mkInt(1)}
			}
		}
		return vs[0]
	}
	var ts []T
	for _, v := range vs {
		if v.place != nil {
			if v.place.kind == pkRef && len(v.place.path) == 0 {
				ts = append(ts, v.place.ref)
				continue
			}
			panic(unsupported("phi of interior pointers"))
		}
		ts = append(ts, v.t)
	}
	name := "phi"
	if phi.Comment != "" {
		name = phi.Comment
	}
	return Val{t: c.mergeTerms(name, ins, ts)}
}

// ---------- loops ----------

func (c *Ctx) enterLoop(fr *Frame, li *loopInfo, g T, st *State, phiVals map[*ssa.Phi]Val) (T, *State) {
	li.ord = c.loopNo
	c.loopNo++
	if c.con != nil {
		li.spec = c.con.Loops[li.ord]
	}
	li.guard = g
	li.pre = st.clone()
	li.preEnv = map[ssa.Value]Val{}
	for p, v := range phiVals {
		li.preEnv[p] = v
	}
	// invariants must hold on entry
	li.iterN = mkInt(0)
	li.auto = c.autoInvs(fr, li, phiVals)
	li.hst = st
	env := c.loopEnv(fr, li, st)
	if li.spec != nil {
		for _, u := range li.spec.Uses {
			c.useLemma(u, env, g)
		}
		for i, inv := range li.spec.Invs {
			if inv.Trusted {
				continue
			}
			c.oblige(fmt.Sprintf("loop%d/inv[%d]/entry", li.ord, i), g, c.evalBool(inv.Expr, env), c.loopPos(li), inv.Text)
		}
	}
	// havoc
	comps, cells, all := c.loopMods(fr, li)
	nst := st.clone()
	nst.alloc = c.fresh("alloc", sInt)
	c.assume(g, mkLe(st.alloc, nst.alloc))
	for _, k := range sortedKeys(comps) {
		if _, ok := c.comps[k]; !ok {
			continue
		}
		nst.heap[k] = c.fresh("L_"+k, c.comps[k].so)
	}
	if all {
		for k := range c.comps {
			if !strings.HasPrefix(k, "X:") {
				nst.heap[k] = c.fresh("L_"+k, c.comps[k].so)
			}
		}
	}
	for _, k := range sortedKeys(cells) {
		if old, ok := nst.cells[k]; ok {
			nst.cells[k] = c.fresh("L_"+k, old.so)
		}
	}
	for _, in := range li.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		name := phi.Comment
		if name == "" {
			name = "phi"
		}
		v := c.fresh(name, c.m.sortOf(phi.Type()))
		fr.env[phi] = Val{t: v}
		c.assumeFacts(g, v, phi.Type(), nst)
	}
	li.iterN = c.fresh("$n", sInt)
	c.assume(tTrue, mkLe(mkInt(0), li.iterN))
	for _, a := range li.auto {
		c.assume(g, c.autoFormula(a, fr.env[a.phi].t, li.iterN))
	}
	// automatic frame invariants
	for _, k := range sortedKeys(comps) {
		if _, ok := c.comps[k]; !ok {
			continue
		}
		f, ok := c.frameFormula(k, nst.heap[k])
		if ok {
			pf, _ := c.frameFormula(k, c.heapTerm(st, k))
			c.oblige(fmt.Sprintf("loop%d/frame(%s)/entry", li.ord, k), g, pf, c.loopPos(li), "only locations of the modifies clause change in "+k)
			c.tagged("frame", func() { c.assume(g, f) })
		}
	}
	li.hst = nst
	env = c.loopEnv(fr, li, nst)
	if li.spec != nil {
		for _, u := range li.spec.Uses {
			c.useLemma(u, env, g)
		}
		for k, inv := range li.spec.Invs {
			c.tagged(fmt.Sprintf("loop%d/inv[%d]", li.ord, k), func() { c.assume(g, c.evalBool(inv.Expr, env)) })
		}
		for _, u := range li.spec.Uses {
			c.useLemma(u, env, g)
		}
		for _, d := range li.spec.Decreases {
			v := c.define("decr", c.eval(d.Expr, env).t)
			li.decr = append(li.decr, v)
		}
	}
	return g, nst
}

func (c *Ctx) loopPos(li *loopInfo) token.Pos {
	for _, in := range li.header.Instrs {
		if in.Pos() != token.NoPos {
			return in.Pos()
		}
	}
	for b := range li.body {
		for _, in := range b.Instrs {
			if in.Pos() != token.NoPos {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func (c *Ctx) backEdge(fr *Frame, li *loopInfo, b *ssa.BasicBlock, k int, g T, st *State) {
	// index of this edge among header preds
	pi := -1
	for i, p := range li.header.Preds {
		if p == b {
			pi = i
		}
	}
	saved := map[ssa.Value]Val{}
	next := map[ssa.Value]Val{}
	for _, in := range li.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		saved[phi] = fr.env[phi]
		next[phi] = c.get(fr, st, phi.Edges[pi])
	}
	oldN := li.iterN
	for p, v := range next {
		if v.place != nil {
			if v.place.kind == pkRef && len(v.place.path) == 0 {
				v = Val{t: v.place.ref}
			} else {
				panic(unsupported("loop-carried interior pointer"))
			}
		}
		fr.env[p] = v
	}
	li.iterN = mkAdd(oldN, mkInt(1))
	savedH := li.hst
	li.hst = st
	env := c.loopEnv(fr, li, st)
	for _, a := range li.auto {
		c.oblige(fmt.Sprintf("loop%d/auto-%s/preserved", li.ord, a.what), g, c.autoFormula(a, fr.env[a.phi].t, li.iterN), c.loopPos(li), "induction variable "+a.phi.Comment)
	}
	comps, _, _ := c.loopMods(fr, li)
	for _, k := range sortedKeys(comps) {
		if _, ok := c.comps[k]; !ok {
			continue
		}
		if f, ok := c.frameFormula(k, c.heapTerm(st, k)); ok {
			c.oblige(fmt.Sprintf("loop%d/frame(%s)/preserved", li.ord, k), g, f, c.loopPos(li), "only locations of the modifies clause change in "+k)
		}
	}
	if li.spec != nil {
		for _, u := range li.spec.UsesEnd {
			c.useLemma(u, env, g)
		}
		for _, u := range li.spec.Uses {
			c.useLemma(u, env, g)
		}
		for i, inv := range li.spec.Invs {
			if inv.Trusted {
				continue
			}
			c.oblige(fmt.Sprintf("loop%d/inv[%d]/preserved", li.ord, i), g, c.evalBool(inv.Expr, env), c.loopPos(li), inv.Text)
		}
		if len(li.spec.Decreases) > 0 {
			var news []T
			for _, d := range li.spec.Decreases {
				news = append(news, c.eval(d.Expr, env).t)
			}
			c.oblige(fmt.Sprintf("loop%d/decreases", li.ord), g, lexLess(news, li.decr), c.loopPos(li), li.spec.Decreases[0].Text)
		}
	}
	li.iterN = oldN
	li.hst = savedH
	for p, v := range saved {
		fr.env[p] = v
	}
}

func lexLess(n, o []T) T {
	var alts []T
	for i := range n {
		var cs []T
		for k := 0; k < i; k++ {
			cs = append(cs, mkEq(n[k], o[k]))
		}
		cs = append(cs, mkLt(n[i], o[i]), mkLe(mkInt(0), o[i]))
		alts = append(alts, mkAnd(cs...))
	}
	return mkOr(alts...)
}

// autoInvs finds induction variables of the loop.
func (c *Ctx) autoInvs(fr *Frame, li *loopInfo, phiVals map[*ssa.Phi]Val) []autoInv {
	var out []autoInv
	for _, in := range li.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isInteger(phi.Type()) {
			continue
		}
		var stp *int64
		good := true
		for i, p := range li.header.Preds {
			if !li.body[p] {
				continue
			}
			bo, ok := phi.Edges[i].(*ssa.BinOp)
			if !ok || (bo.Op != token.ADD && bo.Op != token.SUB) || bo.X != ssa.Value(phi) {
				good = false
				break
			}
			k, ok := bo.Y.(*ssa.Const)
			if !ok || k.Value == nil {
				good = false
				break
			}
			n, ok := constant.Int64Val(k.Value)
			if !ok {
				good = false
				break
			}
			if bo.Op == token.SUB {
				n = -n
			}
			if stp != nil && *stp != n {
				good = false
				break
			}
			stp = &n
		}
		if !good || stp == nil {
			continue
		}
		out = append(out, autoInv{phi: phi, init: phiVals[phi].t, step: mkInt(*stp), what: "ind"})
		// counting-up loops guarded by "< bound" or "<= bound" with loop-invariant bound
		if lim := c.loopBound(fr, li, phi); lim != nil && *stp == 1 {
			out = append(out, autoInv{phi: phi, init: phiVals[phi].t, step: *lim, what: "bound"})
		}
	}
	return out
}

// loopBound recognises headers of the form "if phi(+1) < bound".
func (c *Ctx) loopBound(fr *Frame, li *loopInfo, phi *ssa.Phi) *T {
	last := li.header.Instrs[len(li.header.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		return c.latchBound(fr, li, phi)
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.LSS {
		return c.latchBound(fr, li, phi)
	}
	off := int64(0)
	x := bo.X
	if add, ok := x.(*ssa.BinOp); ok && add.Op == token.ADD && add.X == ssa.Value(phi) && add.Block() == li.header {
		k, ok := add.Y.(*ssa.Const)
		if !ok || k.Value == nil {
			return nil
		}
		n, _ := constant.Int64Val(k.Value)
		if n != 1 {
			return nil
		}
		off = 1
	} else if x != ssa.Value(phi) {
		return nil
	}
	// bound must be defined outside of the loop
	if in, ok := bo.Y.(ssa.Instruction); ok {
		if li.body[in.Block()] {
			return nil
		}
	}
	v, ok := fr.env[bo.Y]
	if !ok {
		if k, ok := bo.Y.(*ssa.Const); ok {
			v = c.constVal(k)
		} else {
			return nil
		}
	}
	t := v.t
	if off == 1 {
		t = mkSub(t, mkInt(1))
	}
	return &t
}

// latchBound recognises loops which go on with "if phi+1 < bound" at their end (range over integer).
func (c *Ctx) latchBound(fr *Frame, li *loopInfo, phi *ssa.Phi) *T {
	var bound ssa.Value
	for i, p := range li.header.Preds {
		if !li.body[p] {
			continue
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] != li.header {
			return nil
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.LSS || bo.X != phi.Edges[i] || (bound != nil && bo.Y != bound) {
			return nil
		}
		bound = bo.Y
	}
	if bound == nil {
		return nil
	}
	if in, ok := bound.(ssa.Instruction); ok && li.body[in.Block()] {
		return nil
	}
	v, ok := fr.env[bound]
	if !ok {
		k, ok := bound.(*ssa.Const)
		if !ok {
			return nil
		}
		v = c.constVal(k)
	}
	t := mkSub(v.t, mkInt(1))
	return &t
}

func (c *Ctx) autoFormula(a autoInv, v, n T) T {
	if a.what == "ind" {
		return mkEq(v, mkAdd(a.init, mkMul(a.step, n)))
	}
	// v never passes the bound unless it started beyond it
	return mkOr(mkLe(v, a.step), mkEq(v, a.init))
}

// loopMods returns heap components and local cells which the loop may change.
func (c *Ctx) loopMods(fr *Frame, li *loopInfo) (map[string]bool, map[string]bool, bool) {
	comps := map[string]bool{}
	cells := map[string]bool{}
	all := false
	for b := range li.body {
		for _, in := range b.Instrs {
			c.instrMods(fr, in, comps, cells, &all, 0)
		}
	}
	return comps, cells, all
}

func (c *Ctx) instrMods(fr *Frame, in ssa.Instruction, comps, cells map[string]bool, all *bool, depth int) {
	addr := func(a ssa.Value, t types.Type) {
		c.addrMods(fr, a, t, comps, cells, depth)
	}
	switch x := in.(type) {
	case *ssa.Store:
		addr(x.Addr, x.Val.Type())
	case *ssa.Alloc:
		if c.isCell(x) {
			if depth == 0 {
				cells[fr.id+x.Name()] = true
			}
		} else {
			c.allocMods(x, comps)
		}
	case *ssa.MakeSlice:
		comps[c.compElem(x.Type().Underlying().(*types.Slice).Elem())] = true
	case *ssa.MakeMap:
		d, v, l := c.compMap(x.Type().Underlying().(*types.Map))
		comps[d], comps[v], comps[l] = true, true, true
	case *ssa.MapUpdate:
		d, v, l := c.compMap(x.Map.Type().Underlying().(*types.Map))
		comps[d], comps[v], comps[l] = true, true, true
	case *ssa.Convert:
		if _, ok := x.Type().Underlying().(*types.Slice); ok {
			comps[c.compElem(x.Type().Underlying().(*types.Slice).Elem())] = true
		}
	case *ssa.Next:
		cells[fr.id+"iter:"+x.Iter.Name()] = true
	case ssa.CallInstruction:
		c.callMods(fr, x.Common(), comps, cells, all, depth)
	}
}

func (c *Ctx) allocMods(x *ssa.Alloc, comps map[string]bool) {
	t := x.Type().(*types.Pointer).Elem()
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			comps[c.compField(t, i)] = true
		}
	case *types.Array:
		comps[c.compElem(u.Elem())] = true
	default:
		comps[c.compPtr(t)] = true
	}
}

func (c *Ctx) addrMods(fr *Frame, a ssa.Value, t types.Type, comps, cells map[string]bool, depth int) {
	switch x := a.(type) {
	case *ssa.Alloc:
		if c.isCell(x) {
			if depth == 0 {
				cells[fr.id+x.Name()] = true
			}
			return
		}
		c.allocMods(x, comps)
	case *ssa.FieldAddr:
		// find the root
		switch y := x.X.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr:
			c.addrMods(fr, y, nil, comps, cells, depth)
		case *ssa.Alloc:
			if c.isCell(y) {
				if depth == 0 {
					cells[fr.id+y.Name()] = true
				}
			} else {
				pt := y.Type().Underlying().(*types.Pointer).Elem()
				comps[c.compField(pt, x.Field)] = true
			}
		default:
			if fr != nil {
				if v, ok := fr.env[x.X]; ok && v.place != nil {
					c.placeMods(v.place, x.Field, comps, cells)
					return
				}
			}
			pt := x.X.Type().Underlying().(*types.Pointer).Elem()
			comps[c.compField(pt, x.Field)] = true
		}
	case *ssa.IndexAddr:
		switch ut := x.X.Type().Underlying().(type) {
		case *types.Slice:
			comps[c.compElem(ut.Elem())] = true
		case *types.Pointer:
			if al, ok := x.X.(*ssa.Alloc); ok {
				if c.isCell(al) {
					if depth == 0 {
						cells[fr.id+al.Name()] = true
					}
				} else {
					c.allocMods(al, comps)
				}
			} else {
				c.addrMods(fr, x.X, nil, comps, cells, depth)
				comps[c.compElem(ut.Elem().Underlying().(*types.Array).Elem())] = true
			}
		}
	case *ssa.Global:
		comps[c.compGlobal(x)] = true
	default:
		if fr != nil {
			if v, ok := fr.env[a]; ok && v.place != nil {
				c.placeMods(v.place, -1, comps, cells)
				return
			}
		}
		pt := a.Type().Underlying().(*types.Pointer).Elem()
		if u, ok := pt.Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				comps[c.compField(pt, i)] = true
			}
		} else {
			comps[c.compPtr(pt)] = true
		}
	}
}

func (c *Ctx) placeMods(p *Place, field int, comps, cells map[string]bool) {
	switch p.kind {
	case pkCell:
		cells[p.cell] = true
	case pkRef:
		if field >= 0 {
			comps[c.compField(p.root, field)] = true
		} else if u, ok := p.root.Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				comps[c.compField(p.root, i)] = true
			}
		}
	default:
		comps[p.comp] = true
	}
}

func (c *Ctx) callMods(fr *Frame, cc *ssa.CallCommon, comps, cells map[string]bool, all *bool, depth int) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			comps[c.compElem(cc.Args[0].Type().Underlying().(*types.Slice).Elem())] = true
		case "copy":
			comps[c.compElem(cc.Args[0].Type().Underlying().(*types.Slice).Elem())] = true
		case "delete":
			d, v, l := c.compMap(cc.Args[0].Type().Underlying().(*types.Map))
			comps[d], comps[v], comps[l] = true, true, true
		}
		return
	}
	callee := cc.StaticCallee()
	if callee == nil && !cc.IsInvoke() && fr != nil {
		if v, ok := fr.env[cc.Value]; ok && v.fn != nil {
			callee = v.fn
		}
	}
	var con *Contract
	if cc.IsInvoke() {
		con = c.P.contracts[c.P.invokeKey(cc)]
	} else if callee != nil {
		con = c.P.contractFor(callee)
		if isSortSlice(callee) {
			if et := sortElem(cc); et != nil {
				comps[c.compElem(et)] = true
			}
			return
		}
	}
	if callee == nil || con != nil || (len(callee.Blocks) > 0 && c.P.inRepo(callee)) {
		// interior addresses which are passed to the callee
		for _, a := range cc.Args {
			switch a.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr:
				c.addrMods(fr, a, nil, comps, cells, depth)
			}
		}
	}
	if con != nil {
		for _, m := range con.Modifies {
			for _, k := range c.modComps(con, m, cc, callee) {
				comps[k] = true
			}
		}
		for _, g := range con.Ghosts {
			comps["X:"+g.Name] = true
		}
		return
	}
	if callee == nil || len(callee.Blocks) == 0 || !c.P.inRepo(callee) {
		return
	}
	if depth > 10 {
		*all = true
		return
	}
	for _, b := range callee.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(ssa.CallInstruction); ok {
				c.instrMods(nil, in, comps, cells, all, depth+1)
			} else {
				c.instrModsCallee(in, comps, cells, all, depth+1)
			}
		}
	}
	// arguments which are addresses of caller locations
	if fr != nil {
		for i, a := range cc.Args {
			if v, ok := fr.env[a]; ok && v.place != nil && i < len(callee.Params) {
				c.placeMods(v.place, -1, comps, cells)
			}
			if al, ok := a.(*ssa.Alloc); ok && c.isCell(al) && depth == 0 {
				cells[fr.id+al.Name()] = true
			}
		}
	}
}

func (c *Ctx) instrModsCallee(in ssa.Instruction, comps, cells map[string]bool, all *bool, depth int) {
	c.instrMods(&Frame{env: map[ssa.Value]Val{}}, in, comps, cells, all, depth)
}

// ---------- frame conditions ----------

// ModSet describes which locations the function under verification may change.
type ModSet struct {
	whole map[string]bool          // whole component
	refs  map[string][]T           // component -> references (entry terms)
	conds map[string][]func(r T) T // component -> predicate on the reference
}

// frameFormula says that component k agrees with the entry heap outside of the modifies clause.
func (c *Ctx) frameFormula(k string, cur T) (T, bool) {
	if strings.HasPrefix(k, "X:") {
		return tTrue, false
	}
	if c.modset == nil || c.modset.whole[k] {
		return tTrue, false
	}
	init := T{c.initName(k), c.comps[k].so}
	if cur.s == init.s {
		return tTrue, true
	}
	if strings.HasPrefix(k, "G:") {
		return mkEq(cur, init), true
	}
	r := T{"r!f", sInt}
	conds := []T{mkLt(mkInt(0), r), mkLt(r, c.entry.alloc)}
	for _, x := range c.modset.refs[k] {
		conds = append(conds, mkNot(mkEq(r, x)))
	}
	for _, f := range c.modset.conds[k] {
		conds = append(conds, mkNot(f(r)))
	}
	el := elemSort(c.comps[k].so)
	a := mkSelect(cur, r, el)
	b := mkSelect(init, r, el)
	body := mkImp(mkAnd(conds...), mkEq(a, b))
	return T{fmt.Sprintf("(forall ((r!f Int)) (! %s :pattern (%s) :pattern (%s)))", body.s, a.s, b.s), sBool}, true
}

func elemSort(arr string) string {
	xs := splitSexp(arr[1 : len(arr)-1])
	return xs[2]
}

// ---------- top level ----------

func newCtx(p *Program, fn *ssa.Function, con *Contract) *Ctx {
	c := &Ctx{
		P: p, m: newModel(), fn: fn, con: con,
		comps: map[string]*Comp{}, declared: map[string]bool{}, nfresh: map[string]int{},
		factSeen: map[string]bool{}, oblCount: map[string]int{}, callCnt: map[string]int{},
		assumed: map[string]bool{}, inlined: map[string]bool{}, usedCon: map[string]bool{}, sums: map[string]*sumInfo{},
	}
	return c
}

func (c *Ctx) verify() (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupportedErr:
				err = e
			case specErr:
				err = e
			default:
				panic(r)
			}
		}
	}()
	c.name = c.con.Short()
	if c.implType != nil {
		c.name = c.con.Key
	}
	c.math = c.con.Math
	st := &State{heap: map[string]T{}, cells: map[string]T{}}
	c.decl("alloc!0", sInt)
	st.alloc = T{"alloc!0", sInt}
	c.assume(tTrue, mkLe(mkInt(1), st.alloc))
	for _, g := range c.P.ghosts {
		c.declComp("X:"+g.Name, g.sort(c), nil)
	}
	c.entry = st.clone()
	fr := &Frame{fn: c.fn, env: map[ssa.Value]Val{}, id: ""}
	for i, p := range c.fn.Params {
		name := p.Name()
		if name == "" || name == "_" {
			name = fmt.Sprintf("arg%d", i)
		}
		t := T{name + "!p", c.m.sortOf(p.Type())}
		c.decl(t.s, t.so)
		fr.env[p] = Val{t: t}
		c.assumeFacts(tTrue, t, p.Type(), st)
		c.params = append(c.params, SVal{t: t, typ: p.Type(), name: name})
	}
	for i, fv := range c.fn.FreeVars {
		t := T{fmt.Sprintf("fv%d!p", i), c.m.sortOf(fv.Type())}
		c.decl(t.s, t.so)
		c.assumeFacts(tTrue, t, fv.Type(), st)
		c.assume(tTrue, mkLt(mkInt(0), t))
		fr.env[fv] = Val{t: t}
		c.params = append(c.params, SVal{t: t, typ: fv.Type(), name: fv.Name()})
	}
	// pointer receivers are non-nil
	if c.fn.Signature.Recv() != nil && !c.con.NilRecv {
		if _, ok := c.fn.Params[0].Type().Underlying().(*types.Pointer); ok {
			c.assume(tTrue, mkLt(mkInt(0), c.params[0].t))
		}
	}
	env := c.entryEnv()
	for k, r := range c.con.Requires {
		c.tagged(fmt.Sprintf("requires[%d]", k), func() { c.assume(tTrue, c.evalBool(r.Expr, env)) })
	}
	c.modset = c.buildModSet()
	for _, u := range c.con.Uses {
		c.useLemma(u, env, tTrue)
	}
	c.covers = append(c.covers, &Obl{Name: c.name + "/cover(entry)", Func: c.name, Kind: "cover", Prefix: len(c.asserts), Goal: tFalse, Expect: "sat", Text: "precondition is satisfiable"})

	if c.implType != nil && len(c.fn.Params) == 1 && c.fn.Signature.Results().Len() == 1 {
		if con := c.P.contractFor(c.fn); con != nil && !con.Trusted {
			// the method has a contract of its own, which must imply the one of the interface
			v, g := c.applyContractSig(con, c.implType, c.fn.Signature, []Val{fr.env[c.fn.Params[0]]}, tTrue, st, c.fn.Pos())
			c.checkReturn(fr, retInfo{guard: g, st: st, vals: []Val{v}, pos: c.fn.Pos()}, 0)
			c.covers = nil
			return nil
		}
	}
	rets := c.execFunc(fr, st, tTrue)
	if os.Getenv("GOVC_LINT") != "" {
		for k := range c.con.Loops {
			if k >= c.loopNo {
				fmt.Fprintf(os.Stderr, "lint: %s has no loop %d\n", c.name, k)
			}
		}
	}
	for i, r := range rets {
		c.checkReturn(fr, r, i)
	}
	if c.implType != nil {
		c.covers = nil // no precondition of its own
	}
	return nil
}

func (c *Ctx) checkReturn(fr *Frame, r retInfo, i int) {
	c.curBlock = r.b
	env := c.entryEnv()
	env.st = r.st
	env.old = c.entry
	for k := range r.vals {
		if r.vals[k].t.so == sSlice {
			r.vals[k].t = c.normSlice(r.guard, r.vals[k].t, r.pos)
		}
	}
	env.results(c.fn.Signature, r.vals)
	env.guard = r.guard
	c.covers = append(c.covers, &Obl{Name: fmt.Sprintf("%s/cover(ret%d)", c.name, i), Func: c.name, Kind: "cover", Prefix: len(c.asserts), Goal: mkNot(r.guard), Expect: "sat", Text: "return is reachable", Pos: c.P.pos(r.pos)})
	c.ghostUpdates(c.con, env, r.guard, r.st, r.pos, i)
	for _, u := range c.con.UsesRet {
		func() {
			// a hint over locals which do not exist at this return is left out
			defer func() {
				if e := recover(); e != nil {
					if s, ok := e.(specErr); !ok || !strings.HasPrefix(string(s), "unknown name") {
						panic(e)
					}
				}
			}()
			c.useLemma(u, env, r.guard)
		}()
	}
	for k, e := range c.con.Ensures {
		if e.Trusted {
			continue
		}
		c.oblige(fmt.Sprintf("ensures[%d]@ret%d", k, i), r.guard, c.evalBool(e.Expr, env), r.pos, e.Text)
	}
	if c.modset != nil {
		var ks []string
		for k := range r.st.heap {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if strings.HasPrefix(k, "X:") {
				if !c.ghostDeclaredModified(k) && r.st.heap[k].s != c.initName(k) {
					c.oblige(fmt.Sprintf("frame(%s)@ret%d", k, i), r.guard, mkEq(r.st.heap[k], T{c.initName(k), c.comps[k].so}), r.pos, "ghost state is unchanged")
				}
				continue
			}
			if f, ok := c.frameFormula(k, r.st.heap[k]); ok {
				c.oblige(fmt.Sprintf("frame(%s)@ret%d", k, i), r.guard, f, r.pos, "only locations of the modifies clause change in "+k)
			}
		}
	}
}

func (c *Ctx) ghostDeclaredModified(k string) bool {
	for _, g := range c.con.Ghosts {
		if "X:"+g.Name == k {
			return true
		}
	}
	return false
}
