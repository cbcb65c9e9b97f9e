package main_test

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
)

func init() {
	gens["C13"] = func(j *job) { genModel(j, cfgScopes) }
	gens["C15"] = func(j *job) {
		if j.r.Intn(3) == 0 {
			genArgErrors(j)
			return
		}
		genModel(j, cfgParams)
	}
}

// A model of programs: packages, types with parameters, instances and constants
// in nested scopes, with an evaluator which follows the language definition.

type mexpr struct {
	lit  int64
	refs []string // names, maybe qualified
}

func (e *mexpr) text() string {
	var t []string
	if e.lit != 0 || len(e.refs) == 0 {
		t = append(t, fmt.Sprint(e.lit))
	}
	return strings.Join(append(t, e.refs...), " + ")
}

type cdef struct {
	name string
	e    *mexpr
}

type pdef struct {
	name string
	dflt *mexpr
}

type adef struct {
	name string // "" for a positional argument
	e    *mexpr
}

// def is a type definition or an instantiation.
type def struct {
	name   string
	isType bool
	typ    string
	params []pdef
	args   []adef
	count  *mexpr
	width  *mexpr
	body   *scope
}

type scope struct {
	pkg    *mpkg
	file   *mfile
	consts []*cdef
	types  []*def
	insts  []*def
}

type mfile struct {
	name    string
	imports map[string]*mpkg // by the name used in the file
	paths   map[string]string
	sc      *scope
}

type mpkg struct {
	name  string
	files []*mfile
}

// act is an activation of a scope; file scopes have no parent.
type act struct {
	sc     *scope
	parent *act
	bind   map[string]*thunk
	inh    []*act // activations of the types a type or instance is derived from
}

type thunk struct {
	e  *mexpr
	a  *act
	on bool // under evaluation
}

type stop struct{ why string } // the program must be refused
type skip struct{ why string } // the language does not say

type eval struct {
	consts map[*cdef]map[*act]bool
	under  map[*def]bool
	steps  int
	thunks []*thunk
}

func (ev *eval) step() {
	ev.steps++
	if ev.steps > 20000 {
		panic(skip{"too big"})
	}
}

func (ev *eval) expr(e *mexpr, a *act) int64 {
	ev.step()
	v := e.lit
	for _, r := range e.refs {
		v += ev.ref(r, a)
	}
	if v > 1<<40 {
		panic(skip{"too big"})
	}
	return v
}

func (ev *eval) ref(name string, a *act) int64 {
	for s := a; s.parent != nil; s = s.parent {
		for _, c := range s.sc.consts {
			if c.name == name {
				return ev.constant(c, s)
			}
		}
		if t, ok := s.bind[name]; ok {
			if t.on {
				panic(stop{"circular"})
			}
			t.on = true
			v := ev.expr(t.e, t.a)
			t.on = false
			return v
		}
		for _, i := range s.inh {
			for _, c := range i.sc.consts {
				if c.name == name {
					panic(skip{"constant of an ancestor type"})
				}
			}
			if _, ok := i.bind[name]; ok {
				panic(skip{"parameter of an ancestor type"})
			}
		}
	}
	root := a
	for root.parent != nil {
		root = root.parent
	}
	f, sym := root.sc.file, name
	p := f.sc.pkg
	if k := strings.Index(name, "."); k >= 0 {
		if p = f.imports[name[:k]]; p == nil {
			panic(stop{"package is not imported"})
		}
		sym = name[k+1:]
	}
	for _, f := range p.files {
		for _, c := range f.sc.consts {
			if c.name == sym {
				return ev.constant(c, fileAct(f))
			}
		}
	}
	panic(stop{"undefined constant " + name})
}

var fileActs = map[*mfile]*act{}

func fileAct(f *mfile) *act { return f.sc.fileAct() }

func (s *scope) fileAct() *act { return &act{sc: s} }

func (ev *eval) constant(c *cdef, a *act) int64 {
	if ev.consts[c] == nil {
		ev.consts[c] = map[*act]bool{}
	}
	key := a
	if a.parent == nil {
		key = nil
	}
	if ev.consts[c][key] {
		panic(stop{"circular definition"})
	}
	ev.consts[c][key] = true
	v := ev.expr(c.e, a)
	ev.consts[c][key] = false
	return v
}

var baseKinds = map[string]bool{"block": true, "config": true, "proc": true, "group": true, "param": true, "bus": true, "status": true}

func (ev *eval) typeOf(name string, a *act) (*def, *act) {
	for s := a; s.parent != nil; s = s.parent {
		for _, t := range s.sc.types {
			if t.name == name {
				return t, s
			}
		}
		for _, i := range s.inh {
			for _, t := range i.sc.types {
				if t.name == name {
					panic(skip{"type of an ancestor type"})
				}
			}
		}
	}
	root := a
	for root.parent != nil {
		root = root.parent
	}
	f, sym := root.sc.file, name
	p := f.sc.pkg
	if k := strings.Index(name, "."); k >= 0 {
		if p = f.imports[name[:k]]; p == nil {
			panic(stop{"package is not imported"})
		}
		sym = name[k+1:]
	}
	for _, f := range p.files {
		for _, t := range f.sc.types {
			if t.name == sym {
				return t, fileAct(f)
			}
		}
	}
	panic(stop{"undefined type " + name})
}

// own refuses programs in which an expression of the head of a definition
// uses a name which is also defined in the body of the same definition.
func ambiguous(e *mexpr, d *def) {
	if e == nil {
		return
	}
	for _, r := range e.refs {
		for _, c := range d.body.consts {
			if c.name == r {
				panic(skip{"name of the body in the head"})
			}
		}
	}
}

type link struct {
	d *def
	a *act
}

// bindArgs binds the parameters of t to the arguments of d.
func (ev *eval) bindArgs(t *def, ta *act, d *def, da *act) map[string]*thunk {
	b := map[string]*thunk{}
	for i, a := range d.args {
		ambiguous(a.e, d)
		n := a.name
		if n == "" {
			if i >= len(t.params) {
				panic(stop{"surplus argument"})
			}
			n = t.params[i].name
		} else {
			ok := false
			for _, p := range t.params {
				ok = ok || p.name == n
			}
			if !ok {
				panic(stop{"unknown parameter"})
			}
		}
		if b[n] != nil {
			panic(stop{"repeated argument"})
		}
		b[n] = &thunk{e: a.e, a: da}
		ev.thunks = append(ev.thunks, b[n])
	}
	for _, p := range t.params {
		if b[p.name] != nil {
			continue
		}
		if p.dflt == nil {
			panic(stop{"missing argument"})
		}
		ambiguous(p.dflt, t)
		b[p.name] = &thunk{e: p.dflt, a: ta}
		ev.thunks = append(ev.thunks, b[p.name])
	}
	return b
}

// chain returns the definitions from the one with a base type to d.
func (ev *eval) chain(d *def, a *act, seen map[*def]bool) (string, []link) {
	ev.step()
	if seen[d] {
		panic(stop{"circular type"})
	}
	seen[d] = true
	self := a.child(d)
	if baseKinds[d.typ] {
		if len(d.args) > 0 {
			panic(stop{"arguments of a base type"})
		}
		return d.typ, []link{{d, self}}
	}
	t, ta := ev.typeOf(d.typ, a)
	kind, up := ev.chain(t, ta, seen)
	tact := up[len(up)-1].a
	tact.bind = ev.bindArgs(t, tact, d, self)
	for _, l := range up {
		self.inh = append(self.inh, l.a)
	}
	return kind, append(up, link{d, self})
}

func (a *act) child(d *def) *act { return &act{sc: d.body, parent: a} }

type mnode struct {
	kind, name string
	count      string
	width      string
	consts     map[string]string
	subs       []*mnode
}

// inst evaluates the instance, or type, d within a.
func (ev *eval) inst(d *def, a *act, parent string, busWidth int64) *mnode {
	ev.step()
	if ev.under[d] {
		panic(stop{"instantiated within itself"})
	}
	ev.under[d] = true
	defer delete(ev.under, d)

	kind, ch := ev.chain(d, a, map[*def]bool{})
	if parent != "" && !has(innerOf[parent], kind) {
		panic(stop{kind + " within " + parent})
	}
	n := &mnode{kind: kind, name: d.name, count: "1", consts: map[string]string{}}
	counted, widthed := false, false
	if kind == "config" || kind == "param" || kind == "status" {
		n.width = fmt.Sprint(busWidth)
	}
	for _, l := range ch {
		if l.d.count != nil {
			ambiguous(l.d.count, l.d)
			c := ev.expr(l.d.count, l.a)
			if counted || c < 1 {
				panic(stop{"bad count"})
			}
			if c > 3000 {
				panic(skip{"too big"})
			}
			counted = true
			n.count = fmt.Sprint(c)
		}
	}
	names := map[string]bool{}
	for _, l := range ch {
		if l.d.width != nil {
			if n.width == "" {
				panic(stop{"width of " + kind})
			}
			w := ev.expr(l.d.width, l.a)
			if widthed || w < 1 {
				panic(stop{"bad width"})
			}
			if w > 3000 {
				panic(skip{"too big"})
			}
			widthed = true
			n.width = fmt.Sprint(w)
		}
		for _, c := range l.d.body.consts {
			if kind == "block" || kind == "bus" || kind == "group" {
				if _, ok := n.consts[c.name]; ok {
					panic(stop{"const defined twice"})
				}
				n.consts[c.name] = fmt.Sprint(ev.constant(c, l.a))
			}
		}
		for _, i := range l.d.body.insts {
			if names[i.name] {
				panic(stop{"name used twice"})
			}
			names[i.name] = true
			n.subs = append(n.subs, ev.inst(i, l.a, kind, busWidth))
		}
	}
	if kind == "group" && len(n.subs) == 0 {
		panic(stop{"empty group"})
	}
	return n
}

var innerOf = map[string][]string{
	"block": {"blackbox", "block", "config", "group", "irq", "mask", "proc", "static", "status", "stream"},
	"bus":   {"blackbox", "block", "config", "group", "irq", "mask", "proc", "static", "status", "stream"},
	"group": {"config", "irq", "mask", "param", "return", "static", "status"},
	"proc":  {"param", "return"}, "stream": {"param", "return"},
}

// attempt runs f and reports whether the program must be refused or is left open.
func attempt(f func()) (refuse, open string) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case stop:
			refuse = x.why
		case skip:
			open = x.why
		default:
			panic(x)
		}
	}()
	f()
	return
}

// ---------- generation ----------

type mcfg struct {
	packages, params, depth, shadow int
	wrong                           int // one of so many references is to any name
}

var cfgScopes = mcfg{packages: 3, params: 0, depth: 3, shadow: 4, wrong: 60}
var cfgParams = mcfg{packages: 1, params: 3, depth: 3, shadow: 3, wrong: 80}
var cfgTree = mcfg{packages: 0, params: 1, depth: 4, shadow: 6, wrong: 200}

type mgen struct {
	r     *rand.Rand
	c     mcfg
	pkgs  []*mpkg
	names []string // constants
	tn    []string // types
	rank  map[*cdef]int
	left  int // definitions still to make
}

func (g *mgen) newExpr(vis []string) *mexpr {
	e := &mexpr{lit: int64(g.r.Intn(8))}
	for k := g.r.Intn(3); k > 0 && len(vis) > 0; k-- {
		e.refs = append(e.refs, pick(g.r, vis))
	}
	if len(e.refs) == 0 {
		e.lit = int64(1 + g.r.Intn(30))
	}
	if g.r.Intn(g.c.wrong) == 0 {
		e.refs = append(e.refs, pick(g.r, append([]string{"q0.A", "q1.B", "b.C", "a.A", "W"}, g.names...)))
	}
	return e
}

// visible names in an order which avoids most circular definitions.
type vis struct {
	consts, types []string
}

func without(xs []string, y string) []string {
	var out []string
	for _, x := range xs {
		if x != y {
			out = append(out, x)
		}
	}
	return out
}

func (v vis) addC(n string) vis {
	return vis{append(append([]string{}, without(v.consts, n)...), n, n), v.types}
}
func (v vis) addT(n string) vis {
	return vis{v.consts, append(append([]string{}, without(v.types, n)...), n)}
}

func (g *mgen) consts(s *scope, v vis) vis {
	ns := append([]string{}, g.names...)
	g.r.Shuffle(len(ns), func(i, k int) { ns[i], ns[k] = ns[k], ns[i] })
	ns = ns[:g.r.Intn(len(ns))]
	// Names defined here hide the outer ones.
	for _, n := range ns {
		v.consts = without(v.consts, n)
	}
	var cs []*cdef
	for _, n := range ns {
		cs = append(cs, &cdef{name: n, e: g.newExpr(v.consts)})
		v = v.addC(n)
	}
	g.r.Shuffle(len(cs), func(i, k int) { cs[i], cs[k] = cs[k], cs[i] })
	s.consts = append(s.consts, cs...)
	return v
}

func (g *mgen) args(d *def, t *def, v vis) {
	if t == nil {
		return
	}
	hv := v
	for _, c := range d.body.consts {
		hv.consts = without(hv.consts, c.name)
	}
	k := 0
	for k < len(t.params) && g.r.Intn(3) != 0 {
		d.args = append(d.args, adef{"", g.newExpr(hv.consts)})
		k++
	}
	rest := append([]pdef{}, t.params[k:]...)
	g.r.Shuffle(len(rest), func(i, k int) { rest[i], rest[k] = rest[k], rest[i] })
	for _, p := range rest {
		if p.dflt == nil || g.r.Intn(2) == 0 {
			d.args = append(d.args, adef{p.name, g.newExpr(hv.consts)})
		}
	}
}

// def makes a type or an instance of one of the kinds.
func (g *mgen) def(name string, isType bool, parent string, sc *scope, v vis, known map[string]*def, kinds map[*def]string, depth int) *def {
	d := &def{name: name, isType: isType, body: &scope{pkg: sc.pkg, file: sc.file}}
	g.left--
	// Type.
	var base *def
	var cand []string
	for _, t := range v.types {
		if known[t] != nil && (parent == "" && kinds[known[t]] != "param" || has(innerOf[parent], kinds[known[t]])) {
			cand = append(cand, t)
		}
	}
	kind := ""
	if len(cand) > 0 && g.r.Intn(5) < 3 {
		d.typ = pick(g.r, cand)
		base = known[d.typ]
		kind = kinds[base]
	} else {
		ks := innerKinds(parent, isType)
		kind = pick(g.r, ks)
		if depth >= g.c.depth && g.r.Intn(3) > 0 && (parent != "proc") {
			kind = "config"
		}
		d.typ = kind
	}
	kinds[d] = kind
	if isType && g.c.params > 0 {
		ps := append([]string{}, g.names...)
		ps = append(ps, "p", "q")
		g.r.Shuffle(len(ps), func(i, k int) { ps[i], ps[k] = ps[k], ps[i] })
		ps = ps[:g.r.Intn(g.c.params+1)]
		dv := v
		dflt := false
		for _, p := range ps {
			pd := pdef{name: p}
			if dflt || g.r.Intn(2) == 0 {
				dflt = true
				// Earlier parameters are visible in the default values.
				pd.dflt = g.newExpr(without(dv.consts, p))
			}
			dv = dv.addC(p)
			d.params = append(d.params, pd)
		}
		v = dv
	}
	save := v
	bv := g.consts(d.body, v)
	// A constant of the body must not have the name of a parameter.
	for _, p := range d.params {
		for i, c := range d.body.consts {
			if c.name == p.name {
				d.body.consts = append(d.body.consts[:i:i], d.body.consts[i+1:]...)
				bv = save
				break
			}
		}
	}
	if bv.consts != nil && len(d.params) > 0 {
		// Recompute the visible names after the removal.
		bv = save
		for _, c := range d.body.consts {
			bv = bv.addC(c.name)
		}
	}
	g.args(d, base, v)
	if g.r.Intn(6) == 0 && kind != "param" {
		hv := v
		for _, c := range d.body.consts {
			hv.consts = without(hv.consts, c.name)
		}
		d.count = &mexpr{lit: int64(1 + g.r.Intn(3))}
		if len(hv.consts) > 0 && g.r.Intn(2) == 0 {
			d.count = &mexpr{refs: []string{pick(g.r, hv.consts)}}
		}
	}
	if (kind == "config" || kind == "param" || kind == "status") && g.r.Intn(2) == 0 && (base == nil || base.width == nil) {
		d.width = g.newExpr(bv.consts)
		if d.width.lit == 0 && len(d.width.refs) == 0 {
			d.width.lit = 3
		}
	}
	if len(innerOf[kind]) > 0 {
		nk := map[string]*def{}
		for k, x := range known {
			nk[k] = x
		}
		if depth < g.c.depth {
			for k := g.r.Intn(3); k > 0 && g.left > 0; k-- {
				tn := pick(g.r, g.tn)
				dup := false
				for _, t := range d.body.types {
					dup = dup || t.name == tn
				}
				if dup {
					continue
				}
				tv := bv
				tv.types = without(tv.types, tn)
				t := g.def(tn, true, kind, d.body, tv, nk, kinds, depth+1)
				d.body.types = append(d.body.types, t)
				bv = bv.addT(tn)
				nk[tn] = t
			}
		}
		for k := g.r.Intn(4); k > 0 && g.left > 0; k-- {
			g.addInst(d.body, kind, bv, nk, kinds, depth+1)
		}
		if kind == "group" && len(d.body.insts) == 0 {
			g.addInst(d.body, kind, bv, nk, kinds, depth+1)
		}
	}
	return d
}

var instNo int

func (g *mgen) addInst(s *scope, parent string, v vis, known map[string]*def, kinds map[*def]string, depth int) {
	n := fmt.Sprintf("i%d", g.r.Intn(40))
	if g.r.Intn(6) == 0 {
		n = strings.ToUpper(n)
	}
	for _, i := range s.insts {
		if i.name == n {
			return
		}
	}
	s.insts = append(s.insts, g.def(n, false, parent, s, v, known, kinds, depth))
}

func innerKinds(parent string, isType bool) []string {
	switch parent {
	case "group":
		return []string{"config", "status"}
	case "proc":
		return []string{"param"}
	}
	return []string{"block", "block", "config", "config", "proc", "group", "status"}
}

// program makes a random program; Main is the last instance of the main file.
func (g *mgen) program() (*mpkg, *def) {
	// Names which are similar: prefixes of each other, or different in case only.
	g.names = pick(g.r, [][]string{{"A", "B", "C", "D"}, {"A", "a", "A1"}, {"A", "AA", "B"}, {"Aa", "aA", "A", "AA"}})
	g.names = g.names[:2+g.r.Intn(len(g.names)-1)]
	g.tn = pick(g.r, [][]string{{"T", "U", "V", "X"}, {"T", "t", "TT", "T1"}})[:2+g.r.Intn(3)]
	g.rank = map[*cdef]int{}
	kinds := map[*def]string{}
	pnames := []string{"q0", "aq0", "q1"}
	n := 0
	if g.c.packages > 0 {
		n = g.r.Intn(g.c.packages + 1)
	}
	type exported struct {
		consts []string
		types  map[string]*def
	}
	ex := map[*mpkg]exported{}
	mk := func(p *mpkg, files int, main bool) *def {
		known := map[string]*def{}
		var v vis
		var mainDef *def
		e := exported{types: map[string]*def{}}
		var fs []*mfile
		for i := 0; i < files; i++ {
			f := &mfile{name: fmt.Sprintf("f%d.fbd", i), imports: map[string]*mpkg{}, paths: map[string]string{}}
			f.sc = &scope{pkg: p, file: f}
			fs = append(fs, f)
		}
		p.files = fs
		own := map[string]bool{}
		for i, f := range fs {
			fv := v
			fk := map[string]*def{}
			for k, x := range known {
				fk[k] = x
			}
			for _, q := range g.pkgs {
				if q == p || g.r.Intn(3) == 0 {
					continue
				}
				nm := q.name
				if g.r.Intn(3) == 0 {
					nm = pick(g.r, []string{"a", "b", "x"})
				}
				if f.imports[nm] != nil {
					continue
				}
				f.imports[nm] = q
				f.paths[nm] = pick(g.r, []string{q.name, "fbd-" + q.name})
				for _, c := range ex[q].consts {
					fv.consts = append(append([]string{}, fv.consts...), nm+"."+c)
				}
				for tn, t := range ex[q].types {
					fv.types = append(append([]string{}, fv.types...), nm+"."+tn)
					fk[nm+"."+tn] = t
				}
				sort.Strings(fv.types)
			}
			for _, c := range g.names {
				if g.r.Intn(2) == 0 && !own[c] {
					own[c] = true
					f.sc.consts = append(f.sc.consts, &cdef{name: c, e: g.newExpr(fv.consts)})
					fv = fv.addC(c)
					v = v.addC(c)
					e.consts = append(e.consts, c)
				}
			}
			g.left = 10 + g.r.Intn(20)
			for _, tn := range g.tn {
				if g.r.Intn(2) == 0 && known[tn] == nil {
					t := g.def(tn, true, "", f.sc, fv, fk, kinds, 1)
					f.sc.types = append(f.sc.types, t)
					fv, v = fv.addT(tn), v.addT(tn)
					fk[tn], known[tn] = t, t
					if kinds[t] != "param" {
						e.types[tn] = t
					}
				}
			}
			g.r.Shuffle(len(f.sc.consts), func(i, k int) { f.sc.consts[i], f.sc.consts[k] = f.sc.consts[k], f.sc.consts[i] })
			if main && i == files-1 {
				g.left = 10 + g.r.Intn(30)
				mainDef = &def{name: "Main", typ: "bus", body: &scope{pkg: p, file: f}}
				bv := g.consts(mainDef.body, fv)
				for k := g.r.Intn(2); k > 0; k-- {
					tn := pick(g.r, g.tn)
					tv := bv
					tv.types = without(tv.types, tn)
					t := g.def(tn, true, "bus", mainDef.body, tv, fk, kinds, 1)
					mainDef.body.types = append(mainDef.body.types, t)
					nk := map[string]*def{tn: t}
					for k, x := range fk {
						if k != tn {
							nk[k] = x
						}
					}
					fk = nk
					bv = bv.addT(tn)
				}
				for k := 2 + g.r.Intn(5); k > 0; k-- {
					g.addInst(mainDef.body, "bus", bv, fk, kinds, 1)
				}
				f.sc.insts = append(f.sc.insts, mainDef)
			}
		}
		ex[p] = e
		return mainDef
	}
	for i := 0; i < n; i++ {
		p := &mpkg{name: pnames[i]}
		mk(p, 1+g.r.Intn(2), false)
		g.pkgs = append(g.pkgs, p)
	}
	p := &mpkg{name: "main"}
	m := mk(p, 1, true)
	p.files[0].name = "main.fbd"
	return p, m
}

// ---------- text ----------

func (d *def) write(b *strings.Builder, n int) {
	in := strings.Repeat("\t", n)
	b.WriteString(in)
	if d.isType {
		b.WriteString("type ")
	}
	b.WriteString(d.name)
	if len(d.params) > 0 {
		var ps []string
		for _, p := range d.params {
			s := p.name
			if p.dflt != nil {
				s += " = " + p.dflt.text()
			}
			ps = append(ps, s)
		}
		b.WriteString("(" + strings.Join(ps, ", ") + ")")
	}
	b.WriteString(" ")
	if d.count != nil {
		b.WriteString("[" + d.count.text() + "] ")
	}
	b.WriteString(d.typ)
	if len(d.args) > 0 {
		var as []string
		for _, a := range d.args {
			s := a.e.text()
			if a.name != "" {
				s = a.name + " = " + s
			}
			as = append(as, s)
		}
		b.WriteString("(" + strings.Join(as, ", ") + ")")
	}
	b.WriteString("\n")
	if d.width != nil {
		b.WriteString(in + "\twidth = " + d.width.text() + "\n")
	}
	d.body.write(b, n+1)
}

func (s *scope) write(b *strings.Builder, n int) {
	in := strings.Repeat("\t", n)
	for _, c := range s.consts {
		b.WriteString(in + "const " + c.name + " = " + c.e.text() + "\n")
	}
	for _, t := range s.types {
		t.write(b, n)
	}
	for _, i := range s.insts {
		i.write(b, n)
	}
}

func (f *mfile) text() string {
	var b strings.Builder
	var ns []string
	for n := range f.imports {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if n == f.imports[n].name {
			b.WriteString("import \"" + f.paths[n] + "\"\n")
		} else {
			b.WriteString("import " + n + " \"" + f.paths[n] + "\"\n")
		}
	}
	f.sc.write(&b, 0)
	return b.String()
}

func (g *mgen) files(main *mpkg) map[string]string {
	out := map[string]string{"main.fbd": main.files[0].text()}
	for _, p := range g.pkgs {
		for _, f := range p.files {
			out["fbd-"+p.name+"/"+f.name] = f.text()
		}
	}
	return out
}

// ---------- comparison ----------

func countNodes(n *mnode) int {
	k := 1
	for _, s := range n.subs {
		k += countNodes(s)
	}
	return k
}

// items is the number of registers a mnode may take, to keep programs small.
func items(n *mnode) int64 {
	var c, w, k int64
	fmt.Sscan(n.count, &c)
	fmt.Sscan(n.width, &w)
	k = w + 1
	for _, s := range n.subs {
		k += items(s)
	}
	if k > 1<<40 {
		return k
	}
	return k * c
}

func diffNode(n *mnode, o obj, path string) string {
	p := path + n.name
	if num(o, "Count") != n.count {
		return fmt.Sprintf("%s: count %s, want %s", p, num(o, "Count"), n.count)
	}
	if n.width != "" && num(o, "Width") != n.width {
		return fmt.Sprintf("%s: width %s, want %s", p, num(o, "Width"), n.width)
	}
	if n.kind == "block" || n.kind == "bus" || n.kind == "group" {
		c := sub(o, "Consts")
		got := map[string]string{}
		for _, k := range []string{"Bools", "BoolLists", "Floats", "Ints", "IntLists", "Strings"} {
			if m, ok := c[k].(obj); ok {
				for name, v := range m {
					if k != "Ints" || got[name] != "" {
						return fmt.Sprintf("%s: constant %s in %s", p, name, k)
					}
					got[name] = fmt.Sprint(v)
				}
			}
		}
		for name, v := range n.consts {
			if got[name] != v {
				return fmt.Sprintf("%s: constant %s is %q, want %s", p, name, got[name], v)
			}
		}
		if len(got) != len(n.consts) {
			return fmt.Sprintf("%s: constants %v, want %v", p, got, n.consts)
		}
	}
	want := map[string]map[string]*mnode{}
	for _, s := range n.subs {
		l := kindList[s.kind]
		if want[l] == nil {
			want[l] = map[string]*mnode{}
		}
		want[l][s.name] = s
	}
	for _, l := range kindList {
		k := 0
		seen := map[string]bool{}
		for _, x := range list(o, l) {
			name := fmt.Sprint(x["Name"])
			if l == "Statics" && n.kind == "bus" && (name == "ID" || name == "TIMESTAMP") {
				continue
			}
			w := want[l][name]
			if w == nil {
				return fmt.Sprintf("%s: unexpected %s in %s", p, name, l)
			}
			if seen[name] {
				return fmt.Sprintf("%s: %s twice in %s", p, name, l)
			}
			seen[name] = true
			k++
			if d := diffNode(w, x, p+"."); d != "" {
				return d
			}
		}
		if k != len(want[l]) {
			return fmt.Sprintf("%s: %d functionalities in %s, want %d", p, k, l, len(want[l]))
		}
	}
	return ""
}

func genModel(j *job, c mcfg) {
	for try := 0; try < 60; try++ {
		g := &mgen{r: j.r, c: c}
		mp, md := g.program()
		newEval := func() *eval { return &eval{consts: map[*cdef]map[*act]bool{}, under: map[*def]bool{}} }
		var want *mnode
		pk := map[string]map[string]string{}
		all := append([]*mpkg{mp}, g.pkgs...)
		refuse, open := attempt(func() {
			for _, p := range all {
				pk[p.name] = map[string]string{}
				for _, f := range p.files {
					for _, c := range f.sc.consts {
						pk[p.name][c.name] = fmt.Sprint(newEval().constant(c, fileAct(f)))
					}
				}
			}
			ev := newEval()
			want = ev.inst(md, fileAct(mp.files[0]), "", 32)
			// Arguments which are not used are evaluated as well.
			for i := 0; i < len(ev.thunks); i++ {
				t := ev.thunks[i]
				if r, o := attempt(func() { newEval().expr(t.e, t.a) }); r != "" || o != "" {
					panic(skip{"argument"})
				}
			}
		})
		if open == "" && refuse == "" {
			// Whatever else is in the files must be right too.
			r, o := attempt(func() {
				for _, p := range all {
					for _, f := range p.files {
						for _, t := range f.sc.types {
							if len(t.params) == 0 && !baseKinds[t.typ] {
								newEval().inst(t, fileAct(f), "", 32)
							}
						}
					}
					var walk func(d *def, a *act)
					walk = func(d *def, a *act) {
						_, ch := newEval().chain(d, a, map[*def]bool{})
						self := ch[len(ch)-1].a
						for _, x := range append(append([]*def{}, d.body.types...), d.body.insts...) {
							walk(x, self)
						}
					}
					for _, f := range p.files {
						for _, t := range append(append([]*def{}, f.sc.types...), f.sc.insts...) {
							walk(t, fileAct(f))
						}
					}
				}
			})
			if r != "" || o != "" {
				open = r + o
			} else if items(want) > 40000 {
				open = "too big"
			}
		}
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Println("try", refuse, "|", open)
		}
		if open != "" {
			continue
		}
		if refuse != "" && try < 50 && j.r.Intn(4) > 0 {
			continue
		}
		files := g.files(mp)
		res := j.compile(files)
		if refuse != "" {
			j.count("refusals")
			if !res.refused() {
				j.fail("accepted "+refuse, "a program with an error ("+refuse+") is not refused", files, res.String(), "error")
			}
			return
		}
		if res.unimplemented() {
			j.count("unimplemented")
			continue
		}
		j.count("programs")
		if !res.ok() {
			j.fail("refused", "a valid program is refused", files, res.String(), "success")
			return
		}
		j.h.mu.Lock()
		j.h.stats["functionalities"] += countNodes(want)
		j.h.mu.Unlock()
		if d := diffNode(want, res.bus, ""); d != "" {
			j.fail("tree", "the compiled result differs: "+d, files, d, "see what")
			return
		}
		for p, cs := range pk {
			got := map[string]any{}
			for _, k := range []string{"Bools", "BoolLists", "Floats", "Ints", "IntLists", "Strings"} {
				if m, ok := sub(sub(res.consts, p), "Consts")[k].(obj); ok {
					for n, v := range m {
						if k != "Ints" {
							j.fail("collection", "constant in a wrong collection", files, k+" "+n, "Ints")
						}
						got[n] = v
					}
				}
			}
			a, _ := json.Marshal(got)
			w := map[string]json.Number{}
			for n, v := range cs {
				w[n] = json.Number(v)
			}
			b, _ := json.Marshal(w)
			if string(a) != string(b) {
				j.fail("package-constants", "constants of package "+p, files, string(a), string(b))
				return
			}
		}
		return
	}
}
