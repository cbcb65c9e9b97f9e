package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Comp is one component of the heap model.
type Comp struct {
	name string
	so   string     // sort of the whole component
	val  types.Type // Go type of the stored values (nil for ghosts)
}

// Val is the symbolic value of an SSA register.
type Val struct {
	t     T
	tup   []Val
	place *Place
	fn    *ssa.Function
	binds []Val
	iter  *iterInfo
	fdivA *T // set when the float is the quotient of two exact integers
	fdivB *T
	fint  *T    // set when the float is an exactly represented integer
	vals  []Val // statically known elements of a variadic slice
}

type iterInfo struct {
	str  T
	m    T
	mt   *types.Map
	isS  bool
	dom  T      // map domains at the start of the iteration
	ikey string // ghost cell: position within string / visited
}

type step struct {
	field int
	idx   *T
	typ   types.Type // type of the value which the step is applied to
}

type placeKind int

const (
	pkHeap   placeKind = iota // comp[ref]
	pkElem                    // comp[ref][idx]
	pkCell                    // local variable
	pkGlobal                  // comp
	pkRef                     // whole struct behind a reference
)

// Place is the address of a memory location.
type Place struct {
	kind placeKind
	comp string
	ref  T
	idx  T
	cell string
	root types.Type // type of the value stored at the root of the place
	path []step
	typ  types.Type // type of the designated location
}

type State struct {
	heap  map[string]T
	cells map[string]T
	alloc T
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]T, len(s.heap)), cells: make(map[string]T, len(s.cells)), alloc: s.alloc}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}

// compField returns heap component of field i of struct type t.
func (c *Ctx) compField(t types.Type, i int) string {
	u := t.Underlying().(*types.Struct)
	so := c.m.sortOf(t)
	name := "F:" + so + ":" + u.Field(i).Name()
	c.declComp(name, arrSort(sInt, c.m.sortOf(u.Field(i).Type())), u.Field(i).Type())
	return name
}

func (c *Ctx) compElem(elem types.Type) string {
	name := "E:" + shortTypeKey(elem)
	so := c.m.sortOf(elem)
	c.declComp(name, arrSort(sInt, arrSort(sInt, so)), elem)
	return name
}

func (c *Ctx) compPtr(t types.Type) string {
	name := "P:" + shortTypeKey(t)
	c.declComp(name, arrSort(sInt, c.m.sortOf(t)), t)
	return name
}

func (c *Ctx) compGlobal(g *ssa.Global) string {
	t := g.Type().(*types.Pointer).Elem()
	return c.compGlobalVar(g.Pkg.Pkg.Path(), g.Name(), t)
}

func (c *Ctx) compGlobalVar(pkg, name string, t types.Type) string {
	n := "G:" + pkg[strings.LastIndex(pkg, "/")+1:] + "." + name
	c.declComp(n, c.m.sortOf(t), t)
	return n
}

func (c *Ctx) compMap(mt *types.Map) (dom, val, ln string) {
	k := shortTypeKey(mt.Key()) + ":" + shortTypeKey(mt.Elem())
	ks, vs := c.m.sortOf(mt.Key()), c.m.sortOf(mt.Elem())
	dom, val, ln = "MD:"+k, "MV:"+k, "ML:"+k
	c.declComp(dom, arrSort(sInt, arrSort(ks, sBool)), nil)
	c.declComp(val, arrSort(sInt, arrSort(ks, vs)), mt.Elem())
	c.declComp(ln, arrSort(sInt, sInt), nil)
	return
}

func (c *Ctx) declComp(name, so string, val types.Type) {
	if _, ok := c.comps[name]; ok {
		return
	}
	c.comps[name] = &Comp{name: name, so: so, val: val}
	c.decl(c.initName(name), so)
	c.wellFormed(name, val)
}

// wellFormed states that the references which are stored in the heap when the
// function is entered refer to objects which exist then.
func (c *Ctx) wellFormed(name string, val types.Type) {
	if val == nil || !c.declared["alloc!0"] {
		return
	}
	switch val.Underlying().(type) {
	case *types.Pointer, *types.Slice:
	default:
		return
	}
	so := c.m.sortOf(val)
	var sel, vars string
	switch name[:2] {
	case "F:", "P:":
		sel, vars = fmt.Sprintf("(select %s r!w)", c.initName(name)), "((r!w Int))"
	case "E:":
		sel, vars = fmt.Sprintf("(select (select %s r!w) i!w)", c.initName(name)), "((r!w Int) (i!w Int))"
	default:
		return
	}
	fs := mkAnd(c.facts(T{sel, so}, val, T{"alloc!0", sInt})...)
	if c.tags == nil {
		c.tags = map[int]string{}
	}
	c.tags[len(c.asserts)] = "wf"
	c.asserts = append(c.asserts, fmt.Sprintf("(assert (forall %s (! %s :pattern (%s))))", vars, fs.s, sel))
}

func (c *Ctx) initName(comp string) string { return "H0!" + sanitize(comp) }

// heapTerm returns the current term of a heap component.
func (c *Ctx) heapTerm(st *State, comp string) T {
	if t, ok := st.heap[comp]; ok {
		return t
	}
	return T{c.initName(comp), c.comps[comp].so}
}

func (c *Ctx) decl(name, so string) {
	if c.declared[name] {
		return
	}
	c.declared[name] = true
	c.consts = append(c.consts, fmt.Sprintf("(declare-const %s %s)", name, so))
}

func (c *Ctx) fresh(hint, so string) T {
	hint = sanitize(hint)
	c.nfresh[hint]++
	name := fmt.Sprintf("%s!%d", hint, c.nfresh[hint])
	c.decl(name, so)
	return T{name, so}
}

// define gives a name to a complex term.
func (c *Ctx) define(hint string, t T) T {
	if len(t.s) < 40 && !strings.Contains(t.s, "ite") {
		return t
	}
	if t.so == sSlice && strings.HasPrefix(t.s, "(mk-slice ") {
		return mkSlice(c.define(hint+"_arr", slArr(t)), c.define(hint+"_off", slOff(t)), c.define(hint+"_len", slLen(t)), c.define(hint+"_cap", slCap(t)))
	}
	n := c.fresh(hint, t.so)
	c.asserts = append(c.asserts, fmt.Sprintf("(assert (= %s %s))", n.s, t.s))
	return n
}

func (c *Ctx) assume(g, fact T) {
	f := mkImp(g, fact)
	if f.s == "true" {
		return
	}
	if c.tag != "" {
		if c.tags == nil {
			c.tags = map[int]string{}
		}
		c.tags[len(c.asserts)] = c.tag
	}
	c.asserts = append(c.asserts, "(assert "+f.s+")")
}

// loadPlace reads the designated location.
func (c *Ctx) loadPlace(st *State, p *Place) T {
	return c.walk(c.loadRoot(st, p), p.path)
}

func (c *Ctx) walk(v T, path []step) T {
	for _, s := range path {
		if s.idx != nil {
			at := s.typ.Underlying().(*types.Array)
			v = mkSelect(v, *s.idx, c.m.sortOf(at.Elem()))
		} else {
			v = c.m.getField(v, s.typ, s.field)
		}
	}
	return v
}

func (c *Ctx) loadRoot(st *State, p *Place) T {
	so := c.m.sortOf(p.root)
	switch p.kind {
	case pkHeap:
		return mkSelect(c.heapTerm(st, p.comp), p.ref, so)
	case pkElem:
		return mkSelect(mkSelect(c.heapTerm(st, p.comp), p.ref, arrSort(sInt, so)), p.idx, so)
	case pkCell:
		t, ok := st.cells[p.cell]
		if !ok {
			panic(unsupported("uninitialised local " + p.cell))
		}
		return t
	case pkGlobal:
		return c.heapTerm(st, p.comp)
	case pkRef:
		return c.loadStruct(st, p.root, p.ref)
	}
	panic("loadRoot")
}

func (c *Ctx) loadStruct(st *State, t types.Type, ref T) T {
	u := t.Underlying().(*types.Struct)
	so := c.m.sortOf(t)
	if u.NumFields() == 0 {
		return T{"mk-" + so, so}
	}
	var args []T
	for i := 0; i < u.NumFields(); i++ {
		comp := c.compField(t, i)
		args = append(args, mkSelect(c.heapTerm(st, comp), ref, c.m.sortOf(u.Field(i).Type())))
	}
	return app(so, "mk-"+so, args...)
}

func (c *Ctx) storePlace(st *State, p *Place, v T) {
	if len(p.path) > 0 {
		root := c.loadRoot(st, p)
		v = c.update(root, p.path, v)
	}
	switch p.kind {
	case pkHeap:
		h := c.heapTerm(st, p.comp)
		st.heap[p.comp] = c.define("H_"+p.comp, mkStore(h, p.ref, v))
	case pkElem:
		h := c.heapTerm(st, p.comp)
		inner := mkSelect(h, p.ref, arrSort(sInt, c.m.sortOf(p.root)))
		st.heap[p.comp] = c.define("H_"+p.comp, mkStore(h, p.ref, mkStore(inner, p.idx, v)))
	case pkCell:
		st.cells[p.cell] = c.define("v_"+p.cell, v)
	case pkGlobal:
		st.heap[p.comp] = c.define("H_"+p.comp, v)
	case pkRef:
		c.storeStruct(st, p.root, p.ref, v)
	}
}

func (c *Ctx) storeStruct(st *State, t types.Type, ref T, v T) {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		comp := c.compField(t, i)
		h := c.heapTerm(st, comp)
		st.heap[comp] = c.define("H_"+comp, mkStore(h, ref, c.m.getField(v, t, i)))
	}
}

func (c *Ctx) update(root T, path []step, v T) T {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	if s.idx != nil {
		at := s.typ.Underlying().(*types.Array)
		inner := mkSelect(root, *s.idx, c.m.sortOf(at.Elem()))
		return mkStore(root, *s.idx, c.update(inner, path[1:], v))
	}
	inner := c.m.getField(root, s.typ, s.field)
	return c.m.setField(root, s.typ, s.field, c.update(inner, path[1:], v))
}

// facts returns what Go's type system guarantees about every value of type t.
func (c *Ctx) facts(v T, t types.Type, alloc T) []T {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(u); ok {
			return []T{mkLe(mkIntS(lo), v), mkLe(v, mkIntS(hi))}
		}
		return nil
	case *types.Pointer, *types.Map:
		return []T{mkLe(mkInt(0), v), mkLt(v, alloc)}
	case *types.Slice:
		return []T{
			mkLe(mkInt(0), slArr(v)), mkLt(slArr(v), alloc),
			mkEq(app(sInt, "s-off", v), mkInt(0)), mkLe(mkInt(0), slLen(v)), mkLe(slLen(v), slCap(v)),
			mkLt(slCap(v), mkIntS("281474976710656")),
			mkImp(mkEq(slArr(v), mkInt(0)), mkEq(slCap(v), mkInt(0))),
		}
	case *types.Struct:
		if u.NumFields() > 40 {
			return nil
		}
		var fs []T
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, c.facts(c.m.getField(v, t, i), u.Field(i).Type(), alloc)...)
		}
		return fs
	}
	if isString(t) {
		return nil
	}
	return nil
}

func intRange(b *types.Basic) (lo, hi string, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64:
		return "-9223372036854775808", "9223372036854775807", true
	case types.UntypedInt, types.UntypedRune:
		return "-9223372036854775808", "9223372036854775807", true
	case types.Int32:
		return "-2147483648", "2147483647", true
	case types.Int16:
		return "-32768", "32767", true
	case types.Int8:
		return "-128", "127", true
	case types.Uint, types.Uint64, types.Uintptr:
		return "0", "18446744073709551615", true
	case types.Uint32:
		return "0", "4294967295", true
	case types.Uint16:
		return "0", "65535", true
	case types.Uint8:
		return "0", "255", true
	}
	return "", "", false
}

func (c *Ctx) assumeFacts(g T, v T, t types.Type, st *State) {
	fs := c.facts(v, t, st.alloc)
	if isString(t) {
		fs = append(fs, mkLt(app(sInt, "slen", v), mkIntS("281474976710656")))
	}
	for _, f := range fs {
		key := g.s + "|" + f.s
		if c.factSeen[key] {
			continue
		}
		c.factSeen[key] = true
		c.assume(g, f)
	}
}

// normSlice demands that a slice which leaves its expression starts at the
// beginning of its backing array.
func (c *Ctx) normSlice(g, t T, pos token.Pos) T {
	if t.so != sSlice || !strings.HasPrefix(t.s, "(mk-slice ") || slOff(t).s == "0" {
		return t
	}
	c.oblige("slice-offset", g, mkEq(slOff(t), mkInt(0)), pos, "kept slice starts at the beginning of its array")
	return mkSlice(slArr(t), mkInt(0), slLen(t), slCap(t))
}

// entryFacts states that the location held a well formed value when the
// function was entered, which matters when the heap has changed elsewhere.
func (c *Ctx) entryFacts(g T, p *Place, t types.Type, st *State) {
	if p.kind != pkHeap && p.kind != pkElem {
		return
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
	default:
		return
	}
	if c.heapTerm(st, p.comp).s == c.initName(p.comp) && st.alloc.s == "alloc!0" {
		return
	}
	old := &State{heap: map[string]T{}, cells: st.cells, alloc: T{"alloc!0", sInt}}
	v := c.loadPlace(old, p)
	c.assumeFacts(mkAnd(g, mkLt(mkInt(0), p.ref), mkLt(p.ref, old.alloc)), v, t, old)
}
