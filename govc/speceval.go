package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SVal is the value of a specification expression.
type SVal struct {
	t     T
	typ   types.Type
	name  string
	place *Place
}

type SpecEnv struct {
	c       *Ctx
	vars    map[string]SVal
	st      *State
	old     *State
	oldVars map[string]SVal
	pkg     *types.Package
	guard   T
	resolve func(string) (SVal, bool)
	preEnv  *SpecEnv
	depth   int
	bound   map[string]bool
}

var untypedInt = types.Typ[types.UntypedInt]
var untypedBool = types.Typ[types.UntypedBool]

func (c *Ctx) entryEnv() *SpecEnv {
	env := &SpecEnv{c: c, vars: map[string]SVal{}, st: c.entry, old: c.entry, guard: tTrue}
	if c.con != nil {
		env.pkg = c.con.pkg
	}
	if c.fn != nil && c.fn.Pkg != nil {
		env.pkg = c.fn.Pkg.Pkg
	}
	for i, p := range c.params {
		env.vars[p.name] = p
		if i == 0 && c.fn != nil && c.fn.Signature.Recv() != nil {
			env.vars["recv"] = p
		}
	}
	if c.implType != nil {
		env.pkg = c.con.pkg
		env.vars["recv"] = SVal{t: c.m.box(c.implType, c.params[0].t), typ: types.NewInterfaceType(nil, nil)}
	}
	return env
}

func (e *SpecEnv) results(sig *types.Signature, vals []Val) {
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		sv := SVal{t: e.c.asTerm(vals[i]), typ: r.Type()}
		if sig.Results().Len() == 1 {
			e.vars["result"] = sv
		}
		e.vars[fmt.Sprintf("result%d", i)] = sv
		if r.Name() != "" && r.Name() != "_" {
			e.vars[r.Name()] = sv
		}
	}
}

func (e *SpecEnv) child() *SpecEnv {
	n := *e
	n.vars = make(map[string]SVal, len(e.vars)+2)
	for k, v := range e.vars {
		n.vars[k] = v
	}
	return &n
}

func (c *Ctx) evalBool(x *Expr, env *SpecEnv) T {
	v := c.eval(x, env)
	if v.t.so != sBool {
		panic(specErr("boolean expected, got " + v.t.so + " in " + x.String()))
	}
	return v.t
}

func (x *Expr) String() string {
	switch x.Op {
	case "id", "int":
		return x.Name
	case "str":
		return fmt.Sprintf("%q", x.Name)
	case "sel":
		return x.Args[0].String() + "." + x.Name
	case "index":
		return x.Args[0].String() + "[" + x.Args[1].String() + "]"
	case "bin":
		return "(" + x.Args[0].String() + " " + x.Name + " " + x.Args[1].String() + ")"
	case "un":
		return x.Name + x.Args[0].String()
	}
	var as []string
	for _, a := range x.Args {
		as = append(as, a.String())
	}
	return x.Op + " " + x.Name + "(" + strings.Join(as, ", ") + ")"
}

func (c *Ctx) eval(x *Expr, env *SpecEnv) SVal {
	switch x.Op {
	case "int":
		return SVal{t: mkIntS(x.Name), typ: untypedInt}
	case "str":
		return SVal{t: c.m.strLit(x.Name), typ: types.Typ[types.String]}
	case "id":
		return c.evalIdent(x.Name, env)
	case "un":
		a := c.eval(x.Args[0], env)
		switch x.Name {
		case "!":
			return SVal{t: mkNot(a.t), typ: untypedBool}
		case "-":
			if a.t.so == sReal {
				return SVal{t: app(sReal, "-", a.t), typ: a.typ}
			}
			return SVal{t: mkSub(mkInt(0), a.t), typ: untypedInt}
		case "*":
			pt, ok := a.typ.Underlying().(*types.Pointer)
			if !ok {
				panic(specErr("dereference of non-pointer " + x.String()))
			}
			p := c.refPlace(pt.Elem(), a.t)
			return SVal{t: c.loadPlace(env.st, p), typ: pt.Elem()}
		}
	case "bin":
		return c.evalBin(x, env)
	case "forall", "exists":
		return c.evalQuant(x, env)
	case "let":
		v := c.eval(x.Args[0], env)
		n := env.child()
		n.vars[x.Name] = v
		return c.eval(x.Args[1], n)
	case "sel":
		// package-qualified global?
		if x.Args[0].Op == "id" {
			if _, ok := c.lookupVar(x.Args[0].Name, env); !ok {
				if v, ok := c.P.globalVar(x.Args[0].Name, x.Name, env.pkg); ok {
					return c.readGlobal(v, env)
				}
			}
		}
		b := c.eval(x.Args[0], env)
		return c.selField(b, x.Name, env)
	case "index":
		b := c.eval(x.Args[0], env)
		i := c.eval(x.Args[1], env)
		return c.evalIndex(b, i, env, x)
	case "slice":
		b := c.eval(x.Args[0], env)
		i := c.eval(x.Args[1], env)
		j := c.eval(x.Args[2], env)
		if b.t.so == sStr {
			return SVal{t: app(sStr, "ssub", b.t, i.t, j.t), typ: b.typ}
		}
		return SVal{t: mkSlice(slArr(b.t), mkAdd(slOff(b.t), i.t), mkSub(j.t, i.t), mkSub(slCap(b.t), i.t)), typ: b.typ}
	case "typeis":
		b := c.eval(x.Args[0], env)
		t := c.P.lookupType(x.Name, env.pkg)
		return SVal{t: mkEq(c.m.typeOf(b.t), mkInt(int64(c.m.tag(t)))), typ: untypedBool}
	case "isa":
		b := c.eval(x.Args[0], env)
		t := c.P.lookupType(x.Name, env.pkg)
		return SVal{t: app(sBool, c.implFun(t), c.m.typeOf(b.t)), typ: untypedBool}
	case "as":
		b := c.eval(x.Args[0], env)
		t := c.P.lookupType(x.Name, env.pkg)
		return SVal{t: c.m.unbox(t, b.t), typ: t}
	case "ptr":
		t := c.P.lookupType(x.Name, env.pkg)
		return SVal{t: c.eval(x.Args[0], env).t, typ: types.NewPointer(t)}
	case "box":
		t := c.P.lookupType(x.Name, env.pkg)
		b := c.eval(x.Args[0], env)
		return SVal{t: c.m.box(t, b.t), typ: types.NewInterfaceType(nil, nil)}
	case "call":
		return c.evalCall(x, env)
	}
	panic(specErr("cannot evaluate " + x.String()))
}

func (c *Ctx) lookupVar(name string, env *SpecEnv) (SVal, bool) {
	if env.bound[name] {
		return env.vars[name], true
	}
	if env.resolve != nil {
		if v, ok := env.resolve(name); ok {
			return v, true
		}
	}
	v, ok := env.vars[name]
	return v, ok
}

func (c *Ctx) evalIdent(name string, env *SpecEnv) SVal {
	switch name {
	case "true":
		return SVal{t: tTrue, typ: untypedBool}
	case "false":
		return SVal{t: tFalse, typ: untypedBool}
	case "nil":
		return SVal{t: mkInt(0), typ: types.Typ[types.UntypedNil]}
	}
	if v, ok := c.lookupVar(name, env); ok {
		return v
	}
	if v, ok := c.P.globalVar("", name, env.pkg); ok {
		return c.readGlobal(v, env)
	}
	if k, ok := c.P.constVal("", name, env.pkg); ok {
		return c.constSVal(k)
	}
	panic(specErr("unknown name " + name))
}

func (c *Ctx) constSVal(k *types.Const) SVal {
	v := c.constVal(ssa.NewConst(k.Val(), k.Type()))
	return SVal{t: v.t, typ: k.Type()}
}

func (c *Ctx) readGlobal(v types.Object, env *SpecEnv) SVal {
	if k, ok := v.(*types.Const); ok {
		return c.constSVal(k)
	}
	comp := c.compGlobalVar(v.Pkg().Path(), v.Name(), v.Type())
	return SVal{t: c.heapTerm(env.st, comp), typ: v.Type()}
}

func (c *Ctx) selField(b SVal, name string, env *SpecEnv) SVal {
	if b.typ == nil {
		panic(specErr("selector ." + name + " on untyped value"))
	}
	var pkg *types.Package
	t := b.typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, named := t.(*types.Named); !named {
			t = p.Elem()
		}
	}
	if n, ok := t.(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	if pkg == nil {
		pkg = env.pkg
	}
	obj, idx, _ := types.LookupFieldOrMethod(b.typ, true, pkg, name)
	if _, ok := obj.(*types.Var); !ok {
		panic(specErr(fmt.Sprintf("no field %s in %s", name, b.typ)))
	}
	cur := b
	for _, i := range idx {
		cur = c.selIdx(cur, i, env)
	}
	return cur
}

func (c *Ctx) selIdx(b SVal, i int, env *SpecEnv) SVal {
	if b.place != nil {
		p := *b.place
		st := p.typ
		p.path = append(append([]step{}, p.path...), step{field: i, typ: st})
		ft := st.Underlying().(*types.Struct).Field(i).Type()
		p.typ = ft
		return SVal{t: c.loadPlace(env.st, &p), typ: ft}
	}
	if pt, ok := b.typ.Underlying().(*types.Pointer); ok {
		st := pt.Elem()
		ft := st.Underlying().(*types.Struct).Field(i).Type()
		comp := c.compField(st, i)
		return SVal{t: mkSelect(c.heapTerm(env.st, comp), b.t, c.m.sortOf(ft)), typ: ft}
	}
	u := b.typ.Underlying().(*types.Struct)
	return SVal{t: c.m.getField(b.t, b.typ, i), typ: u.Field(i).Type()}
}

func (c *Ctx) evalIndex(b, i SVal, env *SpecEnv, x *Expr) SVal {
	switch u := b.typ.Underlying().(type) {
	case *types.Basic:
		if b.t.so == sStr {
			return SVal{t: app(sInt, "sat", b.t, i.t), typ: types.Typ[types.Uint8]}
		}
	case *types.Slice:
		comp := c.compElem(u.Elem())
		so := c.m.sortOf(u.Elem())
		return SVal{t: mkSelect(mkSelect(c.heapTerm(env.st, comp), slArr(b.t), arrSort(sInt, so)), mkAdd(slOff(b.t), i.t), so), typ: u.Elem()}
	case *types.Array:
		return SVal{t: mkSelect(b.t, i.t, c.m.sortOf(u.Elem())), typ: u.Elem()}
	case *types.Map:
		_, v, _ := c.compMap(u)
		ks, vs := c.m.sortOf(u.Key()), c.m.sortOf(u.Elem())
		return SVal{t: mkSelect(mkSelect(c.heapTerm(env.st, v), b.t, arrSort(ks, vs)), i.t, vs), typ: u.Elem()}
	}
	panic(specErr("cannot index " + x.String()))
}

func (c *Ctx) coerce(a, b SVal) (T, T) {
	// nil against slices, interfaces
	fix := func(n, o SVal) T {
		if o.t.so == sSlice {
			return T{}
		}
		if o.t.so == sAny {
			return T{"nilany", sAny}
		}
		return n.t
	}
	isNil := func(v SVal) bool {
		bt, ok := v.typ.(*types.Basic)
		return ok && bt.Kind() == types.UntypedNil
	}
	if isNil(a) && b.t.so != sInt {
		if b.t.so == sSlice {
			return mkInt(0), slArr(b.t)
		}
		return fix(a, b), b.t
	}
	if isNil(b) && a.t.so != sInt {
		if a.t.so == sSlice {
			return slArr(a.t), mkInt(0)
		}
		return a.t, fix(b, a)
	}
	if a.t.so == sReal && b.t.so == sInt {
		return a.t, T{"(to_real " + b.t.s + ")", sReal}
	}
	if b.t.so == sReal && a.t.so == sInt {
		return T{"(to_real " + a.t.s + ")", sReal}, b.t
	}
	return a.t, b.t
}

// trigTerm returns a term which may be used as a pattern: the last conjunct of a conjunction.
func trigTerm(s string) string {
	for strings.HasPrefix(s, "(and ") {
		parts := splitSexp(s[5 : len(s)-1])
		s = parts[len(parts)-1]
	}
	return s
}

func isNilSV(v SVal) bool {
	bt, ok := v.typ.(*types.Basic)
	return ok && bt.Kind() == types.UntypedNil
}

func (c *Ctx) evalBin(x *Expr, env *SpecEnv) SVal {
	b := func(t T) SVal { return SVal{t: t, typ: untypedBool} }
	l := c.eval(x.Args[0], env)
	r := c.eval(x.Args[1], env)
	switch x.Name {
	case "&&":
		return b(mkAnd(l.t, r.t))
	case "||":
		return b(mkOr(l.t, r.t))
	case "==>":
		return b(mkImp(l.t, r.t))
	case "<==>":
		return b(mkEq(l.t, r.t))
	}
	if x.Name == "==" || x.Name == "!=" {
		// the address of a location is never nil
		if (l.place != nil && isNilSV(r)) || (r.place != nil && isNilSV(l)) {
			if x.Name == "==" {
				return b(tFalse)
			}
			return b(tTrue)
		}
	}
	lt, rt := c.coerce(l, r)
	if lt.so != rt.so {
		panic(specErr(fmt.Sprintf("sorts differ (%s, %s) in %s", lt.so, rt.so, x.String())))
	}
	switch x.Name {
	case "==":
		return b(mkEq(lt, rt))
	case "!=":
		return b(mkNot(mkEq(lt, rt)))
	case "<":
		return b(mkLt(lt, rt))
	case "<=":
		return b(mkLe(lt, rt))
	case ">":
		return b(mkLt(rt, lt))
	case ">=":
		return b(mkLe(rt, lt))
	}
	ty := l.typ
	if bt, ok := ty.(*types.Basic); ok && bt.Info()&types.IsUntyped != 0 {
		ty = r.typ
	}
	if lt.so == sStr && x.Name == "+" {
		return SVal{t: app(sStr, "sconcat", lt, rt), typ: ty}
	}
	if lt.so == sReal {
		switch x.Name {
		case "/":
			return SVal{t: app(sReal, "/", lt, rt), typ: ty}
		}
		return SVal{t: app(sReal, x.Name, lt, rt), typ: ty}
	}
	_ = ty
	switch x.Name {
	case "+":
		return SVal{t: mkAdd(lt, rt), typ: untypedInt}
	case "-":
		return SVal{t: mkSub(lt, rt), typ: untypedInt}
	case "*":
		return SVal{t: mkMul(lt, rt), typ: untypedInt}
	case "/":
		return SVal{t: app(sInt, "div", lt, rt), typ: untypedInt}
	case "%":
		return SVal{t: app(sInt, "mod", lt, rt), typ: untypedInt}
	}
	panic(specErr("operator " + x.Name))
}

func (c *Ctx) qvarType(ty string, env *SpecEnv) (types.Type, string) {
	switch ty {
	case "int":
		return untypedInt, sInt
	case "bool":
		return untypedBool, sBool
	case "string":
		return types.Typ[types.String], sStr
	case "any":
		return types.NewInterfaceType(nil, nil), sAny
	case "real":
		return types.Typ[types.Float64], sReal
	}
	t := c.P.lookupType(ty, env.pkg)
	return t, c.m.sortOf(t)
}

func (c *Ctx) evalQuant(x *Expr, env *SpecEnv) SVal {
	n := env.child()
	n.bound = map[string]bool{}
	for k := range env.bound {
		n.bound[k] = true
	}
	var bs []string
	for _, v := range x.Vars {
		typ, so := c.qvarType(v.Type, env)
		c.nframe++
		nm := fmt.Sprintf("%s!q%d", sanitize(v.Name), c.nframe)
		n.vars[v.Name] = SVal{t: T{nm, so}, typ: typ}
		n.bound[v.Name] = true
		bs = append(bs, fmt.Sprintf("(%s %s)", nm, so))
	}
	body := c.evalBool(x.Args[0], n)
	if body.s == "true" || body.s == "false" {
		return SVal{t: body, typ: untypedBool}
	}
	var pats []string
	for _, tr := range x.Trigs {
		var ts []string
		for _, t := range tr {
			ts = append(ts, trigTerm(c.eval(t, n).t.s))
		}
		pats = append(pats, ":pattern ("+strings.Join(ts, " ")+")")
	}
	bd := body.s
	if len(pats) > 0 {
		bd = "(! " + bd + " " + strings.Join(pats, " ") + ")"
	}
	return SVal{t: T{fmt.Sprintf("(%s (%s) %s)", x.Op, strings.Join(bs, " "), bd), sBool}, typ: untypedBool}
}

func (c *Ctx) evalCall(x *Expr, env *SpecEnv) SVal {
	arg := func(i int) SVal { return c.eval(x.Args[i], env) }
	need := func(n int) {
		if len(x.Args) != n {
			panic(specErr(fmt.Sprintf("%s expects %d arguments", x.Name, n)))
		}
	}
	switch x.Name {
	case "len":
		need(1)
		a := arg(0)
		switch a.t.so {
		case sStr:
			return SVal{t: app(sInt, "slen", a.t), typ: untypedInt}
		case sSlice:
			return SVal{t: slLen(a.t), typ: untypedInt}
		}
		if mt, ok := a.typ.Underlying().(*types.Map); ok {
			_, _, l := c.compMap(mt)
			return SVal{t: mkIte(mkEq(a.t, mkInt(0)), mkInt(0), mkSelect(c.heapTerm(env.st, l), a.t, sInt)), typ: untypedInt}
		}
		panic(specErr("len of " + x.Args[0].String()))
	case "cap":
		return SVal{t: slCap(arg(0).t), typ: untypedInt}
	case "arr":
		return SVal{t: slArr(arg(0).t), typ: untypedInt}
	case "off":
		return SVal{t: slOff(arg(0).t), typ: untypedInt}
	case "old":
		need(1)
		n := *env
		n.st = env.old
		n.resolve = nil
		if env.oldVars != nil {
			n.vars = map[string]SVal{}
			for k, v := range env.vars {
				if env.bound[k] {
					n.vars[k] = v
				}
			}
			for k, v := range env.oldVars {
				if !env.bound[k] {
					n.vars[k] = v
				}
			}
		}
		return c.eval(x.Args[0], &n)
	case "pre":
		need(1)
		if env.preEnv == nil {
			panic(specErr("pre() outside of loop"))
		}
		n := *env.preEnv
		n.vars = map[string]SVal{}
		for k, v := range env.preEnv.vars {
			n.vars[k] = v
		}
		n.bound = env.bound
		for k := range env.bound {
			n.vars[k] = env.vars[k]
		}
		return c.eval(x.Args[0], &n)
	case "fresh":
		a := arg(0)
		ref := a.t
		if a.t.so == sSlice {
			ref = slArr(a.t)
		}
		return SVal{t: mkLe(env.old.alloc, ref), typ: untypedBool}
	case "allocated":
		a := arg(0)
		ref := a.t
		if a.t.so == sSlice {
			ref = slArr(a.t)
		}
		return SVal{t: mkAnd(mkLe(mkInt(0), ref), mkLt(ref, env.st.alloc)), typ: untypedBool}
	case "ite":
		need(3)
		a, b := arg(1), arg(2)
		bt, ct := c.coerce(a, b)
		ty := a.typ
		if bb, ok := ty.(*types.Basic); ok && bb.Info()&types.IsUntyped != 0 {
			ty = b.typ
		}
		return SVal{t: mkIte(arg(0).t, bt, ct), typ: ty}
	case "cdiv":
		need(2)
		return SVal{t: mkSub(mkInt(0), app(sInt, "div", mkSub(mkInt(0), arg(0).t), arg(1).t)), typ: untypedInt}
	case "tdiv":
		return SVal{t: truncDiv(arg(0).t, arg(1).t), typ: untypedInt}
	case "tmod":
		return SVal{t: truncMod(arg(0).t, arg(1).t), typ: untypedInt}
	case "min":
		a, b := arg(0).t, arg(1).t
		return SVal{t: mkIte(mkLe(a, b), a, b), typ: untypedInt}
	case "max":
		a, b := arg(0).t, arg(1).t
		return SVal{t: mkIte(mkLe(a, b), b, a), typ: untypedInt}
	case "pow2":
		c.pow2Facts()
		return SVal{t: app(sInt, "pow2", arg(0).t), typ: untypedInt}
	case "ref":
		return SVal{t: arg(0).t, typ: untypedInt}
	case "int":
		return SVal{t: arg(0).t, typ: untypedInt}
	case "real":
		a := arg(0)
		if a.t.so == sInt {
			return SVal{t: T{"(to_real " + a.t.s + ")", sReal}, typ: types.Typ[types.Float64]}
		}
		return a
	case "has":
		need(2)
		m, k := arg(0), arg(1)
		mt := m.typ.Underlying().(*types.Map)
		d, _, _ := c.compMap(mt)
		return SVal{t: mkAnd(mkNot(mkEq(m.t, mkInt(0))), mkSelect(mkSelect(c.heapTerm(env.st, d), m.t, arrSort(c.m.sortOf(mt.Key()), sBool)), k.t, sBool)), typ: untypedBool}
	case "visited":
		need(1)
		v, ok := env.vars["$visited"]
		if !ok {
			panic(specErr("visited is only known in a loop over a map"))
		}
		return SVal{t: mkSelect(v.t, arg(0).t, sBool), typ: untypedBool}
	case "bstr":
		need(1)
		a := arg(0)
		sl, ok := a.typ.Underlying().(*types.Slice)
		if !ok {
			panic(specErr("bstr expects a byte slice"))
		}
		ar := mkSelect(c.heapTerm(env.st, c.compElem(sl.Elem())), slArr(a.t), arrSort(sInt, sInt))
		c.m.fun("bytes2str", []string{arrSort(sInt, sInt), sInt, sInt}, sStr)
		c.b2sFacts()
		return SVal{t: app(sStr, "bytes2str", ar, slOff(a.t), slLen(a.t)), typ: types.Typ[types.String]}
	case "typetag":
		return SVal{t: c.m.typeOf(arg(0).t), typ: untypedInt}
	case "strlt":
		c.m.fun("strlt", []string{sStr, sStr}, sBool)
		return SVal{t: app(sBool, "strlt", arg(0).t, arg(1).t), typ: untypedBool}
	}
	for _, g := range c.P.ghosts {
		if g.Name == x.Name {
			need(len(g.Args))
			t := c.heapTerm(env.st, "X:"+g.Name)
			so := g.sort(c)
			for i := range x.Args {
				so = elemSort(so)
				t = mkSelect(t, arg(i).t, so)
			}
			return SVal{t: t, typ: specGoType(g.Res)}
		}
	}
	if m, ok := c.P.macros[x.Name]; ok {
		if len(m.Params) != len(x.Args) {
			panic(specErr(fmt.Sprintf("%s expects %d arguments", x.Name, len(m.Params))))
		}
		if env.depth > 40 {
			panic(specErr("recursive define " + x.Name))
		}
		n := &SpecEnv{c: c, vars: map[string]SVal{}, st: env.st, old: env.old, pkg: m.pkg, guard: env.guard, depth: env.depth + 1, bound: map[string]bool{}}
		n.oldVars = map[string]SVal{}
		for i, p := range m.Params {
			v := arg(i)
			if p.Type != "int" && p.Type != "" && (v.t.so == sInt || v.place != nil) {
				if t, ok := c.tryType(p.Type, m.pkg); ok {
					if _, isS := t.Underlying().(*types.Struct); isS {
						// pointer passed for a structure
						if v.place != nil {
							v = SVal{t: c.loadPlace(env.st, v.place)}
						} else {
							v = SVal{t: c.loadStruct(env.st, t, v.t)}
						}
					}
					if v.place == nil {
						v.typ = t
					}
				}
			}
			n.vars[p.Name] = v
			n.oldVars[p.Name] = v
		}
		if n.pkg == nil {
			n.pkg = env.pkg
		}
		return c.eval(m.Body, n)
	}
	if m, ok := c.P.sums[x.Name]; ok {
		need(2)
		return c.sumCall(m, arg(0), arg(1), env)
	}
	if f, ok := c.P.funcs[x.Name]; ok {
		need(len(f.Args))
		var ss []string
		var ts []T
		for i := range x.Args {
			a := arg(i)
			ts = append(ts, a.t)
			_, so := c.qvarType(f.Args[i], env)
			ss = append(ss, so)
			if a.t.so != so {
				panic(specErr(fmt.Sprintf("argument %d of %s has sort %s, want %s", i, x.Name, a.t.so, so)))
			}
		}
		rt, rso := c.qvarType(f.Res, env)
		c.m.fun("u!"+f.Name, ss, rso)
		c.needAxioms(f.Name)
		if len(ts) == 0 {
			return SVal{t: T{"u!" + f.Name, rso}, typ: rt}
		}
		return SVal{t: app(rso, "u!"+f.Name, ts...), typ: rt}
	}
	panic(specErr("unknown function " + x.Name))
}

// needAxioms emits the user axioms which mention the uninterpreted function.
func (c *Ctx) needAxioms(fn string) {
	if c.m.declared["ax:user:"+fn] {
		return
	}
	c.m.declared["ax:user:"+fn] = true
	for _, a := range c.P.axioms {
		if c.m.declared["ax:"+a.Name] || !a.Expr.mentions(fn, c.P, map[string]bool{}) {
			continue
		}
		c.m.declared["ax:"+a.Name] = true
		env := &SpecEnv{c: c, vars: map[string]SVal{}, st: &State{heap: map[string]T{}, cells: map[string]T{}, alloc: mkInt(1)}, guard: tTrue, pkg: a.pkg}
		env.old = env.st
		t := c.evalBool(a.Expr, env)
		c.m.axioms = append(c.m.axioms, "(assert "+t.s+")")
		c.assumed["axiom "+a.Name+":"+a.Text] = true
	}
}

// mentions tells whether the function is called in the expression, or in a macro it uses.
func (x *Expr) mentions(fn string, P *Program, seen map[string]bool) bool {
	if x == nil {
		return false
	}
	if x.Op == "call" {
		if x.Name == fn {
			return true
		}
		if m, ok := P.macros[x.Name]; ok && !seen[x.Name] {
			seen[x.Name] = true
			if m.Body.mentions(fn, P, seen) {
				return true
			}
		}
	}
	for _, a := range x.Args {
		if a.mentions(fn, P, seen) {
			return true
		}
	}
	for _, t := range x.Trigs {
		for _, a := range t {
			if a.mentions(fn, P, seen) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) tryType(n string, pkg *types.Package) (t types.Type, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return c.P.lookupType(n, pkg), true
}

func specGoType(n string) types.Type {
	switch n {
	case "bool":
		return untypedBool
	case "string":
		return types.Typ[types.String]
	}
	return untypedInt
}

// ---------- ghosts ----------

// ghostUpdates performs the ghost assignments of the contract at a return. All
// right hand sides are evaluated before any ghost is assigned.
func (c *Ctx) ghostUpdates(con *Contract, env *SpecEnv, g T, st *State, pos token.Pos, ret int) {
	pre := st.clone()
	for _, gu := range con.Ghosts {
		if gu.arbitrary() {
			continue // updated by callees, constrained by ensures
		}
		k := "X:" + gu.Name
		init := T{c.initName(k), c.comps[k].so}
		if cur := c.heapTerm(st, k); cur.s != init.s {
			c.oblige(fmt.Sprintf("ghost(%s)@ret%d", gu.Name, ret), g, mkEq(cur, init), pos, "ghost which is assigned at the end is not changed before")
		}
	}
	for _, gu := range con.Ghosts {
		if gu.arbitrary() {
			continue
		}
		k := "X:" + gu.Name
		nw := c.fresh("H_"+k, c.comps[k].so)
		c.ghostDef(con, gu, env, g, pre, nw)
		st.heap[k] = nw
	}
}

func (gu *GhostUpd) arbitrary() bool { return gu.Expr.Op == "id" && gu.Expr.Name == "_" }

// ghostEffect is the caller's view of a ghost update.
func (c *Ctx) ghostEffect(con *Contract, gu *GhostUpd, env *SpecEnv, g T, pre, nst *State) {
	k := "X:" + gu.Name
	c.ghostDef(con, gu, env, g, pre, nst.heap[k])
}

func (c *Ctx) ghostDef(con *Contract, gu *GhostUpd, env *SpecEnv, g T, pre *State, nw T) {
	if gu.arbitrary() {
		return // arbitrary update, constrained by ensures
	}
	k := "X:" + gu.Name
	n := env.child()
	n.bound = map[string]bool{}
	st2 := env.st.clone()
	for _, o := range con.Ghosts {
		if !o.arbitrary() {
			st2.heap["X:"+o.Name] = c.heapTerm(pre, "X:"+o.Name)
		}
	}
	n.st = st2
	var bs []string
	sel := nw
	so := c.comps[k].so
	for _, v := range gu.Vars {
		c.nframe++
		nm := fmt.Sprintf("%s!q%d", v, c.nframe)
		dom := splitSexp(so[1 : len(so)-1])[1]
		so = elemSort(so)
		sel = mkSelect(sel, T{nm, dom}, so)
		n.vars[v] = SVal{t: T{nm, dom}, typ: untypedInt}
		n.bound[v] = true
		bs = append(bs, fmt.Sprintf("(%s %s)", nm, dom))
	}
	e := c.eval(gu.Expr, n)
	body := mkEq(sel, e.t)
	if len(bs) == 0 {
		c.assume(g, body)
		return
	}
	c.assume(g, T{fmt.Sprintf("(forall (%s) (! %s :pattern (%s)))", strings.Join(bs, " "), body.s, sel.s), sBool})
}

// ---------- lemmas ----------

func (c *Ctx) useLemma(u *Clause, env *SpecEnv, g T) {
	x := u.Expr
	if x.Op == "forall" {
		// forall x :: lemma(args): instantiate the lemma for all x (premises included)
		n := env.child()
		n.bound = map[string]bool{}
		for k := range env.bound {
			n.bound[k] = true
		}
		var bs []string
		for _, v := range x.Vars {
			typ, so := c.qvarType(v.Type, env)
			c.nframe++
			nm := fmt.Sprintf("%s!q%d", v.Name, c.nframe)
			n.vars[v.Name] = SVal{t: T{nm, so}, typ: typ}
			n.bound[v.Name] = true
			bs = append(bs, fmt.Sprintf("(%s %s)", nm, so))
		}
		req, ens := c.lemmaInst(x.Args[0], n)
		var pats []string
		for _, tr := range x.Trigs {
			var ts []string
			for _, t := range tr {
				ts = append(ts, trigTerm(c.eval(t, n).t.s))
			}
			pats = append(pats, ":pattern ("+strings.Join(ts, " ")+")")
		}
		bd := mkImp(req, ens).s
		if len(pats) > 0 {
			bd = "(! " + bd + " " + strings.Join(pats, " ") + ")"
		}
		c.assume(g, T{fmt.Sprintf("(forall (%s) %s)", strings.Join(bs, " "), bd), sBool})
		return
	}
	req, ens := c.lemmaInst(x, env)
	// the lemma is applied where its premises hold
	c.assume(g, mkImp(req, ens))
}

func (c *Ctx) lemmaInst(x *Expr, env *SpecEnv) (T, T) {
	if x.Op != "call" {
		panic(specErr("use: lemma application expected"))
	}
	l, ok := c.P.lemmas[x.Name]
	if !ok {
		panic(specErr("unknown lemma " + x.Name))
	}
	c.P.usedLemmas[x.Name] = true
	if len(l.Params) != len(x.Args) {
		panic(specErr("lemma " + x.Name + ": wrong number of arguments"))
	}
	n := &SpecEnv{c: c, vars: map[string]SVal{}, st: env.st, old: env.old, pkg: env.pkg, guard: env.guard, bound: map[string]bool{}}
	for i, p := range l.Params {
		n.vars[p.Name] = c.eval(x.Args[i], env)
	}
	var rs, es []T
	for _, r := range l.Requires {
		rs = append(rs, c.evalBool(r.Expr, n))
	}
	for _, e := range l.Ensures {
		es = append(es, c.evalBool(e.Expr, n))
	}
	return mkAnd(rs...), mkAnd(es...)
}

// verifyLemma generates the obligations of a lemma.
func (c *Ctx) verifyLemma(l *Lemma) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupportedErr:
				err = e
			case specErr:
				err = e
			default:
				panic(r)
			}
		}
	}()
	c.name = "lemma " + l.Name
	st := &State{heap: map[string]T{}, cells: map[string]T{}}
	c.decl("alloc!0", sInt)
	st.alloc = T{"alloc!0", sInt}
	for _, g := range c.P.ghosts {
		c.declComp("X:"+g.Name, g.sort(c), nil)
	}
	c.entry = st
	env := &SpecEnv{c: c, vars: map[string]SVal{}, st: st, old: st, guard: tTrue}
	for _, p := range l.Params {
		typ, so := c.qvarType(p.Type, env)
		t := T{p.Name + "!p", so}
		c.decl(t.s, so)
		env.vars[p.Name] = SVal{t: t, typ: typ}
	}
	for _, r := range l.Requires {
		c.assume(tTrue, c.evalBool(r.Expr, env))
	}
	if l.Induct != "" {
		// hypothesis for all smaller non-negative values of the induction variable
		iv := strings.TrimSpace(l.Induct)
		n := env.child()
		var bs []string
		for _, p := range l.Params {
			typ, so := c.qvarType(p.Type, env)
			nm := p.Name + "!ih"
			n.vars[p.Name] = SVal{t: T{nm, so}, typ: typ}
			bs = append(bs, fmt.Sprintf("(%s %s)", nm, so))
		}
		var hs []T
		hs = append(hs, mkLe(mkInt(0), n.vars[iv].t), mkLt(n.vars[iv].t, env.vars[iv].t))
		for _, r := range l.Requires {
			hs = append(hs, c.evalBool(r.Expr, n))
		}
		var es []T
		for _, e := range l.Ensures {
			es = append(es, c.evalBool(e.Expr, n))
		}
		c.assume(tTrue, T{fmt.Sprintf("(forall (%s) %s)", strings.Join(bs, " "), mkImp(mkAnd(hs...), mkAnd(es...)).s), sBool})
	}
	for _, u := range l.Uses {
		c.useLemma(u, env, tTrue)
	}
	c.covers = append(c.covers, &Obl{Name: c.name + "/cover", Func: c.name, Kind: "cover", Prefix: len(c.asserts), Goal: tFalse, Expect: "sat", Text: "premises are satisfiable"})
	for i, e := range l.Ensures {
		c.oblige(fmt.Sprintf("ensures[%d]", i), tTrue, c.evalBool(e.Expr, env), token.NoPos, e.Text)
	}
	return nil
}

// ---------- names inside loops ----------

func (c *Ctx) loopEnv(fr *Frame, li *loopInfo, st *State) *SpecEnv {
	env := c.entryEnv()
	env.oldVars = env.vars
	env.vars = map[string]SVal{}
	for k, v := range env.oldVars {
		env.vars[k] = v
	}
	env.st = st
	env.old = c.entry
	if fr.fn.Pkg != nil && c.con != nil && c.con.pkg != nil {
		env.pkg = c.con.pkg
	}
	env.vars["$n"] = SVal{t: li.iterN, typ: untypedInt}
	for _, in := range li.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
			if v, ok := st.cells[fr.id+"iter:"+nx.Iter.Name()]; ok {
				env.vars["$visited"] = SVal{t: v}
			}
		}
	}
	// enclosing loops, innermost first
	k := 1
	for f := fr; f != nil; f = f.parent {
		for _, l := range enclosing(f, li) {
			env.vars[fmt.Sprintf("$n%d", k)] = SVal{t: l.iterN, typ: untypedInt}
			k++
		}
	}
	env.resolve = func(name string) (SVal, bool) {
		for f, h := fr, li.header; f != nil; f, h = f.parent, nil {
			if v, ok := c.localName(f, h, name, st, li); ok {
				return v, true
			}
		}
		return SVal{}, false
	}
	if li.pre != nil {
		p := *env
		p.st = li.pre
		p.resolve = func(name string) (SVal, bool) {
			for _, in := range li.header.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if phi.Comment == name {
					if v, ok := li.preEnv[phi]; ok && v.place == nil {
						return SVal{t: v.t, typ: phi.Type()}, true
					}
				}
			}
			for f, h := fr, li.header; f != nil; f, h = f.parent, nil {
				if v, ok := c.localName(f, h, name, li.pre, li); ok {
					return v, true
				}
			}
			return SVal{}, false
		}
		env.preEnv = &p
	}
	return env
}

func enclosing(f *Frame, li *loopInfo) []*loopInfo {
	var out []*loopInfo
	for _, l := range f.loops {
		if l == li || l.iterN.s == "" || l.hst == nil {
			continue
		}
		if l.body[li.header] && l.header != li.header {
			out = append(out, l)
		}
	}
	// innermost first: smaller bodies
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if len(out[j].body) < len(out[i].body) {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// localName finds the value of a source variable at loop header h of frame f.
func (c *Ctx) localName(f *Frame, h *ssa.BasicBlock, name string, st *State, li *loopInfo) (SVal, bool) {
	mk := func(v ssa.Value) (SVal, bool) {
		x, ok := f.env[v]
		if !ok {
			if k, isC := v.(*ssa.Const); isC {
				x = c.constVal(k)
			} else {
				return SVal{}, false
			}
		}
		if x.place != nil {
			if x.place.kind == pkRef && len(x.place.path) == 0 {
				return SVal{t: x.place.ref, typ: v.Type()}, true
			}
			return SVal{place: x.place, typ: v.Type()}, true
		}
		if x.t.s == "" {
			return SVal{}, false
		}
		return SVal{t: x.t, typ: v.Type()}, true
	}
	if h != nil {
		for _, in := range h.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if phi.Comment == name {
				return mk(phi)
			}
		}
	}
	var best SVal
	found := false
	for _, p := range f.fn.Params {
		if p.Name() == name {
			if v, ok := mk(p); ok {
				best, found = v, true
			}
		}
	}
	for _, p := range f.fn.FreeVars {
		if p.Name() == name {
			// captured by reference
			if v, ok := mk(p); ok {
				pt := p.Type().Underlying().(*types.Pointer)
				if v.place != nil {
					return SVal{t: c.loadPlace(st, v.place), typ: pt.Elem()}, true
				}
				return SVal{t: c.loadPlace(st, c.refPlace(pt.Elem(), v.t)), typ: pt.Elem()}, true
			}
		}
	}
	// address-taken variables
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok || a.Comment != name {
				continue
			}
			if h != nil && !b.Dominates(h) {
				continue
			}
			v, ok := f.env[a]
			if !ok {
				continue
			}
			t := a.Type().Underlying().(*types.Pointer).Elem()
			if v.place != nil {
				if v.place.kind == pkCell {
					if _, ok := st.cells[v.place.cell]; !ok {
						continue
					}
				}
				if isArrayTyped(v.place) && v.place.kind == pkElem {
					continue
				}
				return SVal{t: c.loadPlace(st, v.place), typ: t}, true
			}
			if _, isStruct := t.Underlying().(*types.Struct); isStruct {
				// a struct variable on the heap: give access through its address
				return SVal{t: v.t, typ: a.Type()}, true
			}
			return SVal{t: c.loadPlace(st, c.refPlace(t, v.t)), typ: t}, true
		}
	}
	if h == nil {
		// outer frame of an inlined call: latest known value of the variable
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				if d, ok := in.(*ssa.DebugRef); ok && !d.IsAddr && d.Object() != nil && d.Object().Name() == name {
					if v, ok := mk(d.X); ok {
						best, found = v, true
					}
				}
				if phi, ok := in.(*ssa.Phi); ok && phi.Comment == name {
					if v, ok := mk(phi); ok {
						best, found = v, true
					}
				}
			}
		}
		return best, found
	}
	for _, b := range f.fn.DomPreorder() {
		if !b.Dominates(h) || b == h {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				if x.Comment == name {
					if v, ok := mk(x); ok {
						best, found = v, true
					}
				}
			case *ssa.DebugRef:
				if !x.IsAddr && x.Object() != nil && x.Object().Name() == name {
					if _, isVar := x.Object().(*types.Var); isVar {
						if v, ok := mk(x.X); ok {
							best, found = v, true
						}
					}
				}
			}
		}
	}
	if found {
		return best, true
	}
	// range variable of this loop: number of completed iterations (or the int-range counter)
	for b := range li.body {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.DebugRef)
			if !ok || d.IsAddr || d.Object() == nil || d.Object().Name() != name {
				continue
			}
			switch y := d.X.(type) {
			case *ssa.BinOp:
				if y.Op == token.ADD && y.Block() == h {
					if phi, ok := y.X.(*ssa.Phi); ok && phi.Comment == "rangeindex" && phi.Block() == h {
						if pv, ok := f.env[phi]; ok {
							return SVal{t: mkAdd(pv.t, mkInt(1)), typ: untypedInt}, true
						}
					}
				}
			case *ssa.Phi:
				if y.Block() == h {
					return mk(y)
				}
			}
		}
	}
	return SVal{}, false
}
