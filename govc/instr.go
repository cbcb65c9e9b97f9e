package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (c *Ctx) constVal(k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return Val{t: c.m.zero(t)}
	}
	switch k.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(k.Value) {
			return Val{t: tTrue}
		}
		return Val{t: tFalse}
	case constant.String:
		return Val{t: c.m.strLit(constant.StringVal(k.Value))}
	case constant.Int:
		if isFloat(t) {
			i := mkIntS(k.Value.ExactString())
			return Val{t: T{"(to_real " + i.s + ")", sReal}, fint: &i}
		}
		return Val{t: mkIntS(k.Value.ExactString())}
	case constant.Float:
		if isInteger(t) {
			v := constant.ToInt(k.Value)
			return Val{t: mkIntS(v.ExactString())}
		}
		v := constant.ToInt(k.Value)
		if v.Kind() == constant.Int {
			i := mkIntS(v.ExactString())
			return Val{t: T{"(to_real " + i.s + ")", sReal}, fint: &i}
		}
		num, den := constant.Num(k.Value), constant.Denom(k.Value)
		if num.Kind() == constant.Int {
			return Val{t: T{fmt.Sprintf("(/ (to_real %s) (to_real %s))", mkIntS(num.ExactString()).s, den.ExactString()), sReal}}
		}
		return Val{t: c.fresh("fconst", sReal)}
	}
	panic(unsupported("constant " + k.String()))
}

func (c *Ctx) get(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return c.constVal(x)
	case *ssa.Function:
		return Val{t: mkInt(1), fn: x}
	case *ssa.Global:
		t := x.Type().(*types.Pointer).Elem()
		return Val{place: &Place{kind: pkGlobal, comp: c.compGlobal(x), root: t, typ: t}}
	case *ssa.Builtin:
		return Val{}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(unsupported(fmt.Sprintf("use of undefined register %s in %s", v.Name(), fr.fn)))
}

func (c *Ctx) term(fr *Frame, st *State, v ssa.Value) T {
	return c.asTerm(c.get(fr, st, v))
}

func (c *Ctx) asTerm(x Val) T {
	if x.place != nil {
		if x.place.kind == pkRef && len(x.place.path) == 0 {
			return x.place.ref
		}
		if x.place.kind == pkHeap && len(x.place.path) == 0 {
			return c.fieldRef(x.place)
		}
		panic(unsupported("interior pointer escapes"))
	}
	return x.t
}

// fieldRef is only reached for interior pointers; they have no integer representation.
func (c *Ctx) fieldRef(p *Place) T {
	panic(unsupported("interior pointer to a field escapes: " + p.comp))
}

func (c *Ctx) isCell(a *ssa.Alloc) bool {
	if v, ok := c.P.cellCache[a]; ok {
		return v
	}
	r := cellOK(a, a)
	c.P.cellCache[a] = r
	return r
}

func cellOK(a *ssa.Alloc, v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, in := range *refs {
		switch x := in.(type) {
		case *ssa.Store:
			if x.Val == v {
				return false
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr:
			if !cellOK(a, x) {
				return false
			}
		case *ssa.IndexAddr:
			if x.Index == v {
				return false
			}
			if !cellOK(a, x) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// place returns the location an address register designates.
func (c *Ctx) place(fr *Frame, st *State, g T, v ssa.Value, pos token.Pos) *Place {
	x := c.get(fr, st, v)
	if x.place != nil {
		return x.place
	}
	pt := v.Type().Underlying().(*types.Pointer).Elem()
	c.nonNil(g, x.t, pos, v)
	return c.refPlace(pt, x.t)
}

func (c *Ctx) refPlace(pt types.Type, ref T) *Place {
	switch pt.Underlying().(type) {
	case *types.Struct:
		return &Place{kind: pkRef, ref: ref, root: pt, typ: pt}
	case *types.Array:
		panic(unsupported("pointer to array value"))
	}
	return &Place{kind: pkHeap, comp: c.compPtr(pt), ref: ref, root: pt, typ: pt}
}

func (c *Ctx) nonNil(g T, ref T, pos token.Pos, v ssa.Value) {
	key := "nn|" + g.s + "|" + ref.s
	if c.factSeen[key] {
		return
	}
	c.factSeen[key] = true
	name := ""
	if v != nil {
		name = v.Name()
	}
	_ = name
	c.oblige("nil-deref", g, mkNot(mkEq(ref, mkInt(0))), pos, "dereferenced pointer is not nil")
}

// instr executes one instruction and returns the new guard.
func (c *Ctx) instr(fr *Frame, in ssa.Instruction, g T, st *State) T {
	pos := in.Pos()
	set := func(v ssa.Value, t T) {
		hint := v.Name()
		if fr.id != "" {
			hint = "i" + hint
		}
		fr.env[v] = Val{t: c.define(hint, t)}
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			_, g = c.call(fr, fr.defers[i], fr.defers[i].Common(), g, st)
		}
		return g
	case *ssa.Defer:
		for _, d := range fr.defers {
			if d == x {
				return g
			}
		}
		fr.defers = append(fr.defers, x)
	case *ssa.Alloc:
		c.doAlloc(fr, x, g, st)
	case *ssa.Store:
		p := c.place(fr, st, g, x.Addr, pos)
		if isArrayTyped(p) && p.kind == pkElem && len(p.path) == 0 {
			panic(unsupported("store of whole heap array"))
		}
		c.storePlace(st, p, c.normSlice(g, c.term(fr, st, x.Val), pos))
	case *ssa.UnOp:
		c.unop(fr, x, g, st)
	case *ssa.BinOp:
		c.binop(fr, x, g, st)
	case *ssa.FieldAddr:
		b := c.get(fr, st, x.X)
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		ft := pt.Underlying().(*types.Struct).Field(x.Field).Type()
		if b.place != nil && !(b.place.kind == pkRef && len(b.place.path) == 0) {
			np := *b.place
			np.path = append(append([]step{}, np.path...), step{field: x.Field, typ: pt})
			np.typ = ft
			fr.env[x] = Val{place: &np}
			break
		}
		ref := b.t
		if b.place != nil {
			ref = b.place.ref
		} else {
			c.nonNil(g, ref, pos, x.X)
		}
		fr.env[x] = Val{place: &Place{kind: pkHeap, comp: c.compField(pt, x.Field), ref: ref, root: ft, typ: ft}}
	case *ssa.Field:
		v := c.term(fr, st, x.X)
		ft := x.X.Type().Underlying().(*types.Struct).Field(x.Field).Type()
		r := c.m.getField(v, x.X.Type(), x.Field)
		set(x, r)
		c.assumeFacts(g, fr.env[x].t, ft, st)
	case *ssa.IndexAddr:
		c.indexAddr(fr, x, g, st)
	case *ssa.Index:
		v := c.get(fr, st, x.X)
		i := c.term(fr, st, x.Index)
		switch ut := x.X.Type().Underlying().(type) {
		case *types.Array:
			c.bounds(g, i, mkInt(ut.Len()), pos)
			set(x, mkSelect(v.t, i, c.m.sortOf(ut.Elem())))
			c.assumeFacts(g, fr.env[x].t, ut.Elem(), st)
		case *types.Basic:
			c.bounds(g, i, app(sInt, "slen", v.t), pos)
			set(x, app(sInt, "sat", v.t, i))
		default:
			panic(unsupported("index of " + x.X.Type().String()))
		}
	case *ssa.Lookup:
		c.lookup(fr, x, g, st)
	case *ssa.MapUpdate:
		c.mapUpdate(fr, x, g, st)
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		ref := c.newRef(st)
		d, _, l := c.compMap(mt)
		ks := c.m.sortOf(mt.Key())
		es := arrSort(ks, sBool)
		st.heap[d] = c.define("H_"+d, mkStore(c.heapTerm(st, d), ref, T{"((as const " + es + ") false)", es}))
		st.heap[l] = c.define("H_"+l, mkStore(c.heapTerm(st, l), ref, mkInt(0)))
		fr.env[x] = Val{t: ref}
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		n := c.term(fr, st, x.Len)
		cp := c.term(fr, st, x.Cap)
		c.oblige("makeslice", g, mkAnd(mkLe(mkInt(0), n), mkLe(n, cp)), pos, "make: 0 <= len <= cap")
		c.assume(g, mkLt(cp, mkIntS("281474976710656")))
		comp := c.compElem(et)
		ref := c.newRef(st)
		as := arrSort(sInt, c.m.sortOf(et))
		st.heap[comp] = c.define("H_"+comp, mkStore(c.heapTerm(st, comp), ref, T{"((as const " + as + ") " + c.m.zero(et).s + ")", as}))
		fr.env[x] = Val{t: mkSlice(ref, mkInt(0), n, cp)}
	case *ssa.Slice:
		c.slice(fr, x, g, st)
	case *ssa.MakeInterface:
		v := c.get(fr, st, x.X)
		if v.fn != nil {
			fr.env[x] = Val{t: c.fresh("anyfn", sAny)}
			break
		}
		bx := c.m.box(x.X.Type(), c.asTerm(v))
		fr.env[x] = Val{t: bx}
	case *ssa.ChangeInterface:
		fr.env[x] = c.get(fr, st, x.X)
	case *ssa.ChangeType:
		v := c.get(fr, st, x.X)
		if v.place == nil && v.fn == nil {
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				v = Val{t: c.convStruct(v.t, x.X.Type(), x.Type())}
			}
		}
		fr.env[x] = v
	case *ssa.Convert:
		c.convert(fr, x, g, st)
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range x.Bindings {
			bs = append(bs, c.get(fr, st, b))
		}
		fr.env[x] = Val{t: mkInt(1), fn: x.Fn.(*ssa.Function), binds: bs}
	case *ssa.TypeAssert:
		c.typeAssert(fr, x, g, st)
	case *ssa.Extract:
		v := c.get(fr, st, x.Tuple)
		fr.env[x] = v.tup[x.Index]
	case *ssa.Call:
		v, ng := c.call(fr, x, x.Common(), g, st)
		fr.env[x] = v
		return ng
	case *ssa.Range:
		c.rangeStart(fr, x, g, st)
	case *ssa.Next:
		c.next(fr, x, g, st)
	case *ssa.SliceToArrayPointer, *ssa.Select, *ssa.Send, *ssa.Go, *ssa.MakeChan, *ssa.MultiConvert:
		panic(unsupported(fmt.Sprintf("%T in %s", in, fr.fn)))
	default:
		panic(unsupported(fmt.Sprintf("%T in %s", in, fr.fn)))
	}
	return g
}

func isArrayTyped(p *Place) bool {
	_, ok := p.typ.Underlying().(*types.Array)
	return ok
}

func (c *Ctx) convStruct(v T, from, to types.Type) T {
	if c.m.sortOf(from) == c.m.sortOf(to) {
		return v
	}
	u := to.Underlying().(*types.Struct)
	var args []T
	for i := 0; i < u.NumFields(); i++ {
		args = append(args, c.m.getField(v, from, i))
	}
	so := c.m.sortOf(to)
	return app(so, "mk-"+so, args...)
}

func (c *Ctx) newRef(st *State) T {
	ref := c.define("ref", st.alloc)
	st.alloc = c.define("alloc", mkAdd(st.alloc, mkInt(1)))
	return ref
}

func (c *Ctx) doAlloc(fr *Frame, x *ssa.Alloc, g T, st *State) {
	t := x.Type().(*types.Pointer).Elem()
	if c.isCell(x) {
		key := fr.id + x.Name()
		st.cells[key] = c.m.zero(t)
		fr.env[x] = Val{place: &Place{kind: pkCell, cell: key, root: t, typ: t}}
		return
	}
	ref := c.newRef(st)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		c.storeStruct(st, t, ref, c.m.zero(t))
		fr.env[x] = Val{t: ref}
	case *types.Array:
		comp := c.compElem(u.Elem())
		as := arrSort(sInt, c.m.sortOf(u.Elem()))
		st.heap[comp] = c.define("H_"+comp, mkStore(c.heapTerm(st, comp), ref, T{"((as const " + as + ") " + c.m.zero(u.Elem()).s + ")", as}))
		fr.env[x] = Val{place: &Place{kind: pkElem, comp: comp, ref: ref, idx: mkInt(0), root: u.Elem(), typ: t}}
	default:
		comp := c.compPtr(t)
		st.heap[comp] = c.define("H_"+comp, mkStore(c.heapTerm(st, comp), ref, c.m.zero(t)))
		fr.env[x] = Val{t: ref}
	}
	c.assume(tTrue, mkLt(mkInt(0), ref))
}

func (c *Ctx) bounds(g, i, n T, pos token.Pos) {
	c.oblige("bounds", g, mkAnd(mkLe(mkInt(0), i), mkLt(i, n)), pos, "index in range")
}

func (c *Ctx) indexAddr(fr *Frame, x *ssa.IndexAddr, g T, st *State) {
	i := c.term(fr, st, x.Index)
	b := c.get(fr, st, x.X)
	switch ut := x.X.Type().Underlying().(type) {
	case *types.Slice:
		c.bounds(g, i, slLen(b.t), x.Pos())
		fr.env[x] = Val{place: &Place{kind: pkElem, comp: c.compElem(ut.Elem()), ref: slArr(b.t), idx: mkAdd(slOff(b.t), i), root: ut.Elem(), typ: ut.Elem()}}
	case *types.Pointer:
		at := ut.Elem().Underlying().(*types.Array)
		c.bounds(g, i, mkInt(at.Len()), x.Pos())
		if b.place == nil {
			panic(unsupported("index of array pointer"))
		}
		np := *b.place
		if np.kind == pkElem && len(np.path) == 0 && isArrayTyped(&np) && types.Identical(np.root, at.Elem()) {
			np.idx = i
			np.typ = at.Elem()
		} else {
			ii := i
			np.path = append(append([]step{}, np.path...), step{idx: &ii, typ: ut.Elem()})
			np.typ = at.Elem()
		}
		fr.env[x] = Val{place: &np}
	default:
		panic(unsupported("indexaddr"))
	}
}

func (c *Ctx) unop(fr *Frame, x *ssa.UnOp, g T, st *State) {
	hint := x.Name()
	switch x.Op {
	case token.MUL:
		p := c.place(fr, st, g, x.X, x.Pos())
		if p.kind == pkElem && len(p.path) == 0 && isArrayTyped(p) && !types.Identical(p.root, p.typ) {
			panic(unsupported("load of whole heap array"))
		}
		v := c.define(hint, c.loadPlace(st, p))
		fr.env[x] = Val{t: v}
		c.assumeFacts(g, v, x.Type(), st)
		c.entryFacts(g, p, x.Type(), st)
	case token.NOT:
		fr.env[x] = Val{t: mkNot(c.term(fr, st, x.X))}
	case token.SUB:
		v := c.get(fr, st, x.X)
		if isFloat(x.Type()) {
			r := Val{t: app(sReal, "-", v.t)}
			if v.fint != nil {
				n := mkSub(mkInt(0), *v.fint)
				r.fint = &n
			}
			fr.env[x] = r
			return
		}
		r := mkSub(mkInt(0), v.t)
		c.overflow(g, r, x.Type(), x.Pos(), "-")
		fr.env[x] = Val{t: c.wrapU(r, x.Type())}
	case token.XOR:
		v := c.term(fr, st, x.X)
		fr.env[x] = Val{t: c.wrapU(mkSub(mkSub(mkInt(0), v), mkInt(1)), x.Type())}
	default:
		panic(unsupported("unop " + x.Op.String()))
	}
}

func (c *Ctx) overflow(g, r T, t types.Type, pos token.Pos, op string) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsUnsigned != 0 {
		return
	}
	if c.math {
		return
	}
	lo, hi, ok := intRange(b)
	if !ok {
		return
	}
	c.oblige("overflow", g, mkAnd(mkLe(mkIntS(lo), r), mkLe(r, mkIntS(hi))), pos, "no overflow in "+op)
}

// wrapU reduces unsigned arithmetic modulo the width of the type.
func (c *Ctx) wrapU(r T, t types.Type) T {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsUnsigned == 0 {
		return r
	}
	if _, ok := litInt(r); ok {
		if !strings.HasPrefix(r.s, "(-") {
			return r
		}
	}
	_, hi, _ := intRange(b)
	mod := map[string]string{"255": "256", "65535": "65536", "4294967295": "4294967296", "18446744073709551615": "18446744073709551616"}[hi]
	return app(sInt, "mod", r, mkIntS(mod))
}

func truncDiv(a, b T) T {
	if n, ok := litInt(b); ok && n > 0 {
		return mkIte(mkLe(mkInt(0), a), app(sInt, "div", a, b), mkSub(mkInt(0), app(sInt, "div", mkSub(mkInt(0), a), b)))
	}
	return mkIte(mkLe(mkInt(0), a), app(sInt, "div", a, b), mkSub(mkInt(0), app(sInt, "div", mkSub(mkInt(0), a), b)))
}

func truncMod(a, b T) T {
	return mkIte(mkLe(mkInt(0), a), app(sInt, "mod", a, b), mkSub(mkInt(0), app(sInt, "mod", mkSub(mkInt(0), a), b)))
}

func (c *Ctx) binop(fr *Frame, x *ssa.BinOp, g T, st *State) {
	xv, yv := c.get(fr, st, x.X), c.get(fr, st, x.Y)
	hint := x.Name()
	t := x.X.Type()
	set := func(r T) { fr.env[x] = Val{t: c.define(hint, r)} }
	switch x.Op {
	case token.EQL, token.NEQ:
		var r T
		if xv.place != nil || yv.place != nil || xv.fn != nil || yv.fn != nil {
			if xv.fn != nil || yv.fn != nil {
				r = c.fresh("fneq", sBool)
			} else {
				a, aok := c.tryTerm(xv)
				b, bok := c.tryTerm(yv)
				if aok && bok {
					r = mkEq(a, b)
				} else {
					// the address of a location is never nil
					r = c.fresh("addreq", sBool)
					if (aok && a.s == "0") || (bok && b.s == "0") {
						r = tFalse
					}
				}
			}
		} else if _, ok := t.Underlying().(*types.Slice); ok {
			// only comparison with nil is legal
			if isNilConst(x.Y) {
				r = mkEq(slArr(xv.t), mkInt(0))
			} else {
				r = mkEq(slArr(yv.t), mkInt(0))
			}
		} else if isIface(x.X.Type()) != isIface(x.Y.Type()) {
			a, b := xv.t, yv.t
			if !isIface(x.X.Type()) {
				a = c.m.box(x.X.Type(), a)
			}
			if !isIface(x.Y.Type()) {
				b = c.m.box(x.Y.Type(), b)
			}
			r = mkEq(a, b)
		} else {
			r = mkEq(xv.t, yv.t)
		}
		if x.Op == token.NEQ {
			r = mkNot(r)
		}
		set(r)
		return
	}
	a, b := c.asTerm(xv), c.asTerm(yv)
	switch {
	case isString(t):
		switch x.Op {
		case token.ADD:
			set(app(sStr, "sconcat", a, b))
			return
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			c.m.fun("strlt", []string{sStr, sStr}, sBool)
			switch x.Op {
			case token.LSS:
				set(app(sBool, "strlt", a, b))
			case token.GTR:
				set(app(sBool, "strlt", b, a))
			case token.LEQ:
				set(mkNot(app(sBool, "strlt", b, a)))
			case token.GEQ:
				set(mkNot(app(sBool, "strlt", a, b)))
			}
			return
		}
	case isFloat(t):
		c.floatOp(fr, x, xv, yv, g)
		return
	case isInteger(t):
		switch x.Op {
		case token.LSS:
			set(mkLt(a, b))
		case token.LEQ:
			set(mkLe(a, b))
		case token.GTR:
			set(mkLt(b, a))
		case token.GEQ:
			set(mkLe(b, a))
		case token.ADD, token.SUB, token.MUL:
			var r T
			switch x.Op {
			case token.ADD:
				r = mkAdd(a, b)
			case token.SUB:
				r = mkSub(a, b)
			case token.MUL:
				r = mkMul(a, b)
			}
			set(c.wrapU(r, x.Type()))
			c.overflow(g, fr.env[x].t, x.Type(), x.Pos(), x.Op.String())
		case token.QUO, token.REM:
			c.oblige("div-by-zero", g, mkNot(mkEq(b, mkInt(0))), x.Pos(), "divisor is not zero")
			if x.Op == token.QUO {
				if _, ok := litInt(b); !ok && !isUnsigned(t) && !c.math {
					lo, _, _ := intRange(t.Underlying().(*types.Basic))
					c.oblige("overflow", g, mkNot(mkAnd(mkEq(b, mkInt(-1)), mkEq(a, mkIntS(lo)))), x.Pos(), "quotient is representable")
				}
				if isUnsigned(t) {
					set(app(sInt, "div", a, b))
				} else {
					set(truncDiv(a, b))
				}
			} else {
				if isUnsigned(t) {
					set(app(sInt, "mod", a, b))
				} else {
					set(truncMod(a, b))
				}
			}
		case token.SHL, token.SHR:
			if !isUnsigned(x.Y.Type()) {
				c.oblige("shift", g, mkLe(mkInt(0), b), x.Pos(), "shift count is not negative")
			}
			p := app(sInt, "pow2", b)
			if n, ok := litInt(b); ok && n >= 0 && n < 62 {
				p = mkInt(1 << uint(n))
			} else {
				c.pow2Facts()
			}
			if x.Op == token.SHL {
				r := mkMul(a, p)
				set(c.wrapS(c.wrapU(r, x.Type()), x.Type(), g, x.Pos()))
			} else {
				set(app(sInt, "div", a, p))
			}
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			f := map[token.Token]string{token.AND: "bitand", token.OR: "bitor", token.XOR: "bitxor", token.AND_NOT: "bitandnot"}[x.Op]
			c.m.fun(f, []string{sInt, sInt}, sInt)
			set(app(sInt, f, a, b))
			c.assumeFacts(g, fr.env[x].t, x.Type(), st)
			if x.Op == token.AND {
				r := fr.env[x].t
				// masking with a non-negative value
				c.assume(g, mkImp(mkLe(mkInt(0), b), mkAnd(mkLe(mkInt(0), r), mkLe(r, b))))
				c.assume(g, mkImp(mkLe(mkInt(0), a), mkAnd(mkLe(mkInt(0), r), mkLe(r, a))))
				c.m.fun("islowmask", []string{sInt}, sBool)
				c.bitMaskFacts()
				c.assume(g, mkImp(app(sBool, "islowmask", b), mkEq(r, app(sInt, "mod", a, mkAdd(b, mkInt(1))))))
				if n, ok := litInt(b); ok && n >= 0 && (n&(n+1)) == 0 {
					c.assume(g, mkEq(r, app(sInt, "mod", a, mkInt(n+1))))
				}
			}
		default:
			panic(unsupported("integer operator " + x.Op.String()))
		}
		return
	case isBool(t):
		switch x.Op {
		case token.AND, token.LAND:
			set(mkAnd(a, b))
			return
		case token.OR, token.LOR:
			set(mkOr(a, b))
			return
		}
	}
	panic(unsupported("operator " + x.Op.String() + " on " + t.String()))
}

func (c *Ctx) bitMaskFacts() {
	if c.m.declared["ax:mask"] {
		return
	}
	c.m.declared["ax:mask"] = true
	c.pow2Facts()
	c.m.axioms = append(c.m.axioms, "(assert (forall ((n Int)) (! (=> (<= 0 n) (islowmask (- (pow2 n) 1))) :pattern ((pow2 n)))))")
}

func (c *Ctx) pow2Facts() {
	if c.m.declared["ax:pow2"] {
		return
	}
	c.m.declared["ax:pow2"] = true
	v := "1"
	for i := 0; i <= 64; i++ {
		c.m.axioms = append(c.m.axioms, fmt.Sprintf("(assert (= (pow2 %d) %s))", i, v))
		v = doubleDec(v)
	}
	c.m.axioms = append(c.m.axioms,
		"(assert (forall ((n Int)) (! (=> (>= n 0) (>= (pow2 n) 1)) :pattern ((pow2 n)))))",
		"(assert (forall ((n Int) (k Int)) (! (=> (and (<= 0 n) (< n k)) (<= (* 2 (pow2 n)) (pow2 k))) :pattern ((pow2 n) (pow2 k)))))",
		"(assert (forall ((n Int)) (! (=> (>= n 1) (= (pow2 n) (* 2 (pow2 (- n 1))))) :pattern ((pow2 (- n 1))))))",
		"(assert (forall ((n Int)) (! (=> (>= n 0) (= (pow2 (+ n 1)) (* 2 (pow2 n)))) :pattern ((pow2 (+ n 1))))))",
		"(assert (forall ((n Int)) (! (=> (> n 64) (> (pow2 n) 18446744073709551616)) :pattern ((pow2 n)))))")
}

func doubleDec(s string) string {
	out := make([]byte, 0, len(s)+1)
	carry := byte(0)
	for i := len(s) - 1; i >= 0; i-- {
		d := (s[i]-'0')*2 + carry
		out = append(out, '0'+d%10)
		carry = d / 10
	}
	if carry > 0 {
		out = append(out, '0'+carry)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return string(out)
}

// wrapS: signed left shift; the result is exact when it fits, otherwise unknown.
func (c *Ctx) wrapS(r T, t types.Type, g T, pos token.Pos) T {
	b := t.Underlying().(*types.Basic)
	if b.Info()&types.IsUnsigned != 0 {
		return r
	}
	c.overflow(g, r, t, pos, "<<")
	return r
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

func (c *Ctx) tryTerm(v Val) (T, bool) {
	if v.place != nil {
		if v.place.kind == pkRef && len(v.place.path) == 0 {
			return v.place.ref, true
		}
		return T{}, false
	}
	return v.t, true
}

// Floats are reals; operations on exactly represented integers stay exact as
// long as magnitudes do not exceed 2^53, which is an obligation.
func (c *Ctx) floatOp(fr *Frame, x *ssa.BinOp, a, b Val, g T) {
	r := Val{}
	cmp := map[token.Token]string{token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}
	if op, ok := cmp[x.Op]; ok {
		if a.fint != nil && b.fint != nil {
			fr.env[x] = Val{t: app(sBool, op, *a.fint, *b.fint)}
		} else {
			fr.env[x] = Val{t: app(sBool, op, a.t, b.t)}
		}
		return
	}
	exact := a.fint != nil && b.fint != nil
	switch x.Op {
	case token.ADD, token.SUB, token.MUL:
		if exact {
			var n T
			switch x.Op {
			case token.ADD:
				n = mkAdd(*a.fint, *b.fint)
			case token.SUB:
				n = mkSub(*a.fint, *b.fint)
			case token.MUL:
				n = mkMul(*a.fint, *b.fint)
			}
			n = c.define("fi", n)
			c.oblige("float-exact", g, floatExact(x.Type(), n), x.Pos(), "float operation on integers is exact")
			r.fint = &n
			r.t = T{"(to_real " + n.s + ")", sReal}
		} else {
			f := map[token.Token]string{token.ADD: "fadd", token.SUB: "fsub", token.MUL: "fmul"}[x.Op]
			c.m.fun(f, []string{sReal, sReal}, sReal)
			r.t = app(sReal, f, a.t, b.t)
		}
	case token.QUO:
		c.m.fun("fdiv", []string{sReal, sReal}, sReal)
		r.t = app(sReal, "fdiv", a.t, b.t)
		if exact && !isFloat32(x.Type()) {
			r.fdivA, r.fdivB = a.fint, b.fint
		}
	default:
		panic(unsupported("float operator " + x.Op.String()))
	}
	fr.env[x] = r
}

func isFloat32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

// floatExact holds when integers of magnitude n are exactly represented.
func floatExact(t types.Type, n T) T {
	l := "9007199254740992"
	if isFloat32(t) {
		l = "16777216"
	}
	return mkAnd(mkLe(mkIntS("-"+l), n), mkLe(n, mkIntS(l)))
}

func (c *Ctx) convert(fr *Frame, x *ssa.Convert, g T, st *State) {
	from, to := x.X.Type(), x.Type()
	v := c.get(fr, st, x.X)
	switch {
	case isInteger(from) && isInteger(to):
		fb, tb := from.Underlying().(*types.Basic), to.Underlying().(*types.Basic)
		flo, fhi, _ := intRange(fb)
		tlo, thi, _ := intRange(tb)
		if within(flo, tlo, thi) && within(fhi, tlo, thi) {
			fr.env[x] = v
			return
		}
		if isUnsigned(to) {
			fr.env[x] = Val{t: c.define(x.Name(), c.wrapU(v.t, to))}
			return
		}
		// narrowing to a signed type: two's complement
		var mod, half string
		switch tb.Kind() {
		case types.Int8:
			mod, half = "256", "128"
		case types.Int16:
			mod, half = "65536", "32768"
		case types.Int32:
			mod, half = "4294967296", "2147483648"
		default:
			mod, half = "18446744073709551616", "9223372036854775808"
		}
		r := mkSub(app(sInt, "mod", mkAdd(v.t, mkIntS(half)), mkIntS(mod)), mkIntS(half))
		fr.env[x] = Val{t: c.define(x.Name(), r)}
	case isInteger(from) && isFloat(to):
		n := v.t
		// exactness is required only where the value matters; record it lazily
		fn, lim := "i2f", "9007199254740992"
		if isFloat32(to) {
			fn, lim = "i2f32", "16777216"
		}
		c.m.fun(fn, []string{sInt}, sReal)
		c.i2fFacts(fn, lim)
		ok := floatExact(to, n)
		if c.con != nil && c.con.Float == "exact" {
			c.oblige("float-exact", g, ok, x.Pos(), "integer is exactly representable as a float")
			fr.env[x] = Val{t: T{"(to_real " + n.s + ")", sReal}, fint: &n}
		} else {
			fr.env[x] = Val{t: app(sReal, fn, n)}
		}
	case isFloat(from) && isInteger(to):
		if v.fint != nil {
			fr.env[x] = Val{t: *v.fint}
			return
		}
		c.m.fun("f2i", []string{sReal}, sInt)
		r := app(sInt, "f2i", v.t)
		fr.env[x] = Val{t: c.define(x.Name(), r)}
		c.assumeFacts(g, fr.env[x].t, to, st)
	case isFloat(from) && isFloat(to):
		if isFloat32(to) && !isFloat32(from) {
			if v.fint != nil && c.con != nil && c.con.Float == "exact" {
				c.oblige("float-exact", g, floatExact(to, *v.fint), x.Pos(), "integer is exactly representable as float32")
				fr.env[x] = v
				return
			}
			c.m.fun("f64to32", []string{sReal}, sReal)
			fr.env[x] = Val{t: app(sReal, "f64to32", v.t)}
			return
		}
		fr.env[x] = v
	case isString(from) && isString(to):
		fr.env[x] = v
	case isString(to) && isInteger(from):
		s := c.fresh("runestr", sStr)
		c.assume(g, mkImp(mkAnd(mkLe(mkInt(0), v.t), mkLt(v.t, mkInt(128))), mkAnd(mkEq(app(sInt, "slen", s), mkInt(1)), mkEq(app(sInt, "sat", s, mkInt(0)), v.t))))
		fr.env[x] = Val{t: s}
	case isString(to):
		// []byte -> string
		sl, ok := from.Underlying().(*types.Slice)
		if !ok || c.m.sortOf(sl.Elem()) != sInt {
			panic(unsupported("conversion to string"))
		}
		if sl.Elem().Underlying().(*types.Basic).Kind() != types.Uint8 {
			fr.env[x] = Val{t: c.fresh("runes2str", sStr)}
			return
		}
		comp := c.compElem(sl.Elem())
		arr := mkSelect(c.heapTerm(st, comp), slArr(v.t), arrSort(sInt, sInt))
		c.m.fun("bytes2str", []string{arrSort(sInt, sInt), sInt, sInt}, sStr)
		c.b2sFacts()
		s := c.define(x.Name(), app(sStr, "bytes2str", arr, slOff(v.t), slLen(v.t)))
		fr.env[x] = Val{t: s}
	case isString(from):
		sl, ok := to.Underlying().(*types.Slice)
		if !ok {
			panic(unsupported("conversion from string"))
		}
		comp := c.compElem(sl.Elem())
		ref := c.newRef(st)
		h := c.heapTerm(st, comp)
		if sl.Elem().Underlying().(*types.Basic).Kind() != types.Uint8 {
			n := c.fresh("nrunes", sInt)
			c.assume(g, mkAnd(mkLe(mkInt(0), n), mkLe(n, app(sInt, "slen", v.t)), mkImp(mkLt(mkInt(0), app(sInt, "slen", v.t)), mkLt(mkInt(0), n))))
			st.heap[comp] = c.define("H_"+comp, mkStore(h, ref, c.fresh("runes", arrSort(sInt, sInt))))
			fr.env[x] = Val{t: mkSlice(ref, mkInt(0), n, n)}
			return
		}
		arr := c.fresh("bytes", arrSort(sInt, sInt))
		c.assume(g, T{fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (< k (slen %s))) (= (select %s k) (sat %s k))) :pattern ((select %s k)) :pattern ((sat %s k))))", v.t.s, arr.s, v.t.s, arr.s, v.t.s), sBool})
		st.heap[comp] = c.define("H_"+comp, mkStore(h, ref, arr))
		n := app(sInt, "slen", v.t)
		fr.env[x] = Val{t: c.define(x.Name(), mkSlice(ref, mkInt(0), n, n))}
		c.assume(g, mkLt(n, mkIntS("281474976710656")))
	default:
		panic(unsupported(fmt.Sprintf("conversion %s -> %s", from, to)))
	}
}

func (c *Ctx) b2sFacts() {
	if c.m.declared["ax:b2s"] {
		return
	}
	c.m.declared["ax:b2s"] = true
	c.m.axioms = append(c.m.axioms,
		"(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (<= 0 n) (= (slen (bytes2str a o n)) n)) :pattern ((bytes2str a o n)))))",
		"(assert (forall ((a (Array Int Int)) (o Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n) (<= 0 (select a (+ o k))) (<= (select a (+ o k)) 255)) (= (sat (bytes2str a o n) k) (select a (+ o k)))) :pattern ((sat (bytes2str a o n) k)))))")
}

func (c *Ctx) i2fFacts(fn, lim string) {
	if c.m.declared["ax:"+fn] {
		return
	}
	c.m.declared["ax:"+fn] = true
	c.m.axioms = append(c.m.axioms,
		"(assert (forall ((n Int)) (! (and (=> (and (<= (- "+lim+") n) (<= n "+lim+")) (= ("+fn+" n) (to_real n))) (=> (< 0 n) (<= 1.0 ("+fn+" n))) (=> (< n 0) (<= ("+fn+" n) (- 1.0)))) :pattern (("+fn+" n)))))")
}

func within(v, lo, hi string) bool {
	return cmpDec(lo, v) <= 0 && cmpDec(v, hi) <= 0
}

func cmpDec(a, b string) int {
	x := constant.MakeFromLiteral(strings.TrimPrefix(a, "-"), token.INT, 0)
	if strings.HasPrefix(a, "-") {
		x = constant.UnaryOp(token.SUB, x, 0)
	}
	y := constant.MakeFromLiteral(strings.TrimPrefix(b, "-"), token.INT, 0)
	if strings.HasPrefix(b, "-") {
		y = constant.UnaryOp(token.SUB, y, 0)
	}
	if constant.Compare(x, token.LSS, y) {
		return -1
	}
	if constant.Compare(x, token.EQL, y) {
		return 0
	}
	return 1
}

func (c *Ctx) slice(fr *Frame, x *ssa.Slice, g T, st *State) {
	b := c.get(fr, st, x.X)
	lo := mkInt(0)
	if x.Low != nil {
		lo = c.term(fr, st, x.Low)
	}
	switch ut := x.X.Type().Underlying().(type) {
	case *types.Basic: // string
		n := app(sInt, "slen", b.t)
		hi := n
		if x.High != nil {
			hi = c.term(fr, st, x.High)
		}
		c.oblige("slice-bounds", g, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, n)), x.Pos(), "0 <= low <= high <= len")
		fr.env[x] = Val{t: c.define(x.Name(), app(sStr, "ssub", b.t, lo, hi))}
	case *types.Slice:
		hi := slLen(b.t)
		if x.High != nil {
			hi = c.term(fr, st, x.High)
		}
		mx := slCap(b.t)
		if x.Max != nil {
			mx = c.term(fr, st, x.Max)
		}
		c.oblige("slice-bounds", g, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, mx), mkLe(mx, slCap(b.t))), x.Pos(), "0 <= low <= high <= cap")
		fr.env[x] = Val{t: c.define(x.Name(), mkSlice(slArr(b.t), mkAdd(slOff(b.t), lo), mkSub(hi, lo), mkSub(mx, lo)))}
		c.assumeFacts(g, fr.env[x].t, x.Type(), st)
	case *types.Pointer:
		at := ut.Elem().Underlying().(*types.Array)
		n := mkInt(at.Len())
		hi := n
		if x.High != nil {
			hi = c.term(fr, st, x.High)
		}
		if b.place == nil || b.place.kind != pkElem {
			panic(unsupported("slice of array"))
		}
		c.oblige("slice-bounds", g, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, n)), x.Pos(), "0 <= low <= high <= len")
		fr.env[x] = Val{t: mkSlice(b.place.ref, lo, mkSub(hi, lo), mkSub(n, lo))}
	default:
		panic(unsupported("slice"))
	}
}

func (c *Ctx) lookup(fr *Frame, x *ssa.Lookup, g T, st *State) {
	mv := c.term(fr, st, x.X)
	k := c.term(fr, st, x.Index)
	if isString(x.X.Type()) {
		c.bounds(g, k, app(sInt, "slen", mv), x.Pos())
		fr.env[x] = Val{t: c.define(x.Name(), app(sInt, "sat", mv, k))}
		return
	}
	mt := x.X.Type().Underlying().(*types.Map)
	if isIface(mt.Key()) && !isIface(x.Index.Type()) {
		k = c.m.box(x.Index.Type(), k)
	}
	d, v, _ := c.compMap(mt)
	ks, vs := c.m.sortOf(mt.Key()), c.m.sortOf(mt.Elem())
	has := c.define("has", mkAnd(mkNot(mkEq(mv, mkInt(0))), mkSelect(mkSelect(c.heapTerm(st, d), mv, arrSort(ks, sBool)), k, sBool)))
	raw := mkSelect(mkSelect(c.heapTerm(st, v), mv, arrSort(ks, vs)), k, vs)
	val := c.define(x.Name(), mkIte(has, raw, c.m.zero(mt.Elem())))
	c.assumeFacts(g, val, mt.Elem(), st)
	if x.CommaOk {
		fr.env[x] = Val{tup: []Val{{t: val}, {t: has}}}
	} else {
		fr.env[x] = Val{t: val}
	}
}

func (c *Ctx) mapUpdate(fr *Frame, x *ssa.MapUpdate, g T, st *State) {
	mv := c.term(fr, st, x.Map)
	k := c.term(fr, st, x.Key)
	val := c.term(fr, st, x.Value)
	mt := x.Map.Type().Underlying().(*types.Map)
	c.oblige("nil-map", g, mkNot(mkEq(mv, mkInt(0))), x.Pos(), "assignment to entry of a non-nil map")
	c.mapSet(st, mt, mv, k, val)
}

func (c *Ctx) mapSet(st *State, mt *types.Map, mv, k, val T) {
	d, v, l := c.compMap(mt)
	ks, vs := c.m.sortOf(mt.Key()), c.m.sortOf(mt.Elem())
	dh, vh, lh := c.heapTerm(st, d), c.heapTerm(st, v), c.heapTerm(st, l)
	din := mkSelect(dh, mv, arrSort(ks, sBool))
	had := mkSelect(din, k, sBool)
	n := mkSelect(lh, mv, sInt)
	st.heap[l] = c.define("H_"+l, mkStore(lh, mv, mkIte(had, n, mkAdd(n, mkInt(1)))))
	st.heap[d] = c.define("H_"+d, mkStore(dh, mv, mkStore(din, k, tTrue)))
	st.heap[v] = c.define("H_"+v, mkStore(vh, mv, mkStore(mkSelect(vh, mv, arrSort(ks, vs)), k, val)))
}

func (c *Ctx) implFun(iface types.Type) string {
	f := "impl!" + sanitize(shortTypeKey(iface))
	c.m.fun(f, []string{sInt}, sBool)
	if !c.m.declared["need:"+f] {
		c.m.declared["need:"+f] = true
		c.m.axioms = append(c.m.axioms, fmt.Sprintf("(assert (not (%s 0)))", f))
		c.P.pendingImpl(c.m, f, iface)
	}
	return f
}

func (c *Ctx) typeAssert(fr *Frame, x *ssa.TypeAssert, g T, st *State) {
	v := c.term(fr, st, x.X)
	var ok, res T
	if isIface(x.AssertedType) {
		f := c.implFun(x.AssertedType)
		ok = app(sBool, f, c.m.typeOf(v))
		res = v
	} else {
		tag := c.m.tag(x.AssertedType)
		ok = mkEq(c.m.typeOf(v), mkInt(int64(tag)))
		res = c.m.unbox(x.AssertedType, v)
	}
	if x.CommaOk {
		ok = c.define("ok", ok)
		r := mkIte(ok, res, c.m.zero(x.AssertedType))
		r = c.define(x.Name(), r)
		c.assumeFacts(mkAnd(g, ok), r, x.AssertedType, st)
		fr.env[x] = Val{tup: []Val{{t: r}, {t: ok}}}
		return
	}
	c.oblige("type-assert", g, ok, x.Pos(), "dynamic type is "+x.AssertedType.String())
	r := c.define(x.Name(), res)
	c.assumeFacts(g, r, x.AssertedType, st)
	fr.env[x] = Val{t: r}
}

func (c *Ctx) rangeStart(fr *Frame, x *ssa.Range, g T, st *State) {
	key := fr.id + "iter:" + x.Name()
	it := &iterInfo{ikey: key}
	if isString(x.X.Type()) {
		it.isS = true
		it.str = c.term(fr, st, x.X)
		st.cells[key] = mkInt(0)
	} else {
		it.m = c.term(fr, st, x.X)
		it.mt = x.X.Type().Underlying().(*types.Map)
		ks := arrSort(c.m.sortOf(it.mt.Key()), sBool)
		st.cells[key] = c.define("visited", T{"((as const " + ks + ") false)", ks})
		d, _, _ := c.compMap(it.mt)
		it.dom = c.heapTerm(st, d)
	}
	fr.env[x] = Val{iter: it}
}

func (c *Ctx) next(fr *Frame, x *ssa.Next, g T, st *State) {
	it := c.get(fr, st, x.Iter).iter
	pos := st.cells[it.ikey]
	if it.isS {
		n := app(sInt, "slen", it.str)
		ok := c.define("ok", mkLt(pos, n))
		r := c.fresh("rune", sInt)
		np := c.fresh("pos", sInt)
		b := app(sInt, "sat", it.str, pos)
		c.assume(mkAnd(g, ok), mkAnd(mkLt(pos, np), mkLe(np, n), mkLe(np, mkAdd(pos, mkInt(4))), mkLe(mkInt(0), r), mkLe(r, mkInt(1114111))))
		c.assume(mkAnd(g, ok), mkImp(mkLt(b, mkInt(128)), mkAnd(mkEq(r, b), mkEq(np, mkAdd(pos, mkInt(1))))))
		c.assume(mkAnd(g, ok), mkImp(mkLe(mkInt(128), b), mkLe(mkInt(128), r)))
		fr.env[x] = Val{tup: []Val{{t: ok}, {t: pos}, {t: r}}}
		st.cells[it.ikey] = c.define("pos", mkIte(ok, np, pos))
		return
	}
	ok := c.fresh("ok", sBool)
	ks, vs := c.m.sortOf(it.mt.Key()), c.m.sortOf(it.mt.Elem())
	k, v := c.fresh("key", ks), c.fresh("val", vs)
	d, vc, _ := c.compMap(it.mt)
	// every entry is visited once, unless entries come or go during the iteration
	if c.heapTerm(st, d).s == it.dom.s {
		dom := mkSelect(it.dom, it.m, arrSort(ks, sBool))
		qk := T{"k!v", ks}
		body := mkImp(mkAnd(mkNot(mkEq(it.m, mkInt(0))), mkSelect(dom, qk, sBool)), mkSelect(pos, qk, sBool))
		c.assume(mkAnd(g, mkNot(ok)), T{fmt.Sprintf("(forall ((k!v %s)) (! %s :pattern (%s) :pattern (%s)))", ks, body.s, mkSelect(dom, qk, sBool).s, mkSelect(pos, qk, sBool).s), sBool})
		c.assume(mkAnd(g, ok), mkNot(mkSelect(pos, k, sBool)))
	}
	st.cells[it.ikey] = c.define("visited", mkIte(ok, mkStore(pos, k, tTrue), pos))
	c.assume(mkAnd(g, ok), mkAnd(mkNot(mkEq(it.m, mkInt(0))), mkSelect(mkSelect(c.heapTerm(st, d), it.m, arrSort(ks, sBool)), k, sBool),
		mkEq(v, mkSelect(mkSelect(c.heapTerm(st, vc), it.m, arrSort(ks, vs)), k, vs))))
	c.assumeFacts(g, k, it.mt.Key(), st)
	c.assumeFacts(g, v, it.mt.Elem(), st)
	fr.env[x] = Val{tup: []Val{{t: ok}, {t: k}, {t: v}}}
}
