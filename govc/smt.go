package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// T is an SMT term together with its sort.
type T struct {
	s  string
	so string
}

const (
	sInt   = "Int"
	sBool  = "Bool"
	sReal  = "Real"
	sStr   = "Str"
	sAny   = "Any"
	sSlice = "Slice"
)

var tTrue = T{"true", sBool}
var tFalse = T{"false", sBool}

func mkInt(n int64) T { return mkIntS(strconv.FormatInt(n, 10)) }
func mkIntS(s string) T {
	if strings.HasPrefix(s, "-") {
		return T{"(- " + s[1:] + ")", sInt}
	}
	return T{s, sInt}
}

// litInt returns the value of an integer literal term.
func litInt(t T) (int64, bool) {
	s := t.s
	neg := false
	if strings.HasPrefix(s, "(- ") && strings.HasSuffix(s, ")") {
		s = s[3 : len(s)-1]
		neg = true
	}
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return 0, false
	}
	if neg {
		v = -v
	}
	return v, true
}

func app(so string, op string, args ...T) T {
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(op)
	for _, a := range args {
		b.WriteByte(' ')
		b.WriteString(a.s)
	}
	b.WriteByte(')')
	return T{b.String(), so}
}

func mkNot(a T) T {
	if a.s == "true" {
		return tFalse
	}
	if a.s == "false" {
		return tTrue
	}
	if strings.HasPrefix(a.s, "(not ") {
		return T{a.s[5 : len(a.s)-1], sBool}
	}
	return app(sBool, "not", a)
}

func mkAnd(as ...T) T {
	var xs []T
	for _, a := range as {
		if a.s == "true" {
			continue
		}
		if a.s == "false" {
			return tFalse
		}
		xs = append(xs, a)
	}
	if len(xs) == 0 {
		return tTrue
	}
	if len(xs) == 1 {
		return xs[0]
	}
	return app(sBool, "and", xs...)
}

func mkOr(as ...T) T {
	var xs []T
	for _, a := range as {
		if a.s == "false" {
			continue
		}
		if a.s == "true" {
			return tTrue
		}
		xs = append(xs, a)
	}
	if len(xs) == 0 {
		return tFalse
	}
	if len(xs) == 1 {
		return xs[0]
	}
	return app(sBool, "or", xs...)
}

func mkImp(a, b T) T {
	if a.s == "true" {
		return b
	}
	if a.s == "false" || b.s == "true" {
		return tTrue
	}
	if b.s == "false" {
		return mkNot(a)
	}
	return app(sBool, "=>", a, b)
}

func mkEq(a, b T) T {
	if a.s == b.s {
		return tTrue
	}
	if a.so == sInt {
		if x, ok := litInt(a); ok {
			if y, ok := litInt(b); ok {
				if x == y {
					return tTrue
				}
				return tFalse
			}
		}
	}
	if a.so == sBool {
		if a.s == "true" {
			return b
		}
		if b.s == "true" {
			return a
		}
		if a.s == "false" {
			return mkNot(b)
		}
		if b.s == "false" {
			return mkNot(a)
		}
	}
	return app(sBool, "=", a, b)
}

func mkIte(c, a, b T) T {
	if c.s == "true" || a.s == b.s {
		return a
	}
	if c.s == "false" {
		return b
	}
	return app(a.so, "ite", c, a, b)
}

func mkCmp(op string, a, b T) T {
	if a.so == sInt {
		if x, ok := litInt(a); ok {
			if y, ok := litInt(b); ok {
				r := false
				switch op {
				case "<":
					r = x < y
				case "<=":
					r = x <= y
				case ">":
					r = x > y
				case ">=":
					r = x >= y
				}
				if r {
					return tTrue
				}
				return tFalse
			}
		}
	}
	return app(sBool, op, a, b)
}
func mkLt(a, b T) T { return mkCmp("<", a, b) }
func mkLe(a, b T) T { return mkCmp("<=", a, b) }

func mkAdd(a, b T) T {
	if x, ok := litInt(a); ok {
		if y, ok := litInt(b); ok {
			return mkInt(x + y)
		}
		if x == 0 {
			return b
		}
	}
	if y, ok := litInt(b); ok && y == 0 {
		return a
	}
	return app(a.so, "+", a, b)
}
func mkSub(a, b T) T {
	if x, ok := litInt(a); ok {
		if y, ok := litInt(b); ok {
			return mkInt(x - y)
		}
	}
	if y, ok := litInt(b); ok && y == 0 {
		return a
	}
	return app(a.so, "-", a, b)
}
func mkMul(a, b T) T {
	if x, ok := litInt(a); ok && x == 1 {
		return b
	}
	if y, ok := litInt(b); ok && y == 1 {
		return a
	}
	return app(a.so, "*", a, b)
}

func mkSelect(arr, idx T, so string) T { return app(so, "select", arr, idx) }
func mkStore(arr, idx, v T) T          { return app(arr.so, "store", arr, idx, v) }

func arrSort(dom, rng string) string { return "(Array " + dom + " " + rng + ")" }

// Slice accessors
func slArr(s T) T { return slField(s, 0, "s-arr") }

// slOff is zero for every slice value which is not syntactically a subslice:
// slices held in variables, fields, parameters and results start at the
// beginning of their backing array (enforced by normSlice).
func slOff(s T) T {
	if strings.HasPrefix(s.s, "(mk-slice ") {
		return slField(s, 1, "s-off")
	}
	return mkInt(0)
}
func slLen(s T) T { return slField(s, 2, "s-len") }
func slCap(s T) T { return slField(s, 3, "s-cap") }

func slField(s T, i int, sel string) T {
	if strings.HasPrefix(s.s, "(mk-slice ") {
		args := splitSexp(s.s[1 : len(s.s)-1])
		if len(args) == 5 {
			return T{args[i+1], sInt}
		}
	}
	return app(sInt, sel, s)
}
func mkSlice(arr, off, ln, cp T) T { return app(sSlice, "mk-slice", arr, off, ln, cp) }

// splitSexp splits the contents of a list s-expression at top level.
func splitSexp(s string) []string {
	var out []string
	depth := 0
	start := -1
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch c {
		case '(':
			if depth == 0 && start < 0 {
				start = i
			}
			depth++
		case ')':
			depth--
			if depth == 0 {
				out = append(out, s[start:i+1])
				start = -1
			}
		case ' ', '\n', '\t':
			if depth == 0 && start >= 0 {
				out = append(out, s[start:i])
				start = -1
			}
		default:
			if start < 0 {
				start = i
			}
		}
	}
	if start >= 0 {
		out = append(out, s[start:])
	}
	return out
}

// Model holds the SMT vocabulary shared by one function's verification.
type Model struct {
	decls    []string // datatype, sort and function declarations
	structs  map[string]*types.Struct
	structDT map[string]types.Type
	declared map[string]bool
	strLits  map[string]string
	strOrder []string
	tags     map[string]int
	tagTypes []types.Type
	axioms   []string
	nbox     int
	impls    map[string]types.Type
}

func newModel() *Model {
	m := &Model{
		structs:  map[string]*types.Struct{},
		structDT: map[string]types.Type{},
		declared: map[string]bool{},
		strLits:  map[string]string{},
		tags:     map[string]int{},
		impls:    map[string]types.Type{},
	}
	m.decls = append(m.decls,
		"(declare-sort Str 0)",
		"(declare-sort Any 0)",
		"(declare-datatypes ((Slice 0)) (((mk-slice (s-arr Int) (s-off Int) (s-len Int) (s-cap Int)))))",
		"(declare-fun slen (Str) Int)",
		"(declare-fun sat (Str Int) Int)",
		"(declare-fun sconcat (Str Str) Str)",
		"(declare-fun ssub (Str Int Int) Str)",
		"(declare-fun typeOf (Any) Int)",
		"(declare-const nilany Any)",
		"(declare-fun pow2 (Int) Int)",
	)
	m.axioms = append(m.axioms,
		"(assert (forall ((s Str)) (! (>= (slen s) 0) :pattern ((slen s)))))",
		"(assert (forall ((s Str) (i Int)) (! (and (<= 0 (sat s i)) (<= (sat s i) 255)) :pattern ((sat s i)))))",
		"(assert (forall ((a Str) (b Str)) (! (= (slen (sconcat a b)) (+ (slen a) (slen b))) :pattern ((sconcat a b)))))",
		"(assert (forall ((a Str) (b Str) (i Int)) (! (=> (and (<= 0 i) (< i (+ (slen a) (slen b)))) (= (sat (sconcat a b) i) (ite (< i (slen a)) (sat a i) (sat b (- i (slen a)))))) :pattern ((sat (sconcat a b) i)))))",
		"(assert (forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s))) (= (slen (ssub s i j)) (- j i))) :pattern ((ssub s i j)))))",
		"(assert (forall ((s Str) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s)) (<= 0 k) (< k (- j i))) (= (sat (ssub s i j) k) (sat s (+ i k)))) :pattern ((sat (ssub s i j) k)))))",
		"(assert (= (typeOf nilany) 0))",
		"(assert (forall ((a Any)) (! (=> (= (typeOf a) 0) (= a nilany)) :pattern ((typeOf a)))))",
	)
	return m
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '$':
			b.WriteRune(r)
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func shortTypeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if q, ok := pkgPlain[p.Name()]; ok && q != p.Path() {
			return "std_" + strings.ReplaceAll(p.Path(), "/", "_")
		}
		return p.Name()
	})
}

var pkgPlain map[string]string // package name: path of the package which is denoted by the plain name

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// sortOf returns the SMT sort which represents values of Go type t.
func (m *Model) sortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return sBool
		case u.Info()&types.IsInteger != 0:
			return sInt
		case u.Info()&types.IsFloat != 0:
			return sReal
		case u.Info()&types.IsString != 0:
			return sStr
		case u.Kind() == types.UntypedNil:
			return sInt
		case u.Kind() == types.UnsafePointer:
			return sInt
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return sInt
	case *types.Slice:
		return sSlice
	case *types.Interface:
		return sAny
	case *types.Array:
		return arrSort(sInt, m.sortOf(u.Elem()))
	case *types.Struct:
		return m.structSort(t, u)
	}
	panic(unsupported(fmt.Sprintf("type %s", t)))
}

func (m *Model) structName(t types.Type) string {
	return "S_" + sanitize(shortTypeKey(t))
}

func (m *Model) structSort(t types.Type, u *types.Struct) string {
	name := m.structName(t)
	if len(name) > 80 {
		h := 0
		for _, c := range name {
			h = (h*31 + int(c)) & 0xffffff
		}
		name = fmt.Sprintf("S_anon%x", h)
	}
	if _, ok := m.structs[name]; ok {
		return name
	}
	m.structs[name] = u
	m.structDT[name] = t
	var fs []string
	for i := 0; i < u.NumFields(); i++ {
		so := m.sortOf(u.Field(i).Type())
		fs = append(fs, fmt.Sprintf("(%s %s)", m.selName(name, u, i), so))
	}
	if len(fs) == 0 {
		m.decls = append(m.decls, fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk-%s))))", name, name))
	} else {
		m.decls = append(m.decls, fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk-%s %s))))", name, name, strings.Join(fs, " ")))
	}
	return name
}

func (m *Model) selName(sort string, u *types.Struct, i int) string {
	return fmt.Sprintf("%s.%s", sort, sanitize(u.Field(i).Name()))
}

// getField selects field i of struct term s of type t.
func (m *Model) getField(s T, t types.Type, i int) T {
	u := t.Underlying().(*types.Struct)
	so := m.sortOf(t)
	fso := m.sortOf(u.Field(i).Type())
	pre := "(mk-" + so + " "
	if strings.HasPrefix(s.s, pre) {
		args := splitSexp(s.s[1 : len(s.s)-1])
		if len(args) == u.NumFields()+1 {
			return T{args[i+1], fso}
		}
	}
	return app(fso, m.selName(so, u, i), s)
}

// setField returns s with field i replaced.
func (m *Model) setField(s T, t types.Type, i int, v T) T {
	u := t.Underlying().(*types.Struct)
	so := m.sortOf(t)
	var args []T
	for k := 0; k < u.NumFields(); k++ {
		if k == i {
			args = append(args, v)
		} else {
			args = append(args, m.getField(s, t, k))
		}
	}
	return app(so, "mk-"+so, args...)
}

func (m *Model) zero(t types.Type) T {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsFloat != 0:
			return T{"0.0", sReal}
		case u.Info()&types.IsString != 0:
			return m.strLit("")
		}
		return mkInt(0)
	case *types.Slice:
		return mkSlice(mkInt(0), mkInt(0), mkInt(0), mkInt(0))
	case *types.Interface:
		return T{"nilany", sAny}
	case *types.Array:
		es := m.zero(u.Elem())
		so := m.sortOf(t)
		return T{"((as const " + so + ") " + es.s + ")", so}
	case *types.Struct:
		so := m.sortOf(t)
		if u.NumFields() == 0 {
			return T{"mk-" + so, so}
		}
		var args []T
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, m.zero(u.Field(i).Type()))
		}
		return app(so, "mk-"+so, args...)
	}
	return mkInt(0)
}

// strLit returns the constant which stands for a string literal.
func (m *Model) strLit(s string) T {
	if n, ok := m.strLits[s]; ok {
		return T{n, sStr}
	}
	n := fmt.Sprintf("str!%d", len(m.strLits))
	m.strLits[s] = n
	m.strOrder = append(m.strOrder, s)
	return T{n, sStr}
}

func (m *Model) strDecls() []string {
	var out []string
	for _, s := range m.strOrder {
		n := m.strLits[s]
		out = append(out, fmt.Sprintf("(declare-const %s Str) ; %q", n, s))
		out = append(out, fmt.Sprintf("(assert (= (slen %s) %d))", n, len(s)))
		for i := 0; i < len(s) && i < 24; i++ {
			out = append(out, fmt.Sprintf("(assert (= (sat %s %d) %d))", n, i, s[i]))
		}
		if s == "" {
			out = append(out, fmt.Sprintf("(assert (forall ((s Str)) (! (=> (= (slen s) 0) (= s %s)) :pattern ((slen s)))))", n))
		} else if len(s) <= 24 {
			// extensionality instance: a string with these bytes is this literal
			var cs []string
			for i := 0; i < len(s); i++ {
				cs = append(cs, fmt.Sprintf("(= (sat s %d) %d)", i, s[i]))
			}
			out = append(out, fmt.Sprintf("(assert (forall ((s Str)) (! (=> (and (= (slen s) %d) %s) (= s %s)) :pattern ((slen s)))))", len(s), strings.Join(cs, " "), n))
		}
	}
	if len(m.strOrder) > 1 {
		var ns []string
		for _, s := range m.strOrder {
			ns = append(ns, m.strLits[s])
		}
		out = append(out, "(assert (distinct "+strings.Join(ns, " ")+"))")
	}
	return out
}

// tag returns the dynamic type tag of a concrete type.
func (m *Model) tag(t types.Type) int {
	k := typeKey(t)
	if n, ok := m.tags[k]; ok {
		return n
	}
	n := len(m.tags) + 1
	m.tags[k] = n
	m.tagTypes = append(m.tagTypes, t)
	so := m.sortOf(t)
	m.decls = append(m.decls,
		fmt.Sprintf("(declare-fun box!%d (%s) Any) ; %s", n, so, k),
		fmt.Sprintf("(declare-fun unbox!%d (Any) %s)", n, so))
	m.axioms = append(m.axioms,
		fmt.Sprintf("(assert (forall ((x %s)) (! (and (= (typeOf (box!%d x)) %d) (= (unbox!%d (box!%d x)) x)) :pattern ((box!%d x)))))", so, n, n, n, n, n),
		fmt.Sprintf("(assert (forall ((a Any)) (! (=> (= (typeOf a) %d) (= (box!%d (unbox!%d a)) a)) :pattern ((unbox!%d a)))))", n, n, n, n))
	return n
}

func (m *Model) box(t types.Type, v T) T {
	n := m.tag(t)
	return app(sAny, fmt.Sprintf("box!%d", n), v)
}
func (m *Model) unbox(t types.Type, a T) T {
	n := m.tag(t)
	return app(m.sortOf(t), fmt.Sprintf("unbox!%d", n), a)
}
func (m *Model) typeOf(a T) T { return app(sInt, "typeOf", a) }

// fun declares an uninterpreted function once.
func (m *Model) fun(name string, args []string, res string) {
	if m.declared[name] {
		return
	}
	m.declared[name] = true
	m.decls = append(m.decls, fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(args, " "), res))
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

type unsupportedErr struct{ msg string }

func (e unsupportedErr) Error() string { return "unsupported: " + e.msg }
func unsupported(msg string) unsupportedErr {
	return unsupportedErr{msg}
}
