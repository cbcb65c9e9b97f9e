package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the code base under verification together with its contracts.
type Program struct {
	prog   *ssa.Program
	fset   *token.FileSet
	root   string
	module string
	pkgs   []*types.Package // packages of the repository
	byPath map[string]*types.Package
	fns    map[string]*ssa.Function

	contracts  map[string]*Contract
	conOrder   []string
	macros     map[string]*Macro
	funcs      map[string]*FuncDecl
	sums       map[string]*Macro
	usedSums   map[string]bool
	ghosts     []*GhostDecl
	axioms     []*Axiom
	lemmas     map[string]*Lemma
	lemOrder   []string
	usedLemmas map[string]bool
	reach      map[*ssa.Function]map[*ssa.Function]bool
	cellCache  map[*ssa.Alloc]bool
	implCache  map[string][]types.Type
	errType    types.Type
}

func loadProgram(root string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: root,
		Env: os.Environ(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	module := ""
	for _, p := range pkgs {
		if p.Module != nil {
			module = p.Module.Path
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading %s: %s", root, strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", root)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.GlobalDebug|ssa.BareInits)
	P := &Program{
		prog: prog, root: root, module: module, fset: pkgs[0].Fset,
		byPath: map[string]*types.Package{}, fns: map[string]*ssa.Function{},
		contracts: map[string]*Contract{}, macros: map[string]*Macro{}, funcs: map[string]*FuncDecl{}, sums: map[string]*Macro{}, usedSums: map[string]bool{},
		lemmas: map[string]*Lemma{}, usedLemmas: map[string]bool{}, cellCache: map[*ssa.Alloc]bool{},
		implCache: map[string][]types.Type{},
	}
	for _, sp := range prog.AllPackages() {
		P.byPath[sp.Pkg.Path()] = sp.Pkg
		if sp.Pkg.Path() == module || strings.HasPrefix(sp.Pkg.Path(), module+"/") {
			sp.Build()
			P.pkgs = append(P.pkgs, sp.Pkg)
		}
	}
	sort.Slice(P.pkgs, func(i, j int) bool { return P.pkgs[i].Path() < P.pkgs[j].Path() })
	// packages with the same name are told apart by their paths; the first package of the repository keeps the plain name
	pkgPlain = map[string]string{}
	for _, tp := range P.pkgs {
		if _, ok := pkgPlain[tp.Name()]; !ok {
			pkgPlain[tp.Name()] = tp.Path()
		}
	}
	for _, path := range sortedKeys(P.byPath) {
		n := P.byPath[path].Name()
		if _, ok := pkgPlain[n]; !ok {
			pkgPlain[n] = path
		}
	}
	for _, tp := range P.pkgs {
		sp := prog.Package(tp)
		for _, name := range sortedKeys(sp.Members) {
			switch m := sp.Members[name].(type) {
			case *ssa.Function:
				P.addFn(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							P.addFn(f)
						}
					}
				}
			}
		}
	}
	if ep := P.byPath["errors"]; ep != nil {
		if o := ep.Scope().Lookup("errorString"); o != nil {
			P.errType = types.NewPointer(o.Type())
		}
	}
	return P, nil
}

func (P *Program) addFn(f *ssa.Function) {
	P.fns[P.funcKey(f)] = f
	for _, a := range f.AnonFuncs {
		P.addFn(a)
	}
}

func (P *Program) pos(p token.Pos) string {
	if p == token.NoPos {
		return ""
	}
	q := P.fset.Position(p)
	if r, err := filepath.Rel(P.root, q.Filename); err == nil {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func (P *Program) inRepo(f *ssa.Function) bool {
	var tp *types.Package
	switch {
	case f.Pkg != nil:
		tp = f.Pkg.Pkg
	case f.Object() != nil:
		tp = f.Object().Pkg()
	}
	if tp == nil {
		return f.Synthetic != ""
	}
	return tp.Path() == P.module || strings.HasPrefix(tp.Path(), P.module+"/")
}

// funcKey names a function the way contracts do.
func (P *Program) funcKey(f *ssa.Function) string {
	s := f.RelString(nil)
	if f.Signature.Recv() != nil && f.Object() != nil {
		rt := f.Signature.Recv().Type()
		ptr := false
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
			ptr = true
		}
		if n, ok := rt.(*types.Named); ok && n.Obj().Pkg() != nil {
			tn := n.Obj().Name()
			if ptr {
				tn = "(*" + tn + ")"
			}
			s = n.Obj().Pkg().Path() + "." + tn + "." + f.Name()
		}
	} else if f.Parent() != nil {
		s = P.funcKey(f.Parent()) + strings.TrimPrefix(f.Name(), f.Parent().Name())
	}
	return strings.TrimPrefix(s, P.module+"/")
}

func (P *Program) contractFor(f *ssa.Function) *Contract {
	return P.contracts[P.funcKey(f)]
}

func (P *Program) invokeKey(cc *ssa.CallCommon) string {
	k := types.TypeString(cc.Value.Type(), func(p *types.Package) string { return p.Path() })
	return strings.TrimPrefix(k, P.module+"/") + "." + cc.Method.Name()
}

func (P *Program) pkgByRel(rel string) *types.Package {
	return P.byPath[P.module+"/"+rel]
}

func (P *Program) pkgByName(name string, from *types.Package) *types.Package {
	if from != nil {
		if from.Name() == name {
			return from
		}
		for _, i := range from.Imports() {
			if i.Name() == name {
				return i
			}
		}
	}
	for _, p := range P.pkgs {
		if p.Name() == name {
			return p
		}
	}
	return nil
}

func (P *Program) lookupType(name string, pkg *types.Package) types.Type {
	switch {
	case strings.HasPrefix(name, "*"):
		return types.NewPointer(P.lookupType(name[1:], pkg))
	case strings.HasPrefix(name, "[]"):
		return types.NewSlice(P.lookupType(name[2:], pkg))
	case strings.HasPrefix(name, "map["):
		k := strings.Index(name, "]")
		return types.NewMap(P.lookupType(name[4:k], pkg), P.lookupType(name[k+1:], pkg))
	}
	if k := strings.Index(name, "."); k > 0 {
		p := P.pkgByName(name[:k], pkg)
		if p != nil {
			if o, ok := p.Scope().Lookup(name[k+1:]).(*types.TypeName); ok {
				return o.Type()
			}
		}
		panic(specErr("unknown type " + name))
	}
	if pkg != nil {
		if o, ok := pkg.Scope().Lookup(name).(*types.TypeName); ok {
			return o.Type()
		}
	}
	if o, ok := types.Universe.Lookup(name).(*types.TypeName); ok {
		return o.Type()
	}
	panic(specErr("unknown type " + name))
}

func (P *Program) lookupGlobal(name string, pkg *types.Package) (types.Type, string) {
	p := pkg
	n := name
	if k := strings.Index(name, "."); k > 0 {
		p = P.pkgByName(name[:k], pkg)
		n = name[k+1:]
	}
	if p != nil {
		if v, ok := p.Scope().Lookup(n).(*types.Var); ok {
			return v.Type(), p.Path()
		}
	}
	panic(specErr("unknown global " + name))
}

func (P *Program) globalVar(pkgname, name string, pkg *types.Package) (types.Object, bool) {
	p := pkg
	if pkgname != "" {
		p = P.pkgByName(pkgname, pkg)
	}
	if p == nil {
		return nil, false
	}
	switch o := p.Scope().Lookup(name).(type) {
	case *types.Var:
		return o, true
	case *types.Const:
		return o, true
	}
	return nil, false
}

func (P *Program) constVal(pkgname, name string, pkg *types.Package) (*types.Const, bool) {
	o, ok := P.globalVar(pkgname, name, pkg)
	if !ok {
		return nil, false
	}
	k, ok := o.(*types.Const)
	return k, ok
}

// implementers lists the concrete types of the repository which implement an interface.
func (P *Program) implementers(it types.Type) []types.Type {
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := typeKey(it)
	if ts, ok := P.implCache[key]; ok {
		return ts
	}
	var out []types.Type
	for _, p := range P.pkgs {
		for _, n := range p.Scope().Names() {
			o, ok := p.Scope().Lookup(n).(*types.TypeName)
			if !ok || o.IsAlias() || types.IsInterface(o.Type()) {
				continue
			}
			if types.Implements(o.Type(), iface) {
				out = append(out, o.Type())
			}
			if pt := types.NewPointer(o.Type()); types.Implements(pt, iface) {
				out = append(out, pt)
			}
		}
	}
	P.implCache[key] = out
	return out
}

// pendingImpl remembers that facts about which dynamic types implement iface are needed.
func (P *Program) pendingImpl(m *Model, f string, iface types.Type) {
	m.impls[f] = iface
}

func (m *Model) implFacts() []string {
	var out []string
	for _, f := range sortedKeys(m.impls) {
		it := m.impls[f].Underlying().(*types.Interface)
		for i, t := range m.tagTypes {
			r := fmt.Sprintf("(%s %d)", f, i+1)
			if !types.Implements(t, it) {
				r = "(not " + r + ")"
			}
			out = append(out, "(assert "+r+")")
		}
	}
	return out
}

func (P *Program) errTag(m *Model) int {
	return m.tag(P.errType)
}
