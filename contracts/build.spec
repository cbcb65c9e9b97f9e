# Definitions and their scopes: internal/prs
package internal/prs

# Syntax trees of bodies, constants, types and instantiations, as the parser makes them.
function okBody(any) bool
axiom okBodyDef: forall b any :: {okBody(b)} typeis(b, ast.Body) && okBody(b) ==>
    (forall i :: {as(b, ast.Body).Props[i]} 0 <= i && i < len(as(b, ast.Body).Props) ==> as(b, ast.Body).Props[i].Value != nil && okAst(as(b, ast.Body).Props[i].Value)) &&
    (forall i :: {as(b, ast.Body).Consts[i]} 0 <= i && i < len(as(b, ast.Body).Consts) ==> as(b, ast.Body).Consts[i].Value != nil && okAst(as(b, ast.Body).Consts[i].Value)) &&
    (forall i :: {as(b, ast.Body).Types[i]} 0 <= i && i < len(as(b, ast.Body).Types) ==> okType(box(ast.Type, as(b, ast.Body).Types[i]))) &&
    (forall i :: {as(b, ast.Body).Insts[i]} 0 <= i && i < len(as(b, ast.Body).Insts) ==> okInst(box(ast.Inst, as(b, ast.Body).Insts[i])))
function okType(any) bool
axiom okTypeDef: forall t any :: {okType(t)} typeis(t, ast.Type) && okType(t) ==> okBody(box(ast.Body, as(t, ast.Type).Body)) && okAst(as(t, ast.Type).Count) &&
    (forall i :: {as(t, ast.Type).Params[i]} 0 <= i && i < len(as(t, ast.Type).Params) ==> okAst(as(t, ast.Type).Params[i].Value)) &&
    (forall i :: {as(t, ast.Type).Args.Args[i]} 0 <= i && i < len(as(t, ast.Type).Args.Args) ==> as(t, ast.Type).Args.Args[i].Value != nil && okAst(as(t, ast.Type).Args.Args[i].Value)) && parens(as(t, ast.Type).Args)
function okInst(any) bool
axiom okInstDef: forall t any :: {okInst(t)} typeis(t, ast.Inst) && okInst(t) ==> okBody(box(ast.Body, as(t, ast.Inst).Body)) && okAst(as(t, ast.Inst).Count) &&
    (forall i :: {as(t, ast.Inst).ArgList.Args[i]} 0 <= i && i < len(as(t, ast.Inst).ArgList.Args) ==> as(t, ast.Inst).ArgList.Args[i].Value != nil && okAst(as(t, ast.Inst).ArgList.Args[i].Value)) && parens(as(t, ast.Inst).ArgList)
define parens(l ast.ArgList) := l.LParen.position.path == l.RParen.position.path && l.LParen.position.start <= l.RParen.position.start

func internal/prs.(*symbol).setScope
  property C13
  requires sym != nil && sym.scope == nil
  modifies sym.scope
  ensures sym.scope == s

func internal/prs.(*symbol).setFile
  property C13
  requires s != nil && s.file == nil
  modifies s.file
  ensures s.file == f

func internal/prs.(*PropContainer).Add
  property C07
  requires pc != nil
  modifies *pc, elems(*pc)
  loop 0
    invariant forall k :: {(*pc)[k]} 0 <= k && k < $n ==> (*pc)[k].Name != prop.Name
  ensures result == !old(exists k :: {(*pc)[k]} 0 <= k && k < len(*pc) && (*pc)[k].Name == prop.Name)
  ensures result ==> len(*pc) == old(len(*pc)) + 1 && (*pc)[old(len(*pc))] == prop
  ensures !result ==> len(*pc) == old(len(*pc))
  ensures forall k :: {(*pc)[k]} 0 <= k && k < old(len(*pc)) ==> (*pc)[k] == old((*pc)[k])
  ensures cap(*pc) == old(cap(*pc)) && arr(*pc) == old(arr(*pc)) || fresh(*pc)

func internal/prs.PropContainer.Get
  property C07
  loop 0
    invariant forall k :: {pc[k]} 0 <= k && k < $n ==> pc[k].Name != name
  ensures result1 == exists k :: {pc[k]} 0 <= k && k < len(pc) && pc[k].Name == name
  ensures result1 ==> exists k :: {pc[k]} 0 <= k && k < len(pc) && pc[k].Name == name && pc[k] == result0

define sameConst(c *Const, a ast.Const, s any) := c != nil && c.name == txtOf(box(tok.Ident, a.Name)) && c.Value != nil && mirrors(a.Value, c.Value, s)
func internal/ast.Doc.Text
  trusted
  pure
invoke internal/ast.Expr.Tok
  trusted
  pure

func internal/prs.buildConsts
  property C13, C14, C17
  requires forall i :: {astConsts[i]} 0 <= i && i < len(astConsts) ==> astConsts[i].Value != nil && okAst(astConsts[i].Value)
  loop 0
    invariant len(consts) == $n && fresh(consts) && cache != nil && fresh(cache)
    invariant forall k :: {consts[k]} 0 <= k && k < $n ==> sameConst(consts[k], astConsts[k], scope) && fresh(consts[k]) && allocated(consts[k]) && consts[k].scope == nil && consts[k].file == nil && !consts[k].evaluating && consts[k].tok != nil
    invariant forall m string :: {has(cache, m)} has(cache, m) == exists k :: {consts[k]} 0 <= k && k < $n && consts[k].name == m
    invariant forall m string :: {cache[m]} has(cache, m) ==> cache[m] != nil && cache[m].tok != nil && fresh(cache[m]) && allocated(cache[m])
    invariant forall i, j :: {consts[i], consts[j]} 0 <= i && i < j && j < $n ==> consts[i].name != consts[j].name
  ensures result1 == nil ==> len(result0) == len(astConsts) && fresh(result0)
  ensures result1 == nil ==> forall k :: {result0[k]} 0 <= k && k < len(result0) ==> sameConst(result0[k], astConsts[k], scope) && fresh(result0[k]) && result0[k].scope == nil && result0[k].file == nil && !result0[k].evaluating
  ensures result1 == nil ==> forall i, j :: {result0[i], result0[j]} 0 <= i && i < j && j < len(result0) ==> result0[i].name != result0[j].name && result0[i] != result0[j]

# the definitions inside of a type or instantiation are looked up there
define ownScope(sc symbolContainer, s any) := allocated(sc.Consts) && allocated(sc.Insts) && allocated(sc.Types) &&
    (forall k :: {sc.Consts[k]} 0 <= k && k < len(sc.Consts) ==> sc.Consts[k].scope == s && allocated(sc.Consts[k])) &&
    (forall k :: {sc.Insts[k]} 0 <= k && k < len(sc.Insts) ==> sc.Insts[k].scope == s && allocated(sc.Insts[k])) &&
    (forall k :: {sc.Types[k]} 0 <= k && k < len(sc.Types) ==> sc.Types[k].scope == s && allocated(sc.Types[k]))
define distinctNames(sc symbolContainer) :=
    (forall i, j :: {sc.Consts[i], sc.Consts[j]} 0 <= i && i < j && j < len(sc.Consts) ==> sc.Consts[i].name != sc.Consts[j].name && sc.Consts[i] != sc.Consts[j]) &&
    (forall i, j :: {sc.Insts[i], sc.Insts[j]} 0 <= i && i < j && j < len(sc.Insts) ==> sc.Insts[i].name != sc.Insts[j].name && sc.Insts[i] != sc.Insts[j]) &&
    (forall i, j :: {sc.Types[i], sc.Types[j]} 0 <= i && i < j && j < len(sc.Types) ==> sc.Types[i].name != sc.Types[j].name && sc.Types[i] != sc.Types[j])
define distinctProps(pc PropContainer) := forall i, j :: {pc[i], pc[j]} 0 <= i && i < j && j < len(pc) ==> pc[i].Name != pc[j].Name

define newConst(c *Const) := fresh(c) && c.scope == nil && c.file == nil && !c.evaluating
define newInst(c *Inst) := (len(c.Insts) == 0 || fresh(c.Insts)) && fresh(c) && c.scope == nil && c.file == nil && c.tok != nil
define newType(c *Type) := (len(c.Types) == 0 || fresh(c.Types)) && fresh(c) && c.scope == nil && c.file == nil && c.tok != nil
define namedInst(i *Inst, a ast.Inst) := i.name == txtOf(box(tok.Ident, a.Name)) && i.typ == txtOf(a.Type) && mirrors(a.Count, i.count, box(*Inst, i)) && (i.count == nil) == (a.Count == nil)
define sameInst(i *Inst, a ast.Inst) := i != nil && namedInst(i, a) &&
    ownScope(i.symbolContainer, box(*Inst, i)) && distinctNames(i.symbolContainer) && wfSyms(i.symbolContainer) && distinctProps(i.props) && allocated(i.props)
define namedType(t *Type, a ast.Type) := t.name == txtOf(box(tok.Ident, a.Name)) && t.typ == txtOf(a.Type) && mirrors(a.Count, t.count, box(*Type, t)) && (t.count == nil) == (a.Count == nil)
define sameType(t *Type, a ast.Type) := t != nil && namedType(t, a) &&
    ownScope(t.symbolContainer, box(*Type, t)) && distinctNames(t.symbolContainer) && wfSyms(t.symbolContainer) && distinctProps(t.props) && allocated(t.props)

func internal/prs.buildBody
  property C07, C13, C14
  requires okBody(box(ast.Body, astBody))
  loop 0
    invariant len(pc) == $n && fresh(pc) && distinctProps(pc) && sc == pre(sc)
    invariant forall k :: {pc[k]} 0 <= k && k < $n ==> pc[k].Name == txtOf(astBody.Props[k].Name)
    invariant forall k :: {pc[k]} 0 <= k && k < $n ==> mirrors(astBody.Props[k].Value, pc[k].Value, scope)
    invariant forall k :: {pc[k]} 0 <= k && k < $n ==> pc[k].Value != nil
  loop 1
    invariant len(sc.Consts) == $n && (cap(sc.Consts) == 0 || fresh(sc.Consts)) && len(sc.Insts) == 0 && cap(sc.Insts) == 0 && len(sc.Types) == 0 && cap(sc.Types) == 0
    invariant forall k :: {sc.Consts[k]} 0 <= k && k < $n ==> sc.Consts[k] == consts[k]
  loop 2
    invariant len(sc.Consts) == len(consts) && len(sc.Types) == $n && (cap(sc.Types) == 0 || fresh(sc.Types)) && len(sc.Insts) == 0 && cap(sc.Insts) == 0
    invariant forall k :: {sc.Consts[k]} 0 <= k && k < len(consts) ==> sc.Consts[k] == consts[k]
    invariant forall k :: {sc.Types[k]} 0 <= k && k < $n ==> sc.Types[k] == types[k]
  loop 3
    invariant len(sc.Consts) == len(consts) && len(sc.Types) == len(types) && len(sc.Insts) == $n && (cap(sc.Insts) == 0 || fresh(sc.Insts))
    invariant forall k :: {sc.Consts[k]} 0 <= k && k < len(consts) ==> sc.Consts[k] == consts[k]
    invariant forall k :: {sc.Types[k]} 0 <= k && k < len(types) ==> sc.Types[k] == types[k]
    invariant forall k :: {sc.Insts[k]} 0 <= k && k < $n ==> sc.Insts[k] == insts[k]
  ensures result2 == nil ==> distinctProps(result0) && len(result0) == len(astBody.Props) && forall k :: {result0[k]} 0 <= k && k < len(result0) ==> result0[k].Name == txtOf(astBody.Props[k].Name) && mirrors(astBody.Props[k].Value, result0[k].Value, scope) && result0[k].Value != nil
  ensures result2 == nil ==> (len(result1.Insts) == 0 || fresh(result1.Insts)) && (len(result1.Types) == 0 || fresh(result1.Types))
  ensures result2 == nil ==> wfSyms(result1) && distinctNames(result1) && len(result1.Consts) == len(astBody.Consts) && len(result1.Types) == len(astBody.Types) && len(result1.Insts) == len(astBody.Insts)
  ensures result2 == nil ==> forall k :: {result1.Consts[k]} 0 <= k && k < len(result1.Consts) ==> newConst(result1.Consts[k]) && sameConst(result1.Consts[k], astBody.Consts[k], scope)
  ensures result2 == nil ==> forall k :: {result1.Types[k]} 0 <= k && k < len(result1.Types) ==> newType(result1.Types[k]) && sameType(result1.Types[k], astBody.Types[k])
  ensures result2 == nil ==> forall k :: {result1.Insts[k]} 0 <= k && k < len(result1.Insts) ==> newInst(result1.Insts[k]) && sameInst(result1.Insts[k], astBody.Insts[k])

func internal/prs.buildInsts
  property C13, C14
  requires forall i :: {astInsts[i]} 0 <= i && i < len(astInsts) ==> okInst(box(ast.Inst, astInsts[i]))
  loop 0
    invariant len(insts) == $n && fresh(insts) && cache != nil && fresh(cache)
    invariant forall k :: {insts[k]} 0 <= k && k < $n ==> insts[k] != nil && newInst(insts[k]) && allocated(insts[k]) && insts[k].tok != nil
    invariant forall k :: {insts[k]} 0 <= k && k < $n ==> namedInst(insts[k], astInsts[k])
    invariant forall k, m, l :: {insts[k].Consts[m], insts[k].Consts[l]} 0 <= k && k < $n && 0 <= m && m < l && l < len(insts[k].Consts) ==> insts[k].Consts[m].name != insts[k].Consts[l].name && insts[k].Consts[m] != insts[k].Consts[l]
    invariant forall k, m, l :: {insts[k].Insts[m], insts[k].Insts[l]} 0 <= k && k < $n && 0 <= m && m < l && l < len(insts[k].Insts) ==> insts[k].Insts[m].name != insts[k].Insts[l].name && insts[k].Insts[m] != insts[k].Insts[l]
    invariant forall k, m, l :: {insts[k].Types[m], insts[k].Types[l]} 0 <= k && k < $n && 0 <= m && m < l && l < len(insts[k].Types) ==> insts[k].Types[m].name != insts[k].Types[l].name && insts[k].Types[m] != insts[k].Types[l]
    invariant forall k :: {insts[k]} 0 <= k && k < $n ==> wfSyms(insts[k].symbolContainer)
    invariant forall k :: {insts[k]} 0 <= k && k < $n ==> distinctProps(insts[k].props) && allocated(insts[k].props)
    invariant forall k :: {insts[k]} 0 <= k && k < $n ==> len(insts[k].Insts) == 0 || arr(insts[k].Insts) != arr(insts)
    invariant forall k :: {insts[k]} 0 <= k && k < $n ==> allocated(insts[k].Consts) && allocated(insts[k].Insts) && allocated(insts[k].Types)
    invariant forall k, m :: {insts[k].Consts[m]} 0 <= k && k < $n && 0 <= m && m < len(insts[k].Consts) ==> allocated(insts[k].Consts[m])
    invariant forall k, m :: {insts[k].Consts[m]} 0 <= k && k < $n && 0 <= m && m < len(insts[k].Consts) ==> insts[k].Consts[m].scope == box(*Inst, insts[k])
    invariant forall k, m :: {insts[k].Insts[m]} 0 <= k && k < $n && 0 <= m && m < len(insts[k].Insts) ==> allocated(insts[k].Insts[m])
    invariant forall k, m :: {insts[k].Insts[m]} 0 <= k && k < $n && 0 <= m && m < len(insts[k].Insts) ==> insts[k].Insts[m].scope == box(*Inst, insts[k])
    invariant forall k, m :: {insts[k].Types[m]} 0 <= k && k < $n && 0 <= m && m < len(insts[k].Types) ==> allocated(insts[k].Types[m])
    invariant forall k, m :: {insts[k].Types[m]} 0 <= k && k < $n && 0 <= m && m < len(insts[k].Types) ==> insts[k].Types[m].scope == box(*Inst, insts[k])
    invariant forall m string :: {has(cache, m)} has(cache, m) == exists k :: {insts[k]} 0 <= k && k < $n && insts[k].name == m
    invariant forall m string :: {cache[m]} has(cache, m) ==> cache[m] != nil && cache[m].tok != nil && fresh(cache[m]) && allocated(cache[m])
    invariant forall i, j :: {insts[i], insts[j]} 0 <= i && i < j && j < $n ==> insts[i].name != insts[j].name
  ensures result1 == nil ==> len(result0) == len(astInsts) && fresh(result0)
  ensures result1 == nil ==> forall k :: {result0[k]} 0 <= k && k < len(result0) ==> sameInst(result0[k], astInsts[k]) && newInst(result0[k])
  ensures result1 == nil ==> forall i, j :: {result0[i], result0[j]} 0 <= i && i < j && j < len(result0) ==> result0[i].name != result0[j].name && result0[i] != result0[j]

func internal/prs.buildTypes
  property C13, C14
  requires forall i :: {astTypes[i]} 0 <= i && i < len(astTypes) ==> okType(box(ast.Type, astTypes[i]))
  loop 0
    invariant len(types) == $n && fresh(types) && cache != nil && fresh(cache)
    invariant forall k :: {types[k]} 0 <= k && k < $n ==> types[k] != nil && newType(types[k]) && allocated(types[k]) && types[k].tok != nil
    invariant forall k :: {types[k]} 0 <= k && k < $n ==> namedType(types[k], astTypes[k])
    invariant forall k, m, l :: {types[k].Consts[m], types[k].Consts[l]} 0 <= k && k < $n && 0 <= m && m < l && l < len(types[k].Consts) ==> types[k].Consts[m].name != types[k].Consts[l].name && types[k].Consts[m] != types[k].Consts[l]
    invariant forall k, m, l :: {types[k].Insts[m], types[k].Insts[l]} 0 <= k && k < $n && 0 <= m && m < l && l < len(types[k].Insts) ==> types[k].Insts[m].name != types[k].Insts[l].name && types[k].Insts[m] != types[k].Insts[l]
    invariant forall k, m, l :: {types[k].Types[m], types[k].Types[l]} 0 <= k && k < $n && 0 <= m && m < l && l < len(types[k].Types) ==> types[k].Types[m].name != types[k].Types[l].name && types[k].Types[m] != types[k].Types[l]
    invariant forall k :: {types[k]} 0 <= k && k < $n ==> wfSyms(types[k].symbolContainer)
    invariant forall k :: {types[k]} 0 <= k && k < $n ==> distinctProps(types[k].props) && allocated(types[k].props)
    invariant forall k :: {types[k]} 0 <= k && k < $n ==> len(types[k].Types) == 0 || arr(types[k].Types) != arr(types)
    invariant forall k :: {types[k]} 0 <= k && k < $n ==> allocated(types[k].Consts) && allocated(types[k].Insts) && allocated(types[k].Types)
    invariant forall k, m :: {types[k].Consts[m]} 0 <= k && k < $n && 0 <= m && m < len(types[k].Consts) ==> allocated(types[k].Consts[m])
    invariant forall k, m :: {types[k].Consts[m]} 0 <= k && k < $n && 0 <= m && m < len(types[k].Consts) ==> types[k].Consts[m].scope == box(*Type, types[k])
    invariant forall k, m :: {types[k].Insts[m]} 0 <= k && k < $n && 0 <= m && m < len(types[k].Insts) ==> allocated(types[k].Insts[m])
    invariant forall k, m :: {types[k].Insts[m]} 0 <= k && k < $n && 0 <= m && m < len(types[k].Insts) ==> types[k].Insts[m].scope == box(*Type, types[k])
    invariant forall k, m :: {types[k].Types[m]} 0 <= k && k < $n && 0 <= m && m < len(types[k].Types) ==> allocated(types[k].Types[m])
    invariant forall k, m :: {types[k].Types[m]} 0 <= k && k < $n && 0 <= m && m < len(types[k].Types) ==> types[k].Types[m].scope == box(*Type, types[k])
    invariant forall m string :: {has(cache, m)} has(cache, m) == exists k :: {types[k]} 0 <= k && k < $n && types[k].name == m
    invariant forall m string :: {cache[m]} has(cache, m) ==> cache[m] != nil && cache[m].tok != nil && fresh(cache[m]) && allocated(cache[m])
    invariant forall i, j :: {types[i], types[j]} 0 <= i && i < j && j < $n ==> types[i].name != types[j].name
  ensures result1 == nil ==> len(result0) == len(astTypes) && fresh(result0)
  ensures result1 == nil ==> forall k :: {result0[k]} 0 <= k && k < len(result0) ==> sameType(result0[k], astTypes[k]) && newType(result0[k])
  ensures result1 == nil ==> forall i, j :: {result0[i], result0[j]} 0 <= i && i < j && j < len(result0) ==> result0[i].name != result0[j].name && result0[i] != result0[j]

func internal/prs.buildInst
  property C13, C14, C15
  requires okInst(box(ast.Inst, ai))
  loop 1
    invariant i.symbol == pre(i.symbol)
    invariant forall k :: {syms.Consts[k]} 0 <= k && k < $n ==> syms.Consts[k].scope == box(*Inst, i)
    invariant forall k :: {syms.Consts[k]} $n <= k && k < len(syms.Consts) ==> syms.Consts[k].scope == nil
  loop 2
    invariant i.symbol == pre(i.symbol)
    invariant forall k :: {syms.Insts[k]} 0 <= k && k < $n ==> syms.Insts[k].scope == box(*Inst, i)
    invariant forall k :: {syms.Insts[k]} $n <= k && k < len(syms.Insts) ==> syms.Insts[k].scope == nil
    invariant forall k :: {syms.Consts[k]} 0 <= k && k < len(syms.Consts) ==> syms.Consts[k].scope == box(*Inst, i)
  loop 3
    invariant i.symbol == pre(i.symbol)
    invariant forall k :: {syms.Types[k]} 0 <= k && k < $n ==> syms.Types[k].scope == box(*Inst, i)
    invariant forall k :: {syms.Types[k]} $n <= k && k < len(syms.Types) ==> syms.Types[k].scope == nil
    invariant forall k :: {syms.Consts[k]} 0 <= k && k < len(syms.Consts) ==> syms.Consts[k].scope == box(*Inst, i)
    invariant forall k :: {syms.Insts[k]} 0 <= k && k < len(syms.Insts) ==> syms.Insts[k].scope == box(*Inst, i)
  ensures result1 == nil ==> result0 != nil && newInst(result0)
  ensures result1 == nil ==> namedInst(result0, ai)
  ensures result1 == nil ==> distinctNames(result0.symbolContainer)
  ensures result1 == nil ==> wfSyms(result0.symbolContainer)
  ensures result1 == nil ==> distinctProps(result0.props) && allocated(result0.props)
  ensures result1 == nil ==> ownScope(result0.symbolContainer, box(*Inst, result0))

func internal/prs.buildType
  property C13, C14, C15
  requires okType(box(ast.Type, at))
  loop 1
    invariant t.symbol == pre(t.symbol)
    invariant forall k :: {syms.Consts[k]} 0 <= k && k < $n ==> syms.Consts[k].scope == box(*Type, t)
    invariant forall k :: {syms.Consts[k]} $n <= k && k < len(syms.Consts) ==> syms.Consts[k].scope == nil
  loop 2
    invariant t.symbol == pre(t.symbol)
    invariant forall k :: {syms.Insts[k]} 0 <= k && k < $n ==> syms.Insts[k].scope == box(*Type, t)
    invariant forall k :: {syms.Insts[k]} $n <= k && k < len(syms.Insts) ==> syms.Insts[k].scope == nil
    invariant forall k :: {syms.Consts[k]} 0 <= k && k < len(syms.Consts) ==> syms.Consts[k].scope == box(*Type, t)
  loop 3
    invariant t.symbol == pre(t.symbol)
    invariant forall k :: {syms.Types[k]} 0 <= k && k < $n ==> syms.Types[k].scope == box(*Type, t)
    invariant forall k :: {syms.Types[k]} $n <= k && k < len(syms.Types) ==> syms.Types[k].scope == nil
    invariant forall k :: {syms.Consts[k]} 0 <= k && k < len(syms.Consts) ==> syms.Consts[k].scope == box(*Type, t)
    invariant forall k :: {syms.Insts[k]} 0 <= k && k < len(syms.Insts) ==> syms.Insts[k].scope == box(*Type, t)
  ensures result1 == nil ==> result0 != nil && newType(result0)
  ensures result1 == nil ==> namedType(result0, at)
  ensures result1 == nil ==> distinctNames(result0.symbolContainer)
  ensures result1 == nil ==> wfSyms(result0.symbolContainer)
  ensures result1 == nil ==> distinctProps(result0.props) && allocated(result0.props)
  ensures result1 == nil ==> ownScope(result0.symbolContainer, box(*Type, result0))

func internal/prs.checkPropConflict
  property C07
  given forall k :: {props[k]} 0 <= k && k < len(props) ==> props[k].NameTok != nil
  ensures (result == nil) == !(prop.Name == "range" && hasProp(props, "width") || prop.Name == "width" && hasProp(props, "range"))
define hasProp(pc PropContainer, n string) := exists k :: {pc[k]} 0 <= k && k < len(pc) && pc[k].Name == n
