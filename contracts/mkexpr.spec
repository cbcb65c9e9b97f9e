# Expressions keep the meaning of their syntax tree: internal/prs
package internal/prs

# okAst: syntax tree of the parser
function okAst(any) bool
axiom okAstDef: forall a any :: {okAst(a)} okAst(a) ==>
    typeis(a, ast.BinaryExpr) && okAst(as(a, ast.BinaryExpr).X) && okAst(as(a, ast.BinaryExpr).Y) && as(a, ast.BinaryExpr).X != nil && as(a, ast.BinaryExpr).Y != nil ||
    typeis(a, ast.UnaryExpr) && okAst(as(a, ast.UnaryExpr).X) && as(a, ast.UnaryExpr).X != nil ||
    typeis(a, ast.ParenExpr) && okAst(as(a, ast.ParenExpr).X) && as(a, ast.ParenExpr).X != nil ||
    typeis(a, ast.List) && okAll(a) || typeis(a, ast.Call) && okAll(a) ||
    typeis(a, ast.String) && len(txtOf(box(tok.String, as(a, ast.String).X))) >= 2 ||
    typeis(a, ast.BitString) && len(txtOf(box(tok.BitString, as(a, ast.BitString).X))) >= 3 ||
    typeis(a, ast.Ident) || typeis(a, ast.QualIdent) || typeis(a, ast.Int) || typeis(a, ast.Bool) || typeis(a, ast.Float) || typeis(a, ast.Time) || a == nil
# all the elements of a list or arguments of a call
function okAll(any) bool
axiom okAllList: forall a any :: {okAll(a)} typeis(a, ast.List) && okAll(a) ==> forall i :: {as(a, ast.List).Xs[i]} 0 <= i && i < len(as(a, ast.List).Xs) ==> as(a, ast.List).Xs[i] != nil && okAst(as(a, ast.List).Xs[i])
axiom okAllCall: forall a any :: {okAll(a)} typeis(a, ast.Call) && okAll(a) ==> forall i :: {as(a, ast.Call).Args[i]} 0 <= i && i < len(as(a, ast.Call).Args) ==> as(a, ast.Call).Args[i] != nil && okAst(as(a, ast.Call).Args[i])

# Of lists and calls only the number of elements is stated here, MakeList and MakeCall state the elements.
# mirrors(a, e, s): the expression e says what the syntax tree a says, its names are looked for in the scope s
function mirrors(any, any, any) bool
axiom mirNil: forall a any, e any, s any :: {mirrors(a, e, s)} a == nil && e == nil ==> mirrors(a, e, s)
axiom mirBin: forall a any, e any, s any :: {mirrors(a, e, s)} typeis(a, ast.BinaryExpr) && typeis(e, BinaryExpr) && as(e, BinaryExpr).op == as(a, ast.BinaryExpr).Op && as(e, BinaryExpr).ast == as(a, ast.BinaryExpr) &&
    mirrors(as(a, ast.BinaryExpr).X, as(e, BinaryExpr).x, s) && mirrors(as(a, ast.BinaryExpr).Y, as(e, BinaryExpr).y, s) ==> mirrors(a, e, s)
axiom mirUn: forall a any, e any, s any :: {mirrors(a, e, s)} typeis(a, ast.UnaryExpr) && typeis(e, UnaryExpr) && signOf(txtOf(as(a, ast.UnaryExpr).Op), as(e, UnaryExpr).op) && mirrors(as(a, ast.UnaryExpr).X, as(e, UnaryExpr).x, s) ==> mirrors(a, e, s)
define signOf(t string, op int) := t == "+" && op == 0 || t == "-" && op == 1
axiom mirParen: forall a any, e any, s any :: {mirrors(a, e, s)} typeis(a, ast.ParenExpr) && mirrors(as(a, ast.ParenExpr).X, e, s) ==> mirrors(a, e, s)
axiom mirIdent: forall a any, e any, s any :: {mirrors(a, e, s)} typeis(a, ast.Ident) && typeis(e, DeclaredIdentifier) && as(e, DeclaredIdentifier).x == txtOf(as(a, ast.Ident).Name) && as(e, DeclaredIdentifier).s == s ==> mirrors(a, e, s)
axiom mirQual: forall a any, e any, s any :: {mirrors(a, e, s)} typeis(a, ast.QualIdent) && typeis(e, QualifiedIdentifier) && as(e, QualifiedIdentifier).x == txtOf(as(a, ast.QualIdent).Name) && as(e, QualifiedIdentifier).s == s ==> mirrors(a, e, s)
axiom mirInt: forall a any, e any, s any :: {mirrors(a, e, s)} typeis(a, ast.Int) && typeis(e, Int) && isNum(txtOf(box(tok.Int, as(a, ast.Int).X)), 0, 64) && as(e, Int).x == numVal(txtOf(box(tok.Int, as(a, ast.Int).X)), 0) ==> mirrors(a, e, s)
axiom mirBool: forall a any, e any, s any :: {mirrors(a, e, s)} typeis(a, ast.Bool) && typeis(e, Bool) && as(e, Bool).x == (txtOf(box(tok.Bool, as(a, ast.Bool).X)) == "true") ==> mirrors(a, e, s)
axiom mirFloat: forall a any, e any, s any :: {mirrors(a, e, s)} typeis(a, ast.Float) && typeis(e, Float) && isFloatLit(txtOf(box(tok.Float, as(a, ast.Float).X)), box(float64, as(e, Float).x)) ==> mirrors(a, e, s)
axiom mirString: forall a any, e any, s any :: {mirrors(a, e, s)} typeis(a, ast.String) && typeis(e, String) && as(e, String).x == txtOf(box(tok.String, as(a, ast.String).X))[1:len(txtOf(box(tok.String, as(a, ast.String).X))) - 1] ==> mirrors(a, e, s)
axiom mirBitStr: forall a any, e any, s any :: {mirrors(a, e, s)} typeis(a, ast.BitString) && typeis(e, BitString) && sameLit(as(e, BitString).x, txtOf(box(tok.BitString, as(a, ast.BitString).X))) && as(e, BitString).x[0] == lower(txtOf(box(tok.BitString, as(a, ast.BitString).X))[0]) ==> mirrors(a, e, s)
axiom mirTime: forall a any, e any, s any :: {mirrors(a, e, s)} typeis(a, ast.Time) && typeis(e, Time) && isNum(wordOf(txtOf(box(tok.Time, as(a, ast.Time).X)), 0), 10, 64) && as(e, Time).v.x == numVal(wordOf(txtOf(box(tok.Time, as(a, ast.Time).X)), 0), 10) && as(e, Time).unit == wordOf(txtOf(box(tok.Time, as(a, ast.Time).X)), 1) ==> mirrors(a, e, s)
axiom mirList: forall a any, e any, s any :: {mirrors(a, e, s)} typeis(a, ast.List) && typeis(e, List) && len(as(e, List).exprs) == len(as(a, ast.List).Xs) ==> mirrors(a, e, s)
axiom mirCall: forall a any, e any, s any :: {mirrors(a, e, s)} typeis(a, ast.Call) && typeis(e, Call) && as(e, Call).funcName == txtOf(box(tok.Ident, as(a, ast.Call).Name)) && len(as(e, Call).args) == len(as(a, ast.Call).Args) ==> mirrors(a, e, s)

function isFloatLit(string, any) bool
func strconv.ParseFloat
  trusted
  ensures result1 == nil ==> isFloatLit(s, box(float64, result0))

func internal/prs.MakeExpr
  property C10, C11, C13
  requires okAst(astExpr)
  ensures result1 == nil ==> mirrors(astExpr, result0, s) && ((result0 == nil) == (astExpr == nil))
  ensures result1 == nil && typeis(astExpr, ast.List) ==> forall i :: {as(result0, List).exprs[i]} 0 <= i && i < len(as(astExpr, ast.List).Xs) ==> as(result0, List).exprs[i] != nil && mirrors(as(astExpr, ast.List).Xs[i], as(result0, List).exprs[i], s)
  ensures result1 == nil && typeis(astExpr, ast.Call) ==> mirrors(as(astExpr, ast.Call).Args[0], as(result0, Call).args[0], s)

func internal/prs.MakeBinaryExpr
  property C10, C11, C13
  requires okAst(box(ast.BinaryExpr, be))
  ensures result1 == nil ==> mirrors(box(ast.BinaryExpr, be), box(BinaryExpr, result0), s) && result0.x != nil && result0.y != nil && result0.op == be.Op && result0.ast == be

func internal/prs.MakeUnaryExpr
  property C10, C11, C13
  requires okAst(box(ast.UnaryExpr, e))
  ensures result1 == nil ==> mirrors(box(ast.UnaryExpr, e), box(UnaryExpr, result0), s) && result0.x != nil && (result0.op == 0 || result0.op == 1)

func internal/prs.MakeList
  property C10, C11, C13, C17
  requires okAst(box(ast.List, el))
  loop 0
    invariant len(exprs) == $n && fresh(exprs)
    invariant forall i :: {exprs[i]} 0 <= i && i < $n ==> mirrors(el.Xs[i], exprs[i], s) && exprs[i] != nil
  ensures result1 == nil ==> mirrors(box(ast.List, el), box(List, result0), s)
  ensures result1 == nil ==> len(result0.exprs) == len(el.Xs) && forall i :: {result0.exprs[i]} 0 <= i && i < len(el.Xs) ==> result0.exprs[i] != nil && mirrors(el.Xs[i], result0.exprs[i], s)

func internal/prs.MakeCall
  property C10, C11, C13
  requires okAst(box(ast.Call, e))
  loop 0
    invariant len(c.args) == $n && fresh(c.args) && c.funcName == txtOf(box(tok.Ident, e.Name))
    invariant forall i :: {c.args[i]} 0 <= i && i < $n ==> mirrors(e.Args[i], c.args[i], s) && c.args[i] != nil
  ensures result1 == nil ==> mirrors(box(ast.Call, e), box(Call, result0), s)
  ensures result1 == nil ==> len(result0.args) == len(e.Args) && mirrors(e.Args[0], result0.args[0], s)
  ensures result1 == nil ==> len(result0.args) == 1 && result0.args[0] != nil && (result0.funcName == "bool" || result0.funcName == "ceil" || result0.funcName == "floor" || result0.funcName == "log2" || result0.funcName == "log10")

func internal/prs.MakeInt
  property C10
  ensures (result1 == nil) == isNum(txtOf(box(tok.Int, e.X)), 0, 64)
  ensures result1 == nil ==> result0.x == numVal(txtOf(box(tok.Int, e.X)), 0)
func internal/prs.MakeBool
  property C10, C17
  ensures result.x == (txtOf(box(tok.Bool, e.X)) == "true")
func internal/prs.MakeFloat
  property C10, C17
  ensures result1 == nil ==> isFloatLit(txtOf(box(tok.Float, e.X)), box(float64, result0.x))
func internal/prs.MakeString
  property C10, C17
  requires len(txtOf(box(tok.String, e.X))) >= 2
  ensures result.x == txtOf(box(tok.String, e.X))[1:len(txtOf(box(tok.String, e.X))) - 1]
func internal/prs.MakeBitString
  property C08, C10
  requires len(txtOf(box(tok.BitString, e.X))) >= 3
  ensures result1 == nil ==> sameLit(result0.x, txtOf(box(tok.BitString, e.X))) && result0.x[0] == lower(txtOf(box(tok.BitString, e.X))[0])
func internal/prs.MakeDeclaredIdentifier
  property C13
  ensures result.x == txtOf(e.Name) && result.s == s
func internal/prs.MakeQualifiedIdentifier
  property C13
  ensures result.x == txtOf(e.Name) && result.s == s

# A constant has the value of its expression, a definition which needs itself is refused.
func internal/prs.(*Const).eval
  property C10, C13, C17
  requires c != nil && c.Value != nil
  modifies c.evaluating
  ensures (result1 == nil) == (!old(c.evaluating) && evok(c.Value))
  ensures result1 == nil ==> result0 == ev(c.Value)
  ensures c.evaluating == old(c.evaluating)

# A name has the value of the constant which its scope gives for it.
func internal/prs.DeclaredIdentifier.Eval
  property C10, C13
  given di.s != nil && (scopeDefConst(di.s, di.x) ==> ptr(Const, scopeConst(di.s, di.x)).Value != nil)
  modifies any Const.evaluating
  ensures result1 == nil ==> scopeDefConst(di.s, di.x) && result0 == ev(ptr(Const, scopeConst(di.s, di.x)).Value)
  ensures scopeDefConst(di.s, di.x) && !old(ptr(Const, scopeConst(di.s, di.x)).evaluating) && evok(ptr(Const, scopeConst(di.s, di.x)).Value) ==> result1 == nil
func internal/prs.QualifiedIdentifier.Eval
  property C10, C13
  given qi.s != nil && (scopeDefConst(qi.s, qi.x) ==> ptr(Const, scopeConst(qi.s, qi.x)).Value != nil)
  modifies any Const.evaluating
  ensures result1 == nil ==> scopeDefConst(qi.s, qi.x) && result0 == ev(ptr(Const, scopeConst(qi.s, qi.x)).Value)
  ensures scopeDefConst(qi.s, qi.x) && !old(ptr(Const, scopeConst(qi.s, qi.x)).evaluating) && evok(ptr(Const, scopeConst(qi.s, qi.x)).Value) ==> result1 == nil
