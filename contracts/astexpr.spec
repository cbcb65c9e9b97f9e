# Expressions are built according to operator precedence: internal/tok, internal/ast
package internal/ast

# documented precedence of the operators, the contracts of the Precedence methods below
function prec(any) int
axiom precAdd: forall x any :: {prec(x)} typeis(x, tok.Add) ==> prec(x) == 4
axiom precSub: forall x any :: {prec(x)} typeis(x, tok.Sub) ==> prec(x) == 4
axiom precMul: forall x any :: {prec(x)} typeis(x, tok.Mul) ==> prec(x) == 5
axiom precDiv: forall x any :: {prec(x)} typeis(x, tok.Div) ==> prec(x) == 5
axiom precRem: forall x any :: {prec(x)} typeis(x, tok.Rem) ==> prec(x) == 5
axiom precExp: forall x any :: {prec(x)} typeis(x, tok.Exp) ==> prec(x) == 6
axiom precEq: forall x any :: {prec(x)} typeis(x, tok.Eq) ==> prec(x) == 3
axiom precNeq: forall x any :: {prec(x)} typeis(x, tok.Neq) ==> prec(x) == 3
axiom precLess: forall x any :: {prec(x)} typeis(x, tok.Less) ==> prec(x) == 3
axiom precLessEq: forall x any :: {prec(x)} typeis(x, tok.LessEq) ==> prec(x) == 3
axiom precGreater: forall x any :: {prec(x)} typeis(x, tok.Greater) ==> prec(x) == 3
axiom precGreaterEq: forall x any :: {prec(x)} typeis(x, tok.GreaterEq) ==> prec(x) == 3
axiom precAnd: forall x any :: {prec(x)} typeis(x, tok.And) ==> prec(x) == 2
axiom precOr: forall x any :: {prec(x)} typeis(x, tok.Or) ==> prec(x) == 1
axiom precLShift: forall x any :: {prec(x)} typeis(x, tok.LShift) ==> prec(x) == 5
axiom precRShift: forall x any :: {prec(x)} typeis(x, tok.RShift) ==> prec(x) == 5
axiom precBitAnd: forall x any :: {prec(x)} typeis(x, tok.BitAnd) ==> prec(x) == 5
axiom precBitOr: forall x any :: {prec(x)} typeis(x, tok.BitOr) ==> prec(x) == 4
axiom precXor: forall x any :: {prec(x)} typeis(x, tok.Xor) ==> prec(x) == 4
axiom precColon: forall x any :: {prec(x)} typeis(x, tok.Colon) ==> prec(x) == 0
func internal/tok.Add.Precedence
  property C11
  ensures result == 4
func internal/tok.Sub.Precedence
  property C11
  ensures result == 4
func internal/tok.Mul.Precedence
  property C11
  ensures result == 5
func internal/tok.Div.Precedence
  property C11
  ensures result == 5
func internal/tok.Rem.Precedence
  property C11
  ensures result == 5
func internal/tok.Exp.Precedence
  property C11
  ensures result == 6
func internal/tok.Eq.Precedence
  property C11
  ensures result == 3
func internal/tok.Neq.Precedence
  property C11
  ensures result == 3
func internal/tok.Less.Precedence
  property C11
  ensures result == 3
func internal/tok.LessEq.Precedence
  property C11
  ensures result == 3
func internal/tok.Greater.Precedence
  property C11
  ensures result == 3
func internal/tok.GreaterEq.Precedence
  property C11
  ensures result == 3
func internal/tok.And.Precedence
  property C11
  ensures result == 2
func internal/tok.Or.Precedence
  property C11
  ensures result == 1
func internal/tok.LShift.Precedence
  property C11
  ensures result == 5
func internal/tok.RShift.Precedence
  property C11
  ensures result == 5
func internal/tok.BitAnd.Precedence
  property C11
  ensures result == 5
func internal/tok.BitOr.Precedence
  property C11
  ensures result == 4
func internal/tok.Xor.Precedence
  property C11
  ensures result == 4
func internal/tok.Colon.Precedence
  property C11
  ensures result == 0
axiom precMin: forall x any :: {prec(x)} prec(x) >= 0 && prec(x) <= 6
invoke internal/tok.Operator.Precedence
  property C11
  pure
  ensures result == prec(recv)

# The trees which group operators by precedence, equal ones from left to right.
# rmin: the weakest operator which an operator on the right side could steal the last operand from
# lmin: the weakest operator which an operator on the left side could steal the first operand from
function wg(any) bool
function rmin(any) int
function lmin(any) int
axiom wgBin: forall e any :: {wg(e)} typeis(e, BinaryExpr) ==> wg(e) == (wg(as(e, BinaryExpr).X) && wg(as(e, BinaryExpr).Y) && rmin(as(e, BinaryExpr).X) >= prec(as(e, BinaryExpr).Op) && lmin(as(e, BinaryExpr).Y) > prec(as(e, BinaryExpr).Op))
axiom rminBin: forall e any :: {rmin(e)} typeis(e, BinaryExpr) ==> rmin(e) == min(prec(as(e, BinaryExpr).Op), rmin(as(e, BinaryExpr).Y))
axiom lminBin: forall e any :: {lmin(e)} typeis(e, BinaryExpr) ==> lmin(e) == min(prec(as(e, BinaryExpr).Op), lmin(as(e, BinaryExpr).X))
axiom wgUn: forall e any :: {wg(e)} typeis(e, UnaryExpr) ==> wg(e) == (wg(as(e, UnaryExpr).X) && lmin(as(e, UnaryExpr).X) > 4)
axiom rminUn: forall e any :: {rmin(e)} typeis(e, UnaryExpr) ==> rmin(e) == min(4, rmin(as(e, UnaryExpr).X))
axiom lminUn: forall e any :: {lmin(e)} typeis(e, UnaryExpr) ==> lmin(e) == 7
axiom wgParen: forall e any :: {wg(e)} typeis(e, ParenExpr) ==> wg(e) == wg(as(e, ParenExpr).X)
axiom rminAtom: forall e any :: {rmin(e)} !typeis(e, BinaryExpr) && !typeis(e, UnaryExpr) ==> rmin(e) == 7
axiom lminAtom: forall e any :: {lmin(e)} !typeis(e, BinaryExpr) && !typeis(e, UnaryExpr) ==> lmin(e) == 7
axiom wgAtom: forall e any :: {wg(e)} !typeis(e, BinaryExpr) && !typeis(e, UnaryExpr) && !typeis(e, ParenExpr) ==> wg(e)

# span(e, s, t): the text of the expression is exactly the tokens s .. t-1 of the source, tokAt(i) is token i of the source.
# Of lists and calls only the outer tokens are stated here, their elements are results of buildExpr.
function tokAt(int) any
function span(any, int, int) bool
axiom spanBin: forall e any, s int, m int, t int :: {span(e, s, t), span(as(e, BinaryExpr).X, s, m)} typeis(e, BinaryExpr) && span(as(e, BinaryExpr).X, s, m) && tokAt(m) == as(e, BinaryExpr).Op && span(as(e, BinaryExpr).Y, m + 1, t) ==> span(e, s, t)
axiom spanUn: forall e any, s int, t int :: {span(e, s, t)} typeis(e, UnaryExpr) && tokAt(s) == as(e, UnaryExpr).Op && span(as(e, UnaryExpr).X, s + 1, t) ==> span(e, s, t)
axiom spanParen: forall e any, s int, t int :: {span(e, s, t)} typeis(e, ParenExpr) && tokAt(s) == box(tok.LParen, as(e, ParenExpr).LParen) && span(as(e, ParenExpr).X, s + 1, t - 1) && tokAt(t - 1) == box(tok.RParen, as(e, ParenExpr).RParen) ==> span(e, s, t)
axiom spanList: forall e any, s int, t int :: {span(e, s, t)} typeis(e, List) && tokAt(s) == box(tok.LBracket, as(e, List).LBracket) && tokAt(t - 1) == box(tok.RBracket, as(e, List).RBracket) ==> span(e, s, t)
axiom spanCall: forall e any, s int, t int :: {span(e, s, t)} typeis(e, Call) && tokAt(s) == box(tok.Ident, as(e, Call).Name) && typeis(tokAt(s + 1), tok.LParen) && typeis(tokAt(t - 1), tok.RParen) ==> span(e, s, t)
axiom spanIdent: forall e any, s int, t int :: {span(e, s, t)} typeis(e, Ident) && t == s + 1 && tokAt(s) == as(e, Ident).Name ==> span(e, s, t)
axiom spanQual: forall e any, s int, t int :: {span(e, s, t)} typeis(e, QualIdent) && t == s + 1 && tokAt(s) == as(e, QualIdent).Name ==> span(e, s, t)
axiom spanBool: forall e any, s int, t int :: {span(e, s, t)} typeis(e, Bool) && t == s + 1 && tokAt(s) == box(tok.Bool, as(e, Bool).X) ==> span(e, s, t)
axiom spanInt: forall e any, s int, t int :: {span(e, s, t)} typeis(e, Int) && t == s + 1 && tokAt(s) == box(tok.Int, as(e, Int).X) ==> span(e, s, t)
axiom spanFloat: forall e any, s int, t int :: {span(e, s, t)} typeis(e, Float) && t == s + 1 && tokAt(s) == box(tok.Float, as(e, Float).X) ==> span(e, s, t)
axiom spanString: forall e any, s int, t int :: {span(e, s, t)} typeis(e, String) && t == s + 1 && tokAt(s) == box(tok.String, as(e, String).X) ==> span(e, s, t)
axiom spanTime: forall e any, s int, t int :: {span(e, s, t)} typeis(e, Time) && t == s + 1 && tokAt(s) == box(tok.Time, as(e, Time).X) ==> span(e, s, t)
axiom spanBitString: forall e any, s int, t int :: {span(e, s, t)} typeis(e, BitString) && t == s + 1 && tokAt(s) == box(tok.BitString, as(e, BitString).X) ==> span(e, s, t)

# the token cursor: the last token is the end of file
define wf(ctx) := ctx != nil && 0 <= ctx.idx && ctx.idx < len(ctx.toks) && typeis(ctx.toks[len(ctx.toks) - 1], tok.Eof) && (forall i :: {ctx.toks[i]} 0 <= i && i < len(ctx.toks) ==> ctx.toks[i] != nil && ctx.toks[i] == tokAt(i) && inText(ctx.toks[i]) && pathOf(ctx.toks[i]) == pathOf(ctx.toks[0]) && srcOf(ctx.toks[i]) == srcOf(ctx.toks[0])) && (forall i, j :: {ctx.toks[i], ctx.toks[j]} 0 <= i && j == i + 1 && j < len(ctx.toks) ==> startOf(ctx.toks[i]) <= startOf(ctx.toks[j]))
define cur(ctx) := ctx.toks[ctx.idx]
define curOp(ctx) := isa(ctx.toks[ctx.idx], tok.Operator)

func internal/ast.context.tok
  property C11 C18
  requires 0 <= ctx.idx && ctx.idx < len(ctx.toks)
  ensures result == ctx.toks[ctx.idx]
func internal/ast.context.nextTok
  property C11 C18
  requires 0 <= ctx.idx && ctx.idx + 1 < len(ctx.toks)
  ensures result == ctx.toks[ctx.idx + 1]
func internal/ast.unexpected
  property C11 C18
  requires inText(t)
  ensures posErr(result)

func internal/ast.buildExpr
  property C11 C18
  decreases len(ctx.toks) - ctx.idx, 1
  requires wf(ctx)
  modifies ctx.idx
  loop 0
    invariant wf(ctx) && ctx.idx > old(ctx.idx) && expr != nil && wg(expr) && span(expr, old(ctx.idx), ctx.idx)
    invariant leftOp != nil ==> lmin(expr) > prec(leftOp)
    invariant curOp(ctx) ==> prec(cur(ctx)) <= rmin(expr)
    decreases len(ctx.toks) - ctx.idx
  end
  ensures wf(ctx) && ctx.idx >= old(ctx.idx)
  ensures result1 == nil ==> ctx.idx > old(ctx.idx) && result0 != nil && wg(result0) && span(result0, old(ctx.idx), ctx.idx)
  ensures result1 == nil && leftOp != nil ==> lmin(result0) > prec(leftOp)
  ensures result1 == nil && curOp(ctx) ==> leftOp != nil && prec(cur(ctx)) <= prec(leftOp) && prec(cur(ctx)) <= rmin(result0)
  ensures result1 != nil ==> posErr(result1)
func internal/ast.buildIdent
  property C11 C18
  requires wf(ctx) && typeis(cur(ctx), tok.Ident)
  modifies ctx.idx
  ensures wf(ctx) && ctx.idx == old(ctx.idx) + 1 && result1 == nil && result0.Name == old(cur(ctx))
func internal/ast.buildQualIdent
  property C11 C18
  requires wf(ctx) && typeis(cur(ctx), tok.QualIdent)
  modifies ctx.idx
  ensures wf(ctx) && ctx.idx == old(ctx.idx) + 1 && result1 == nil && result0.Name == old(cur(ctx))
func internal/ast.buildBool
  property C11 C18
  requires wf(ctx) && typeis(cur(ctx), tok.Bool)
  modifies ctx.idx
  ensures wf(ctx) && ctx.idx == old(ctx.idx) + 1 && result1 == nil && result0.X == as(old(cur(ctx)), tok.Bool)
func internal/ast.buildInt
  property C11 C18
  requires wf(ctx) && typeis(cur(ctx), tok.Int)
  modifies ctx.idx
  ensures wf(ctx) && ctx.idx == old(ctx.idx) + 1 && result1 == nil && result0.X == as(old(cur(ctx)), tok.Int)
func internal/ast.buildFloat
  property C11 C18
  requires wf(ctx) && typeis(cur(ctx), tok.Float)
  modifies ctx.idx
  ensures wf(ctx) && ctx.idx == old(ctx.idx) + 1 && result1 == nil && result0.X == as(old(cur(ctx)), tok.Float)
func internal/ast.buildString
  property C11 C18
  requires wf(ctx) && typeis(cur(ctx), tok.String)
  modifies ctx.idx
  ensures wf(ctx) && ctx.idx == old(ctx.idx) + 1 && result1 == nil && result0.X == as(old(cur(ctx)), tok.String)
func internal/ast.buildTime
  property C11 C18
  requires wf(ctx) && typeis(cur(ctx), tok.Time)
  modifies ctx.idx
  ensures wf(ctx) && ctx.idx == old(ctx.idx) + 1 && result1 == nil && result0.X == as(old(cur(ctx)), tok.Time)
func internal/ast.buildBitString
  property C11 C18
  requires wf(ctx) && typeis(cur(ctx), tok.BitString)
  modifies ctx.idx
  ensures wf(ctx) && ctx.idx == old(ctx.idx) + 1 && result1 == nil && result0.X == as(old(cur(ctx)), tok.BitString)
func internal/ast.buildParenExpr
  property C11 C18
  decreases len(ctx.toks) - ctx.idx, 0
  requires wf(ctx) && typeis(cur(ctx), tok.LParen)
  modifies ctx.idx
  ensures wf(ctx) && ctx.idx > old(ctx.idx)
  ensures result1 == nil ==> result0.X != nil && wg(result0.X) && span(box(ParenExpr, result0), old(ctx.idx), ctx.idx)
  ensures result1 != nil ==> posErr(result1)
func internal/ast.buildUnaryExpr
  property C11 C18
  decreases len(ctx.toks) - ctx.idx, 0
  requires wf(ctx) && (typeis(cur(ctx), tok.Sub) || typeis(cur(ctx), tok.Add))
  modifies ctx.idx
  ensures wf(ctx) && ctx.idx > old(ctx.idx)
  ensures result1 == nil ==> span(box(UnaryExpr, result0), old(ctx.idx), ctx.idx) && result0.X != nil && wg(result0.X) && lmin(result0.X) > 4 && (curOp(ctx) ==> prec(cur(ctx)) <= 4 && prec(cur(ctx)) <= rmin(result0.X))
  ensures result1 != nil ==> posErr(result1)
func internal/ast.buildList
  property C11 C18
  decreases len(ctx.toks) - ctx.idx, 0
  requires wf(ctx) && typeis(cur(ctx), tok.LBracket)
  modifies ctx.idx
  loop 0
    invariant wf(ctx) && ctx.idx > old(ctx.idx) && lbi == old(ctx.idx) && box(tok.LBracket, l.LBracket) == tokAt(lbi)
    invariant (cap(l.Xs) == 0 || fresh(l.Xs)) && forall i :: {l.Xs[i]} 0 <= i && i < len(l.Xs) ==> l.Xs[i] != nil && wg(l.Xs[i])
    decreases len(ctx.toks) - ctx.idx
  end
  ensures wf(ctx) && ctx.idx > old(ctx.idx)
  ensures result1 == nil ==> forall i :: {result0.Xs[i]} 0 <= i && i < len(result0.Xs) ==> result0.Xs[i] != nil && wg(result0.Xs[i])
  ensures result1 == nil ==> span(box(List, result0), old(ctx.idx), ctx.idx)
  ensures result1 != nil ==> posErr(result1)
func internal/ast.buildCallExpr
  property C11 C18
  decreases len(ctx.toks) - ctx.idx, 0
  requires wf(ctx) && typeis(cur(ctx), tok.Ident) && typeis(ctx.toks[ctx.idx + 1], tok.LParen)
  modifies ctx.idx
  loop 0
    invariant wf(ctx) && ctx.idx > old(ctx.idx) && box(tok.Ident, call.Name) == tokAt(old(ctx.idx)) && typeis(tokAt(old(ctx.idx) + 1), tok.LParen)
    invariant (cap(call.Args) == 0 || fresh(call.Args)) && forall i :: {call.Args[i]} 0 <= i && i < len(call.Args) ==> call.Args[i] != nil && wg(call.Args[i])
    decreases len(ctx.toks) - ctx.idx
  end
  ensures wf(ctx) && ctx.idx > old(ctx.idx)
  ensures result1 == nil ==> forall i :: {result0.Args[i]} 0 <= i && i < len(result0.Args) ==> result0.Args[i] != nil && wg(result0.Args[i])
  ensures result1 == nil ==> span(box(Call, result0), old(ctx.idx), ctx.idx)
  ensures result1 != nil ==> posErr(result1)
