# Evaluation of constant expressions: internal/prs, internal/val
package internal/prs

define MAXI() := 9223372036854775807
define isI64(n int) := 0 - 9223372036854775808 <= n && n <= MAXI()

# x to the power of n
function ipow(int, int) int
axiom ipow0: forall x :: {ipow(x, 0)} ipow(x, 0) == 1
axiom ipowS: forall x, n :: {ipow(x, n)} n >= 1 ==> ipow(x, n) == ipow(x, n - 1) * x

func internal/prs.addInt
  property C10
  ensures result1 == isI64(x + y)
  ensures result1 ==> result0 == x + y

func internal/prs.subInt
  property C10
  ensures result1 == isI64(x - y)
  ensures result1 ==> result0 == x - y

func internal/prs.negInt
  property C10
  ensures result1 == isI64(0 - x)
  ensures result1 ==> result0 == 0 - x

func internal/prs.mulInt
  property C10
  ensures result1 == isI64(x * y)
  ensures result1 ==> result0 == x * y

define isOut(n int) := n >= 9223372036854775808 || n < 0 - 9223372036854775808
# a power which is out of range stays out of range
lemma powOut(x int, k int, n int)
  property C10
  requires (x >= 2 || x <= 0 - 2) && 0 <= k && k <= n && isOut(ipow(x, k))
  induct n
  use outStep(ipow(x, n - 1), x)
  ensures isOut(ipow(x, n))
lemma outStep(v int, x int)
  property C10
  requires (x >= 2 || x <= 0 - 2) && isOut(v)
  use mulStep(v, x, 1)
  use mulStep(0 - v, x, 1)
  use mulStep(v, 0 - x, 1)
  use mulStep(0 - v, 0 - x, 1)
  ensures isOut(v * x)
lemma pow0(n int)
  property C10
  requires n >= 1
  ensures ipow(0, n) == 0
lemma pow1(n int)
  property C10
  requires n >= 0
  induct n
  ensures ipow(1, n) == 1
lemma powM1(n int)
  property C10
  requires n >= 0
  induct n
  ensures ipow(0 - 1, n) == ite(n % 2 == 0, 1, 0 - 1)

func internal/prs.expInt
  property C10
  requires y >= 0
  useret pow1(y)
  useret powM1(y)
  loop 0
    invariant r == ipow(x, $n) && $n <= y
    useend powOut(x, $n, y)
    use powOut(x, $n + 1, y)
  end
  ensures result1 == isI64(ipow(x, y))
  ensures result1 ==> result0 == ipow(x, y)

func internal/prs.lshiftInt
  property C10
  requires y >= 0
  loop 0
    invariant r == x * ipow(2, $n) && $n <= y
    use shlOut(x, $n + 1, y)
  end
  ensures result1 == isI64(x * ipow(2, y))
  ensures result1 ==> result0 == x * ipow(2, y)
lemma shlOut(x int, k int, n int)
  property C10
  requires 0 <= k && k <= n && isOut(x * ipow(2, k))
  induct n
  use outStep(x * ipow(2, n - 1), 2)
  ensures isOut(x * ipow(2, n))

# value of an expression and whether it has one; defined by the contracts of the Eval methods
function ev(any) any
function evok(any) bool
invoke internal/prs.Expr.Eval
  trusted
  ensures (result1 == nil) == evok(recv)
  ensures result1 == nil ==> result0 == ev(recv) && result0 != nil
  ensures result1 == nil && typeis(result0, val.List) ==> forall i :: {as(result0, val.List)[i]} 0 <= i && i < len(as(result0, val.List)) ==> as(result0, val.List)[i] != nil

define isInt(v) := typeis(v, val.Int)
define iv(v) := as(v, val.Int)
define bothInt(x, y) := isInt(x) && isInt(y)
define shrInt(x int, n int) := ite(n <= 62, x / pow2(n), ite(x < 0, 0 - 1, 0))

func internal/prs.BinaryExpr.Eval
  property C10
  requires be.x != nil && be.y != nil && be.op != nil && be.ast.X != nil && be.ast.Y != nil
  ensures result1 == nil ==> evok(be.x) && evok(be.y) && isInt(ev(be.x)) && isInt(ev(be.y)) && result0 != nil
  ensures typeis(be.op, tok.Add) && result1 == nil ==> result0 == box(val.Int, iv(ev(be.x)) + iv(ev(be.y)))
  ensures typeis(be.op, tok.Sub) && result1 == nil ==> result0 == box(val.Int, iv(ev(be.x)) - iv(ev(be.y)))
  ensures typeis(be.op, tok.Mul) && result1 == nil ==> result0 == box(val.Int, iv(ev(be.x)) * iv(ev(be.y)))
  ensures typeis(be.op, tok.Exp) && result1 == nil ==> iv(ev(be.y)) >= 0 && result0 == box(val.Int, ipow(iv(ev(be.x)), iv(ev(be.y))))
  ensures typeis(be.op, tok.LShift) && result1 == nil ==> iv(ev(be.y)) >= 0 && result0 == box(val.Int, iv(ev(be.x)) * ipow(2, iv(ev(be.y))))
  ensures typeis(be.op, tok.RShift) && result1 == nil ==> iv(ev(be.y)) >= 0 && result0 == box(val.Int, shrInt(iv(ev(be.x)), iv(ev(be.y))))
  ensures typeis(be.op, tok.Rem) && result1 == nil ==> iv(ev(be.y)) != 0 && result0 == box(val.Int, tmod(iv(ev(be.x)), iv(ev(be.y))))
  ensures typeis(be.op, tok.Div) && result1 == nil ==> iv(ev(be.y)) != 0 && (tmod(iv(ev(be.x)), iv(ev(be.y))) == 0 ==> isInt(result0) && iv(result0) * iv(ev(be.y)) == iv(ev(be.x))) && (tmod(iv(ev(be.x)), iv(ev(be.y))) != 0 ==> typeis(result0, val.Float))
  ensures typeis(be.op, tok.Colon) && result1 == nil ==> typeis(result0, val.Range) && as(result0, val.Range).L == iv(ev(be.x)) && as(result0, val.Range).R == iv(ev(be.y))
  # operands for which the operator has a result are not refused
  ensures evok(be.x) && evok(be.y) && bothInt(ev(be.x), ev(be.y)) && typeis(be.op, tok.Add) && isI64(iv(ev(be.x)) + iv(ev(be.y))) ==> result1 == nil
  ensures evok(be.x) && evok(be.y) && bothInt(ev(be.x), ev(be.y)) && typeis(be.op, tok.Sub) && isI64(iv(ev(be.x)) - iv(ev(be.y))) ==> result1 == nil
  ensures evok(be.x) && evok(be.y) && bothInt(ev(be.x), ev(be.y)) && typeis(be.op, tok.Mul) && isI64(iv(ev(be.x)) * iv(ev(be.y))) ==> result1 == nil
  ensures evok(be.x) && evok(be.y) && bothInt(ev(be.x), ev(be.y)) && typeis(be.op, tok.Exp) && iv(ev(be.y)) >= 0 && isI64(ipow(iv(ev(be.x)), iv(ev(be.y)))) ==> result1 == nil
  ensures evok(be.x) && evok(be.y) && bothInt(ev(be.x), ev(be.y)) && typeis(be.op, tok.LShift) && iv(ev(be.y)) >= 0 && isI64(iv(ev(be.x)) * ipow(2, iv(ev(be.y)))) ==> result1 == nil
  ensures evok(be.x) && evok(be.y) && bothInt(ev(be.x), ev(be.y)) && typeis(be.op, tok.RShift) && iv(ev(be.y)) >= 0 ==> result1 == nil
  ensures evok(be.x) && evok(be.y) && bothInt(ev(be.x), ev(be.y)) && typeis(be.op, tok.Rem) && iv(ev(be.y)) != 0 ==> result1 == nil
  ensures evok(be.x) && evok(be.y) && bothInt(ev(be.x), ev(be.y)) && typeis(be.op, tok.Div) && iv(ev(be.y)) != 0 && (iv(ev(be.y)) != 0 - 1 || iv(ev(be.x)) > 0 - MAXI()) ==> result1 == nil
  ensures evok(be.x) && evok(be.y) && bothInt(ev(be.x), ev(be.y)) && typeis(be.op, tok.Colon) ==> result1 == nil

func internal/prs.UnaryExpr.Eval
  property C10
  requires ue.x != nil && (ue.op == 0 || ue.op == 1)
  ensures result1 == nil ==> evok(ue.x) && isInt(ev(ue.x))
  ensures result1 == nil && ue.op == 0 ==> result0 == ev(ue.x)
  ensures result1 == nil && ue.op == 1 ==> result0 == box(val.Int, 0 - iv(ev(ue.x)))
  ensures evok(ue.x) && isInt(ev(ue.x)) && (ue.op == 0 || iv(ev(ue.x)) >= 0 - MAXI()) ==> result1 == nil

func internal/prs.Int.Eval
  property C10
  ensures result1 == nil && result0 == box(val.Int, i.x)
func internal/prs.Bool.Eval
  property C10
  ensures result1 == nil && result0 == box(val.Bool, b.x)
func internal/prs.Float.Eval
  property C10
  ensures result1 == nil && result0 == box(val.Float, f.x)
func internal/prs.String.Eval
  property C10
  ensures result1 == nil && result0 == box(val.Str, s.x)
func internal/prs.BitString.Eval
  property C10
  ensures result1 == nil && result0 == box(val.BitStr, bs.x)
func internal/prs.List.Eval
  property C10 C17
  requires forall i :: {l.exprs[i]} 0 <= i && i < len(l.exprs) ==> l.exprs[i] != nil
  loop 0
    invariant len(vals) == $n && $n <= len(l.exprs) && fresh(vals)
    invariant forall i :: {vals[i]} 0 <= i && i < $n ==> evok(l.exprs[i]) && vals[i] == ev(l.exprs[i])
  end
  ensures result1 == nil ==> typeis(result0, val.List) && len(as(result0, val.List)) == len(l.exprs) && forall i :: {as(result0, val.List)[i]} 0 <= i && i < len(l.exprs) ==> evok(l.exprs[i]) && as(result0, val.List)[i] == ev(l.exprs[i])
  ensures (forall i :: {l.exprs[i]} 0 <= i && i < len(l.exprs) ==> evok(l.exprs[i])) ==> result1 == nil

# logarithms are integers exactly for powers of the base
lemma cancel(u int, v int, b int)
  property C10
  requires b >= 2
  use mulStep(b, u, v)
  use mulStep(b, v, u)
  use mulStep(b, u, 0)
  use mulStep(b, 0, u)
  ensures u != v ==> u * b != v * b
  ensures u * b != 1
lemma powGt(b int, n int)
  property C10
  requires b >= 2 && n >= 0
  induct n
  use mulStep(ipow(b, n - 1), b, 1)
  ensures ipow(b, n) > n
lemma powMod(b int, k int)
  property C10
  requires b >= 2 && k >= 1
  use divUnique(ipow(b, k), b, ipow(b, k - 1), 0)
  ensures ipow(b, k) % b == 0
lemma powSplit(x int, b int, e int)
  property C10
  requires e >= 1
  ensures x * ipow(b, e) == (x * ipow(b, e - 1)) * b
lemma notPowStep(u int, b int, k int)
  property C10
  requires b >= 2 && k >= 0 && (k >= 1 ==> u != ipow(b, k - 1))
  use cancel(u, ipow(b, k - 1), b)
  ensures u * b != ipow(b, k)
lemma notPow(x int, b int, e int)
  property C10
  requires b >= 2 && e >= 0 && x >= 2 && x % b != 0
  induct e
  use powSplit(x, b, e)
  use forall k :: {ipow(b, k)} notPowStep(x * ipow(b, e - 1), b, k)
  use forall k :: {ipow(b, k)} powMod(b, k)
  ensures forall k :: {ipow(b, k)} k >= 0 ==> x * ipow(b, e) != ipow(b, k)

func internal/prs.exactLog
  property C10
  requires base >= 2
  loop 0
    invariant x >= 1 && e >= 0 && old(x) == x * ipow(base, e)
    decreases x
    use notPow(x, base, e)
    use powGt(base, e)
    use mulStep(ipow(base, e), x, 0)
  end
  ensures result1 ==> x >= 1 && result0 >= 0 && x == ipow(base, result0)
  ensures !result1 && x >= 1 ==> forall k :: {ipow(base, k)} k >= 0 ==> x != ipow(base, k)

func internal/prs.floatToInt
  property C10
  ensures result1 == nil ==> typeis(result0, val.Int)

func internal/prs.evalBool
  property C10
  requires len(c.args) == 1 && c.args[0] != nil
  ensures (result1 == nil) == (evok(c.args[0]) && isInt(ev(c.args[0])))
  ensures result1 == nil ==> result0 == box(val.Bool, iv(ev(c.args[0])) != 0)
func internal/prs.evalCeil
  property C10
  requires len(c.args) == 1 && c.args[0] != nil
  ensures result1 == nil ==> evok(c.args[0]) && typeis(result0, val.Int) && (isInt(ev(c.args[0])) || typeis(ev(c.args[0]), val.Float))
  ensures evok(c.args[0]) && isInt(ev(c.args[0])) ==> result1 == nil && result0 == ev(c.args[0])
func internal/prs.evalFloor
  property C10
  requires len(c.args) == 1 && c.args[0] != nil
  ensures result1 == nil ==> evok(c.args[0]) && typeis(result0, val.Int) && (isInt(ev(c.args[0])) || typeis(ev(c.args[0]), val.Float))
  ensures evok(c.args[0]) && isInt(ev(c.args[0])) ==> result1 == nil && result0 == ev(c.args[0])
func internal/prs.evalLog2
  property C10
  requires len(c.args) == 1 && c.args[0] != nil
  ensures result1 == nil ==> evok(c.args[0]) && (isInt(result0) || typeis(result0, val.Float))
  ensures result1 == nil && isInt(ev(c.args[0])) && isInt(result0) ==> iv(result0) >= 0 && iv(ev(c.args[0])) == ipow(2, iv(result0))
  ensures result1 == nil && isInt(ev(c.args[0])) ==> iv(ev(c.args[0])) > 0
  ensures result1 == nil && isInt(ev(c.args[0])) && !isInt(result0) ==> forall k :: {ipow(2, k)} k >= 0 ==> iv(ev(c.args[0])) != ipow(2, k)
  ensures evok(c.args[0]) && isInt(ev(c.args[0])) && iv(ev(c.args[0])) > 0 ==> result1 == nil
func internal/prs.evalLog10
  property C10
  requires len(c.args) == 1 && c.args[0] != nil
  ensures result1 == nil ==> evok(c.args[0]) && (isInt(result0) || typeis(result0, val.Float))
  ensures result1 == nil && isInt(ev(c.args[0])) && isInt(result0) ==> iv(result0) >= 0 && iv(ev(c.args[0])) == ipow(10, iv(result0))
  ensures result1 == nil && isInt(ev(c.args[0])) ==> iv(ev(c.args[0])) > 0
  ensures result1 == nil && isInt(ev(c.args[0])) && !isInt(result0) ==> forall k :: {ipow(10, k)} k >= 0 ==> iv(ev(c.args[0])) != ipow(10, k)
  ensures evok(c.args[0]) && isInt(ev(c.args[0])) && iv(ev(c.args[0])) > 0 ==> result1 == nil
func internal/prs.Call.Eval
  property C10
  requires len(c.args) == 1 && c.args[0] != nil
  requires c.funcName == "bool" || c.funcName == "ceil" || c.funcName == "floor" || c.funcName == "log2" || c.funcName == "log10"
  ensures result1 == nil ==> evok(c.args[0])
  ensures result1 == nil && c.funcName == "bool" ==> result0 == box(val.Bool, iv(ev(c.args[0])) != 0)
  ensures result1 == nil && (c.funcName == "ceil" || c.funcName == "floor") && isInt(ev(c.args[0])) ==> result0 == ev(c.args[0])
  ensures result1 == nil && c.funcName == "log2" && isInt(ev(c.args[0])) && isInt(result0) ==> iv(ev(c.args[0])) == ipow(2, iv(result0))
  ensures result1 == nil && c.funcName == "log10" && isInt(ev(c.args[0])) && isInt(result0) ==> iv(ev(c.args[0])) == ipow(10, iv(result0))
func internal/prs.assertCall
  property C10
  ensures result == nil ==> len(c.args) == 1 && (c.funcName == "bool" || c.funcName == "ceil" || c.funcName == "floor" || c.funcName == "log2" || c.funcName == "log10")
