# Time literals: internal/prs, internal/val
package internal/prs

define isUnit(u string) := u == "s" || u == "ms" || u == "us" || u == "ns"
define nsOf(x int, u string) := ite(u == "s", x * 1000000000, ite(u == "ms", x * 1000000, ite(u == "us", x * 1000, x)))

func internal/val.(*Time).Normalize
  property C16
  requires t != nil && t.S >= 0 && t.Ns >= 0 && t.S + tdiv(t.Ns, 1000000000) <= 9223372036854775807
  modifies t.S, t.Ns
  ensures t.S * 1000000000 + t.Ns == old(t.S) * 1000000000 + old(t.Ns)
  ensures 0 <= t.Ns && t.Ns < 1000000000 && t.S >= 0

func internal/prs.Time.Eval
  property C16
  requires tim.v.x >= 0 && isUnit(tim.unit)
  ensures result1 == nil && typeis(result0, val.Time)
  ensures as(result0, val.Time).S * 1000000000 + as(result0, val.Time).Ns == nsOf(tim.v.x, tim.unit)
  ensures 0 <= as(result0, val.Time).Ns && as(result0, val.Time).Ns < 1000000000 && as(result0, val.Time).S >= 0

# text of a token
function txtOf(any) string
func internal/tok.Text
  property C12, C16, C18
  given t != nil && 0 <= startOf(t) && startOf(t) <= endOf(t) && endOf(t) < len(src)
  assume result == txtOf(t)
  ensures len(result) == endOf(t) - startOf(t) + 1
# the words of a text
function wordCount(string) int
function wordOf(string, int) string
func strings.Fields
  trusted
  ensures len(result) == wordCount(s)
  ensures forall i :: {result[i]} 0 <= i && i < len(result) ==> result[i] == wordOf(s, i)
# value of a text which is a number of the base, and whether it is one which fits into the bits
function isNum(string, int, int) bool
function numVal(string, int) int
func strconv.ParseInt
  trusted
  ensures (result1 == nil) == isNum(s, base, bitSize)
  ensures result1 == nil ==> result0 == numVal(s, base)
  ensures result1 == nil && bitSize == 64 ==> 0 - 9223372036854775808 <= result0 && result0 <= 9223372036854775807

# The scanner makes a time token of an integer, blanks and a unit.
func internal/prs.MakeTime
  property C16
  given wordCount(txtOf(box(tok.Time, e.X))) == 2
  ensures (result1 == nil) == isNum(wordOf(txtOf(box(tok.Time, e.X)), 0), 10, 64)
  ensures result1 == nil ==> result0.v.x == numVal(wordOf(txtOf(box(tok.Time, e.X)), 0), 10) && result0.unit == wordOf(txtOf(box(tok.Time, e.X)), 1)
