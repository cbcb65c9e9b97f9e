# Instantiation of functionalities: internal/ins, internal/util. Written by tools/gen_ins.py, do not edit.
package internal/ins

# properties of a parsed functionality
function propCount(any) int
function propName(any, int) string
function propVal(any, int) any
axiom propCountPos: forall f any :: {propCount(f)} propCount(f) >= 0
invoke internal/prs.Functionality.Props
  trusted
  ensures len(result) == propCount(recv)
  ensures forall i :: {result[i]} 0 <= i && i < len(result) ==> result[i].Name == propName(recv, i) && result[i].Value == propVal(recv, i) && result[i].Value != nil && result[i].NameTok != nil && result[i].ValueTok != nil

func internal/prs.Prop.Loc
  trusted

define natRange(v any) := typeis(v, val.Range) && 0 <= as(v, val.Range).L && as(v, val.Range).L <= as(v, val.Range).R
define isNat(v any) := typeis(v, val.Int) && as(v, val.Int) >= 0
define isPos(v any) := typeis(v, val.Int) && as(v, val.Int) >= 1
define isBool(v any) := typeis(v, val.Bool)
define isVal(v any) := typeis(v, val.Int) || typeis(v, val.BitStr)
define isStr2(v any, a string, b string) := typeis(v, val.Str) && (as(v, val.Str) == a || as(v, val.Str) == b)
define isRangeVal(v any) := isNat(v) || natRange(v) || (typeis(v, val.List) && len(as(v, val.List)) > 0 && forall i :: {as(v, val.List)[i]} 0 <= i && i < len(as(v, val.List)) ==> natRange(as(v, val.List)[i]))
# documented types and ranges of the values of properties
define okVal(n string, v any) :=
    (n == "access" ==> isStr2(v, "Read Write", "Read Only") || isStr2(v, "Write Only", "Write Only")) &&
    (n == "add-enable" || n == "atomic" || n == "byte-write-enable" || n == "virtual" ==> isBool(v)) &&
    (n == "align" ==> isPos(v) && isPow2(as(v, val.Int))) &&
    (n == "clear" ==> isStr2(v, "Explicit", "On Read")) &&
    (n == "delay" ==> typeis(v, val.Time)) &&
    (n == "enable-init-value" || n == "enable-reset-value" || n == "init-value" || n == "read-value" || n == "reset-value" ==> isVal(v)) &&
    (n == "in-trigger" || n == "out-trigger" ==> isStr2(v, "Edge", "Level")) &&
    (n == "masters" || n == "width" ==> isPos(v)) &&
    (n == "range" ==> isRangeVal(v)) &&
    (n == "reset" ==> isStr2(v, "Sync", "Async")) &&
    (n == "read-latency" || n == "size" ==> isNat(v))
define knownProp(n string) := n == "access" || n == "add-enable" || n == "atomic" || n == "byte-write-enable" || n == "virtual" || n == "align" || n == "clear" || n == "delay" ||
    n == "enable-init-value" || n == "enable-reset-value" || n == "init-value" || n == "read-value" || n == "reset-value" || n == "in-trigger" || n == "out-trigger" ||
    n == "masters" || n == "width" || n == "range" || n == "reset" || n == "read-latency" || n == "size"
# range of a functionality which a range property value gives
define rangeIs(r any, v any) :=
    (typeis(v, val.Int) ==> typeis(r, types.SingleRange) && as(r, types.SingleRange).Start == 0 && as(r, types.SingleRange).End == as(v, val.Int)) &&
    (typeis(v, val.Range) ==> typeis(r, types.SingleRange) && as(r, types.SingleRange).Start == as(v, val.Range).L && as(r, types.SingleRange).End == as(v, val.Range).R) &&
    (typeis(v, val.List) ==> typeis(r, types.ArrayRange) && len(as(r, types.ArrayRange)) == len(as(v, val.List)) &&
      forall i :: {as(r, types.ArrayRange)[i]} 0 <= i && i < len(as(v, val.List)) ==> as(r, types.ArrayRange)[i].Start == as(as(v, val.List)[i], val.Range).L && as(r, types.ArrayRange)[i].End == as(as(v, val.List)[i], val.Range).R)
define timeIs(d any, v any) := d != nil

func internal/util.IsValidProperty
  property C07
  requires isKind(t)
  loop 0
    invariant forall k :: {list[k]} 0 <= k && k < $n ==> list[k] != p
  loop 1
    invariant len(msg) >= 1
  ensures (result == nil) == validProp(p, t)

func internal/ins.checkProp
  property C07, C06
  requires prop.Value != nil && prop.ValueTok != nil && knownProp(prop.Name)
  requires prop.Name == "align" && typeis(ev(prop.Value), val.Int) ==> as(ev(prop.Value), val.Int) <= 4611686018427387904
  loop 0
    invariant forall k :: {v[k]} 0 <= k && k < $n ==> natRange(v[k])
  ensures result == nil ==> evok(prop.Value) && okVal(prop.Name, ev(prop.Value))
  ensures evok(prop.Value) && okVal(prop.Name, ev(prop.Value)) ==> result == nil

