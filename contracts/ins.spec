# Instantiation of functionalities: internal/ins, internal/util. Written by tools/gen_ins.py, do not edit.
package internal/ins

# properties of a parsed functionality
function propCount(any) int
function propName(any, int) string
function propVal(any, int) any
axiom propCountPos: forall f any :: {propCount(f)} propCount(f) >= 0
invoke internal/prs.Functionality.Props
  trusted
  ensures len(result) == propCount(recv)
  ensures forall i :: {result[i]} 0 <= i && i < len(result) ==> result[i].Name == propName(recv, i) && result[i].Value == propVal(recv, i) && result[i].Value != nil && result[i].NameTok != nil && result[i].ValueTok != nil

func internal/prs.Prop.Loc
  trusted

define natRange(v any) := typeis(v, val.Range) && 0 <= as(v, val.Range).L && as(v, val.Range).L <= as(v, val.Range).R
define isNat(v any) := typeis(v, val.Int) && as(v, val.Int) >= 0
define isPos(v any) := typeis(v, val.Int) && as(v, val.Int) >= 1
define isBool(v any) := typeis(v, val.Bool)
define isVal(v any) := typeis(v, val.Int) || typeis(v, val.BitStr)
define isStr2(v any, a string, b string) := typeis(v, val.Str) && (as(v, val.Str) == a || as(v, val.Str) == b)
define isRangeVal(v any) := isNat(v) || natRange(v) || (typeis(v, val.List) && len(as(v, val.List)) > 0 && forall i :: {as(v, val.List)[i]} 0 <= i && i < len(as(v, val.List)) ==> natRange(as(v, val.List)[i]))
# documented types and ranges of the values of properties
define okVal(n string, v any) :=
    (n == "access" ==> isStr2(v, "Read Write", "Read Only") || isStr2(v, "Write Only", "Write Only")) &&
    (n == "add-enable" || n == "atomic" || n == "byte-write-enable" || n == "virtual" ==> isBool(v)) &&
    (n == "align" ==> isPos(v) && isPow2(as(v, val.Int))) &&
    (n == "clear" ==> isStr2(v, "Explicit", "On Read")) &&
    (n == "delay" ==> typeis(v, val.Time)) &&
    (n == "enable-init-value" || n == "enable-reset-value" || n == "init-value" || n == "read-value" || n == "reset-value" ==> isVal(v)) &&
    (n == "in-trigger" || n == "out-trigger" ==> isStr2(v, "Edge", "Level")) &&
    (n == "masters" || n == "width" ==> isPos(v)) &&
    (n == "range" ==> isRangeVal(v)) &&
    (n == "reset" ==> isStr2(v, "Sync", "Async")) &&
    (n == "read-latency" || n == "size" ==> isNat(v))
define knownProp(n string) := n == "access" || n == "add-enable" || n == "atomic" || n == "byte-write-enable" || n == "virtual" || n == "align" || n == "clear" || n == "delay" ||
    n == "enable-init-value" || n == "enable-reset-value" || n == "init-value" || n == "read-value" || n == "reset-value" || n == "in-trigger" || n == "out-trigger" ||
    n == "masters" || n == "width" || n == "range" || n == "reset" || n == "read-latency" || n == "size"
# range of a functionality which a range property value gives
define rangeIs(r any, v any) :=
    (typeis(v, val.Int) ==> typeis(r, types.SingleRange) && as(r, types.SingleRange).Start == 0 && as(r, types.SingleRange).End == as(v, val.Int)) &&
    (typeis(v, val.Range) ==> typeis(r, types.SingleRange) && as(r, types.SingleRange).Start == as(v, val.Range).L && as(r, types.SingleRange).End == as(v, val.Range).R) &&
    (typeis(v, val.List) ==> typeis(r, types.ArrayRange) && len(as(r, types.ArrayRange)) == len(as(v, val.List)) &&
      forall i :: {as(r, types.ArrayRange)[i]} 0 <= i && i < len(as(v, val.List)) ==> as(r, types.ArrayRange)[i].Start == as(as(v, val.List)[i], val.Range).L && as(r, types.ArrayRange)[i].End == as(as(v, val.List)[i], val.Range).R)
define timeIs(d any, v any) := d != nil

func internal/util.IsValidProperty
  property C07
  requires isKind(t)
  loop 0
    invariant forall k :: {list[k]} 0 <= k && k < $n ==> list[k] != p
  loop 1
    invariant len(msg) >= 1
  ensures (result == nil) == validProp(p, t)

func internal/ins.checkProp
  property C07, C06
  requires prop.Value != nil && prop.ValueTok != nil && knownProp(prop.Name)
  requires prop.Name == "align" && typeis(ev(prop.Value), val.Int) ==> as(ev(prop.Value), val.Int) <= 4611686018427387904
  loop 0
    invariant forall k :: {v[k]} 0 <= k && k < $n ==> natRange(v[k])
  ensures result == nil ==> evok(prop.Value) && okVal(prop.Name, ev(prop.Value))
  ensures evok(prop.Value) && okVal(prop.Name, ev(prop.Value)) ==> result == nil


define isKind(t string) := t == "blackbox" || t == "block" || t == "bus" || t == "config" || t == "group" || t == "irq" || t == "mask" || t == "param" || t == "proc" || t == "return" || t == "static" || t == "status" || t == "stream"
define validProp(p string, t string) :=
    (t == "blackbox" && (p == "size")) ||
    (t == "block" && (p == "align" || p == "masters" || p == "reset")) ||
    (t == "bus" && (p == "align" || p == "masters" || p == "reset" || p == "width")) ||
    (t == "config" && (p == "atomic" || p == "init-value" || p == "range" || p == "read-value" || p == "reset-value" || p == "width")) ||
    (t == "group" && (p == "virtual")) ||
    (t == "irq" && (p == "add-enable" || p == "clear" || p == "enable-init-value" || p == "enable-reset-value" || p == "in-trigger" || p == "out-trigger")) ||
    (t == "mask" && (p == "atomic" || p == "init-value" || p == "read-value" || p == "reset-value" || p == "width")) ||
    (t == "param" && (p == "range" || p == "width")) ||
    (t == "proc" && (p == "delay")) ||
    (t == "return" && (p == "width")) ||
    (t == "static" && (p == "init-value" || p == "read-value" || p == "reset-value" || p == "width")) ||
    (t == "status" && (p == "atomic" || p == "read-value" || p == "width")) ||
    (t == "stream" && (p == "delay"))

func internal/ins.applyConfigType
  property C07, C06, C08
  requires cfg != nil && diary != nil && typ != nil
  modifies diary.atomicSet, cfg.Atomic, diary.initValSet, diary.initVal, diary.rangeSet, cfg.Range, diary.readValSet, diary.readVal, diary.resetValSet, diary.resetVal, diary.widthSet, cfg.Width
  loop 0
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n ==> validProp(propName(typ, k), "config") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k)))
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "atomic" ==> !old(diary.atomicSet) && diary.atomicSet && cfg.Atomic == as(ev(propVal(typ, k)), val.Bool)
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "atomic") ==> diary.atomicSet == old(diary.atomicSet) && cfg.Atomic == old(cfg.Atomic)
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "init-value" ==> !old(diary.initValSet) && diary.initValSet && diary.initVal == ev(propVal(typ, k))
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "init-value") ==> diary.initValSet == old(diary.initValSet) && diary.initVal == old(diary.initVal)
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "range" ==> !old(diary.rangeSet) && diary.rangeSet && rangeIs(cfg.Range, ev(propVal(typ, k)))
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "range") ==> diary.rangeSet == old(diary.rangeSet) && cfg.Range == old(cfg.Range)
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "read-value" ==> !old(diary.readValSet) && diary.readValSet && diary.readVal == ev(propVal(typ, k))
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "read-value") ==> diary.readValSet == old(diary.readValSet) && diary.readVal == old(diary.readVal)
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "reset-value" ==> !old(diary.resetValSet) && diary.resetValSet && diary.resetVal == ev(propVal(typ, k))
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "reset-value") ==> diary.resetValSet == old(diary.resetValSet) && diary.resetVal == old(diary.resetVal)
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "width" ==> !old(diary.widthSet) && diary.widthSet && cfg.Width == as(ev(propVal(typ, k)), val.Int)
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "width") ==> diary.widthSet == old(diary.widthSet) && cfg.Width == old(cfg.Width)
    invariant forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < $n ==> propName(typ, j) != propName(typ, k)
    invariant !(old(diary.rangeSet) && old(diary.widthSet)) ==> !(diary.rangeSet && diary.widthSet)
  loop 1
    invariant len(mr) == $n && (cap(mr) == 0 || fresh(mr))
    invariant forall k :: {mr[k]} 0 <= k && k < $n ==> mr[k].Start == as(rng[k], val.Range).L && mr[k].End == as(rng[k], val.Range).R
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> validProp(propName(typ, k), "config") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k))))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "atomic" ==> !old(diary.atomicSet) && diary.atomicSet && cfg.Atomic == as(ev(propVal(typ, k)), val.Bool))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "atomic") ==> diary.atomicSet == old(diary.atomicSet) && cfg.Atomic == old(cfg.Atomic))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "init-value" ==> !old(diary.initValSet) && diary.initValSet && diary.initVal == ev(propVal(typ, k)))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "init-value") ==> diary.initValSet == old(diary.initValSet) && diary.initVal == old(diary.initVal))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "range" ==> !old(diary.rangeSet) && diary.rangeSet && rangeIs(cfg.Range, ev(propVal(typ, k))))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "range") ==> diary.rangeSet == old(diary.rangeSet) && cfg.Range == old(cfg.Range))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "read-value" ==> !old(diary.readValSet) && diary.readValSet && diary.readVal == ev(propVal(typ, k)))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "read-value") ==> diary.readValSet == old(diary.readValSet) && diary.readVal == old(diary.readVal))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "reset-value" ==> !old(diary.resetValSet) && diary.resetValSet && diary.resetVal == ev(propVal(typ, k)))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "reset-value") ==> diary.resetValSet == old(diary.resetValSet) && diary.resetVal == old(diary.resetVal))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "width" ==> !old(diary.widthSet) && diary.widthSet && cfg.Width == as(ev(propVal(typ, k)), val.Int))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "width") ==> diary.widthSet == old(diary.widthSet) && cfg.Width == old(cfg.Width))
  ensures result == nil ==> (forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < propCount(typ) ==> propName(typ, j) != propName(typ, k))
  ensures result == nil ==> (!(old(diary.rangeSet) && old(diary.widthSet)) ==> !(diary.rangeSet && diary.widthSet))
  ensures (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> validProp(propName(typ, k), "config") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k)))) && (forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < propCount(typ) ==> propName(typ, j) != propName(typ, k)) && (old(diary.atomicSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "atomic") && (old(diary.initValSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "init-value") && (old(diary.rangeSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "range") && (old(diary.readValSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "read-value") && (old(diary.resetValSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "reset-value") && (old(diary.widthSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "width") && (old(diary.widthSet) || (exists k :: 0 <= k && k < propCount(typ) && propName(typ, k) == "width") ==> !old(diary.rangeSet) && forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "range") ==> result == nil

func internal/ins.applyMaskType
  property C07, C06, C08
  requires mask != nil && diary != nil && typ != nil
  modifies diary.atomicSet, mask.Atomic, diary.initValSet, diary.initVal, diary.readValSet, diary.readVal, diary.resetValSet, diary.resetVal, diary.widthSet, mask.Width
  loop 0
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n ==> validProp(propName(typ, k), "mask") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k)))
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "atomic" ==> !old(diary.atomicSet) && diary.atomicSet && mask.Atomic == as(ev(propVal(typ, k)), val.Bool)
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "atomic") ==> diary.atomicSet == old(diary.atomicSet) && mask.Atomic == old(mask.Atomic)
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "init-value" ==> !old(diary.initValSet) && diary.initValSet && diary.initVal == ev(propVal(typ, k))
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "init-value") ==> diary.initValSet == old(diary.initValSet) && diary.initVal == old(diary.initVal)
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "read-value" ==> !old(diary.readValSet) && diary.readValSet && diary.readVal == ev(propVal(typ, k))
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "read-value") ==> diary.readValSet == old(diary.readValSet) && diary.readVal == old(diary.readVal)
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "reset-value" ==> !old(diary.resetValSet) && diary.resetValSet && diary.resetVal == ev(propVal(typ, k))
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "reset-value") ==> diary.resetValSet == old(diary.resetValSet) && diary.resetVal == old(diary.resetVal)
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "width" ==> !old(diary.widthSet) && diary.widthSet && mask.Width == as(ev(propVal(typ, k)), val.Int)
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "width") ==> diary.widthSet == old(diary.widthSet) && mask.Width == old(mask.Width)
    invariant forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < $n ==> propName(typ, j) != propName(typ, k)
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> validProp(propName(typ, k), "mask") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k))))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "atomic" ==> !old(diary.atomicSet) && diary.atomicSet && mask.Atomic == as(ev(propVal(typ, k)), val.Bool))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "atomic") ==> diary.atomicSet == old(diary.atomicSet) && mask.Atomic == old(mask.Atomic))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "init-value" ==> !old(diary.initValSet) && diary.initValSet && diary.initVal == ev(propVal(typ, k)))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "init-value") ==> diary.initValSet == old(diary.initValSet) && diary.initVal == old(diary.initVal))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "read-value" ==> !old(diary.readValSet) && diary.readValSet && diary.readVal == ev(propVal(typ, k)))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "read-value") ==> diary.readValSet == old(diary.readValSet) && diary.readVal == old(diary.readVal))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "reset-value" ==> !old(diary.resetValSet) && diary.resetValSet && diary.resetVal == ev(propVal(typ, k)))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "reset-value") ==> diary.resetValSet == old(diary.resetValSet) && diary.resetVal == old(diary.resetVal))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "width" ==> !old(diary.widthSet) && diary.widthSet && mask.Width == as(ev(propVal(typ, k)), val.Int))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "width") ==> diary.widthSet == old(diary.widthSet) && mask.Width == old(mask.Width))
  ensures result == nil ==> (forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < propCount(typ) ==> propName(typ, j) != propName(typ, k))
  ensures (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> validProp(propName(typ, k), "mask") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k)))) && (forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < propCount(typ) ==> propName(typ, j) != propName(typ, k)) && (old(diary.atomicSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "atomic") && (old(diary.initValSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "init-value") && (old(diary.readValSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "read-value") && (old(diary.resetValSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "reset-value") && (old(diary.widthSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "width") ==> result == nil

func internal/ins.applyStaticType
  property C07, C06, C08
  requires st != nil && diary != nil && typ != nil
  modifies diary.initValSet, diary.initVal, diary.readValSet, diary.readVal, diary.resetValSet, diary.resetVal, diary.widthSet, st.Width
  loop 0
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n ==> validProp(propName(typ, k), "static") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k)))
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "init-value" ==> !old(diary.initValSet) && diary.initValSet && diary.initVal == ev(propVal(typ, k))
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "init-value") ==> diary.initValSet == old(diary.initValSet) && diary.initVal == old(diary.initVal)
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "read-value" ==> !old(diary.readValSet) && diary.readValSet && diary.readVal == ev(propVal(typ, k))
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "read-value") ==> diary.readValSet == old(diary.readValSet) && diary.readVal == old(diary.readVal)
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "reset-value" ==> !old(diary.resetValSet) && diary.resetValSet && diary.resetVal == ev(propVal(typ, k))
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "reset-value") ==> diary.resetValSet == old(diary.resetValSet) && diary.resetVal == old(diary.resetVal)
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "width" ==> !old(diary.widthSet) && diary.widthSet && st.Width == as(ev(propVal(typ, k)), val.Int)
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "width") ==> diary.widthSet == old(diary.widthSet) && st.Width == old(st.Width)
    invariant forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < $n ==> propName(typ, j) != propName(typ, k)
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> validProp(propName(typ, k), "static") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k))))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "init-value" ==> !old(diary.initValSet) && diary.initValSet && diary.initVal == ev(propVal(typ, k)))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "init-value") ==> diary.initValSet == old(diary.initValSet) && diary.initVal == old(diary.initVal))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "read-value" ==> !old(diary.readValSet) && diary.readValSet && diary.readVal == ev(propVal(typ, k)))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "read-value") ==> diary.readValSet == old(diary.readValSet) && diary.readVal == old(diary.readVal))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "reset-value" ==> !old(diary.resetValSet) && diary.resetValSet && diary.resetVal == ev(propVal(typ, k)))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "reset-value") ==> diary.resetValSet == old(diary.resetValSet) && diary.resetVal == old(diary.resetVal))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "width" ==> !old(diary.widthSet) && diary.widthSet && st.Width == as(ev(propVal(typ, k)), val.Int))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "width") ==> diary.widthSet == old(diary.widthSet) && st.Width == old(st.Width))
  ensures result == nil ==> (forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < propCount(typ) ==> propName(typ, j) != propName(typ, k))
  ensures (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> validProp(propName(typ, k), "static") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k)))) && (forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < propCount(typ) ==> propName(typ, j) != propName(typ, k)) && (old(diary.initValSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "init-value") && (old(diary.readValSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "read-value") && (old(diary.resetValSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "reset-value") && (old(diary.widthSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "width") ==> result == nil

func internal/ins.applyStatusType
  property C07, C06, C08
  requires st != nil && diary != nil && typ != nil
  modifies diary.atomicSet, st.Atomic, diary.readValSet, diary.readVal, diary.widthSet, st.Width
  loop 0
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n ==> validProp(propName(typ, k), "status") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k)))
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "atomic" ==> !old(diary.atomicSet) && diary.atomicSet && st.Atomic == as(ev(propVal(typ, k)), val.Bool)
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "atomic") ==> diary.atomicSet == old(diary.atomicSet) && st.Atomic == old(st.Atomic)
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "read-value" ==> !old(diary.readValSet) && diary.readValSet && diary.readVal == ev(propVal(typ, k))
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "read-value") ==> diary.readValSet == old(diary.readValSet) && diary.readVal == old(diary.readVal)
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "width" ==> !old(diary.widthSet) && diary.widthSet && st.Width == as(ev(propVal(typ, k)), val.Int)
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "width") ==> diary.widthSet == old(diary.widthSet) && st.Width == old(st.Width)
    invariant forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < $n ==> propName(typ, j) != propName(typ, k)
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> validProp(propName(typ, k), "status") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k))))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "atomic" ==> !old(diary.atomicSet) && diary.atomicSet && st.Atomic == as(ev(propVal(typ, k)), val.Bool))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "atomic") ==> diary.atomicSet == old(diary.atomicSet) && st.Atomic == old(st.Atomic))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "read-value" ==> !old(diary.readValSet) && diary.readValSet && diary.readVal == ev(propVal(typ, k)))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "read-value") ==> diary.readValSet == old(diary.readValSet) && diary.readVal == old(diary.readVal))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "width" ==> !old(diary.widthSet) && diary.widthSet && st.Width == as(ev(propVal(typ, k)), val.Int))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "width") ==> diary.widthSet == old(diary.widthSet) && st.Width == old(st.Width))
  ensures result == nil ==> (forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < propCount(typ) ==> propName(typ, j) != propName(typ, k))
  ensures (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> validProp(propName(typ, k), "status") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k)))) && (forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < propCount(typ) ==> propName(typ, j) != propName(typ, k)) && (old(diary.atomicSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "atomic") && (old(diary.readValSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "read-value") && (old(diary.widthSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "width") ==> result == nil

func internal/ins.applyParamType
  property C07, C06
  requires param != nil && diary != nil && typ != nil
  modifies diary.rangeSet, param.Range, diary.widthSet, param.Width
  loop 0
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n ==> validProp(propName(typ, k), "param") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k)))
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "range" ==> !old(diary.rangeSet) && diary.rangeSet && rangeIs(param.Range, ev(propVal(typ, k)))
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "range") ==> diary.rangeSet == old(diary.rangeSet) && param.Range == old(param.Range)
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "width" ==> !old(diary.widthSet) && diary.widthSet && param.Width == as(ev(propVal(typ, k)), val.Int)
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "width") ==> diary.widthSet == old(diary.widthSet) && param.Width == old(param.Width)
    invariant forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < $n ==> propName(typ, j) != propName(typ, k)
    invariant !(old(diary.rangeSet) && old(diary.widthSet)) ==> !(diary.rangeSet && diary.widthSet)
  loop 1
    invariant len(mr) == $n && (cap(mr) == 0 || fresh(mr))
    invariant forall k :: {mr[k]} 0 <= k && k < $n ==> mr[k].Start == as(rng[k], val.Range).L && mr[k].End == as(rng[k], val.Range).R
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> validProp(propName(typ, k), "param") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k))))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "range" ==> !old(diary.rangeSet) && diary.rangeSet && rangeIs(param.Range, ev(propVal(typ, k))))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "range") ==> diary.rangeSet == old(diary.rangeSet) && param.Range == old(param.Range))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "width" ==> !old(diary.widthSet) && diary.widthSet && param.Width == as(ev(propVal(typ, k)), val.Int))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "width") ==> diary.widthSet == old(diary.widthSet) && param.Width == old(param.Width))
  ensures result == nil ==> (forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < propCount(typ) ==> propName(typ, j) != propName(typ, k))
  ensures result == nil ==> (!(old(diary.rangeSet) && old(diary.widthSet)) ==> !(diary.rangeSet && diary.widthSet))
  ensures (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> validProp(propName(typ, k), "param") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k)))) && (forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < propCount(typ) ==> propName(typ, j) != propName(typ, k)) && (old(diary.rangeSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "range") && (old(diary.widthSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "width") && (old(diary.widthSet) || (exists k :: 0 <= k && k < propCount(typ) && propName(typ, k) == "width") ==> !old(diary.rangeSet) && forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "range") ==> result == nil

func internal/ins.applyReturnType
  property C07, C06
  requires ret != nil && diary != nil && typ != nil
  modifies diary.widthSet, ret.Width
  loop 0
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n ==> validProp(propName(typ, k), "return") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k)))
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "width" ==> !old(diary.widthSet) && diary.widthSet && ret.Width == as(ev(propVal(typ, k)), val.Int)
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "width") ==> diary.widthSet == old(diary.widthSet) && ret.Width == old(ret.Width)
    invariant forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < $n ==> propName(typ, j) != propName(typ, k)
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> validProp(propName(typ, k), "return") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k))))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "width" ==> !old(diary.widthSet) && diary.widthSet && ret.Width == as(ev(propVal(typ, k)), val.Int))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "width") ==> diary.widthSet == old(diary.widthSet) && ret.Width == old(ret.Width))
  ensures result == nil ==> (forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < propCount(typ) ==> propName(typ, j) != propName(typ, k))
  ensures (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> validProp(propName(typ, k), "return") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k)))) && (forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < propCount(typ) ==> propName(typ, j) != propName(typ, k)) && (old(diary.widthSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "width") ==> result == nil

func internal/ins.applyIrqType
  property C07, C08
  requires irq != nil && diary != nil && typ != nil
  modifies diary.addEnableSet, irq.AddEnable, diary.clearSet, irq.Clear, diary.enableInitValSet, diary.enableInitVal, diary.enableResetValSet, diary.enableResetVal, diary.inTriggerSet, irq.InTrigger, diary.outTriggerSet, irq.OutTrigger
  loop 0
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n ==> validProp(propName(typ, k), "irq") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k)))
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "add-enable" ==> !old(diary.addEnableSet) && diary.addEnableSet && irq.AddEnable == as(ev(propVal(typ, k)), val.Bool)
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "add-enable") ==> diary.addEnableSet == old(diary.addEnableSet) && irq.AddEnable == old(irq.AddEnable)
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "clear" ==> !old(diary.clearSet) && diary.clearSet && irq.Clear == as(ev(propVal(typ, k)), val.Str)
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "clear") ==> diary.clearSet == old(diary.clearSet) && irq.Clear == old(irq.Clear)
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "enable-init-value" ==> !old(diary.enableInitValSet) && diary.enableInitValSet && diary.enableInitVal == ev(propVal(typ, k))
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "enable-init-value") ==> diary.enableInitValSet == old(diary.enableInitValSet) && diary.enableInitVal == old(diary.enableInitVal)
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "enable-reset-value" ==> !old(diary.enableResetValSet) && diary.enableResetValSet && diary.enableResetVal == ev(propVal(typ, k))
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "enable-reset-value") ==> diary.enableResetValSet == old(diary.enableResetValSet) && diary.enableResetVal == old(diary.enableResetVal)
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "in-trigger" ==> !old(diary.inTriggerSet) && diary.inTriggerSet && irq.InTrigger == as(ev(propVal(typ, k)), val.Str)
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "in-trigger") ==> diary.inTriggerSet == old(diary.inTriggerSet) && irq.InTrigger == old(irq.InTrigger)
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "out-trigger" ==> !old(diary.outTriggerSet) && diary.outTriggerSet && irq.OutTrigger == as(ev(propVal(typ, k)), val.Str)
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "out-trigger") ==> diary.outTriggerSet == old(diary.outTriggerSet) && irq.OutTrigger == old(irq.OutTrigger)
    invariant forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < $n ==> propName(typ, j) != propName(typ, k)
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> validProp(propName(typ, k), "irq") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k))))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "add-enable" ==> !old(diary.addEnableSet) && diary.addEnableSet && irq.AddEnable == as(ev(propVal(typ, k)), val.Bool))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "add-enable") ==> diary.addEnableSet == old(diary.addEnableSet) && irq.AddEnable == old(irq.AddEnable))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "clear" ==> !old(diary.clearSet) && diary.clearSet && irq.Clear == as(ev(propVal(typ, k)), val.Str))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "clear") ==> diary.clearSet == old(diary.clearSet) && irq.Clear == old(irq.Clear))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "enable-init-value" ==> !old(diary.enableInitValSet) && diary.enableInitValSet && diary.enableInitVal == ev(propVal(typ, k)))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "enable-init-value") ==> diary.enableInitValSet == old(diary.enableInitValSet) && diary.enableInitVal == old(diary.enableInitVal))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "enable-reset-value" ==> !old(diary.enableResetValSet) && diary.enableResetValSet && diary.enableResetVal == ev(propVal(typ, k)))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "enable-reset-value") ==> diary.enableResetValSet == old(diary.enableResetValSet) && diary.enableResetVal == old(diary.enableResetVal))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "in-trigger" ==> !old(diary.inTriggerSet) && diary.inTriggerSet && irq.InTrigger == as(ev(propVal(typ, k)), val.Str))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "in-trigger") ==> diary.inTriggerSet == old(diary.inTriggerSet) && irq.InTrigger == old(irq.InTrigger))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "out-trigger" ==> !old(diary.outTriggerSet) && diary.outTriggerSet && irq.OutTrigger == as(ev(propVal(typ, k)), val.Str))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "out-trigger") ==> diary.outTriggerSet == old(diary.outTriggerSet) && irq.OutTrigger == old(irq.OutTrigger))
  ensures result == nil ==> (forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < propCount(typ) ==> propName(typ, j) != propName(typ, k))
  ensures (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> validProp(propName(typ, k), "irq") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k)))) && (forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < propCount(typ) ==> propName(typ, j) != propName(typ, k)) && (old(diary.addEnableSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "add-enable") && (old(diary.clearSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "clear") && (old(diary.enableInitValSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "enable-init-value") && (old(diary.enableResetValSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "enable-reset-value") && (old(diary.inTriggerSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "in-trigger") && (old(diary.outTriggerSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "out-trigger") ==> result == nil

func internal/ins.applyBlackboxType
  property C07
  requires bb != nil && diary != nil && typ != nil
  modifies diary.sizeSet, bb.Size
  loop 0
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n ==> validProp(propName(typ, k), "blackbox") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k)))
    invariant forall k :: {propName(typ, k)} 0 <= k && k < $n && propName(typ, k) == "size" ==> !old(diary.sizeSet) && diary.sizeSet && bb.Size == as(ev(propVal(typ, k)), val.Int)
    invariant (forall k :: {propName(typ, k)} 0 <= k && k < $n ==> propName(typ, k) != "size") ==> diary.sizeSet == old(diary.sizeSet) && bb.Size == old(bb.Size)
    invariant forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < $n ==> propName(typ, j) != propName(typ, k)
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> validProp(propName(typ, k), "blackbox") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k))))
  ensures result == nil ==> (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) && propName(typ, k) == "size" ==> !old(diary.sizeSet) && diary.sizeSet && bb.Size == as(ev(propVal(typ, k)), val.Int))
  ensures result == nil ==> ((forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "size") ==> diary.sizeSet == old(diary.sizeSet) && bb.Size == old(bb.Size))
  ensures result == nil ==> (forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < propCount(typ) ==> propName(typ, j) != propName(typ, k))
  ensures (forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> validProp(propName(typ, k), "blackbox") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k)))) && (forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < propCount(typ) ==> propName(typ, j) != propName(typ, k)) && (old(diary.sizeSet) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "size") ==> result == nil

# ---- widths
# bits which a range needs: dispatch over the two implementations, each verified under its own contract
define arrBits(w int, ar types.ArrayRange) := w >= 1 && w <= 63 && (forall k :: {ar[k]} 0 <= k && k < len(ar) ==> ar[k].End < pow2(w)) && (w >= 2 ==> exists k :: 0 <= k && k < len(ar) && pow2(w - 1) <= ar[k].End)
define rangeBits(w int, r any) := (typeis(r, types.SingleRange) ==> leastBits(w, as(r, types.SingleRange).End)) && (typeis(r, types.ArrayRange) && len(as(r, types.ArrayRange)) > 0 ==> arrBits(w, as(r, types.ArrayRange)))
invoke pkg/fbdl/types.Range.BitWidth
  property C06, C07
  ensures rangeBits(result, recv)
# width which is given, follows from the range, or is the width of the bus
define widthOf(w int, given int, widthSet bool, rangeSet bool, r any) := (widthSet ==> w == given) && (!widthSet && rangeSet ==> rangeBits(w, r)) && (!widthSet && !rangeSet ==> w == busWidth)

func internal/ins.fillConfigProps
  property C06, C07
  requires cfg != nil && (diary.rangeSet ==> cfg.Range != nil)
  modifies cfg.Atomic, cfg.Width
  ensures widthOf(cfg.Width, old(cfg.Width), diary.widthSet, diary.rangeSet, cfg.Range)
  ensures cfg.Atomic == (!diary.atomicSet || old(cfg.Atomic))
func internal/ins.fillParamProps
  property C06, C07
  requires param != nil && (diary.rangeSet ==> param.Range != nil)
  modifies param.Width
  ensures widthOf(param.Width, old(param.Width), diary.widthSet, diary.rangeSet, param.Range)
func internal/ins.fillMaskProps
  property C06, C07
  requires mask != nil
  modifies mask.Width, mask.Atomic
  ensures mask.Width == ite(diary.widthSet, old(mask.Width), busWidth)
  ensures mask.Atomic == (!diary.atomicSet || old(mask.Atomic))
func internal/ins.fillStaticProps
  property C06, C07
  requires st != nil
  modifies st.Width
  ensures st.Width == ite(diary.widthSet, old(st.Width), busWidth)
func internal/ins.fillStatusProps
  property C06, C07
  requires st != nil
  modifies st.Width, st.Atomic
  ensures st.Width == ite(diary.widthSet, old(st.Width), busWidth)
  ensures st.Atomic == (!diary.atomicSet || old(st.Atomic))
func internal/ins.fillReturnProps
  property C06, C07
  requires ret != nil
  modifies ret.Width
  ensures ret.Width == ite(diary.widthSet, old(ret.Width), busWidth)
func internal/ins.fillIrqProps
  property C07
  requires irq != nil
  modifies irq.Clear, irq.InTrigger, irq.OutTrigger
  ensures irq.Clear == ite(diary.clearSet, old(irq.Clear), "Explicit") && irq.InTrigger == ite(diary.inTriggerSet, old(irq.InTrigger), "Level") && irq.OutTrigger == ite(diary.outTriggerSet, old(irq.OutTrigger), "Level")
func internal/ins.fillBlockProps
  property C06, C07
  requires blk != nil
  modifies blk.Masters, blk.Width
  ensures blk.Masters == ite(old(blk.Masters) == 0, 1, old(blk.Masters)) && blk.Width == ite(old(blk.Width) == 0, 32, old(blk.Width))

# ---- values
# the bit string s is the value v in w bits: the number, or the bit string which is not wider
define isValue(s string, v any, w int) := (typeis(v, val.Int) ==> denotes(s, as(v, val.Int), w)) && (typeis(v, val.BitStr) ==> s == as(v, val.BitStr) && nbits(s) <= w)
define fitsValue(v any, w int) := (typeis(v, val.Int) && fitsW(as(v, val.Int), w)) || (typeis(v, val.BitStr) && nbits(as(v, val.BitStr)) <= w)
define valueOK(v any, w int) := isVal(v) && (typeis(v, val.BitStr) ==> frame(as(v, val.BitStr)) && len(as(v, val.BitStr)) <= 1152921504606846976) && 1 <= w && w <= 1152921504606846976
func internal/ins.processValue
  property C08
  requires valueOK(v, width)
  ensures (result1 == nil) == fitsValue(v, width)
  ensures result1 == nil ==> isValue(result0, v, width)
func internal/ins.fillConfigValues
  property C08
  requires cfg != nil
  requires diary.initValSet ==> valueOK(diary.initVal, cfg.Width)
  requires diary.resetValSet ==> valueOK(diary.resetVal, cfg.Width)
  requires diary.readValSet ==> valueOK(diary.readVal, cfg.Width)
  modifies cfg.InitValue, cfg.ResetValue, cfg.ReadValue
  ensures result == nil && diary.initValSet ==> isValue(cfg.InitValue, diary.initVal, cfg.Width)
  ensures result == nil && !diary.initValSet ==> cfg.InitValue == old(cfg.InitValue)
  ensures result == nil && diary.resetValSet ==> isValue(cfg.ResetValue, diary.resetVal, cfg.Width)
  ensures result == nil && !diary.resetValSet ==> cfg.ResetValue == old(cfg.ResetValue)
  ensures result == nil && diary.readValSet ==> isValue(cfg.ReadValue, diary.readVal, cfg.Width)
  ensures result == nil && !diary.readValSet ==> cfg.ReadValue == old(cfg.ReadValue)
  ensures (diary.initValSet ==> fitsValue(diary.initVal, cfg.Width)) && (diary.resetValSet ==> fitsValue(diary.resetVal, cfg.Width)) && (diary.readValSet ==> fitsValue(diary.readVal, cfg.Width)) ==> result == nil
func internal/ins.fillMaskValues
  property C08
  requires mask != nil
  requires diary.initValSet ==> valueOK(diary.initVal, mask.Width)
  requires diary.resetValSet ==> valueOK(diary.resetVal, mask.Width)
  requires diary.readValSet ==> valueOK(diary.readVal, mask.Width)
  modifies mask.InitValue, mask.ResetValue, mask.ReadValue
  ensures result == nil && diary.initValSet ==> isValue(mask.InitValue, diary.initVal, mask.Width)
  ensures result == nil && !diary.initValSet ==> mask.InitValue == old(mask.InitValue)
  ensures result == nil && diary.resetValSet ==> isValue(mask.ResetValue, diary.resetVal, mask.Width)
  ensures result == nil && !diary.resetValSet ==> mask.ResetValue == old(mask.ResetValue)
  ensures result == nil && diary.readValSet ==> isValue(mask.ReadValue, diary.readVal, mask.Width)
  ensures result == nil && !diary.readValSet ==> mask.ReadValue == old(mask.ReadValue)
  ensures (diary.initValSet ==> fitsValue(diary.initVal, mask.Width)) && (diary.resetValSet ==> fitsValue(diary.resetVal, mask.Width)) && (diary.readValSet ==> fitsValue(diary.readVal, mask.Width)) ==> result == nil
func internal/ins.fillStaticValues
  property C08
  requires st != nil
  requires diary.initValSet ==> valueOK(diary.initVal, st.Width)
  requires diary.resetValSet ==> valueOK(diary.resetVal, st.Width)
  requires diary.readValSet ==> valueOK(diary.readVal, st.Width)
  modifies st.InitValue, st.ResetValue, st.ReadValue
  ensures result == nil && diary.initValSet ==> isValue(st.InitValue, diary.initVal, st.Width)
  ensures result == nil && !diary.initValSet ==> st.InitValue == old(st.InitValue)
  ensures result == nil ==> diary.initValSet
  ensures result == nil && diary.resetValSet ==> isValue(st.ResetValue, diary.resetVal, st.Width)
  ensures result == nil && !diary.resetValSet ==> st.ResetValue == old(st.ResetValue)
  ensures result == nil && diary.readValSet ==> isValue(st.ReadValue, diary.readVal, st.Width)
  ensures result == nil && !diary.readValSet ==> st.ReadValue == old(st.ReadValue)
  ensures (diary.initValSet ==> fitsValue(diary.initVal, st.Width)) && (diary.resetValSet ==> fitsValue(diary.resetVal, st.Width)) && (diary.readValSet ==> fitsValue(diary.readVal, st.Width)) && diary.initValSet ==> result == nil
func internal/ins.fillIrqValues
  property C08
  requires irq != nil
  requires diary.enableInitValSet ==> valueOK(diary.enableInitVal, 1)
  requires diary.enableResetValSet ==> valueOK(diary.enableResetVal, 1)
  modifies irq.EnableInitValue, irq.EnableResetValue
  ensures result == nil && diary.enableInitValSet ==> irq.AddEnable && isValue(irq.EnableInitValue, diary.enableInitVal, 1)
  ensures result == nil && !diary.enableInitValSet ==> irq.EnableInitValue == old(irq.EnableInitValue)
  ensures result == nil && diary.enableResetValSet ==> irq.AddEnable && isValue(irq.EnableResetValue, diary.enableResetVal, 1)
  ensures result == nil && !diary.enableResetValSet ==> irq.EnableResetValue == old(irq.EnableResetValue)
  ensures (diary.enableInitValSet ==> irq.AddEnable && fitsValue(diary.enableInitVal, 1)) && (diary.enableResetValSet ==> irq.AddEnable && fitsValue(diary.enableResetVal, 1)) ==> result == nil

