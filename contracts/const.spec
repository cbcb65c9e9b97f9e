# Exported constants: internal/util/constContainer, internal/ins
package internal/util/constContainer

define hasConst(c cnst.Container, n string) := has(c.Bools, n) || has(c.BoolLists, n) || has(c.Floats, n) || has(c.Ints, n) || has(c.IntLists, n) || has(c.Strings, n)

func internal/util/constContainer.HasConst
  property C17
  ensures result == hasConst(c, name)

define allBools(l val.List) := forall k :: {l[k]} 0 <= k && k < len(l) ==> typeis(l[k], val.Bool)
define allInts(l val.List) := forall k :: {l[k]} 0 <= k && k < len(l) ==> typeis(l[k], val.Int)

func internal/util/constContainer.constifyBoolList
  property C17
  loop 0
    invariant len(bools) == $n && (cap(bools) == 0 || fresh(bools))
    invariant forall k :: {bools[k]} {l[k]} 0 <= k && k < $n ==> typeis(l[k], val.Bool) && bools[k] == as(l[k], val.Bool)
  ensures !allBools(l) ==> len(result) == 0
  ensures allBools(l) ==> len(result) == len(l) && forall k :: {result[k]} 0 <= k && k < len(l) ==> result[k] == as(l[k], val.Bool)

func internal/util/constContainer.constifyIntList
  property C17
  loop 0
    invariant len(ints) == $n && (cap(ints) == 0 || fresh(ints))
    invariant forall k :: {ints[k]} {l[k]} 0 <= k && k < $n ==> typeis(l[k], val.Int) && ints[k] == as(l[k], val.Int)
  ensures !allInts(l) ==> len(result) == 0
  ensures allInts(l) ==> len(result) == len(l) && forall k :: {result[k]} 0 <= k && k < len(l) ==> result[k] == as(l[k], val.Int)

func internal/util/constContainer.addBoolConst
  property C17
  requires c != nil && typeis(v, val.Bool)
  modifies c.Bools, map(c.Bools)
  ensures c.Bools == old(c.Bools) || fresh(c.Bools)
  ensures has(c.Bools, name) && c.Bools[name] == as(v, val.Bool)
  ensures forall n string :: {has(c.Bools, n)} n != name ==> has(c.Bools, n) == old(has(c.Bools, n)) && (has(c.Bools, n) ==> c.Bools[n] == old(c.Bools[n]))

func internal/util/constContainer.addFloatConst
  property C17
  requires c != nil && typeis(v, val.Float)
  modifies c.Floats, map(c.Floats)
  ensures c.Floats == old(c.Floats) || fresh(c.Floats)
  ensures has(c.Floats, name) && c.Floats[name] == as(v, val.Float)
  ensures forall n string :: {has(c.Floats, n)} n != name ==> has(c.Floats, n) == old(has(c.Floats, n)) && (has(c.Floats, n) ==> c.Floats[n] == old(c.Floats[n]))

func internal/util/constContainer.addIntConst
  property C17
  requires c != nil && typeis(v, val.Int)
  modifies c.Ints, map(c.Ints)
  ensures c.Ints == old(c.Ints) || fresh(c.Ints)
  ensures has(c.Ints, name) && c.Ints[name] == as(v, val.Int)
  ensures forall n string :: {has(c.Ints, n)} n != name ==> has(c.Ints, n) == old(has(c.Ints, n)) && (has(c.Ints, n) ==> c.Ints[n] == old(c.Ints[n]))

func internal/util/constContainer.addStrConst
  property C17
  requires c != nil && typeis(v, val.Str)
  modifies c.Strings, map(c.Strings)
  ensures c.Strings == old(c.Strings) || fresh(c.Strings)
  ensures has(c.Strings, name) && c.Strings[name] == as(v, val.Str)
  ensures forall n string :: {has(c.Strings, n)} n != name ==> has(c.Strings, n) == old(has(c.Strings, n)) && (has(c.Strings, n) ==> c.Strings[n] == old(c.Strings[n]))

func internal/util/constContainer.addBoolListConst
  property C17
  requires c != nil && typeis(v, val.List)
  modifies c.BoolLists, map(c.BoolLists)
  ensures c.BoolLists == old(c.BoolLists) || fresh(c.BoolLists)
  ensures result == (len(as(v, val.List)) > 0 && allBools(as(v, val.List)))
  ensures result ==> has(c.BoolLists, name) && len(c.BoolLists[name]) == len(as(v, val.List))
  ensures result ==> forall k :: {c.BoolLists[name][k]} 0 <= k && k < len(as(v, val.List)) ==> c.BoolLists[name][k] == as(as(v, val.List)[k], val.Bool)
  ensures forall n string :: {has(c.BoolLists, n)} (n != name || !result) ==> has(c.BoolLists, n) == old(has(c.BoolLists, n)) && (has(c.BoolLists, n) ==> c.BoolLists[n] == old(c.BoolLists[n]))

func internal/util/constContainer.addIntListConst
  property C17
  requires c != nil && typeis(v, val.List)
  modifies c.IntLists, map(c.IntLists)
  ensures c.IntLists == old(c.IntLists) || fresh(c.IntLists)
  ensures result == (len(as(v, val.List)) > 0 && allInts(as(v, val.List)))
  ensures result ==> has(c.IntLists, name) && len(c.IntLists[name]) == len(as(v, val.List))
  ensures result ==> forall k :: {c.IntLists[name][k]} 0 <= k && k < len(as(v, val.List)) ==> c.IntLists[name][k] == as(as(v, val.List)[k], val.Int)
  ensures forall n string :: {has(c.IntLists, n)} (n != name || !result) ==> has(c.IntLists, n) == old(has(c.IntLists, n)) && (has(c.IntLists, n) ==> c.IntLists[n] == old(c.IntLists[n]))

define exportable(v val.Value) := typeis(v, val.Bool) || typeis(v, val.Float) || typeis(v, val.Int) || typeis(v, val.Str) || typeis(v, val.List) && len(as(v, val.List)) > 0 && (allBools(as(v, val.List)) || allInts(as(v, val.List)))

invoke internal/val.Value.Type
  property C17
  pure

func internal/util/constContainer.AddConst
  property C17
  requires c != nil && v != nil
  modifies c.Bools, map(c.Bools), c.BoolLists, map(c.BoolLists), c.Floats, map(c.Floats), c.Ints, map(c.Ints), c.IntLists, map(c.IntLists), c.Strings, map(c.Strings)
  ensures c.Bools == old(c.Bools) || fresh(c.Bools)
  ensures c.BoolLists == old(c.BoolLists) || fresh(c.BoolLists)
  ensures c.Floats == old(c.Floats) || fresh(c.Floats)
  ensures c.Ints == old(c.Ints) || fresh(c.Ints)
  ensures c.IntLists == old(c.IntLists) || fresh(c.IntLists)
  ensures c.Strings == old(c.Strings) || fresh(c.Strings)
  ensures (result == nil) == exportable(v)
  ensures typeis(v, val.Bool) ==> has(c.Bools, name) && c.Bools[name] == as(v, val.Bool)
  ensures typeis(v, val.Float) ==> has(c.Floats, name) && c.Floats[name] == as(v, val.Float)
  ensures typeis(v, val.Int) ==> has(c.Ints, name) && c.Ints[name] == as(v, val.Int)
  ensures typeis(v, val.Str) ==> has(c.Strings, name) && c.Strings[name] == as(v, val.Str)
  ensures typeis(v, val.List) && len(as(v, val.List)) > 0 && allBools(as(v, val.List)) ==> has(c.BoolLists, name) && len(c.BoolLists[name]) == len(as(v, val.List)) && forall k :: {c.BoolLists[name][k]} 0 <= k && k < len(as(v, val.List)) ==> c.BoolLists[name][k] == as(as(v, val.List)[k], val.Bool)
  ensures typeis(v, val.List) && len(as(v, val.List)) > 0 && allInts(as(v, val.List)) ==> has(c.IntLists, name) && len(c.IntLists[name]) == len(as(v, val.List)) && forall k :: {c.IntLists[name][k]} 0 <= k && k < len(as(v, val.List)) ==> c.IntLists[name][k] == as(as(v, val.List)[k], val.Int)
  ensures forall n string :: {has(c.Bools, n)} n != name ==> has(c.Bools, n) == old(has(c.Bools, n)) && (has(c.Bools, n) ==> c.Bools[n] == old(c.Bools[n]))
  ensures forall n string :: {has(c.BoolLists, n)} n != name ==> has(c.BoolLists, n) == old(has(c.BoolLists, n)) && (has(c.BoolLists, n) ==> c.BoolLists[n] == old(c.BoolLists[n]))
  ensures forall n string :: {has(c.Floats, n)} n != name ==> has(c.Floats, n) == old(has(c.Floats, n)) && (has(c.Floats, n) ==> c.Floats[n] == old(c.Floats[n]))
  ensures forall n string :: {has(c.Ints, n)} n != name ==> has(c.Ints, n) == old(has(c.Ints, n)) && (has(c.Ints, n) ==> c.Ints[n] == old(c.Ints[n]))
  ensures forall n string :: {has(c.IntLists, n)} n != name ==> has(c.IntLists, n) == old(has(c.IntLists, n)) && (has(c.IntLists, n) ==> c.IntLists[n] == old(c.IntLists[n]))
  ensures forall n string :: {has(c.Strings, n)} n != name ==> has(c.Strings, n) == old(has(c.Strings, n)) && (has(c.Strings, n) ==> c.Strings[n] == old(c.Strings[n]))
  ensures !(typeis(v, val.Bool)) ==> has(c.Bools, name) == old(has(c.Bools, name))
  ensures !(typeis(v, val.List) && len(as(v, val.List)) > 0 && allBools(as(v, val.List))) ==> has(c.BoolLists, name) == old(has(c.BoolLists, name))
  ensures !(typeis(v, val.Float)) ==> has(c.Floats, name) == old(has(c.Floats, name))
  ensures !(typeis(v, val.Int)) ==> has(c.Ints, name) == old(has(c.Ints, name))
  ensures !(typeis(v, val.List) && len(as(v, val.List)) > 0 && allInts(as(v, val.List))) ==> has(c.IntLists, name) == old(has(c.IntLists, name))
  ensures !(typeis(v, val.Str)) ==> has(c.Strings, name) == old(has(c.Strings, name))

define placed(c cnst.Container, n string, v any) :=
    (typeis(v, val.Bool) ==> has(c.Bools, n) && c.Bools[n] == as(v, val.Bool)) &&
    (typeis(v, val.Float) ==> has(c.Floats, n) && c.Floats[n] == as(v, val.Float)) &&
    (typeis(v, val.Int) ==> has(c.Ints, n) && c.Ints[n] == as(v, val.Int)) &&
    (typeis(v, val.Str) ==> has(c.Strings, n) && c.Strings[n] == as(v, val.Str)) &&
    (typeis(v, val.List) && allBools(as(v, val.List)) ==> has(c.BoolLists, n) && len(c.BoolLists[n]) == len(as(v, val.List)) && forall k :: {c.BoolLists[n][k]} 0 <= k && k < len(as(v, val.List)) ==> c.BoolLists[n][k] == as(as(v, val.List)[k], val.Bool)) &&
    (typeis(v, val.List) && allInts(as(v, val.List)) ==> has(c.IntLists, n) && len(c.IntLists[n]) == len(as(v, val.List)) && forall k :: {c.IntLists[n][k]} 0 <= k && k < len(as(v, val.List)) ==> c.IntLists[n][k] == as(as(v, val.List)[k], val.Int))

package internal/ins
func internal/ins.constifyPkg
  property C17
  requires pp != nil
  requires forall i :: {pp.Consts[i]} 0 <= i && i < len(pp.Consts) ==> pp.Consts[i] != nil && pp.Consts[i].Value != nil
  requires forall i, j :: {pp.Consts[i], pp.Consts[j]} 0 <= i && i < j && j < len(pp.Consts) ==> pp.Consts[i].name != pp.Consts[j].name
  loop 0
    invariant forall k :: {pp.Consts[k]} 0 <= k && k < $n ==> evok(pp.Consts[k].Value) && exportable(ev(pp.Consts[k].Value)) && placed(p.Consts, pp.Consts[k].name, ev(pp.Consts[k].Value))
    invariant p.Consts.Bools == nil || fresh(p.Consts.Bools)
    invariant p.Consts.BoolLists == nil || fresh(p.Consts.BoolLists)
    invariant p.Consts.Floats == nil || fresh(p.Consts.Floats)
    invariant p.Consts.Ints == nil || fresh(p.Consts.Ints)
    invariant p.Consts.IntLists == nil || fresh(p.Consts.IntLists)
    invariant p.Consts.Strings == nil || fresh(p.Consts.Strings)
    invariant forall m string :: hasConst(p.Consts, m) ==> exists k :: {pp.Consts[k]} 0 <= k && k < $n && pp.Consts[k].name == m
  ensures result1 == nil ==> result0 != nil
  ensures result1 == nil ==> forall k :: {pp.Consts[k]} 0 <= k && k < len(pp.Consts) ==> evok(pp.Consts[k].Value) && exportable(ev(pp.Consts[k].Value)) && placed(result0.Consts, pp.Consts[k].name, ev(pp.Consts[k].Value))
  ensures result1 == nil ==> forall m string :: hasConst(result0.Consts, m) ==> exists k :: {pp.Consts[k]} 0 <= k && k < len(pp.Consts) && pp.Consts[k].name == m
