# Pool of unused register bits: internal/gap
package internal/gap

define gwidth(g gap.Single) := g.EndBit - g.StartBit + 1
define gbits(g gap.Single) := -1048576 <= g.StartBit && g.StartBit <= 1048576 && -1048576 <= g.EndBit && g.EndBit <= 1048576
# gaps are sorted by width, narrowest first
define poolSorted(p *Pool) := forall i, j :: {p.singles[i], p.singles[j]} 0 <= i && i < j && j < len(p.singles) ==> gwidth(p.singles[i]) <= gwidth(p.singles[j])
define poolBits(p *Pool) := len(p.singles) <= 16777216 && forall i :: {p.singles[i]} 0 <= i && i < len(p.singles) ==> gbits(p.singles[i])

func internal/gap.(*Pool).Add
  property C03
  requires typeis(g, Single) && gbits(as(g, Single))
  requires poolSorted(p) && poolBits(p)
  modifies p.singles, elems(p.singles)
  loop 0
    invariant forall k :: 0 <= k && k < $n ==> gwidth(p.singles[k]) <= gwidth(as(g, Single))
    invariant p.singles == old(p.singles)
    invariant forall k :: 0 <= k && k < len(p.singles) ==> p.singles[k] == old(p.singles[k])
  end
  ensures len(p.singles) == old(len(p.singles)) + 1
  ensures exists i :: {p.singles[i]} 0 <= i && i < len(p.singles) && p.singles[i] == as(g, Single) && (forall k :: {p.singles[k]} 0 <= k && k < i ==> p.singles[k] == old(p.singles[k])) && (forall k :: {p.singles[k]} i < k && k < len(p.singles) ==> p.singles[k] == old(p.singles[k-1]))
  ensures poolSorted(p)
  ensures len(p.singles) <= 16777216 ==> poolBits(p)
  ensures arr(p.singles) == old(arr(p.singles)) || fresh(p.singles)

func internal/gap.(*Pool).GetSingle
  property C03
  requires poolSorted(p) && poolBits(p)
  modifies p.singles, elems(p.singles)
  loop 0
    invariant forall k :: 0 <= k && k < $n ==> gwidth(p.singles[k]) < width || (writeSafe && !p.singles[k].WriteSafe)
    invariant p.singles == old(p.singles)
    invariant forall k :: 0 <= k && k < len(p.singles) ==> p.singles[k] == old(p.singles[k])
  end
  ensures result1 ==> gwidth(result0) >= width && (writeSafe ==> result0.WriteSafe)
  ensures result1 ==> len(p.singles) == old(len(p.singles)) - 1
  ensures result1 ==> exists i :: {old(p.singles[i])} 0 <= i && i <= len(p.singles) && result0 == old(p.singles[i]) && (forall k :: {p.singles[k]} 0 <= k && k < i ==> p.singles[k] == old(p.singles[k]) && (gwidth(p.singles[k]) < width || (writeSafe && !p.singles[k].WriteSafe))) && (forall k :: {p.singles[k]} i <= k && k < len(p.singles) ==> p.singles[k] == old(p.singles[k+1]))
  ensures !result1 ==> p.singles == old(p.singles) && forall k :: {p.singles[k]} 0 <= k && k < len(p.singles) ==> p.singles[k] == old(p.singles[k]) && (gwidth(p.singles[k]) < width || (writeSafe && !p.singles[k].WriteSafe))
  ensures poolSorted(p) && poolBits(p)
  ensures arr(p.singles) == old(arr(p.singles)) || fresh(p.singles)
