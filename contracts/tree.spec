# Address spaces of blocks: internal/util alignment, internal/reg block tree
package internal/util

define isPow2(n int) := exists k :: {pow2(k)} 0 <= k && k <= 62 && n == pow2(k)

# the same, for use under quantifiers: the definition is unfolded for numbers which are shown
function pow2Size(int) bool
function multOf(int, int) bool
function shown(int) bool
# a term which the definition below is unfolded for
axiom shownZero: shown(0)
axiom shownAny: forall n int :: {shown(n)} shown(n)
axiom pow2SizeDef: forall n int :: {pow2Size(n), shown(n)} pow2Size(n) == isPow2(n)
# the exponent of a power of two
function lg(int) int
axiom lgPow2: forall k, n int :: {pow2(k), lg(n)} 0 <= k && k <= 62 && n == pow2(k) ==> lg(n) == k
axiom multOfDef: forall n, d int :: {multOf(n, d), shown(n)} multOf(n, d) == (n % d == 0)

lemma double(a int, b int, c int)
  property C04
  requires b == 2 * c
  ensures a * b == 2 * (a * c)
lemma pow2Step(n int)
  property C04
  requires n >= 1
  ensures pow2(n) == 2 * pow2(n - 1)
lemma pow2Sum(p int, q int)
  property C04
  requires 0 <= p && p <= q
  induct q
  use pow2Step(q)
  use pow2Step(q - p)
  use double(pow2(p), pow2(q - p), pow2(q - 1 - p))
  ensures pow2(q) == pow2(p) * pow2(q - p)
lemma assoc(a int, b int, c int)
  property C04
  ensures (a * b) * c == a * (b * c)
lemma mulDiv(n int, a int, m int)
  property C04
  requires a >= 1 && m >= 1 && a * m >= 1 && n % (a * m) == 0
  use assoc(a, m, n / (a * m))
  use divUnique(n, a, m * (n / (a * m)), 0)
  ensures n % a == 0
lemma divPow2(n int, a int, b int)
  property C04
  requires shown(n) && shown(a) && shown(b) && pow2Size(a) && pow2Size(b) && a <= b && multOf(n, b)
  use pow2Sum(lg(a), lg(b))
  use mulDiv(n, a, pow2(lg(b) - lg(a)))
  ensures multOf(n, a)
lemma subMul(n int, c int, a int)
  property C04
  requires shown(n) && shown(n - c * a) && a >= 1 && multOf(n, a)
  use divUnique(n - c * a, a, n / a - c, 0)
  ensures multOf(n - c * a, a)
lemma addMul(n int, c int, a int)
  property C04
  requires shown(n) && shown(n + c * a) && a >= 1 && multOf(n, a)
  use divUnique(n + c * a, a, n / a + c, 0)
  ensures multOf(n + c * a, a)

func internal/util.AlignToPowerOf2
  property C04
  requires n <= 4611686018427387904
  ensures n <= 0 ==> result == 0
  ensures n > 0 ==> isPow2(result) && n <= result && result < 2 * n

func internal/util.AlignToMultipleOf
  property C04
  requires 0 <= n && 1 <= m && n + m <= 4611686018427387904
  use divUnique(n, m, n / m, n % m)
  useret divUnique(result, m, result / m, 0)
  ensures result % m == 0 && n <= result && result < n + m

package internal/reg

func internal/reg.alignBlockSize
  property C04
  requires 0 <= align
  requires 0 <= sizes.Own
  requires 0 <= sizes.Aligned
  given align <= 576460752303423488 && sizes.Own + sizes.Aligned <= 576460752303423488
  ensures result.Own == sizes.Own && result.Cumulated == sizes.Cumulated
  ensures result.Aligned >= sizes.Own + sizes.Aligned && result.Aligned <= 1152921504606846976
  ensures align == 0 && sizes.Own + sizes.Aligned > 0 ==> isPow2(result.Aligned)
  ensures align == 0 && sizes.Own + sizes.Aligned == 0 ==> result.Aligned == 0
  ensures align > 0 ==> result.Aligned % align == 0
  ensures align == 0 && sizes.Own + sizes.Aligned > 0 && shown(result.Aligned) ==> pow2Size(result.Aligned)
  ensures align > 0 && shown(result.Aligned) ==> multOf(result.Aligned, align)

# ---- trees of blocks ----
# Labels of a tree of blocks, written once when the tree is built: lo and hi number
# the blocks in preorder, so that the blocks of the tree under b are those whose
# interval lies in the one of b; subsOf(a) is the block whose subblocks are held by
# the array a.
function lo(int) int
function hi(int) int
function node(int) bool
function subsOf(int) int
function via(int, int) int
function open(int) bool
axiom openAny: forall b int :: {open(b)} open(b)
function pick(int) bool
axiom pickAny: forall b int :: {pick(b)} pick(b)

# marks of instances which quantified hypotheses are to be used for
function mark(int) bool
axiom markAny: forall k int :: {mark(k)} mark(k)
# no alignment is given anywhere in the tree
function plain(int) bool

define inTree(r int, b int) := lo(b) <= lo(r) && lo(r) < hi(r) && hi(r) <= hi(b)
define blockShape(b *fn.Block) := b != nil && node(ref(b)) && lo(ref(b)) < hi(ref(b)) && b.Count >= 1 && (!b.IsArray ==> b.Count == 1) && b.Align >= 0 && (plain(0) ==> b.Align == 0)
define subsShape(b *fn.Block) := (len(b.Subblocks) > 0 ==> subsOf(arr(b.Subblocks)) == ref(b)) &&
  (forall i :: {b.Subblocks[i]} 0 <= i && i < len(b.Subblocks) ==> blockShape(b.Subblocks[i]) && lo(ref(b)) < lo(ref(b.Subblocks[i])) && hi(ref(b.Subblocks[i])) <= hi(ref(b)))
define subsApart(b *fn.Block) := forall i, j :: {b.Subblocks[i], b.Subblocks[j], pick(ref(b.Subblocks[j]))} 0 <= i && i < len(b.Subblocks) && 0 <= j && j < len(b.Subblocks) && i != j && pick(ref(b.Subblocks[j])) ==> hi(ref(b.Subblocks[i])) <= lo(ref(b.Subblocks[j])) || hi(ref(b.Subblocks[j])) <= lo(ref(b.Subblocks[i]))
define isSub(b *fn.Block, s int) := exists k :: {b.Subblocks[k]} 0 <= k && k < len(b.Subblocks) && ref(b.Subblocks[k]) == s
define subsCover(b *fn.Block) := forall r int :: {via(ref(b), r)} node(r) && inTree(r, ref(b)) && r != ref(b) ==> inTree(r, via(ref(b), r)) && isSub(b, via(ref(b), r))
define leafOK(b *fn.Block) := len(b.Subblocks) == 0 ==> forall r int :: {node(r)} node(r) && inTree(r, ref(b)) ==> r == ref(b)
define treesShape(b *fn.Block) := forall r *fn.Block :: {node(ref(r))} node(ref(r)) && inTree(ref(r), ref(b)) ==> r != nil && allocated(r) && subsShape(r) && leafOK(r)
define treesApart(b *fn.Block) := forall r *fn.Block :: {node(ref(r)), open(ref(r))} node(ref(r)) && open(ref(r)) && inTree(ref(r), ref(b)) ==> subsApart(r)
define treesCover(b *fn.Block) := forall r *fn.Block :: {node(ref(r)), open(ref(r))} node(ref(r)) && open(ref(r)) && inTree(ref(r), ref(b)) ==> subsCover(r)

# ---- sizes ----
sum spans(it *fn.Block) := it.Count * it.Sizes.Aligned
sum cumul(it *fn.Block) := it.Count * it.Sizes.Cumulated

define alignOf(b *fn.Block) := ite(b.Align == 0, busAlign, b.Align)
define sizedSum(b *fn.Block) := 0 <= b.Sizes.Own && b.Sizes.Own + spans(b.Subblocks, len(b.Subblocks)) <= b.Sizes.Aligned
define sizedCum(b *fn.Block) := b.Sizes.Cumulated == b.Sizes.Own + cumul(b.Subblocks, len(b.Subblocks))
define sizedAl(b *fn.Block) := 0 <= b.Sizes.Aligned && b.Sizes.Aligned <= b.Count * b.Sizes.Aligned &&
  (alignOf(b) == 0 && b.Sizes.Aligned > 0 ==> pow2Size(b.Sizes.Aligned)) &&
  (alignOf(b) > 0 ==> multOf(b.Sizes.Aligned, alignOf(b)))
define sized(b *fn.Block) := sizedSum(b) && sizedCum(b) && sizedAl(b)
define sizedAll(b *fn.Block) := (forall r *fn.Block :: {node(ref(r))} node(ref(r)) && inTree(ref(r), ref(b)) && open(via(ref(b), ref(r))) ==> sizedAl(r)) &&
  (forall r *fn.Block :: {node(ref(r)), open(ref(r))} node(ref(r)) && open(ref(r)) && inTree(ref(r), ref(b)) && open(via(ref(b), ref(r))) ==> sizedSum(r) && sizedCum(r))

func internal/reg.regBlock
  property C04
  math
  requires blockShape(blk) && busAlign >= 0
  requires treesShape(blk)
  requires treesApart(blk)
  requires treesCover(blk)
  requires open(ref(blk))
  decreases hi(ref(blk)) - lo(ref(blk))
  modifies any fn.Block.Sizes if inTree(ref(it), ref(blk))
  modifies any fn.Proc.CallAddr if inTree(owns(ref(it)), ref(blk))
  modifies any fn.Proc.ExitAddr if inTree(owns(ref(it)), ref(blk))
  modifies any fn.Param.Access if inTree(owns(owns(ref(it))), ref(blk)) || inTree(0 - owns(owns(ref(it))), ref(blk))
  modifies any fn.Return.Access if inTree(owns(owns(ref(it))), ref(blk)) || inTree(0 - owns(owns(ref(it))), ref(blk))
  modifies any fn.Stream.StbAddr if inTree(0 - owns(ref(it)), ref(blk))
  modifies any fn.Config.Access if inTree(owns(ref(it)), ref(blk))
  modifies any fn.Mask.Access if inTree(owns(ref(it)), ref(blk))
  modifies any fn.Static.Access if inTree(owns(ref(it)), ref(blk))
  modifies any fn.Status.Access if inTree(owns(ref(it)), ref(blk))
  modifies any fn.Irq.Access if inTree(owns(ref(it)), ref(blk))
  modifies any fn.Irq.EnableAccess if inTree(owns(ref(it)), ref(blk))
  modifies any fn.Irq.ClearAddr if inTree(owns(ref(it)), ref(blk))
  ghostset owner(e, a, b) := _
  ghostset okind(e, a, b) := _
  loop 0
    invariant sizes.Own == addr && 0 <= addr
    invariant 0 <= sizes.Own
    invariant busAlign == old(busAlign)
    invariant blk.Align == old(blk.Align)
    invariant sizes.Aligned == spans(blk.Subblocks, $n) && 0 <= sizes.Aligned
    invariant sizes.Cumulated == sizes.Own + cumul(blk.Subblocks, $n)
    invariant forall k, r *fn.Block :: {blk.Subblocks[k], node(ref(r))} 0 <= k && k < $n && node(ref(r)) && inTree(ref(r), ref(blk.Subblocks[k])) ==> sizedAl(r)
    invariant forall k, r *fn.Block :: {blk.Subblocks[k], node(ref(r)), open(ref(r))} 0 <= k && k < $n && node(ref(r)) && open(ref(r)) && inTree(ref(r), ref(blk.Subblocks[k])) ==> sizedSum(r)
    invariant forall k, r *fn.Block :: {blk.Subblocks[k], node(ref(r)), open(ref(r))} 0 <= k && k < $n && node(ref(r)) && open(ref(r)) && inTree(ref(r), ref(blk.Subblocks[k])) ==> sizedCum(r)
  ensures result == blk.Sizes
  ensures pick(ref(blk))
  ensures 0 <= blk.Sizes.Own
  ensures blk.Sizes.Own + spans(blk.Subblocks, len(blk.Subblocks)) <= blk.Sizes.Aligned
  ensures blk.Sizes.Cumulated == blk.Sizes.Own + cumul(blk.Subblocks, len(blk.Subblocks)) && 0 <= blk.Sizes.Aligned
  ensures alignOf(blk) == 0 && blk.Sizes.Aligned > 0 ==> pow2Size(blk.Sizes.Aligned)
  ensures alignOf(blk) > 0 ==> multOf(blk.Sizes.Aligned, alignOf(blk))
  ensures sizedAll(blk)

# ---- addresses ----
define placedSub(s *fn.Block) := s.AddrSpace.End == s.AddrSpace.Start + s.Count * s.Sizes.Aligned - 1
# subblocks from index n on: each has its own space, between lo and the end of the space of the block, in increasing order
define subsPlaced(b *fn.Block, n int) := forall k :: {b.Subblocks[k]} n <= k && k < len(b.Subblocks) ==> placedSub(b.Subblocks[k])
define subsLow(b *fn.Block, n int, low int) := forall k :: {b.Subblocks[k]} n <= k && k < len(b.Subblocks) ==> low <= b.Subblocks[k].AddrSpace.Start
define subsHigh(b *fn.Block, n int) := forall k :: {b.Subblocks[k]} n <= k && k < len(b.Subblocks) ==> b.Subblocks[k].AddrSpace.End <= b.AddrSpace.End
define lowOf(b *fn.Block) := b.AddrSpace.End + 1 - b.Sizes.Aligned + b.Sizes.Own
define subsPacked(b *fn.Block, n int) := forall k :: {b.Subblocks[k]} n <= k && k < len(b.Subblocks) ==> b.Subblocks[k].AddrSpace.Start == b.AddrSpace.End + 1 - spans(b.Subblocks, len(b.Subblocks)) + spans(b.Subblocks, k)

define allPlaced(b *fn.Block) := forall r *fn.Block :: {node(ref(r)), open(ref(r))} node(ref(r)) && open(ref(r)) && inTree(ref(r), ref(b)) && open(via(ref(b), ref(r))) ==> subsPlaced(r, 0)
define allLow(b *fn.Block) := forall r *fn.Block :: {node(ref(r)), open(ref(r))} node(ref(r)) && open(ref(r)) && inTree(ref(r), ref(b)) && open(via(ref(b), ref(r))) ==> subsLow(r, 0, lowOf(r))
define allHigh(b *fn.Block) := forall r *fn.Block :: {node(ref(r)), open(ref(r))} node(ref(r)) && open(ref(r)) && inTree(ref(r), ref(b)) && open(via(ref(b), ref(r))) ==> subsHigh(r, 0)
define allPacked(b *fn.Block) := forall r *fn.Block :: {node(ref(r)), open(ref(r))} node(ref(r)) && open(ref(r)) && inTree(ref(r), ref(b)) && open(via(ref(b), ref(r))) ==> subsPacked(r, 0)

define startOK(b *fn.Block) := plain(0) && b.Sizes.Aligned > 0 ==> multOf(b.AddrSpace.Start, b.Sizes.Aligned)
define allStart(b *fn.Block) := forall r *fn.Block :: {node(ref(r)), open(ref(r))} node(ref(r)) && open(ref(r)) && inTree(ref(r), ref(b)) && open(via(ref(b), ref(r))) ==> startOK(r)
define topAl(b *fn.Block, i int) := ite(i + 1 < len(b.Subblocks), b.Subblocks[i + 1].Sizes.Aligned, b.Sizes.Aligned)

func internal/reg.assignGlobalAccessAddresses$1
  property C04
  requires blk != nil && *blk != nil && 0 <= i && i < len((*blk).Subblocks) && 0 <= j && j < len((*blk).Subblocks)
  requires (*blk).Subblocks[i] != nil && (*blk).Subblocks[j] != nil
  ensures result ==> (*blk).Subblocks[i].Sizes.Aligned <= (*blk).Subblocks[j].Sizes.Aligned
  ensures !result ==> (*blk).Subblocks[j].Sizes.Aligned <= (*blk).Subblocks[i].Sizes.Aligned

func internal/reg.assignGlobalAccessAddresses
  property C04
  requires blockShape(blk)
  requires treesShape(blk)
  requires treesApart(blk)
  requires treesCover(blk)
  requires open(ref(blk))
  requires sizedAll(blk)
  requires plain(0) ==> busAlign == 0
  requires plain(0) && blk.Sizes.Aligned > 0 ==> multOf(baseAddr, blk.Sizes.Aligned)
  use addMul(baseAddr, blk.Count, blk.Sizes.Aligned)
  requires 0 <= baseAddr
  requires baseAddr + blk.Count * blk.Sizes.Aligned <= 4611686018427387904
  hint loop0/inv[10]/preserved: loop0/inv[2] loop0/inv[3] loop0/inv[10] reg.assignGlobalAccessAddresses.ensures[1] modifies
  hint loop0/inv[12]/preserved: loop0/inv[2] loop0/inv[3] loop0/inv[12] reg.assignGlobalAccessAddresses.ensures[1] modifies
  hint loop0/inv[13]/preserved: loop0/inv[2] loop0/inv[3] loop0/inv[13] reg.assignGlobalAccessAddresses.ensures[1] modifies
  hint loop0/inv[11]/preserved: loop0/inv[2] loop0/inv[3] loop0/inv[5] loop0/inv[11] reg.assignGlobalAccessAddresses.ensures[1] modifies
  hint loop0/inv[14]/preserved: loop0/inv[2] loop0/inv[3] loop0/inv[14] reg.assignGlobalAccessAddresses.ensures[6] modifies wf
  hint ensures[6]@ret1: loop0/inv[10] loop0/inv[14] loop0/inv[4] loop0/inv[2]
  hint loop0/inv[15]/preserved: loop0/inv[2] loop0/inv[3] loop0/inv[15] reg.assignGlobalAccessAddresses.ensures[7] modifies wf
  hint ensures[7]@ret1: loop0/inv[11] loop0/inv[15] loop0/inv[4] loop0/inv[2]
  hint loop0/inv[16]/preserved: loop0/inv[2] loop0/inv[3] loop0/inv[16] reg.assignGlobalAccessAddresses.ensures[8] modifies wf
  hint ensures[8]@ret1: loop0/inv[12] loop0/inv[16] loop0/inv[4] loop0/inv[2]
  hint loop0/inv[17]/preserved: loop0/inv[2] loop0/inv[3] loop0/inv[17] reg.assignGlobalAccessAddresses.ensures[9] modifies wf
  hint ensures[9]@ret1: loop0/inv[13] loop0/inv[17] loop0/inv[4] loop0/inv[2]
  hint loop0/inv[3]/preserved: loop0/inv[2] loop0/inv[3] reg.assignGlobalAccessAddresses.ensures[3] modifies wf
  hint loop0/inv[4]/preserved: loop0/inv[2] loop0/inv[4] reg.assignGlobalAccessAddresses.ensures[4] modifies wf
  hint ensures[2]@ret1: loop0/inv[2] loop0/inv[2] wf
  hint ensures[3]@ret1: loop0/inv[2] loop0/inv[3] wf
  hint ensures[4]@ret1: loop0/inv[2] loop0/inv[4] wf
  hint ensures[5]@ret1: loop0/inv[2] loop0/inv[5] wf
  hint pre(reg.assignGlobalAccessAddresses)[2]@1: loop0/inv[2] loop0/inv[2] wf
  hint pre(reg.assignGlobalAccessAddresses)[3]@1: loop0/inv[2] loop0/inv[3] wf
  hint pre(reg.assignGlobalAccessAddresses)[4]@1: loop0/inv[2] loop0/inv[4] wf
  hint pre(reg.assignGlobalAccessAddresses)[5]@1: loop0/inv[2] loop0/inv[5] wf
  hint pre(reg.assignGlobalAccessAddresses)[6]@1: loop0/inv[2] loop0/inv[5] wf
  hint pre(reg.assignGlobalAccessAddresses)[7]@1: loop0/inv[2] loop0/inv[5] wf
  hint loop0/inv[18]/*: none
  hint loop0/inv[19]/entry: order
  hint loop0/inv[19]/preserved: loop0/inv[2] loop0/inv[19] modifies wf
  hint loop0/inv[20]/entry: sums loop0/inv[5] have*
  hint loop0/inv[20]/preserved: loop0/inv[19] loop0/inv[5] loop0/inv[2] modifies
  hint loop0/inv[21]/preserved: loop0/inv[2] loop0/inv[3] loop0/inv[21] reg.assignGlobalAccessAddresses.ensures[10] modifies wf
  hint ensures[10]@ret1: loop0/inv[21] loop0/inv[4] loop0/inv[2]
  hint pre(reg.assignGlobalAccessAddresses)[7]@1: loop0/inv[19] loop0/inv[5] loop0/inv[2]
  hint loop0/inv[2]/entry: requires[1] sort wf
  hint loop0/inv[3]/entry: requires[1] requires[2] sort wf
  hint loop0/inv[4]/entry: requires[1] requires[3] sort wf
  hint loop0/inv[2]/preserved: loop0/inv[2] reg.assignGlobalAccessAddresses.ensures[2] modifies wf
  hint loop0/inv[5]/preserved: loop0/inv[2] loop0/inv[5] reg.assignGlobalAccessAddresses.ensures[5] modifies wf
  hint loop0/inv[6]/preserved: loop0/inv[2] loop0/inv[5] modifies wf sums
  hint loop0/inv[0]/preserved: wf
  hint loop0/inv[1]/preserved: loop0/inv[2] modifies wf
  hint pre(reg.assignGlobalAccessAddresses)[8]@1: loop0/inv[5] loop0/inv[2] wf sums
  hint pre(reg.assignGlobalAccessAddresses)[9]@1: loop0/inv[5] loop0/inv[2] wf
  hint overflow*: loop0/inv[5] loop0/inv[2] wf
  hint loop0/frame(F:S_fn.Block:AddrSpace)/preserved*: loop0/inv[2] frame modifies wf
  hint loop0/frame(E:*fn.Block)/preserved*: loop0/inv[2] frame modifies wf
  decreases hi(ref(blk)) - lo(ref(blk))
  modifies any fn.Block.AddrSpace if inTree(ref(it), ref(blk))
  modifies any []*fn.Block if inTree(subsOf(it), ref(blk))
  loop 0
    invariant -1 <= i && i < len(blk.Subblocks)
    invariant blk.AddrSpace.Start == baseAddr && blk.AddrSpace.End == baseAddr + blk.Count * blk.Sizes.Aligned - 1
    invariant treesShape(blk)
    invariant treesApart(blk)
    invariant treesCover(blk)
    invariant sizedAll(blk)
    invariant 0 <= spans(blk.Subblocks, i + 1)
    invariant blk.Sizes.Own + spans(blk.Subblocks, len(blk.Subblocks)) <= blk.Sizes.Aligned
    invariant subblockBaseAddr == blk.AddrSpace.End + 1 - (spans(blk.Subblocks, len(blk.Subblocks)) - spans(blk.Subblocks, i + 1))
    invariant 0 <= subblockBaseAddr && subblockBaseAddr <= blk.AddrSpace.End + 1
    invariant forall k :: {blk.Subblocks[k]} i + 1 <= k && k < len(blk.Subblocks) ==> placedSub(blk.Subblocks[k])
    invariant forall k :: {blk.Subblocks[k]} i + 1 <= k && k < len(blk.Subblocks) ==> subblockBaseAddr <= blk.Subblocks[k].AddrSpace.Start
    invariant forall k :: {blk.Subblocks[k]} i + 1 <= k && k < len(blk.Subblocks) ==> blk.Subblocks[k].AddrSpace.End <= blk.AddrSpace.End
    invariant subsPacked(blk, i + 1)
    invariant forall k, r *fn.Block :: {blk.Subblocks[k], node(ref(r)), open(ref(r))} i < k && k < len(blk.Subblocks) && node(ref(r)) && open(ref(r)) && inTree(ref(r), ref(blk.Subblocks[k])) ==> subsPlaced(r, 0)
    invariant forall k, r *fn.Block :: {blk.Subblocks[k], node(ref(r)), open(ref(r))} i < k && k < len(blk.Subblocks) && node(ref(r)) && open(ref(r)) && inTree(ref(r), ref(blk.Subblocks[k])) ==> subsLow(r, 0, lowOf(r))
    invariant forall k, r *fn.Block :: {blk.Subblocks[k], node(ref(r)), open(ref(r))} i < k && k < len(blk.Subblocks) && node(ref(r)) && open(ref(r)) && inTree(ref(r), ref(blk.Subblocks[k])) ==> subsHigh(r, 0)
    invariant forall k, r *fn.Block :: {blk.Subblocks[k], node(ref(r)), open(ref(r))} i < k && k < len(blk.Subblocks) && node(ref(r)) && open(ref(r)) && inTree(ref(r), ref(blk.Subblocks[k])) ==> subsPacked(r, 0)
    use divPow2(subblockBaseAddr, blk.Subblocks[i].Sizes.Aligned, topAl(blk, i))
    use subMul(subblockBaseAddr, blk.Subblocks[i].Count, blk.Subblocks[i].Sizes.Aligned)
    invariant mark(i + 1)
    invariant forall j, k :: {blk.Subblocks[j], mark(k)} mark(k) && 0 <= j && j < k && k < len(blk.Subblocks) ==> blk.Subblocks[j].Sizes.Aligned <= blk.Subblocks[k].Sizes.Aligned
    invariant plain(0) && topAl(blk, i) > 0 ==> multOf(subblockBaseAddr, topAl(blk, i))
    invariant forall k, r *fn.Block :: {blk.Subblocks[k], node(ref(r)), open(ref(r))} i < k && k < len(blk.Subblocks) && node(ref(r)) && open(ref(r)) && inTree(ref(r), ref(blk.Subblocks[k])) ==> startOK(r)
  ensures pick(ref(blk))
  ensures blk.AddrSpace.Start == baseAddr && blk.AddrSpace.End == baseAddr + blk.Count * blk.Sizes.Aligned - 1
  ensures treesShape(blk)
  ensures treesApart(blk)
  ensures treesCover(blk)
  ensures sizedAll(blk)
  ensures allPlaced(blk)
  ensures allLow(blk)
  ensures allHigh(blk)
  ensures allPacked(blk)
  ensures allStart(blk)

# ---- the main block
func internal/reg.id
  property C04
  requires 1 <= busWidth
  ensures result != nil && fresh(result) && result.Width == min(busWidth, 32)

func internal/reg.timestamp
  property C04
  maypanic
  requires 1 <= busWidth
  ensures result != nil && fresh(result) && result.Width == min(busWidth, 36)

# reads the compiled bus only
func internal/util/hash.Hash
  trusted
  ensures 0 <= result && result <= 4294967295

define oneReg(a types.Access, addr int) := a.StartAddr == addr && a.EndAddr == addr && a.RegCount == 1 && a.StartBit == 0

func internal/reg.Registerify
  property C04
  math
  requires 1 <= bus.Width && bus.Width <= BIG()
  given forall b :: {owner(epoch(), 0, b)} 0 <= b && b < bus.Width ==> owner(epoch(), 0, b) == 0 - 1
  requires blockShape(bus) && bus.Count == 1
  requires treesShape(bus)
  requires treesApart(bus)
  requires treesCover(bus)
  requires open(ref(bus))
  requires plain(0) ==> bus.Align == 0
  requires forall i :: {bus.Blackboxes[i]} 0 <= i && i < len(bus.Blackboxes) ==> bus.Blackboxes[i] != nil
  requires forall i :: {bus.Configs[i]} 0 <= i && i < len(bus.Configs) ==> bus.Configs[i] != nil && owns(ref(bus.Configs[i])) == ref(bus)
  requires forall i :: {bus.Groups[i]} 0 <= i && i < len(bus.Groups) ==> bus.Groups[i] != nil
  requires forall i :: {bus.Irqs[i]} 0 <= i && i < len(bus.Irqs) ==> bus.Irqs[i] != nil && owns(ref(bus.Irqs[i])) == ref(bus)
  requires forall i :: {bus.Masks[i]} 0 <= i && i < len(bus.Masks) ==> bus.Masks[i] != nil && owns(ref(bus.Masks[i])) == ref(bus)
  requires forall i :: {bus.Procs[i]} 0 <= i && i < len(bus.Procs) ==> bus.Procs[i] != nil
  requires forall i :: {bus.Statics[i]} 0 <= i && i < len(bus.Statics) ==> bus.Statics[i] != nil && owns(ref(bus.Statics[i])) == ref(bus)
  requires forall i :: {bus.Statuses[i]} 0 <= i && i < len(bus.Statuses) ==> bus.Statuses[i] != nil && owns(ref(bus.Statuses[i])) == ref(bus)
  requires forall i :: {bus.Streams[i]} 0 <= i && i < len(bus.Streams) ==> bus.Streams[i] != nil
  requires forall i :: {bus.Subblocks[i]} 0 <= i && i < len(bus.Subblocks) ==> bus.Subblocks[i] != nil
  hint nil-deref*: none
  hint pre(reg.id)*: none
  hint pre(types.MakeSingleAccess)*: none
  hint pre(block.HasFunctionality)[1]@1: requires[8]
  hint pre(block.HasFunctionality)[2]@1: requires[9]
  hint pre(block.HasFunctionality)[3]@1: requires[10]
  hint pre(block.HasFunctionality)[4]@1: requires[11]
  hint pre(block.HasFunctionality)[5]@1: requires[12]
  hint pre(block.HasFunctionality)[6]@1: requires[13]
  hint pre(block.HasFunctionality)[7]@1: requires[14]
  hint pre(block.HasFunctionality)[8]@1: requires[15]
  hint pre(block.HasFunctionality)[9]@1: requires[16]
  modifies global busAlign, global busWidth, global types.busWidth
  modifies bus.Statics, any []*fn.Static
  modifies any fn.Block.Sizes if inTree(ref(it), ref(bus))
  modifies any fn.Block.AddrSpace if inTree(ref(it), ref(bus))
  modifies any []*fn.Block if inTree(subsOf(it), ref(bus))
  modifies any fn.Proc.CallAddr if inTree(owns(ref(it)), ref(bus))
  modifies any fn.Proc.ExitAddr if inTree(owns(ref(it)), ref(bus))
  modifies any fn.Param.Access if inTree(owns(owns(ref(it))), ref(bus)) || inTree(0 - owns(owns(ref(it))), ref(bus))
  modifies any fn.Return.Access if inTree(owns(owns(ref(it))), ref(bus)) || inTree(0 - owns(owns(ref(it))), ref(bus))
  modifies any fn.Stream.StbAddr if inTree(0 - owns(ref(it)), ref(bus))
  modifies any fn.Config.Access if inTree(owns(ref(it)), ref(bus))
  modifies any fn.Mask.Access if inTree(owns(ref(it)), ref(bus))
  modifies any fn.Static.Access if inTree(owns(ref(it)), ref(bus))
  modifies any fn.Status.Access if inTree(owns(ref(it)), ref(bus))
  modifies any fn.Irq.Access if inTree(owns(ref(it)), ref(bus))
  modifies any fn.Irq.EnableAccess if inTree(owns(ref(it)), ref(bus))
  modifies any fn.Irq.ClearAddr if inTree(owns(ref(it)), ref(bus))
  ghostset owner(e, a, b) := _
  ghostset okind(e, a, b) := _
  loop 0
    invariant 1 <= timestampAddr && addr == timestampAddr + ite(addTimestamp, 1, 0) && sizes.Own == addr
    invariant busAlign == bus.Align && busWidth == bus.Width && types.busWidth == bus.Width && bus.Count == 1
    invariant sizes.Aligned == spans(bus.Subblocks, $n) && 0 <= sizes.Aligned
    invariant sizes.Cumulated == sizes.Own + cumul(bus.Subblocks, $n)
    invariant forall k, r *fn.Block :: {bus.Subblocks[k], node(ref(r))} 0 <= k && k < $n && node(ref(r)) && inTree(ref(r), ref(bus.Subblocks[k])) ==> sizedAl(r)
    invariant forall k, r *fn.Block :: {bus.Subblocks[k], node(ref(r)), open(ref(r))} 0 <= k && k < $n && node(ref(r)) && open(ref(r)) && inTree(ref(r), ref(bus.Subblocks[k])) ==> sizedSum(r)
    invariant forall k, r *fn.Block :: {bus.Subblocks[k], node(ref(r)), open(ref(r))} 0 <= k && k < $n && node(ref(r)) && open(ref(r)) && inTree(ref(r), ref(bus.Subblocks[k])) ==> sizedCum(r)
    invariant inRegs(bus.Configs, 1, timestampAddr)
    invariant inRegs(bus.Masks, 1, timestampAddr)
    invariant inRegs(bus.Statics, 1, timestampAddr)
    invariant inRegs(bus.Statuses, 1, timestampAddr)
    invariant inRegs(bus.Irqs, 1, timestampAddr)
  ensures bus.AddrSpace.Start == 0 && bus.AddrSpace.End == bus.Sizes.Aligned - 1
  ensures bus.Sizes.Own >= 1 && bus.Sizes.Own + spans(bus.Subblocks, len(bus.Subblocks)) <= bus.Sizes.Aligned
  ensures sizedAll(bus)
  ensures allPlaced(bus)
  ensures allLow(bus)
  ensures allHigh(bus)
  ensures allPacked(bus)
  ensures allStart(bus)
  ensures len(bus.Statics) == old(len(bus.Statics)) + ite(addTimestamp, 2, 1)
  ensures oneReg(bus.Statics[old(len(bus.Statics))].Access, 0)
  ensures addTimestamp ==> oneReg(bus.Statics[old(len(bus.Statics)) + 1].Access, bus.Sizes.Own - 1)
  ensures inRegs(bus.Configs, 1, bus.Sizes.Own - ite(addTimestamp, 1, 0))
  ensures inRegs(bus.Masks, 1, bus.Sizes.Own - ite(addTimestamp, 1, 0))
  ensures inRegs(bus.Statuses, 1, bus.Sizes.Own - ite(addTimestamp, 1, 0))
  ensures inRegs(bus.Irqs, 1, bus.Sizes.Own - ite(addTimestamp, 1, 0))
  ensures forall k :: {bus.Statics[k]} 0 <= k && k < old(len(bus.Statics)) ==> 1 <= bus.Statics[k].Access.StartAddr && bus.Statics[k].Access.EndAddr < bus.Sizes.Own - ite(addTimestamp, 1, 0)

# different subblocks of a block do not overlap, in the order of the array
define spanOf(b *fn.Block, i int) := b.Subblocks[i].Count * b.Subblocks[i].Sizes.Aligned
lemma spansStep(b *fn.Block, j int)
  property C04
  requires b != nil && 0 <= j && j < len(b.Subblocks)
  ensures spans(b.Subblocks, j + 1) == spans(b.Subblocks, j) + spanOf(b, j)
lemma spansMono(b *fn.Block, j int, k int)
  property C04
  requires b != nil && 0 <= j && j <= k && k <= len(b.Subblocks)
  requires forall i :: {b.Subblocks[i]} 0 <= i && i < len(b.Subblocks) ==> 0 <= spanOf(b, i)
  ensures spans(b.Subblocks, j) <= spans(b.Subblocks, k)
lemma spacesApart(b *fn.Block, j int, k int)
  property C04
  requires b != nil && 0 <= j && j < k && k < len(b.Subblocks)
  requires forall i :: {b.Subblocks[i]} 0 <= i && i < len(b.Subblocks) ==> 0 <= spanOf(b, i)
  requires subsPlaced(b, 0) && subsPacked(b, 0)
  use spansStep(b, j)
  use spansMono(b, j + 1, k)
  ensures b.Subblocks[j].AddrSpace.End < b.Subblocks[k].AddrSpace.Start
