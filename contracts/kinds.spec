# Kinds of functionalities and their names: internal/util, internal/ins. Written by tools/gen_kinds.py, do not edit.
package internal/util
define isBaseKind(t string) := t == "blackbox" || t == "block" || t == "bus" || t == "config" || t == "group" || t == "irq" || t == "mask" || t == "param" || t == "proc" || t == "return" || t == "static" || t == "status" || t == "stream"
# rows of the table of the language specification: a functionality of kind it may be instantiated in one of kind ot
define mayContain(ot string, it string) :=
    (ot == "block" && (it == "blackbox" || it == "block" || it == "config" || it == "group" || it == "irq" || it == "mask" || it == "proc" || it == "static" || it == "status" || it == "stream")) ||
    (ot == "bus" && (it == "blackbox" || it == "block" || it == "config" || it == "group" || it == "irq" || it == "mask" || it == "proc" || it == "static" || it == "status" || it == "stream")) ||
    (ot == "group" && (it == "config" || it == "irq" || it == "mask" || it == "param" || it == "return" || it == "static" || it == "status")) ||
    (ot == "proc" && (it == "param" || it == "return")) ||
    (ot == "stream" && (it == "param" || it == "return"))

func internal/util.IsBaseType
  property C14
  loop 0
    invariant forall k :: {baseTypes[k]} 0 <= k && k < $n ==> baseTypes[k] != t
  ensures result == isBaseKind(t)

func internal/util.IsValidInnerType
  property C14
  requires isBaseKind(ot)
  loop 0
    invariant forall k :: {list[k]} 0 <= k && k < $n ==> list[k] != it
  ensures result == mayContain(ot, it)

package pkg/fbdl/fn
# kind of an instantiated functionality
function kindOf(any) string
axiom kindOfBlackbox: forall e any :: {kindOf(e)} typeis(e, *fn.Blackbox) ==> kindOf(e) == "blackbox"
axiom kindOfBlock: forall e any :: {kindOf(e)} typeis(e, *fn.Block) ==> kindOf(e) == "block"
axiom kindOfConfig: forall e any :: {kindOf(e)} typeis(e, *fn.Config) ==> kindOf(e) == "config"
axiom kindOfGroup: forall e any :: {kindOf(e)} typeis(e, *fn.Group) ==> kindOf(e) == "group"
axiom kindOfIrq: forall e any :: {kindOf(e)} typeis(e, *fn.Irq) ==> kindOf(e) == "irq"
axiom kindOfMask: forall e any :: {kindOf(e)} typeis(e, *fn.Mask) ==> kindOf(e) == "mask"
axiom kindOfParam: forall e any :: {kindOf(e)} typeis(e, *fn.Param) ==> kindOf(e) == "param"
axiom kindOfProc: forall e any :: {kindOf(e)} typeis(e, *fn.Proc) ==> kindOf(e) == "proc"
axiom kindOfReturn: forall e any :: {kindOf(e)} typeis(e, *fn.Return) ==> kindOf(e) == "return"
axiom kindOfStatic: forall e any :: {kindOf(e)} typeis(e, *fn.Static) ==> kindOf(e) == "static"
axiom kindOfStatus: forall e any :: {kindOf(e)} typeis(e, *fn.Status) ==> kindOf(e) == "status"
axiom kindOfStream: forall e any :: {kindOf(e)} typeis(e, *fn.Stream) ==> kindOf(e) == "stream"
function nameOf(any) string
invoke pkg/fbdl/fn.Functionality.Type
  property C14
  pointers
  pure
  ensures result == kindOf(recv)
invoke pkg/fbdl/fn.Functionality.GetName
  trusted
  pure
  ensures result == nameOf(recv)

func pkg/fbdl/fn.Blackbox.Type
  property C14
  pure
  ensures result == "blackbox"

func pkg/fbdl/fn.Block.Type
  property C14
  pure
  ensures result == "block"

func pkg/fbdl/fn.Config.Type
  property C14
  pure
  ensures result == "config"

func pkg/fbdl/fn.Group.Type
  property C14
  pure
  ensures result == "group"

func pkg/fbdl/fn.Irq.Type
  property C14
  pure
  ensures result == "irq"

func pkg/fbdl/fn.Mask.Type
  property C14
  pure
  ensures result == "mask"

func pkg/fbdl/fn.Param.Type
  property C14
  pure
  ensures result == "param"

func pkg/fbdl/fn.Proc.Type
  property C14
  pure
  ensures result == "proc"

func pkg/fbdl/fn.Return.Type
  property C14
  pure
  ensures result == "return"

func pkg/fbdl/fn.Static.Type
  property C14
  pure
  ensures result == "static"

func pkg/fbdl/fn.Status.Type
  property C14
  pure
  ensures result == "status"

func pkg/fbdl/fn.Stream.Type
  property C14
  pure
  ensures result == "stream"

func pkg/fbdl/fn.Func.GetName
  property C14
  pure
  ensures result == f.Name

package internal/util/block
define blockHas(x *fn.Block, n string) :=
    (exists i :: {x.Blackboxes[i]} 0 <= i && i < len(x.Blackboxes) && x.Blackboxes[i].Name == n) ||
    (exists i :: {x.Configs[i]} 0 <= i && i < len(x.Configs) && x.Configs[i].Name == n) ||
    (exists i :: {x.Groups[i]} 0 <= i && i < len(x.Groups) && x.Groups[i].Name == n) ||
    (exists i :: {x.Irqs[i]} 0 <= i && i < len(x.Irqs) && x.Irqs[i].Name == n) ||
    (exists i :: {x.Masks[i]} 0 <= i && i < len(x.Masks) && x.Masks[i].Name == n) ||
    (exists i :: {x.Procs[i]} 0 <= i && i < len(x.Procs) && x.Procs[i].Name == n) ||
    (exists i :: {x.Statics[i]} 0 <= i && i < len(x.Statics) && x.Statics[i].Name == n) ||
    (exists i :: {x.Statuses[i]} 0 <= i && i < len(x.Statuses) && x.Statuses[i].Name == n) ||
    (exists i :: {x.Streams[i]} 0 <= i && i < len(x.Streams) && x.Streams[i].Name == n) ||
    (exists i :: {x.Subblocks[i]} 0 <= i && i < len(x.Subblocks) && x.Subblocks[i].Name == n)
func internal/util/block.HasFunctionality
  property C14
  requires blk != nil
  requires forall i :: {blk.Blackboxes[i]} 0 <= i && i < len(blk.Blackboxes) ==> blk.Blackboxes[i] != nil
  requires forall i :: {blk.Configs[i]} 0 <= i && i < len(blk.Configs) ==> blk.Configs[i] != nil
  requires forall i :: {blk.Groups[i]} 0 <= i && i < len(blk.Groups) ==> blk.Groups[i] != nil
  requires forall i :: {blk.Irqs[i]} 0 <= i && i < len(blk.Irqs) ==> blk.Irqs[i] != nil
  requires forall i :: {blk.Masks[i]} 0 <= i && i < len(blk.Masks) ==> blk.Masks[i] != nil
  requires forall i :: {blk.Procs[i]} 0 <= i && i < len(blk.Procs) ==> blk.Procs[i] != nil
  requires forall i :: {blk.Statics[i]} 0 <= i && i < len(blk.Statics) ==> blk.Statics[i] != nil
  requires forall i :: {blk.Statuses[i]} 0 <= i && i < len(blk.Statuses) ==> blk.Statuses[i] != nil
  requires forall i :: {blk.Streams[i]} 0 <= i && i < len(blk.Streams) ==> blk.Streams[i] != nil
  requires forall i :: {blk.Subblocks[i]} 0 <= i && i < len(blk.Subblocks) ==> blk.Subblocks[i] != nil
  loop 0
    invariant forall i :: {blk.Blackboxes[i]} 0 <= i && i < $n ==> blk.Blackboxes[i].Name != name
  loop 1
    invariant forall i :: {blk.Configs[i]} 0 <= i && i < $n ==> blk.Configs[i].Name != name
  loop 2
    invariant forall i :: {blk.Groups[i]} 0 <= i && i < $n ==> blk.Groups[i].Name != name
  loop 3
    invariant forall i :: {blk.Irqs[i]} 0 <= i && i < $n ==> blk.Irqs[i].Name != name
  loop 4
    invariant forall i :: {blk.Masks[i]} 0 <= i && i < $n ==> blk.Masks[i].Name != name
  loop 5
    invariant forall i :: {blk.Procs[i]} 0 <= i && i < $n ==> blk.Procs[i].Name != name
  loop 6
    invariant forall i :: {blk.Statics[i]} 0 <= i && i < $n ==> blk.Statics[i].Name != name
  loop 7
    invariant forall i :: {blk.Statuses[i]} 0 <= i && i < $n ==> blk.Statuses[i].Name != name
  loop 8
    invariant forall i :: {blk.Streams[i]} 0 <= i && i < $n ==> blk.Streams[i].Name != name
  loop 9
    invariant forall i :: {blk.Subblocks[i]} 0 <= i && i < $n ==> blk.Subblocks[i].Name != name
  ensures result == blockHas(blk, name)

package internal/util/group
define groupHas(x *fn.Group, n string) :=
    (exists i :: {x.Configs[i]} 0 <= i && i < len(x.Configs) && x.Configs[i].Name == n) ||
    (exists i :: {x.Irqs[i]} 0 <= i && i < len(x.Irqs) && x.Irqs[i].Name == n) ||
    (exists i :: {x.Masks[i]} 0 <= i && i < len(x.Masks) && x.Masks[i].Name == n) ||
    (exists i :: {x.Params[i]} 0 <= i && i < len(x.Params) && x.Params[i].Name == n) ||
    (exists i :: {x.Returns[i]} 0 <= i && i < len(x.Returns) && x.Returns[i].Name == n) ||
    (exists i :: {x.Statics[i]} 0 <= i && i < len(x.Statics) && x.Statics[i].Name == n) ||
    (exists i :: {x.Statuses[i]} 0 <= i && i < len(x.Statuses) && x.Statuses[i].Name == n)
func internal/util/group.HasFunctionality
  property C14
  requires grp != nil
  requires forall i :: {grp.Configs[i]} 0 <= i && i < len(grp.Configs) ==> grp.Configs[i] != nil
  requires forall i :: {grp.Irqs[i]} 0 <= i && i < len(grp.Irqs) ==> grp.Irqs[i] != nil
  requires forall i :: {grp.Masks[i]} 0 <= i && i < len(grp.Masks) ==> grp.Masks[i] != nil
  requires forall i :: {grp.Params[i]} 0 <= i && i < len(grp.Params) ==> grp.Params[i] != nil
  requires forall i :: {grp.Returns[i]} 0 <= i && i < len(grp.Returns) ==> grp.Returns[i] != nil
  requires forall i :: {grp.Statics[i]} 0 <= i && i < len(grp.Statics) ==> grp.Statics[i] != nil
  requires forall i :: {grp.Statuses[i]} 0 <= i && i < len(grp.Statuses) ==> grp.Statuses[i] != nil
  loop 0
    invariant forall i :: {grp.Configs[i]} 0 <= i && i < $n ==> grp.Configs[i].Name != name
  loop 1
    invariant forall i :: {grp.Irqs[i]} 0 <= i && i < $n ==> grp.Irqs[i].Name != name
  loop 2
    invariant forall i :: {grp.Masks[i]} 0 <= i && i < $n ==> grp.Masks[i].Name != name
  loop 3
    invariant forall i :: {grp.Params[i]} 0 <= i && i < $n ==> grp.Params[i].Name != name
  loop 4
    invariant forall i :: {grp.Returns[i]} 0 <= i && i < $n ==> grp.Returns[i].Name != name
  loop 5
    invariant forall i :: {grp.Statics[i]} 0 <= i && i < $n ==> grp.Statics[i].Name != name
  loop 6
    invariant forall i :: {grp.Statuses[i]} 0 <= i && i < $n ==> grp.Statuses[i].Name != name
  ensures result == groupHas(grp, name)

package internal/util/proc
define procHas(x *fn.Proc, n string) :=
    (exists i :: {x.Params[i]} 0 <= i && i < len(x.Params) && x.Params[i].Name == n) ||
    (exists i :: {x.Returns[i]} 0 <= i && i < len(x.Returns) && x.Returns[i].Name == n)
func internal/util/proc.HasFunctionality
  property C14
  requires p != nil
  requires forall i :: {p.Params[i]} 0 <= i && i < len(p.Params) ==> p.Params[i] != nil
  requires forall i :: {p.Returns[i]} 0 <= i && i < len(p.Returns) ==> p.Returns[i] != nil
  loop 0
    invariant forall i :: {p.Params[i]} 0 <= i && i < $n ==> p.Params[i].Name != name
  loop 1
    invariant forall i :: {p.Returns[i]} 0 <= i && i < $n ==> p.Returns[i].Name != name
  ensures result == procHas(p, name)

package internal/util/stream
define streamHas(x *fn.Stream, n string) :=
    (exists i :: {x.Params[i]} 0 <= i && i < len(x.Params) && x.Params[i].Name == n) ||
    (exists i :: {x.Returns[i]} 0 <= i && i < len(x.Returns) && x.Returns[i].Name == n)
func internal/util/stream.HasFunctionality
  property C14
  requires s != nil
  requires forall i :: {s.Params[i]} 0 <= i && i < len(s.Params) ==> s.Params[i] != nil
  requires forall i :: {s.Returns[i]} 0 <= i && i < len(s.Returns) ==> s.Returns[i] != nil
  loop 0
    invariant forall i :: {s.Params[i]} 0 <= i && i < $n ==> s.Params[i].Name != name
  loop 1
    invariant forall i :: {s.Returns[i]} 0 <= i && i < $n ==> s.Returns[i].Name != name
  ensures result == streamHas(s, name)

package internal/util/block
func internal/util/block.AddBlackbox
  property C14
  requires b != nil
  modifies b.Blackboxes, elems(b.Blackboxes)
  ensures len(b.Blackboxes) == old(len(b.Blackboxes)) + 1 && b.Blackboxes[old(len(b.Blackboxes))] == bb
  ensures forall k :: {b.Blackboxes[k]} 0 <= k && k < old(len(b.Blackboxes)) ==> b.Blackboxes[k] == old(b.Blackboxes[k])

func internal/util/block.AddConfig
  property C14
  requires b != nil
  modifies b.Configs, elems(b.Configs)
  ensures len(b.Configs) == old(len(b.Configs)) + 1 && b.Configs[old(len(b.Configs))] == c
  ensures forall k :: {b.Configs[k]} 0 <= k && k < old(len(b.Configs)) ==> b.Configs[k] == old(b.Configs[k])

func internal/util/block.AddGroup
  property C14
  requires b != nil
  modifies b.Groups, elems(b.Groups)
  ensures len(b.Groups) == old(len(b.Groups)) + 1 && b.Groups[old(len(b.Groups))] == g
  ensures forall k :: {b.Groups[k]} 0 <= k && k < old(len(b.Groups)) ==> b.Groups[k] == old(b.Groups[k])

func internal/util/block.AddIrq
  property C14
  requires b != nil
  modifies b.Irqs, elems(b.Irqs)
  ensures len(b.Irqs) == old(len(b.Irqs)) + 1 && b.Irqs[old(len(b.Irqs))] == i
  ensures forall k :: {b.Irqs[k]} 0 <= k && k < old(len(b.Irqs)) ==> b.Irqs[k] == old(b.Irqs[k])

func internal/util/block.AddMask
  property C14
  requires b != nil
  modifies b.Masks, elems(b.Masks)
  ensures len(b.Masks) == old(len(b.Masks)) + 1 && b.Masks[old(len(b.Masks))] == m
  ensures forall k :: {b.Masks[k]} 0 <= k && k < old(len(b.Masks)) ==> b.Masks[k] == old(b.Masks[k])

func internal/util/block.AddProc
  property C14
  requires b != nil
  modifies b.Procs, elems(b.Procs)
  ensures len(b.Procs) == old(len(b.Procs)) + 1 && b.Procs[old(len(b.Procs))] == f
  ensures forall k :: {b.Procs[k]} 0 <= k && k < old(len(b.Procs)) ==> b.Procs[k] == old(b.Procs[k])

func internal/util/block.AddStatic
  property C14
  requires b != nil
  modifies b.Statics, elems(b.Statics)
  ensures len(b.Statics) == old(len(b.Statics)) + 1 && b.Statics[old(len(b.Statics))] == s
  ensures forall k :: {b.Statics[k]} 0 <= k && k < old(len(b.Statics)) ==> b.Statics[k] == old(b.Statics[k])

func internal/util/block.AddStatus
  property C14
  requires b != nil
  modifies b.Statuses, elems(b.Statuses)
  ensures len(b.Statuses) == old(len(b.Statuses)) + 1 && b.Statuses[old(len(b.Statuses))] == s
  ensures forall k :: {b.Statuses[k]} 0 <= k && k < old(len(b.Statuses)) ==> b.Statuses[k] == old(b.Statuses[k])

func internal/util/block.AddStream
  property C14
  requires b != nil
  modifies b.Streams, elems(b.Streams)
  ensures len(b.Streams) == old(len(b.Streams)) + 1 && b.Streams[old(len(b.Streams))] == s
  ensures forall k :: {b.Streams[k]} 0 <= k && k < old(len(b.Streams)) ==> b.Streams[k] == old(b.Streams[k])

func internal/util/block.AddSubblock
  property C14
  requires b != nil
  modifies b.Subblocks, elems(b.Subblocks)
  ensures len(b.Subblocks) == old(len(b.Subblocks)) + 1 && b.Subblocks[old(len(b.Subblocks))] == s
  ensures forall k :: {b.Subblocks[k]} 0 <= k && k < old(len(b.Subblocks)) ==> b.Subblocks[k] == old(b.Subblocks[k])

package internal/util/group
func internal/util/group.IsEmpty
  property C14
  ensures result == (len(grp.Configs) == 0 && len(grp.Irqs) == 0 && len(grp.Masks) == 0 && len(grp.Params) == 0 && len(grp.Returns) == 0 && len(grp.Statics) == 0 && len(grp.Statuses) == 0)

func internal/util/group.cantAddErrMsg
  property C14
  requires g != nil && f1 != nil && f2 != nil
  ensures result != nil

# kinds which a group with elements of kind t must not hold
define acceptsConfig(grp *fn.Group) := len(grp.Irqs) == 0 && len(grp.Params) == 0 && len(grp.Returns) == 0
define acceptsIrq(grp *fn.Group) := !grp.Virtual && len(grp.Configs) == 0 && len(grp.Masks) == 0 && len(grp.Params) == 0 && len(grp.Returns) == 0 && len(grp.Statics) == 0 && len(grp.Statuses) == 0
define acceptsMask(grp *fn.Group) := len(grp.Irqs) == 0 && len(grp.Params) == 0 && len(grp.Returns) == 0
define acceptsParam(grp *fn.Group) := !grp.Virtual && len(grp.Configs) == 0 && len(grp.Irqs) == 0 && len(grp.Masks) == 0 && len(grp.Returns) == 0 && len(grp.Statics) == 0 && len(grp.Statuses) == 0
define acceptsReturn(grp *fn.Group) := !grp.Virtual && len(grp.Configs) == 0 && len(grp.Irqs) == 0 && len(grp.Masks) == 0 && len(grp.Params) == 0 && len(grp.Statics) == 0 && len(grp.Statuses) == 0
define acceptsStatic(grp *fn.Group) := len(grp.Irqs) == 0 && len(grp.Params) == 0 && len(grp.Returns) == 0
define acceptsStatus(grp *fn.Group) := len(grp.Irqs) == 0 && len(grp.Params) == 0 && len(grp.Returns) == 0
func internal/util/group.AddConfig
  property C14
  requires grp != nil && c != nil
  modifies grp.Configs, elems(grp.Configs)
  ensures (result == nil) == old(acceptsConfig(grp))
  ensures result != nil ==> len(grp.Configs) == old(len(grp.Configs))
  ensures result == nil ==> len(grp.Configs) == old(len(grp.Configs)) + 1 && grp.Configs[old(len(grp.Configs))] == c
  ensures forall k :: {grp.Configs[k]} 0 <= k && k < old(len(grp.Configs)) ==> grp.Configs[k] == old(grp.Configs[k])

func internal/util/group.AddIrq
  property C14
  requires grp != nil && i != nil
  modifies grp.Irqs, elems(grp.Irqs)
  ensures (result == nil) == old(acceptsIrq(grp))
  ensures result != nil ==> len(grp.Irqs) == old(len(grp.Irqs))
  ensures result == nil ==> len(grp.Irqs) == old(len(grp.Irqs)) + 1 && grp.Irqs[old(len(grp.Irqs))] == i
  ensures forall k :: {grp.Irqs[k]} 0 <= k && k < old(len(grp.Irqs)) ==> grp.Irqs[k] == old(grp.Irqs[k])

func internal/util/group.AddMask
  property C14
  requires grp != nil && m != nil
  modifies grp.Masks, elems(grp.Masks)
  ensures (result == nil) == old(acceptsMask(grp))
  ensures result != nil ==> len(grp.Masks) == old(len(grp.Masks))
  ensures result == nil ==> len(grp.Masks) == old(len(grp.Masks)) + 1 && grp.Masks[old(len(grp.Masks))] == m
  ensures forall k :: {grp.Masks[k]} 0 <= k && k < old(len(grp.Masks)) ==> grp.Masks[k] == old(grp.Masks[k])

func internal/util/group.AddParam
  property C14
  requires grp != nil && p != nil
  modifies grp.Params, elems(grp.Params)
  ensures (result == nil) == old(acceptsParam(grp))
  ensures result != nil ==> len(grp.Params) == old(len(grp.Params))
  ensures result == nil ==> len(grp.Params) == old(len(grp.Params)) + 1 && grp.Params[old(len(grp.Params))] == p
  ensures forall k :: {grp.Params[k]} 0 <= k && k < old(len(grp.Params)) ==> grp.Params[k] == old(grp.Params[k])

func internal/util/group.AddReturn
  property C14
  requires grp != nil && r != nil
  modifies grp.Returns, elems(grp.Returns)
  ensures (result == nil) == old(acceptsReturn(grp))
  ensures result != nil ==> len(grp.Returns) == old(len(grp.Returns))
  ensures result == nil ==> len(grp.Returns) == old(len(grp.Returns)) + 1 && grp.Returns[old(len(grp.Returns))] == r
  ensures forall k :: {grp.Returns[k]} 0 <= k && k < old(len(grp.Returns)) ==> grp.Returns[k] == old(grp.Returns[k])

func internal/util/group.AddStatic
  property C14
  requires grp != nil && s != nil
  modifies grp.Statics, elems(grp.Statics)
  ensures (result == nil) == old(acceptsStatic(grp))
  ensures result != nil ==> len(grp.Statics) == old(len(grp.Statics))
  ensures result == nil ==> len(grp.Statics) == old(len(grp.Statics)) + 1 && grp.Statics[old(len(grp.Statics))] == s
  ensures forall k :: {grp.Statics[k]} 0 <= k && k < old(len(grp.Statics)) ==> grp.Statics[k] == old(grp.Statics[k])

func internal/util/group.AddStatus
  property C14
  requires grp != nil && s != nil
  modifies grp.Statuses, elems(grp.Statuses)
  ensures (result == nil) == old(acceptsStatus(grp))
  ensures result != nil ==> len(grp.Statuses) == old(len(grp.Statuses))
  ensures result == nil ==> len(grp.Statuses) == old(len(grp.Statuses)) + 1 && grp.Statuses[old(len(grp.Statuses))] == s
  ensures forall k :: {grp.Statuses[k]} 0 <= k && k < old(len(grp.Statuses)) ==> grp.Statuses[k] == old(grp.Statuses[k])

package internal/ins
func internal/ins.addBlockInnerElement
  property C14
  requires blk != nil && f != nil && (typeis(f, *fn.Blackbox) || typeis(f, *fn.Config) || typeis(f, *fn.Group) || typeis(f, *fn.Irq) || typeis(f, *fn.Mask) || typeis(f, *fn.Proc) || typeis(f, *fn.Static) || typeis(f, *fn.Status) || typeis(f, *fn.Stream) || typeis(f, *fn.Block))
  modifies blk.Blackboxes, elems(blk.Blackboxes), blk.Configs, elems(blk.Configs), blk.Groups, elems(blk.Groups), blk.Irqs, elems(blk.Irqs), blk.Masks, elems(blk.Masks), blk.Procs, elems(blk.Procs), blk.Statics, elems(blk.Statics), blk.Statuses, elems(blk.Statuses), blk.Streams, elems(blk.Streams), blk.Subblocks, elems(blk.Subblocks)
  ensures typeis(f, *fn.Blackbox) ==> len(blk.Blackboxes) == old(len(blk.Blackboxes)) + 1 && blk.Blackboxes[old(len(blk.Blackboxes))] == as(f, *fn.Blackbox)
  ensures !typeis(f, *fn.Blackbox) ==> len(blk.Blackboxes) == old(len(blk.Blackboxes))
  ensures forall k :: {blk.Blackboxes[k]} 0 <= k && k < old(len(blk.Blackboxes)) ==> blk.Blackboxes[k] == old(blk.Blackboxes[k])
  ensures typeis(f, *fn.Config) ==> len(blk.Configs) == old(len(blk.Configs)) + 1 && blk.Configs[old(len(blk.Configs))] == as(f, *fn.Config)
  ensures !typeis(f, *fn.Config) ==> len(blk.Configs) == old(len(blk.Configs))
  ensures forall k :: {blk.Configs[k]} 0 <= k && k < old(len(blk.Configs)) ==> blk.Configs[k] == old(blk.Configs[k])
  ensures typeis(f, *fn.Group) ==> len(blk.Groups) == old(len(blk.Groups)) + 1 && blk.Groups[old(len(blk.Groups))] == as(f, *fn.Group)
  ensures !typeis(f, *fn.Group) ==> len(blk.Groups) == old(len(blk.Groups))
  ensures forall k :: {blk.Groups[k]} 0 <= k && k < old(len(blk.Groups)) ==> blk.Groups[k] == old(blk.Groups[k])
  ensures typeis(f, *fn.Irq) ==> len(blk.Irqs) == old(len(blk.Irqs)) + 1 && blk.Irqs[old(len(blk.Irqs))] == as(f, *fn.Irq)
  ensures !typeis(f, *fn.Irq) ==> len(blk.Irqs) == old(len(blk.Irqs))
  ensures forall k :: {blk.Irqs[k]} 0 <= k && k < old(len(blk.Irqs)) ==> blk.Irqs[k] == old(blk.Irqs[k])
  ensures typeis(f, *fn.Mask) ==> len(blk.Masks) == old(len(blk.Masks)) + 1 && blk.Masks[old(len(blk.Masks))] == as(f, *fn.Mask)
  ensures !typeis(f, *fn.Mask) ==> len(blk.Masks) == old(len(blk.Masks))
  ensures forall k :: {blk.Masks[k]} 0 <= k && k < old(len(blk.Masks)) ==> blk.Masks[k] == old(blk.Masks[k])
  ensures typeis(f, *fn.Proc) ==> len(blk.Procs) == old(len(blk.Procs)) + 1 && blk.Procs[old(len(blk.Procs))] == as(f, *fn.Proc)
  ensures !typeis(f, *fn.Proc) ==> len(blk.Procs) == old(len(blk.Procs))
  ensures forall k :: {blk.Procs[k]} 0 <= k && k < old(len(blk.Procs)) ==> blk.Procs[k] == old(blk.Procs[k])
  ensures typeis(f, *fn.Static) ==> len(blk.Statics) == old(len(blk.Statics)) + 1 && blk.Statics[old(len(blk.Statics))] == as(f, *fn.Static)
  ensures !typeis(f, *fn.Static) ==> len(blk.Statics) == old(len(blk.Statics))
  ensures forall k :: {blk.Statics[k]} 0 <= k && k < old(len(blk.Statics)) ==> blk.Statics[k] == old(blk.Statics[k])
  ensures typeis(f, *fn.Status) ==> len(blk.Statuses) == old(len(blk.Statuses)) + 1 && blk.Statuses[old(len(blk.Statuses))] == as(f, *fn.Status)
  ensures !typeis(f, *fn.Status) ==> len(blk.Statuses) == old(len(blk.Statuses))
  ensures forall k :: {blk.Statuses[k]} 0 <= k && k < old(len(blk.Statuses)) ==> blk.Statuses[k] == old(blk.Statuses[k])
  ensures typeis(f, *fn.Stream) ==> len(blk.Streams) == old(len(blk.Streams)) + 1 && blk.Streams[old(len(blk.Streams))] == as(f, *fn.Stream)
  ensures !typeis(f, *fn.Stream) ==> len(blk.Streams) == old(len(blk.Streams))
  ensures forall k :: {blk.Streams[k]} 0 <= k && k < old(len(blk.Streams)) ==> blk.Streams[k] == old(blk.Streams[k])
  ensures typeis(f, *fn.Block) ==> len(blk.Subblocks) == old(len(blk.Subblocks)) + 1 && blk.Subblocks[old(len(blk.Subblocks))] == as(f, *fn.Block)
  ensures !typeis(f, *fn.Block) ==> len(blk.Subblocks) == old(len(blk.Subblocks))
  ensures forall k :: {blk.Subblocks[k]} 0 <= k && k < old(len(blk.Subblocks)) ==> blk.Subblocks[k] == old(blk.Subblocks[k])

define groupAccepts(grp *fn.Group, f any) := (typeis(f, *fn.Config) ==> acceptsConfig(grp)) && (typeis(f, *fn.Irq) ==> acceptsIrq(grp)) && (typeis(f, *fn.Mask) ==> acceptsMask(grp)) && (typeis(f, *fn.Param) ==> acceptsParam(grp)) && (typeis(f, *fn.Return) ==> acceptsReturn(grp)) && (typeis(f, *fn.Static) ==> acceptsStatic(grp)) && (typeis(f, *fn.Status) ==> acceptsStatus(grp))
func internal/ins.addGroupInnerElement
  property C14
  requires grp != nil && f != nil && (typeis(f, *fn.Config) && as(f, *fn.Config) != nil || typeis(f, *fn.Irq) && as(f, *fn.Irq) != nil || typeis(f, *fn.Mask) && as(f, *fn.Mask) != nil || typeis(f, *fn.Param) && as(f, *fn.Param) != nil || typeis(f, *fn.Return) && as(f, *fn.Return) != nil || typeis(f, *fn.Static) && as(f, *fn.Static) != nil || typeis(f, *fn.Status) && as(f, *fn.Status) != nil)
  modifies grp.Configs, elems(grp.Configs), grp.Irqs, elems(grp.Irqs), grp.Masks, elems(grp.Masks), grp.Params, elems(grp.Params), grp.Returns, elems(grp.Returns), grp.Statics, elems(grp.Statics), grp.Statuses, elems(grp.Statuses)
  ensures (result == nil) == old(groupAccepts(grp, f))
  ensures result == nil && typeis(f, *fn.Config) ==> len(grp.Configs) == old(len(grp.Configs)) + 1 && grp.Configs[old(len(grp.Configs))] == as(f, *fn.Config)
  ensures !(result == nil && typeis(f, *fn.Config)) ==> len(grp.Configs) == old(len(grp.Configs))
  ensures forall k :: {grp.Configs[k]} 0 <= k && k < old(len(grp.Configs)) ==> grp.Configs[k] == old(grp.Configs[k])
  ensures result == nil && typeis(f, *fn.Irq) ==> len(grp.Irqs) == old(len(grp.Irqs)) + 1 && grp.Irqs[old(len(grp.Irqs))] == as(f, *fn.Irq)
  ensures !(result == nil && typeis(f, *fn.Irq)) ==> len(grp.Irqs) == old(len(grp.Irqs))
  ensures forall k :: {grp.Irqs[k]} 0 <= k && k < old(len(grp.Irqs)) ==> grp.Irqs[k] == old(grp.Irqs[k])
  ensures result == nil && typeis(f, *fn.Mask) ==> len(grp.Masks) == old(len(grp.Masks)) + 1 && grp.Masks[old(len(grp.Masks))] == as(f, *fn.Mask)
  ensures !(result == nil && typeis(f, *fn.Mask)) ==> len(grp.Masks) == old(len(grp.Masks))
  ensures forall k :: {grp.Masks[k]} 0 <= k && k < old(len(grp.Masks)) ==> grp.Masks[k] == old(grp.Masks[k])
  ensures result == nil && typeis(f, *fn.Param) ==> len(grp.Params) == old(len(grp.Params)) + 1 && grp.Params[old(len(grp.Params))] == as(f, *fn.Param)
  ensures !(result == nil && typeis(f, *fn.Param)) ==> len(grp.Params) == old(len(grp.Params))
  ensures forall k :: {grp.Params[k]} 0 <= k && k < old(len(grp.Params)) ==> grp.Params[k] == old(grp.Params[k])
  ensures result == nil && typeis(f, *fn.Return) ==> len(grp.Returns) == old(len(grp.Returns)) + 1 && grp.Returns[old(len(grp.Returns))] == as(f, *fn.Return)
  ensures !(result == nil && typeis(f, *fn.Return)) ==> len(grp.Returns) == old(len(grp.Returns))
  ensures forall k :: {grp.Returns[k]} 0 <= k && k < old(len(grp.Returns)) ==> grp.Returns[k] == old(grp.Returns[k])
  ensures result == nil && typeis(f, *fn.Static) ==> len(grp.Statics) == old(len(grp.Statics)) + 1 && grp.Statics[old(len(grp.Statics))] == as(f, *fn.Static)
  ensures !(result == nil && typeis(f, *fn.Static)) ==> len(grp.Statics) == old(len(grp.Statics))
  ensures forall k :: {grp.Statics[k]} 0 <= k && k < old(len(grp.Statics)) ==> grp.Statics[k] == old(grp.Statics[k])
  ensures result == nil && typeis(f, *fn.Status) ==> len(grp.Statuses) == old(len(grp.Statuses)) + 1 && grp.Statuses[old(len(grp.Statuses))] == as(f, *fn.Status)
  ensures !(result == nil && typeis(f, *fn.Status)) ==> len(grp.Statuses) == old(len(grp.Statuses))
  ensures forall k :: {grp.Statuses[k]} 0 <= k && k < old(len(grp.Statuses)) ==> grp.Statuses[k] == old(grp.Statuses[k])

func internal/ins.addProcInnerFunctionality
  property C14
  requires p != nil && f != nil && (typeis(f, *fn.Param) || typeis(f, *fn.Return))
  modifies p.Params, elems(p.Params), p.Returns, elems(p.Returns)
  ensures typeis(f, *fn.Param) ==> len(p.Params) == old(len(p.Params)) + 1 && p.Params[old(len(p.Params))] == as(f, *fn.Param)
  ensures !typeis(f, *fn.Param) ==> len(p.Params) == old(len(p.Params))
  ensures forall k :: {p.Params[k]} 0 <= k && k < old(len(p.Params)) ==> p.Params[k] == old(p.Params[k])
  ensures typeis(f, *fn.Return) ==> len(p.Returns) == old(len(p.Returns)) + 1 && p.Returns[old(len(p.Returns))] == as(f, *fn.Return)
  ensures !typeis(f, *fn.Return) ==> len(p.Returns) == old(len(p.Returns))
  ensures forall k :: {p.Returns[k]} 0 <= k && k < old(len(p.Returns)) ==> p.Returns[k] == old(p.Returns[k])

func internal/ins.addStreamInnerFunctionality
  property C14
  requires s != nil && f != nil && (typeis(f, *fn.Param) || typeis(f, *fn.Return))
  modifies s.Params, elems(s.Params), s.Returns, elems(s.Returns)
  # params and returns are not mixed
  ensures (result == nil) == old((typeis(f, *fn.Param) ==> len(s.Returns) == 0) && (typeis(f, *fn.Return) ==> len(s.Params) == 0))
  ensures result == nil && typeis(f, *fn.Param) ==> len(s.Params) == old(len(s.Params)) + 1 && s.Params[old(len(s.Params))] == as(f, *fn.Param)
  ensures !(result == nil && typeis(f, *fn.Param)) ==> len(s.Params) == old(len(s.Params))
  ensures forall k :: {s.Params[k]} 0 <= k && k < old(len(s.Params)) ==> s.Params[k] == old(s.Params[k])
  ensures result == nil && typeis(f, *fn.Return) ==> len(s.Returns) == old(len(s.Returns)) + 1 && s.Returns[old(len(s.Returns))] == as(f, *fn.Return)
  ensures !(result == nil && typeis(f, *fn.Return)) ==> len(s.Returns) == old(len(s.Returns))
  ensures forall k :: {s.Returns[k]} 0 <= k && k < old(len(s.Returns)) ==> s.Returns[k] == old(s.Returns[k])

func internal/ins.checkIrqGroup
  property C14
  requires len(grp.Irqs) > 0 && forall k :: {grp.Irqs[k]} 0 <= k && k < len(grp.Irqs) ==> grp.Irqs[k] != nil
  loop 0
    invariant forall k :: {grp.Irqs[k]} 0 <= k && k <= $n ==> grp.Irqs[k].OutTrigger == irq0.OutTrigger
  ensures (result == nil) == (!grp.Virtual && forall k :: {grp.Irqs[k]} 0 <= k && k < len(grp.Irqs) ==> grp.Irqs[k].OutTrigger == grp.Irqs[0].OutTrigger)

func internal/ins.checkGroup
  property C14
  requires forall k :: {grp.Irqs[k]} 0 <= k && k < len(grp.Irqs) ==> grp.Irqs[k] != nil
  requires forall k :: {grp.Params[k]} 0 <= k && k < len(grp.Params) ==> grp.Params[k] != nil
  requires forall k :: {grp.Returns[k]} 0 <= k && k < len(grp.Returns) ==> grp.Returns[k] != nil
  ensures (result == nil) == (!(grp.Virtual && (len(grp.Irqs) > 0 || len(grp.Params) > 0 || len(grp.Returns) > 0)) && forall k :: {grp.Irqs[k]} 0 <= k && k < len(grp.Irqs) ==> grp.Irqs[k].OutTrigger == grp.Irqs[0].OutTrigger)

