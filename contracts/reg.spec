# Placement of functionalities in the registers of a block: internal/reg
package internal/reg

# owner of every register bit of the block which is being laid out
ghost epoch() int
ghost owner(int, int, int) int
ghost okind(int, int, int) int

# kinds of owners
define KCONFIG() := 1
define KMASK() := 2
define KSTATIC() := 3
define KSTATUS() := 4
define KIRQ() := 5
define KIRQEN() := 6
define KPROC() := 7
define KSTREAM() := 8
define KIRQCLR() := 9
define writable(k int) := k == 1 || k == 2 || k >= 5

# addresses of one block start below 2^59
define regOK(addr int) := busWidth == types.busWidth && busOK() && 0 <= addr && addr <= 576460752303423488
define elemOK(n int, w int) := 1 <= w && w <= 65536 && 1 <= n && n <= 1048576
# no single functionality takes more registers than this
define STEP() := 137438953472
# neither does a procedure or stream with its arguments
define PSTEP() := 70368744177665
# container of an object: the compiled result is a tree
function owns(int) int

# bits between the first and the last bit of an access
define cells(r types.Access, a int, b int) := r.StartAddr <= a && a <= r.EndAddr && 0 <= b && b < busWidth && (a == r.StartAddr ==> r.StartBit <= b) && (a == r.EndAddr ==> b <= r.EndBit)
define freeFrom(addr int) := forall a, b :: {owner(epoch(), a, b)} a >= addr ==> owner(epoch(), a, b) == 0
define accOK(r types.Access, lo int, hi int, n int, w int) := accessBase(r, r.StartAddr, n, w) && lo <= r.StartAddr && r.EndAddr < hi

define gapOK(g gap.Single, addr int) := 0 <= g.Addr && g.Addr < addr && 0 <= g.StartBit && g.StartBit <= g.EndBit && g.EndBit == busWidth - 1 &&
   (forall b :: {owner(epoch(), g.Addr, b)} g.StartBit <= b && b < busWidth ==> owner(epoch(), g.Addr, b) == 0) &&
   (g.WriteSafe ==> forall b :: {owner(epoch(), g.Addr, b)} owner(epoch(), g.Addr, b) == 0 || !writable(okind(epoch(), g.Addr, b)))
define poolOK(gp *gap.Pool, addr int) := poolSorted(gp) && poolBits(gp) &&
   (forall i :: {gp.singles[i]} 0 <= i && i < len(gp.singles) ==> gapOK(gp.singles[i], addr)) &&
   (forall i, j :: {gp.singles[i], gp.singles[j]} 0 <= i && i < j && j < len(gp.singles) ==> gp.singles[i].Addr != gp.singles[j].Addr)

func internal/reg.regAtomicConfigSingle
  property C02
  requires cfg != nil && gp != nil
  requires regOK(addr) && elemOK(1, cfg.Width) && freeFrom(addr) && poolOK(gp, addr) && len(gp.singles) < 16777216
  modifies cfg.Access, gp.singles, elems(gp.singles)
  ghostset owner(e, a, b) := ite(e == epoch() && cells(cfg.Access, a, b), ref(cfg), owner(e, a, b))
  ghostset okind(e, a, b) := ite(e == epoch() && cells(cfg.Access, a, b), KCONFIG(), okind(e, a, b))
  ensures forall a, b :: {owner(epoch(), a, b)} cells(cfg.Access, a, b) ==> old(owner(epoch(), a, b)) == 0
  ensures accOK(cfg.Access, 0, result, 1, cfg.Width)
  ensures addr <= result && result <= addr + STEP()
  ensures freeFrom(result)
  ensures poolOK(gp, result) && len(gp.singles) <= old(len(gp.singles)) + 1
  ensures arr(gp.singles) == old(arr(gp.singles)) || fresh(gp.singles)

func internal/reg.regNonAtomicConfigSingle
  property C02
  requires cfg != nil && gp != nil
  requires regOK(addr) && elemOK(1, cfg.Width) && freeFrom(addr) && poolOK(gp, addr) && len(gp.singles) < 16777216
  modifies cfg.Access, gp.singles, elems(gp.singles)
  ghostset owner(e, a, b) := ite(e == epoch() && cells(cfg.Access, a, b), ref(cfg), owner(e, a, b))
  ghostset okind(e, a, b) := ite(e == epoch() && cells(cfg.Access, a, b), KCONFIG(), okind(e, a, b))
  ensures forall a, b :: {owner(epoch(), a, b)} cells(cfg.Access, a, b) ==> old(owner(epoch(), a, b)) == 0
  ensures accOK(cfg.Access, 0, result, 1, cfg.Width)
  ensures addr <= result && result <= addr + STEP()
  ensures freeFrom(result)
  ensures poolOK(gp, result) && len(gp.singles) <= old(len(gp.singles)) + 1
  ensures arr(gp.singles) == old(arr(gp.singles)) || fresh(gp.singles)

func internal/reg.regAtomicConfigArray
  property C02
  requires cfg != nil && gp != nil
  requires regOK(addr) && elemOK(cfg.Count, cfg.Width) && cfg.Width <= busWidth && freeFrom(addr) && poolOK(gp, addr) && len(gp.singles) < 16777216
  modifies cfg.Access, gp.singles, elems(gp.singles)
  ghostset owner(e, a, b) := ite(e == epoch() && cells(cfg.Access, a, b), ref(cfg), owner(e, a, b))
  ghostset okind(e, a, b) := ite(e == epoch() && cells(cfg.Access, a, b), KCONFIG(), okind(e, a, b))
  ensures forall a, b :: {owner(epoch(), a, b)} cells(cfg.Access, a, b) ==> old(owner(epoch(), a, b)) == 0
  ensures accOK(cfg.Access, 0, result, cfg.Count, cfg.Width)
  ensures addr <= result && result <= addr + STEP()
  ensures freeFrom(result)
  ensures poolOK(gp, result) && len(gp.singles) <= old(len(gp.singles)) + 1
  ensures arr(gp.singles) == old(arr(gp.singles)) || fresh(gp.singles)

func internal/reg.regMask
  property C02
  requires mask != nil
  requires regOK(addr) && elemOK(1, mask.Width) && !mask.IsArray && freeFrom(addr)
  modifies mask.Access
  ghostset owner(e, a, b) := ite(e == epoch() && cells(mask.Access, a, b), ref(mask), owner(e, a, b))
  ghostset okind(e, a, b) := ite(e == epoch() && cells(mask.Access, a, b), KMASK(), okind(e, a, b))
  ensures forall a, b :: {owner(epoch(), a, b)} cells(mask.Access, a, b) ==> old(owner(epoch(), a, b)) == 0
  ensures accOK(mask.Access, addr, result, 1, mask.Width)
  ensures addr <= result && result <= addr + STEP()
  ensures freeFrom(result)

func internal/reg.regStaticSingle
  property C02
  requires st != nil && gp != nil
  requires regOK(addr) && elemOK(1, st.Width) && freeFrom(addr) && poolOK(gp, addr) && len(gp.singles) < 16777216
  modifies st.Access, gp.singles, elems(gp.singles)
  ghostset owner(e, a, b) := ite(e == epoch() && cells(st.Access, a, b), ref(st), owner(e, a, b))
  ghostset okind(e, a, b) := ite(e == epoch() && cells(st.Access, a, b), KSTATIC(), okind(e, a, b))
  ensures forall a, b :: {owner(epoch(), a, b)} cells(st.Access, a, b) ==> old(owner(epoch(), a, b)) == 0
  ensures accOK(st.Access, 0, result, 1, st.Width)
  ensures addr <= result && result <= addr + STEP()
  ensures freeFrom(result)
  ensures poolOK(gp, result) && len(gp.singles) <= old(len(gp.singles)) + 1
  ensures arr(gp.singles) == old(arr(gp.singles)) || fresh(gp.singles)

func internal/reg.regStaticArray
  property C02
  requires st != nil && gp != nil
  requires regOK(addr) && elemOK(st.Count, st.Width) && st.Width <= busWidth && freeFrom(addr) && poolOK(gp, addr) && len(gp.singles) < 16777216
  modifies st.Access, gp.singles, elems(gp.singles)
  ghostset owner(e, a, b) := ite(e == epoch() && cells(st.Access, a, b), ref(st), owner(e, a, b))
  ghostset okind(e, a, b) := ite(e == epoch() && cells(st.Access, a, b), KSTATIC(), okind(e, a, b))
  ensures forall a, b :: {owner(epoch(), a, b)} cells(st.Access, a, b) ==> old(owner(epoch(), a, b)) == 0
  ensures accOK(st.Access, 0, result, st.Count, st.Width)
  ensures addr <= result && result <= addr + STEP()
  ensures freeFrom(result)
  ensures poolOK(gp, result) && len(gp.singles) <= old(len(gp.singles)) + 1
  ensures arr(gp.singles) == old(arr(gp.singles)) || fresh(gp.singles)

func internal/reg.regAtomicStatusSingle
  property C02
  requires st != nil && gp != nil
  requires regOK(addr) && elemOK(1, st.Width) && freeFrom(addr) && poolOK(gp, addr) && len(gp.singles) < 16777216
  modifies st.Access, gp.singles, elems(gp.singles)
  ghostset owner(e, a, b) := ite(e == epoch() && cells(st.Access, a, b), ref(st), owner(e, a, b))
  ghostset okind(e, a, b) := ite(e == epoch() && cells(st.Access, a, b), KSTATUS(), okind(e, a, b))
  ensures forall a, b :: {owner(epoch(), a, b)} cells(st.Access, a, b) ==> old(owner(epoch(), a, b)) == 0
  ensures accOK(st.Access, 0, result, 1, st.Width)
  ensures addr <= result && result <= addr + STEP()
  ensures freeFrom(result)
  ensures poolOK(gp, result) && len(gp.singles) <= old(len(gp.singles)) + 1
  ensures arr(gp.singles) == old(arr(gp.singles)) || fresh(gp.singles)

func internal/reg.regNonAtomicStatusSingle
  property C02
  requires st != nil && gp != nil
  requires regOK(addr) && elemOK(1, st.Width) && freeFrom(addr) && poolOK(gp, addr) && len(gp.singles) < 16777216
  modifies st.Access, gp.singles, elems(gp.singles)
  ghostset owner(e, a, b) := ite(e == epoch() && cells(st.Access, a, b), ref(st), owner(e, a, b))
  ghostset okind(e, a, b) := ite(e == epoch() && cells(st.Access, a, b), KSTATUS(), okind(e, a, b))
  ensures forall a, b :: {owner(epoch(), a, b)} cells(st.Access, a, b) ==> old(owner(epoch(), a, b)) == 0
  ensures accOK(st.Access, 0, result, 1, st.Width)
  ensures addr <= result && result <= addr + STEP()
  ensures freeFrom(result)
  ensures poolOK(gp, result) && len(gp.singles) <= old(len(gp.singles)) + 1
  ensures arr(gp.singles) == old(arr(gp.singles)) || fresh(gp.singles)

func internal/reg.regAtomicStatusArray
  property C02
  requires st != nil && gp != nil
  requires regOK(addr) && elemOK(st.Count, st.Width) && freeFrom(addr) && poolOK(gp, addr) && len(gp.singles) < 16777216
  modifies st.Access, gp.singles, elems(gp.singles)
  ghostset owner(e, a, b) := ite(e == epoch() && cells(st.Access, a, b), ref(st), owner(e, a, b))
  ghostset okind(e, a, b) := ite(e == epoch() && cells(st.Access, a, b), KSTATUS(), okind(e, a, b))
  ensures forall a, b :: {owner(epoch(), a, b)} cells(st.Access, a, b) ==> old(owner(epoch(), a, b)) == 0
  ensures accOK(st.Access, 0, result, st.Count, st.Width)
  ensures addr <= result && result <= addr + STEP()
  ensures freeFrom(result)
  ensures poolOK(gp, result) && len(gp.singles) <= old(len(gp.singles)) + 1
  ensures arr(gp.singles) == old(arr(gp.singles)) || fresh(gp.singles)

func internal/reg.regNonAtomicStatusArray
  property C02
  requires st != nil && gp != nil
  requires regOK(addr) && elemOK(st.Count, st.Width) && freeFrom(addr) && poolOK(gp, addr) && len(gp.singles) < 16777216
  modifies st.Access, gp.singles, elems(gp.singles)
  ghostset owner(e, a, b) := ite(e == epoch() && cells(st.Access, a, b), ref(st), owner(e, a, b))
  ghostset okind(e, a, b) := ite(e == epoch() && cells(st.Access, a, b), KSTATUS(), okind(e, a, b))
  ensures forall a, b :: {owner(epoch(), a, b)} cells(st.Access, a, b) ==> old(owner(epoch(), a, b)) == 0
  ensures accOK(st.Access, 0, result, st.Count, st.Width)
  ensures addr <= result && result <= addr + STEP()
  ensures freeFrom(result)
  ensures poolOK(gp, result) && len(gp.singles) <= old(len(gp.singles)) + 1
  ensures arr(gp.singles) == old(arr(gp.singles)) || fresh(gp.singles)

# Irqs: an irq either takes one bit of a write safe gap, or whole registers
define irqCell(irq *fn.Irq, a int, b int, lo int, hi int) := ite(lo == hi, cells(irq.Access, a, b), lo <= a && a < hi && 0 <= b && b < busWidth)

func internal/reg.regIrqSingle
  property C02, C03
  requires irq != nil && gp != nil && irq.ClearAddr == nil
  requires regOK(addr) && freeFrom(addr) && poolOK(gp, addr)
  modifies irq.Access, irq.EnableAccess, irq.ClearAddr, gp.singles, elems(gp.singles)
  ghostset owner(e, a, b) := ite(e == epoch() && irqCell(irq, a, b, addr, result), ref(irq), owner(e, a, b))
  ghostset okind(e, a, b) := ite(e == epoch() && irqCell(irq, a, b, addr, result), KIRQ(), okind(e, a, b))
  ensures forall a, b :: {owner(epoch(), a, b)} irqCell(irq, a, b, addr, result) ==> old(owner(epoch(), a, b)) == 0
  ensures accOK(irq.Access, 0, result, 1, 1)
  ensures result > addr ==> irq.Access.StartAddr >= addr
  ensures irq.AddEnable ==> result > addr && accOK(irq.EnableAccess, addr, result, 1, 1) && (irq.EnableAccess.StartAddr != irq.Access.StartAddr || irq.EnableAccess.StartBit != irq.Access.StartBit)
  ensures (irq.Clear == "Explicit") == (irq.ClearAddr != nil)
  ensures result == addr ==> irq.ClearAddr != nil && irq.Access.StartAddr == irq.Access.EndAddr
  # the register which clears the irq holds nothing else which reacts to a write
  ensures irq.ClearAddr != nil && result > addr ==> addr <= *irq.ClearAddr && *irq.ClearAddr < result
  ensures irq.ClearAddr != nil && result == addr ==> *irq.ClearAddr == irq.Access.StartAddr && forall a, b :: {owner(epoch(), a, b)} a == *irq.ClearAddr ==> old(owner(epoch(), a, b)) == 0 || !writable(old(okind(epoch(), a, b)))
  ensures addr <= result && result <= addr + STEP()
  ensures freeFrom(result)
  ensures poolOK(gp, result) && len(gp.singles) <= old(len(gp.singles))
  ensures arr(gp.singles) == old(arr(gp.singles)) || fresh(gp.singles)

# Arguments of procedures and streams
define nextAddr(x types.Access) := ite(x.EndBit < busWidth - 1, x.EndAddr, x.EndAddr + 1)
define nextBit(x types.Access) := ite(x.EndBit < busWidth - 1, x.EndBit + 1, 0)
define items(p) := ite(p.IsArray, p.Count, 1)
define argPlaced(p) := accessBase(p.Access, p.Access.StartAddr, items(p), p.Width) && spanBits(p.Access) == items(p) * p.Width && (p.IsArray ==> p.Access.Type == "ArrayNRegs")
define argsOK(xs, o) := len(xs) <= 256 && (forall i :: {xs[i]} 0 <= i && i < len(xs) ==> xs[i] != nil && owns(ref(xs[i])) == o && elemOK(items(xs[i]), xs[i].Width)) &&
  (forall i, j :: {xs[i], xs[j]} 0 <= i && i < j && j < len(xs) ==> xs[i] != xs[j])
# the first n arguments are placed one directly after another
define packed(xs, n int) := (forall k :: {xs[k]} 0 <= k && k < n ==> argPlaced(xs[k])) && (forall j, k :: {xs[j], xs[k]} 0 <= j && k == j + 1 && k < n ==> xs[k].Access.StartAddr == nextAddr(xs[j].Access) && xs[k].Access.StartBit == nextBit(xs[j].Access))
define startsAt(xs, n int, a int, b int) := n > 0 ==> xs[0].Access.StartAddr == a && xs[0].Access.StartBit == b
# position behind the first n arguments which start at (a0, b0)
define behind(xs, n int, a0 int, b0 int, a int, b int) := ite(n == 0, a == a0 && b == b0, a == nextAddr(xs[n-1].Access) && b == nextBit(xs[n-1].Access))
define addrBehind(xs, a0 int) := ite(len(xs) == 0, a0, nextAddr(xs[len(xs)-1].Access))
define bitBehind(xs, b0 int) := ite(len(xs) == 0, b0, nextBit(xs[len(xs)-1].Access))
define within(xs, n int, lo int, hi int) := forall k :: {xs[k]} 0 <= k && k < n ==> lo <= xs[k].Access.StartAddr && xs[k].Access.EndAddr < hi
define procCells(e int, lo int, hi int, a int, b int) := e == epoch() && lo <= a && a < hi && 0 <= b && b < busWidth

func internal/reg.regProc
  property C02, C05
  requires proc != nil && regOK(addr) && freeFrom(addr)
  requires argsOK(proc.Params, ref(proc)) && argsOK(proc.Returns, ref(proc))
  requires proc.CallAddr == nil && proc.ExitAddr == nil
  modifies proc.CallAddr, proc.ExitAddr
  modifies any fn.Param.Access if owns(ref(it)) == ref(proc)
  modifies any fn.Return.Access if owns(ref(it)) == ref(proc)
  ghostset owner(e, a, b) := ite(procCells(e, addr, result, a, b), ref(proc), owner(e, a, b))
  ghostset okind(e, a, b) := ite(procCells(e, addr, result, a, b), KPROC(), okind(e, a, b))
  loop 0
    invariant old(addr) <= addr && addr <= old(addr) + $n * STEP() && 0 <= baseBit && baseBit < busWidth
    invariant packed(proc.Params, $n) && startsAt(proc.Params, $n, old(addr), 0)
    invariant behind(proc.Params, $n, old(addr), 0, addr, baseBit)
    invariant within(proc.Params, $n, old(addr), ite(baseBit == 0, addr, addr + 1))
  end
  loop 1
    invariant addrBehind(proc.Params, old(addr)) <= addr && addr <= old(addr) + (len(proc.Params) + $n) * STEP() && 0 <= baseBit && baseBit < busWidth
    invariant packed(proc.Params, len(proc.Params)) && startsAt(proc.Params, len(proc.Params), old(addr), 0)
    invariant packed(proc.Returns, $n) && startsAt(proc.Returns, $n, addrBehind(proc.Params, old(addr)), bitBehind(proc.Params, 0))
    invariant behind(proc.Returns, $n, addrBehind(proc.Params, old(addr)), bitBehind(proc.Params, 0), addr, baseBit)
    invariant within(proc.Params, len(proc.Params), old(addr), ite(baseBit == 0, addr, addr + 1))
    invariant within(proc.Returns, $n, old(addr), ite(baseBit == 0, addr, addr + 1))
  end
  ensures packed(proc.Params, len(proc.Params)) && packed(proc.Returns, len(proc.Returns))
  ensures startsAt(proc.Params, len(proc.Params), addr, 0)
  ensures startsAt(proc.Returns, len(proc.Returns), addrBehind(proc.Params, addr), bitBehind(proc.Params, 0))
  ensures len(proc.Params) > 0 ==> proc.CallAddr != nil && *proc.CallAddr == proc.Params[len(proc.Params)-1].Access.EndAddr
  ensures len(proc.Params) == 0 && (len(proc.Returns) == 0 || proc.Delay != nil) ==> proc.CallAddr != nil && *proc.CallAddr == addr
  ensures len(proc.Params) == 0 && len(proc.Returns) > 0 && proc.Delay == nil ==> proc.CallAddr == nil
  ensures len(proc.Returns) > 0 ==> proc.ExitAddr != nil && *proc.ExitAddr == proc.Returns[len(proc.Returns)-1].Access.EndAddr
  ensures len(proc.Returns) == 0 && proc.Delay != nil ==> proc.ExitAddr != nil && *proc.ExitAddr == *proc.CallAddr
  ensures len(proc.Returns) == 0 && proc.Delay == nil ==> proc.ExitAddr == nil
  # exactly the registers of the arguments are used, one when there are none
  ensures len(proc.Returns) > 0 ==> result == proc.Returns[len(proc.Returns)-1].Access.EndAddr + 1
  ensures len(proc.Returns) == 0 && len(proc.Params) > 0 ==> result == proc.Params[len(proc.Params)-1].Access.EndAddr + 1
  ensures len(proc.Returns) == 0 && len(proc.Params) == 0 ==> result == addr + 1
  ensures within(proc.Params, len(proc.Params), addr, result) && within(proc.Returns, len(proc.Returns), addr, result)
  ensures addr < result && result <= addr + PSTEP() && freeFrom(result)

# ---- streams

func internal/reg.regUpstream
  property C02, C05
  requires s != nil && regOK(addr) && freeFrom(addr)
  requires argsOK(s.Returns, ref(s)) && len(s.Returns) > 0
  modifies s.StbAddr
  modifies any fn.Return.Access if owns(ref(it)) == ref(s)
  ghostset owner(e, a, b) := ite(procCells(e, addr, result, a, b), ref(s), owner(e, a, b))
  ghostset okind(e, a, b) := ite(procCells(e, addr, result, a, b), KSTREAM(), okind(e, a, b))
  loop 0
    invariant old(addr) <= addr && addr <= old(addr) + $n * STEP() && 0 <= baseBit && baseBit < busWidth
    invariant packed(s.Returns, $n) && startsAt(s.Returns, $n, old(addr), 0)
    invariant behind(s.Returns, $n, old(addr), 0, addr, baseBit)
    invariant within(s.Returns, $n, old(addr), ite(baseBit == 0, addr, addr + 1))
  end
  ensures packed(s.Returns, len(s.Returns)) && startsAt(s.Returns, len(s.Returns), addr, 0)
  ensures s.StbAddr == s.Returns[len(s.Returns)-1].Access.EndAddr
  ensures result == s.StbAddr + 1 && within(s.Returns, len(s.Returns), addr, result)
  ensures addr < result && result <= addr + PSTEP() && freeFrom(result)

func internal/reg.regDownstream
  property C02, C05
  requires s != nil && regOK(addr) && freeFrom(addr)
  requires argsOK(s.Params, ref(s)) && len(s.Params) > 0
  modifies s.StbAddr
  modifies any fn.Param.Access if owns(ref(it)) == ref(s)
  ghostset owner(e, a, b) := ite(procCells(e, addr, result, a, b), ref(s), owner(e, a, b))
  ghostset okind(e, a, b) := ite(procCells(e, addr, result, a, b), KSTREAM(), okind(e, a, b))
  loop 0
    invariant old(addr) <= addr && addr <= old(addr) + $n * STEP() && 0 <= baseBit && baseBit < busWidth
    invariant packed(s.Params, $n) && startsAt(s.Params, $n, old(addr), 0)
    invariant behind(s.Params, $n, old(addr), 0, addr, baseBit)
    invariant within(s.Params, $n, old(addr), ite(baseBit == 0, addr, addr + 1))
  end
  ensures packed(s.Params, len(s.Params)) && startsAt(s.Params, len(s.Params), addr, 0)
  ensures s.StbAddr == s.Params[len(s.Params)-1].Access.EndAddr
  ensures result == s.StbAddr + 1 && within(s.Params, len(s.Params), addr, result)
  ensures addr < result && result <= addr + PSTEP() && freeFrom(result)

func internal/reg.regEmptyStream
  property C02, C05
  requires s != nil && regOK(addr) && freeFrom(addr)
  modifies s.StbAddr
  ghostset owner(e, a, b) := ite(procCells(e, addr, result, a, b), ref(s), owner(e, a, b))
  ghostset okind(e, a, b) := ite(procCells(e, addr, result, a, b), KSTREAM(), okind(e, a, b))
  ensures s.StbAddr == addr && result == addr + 1 && freeFrom(result)

func internal/reg.regStream
  property C02, C05
  requires s != nil && regOK(addr) && freeFrom(addr)
  requires argsOK(s.Params, ref(s)) && argsOK(s.Returns, ref(s)) && (len(s.Params) == 0 || len(s.Returns) == 0)
  modifies s.StbAddr
  modifies any fn.Param.Access if owns(ref(it)) == ref(s)
  modifies any fn.Return.Access if owns(ref(it)) == ref(s)
  ghostset owner(e, a, b) := _
  ghostset okind(e, a, b) := _
  ensures forall e, a, b :: {owner(e, a, b)} owner(e, a, b) == ite(procCells(e, addr, result, a, b), ref(s), old(owner(e, a, b)))
  ensures forall e, a, b :: {okind(e, a, b)} okind(e, a, b) == ite(procCells(e, addr, result, a, b), KSTREAM(), old(okind(e, a, b)))
  ensures packed(s.Params, len(s.Params)) && startsAt(s.Params, len(s.Params), addr, 0)
  ensures packed(s.Returns, len(s.Returns)) && startsAt(s.Returns, len(s.Returns), addr, 0)
  ensures len(s.Params) > 0 ==> s.StbAddr == s.Params[len(s.Params)-1].Access.EndAddr
  ensures len(s.Returns) > 0 ==> s.StbAddr == s.Returns[len(s.Returns)-1].Access.EndAddr
  ensures len(s.Params) == 0 && len(s.Returns) == 0 ==> s.StbAddr == addr
  ensures result == s.StbAddr + 1 && within(s.Params, len(s.Params), addr, result) && within(s.Returns, len(s.Returns), addr, result)
  ensures addr < result && result <= addr + PSTEP() && freeFrom(result)

# ---- lists of functionalities of a block
# position of an object in the list which it belongs to
function idx(int) int
define listOK(xs, o) := len(xs) <= 65536 && (forall i :: {xs[i]} 0 <= i && i < len(xs) ==> xs[i] != nil && idx(ref(xs[i])) == i && owns(ref(xs[i])) == o && elemOK(items(xs[i]), xs[i].Width))
define placedList(xs, n int, k int, addr int) := (forall j :: {xs[j]} 0 <= j && j < n ==> accOK(xs[j].Access, 0, addr, items(xs[j]), xs[j].Width)) &&
  (forall j, a, b :: {xs[j], owner(epoch(), a, b)} 0 <= j && j < n && cells(xs[j].Access, a, b) ==> owner(epoch(), a, b) == ref(xs[j]) && okind(epoch(), a, b) == k)
# bits which have an owner keep it
define keeps() := (forall a, b :: {owner(epoch(), a, b)} old(owner(epoch(), a, b)) != 0 ==> owner(epoch(), a, b) == old(owner(epoch(), a, b)) && okind(epoch(), a, b) == old(okind(epoch(), a, b))) &&
  (forall e, a, b :: {owner(e, a, b)} e != epoch() ==> owner(e, a, b) == old(owner(e, a, b)))
define poolStep(gp *gap.Pool, addr int, n int) := poolOK(gp, addr) && len(gp.singles) <= old(len(gp.singles)) + n && (arr(gp.singles) == old(arr(gp.singles)) || fresh(gp.singles))

func internal/reg.regAtomicConfig
  property C02
  requires cfg != nil && gp != nil
  requires regOK(addr) && elemOK(items(cfg), cfg.Width) && freeFrom(addr) && poolOK(gp, addr) && len(gp.singles) < 16777216 && (cfg.IsArray ==> cfg.Width <= busWidth)
  modifies cfg.Access, gp.singles, elems(gp.singles)
  ghostset owner(e, a, b) := _
  ghostset okind(e, a, b) := _
  ensures forall e, a, b :: {owner(e, a, b)} owner(e, a, b) == ite(e == epoch() && cells(cfg.Access, a, b), ref(cfg), old(owner(e, a, b)))
  ensures forall e, a, b :: {okind(e, a, b)} okind(e, a, b) == ite(e == epoch() && cells(cfg.Access, a, b), KCONFIG(), old(okind(e, a, b)))
  ensures forall a, b :: {owner(epoch(), a, b)} cells(cfg.Access, a, b) ==> old(owner(epoch(), a, b)) == 0
  ensures accOK(cfg.Access, 0, result, items(cfg), cfg.Width)
  ensures addr <= result && result <= addr + STEP()
  ensures freeFrom(result)
  ensures poolOK(gp, result) && len(gp.singles) <= old(len(gp.singles)) + 1
  ensures arr(gp.singles) == old(arr(gp.singles)) || fresh(gp.singles)

func internal/reg.regNonAtomicConfig
  property C02
  requires cfg != nil && gp != nil
  requires regOK(addr) && elemOK(items(cfg), cfg.Width) && freeFrom(addr) && poolOK(gp, addr) && len(gp.singles) < 16777216 && !cfg.IsArray
  modifies cfg.Access, gp.singles, elems(gp.singles)
  ghostset owner(e, a, b) := _
  ghostset okind(e, a, b) := _
  ensures forall e, a, b :: {owner(e, a, b)} owner(e, a, b) == ite(e == epoch() && cells(cfg.Access, a, b), ref(cfg), old(owner(e, a, b)))
  ensures forall e, a, b :: {okind(e, a, b)} okind(e, a, b) == ite(e == epoch() && cells(cfg.Access, a, b), KCONFIG(), old(okind(e, a, b)))
  ensures forall a, b :: {owner(epoch(), a, b)} cells(cfg.Access, a, b) ==> old(owner(epoch(), a, b)) == 0
  ensures accOK(cfg.Access, 0, result, items(cfg), cfg.Width)
  ensures addr <= result && result <= addr + STEP()
  ensures freeFrom(result)
  ensures poolOK(gp, result) && len(gp.singles) <= old(len(gp.singles)) + 1
  ensures arr(gp.singles) == old(arr(gp.singles)) || fresh(gp.singles)

func internal/reg.regStatic
  property C02
  requires st != nil && gp != nil
  requires regOK(addr) && elemOK(items(st), st.Width) && freeFrom(addr) && poolOK(gp, addr) && len(gp.singles) < 16777216 && (st.IsArray ==> st.Width <= busWidth)
  modifies st.Access, gp.singles, elems(gp.singles)
  ghostset owner(e, a, b) := _
  ghostset okind(e, a, b) := _
  ensures forall e, a, b :: {owner(e, a, b)} owner(e, a, b) == ite(e == epoch() && cells(st.Access, a, b), ref(st), old(owner(e, a, b)))
  ensures forall e, a, b :: {okind(e, a, b)} okind(e, a, b) == ite(e == epoch() && cells(st.Access, a, b), KSTATIC(), old(okind(e, a, b)))
  ensures forall a, b :: {owner(epoch(), a, b)} cells(st.Access, a, b) ==> old(owner(epoch(), a, b)) == 0
  ensures accOK(st.Access, 0, result, items(st), st.Width)
  ensures addr <= result && result <= addr + STEP()
  ensures freeFrom(result)
  ensures poolOK(gp, result) && len(gp.singles) <= old(len(gp.singles)) + 1
  ensures arr(gp.singles) == old(arr(gp.singles)) || fresh(gp.singles)

func internal/reg.regAtomicStatus
  property C02
  requires st != nil && gp != nil
  requires regOK(addr) && elemOK(items(st), st.Width) && freeFrom(addr) && poolOK(gp, addr) && len(gp.singles) < 16777216
  modifies st.Access, gp.singles, elems(gp.singles)
  ghostset owner(e, a, b) := _
  ghostset okind(e, a, b) := _
  ensures forall e, a, b :: {owner(e, a, b)} owner(e, a, b) == ite(e == epoch() && cells(st.Access, a, b), ref(st), old(owner(e, a, b)))
  ensures forall e, a, b :: {okind(e, a, b)} okind(e, a, b) == ite(e == epoch() && cells(st.Access, a, b), KSTATUS(), old(okind(e, a, b)))
  ensures forall a, b :: {owner(epoch(), a, b)} cells(st.Access, a, b) ==> old(owner(epoch(), a, b)) == 0
  ensures accOK(st.Access, 0, result, items(st), st.Width)
  ensures addr <= result && result <= addr + STEP()
  ensures freeFrom(result)
  ensures poolOK(gp, result) && len(gp.singles) <= old(len(gp.singles)) + 1
  ensures arr(gp.singles) == old(arr(gp.singles)) || fresh(gp.singles)

func internal/reg.regNonAtomicStatus
  property C02
  requires st != nil && gp != nil
  requires regOK(addr) && elemOK(items(st), st.Width) && freeFrom(addr) && poolOK(gp, addr) && len(gp.singles) < 16777216
  modifies st.Access, gp.singles, elems(gp.singles)
  ghostset owner(e, a, b) := _
  ghostset okind(e, a, b) := _
  ensures forall e, a, b :: {owner(e, a, b)} owner(e, a, b) == ite(e == epoch() && cells(st.Access, a, b), ref(st), old(owner(e, a, b)))
  ensures forall e, a, b :: {okind(e, a, b)} okind(e, a, b) == ite(e == epoch() && cells(st.Access, a, b), KSTATUS(), old(okind(e, a, b)))
  ensures forall a, b :: {owner(epoch(), a, b)} cells(st.Access, a, b) ==> old(owner(epoch(), a, b)) == 0
  ensures accOK(st.Access, 0, result, items(st), st.Width)
  ensures addr <= result && result <= addr + STEP()
  ensures freeFrom(result)
  ensures poolOK(gp, result) && len(gp.singles) <= old(len(gp.singles)) + 1
  ensures arr(gp.singles) == old(arr(gp.singles)) || fresh(gp.singles)

# registers below addr stay as they were
define untouched(addr int) := forall a, b :: {owner(epoch(), a, b)} a < addr ==> owner(epoch(), a, b) == old(owner(epoch(), a, b)) && okind(epoch(), a, b) == old(okind(epoch(), a, b))

func internal/reg.regMasks
  property C02
  requires blk != nil && regOK(addr) && regOK(addr + 65536 * STEP()) && freeFrom(addr)
  requires listOK(blk.Masks, ref(blk)) && (forall i :: {blk.Masks[i]} 0 <= i && i < len(blk.Masks) ==> !blk.Masks[i].IsArray)
  modifies any fn.Mask.Access if owns(ref(it)) == ref(blk)
  ghostset owner(e, a, b) := _
  ghostset okind(e, a, b) := _
  loop 0
    invariant old(addr) <= addr && addr <= old(addr) + $n * STEP() && freeFrom(addr) && keeps()
    invariant placedList(blk.Masks, $n, KMASK(), addr)
    invariant untouched(old(addr))
  end
  ensures untouched(addr)
  ensures placedList(blk.Masks, len(blk.Masks), KMASK(), result)
  ensures addr <= result && result <= addr + 65536 * STEP() && freeFrom(result) && keeps()

func internal/reg.regStatics
  property C02
  requires blk != nil && gp != nil && regOK(addr) && regOK(addr + 65536 * STEP()) && freeFrom(addr) && poolOK(gp, addr) && len(gp.singles) <= 8388608
  requires listOK(blk.Statics, ref(blk)) && (forall i :: {blk.Statics[i]} 0 <= i && i < len(blk.Statics) ==> blk.Statics[i].IsArray ==> blk.Statics[i].Width <= busWidth)
  modifies any fn.Static.Access if owns(ref(it)) == ref(blk)
  modifies gp.singles, elems(gp.singles)
  ghostset owner(e, a, b) := _
  ghostset okind(e, a, b) := _
  loop 0
    invariant old(addr) <= addr && addr <= old(addr) + $n * STEP() && freeFrom(addr) && keeps()
    invariant placedList(statics, $n, KSTATIC(), addr)
    invariant poolStep(gp, addr, $n)
  end
  ensures placedList(blk.Statics, len(blk.Statics), KSTATIC(), result)
  ensures addr <= result && result <= addr + 65536 * STEP() && freeFrom(result) && keeps()
  ensures poolStep(gp, result, 65536)

func internal/reg.regIrqs
  property C02, C03
  requires blk != nil && gp != nil && regOK(addr) && regOK(addr + 65536 * STEP()) && freeFrom(addr) && poolOK(gp, addr) && len(gp.singles) <= 8388608
  requires len(blk.Irqs) <= 65536 && (forall i :: {blk.Irqs[i]} 0 <= i && i < len(blk.Irqs) ==> blk.Irqs[i] != nil && idx(ref(blk.Irqs[i])) == i && owns(ref(blk.Irqs[i])) == ref(blk) && !blk.Irqs[i].IsArray && blk.Irqs[i].ClearAddr == nil)
  modifies any fn.Irq.Access if owns(ref(it)) == ref(blk)
  modifies any fn.Irq.EnableAccess if owns(ref(it)) == ref(blk)
  modifies any fn.Irq.ClearAddr if owns(ref(it)) == ref(blk)
  modifies gp.singles, elems(gp.singles)
  ghostset owner(e, a, b) := _
  ghostset okind(e, a, b) := _
  loop 0
    invariant old(addr) <= addr && addr <= old(addr) + $n * STEP() && freeFrom(addr) && keeps()
    invariant irqsPlaced(blk.Irqs, $n, addr)
    invariant irqsOwn(blk.Irqs, $n)
    invariant irqsHold(blk.Irqs, $n)
    invariant irqsClear(blk.Irqs, $n)
    invariant forall k :: {blk.Irqs[k]} $n <= k && k < len(blk.Irqs) ==> blk.Irqs[k].ClearAddr == nil
    invariant poolStep(gp, addr, 0)
  end
  ensures irqsPlaced(blk.Irqs, len(blk.Irqs), result) && irqsOwn(blk.Irqs, len(blk.Irqs)) && irqsClear(blk.Irqs, len(blk.Irqs))
  ensures addr <= result && result <= addr + 65536 * STEP() && freeFrom(result) && keeps()
  ensures poolStep(gp, result, 0)

define irqsPlaced(xs, n int, addr int) := forall j :: {xs[j]} 0 <= j && j < n ==> accOK(xs[j].Access, 0, addr, 1, 1) && (xs[j].AddEnable ==> accOK(xs[j].EnableAccess, 0, addr, 1, 1) && (xs[j].EnableAccess.StartAddr != xs[j].Access.StartAddr || xs[j].EnableAccess.StartBit != xs[j].Access.StartBit)) && (xs[j].Clear == "Explicit") == (xs[j].ClearAddr != nil) && (xs[j].ClearAddr != nil ==> 0 <= *xs[j].ClearAddr && *xs[j].ClearAddr < addr)
define irqsOwn(xs, n int) := forall j, a, b :: {xs[j], owner(epoch(), a, b)} 0 <= j && j < n && (cells(xs[j].Access, a, b) || xs[j].AddEnable && cells(xs[j].EnableAccess, a, b)) ==> owner(epoch(), a, b) == ref(xs[j]) && okind(epoch(), a, b) == KIRQ()
define irqsHold(xs, n int) := forall j :: {xs[j]} 0 <= j && j < n && xs[j].ClearAddr != nil ==> owner(epoch(), *xs[j].ClearAddr, xs[j].Access.StartBit) == ref(xs[j]) && okind(epoch(), *xs[j].ClearAddr, xs[j].Access.StartBit) == KIRQ()
# a write to the register which clears an irq touches nothing else
define irqsClear(xs, n int) := forall j, a, b :: {xs[j], owner(epoch(), a, b)} 0 <= j && j < n && xs[j].ClearAddr != nil && a == *xs[j].ClearAddr && 0 <= b && b < busWidth && owner(epoch(), a, b) != 0 && writable(okind(epoch(), a, b)) ==> owner(epoch(), a, b) == ref(xs[j])

# number of atomic elements among the first k elements of a list
function rank(int, int, int) int
define ranked(xs, o int, kind int) := rank(o, kind, 0) == 0 && forall k :: {xs[k]} 0 <= k && k < len(xs) ==> rank(o, kind, k + 1) == rank(o, kind, k) + ite(xs[k].Atomic, 1, 0)

func internal/reg.regConfigs
  property C02
  requires blk != nil && gp != nil && regOK(addr) && regOK(addr + 65536 * STEP()) && freeFrom(addr) && poolOK(gp, addr) && len(gp.singles) <= 8388608
  given ranked(blk.Configs, ref(blk), KCONFIG())
  requires listOK(blk.Configs, ref(blk)) && (forall i :: {blk.Configs[i]} 0 <= i && i < len(blk.Configs) ==> blk.Configs[i].IsArray ==> blk.Configs[i].Width <= busWidth && blk.Configs[i].Atomic)
  modifies any fn.Config.Access if owns(ref(it)) == ref(blk)
  modifies gp.singles, elems(gp.singles)
  ghostset owner(e, a, b) := _
  ghostset okind(e, a, b) := _
  loop 0
    invariant partOf(atomicCfgs, blk.Configs, $n) && partOf(nonAtomicCfgs, blk.Configs, $n) && len(atomicCfgs) + len(nonAtomicCfgs) == $n
    invariant (forall j :: {atomicCfgs[j]} 0 <= j && j < len(atomicCfgs) ==> atomicCfgs[j].Atomic) && (forall j :: {nonAtomicCfgs[j]} 0 <= j && j < len(nonAtomicCfgs) ==> !nonAtomicCfgs[j].Atomic)
    invariant len(atomicCfgs) == rank(ref(blk), KCONFIG(), $n)
    invariant forall k :: {blk.Configs[k]} 0 <= k && k < $n ==> ite(blk.Configs[k].Atomic, 0 <= rank(ref(blk), KCONFIG(), k) && rank(ref(blk), KCONFIG(), k) < len(atomicCfgs) && atomicCfgs[rank(ref(blk), KCONFIG(), k)] == blk.Configs[k], 0 <= k - rank(ref(blk), KCONFIG(), k) && k - rank(ref(blk), KCONFIG(), k) < len(nonAtomicCfgs) && nonAtomicCfgs[k - rank(ref(blk), KCONFIG(), k)] == blk.Configs[k])
    invariant fresh(atomicCfgs) && fresh(nonAtomicCfgs) && arr(atomicCfgs) != arr(nonAtomicCfgs)
    invariant distinct(atomicCfgs) && distinct(nonAtomicCfgs)
  end
  loop 1
    invariant old(addr) <= addr && addr <= old(addr) + $n * STEP() && freeFrom(addr) && keeps()
    invariant placedList(atomicCfgs, $n, KCONFIG(), addr)
    invariant poolStep(gp, addr, $n)
  end
  loop 2
    invariant old(addr) <= addr && addr <= old(addr) + (len(atomicCfgs) + $n) * STEP() && freeFrom(addr) && keeps()
    invariant placedList(atomicCfgs, len(atomicCfgs), KCONFIG(), addr)
    invariant placedList(nonAtomicCfgs, $n, KCONFIG(), addr)
    invariant poolStep(gp, addr, len(atomicCfgs) + $n)
  end
  ensures placedList(blk.Configs, len(blk.Configs), KCONFIG(), result)
  ensures addr <= result && result <= addr + 65536 * STEP() && freeFrom(result) && keeps()
  ensures poolStep(gp, result, 65536)

define partOf(xs, ys, n int) := len(xs) <= n && forall j :: {xs[j]} 0 <= j && j < len(xs) ==> 0 <= idx(ref(xs[j])) && idx(ref(xs[j])) < n && xs[j] == ys[idx(ref(xs[j]))]
define distinct(xs) := forall i, j :: {xs[i], xs[j]} 0 <= i && i < j && j < len(xs) ==> xs[i] != xs[j]

func internal/reg.regStatuses
  property C02
  requires blk != nil && gp != nil && regOK(addr) && regOK(addr + 65536 * STEP()) && freeFrom(addr) && poolOK(gp, addr) && len(gp.singles) <= 8388608
  given ranked(blk.Statuses, ref(blk), KSTATUS())
  requires listOK(blk.Statuses, ref(blk))
  modifies any fn.Status.Access if owns(ref(it)) == ref(blk)
  modifies gp.singles, elems(gp.singles)
  ghostset owner(e, a, b) := _
  ghostset okind(e, a, b) := _
  loop 0
    invariant partOf(atomicSts, blk.Statuses, $n) && partOf(nonAtomicSts, blk.Statuses, $n) && len(atomicSts) + len(nonAtomicSts) == $n
    invariant (forall j :: {atomicSts[j]} 0 <= j && j < len(atomicSts) ==> atomicSts[j].Atomic) && (forall j :: {nonAtomicSts[j]} 0 <= j && j < len(nonAtomicSts) ==> !nonAtomicSts[j].Atomic)
    invariant len(atomicSts) == rank(ref(blk), KSTATUS(), $n)
    invariant forall k :: {blk.Statuses[k]} 0 <= k && k < $n ==> ite(blk.Statuses[k].Atomic, 0 <= rank(ref(blk), KSTATUS(), k) && rank(ref(blk), KSTATUS(), k) < len(atomicSts) && atomicSts[rank(ref(blk), KSTATUS(), k)] == blk.Statuses[k], 0 <= k - rank(ref(blk), KSTATUS(), k) && k - rank(ref(blk), KSTATUS(), k) < len(nonAtomicSts) && nonAtomicSts[k - rank(ref(blk), KSTATUS(), k)] == blk.Statuses[k])
    invariant fresh(atomicSts) && fresh(nonAtomicSts) && arr(atomicSts) != arr(nonAtomicSts)
    invariant distinct(atomicSts) && distinct(nonAtomicSts)
  end
  loop 1
    invariant old(addr) <= addr && addr <= old(addr) + $n * STEP() && freeFrom(addr) && keeps()
    invariant placedList(atomicSts, $n, KSTATUS(), addr)
    invariant poolStep(gp, addr, $n)
  end
  loop 2
    invariant old(addr) <= addr && addr <= old(addr) + (len(atomicSts) + $n) * STEP() && freeFrom(addr) && keeps()
    invariant placedList(atomicSts, len(atomicSts), KSTATUS(), addr)
    invariant placedList(nonAtomicSts, $n, KSTATUS(), addr)
    invariant poolStep(gp, addr, len(atomicSts) + $n)
  end
  ensures placedList(blk.Statuses, len(blk.Statuses), KSTATUS(), result)
  ensures addr <= result && result <= addr + 65536 * STEP() && freeFrom(result) && keeps()
  ensures poolStep(gp, result, 65536)


# ---- procedures and streams of a block
# every register which holds a bit of an argument belongs to the procedure alone
define argsOwned(ps, o int, k int) := forall i, a, b :: {ps[i], owner(epoch(), a, b)} 0 <= i && i < len(ps) && ps[i].Access.StartAddr <= a && a <= ps[i].Access.EndAddr && 0 <= b && b < busWidth ==> owner(epoch(), a, b) == o && okind(epoch(), a, b) == k
define follows(ps, rs) := len(ps) > 0 && len(rs) > 0 ==> rs[0].Access.StartAddr == nextAddr(ps[len(ps)-1].Access) && rs[0].Access.StartBit == nextBit(ps[len(ps)-1].Access)
define procArgs(p *fn.Proc) := packed(p.Params, len(p.Params)) && packed(p.Returns, len(p.Returns)) && (len(p.Params) > 0 ==> p.Params[0].Access.StartBit == 0) && (len(p.Params) == 0 && len(p.Returns) > 0 ==> p.Returns[0].Access.StartBit == 0) && follows(p.Params, p.Returns)
define procIn(p *fn.Proc, hi int) := within(p.Params, len(p.Params), 0, hi) && within(p.Returns, len(p.Returns), 0, hi)
define procCall(p *fn.Proc, hi int) := (len(p.Params) > 0 ==> p.CallAddr != nil && *p.CallAddr == p.Params[len(p.Params)-1].Access.EndAddr) &&
  (len(p.Params) == 0 ==> (p.CallAddr != nil) == (len(p.Returns) == 0 || p.Delay != nil)) &&
  (len(p.Params) == 0 && p.CallAddr != nil && len(p.Returns) > 0 ==> *p.CallAddr == p.Returns[0].Access.StartAddr) &&
  (len(p.Returns) > 0 ==> p.ExitAddr != nil && *p.ExitAddr == p.Returns[len(p.Returns)-1].Access.EndAddr) &&
  (len(p.Returns) == 0 ==> (p.ExitAddr != nil) == (p.Delay != nil) && (p.ExitAddr != nil ==> p.CallAddr != nil && *p.ExitAddr == *p.CallAddr)) && (p.CallAddr != nil ==> 0 <= *p.CallAddr && *p.CallAddr < hi)
define procOwnP(p *fn.Proc) := argsOwned(p.Params, ref(p), KPROC())
define procOwnR(p *fn.Proc) := argsOwned(p.Returns, ref(p), KPROC())
define procOwnC(p *fn.Proc) := forall a, b :: {owner(epoch(), a, b)} p.CallAddr != nil && a == *p.CallAddr && 0 <= b && b < busWidth ==> owner(epoch(), a, b) == ref(p) && okind(epoch(), a, b) == KPROC()
define procOwn(p *fn.Proc) := procOwnP(p) && procOwnR(p) && procOwnC(p)
define procsOwnP(xs, n int) := forall j :: {xs[j]} 0 <= j && j < n ==> procOwnP(xs[j])
define procsOwnR(xs, n int) := forall j :: {xs[j]} 0 <= j && j < n ==> procOwnR(xs[j])
define procsOwnC(xs, n int) := forall j :: {xs[j]} 0 <= j && j < n ==> procOwnC(xs[j])
define procsArgs(xs, n int) := forall j :: {xs[j]} 0 <= j && j < n ==> procArgs(xs[j])
define procsIn(xs, n int, hi int) := forall j :: {xs[j]} 0 <= j && j < n ==> procIn(xs[j], hi)
define procsCall(xs, n int, hi int) := forall j :: {xs[j]} 0 <= j && j < n ==> procCall(xs[j], hi)
define procsOwn(xs, n int) := forall j :: {xs[j]} 0 <= j && j < n ==> procOwn(xs[j])
define procsOK(xs, o int) := len(xs) <= 2048 && forall i :: {xs[i]} 0 <= i && i < len(xs) ==> xs[i] != nil && idx(ref(xs[i])) == i && owns(ref(xs[i])) == o && argsOK(xs[i].Params, ref(xs[i])) && argsOK(xs[i].Returns, ref(xs[i]))
define procsDone(xs, n int, hi int) := procsArgs(xs, n) && procsIn(xs, n, hi) && procsCall(xs, n, hi) && procsOwn(xs, n)

func internal/reg.regProcs
  property C02, C05
  requires blk != nil && regOK(addr) && regOK(addr + 2048 * PSTEP()) && freeFrom(addr)
  requires procsOK(blk.Procs, ref(blk)) && (forall i :: {blk.Procs[i]} 0 <= i && i < len(blk.Procs) ==> blk.Procs[i].CallAddr == nil && blk.Procs[i].ExitAddr == nil)
  modifies any fn.Proc.CallAddr if owns(ref(it)) == ref(blk)
  modifies any fn.Proc.ExitAddr if owns(ref(it)) == ref(blk)
  modifies any fn.Param.Access if owns(owns(ref(it))) == ref(blk)
  modifies any fn.Return.Access if owns(owns(ref(it))) == ref(blk)
  ghostset owner(e, a, b) := _
  ghostset okind(e, a, b) := _
  loop 0
    invariant old(addr) <= addr && addr <= old(addr) + $n * PSTEP() && freeFrom(addr) && keeps()
    invariant forall k :: {blk.Procs[k]} $n <= k && k < len(blk.Procs) ==> blk.Procs[k].CallAddr == nil && blk.Procs[k].ExitAddr == nil
    invariant procsArgs(blk.Procs, $n)
    invariant procsIn(blk.Procs, $n, addr)
    invariant procsCall(blk.Procs, $n, addr)
    invariant procsOwn(blk.Procs, $n)
  end
  ensures procsDone(blk.Procs, len(blk.Procs), result)
  ensures addr <= result && result <= addr + 2048 * PSTEP() && freeFrom(result) && keeps()

define streamArgs(s *fn.Stream) := packed(s.Params, len(s.Params)) && packed(s.Returns, len(s.Returns)) && (len(s.Params) > 0 ==> s.Params[0].Access.StartBit == 0) && (len(s.Returns) > 0 ==> s.Returns[0].Access.StartBit == 0)
define streamIn(s *fn.Stream, hi int) := within(s.Params, len(s.Params), 0, hi) && within(s.Returns, len(s.Returns), 0, hi) && 0 <= s.StbAddr && s.StbAddr < hi
define streamStb(s *fn.Stream) := (len(s.Params) > 0 ==> s.StbAddr == s.Params[len(s.Params)-1].Access.EndAddr) && (len(s.Returns) > 0 ==> s.StbAddr == s.Returns[len(s.Returns)-1].Access.EndAddr)
define streamOwnP(s *fn.Stream) := argsOwned(s.Params, ref(s), KSTREAM())
define streamOwnR(s *fn.Stream) := argsOwned(s.Returns, ref(s), KSTREAM())
define streamOwnS(s *fn.Stream) := forall a, b :: {owner(epoch(), a, b)} a == s.StbAddr && 0 <= b && b < busWidth ==> owner(epoch(), a, b) == ref(s) && okind(epoch(), a, b) == KSTREAM()
define streamOwn(s *fn.Stream) := streamOwnP(s) && streamOwnR(s) && streamOwnS(s)
define streamsOwnP(xs, n int) := forall j :: {xs[j]} 0 <= j && j < n ==> streamOwnP(xs[j])
define streamsOwnR(xs, n int) := forall j :: {xs[j]} 0 <= j && j < n ==> streamOwnR(xs[j])
define streamsOwnS(xs, n int) := forall j :: {xs[j]} 0 <= j && j < n ==> streamOwnS(xs[j])
define streamsArgs(xs, n int) := forall j :: {xs[j]} 0 <= j && j < n ==> streamArgs(xs[j])
define streamsIn(xs, n int, hi int) := forall j :: {xs[j]} 0 <= j && j < n ==> streamIn(xs[j], hi)
define streamsStb(xs, n int) := forall j :: {xs[j]} 0 <= j && j < n ==> streamStb(xs[j])
define streamsOwn(xs, n int) := forall j :: {xs[j]} 0 <= j && j < n ==> streamOwn(xs[j])
define streamsOK(xs, o int) := len(xs) <= 2048 && forall i :: {xs[i]} 0 <= i && i < len(xs) ==> xs[i] != nil && idx(ref(xs[i])) == i && owns(ref(xs[i])) == o && argsOK(xs[i].Params, ref(xs[i])) && argsOK(xs[i].Returns, ref(xs[i])) && (len(xs[i].Params) == 0 || len(xs[i].Returns) == 0)
define streamsDone(xs, n int, hi int) := streamsArgs(xs, n) && streamsIn(xs, n, hi) && streamsStb(xs, n) && streamsOwn(xs, n)

func internal/reg.regStreams
  property C02, C05
  requires blk != nil && regOK(addr) && regOK(addr + 2048 * PSTEP()) && freeFrom(addr)
  requires streamsOK(blk.Streams, 0 - ref(blk))
  modifies any fn.Stream.StbAddr if owns(ref(it)) == 0 - ref(blk)
  modifies any fn.Param.Access if owns(owns(ref(it))) == 0 - ref(blk)
  modifies any fn.Return.Access if owns(owns(ref(it))) == 0 - ref(blk)
  ghostset owner(e, a, b) := _
  ghostset okind(e, a, b) := _
  loop 0
    invariant old(addr) <= addr && addr <= old(addr) + $n * PSTEP() && freeFrom(addr) && keeps()
    invariant streamsArgs(blk.Streams, $n)
    invariant streamsIn(blk.Streams, $n, addr)
    invariant streamsStb(blk.Streams, $n)
    invariant streamsOwn(blk.Streams, $n)
  end
  ensures streamsDone(blk.Streams, len(blk.Streams), result)
  ensures addr <= result && result <= addr + 2048 * PSTEP() && freeFrom(result) && keeps()

# ---- whole block
# register 0 of the main block belongs to the ID
define idReserved() := forall b :: {owner(epoch(), 0, b)} 0 <= b && b < busWidth ==> owner(epoch(), 0, b) == 0 - 1
define inRegs(xs, low int, hi int) := forall j :: {xs[j]} 0 <= j && j < len(xs) ==> low <= xs[j].Access.StartAddr && xs[j].Access.EndAddr < hi && 1 <= xs[j].Access.RegCount
define offArg(r types.Access, o int) := owner(epoch(), r.StartAddr, r.StartBit) == o && 1 <= r.StartAddr
define offCall(a int, o int) := owner(epoch(), a, 0) == o && 1 <= a
define offID(xs) := forall j :: {xs[j]} 0 <= j && j < len(xs) ==> owner(epoch(), xs[j].Access.StartAddr, xs[j].Access.StartBit) == ref(xs[j]) && 1 <= xs[j].Access.StartAddr
define blockOK(blk *fn.Block) := procsOK(blk.Procs, ref(blk)) && (forall i :: {blk.Procs[i]} 0 <= i && i < len(blk.Procs) ==> blk.Procs[i].CallAddr == nil && blk.Procs[i].ExitAddr == nil) &&
  streamsOK(blk.Streams, 0 - ref(blk)) &&
  listOK(blk.Configs, ref(blk)) && (forall i :: {blk.Configs[i]} 0 <= i && i < len(blk.Configs) ==> blk.Configs[i].IsArray ==> blk.Configs[i].Width <= busWidth && blk.Configs[i].Atomic) &&
  listOK(blk.Masks, ref(blk)) && (forall i :: {blk.Masks[i]} 0 <= i && i < len(blk.Masks) ==> !blk.Masks[i].IsArray) &&
  listOK(blk.Statics, ref(blk)) && (forall i :: {blk.Statics[i]} 0 <= i && i < len(blk.Statics) ==> blk.Statics[i].IsArray ==> blk.Statics[i].Width <= busWidth) &&
  listOK(blk.Statuses, ref(blk)) &&
  len(blk.Irqs) <= 65536 && (forall i :: {blk.Irqs[i]} 0 <= i && i < len(blk.Irqs) ==> blk.Irqs[i] != nil && idx(ref(blk.Irqs[i])) == i && owns(ref(blk.Irqs[i])) == ref(blk) && !blk.Irqs[i].IsArray && blk.Irqs[i].ClearAddr == nil)

func internal/reg.regFunctionalities
  property C02, C03, C05
  given busWidth == types.busWidth && busOK()
  given blockOK(blk)
  # the map of owners starts empty for every block, except that register 0 of the
  # main block (addr is 1) may have an owner already: the ID
  given freeFrom(addr)
  requires blk != nil && 0 <= addr && addr <= 1
  modifies any fn.Proc.CallAddr if owns(ref(it)) == ref(blk)
  modifies any fn.Proc.ExitAddr if owns(ref(it)) == ref(blk)
  modifies any fn.Param.Access if owns(owns(ref(it))) == ref(blk) || owns(owns(ref(it))) == 0 - ref(blk)
  modifies any fn.Return.Access if owns(owns(ref(it))) == ref(blk) || owns(owns(ref(it))) == 0 - ref(blk)
  modifies any fn.Stream.StbAddr if owns(ref(it)) == 0 - ref(blk)
  modifies any fn.Config.Access if owns(ref(it)) == ref(blk)
  modifies any fn.Mask.Access if owns(ref(it)) == ref(blk)
  modifies any fn.Static.Access if owns(ref(it)) == ref(blk)
  modifies any fn.Status.Access if owns(ref(it)) == ref(blk)
  modifies any fn.Irq.Access if owns(ref(it)) == ref(blk)
  modifies any fn.Irq.EnableAccess if owns(ref(it)) == ref(blk)
  modifies any fn.Irq.ClearAddr if owns(ref(it)) == ref(blk)
  ghostset owner(e, a, b) := _
  ghostset okind(e, a, b) := _
  ensures procsArgs(blk.Procs, len(blk.Procs))
  ensures procsIn(blk.Procs, len(blk.Procs), result)
  ensures procsCall(blk.Procs, len(blk.Procs), result)
  ensures procsOwnP(blk.Procs, len(blk.Procs))
  ensures procsOwnR(blk.Procs, len(blk.Procs))
  ensures procsOwnC(blk.Procs, len(blk.Procs))
  ensures streamsArgs(blk.Streams, len(blk.Streams))
  ensures streamsIn(blk.Streams, len(blk.Streams), result)
  ensures streamsStb(blk.Streams, len(blk.Streams))
  ensures streamsOwnP(blk.Streams, len(blk.Streams))
  ensures streamsOwnR(blk.Streams, len(blk.Streams))
  ensures streamsOwnS(blk.Streams, len(blk.Streams))
  ensures placedList(blk.Configs, len(blk.Configs), KCONFIG(), result)
  ensures placedList(blk.Masks, len(blk.Masks), KMASK(), result)
  ensures placedList(blk.Statics, len(blk.Statics), KSTATIC(), result)
  ensures placedList(blk.Statuses, len(blk.Statuses), KSTATUS(), result)
  ensures irqsPlaced(blk.Irqs, len(blk.Irqs), result)
  ensures irqsOwn(blk.Irqs, len(blk.Irqs))
  ensures irqsClear(blk.Irqs, len(blk.Irqs))
  ensures addr <= result && result <= 576460752303423488 && freeFrom(result)
  ensures keeps()
  ensures old(idReserved()) ==> forall j, k :: {blk.Procs[j].Params[k]} 0 <= j && j < len(blk.Procs) && 0 <= k && k < len(blk.Procs[j].Params) ==> offArg(blk.Procs[j].Params[k].Access, ref(blk.Procs[j]))
  ensures old(idReserved()) ==> forall j, k :: {blk.Procs[j].Returns[k]} 0 <= j && j < len(blk.Procs) && 0 <= k && k < len(blk.Procs[j].Returns) ==> offArg(blk.Procs[j].Returns[k].Access, ref(blk.Procs[j]))
  ensures old(idReserved()) ==> forall j :: {blk.Procs[j]} 0 <= j && j < len(blk.Procs) && blk.Procs[j].CallAddr != nil ==> offCall(*blk.Procs[j].CallAddr, ref(blk.Procs[j]))
  ensures old(idReserved()) ==> forall j, k :: {blk.Streams[j].Params[k]} 0 <= j && j < len(blk.Streams) && 0 <= k && k < len(blk.Streams[j].Params) ==> offArg(blk.Streams[j].Params[k].Access, ref(blk.Streams[j]))
  ensures old(idReserved()) ==> forall j, k :: {blk.Streams[j].Returns[k]} 0 <= j && j < len(blk.Streams) && 0 <= k && k < len(blk.Streams[j].Returns) ==> offArg(blk.Streams[j].Returns[k].Access, ref(blk.Streams[j]))
  ensures old(idReserved()) ==> forall j :: {blk.Streams[j]} 0 <= j && j < len(blk.Streams) ==> offCall(blk.Streams[j].StbAddr, ref(blk.Streams[j]))
  ensures old(idReserved()) ==> offID(blk.Configs)
  ensures old(idReserved()) ==> offID(blk.Masks)
  ensures old(idReserved()) ==> offID(blk.Statics)
  ensures old(idReserved()) ==> offID(blk.Statuses)
  ensures old(idReserved()) ==> offID(blk.Irqs)
