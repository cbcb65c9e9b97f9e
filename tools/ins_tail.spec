
# ---- widths
# bits which a range needs: dispatch over the two implementations, each verified under its own contract
define arrBits(w int, ar types.ArrayRange) := w >= 1 && w <= 63 && (forall k :: {ar[k]} 0 <= k && k < len(ar) ==> ar[k].End < pow2(w)) && (w >= 2 ==> exists k :: 0 <= k && k < len(ar) && pow2(w - 1) <= ar[k].End)
define rangeBits(w int, r any) := (typeis(r, types.SingleRange) ==> leastBits(w, as(r, types.SingleRange).End)) && (typeis(r, types.ArrayRange) && len(as(r, types.ArrayRange)) > 0 ==> arrBits(w, as(r, types.ArrayRange)))
invoke pkg/fbdl/types.Range.BitWidth
  property C06, C07
  ensures rangeBits(result, recv)
# width which is given, follows from the range, or is the width of the bus
define widthOf(w int, given int, widthSet bool, rangeSet bool, r any) := (widthSet ==> w == given) && (!widthSet && rangeSet ==> rangeBits(w, r)) && (!widthSet && !rangeSet ==> w == busWidth)

func internal/ins.fillConfigProps
  property C06, C07
  requires cfg != nil && (diary.rangeSet ==> cfg.Range != nil)
  modifies cfg.Atomic, cfg.Width
  ensures widthOf(cfg.Width, old(cfg.Width), diary.widthSet, diary.rangeSet, cfg.Range)
  ensures cfg.Atomic == (!diary.atomicSet || old(cfg.Atomic))
func internal/ins.fillParamProps
  property C06, C07
  requires param != nil && (diary.rangeSet ==> param.Range != nil)
  modifies param.Width
  ensures widthOf(param.Width, old(param.Width), diary.widthSet, diary.rangeSet, param.Range)
func internal/ins.fillMaskProps
  property C06, C07
  requires mask != nil
  modifies mask.Width, mask.Atomic
  ensures mask.Width == ite(diary.widthSet, old(mask.Width), busWidth)
  ensures mask.Atomic == (!diary.atomicSet || old(mask.Atomic))
func internal/ins.fillStaticProps
  property C06, C07
  requires st != nil
  modifies st.Width
  ensures st.Width == ite(diary.widthSet, old(st.Width), busWidth)
func internal/ins.fillStatusProps
  property C06, C07
  requires st != nil
  modifies st.Width, st.Atomic
  ensures st.Width == ite(diary.widthSet, old(st.Width), busWidth)
  ensures st.Atomic == (!diary.atomicSet || old(st.Atomic))
func internal/ins.fillReturnProps
  property C06, C07
  requires ret != nil
  modifies ret.Width
  ensures ret.Width == ite(diary.widthSet, old(ret.Width), busWidth)
func internal/ins.fillIrqProps
  property C07
  requires irq != nil
  modifies irq.Clear, irq.InTrigger, irq.OutTrigger
  ensures irq.Clear == ite(diary.clearSet, old(irq.Clear), "Explicit") && irq.InTrigger == ite(diary.inTriggerSet, old(irq.InTrigger), "Level") && irq.OutTrigger == ite(diary.outTriggerSet, old(irq.OutTrigger), "Level")
func internal/ins.fillBlockProps
  property C06, C07
  requires blk != nil
  modifies blk.Masters, blk.Width
  ensures blk.Masters == ite(old(blk.Masters) == 0, 1, old(blk.Masters)) && blk.Width == ite(old(blk.Width) == 0, 32, old(blk.Width))

# ---- values
# the bit string s is the value v in w bits: the number, or the bit string which is not wider
define isValue(s string, v any, w int) := (typeis(v, val.Int) ==> denotes(s, as(v, val.Int), w)) && (typeis(v, val.BitStr) ==> s == as(v, val.BitStr) && nbits(s) <= w)
define fitsValue(v any, w int) := (typeis(v, val.Int) && fitsW(as(v, val.Int), w)) || (typeis(v, val.BitStr) && nbits(as(v, val.BitStr)) <= w)
define valueOK(v any, w int) := isVal(v) && (typeis(v, val.BitStr) ==> frame(as(v, val.BitStr)) && len(as(v, val.BitStr)) <= 1152921504606846976) && 1 <= w && w <= 1152921504606846976
func internal/ins.processValue
  property C08
  requires valueOK(v, width)
  ensures (result1 == nil) == fitsValue(v, width)
  ensures result1 == nil ==> isValue(result0, v, width)
func internal/ins.fillConfigValues
  property C08
  requires cfg != nil
  requires diary.initValSet ==> valueOK(diary.initVal, cfg.Width)
  requires diary.resetValSet ==> valueOK(diary.resetVal, cfg.Width)
  requires diary.readValSet ==> valueOK(diary.readVal, cfg.Width)
  modifies cfg.InitValue, cfg.ResetValue, cfg.ReadValue
  ensures result == nil && diary.initValSet ==> isValue(cfg.InitValue, diary.initVal, cfg.Width)
  ensures result == nil && !diary.initValSet ==> cfg.InitValue == old(cfg.InitValue)
  ensures result == nil && diary.resetValSet ==> isValue(cfg.ResetValue, diary.resetVal, cfg.Width)
  ensures result == nil && !diary.resetValSet ==> cfg.ResetValue == old(cfg.ResetValue)
  ensures result == nil && diary.readValSet ==> isValue(cfg.ReadValue, diary.readVal, cfg.Width)
  ensures result == nil && !diary.readValSet ==> cfg.ReadValue == old(cfg.ReadValue)
  ensures (diary.initValSet ==> fitsValue(diary.initVal, cfg.Width)) && (diary.resetValSet ==> fitsValue(diary.resetVal, cfg.Width)) && (diary.readValSet ==> fitsValue(diary.readVal, cfg.Width)) ==> result == nil
func internal/ins.fillMaskValues
  property C08
  requires mask != nil
  requires diary.initValSet ==> valueOK(diary.initVal, mask.Width)
  requires diary.resetValSet ==> valueOK(diary.resetVal, mask.Width)
  requires diary.readValSet ==> valueOK(diary.readVal, mask.Width)
  modifies mask.InitValue, mask.ResetValue, mask.ReadValue
  ensures result == nil && diary.initValSet ==> isValue(mask.InitValue, diary.initVal, mask.Width)
  ensures result == nil && !diary.initValSet ==> mask.InitValue == old(mask.InitValue)
  ensures result == nil && diary.resetValSet ==> isValue(mask.ResetValue, diary.resetVal, mask.Width)
  ensures result == nil && !diary.resetValSet ==> mask.ResetValue == old(mask.ResetValue)
  ensures result == nil && diary.readValSet ==> isValue(mask.ReadValue, diary.readVal, mask.Width)
  ensures result == nil && !diary.readValSet ==> mask.ReadValue == old(mask.ReadValue)
  ensures (diary.initValSet ==> fitsValue(diary.initVal, mask.Width)) && (diary.resetValSet ==> fitsValue(diary.resetVal, mask.Width)) && (diary.readValSet ==> fitsValue(diary.readVal, mask.Width)) ==> result == nil
func internal/ins.fillStaticValues
  property C08
  requires st != nil
  requires diary.initValSet ==> valueOK(diary.initVal, st.Width)
  requires diary.resetValSet ==> valueOK(diary.resetVal, st.Width)
  requires diary.readValSet ==> valueOK(diary.readVal, st.Width)
  modifies st.InitValue, st.ResetValue, st.ReadValue
  ensures result == nil && diary.initValSet ==> isValue(st.InitValue, diary.initVal, st.Width)
  ensures result == nil && !diary.initValSet ==> st.InitValue == old(st.InitValue)
  ensures result == nil ==> diary.initValSet
  ensures result == nil && diary.resetValSet ==> isValue(st.ResetValue, diary.resetVal, st.Width)
  ensures result == nil && !diary.resetValSet ==> st.ResetValue == old(st.ResetValue)
  ensures result == nil && diary.readValSet ==> isValue(st.ReadValue, diary.readVal, st.Width)
  ensures result == nil && !diary.readValSet ==> st.ReadValue == old(st.ReadValue)
  ensures (diary.initValSet ==> fitsValue(diary.initVal, st.Width)) && (diary.resetValSet ==> fitsValue(diary.resetVal, st.Width)) && (diary.readValSet ==> fitsValue(diary.readVal, st.Width)) && diary.initValSet ==> result == nil
func internal/ins.fillIrqValues
  property C08
  requires irq != nil
  requires diary.enableInitValSet ==> valueOK(diary.enableInitVal, 1)
  requires diary.enableResetValSet ==> valueOK(diary.enableResetVal, 1)
  modifies irq.EnableInitValue, irq.EnableResetValue
  ensures result == nil && diary.enableInitValSet ==> irq.AddEnable && isValue(irq.EnableInitValue, diary.enableInitVal, 1)
  ensures result == nil && !diary.enableInitValSet ==> irq.EnableInitValue == old(irq.EnableInitValue)
  ensures result == nil && diary.enableResetValSet ==> irq.AddEnable && isValue(irq.EnableResetValue, diary.enableResetVal, 1)
  ensures result == nil && !diary.enableResetValSet ==> irq.EnableResetValue == old(irq.EnableResetValue)
  ensures (diary.enableInitValSet ==> irq.AddEnable && fitsValue(diary.enableInitVal, 1)) && (diary.enableResetValSet ==> irq.AddEnable && fitsValue(diary.enableResetVal, 1)) ==> result == nil
