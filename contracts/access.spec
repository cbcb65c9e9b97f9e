# Access descriptors: pkg/fbdl/types/access.go
package pkg/fbdl/types

# largest item count, item width, address and bus width considered
define BIG() := 1048576

# what every descriptor guarantees whatever its kind
define accessBase(r types.Access, addr int, n int, w int) :=
    r.RegWidth == busWidth && r.ItemCount == n && r.ItemWidth == w &&
    r.StartAddr == addr && r.RegCount >= 1 && r.EndAddr == addr + r.RegCount - 1 &&
    0 <= r.StartBit && r.StartBit < busWidth && 0 <= r.EndBit && r.EndBit < busWidth &&
    (r.RegCount == 1 ==> r.StartBit <= r.EndBit) &&
    1 <= r.StartRegWidth && r.StartRegWidth <= busWidth - r.StartBit &&
    1 <= r.EndRegWidth && r.EndRegWidth <= r.EndBit + 1

define busOK() := 1 <= busWidth && busWidth <= BIG()
define argOK(addr int, startBit int, w int) := busOK() && 0 <= addr && addr <= BIG()*BIG()*BIG() && 0 <= startBit && startBit < busWidth && 1 <= w && w <= BIG()
define cntOK(n int) := 1 <= n && n <= BIG()

# number of bits from the first to the last bit of a continuous placement
define spanBits(r types.Access) := (r.RegCount - 1) * busWidth + r.EndBit + 1 - r.StartBit

func pkg/fbdl/types.MakeSingleOneRegAccess
  property C01
  requires argOK(addr, startBit, width)
  panics when startBit + width > busWidth
  ensures accessBase(result, addr, 1, width)
  ensures result.Type == "SingleOneReg" && result.RegCount == 1 && result.StartBit == startBit
  ensures spanBits(result) == width
  ensures result.StartRegWidth == width && result.EndRegWidth == width

func pkg/fbdl/types.MakeSingleNRegsAccess
  property C01
  requires argOK(addr, startBit, width)
  requires startBit + width > busWidth
  loop 0
    invariant w == busWidth - startBit + (regCount - 1) * busWidth
    invariant regCount >= 1 && w < width
    invariant regCount == $n + 1
    decreases width - w
  end
  ensures accessBase(result, addr, 1, width)
  ensures result.Type == "SingleNRegs" && result.RegCount >= 2 && result.StartBit == startBit
  ensures spanBits(result) == width
  ensures result.StartRegWidth == busWidth - startBit && result.EndRegWidth == result.EndBit + 1
  ensures result.StartRegWidth + (result.RegCount - 2) * busWidth + result.EndRegWidth == width

func pkg/fbdl/types.MakeSingleAccess
  property C01
  requires argOK(addr, startBit, width)
  ensures accessBase(result, addr, 1, width)
  ensures result.StartBit == startBit && spanBits(result) == width
  ensures startBit + width <= busWidth ==> result.RegCount == 1 && result.Type == "SingleOneReg"
  ensures startBit + width > busWidth ==> result.RegCount >= 2 && result.Type == "SingleNRegs"

func pkg/fbdl/types.MakeArrayOneRegAccess
  property C01
  requires argOK(addr, startBit, width) && cntOK(itemCount)
  panics when startBit + width * itemCount > busWidth
  ensures accessBase(result, addr, itemCount, width)
  ensures result.Type == "ArrayOneReg" && result.RegCount == 1 && result.StartBit == startBit
  ensures spanBits(result) == itemCount * width
  ensures result.StartRegWidth == itemCount * width && result.EndRegWidth == itemCount * width

func pkg/fbdl/types.MakeArrayOneInRegAccess
  property C01
  requires argOK(addr, startBit, width) && cntOK(itemCount)
  panics when startBit + width > busWidth
  ensures accessBase(result, addr, itemCount, width)
  ensures result.Type == "ArrayOneInReg" && result.StartBit == startBit
  ensures result.RegCount == itemCount
  ensures result.EndBit - result.StartBit + 1 == width
  ensures result.StartRegWidth == width && result.EndRegWidth == width

func pkg/fbdl/types.MakeArrayNRegsAccess
  property C01
  float exact
  requires argOK(startAddr, startBit, width) && cntOK(itemCount)
  ensures accessBase(result, startAddr, itemCount, width)
  ensures result.Type == "ArrayNRegs" && result.StartBit == startBit
  ensures spanBits(result) == itemCount * width
  ensures result.RegCount >= 2 ==> result.StartRegWidth == busWidth - startBit && result.EndRegWidth == result.EndBit + 1
  ensures result.RegCount == 1 ==> result.StartRegWidth == itemCount * width && result.EndRegWidth == itemCount * width

func pkg/fbdl/types.MakeArrayNInRegAccess
  property C01
  requires argOK(startAddr, 0, width) && cntOK(itemCount)
  requires width <= busWidth
  panics when itemCount % (busWidth / width) != 0
  ensures accessBase(result, startAddr, itemCount, width)
  ensures result.Type == "ArrayNInReg" && result.StartBit == 0
  ensures result.RegCount * (busWidth / width) == itemCount
  ensures result.EndBit + 1 == (busWidth / width) * width
  ensures result.StartRegWidth == result.EndBit + 1 && result.EndRegWidth == result.EndBit + 1

func pkg/fbdl/types.MakeArrayNInRegMInEndRegAccess
  property C01
  float exact
  requires argOK(startAddr, 0, width) && cntOK(itemCount)
  requires width <= busWidth
  panics when itemCount % (busWidth / width) == 0
  useret ceilRem(itemCount, busWidth / width)
  ensures accessBase(result, startAddr, itemCount, width)
  ensures result.Type == "ArrayNInRegMInEndReg" && result.StartBit == 0
  ensures (result.RegCount - 1) * (busWidth / width) + itemCount % (busWidth / width) == itemCount
  ensures result.RegCount >= 2 ==> result.StartRegWidth == (busWidth / width) * width
  ensures result.RegCount == 1 ==> result.StartRegWidth == result.EndRegWidth
  ensures result.EndRegWidth == (itemCount % (busWidth / width)) * width && result.EndBit + 1 == result.EndRegWidth

func pkg/fbdl/types.MakeArrayOneInNRegsAccess
  property C01
  requires argOK(startAddr, 0, width) && cntOK(itemCount)
  panics when width <= busWidth
  ensures accessBase(result, startAddr, itemCount, width)
  ensures result.Type == "ArrayOneInNRegs" && result.StartBit == 0
  ensures exists k :: result.RegCount == itemCount * k && (k - 1) * busWidth + result.EndBit + 1 == width
  ensures result.StartRegWidth == busWidth && result.EndRegWidth == result.EndBit + 1

func pkg/fbdl/types.Access.AddrRange
  property C01
  ensures result.Start == acs.StartAddr && result.End == acs.EndAddr

lemma ceilRem(n int, d int)
  property C01
  requires d >= 1 && n % d != 0
  use divUnique(0 - n, d, 0 - n / d - 1, d - n % d)
  ensures (cdiv(n, d) - 1) * d + n % d == n

lemma mulStep(d int, a int, b int)
  requires d >= 1 && a >= b + 1
  ensures d * a >= d * b + d

lemma divUnique(n int, d int, q int, r int)
  requires d >= 1 && n == d * q + r && 0 <= r && r < d
  use mulStep(d, q, n / d)
  use mulStep(d, n / d, q)
  ensures n / d == q && n % d == r
