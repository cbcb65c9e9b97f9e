# Bit strings and ranges: internal/val/bit_str.go, pkg/fbdl/types/bit_str.go, pkg/fbdl/types/range.go
package pkg/fbdl/types

# value of a digit, -1 for a meta value
define hexv(c int) := ite('0' <= c && c <= '9', c - '0', ite('a' <= c && c <= 'f', c - 'a' + 10, ite('A' <= c && c <= 'F', c - 'A' + 10, 0 - 1)))
define isMeta(c int) := c == 'h' || c == 'H' || c == 'l' || c == 'L' || c == 'u' || c == 'U' || c == 'x' || c == 'X' || c == 'w' || c == 'W' || c == 'z' || c == 'Z' || c == '-'
define isDigit(c int, n int) := isMeta(c) || (hexv(c) >= 0 && hexv(c) < n)
# longest bit string considered
define SLIM() := 1152921504606846976
# bits of one digit of a format, number of values of a digit
define dwid(f int) := ite(f == 'b', 1, ite(f == 'o', 3, 4))
define dnum(f int) := ite(f == 'b', 2, ite(f == 'o', 8, 16))
define isFmt(f int) := f == 'b' || f == 'o' || f == 'x'
# a well formed bit string
define frame(s string) := len(s) >= 3 && isFmt(s[0]) && s[1] == '"' && s[len(s)-1] == '"'
define goodBits(s string) := frame(s) && forall k :: {s[k]} 2 <= k && k < len(s) - 1 ==> isDigit(s[k], dnum(s[0]))
define nbits(s string) := (len(s) - 3) * dwid(s[0])
# bit j from the left of a digit of n bits; a meta value stands for all of its bits
define p2small(e int) := ite(e == 0, 1, ite(e == 1, 2, ite(e == 2, 4, 8)))
define dbit(c int, n int, j int) := ite(hexv(c) >= 0, '0' + (hexv(c) / p2small(n - 1 - j)) % 2, c)
# bit k - 2 from the left of a bit string, k counts from 2 like the characters of a binary bit string
define bitk(s string, k int) := ite(s[0] == 'b', s[k], ite(s[0] == 'o', dbit(s[2 + (k-2) / 3], 3, (k-2) % 3), dbit(s[2 + (k-2) / 4], 4, (k-2) % 4)))

func internal/val.BitStr.BitWidth
  property C08, C09
  requires frame(bs) && len(bs) <= SLIM()
  ensures result == nbits(bs)
func internal/val.BitStr.CharWidth
  property C08, C09
  ensures result == len(bs) - 3
func pkg/fbdl/types.MakeBitStr
  property C08, C09
  ensures result == bs
func pkg/fbdl/types.BitStr.BitWidth
  property C08, C09
  requires frame(bs) && len(bs) <= SLIM()
  ensures result == nbits(bs)
func pkg/fbdl/types.BitStr.CharWidth
  property C09
  ensures result == len(bs) - 3
func pkg/fbdl/types.BitStr.IsBin
  property C09
  requires len(bs) >= 1
  ensures result == (bs[0] == 'b')
func pkg/fbdl/types.BitStr.IsOctal
  property C09
  requires len(bs) >= 1
  ensures result == (bs[0] == 'o')
func pkg/fbdl/types.BitStr.IsHex
  property C09
  requires len(bs) >= 1
  ensures result == (bs[0] == 'x')

func pkg/fbdl/types.BitStr.ToBin
  property C09
  requires goodBits(bs) && len(bs) <= SLIM()
  loop 0
    invariant len(s) == nbits(bs) + 3 && fresh(s) && s[0] == 'b' && s[1] == '"' && off(s) == 0
    invariant chunkWidth == 4 ==> forall k :: {s[k]} 2 <= k && k < 2 + 4 * $n ==> s[k] == dbit(bs[2 + (k-2) / 4], 4, (k-2) % 4)
    invariant forall k :: {s[k]} 2 <= k && k < 2 + chunkWidth * $n ==> isDigit(s[k], 2)
    invariant chunkWidth == 3 ==> forall k :: {s[k]} 2 <= k && k < 2 + 3 * $n ==> s[k] == dbit(bs[2 + (k-2) / 3], 3, (k-2) % 3)
  loop 1
    invariant len(s) == nbits(bs) + 3 && fresh(s) && s[0] == 'b' && s[1] == '"' && off(s) == 0
    invariant chunkWidth == 4 ==> forall k :: {s[k]} 2 <= k && k < 2 + 4 * i + $n ==> s[k] == dbit(bs[2 + (k-2) / 4], 4, (k-2) % 4)
    invariant forall k :: {s[k]} 2 <= k && k < 2 + chunkWidth * i + $n ==> isDigit(s[k], 2)
    invariant chunkWidth == 3 ==> forall k :: {s[k]} 2 <= k && k < 2 + 3 * i + $n ==> s[k] == dbit(bs[2 + (k-2) / 3], 3, (k-2) % 3)
  ensures frame(result) && result[0] == 'b' && nbits(result) == nbits(bs)
  ensures forall k :: {result[k]} 2 <= k && k < nbits(bs) + 2 ==> result[k] == bitk(bs, k)
  ensures goodBits(result)

# r is bs with zero bits put in front: digit by digit if r has the format of bs, otherwise bit by bit
define extended(r string, bs string, w int) := goodBits(r) && nbits(r) == w &&
  (r[0] == 'b' ==> forall k :: {r[k]} 2 <= k && k < 2 + w ==> r[k] == ite(k < 2 + w - nbits(bs), '0', bitk(bs, k - (w - nbits(bs))))) &&
  (r[0] != 'b' ==> r[0] == bs[0] && (forall k :: {r[k]} 2 <= k && k < len(r) - 1 ==> r[k] == ite(k < 2 + len(r) - len(bs), '0', bs[k - (len(r) - len(bs))])))
func pkg/fbdl/types.extendBin
  property C09
  requires goodBits(bs) && bs[0] == 'b' && nbits(bs) <= width && width <= SLIM()
  loop 0
    invariant len(s) == width + 3 && fresh(s) && off(s) == 0 && s[0] == 'b' && s[1] == '"'
    invariant forall k :: {s[k]} 2 <= k && k < 2 + $n ==> s[k] == '0'
  loop 1
    invariant len(s) == width + 3 && fresh(s) && off(s) == 0 && s[0] == 'b' && s[1] == '"'
    invariant forall k :: {s[k]} 2 <= k && k < 2 + widthDiff ==> s[k] == '0'
    invariant forall k :: {s[k]} 2 + widthDiff <= k && k < 2 + widthDiff + $n ==> s[k] == bs[k - widthDiff]
  ensures extended(result, bs, width) && result[0] == 'b'
func pkg/fbdl/types.extendHex
  property C09
  requires goodBits(bs) && bs[0] == 'x' && nbits(bs) <= width && width <= SLIM()
  loop 0
    invariant len(s) == width / 4 + 3 && fresh(s) && off(s) == 0 && s[0] == 'x' && s[1] == '"'
    invariant forall k :: {s[k]} 2 <= k && k < 2 + $n ==> s[k] == '0'
  loop 1
    invariant len(s) == width / 4 + 3 && fresh(s) && off(s) == 0 && s[0] == 'x' && s[1] == '"'
    invariant forall k :: {s[k]} 2 <= k && k < 2 + bitWidthDiff / 4 ==> s[k] == '0'
    invariant forall k :: {s[k]} 2 + bitWidthDiff / 4 <= k && k < 2 + bitWidthDiff / 4 + $n ==> s[k] == bs[k - bitWidthDiff / 4]
  ensures extended(result, bs, width)
func pkg/fbdl/types.extendOctal
  property C09
  requires goodBits(bs) && bs[0] == 'o' && nbits(bs) <= width && width <= SLIM()
  loop 0
    invariant len(s) == width / 3 + 3 && fresh(s) && off(s) == 0 && s[0] == 'o' && s[1] == '"'
    invariant forall k :: {s[k]} 2 <= k && k < 2 + $n ==> s[k] == '0'
  loop 1
    invariant len(s) == width / 3 + 3 && fresh(s) && off(s) == 0 && s[0] == 'o' && s[1] == '"'
    invariant forall k :: {s[k]} 2 <= k && k < 2 + bitWidthDiff / 3 ==> s[k] == '0'
    invariant forall k :: {s[k]} 2 + bitWidthDiff / 3 <= k && k < 2 + bitWidthDiff / 3 + $n ==> s[k] == bs[k - bitWidthDiff / 3]
  ensures extended(result, bs, width)
func pkg/fbdl/types.BitStr.Extend
  property C09
  requires goodBits(bs) && width <= SLIM() && len(bs) <= SLIM()
  panics when width < nbits(bs)
  ensures extended(result, bs, width)

# number denoted by a string of digits in a base
function numOf(string, int) int
func strconv.ParseUint
  trusted
  ensures bitSize == 64 && result1 == nil ==> result0 == numOf(s, base)
func pkg/fbdl/types.BitStr.Uint64
  property C09
  requires frame(bs)
  maypanic
  ensures result == numOf(bs[2:len(bs)-1], dnum(bs[0]))


func pkg/fbdl/types.BitStr.ValueLiteral
  property C09
  requires len(bs) >= 3
  ensures result == bs[2:len(bs)-1]

# r is the literal s with its format letter in lower case
define sameLit(r string, s string) := len(r) == len(s) && forall k :: {r[k]} 1 <= k && k < len(s) ==> r[k] == s[k]
define litOK(s string, n int) := forall k :: {s[k]} 2 <= k && k < len(s) - 1 ==> isDigit(s[k], n)
func internal/val.makeBinBitStr
  property C08, C09
  requires len(s) >= 3 && (s[0] == 'b' || s[0] == 'B') && s[1] == '"' && s[len(s)-1] == '"'
  loop 0
    invariant 2 <= i && i <= len(s) - 1
    invariant forall k :: {s[k]} 2 <= k && k < i ==> isDigit(s[k], 2)
    decreases len(s) - i
  ensures (result1 == nil) == litOK(s, 2)
  ensures result1 == nil ==> goodBits(result0) && result0[0] == 'b' && sameLit(result0, s)
func internal/val.makeOctalBitStr
  property C08, C09
  requires len(s) >= 3 && (s[0] == 'o' || s[0] == 'O') && s[1] == '"' && s[len(s)-1] == '"'
  loop 0
    invariant 2 <= i && i <= len(s) - 1
    invariant forall k :: {s[k]} 2 <= k && k < i ==> isDigit(s[k], 8)
    decreases len(s) - i
  ensures (result1 == nil) == litOK(s, 8)
  ensures result1 == nil ==> goodBits(result0) && result0[0] == 'o' && sameLit(result0, s)
func internal/val.makeHexBitStr
  property C08, C09
  requires len(s) >= 3 && (s[0] == 'x' || s[0] == 'X') && s[1] == '"' && s[len(s)-1] == '"'
  loop 0
    invariant 2 <= i && i <= len(s) - 1
    invariant forall k :: {s[k]} 2 <= k && k < i ==> isDigit(s[k], 16)
    decreases len(s) - i
  ensures (result1 == nil) == litOK(s, 16)
  ensures result1 == nil ==> goodBits(result0) && result0[0] == 'x' && sameLit(result0, s)
define lower(c int) := ite(c == 'B', 'b', ite(c == 'O', 'o', ite(c == 'X', 'x', c)))
func internal/val.MakeBitStr
  property C08, C09
  requires len(s) >= 3
  ensures (result1 == nil) == (isFmt(lower(s[0])) && s[1] == '"' && s[len(s)-1] == '"' && litOK(s, dnum(lower(s[0]))))
  ensures result1 == nil ==> goodBits(result0) && result0[0] == lower(s[0]) && sameLit(result0, s)

# values of a width: unsigned, or two's complement if negative
define fitsW(v int, w int) := (w >= 63 || v <= pow2(w) - 1) && (w >= 64 || 0 - pow2(w - 1) <= v)
define hexdig(d int) := ite(d < 10, '0' + d, 'a' + d - 10)
# floor of v / 2^n
define shr(v int, n int) := ite(n <= 62, v / pow2(n), ite(v < 0, 0 - 1, 0))
define intFmt(w int) := ite(w % 4 == 0, 'x', ite(w % 3 == 0, 'o', 'b'))
# the bit string s denotes v in w bits, digit by digit
define denotes(s string, v int, w int) := frame(s) && s[0] == intFmt(w) && nbits(s) == w &&
  forall k :: {s[k]} 2 <= k && k < len(s) - 1 ==> s[k] == hexdig(shr(v, w - dwid(s[0]) * (k - 1)) % dnum(s[0]))
func internal/val.BitStrFromInt
  property C08
  requires 1 <= width && width <= SLIM()
  loop 0
    invariant len(s) >= 2 && len(s) <= width + 2 && fresh(s) && s[0] == format && s[1] == '"'
    invariant pos == width - digitWidth * (len(s) - 1) && pos >= 0 - digitWidth
    invariant digitWidth == 1 ==> format == 'b' && forall k :: {s[k]} 2 <= k && k < len(s) ==> s[k] == hexdig(shr(v, width - 1 * (k - 1)) % 2)
    invariant digitWidth == 3 ==> format == 'o' && forall k :: {s[k]} 2 <= k && k < len(s) ==> s[k] == hexdig(shr(v, width - 3 * (k - 1)) % 8)
    invariant digitWidth == 4 ==> format == 'x' && forall k :: {s[k]} 2 <= k && k < len(s) ==> s[k] == hexdig(shr(v, width - 4 * (k - 1)) % 16)
    decreases pos + digitWidth
  ensures (result1 == nil) == fitsW(v, width)
  ensures result1 == nil ==> denotes(result0, v, width)

# w is the least number of bits, at least one, which holds the value e
define leastBits(w int, e int) := w >= 1 && e < pow2(w) && (w == 1 || pow2(w - 1) <= e)
func pkg/fbdl/types.SingleRange.BitWidth
  property C06
  ensures leastBits(result, sr.End) && result <= 63
func pkg/fbdl/types.ArrayRange.BitWidth
  property C06
  loop 0
    invariant 0 <= max && max <= 63
    invariant forall k :: {ar[k]} 0 <= k && k < $n ==> ar[k].End < pow2(max)
    invariant max == 0 ==> $n == 0
    invariant max >= 2 ==> exists k :: 0 <= k && k < $n && pow2(max - 1) <= ar[k].End
  ensures len(ar) > 0 ==> 1 <= result && result <= 63 && (forall k :: {ar[k]} 0 <= k && k < len(ar) ==> ar[k].End < pow2(result))
  ensures len(ar) > 0 && result >= 2 ==> exists k :: 0 <= k && k < len(ar) && pow2(result - 1) <= ar[k].End
