package types

// Replay driver for bit strings: the operations of the current tree against
// a reference which works on lists of bits.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
)

const meta = "hHlLuUxXwWzZ-"

// denote returns the bits, digit by digit.
func denote(s string) string {
	n := map[byte]int{'b': 1, 'o': 3, 'x': 4}[s[0]]
	var b strings.Builder
	for _, c := range []byte(s[2 : len(s)-1]) {
		d := strings.IndexByte("0123456789abcdef", strings.ToLower(string(c))[0])
		if d >= 0 && d < 1<<uint(n) {
			fmt.Fprintf(&b, "%0*b", n, d)
		} else {
			b.WriteString(strings.Repeat(string(c), n))
		}
	}
	return b.String()
}

func TestVerifBits(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if budget == 0 {
		budget = 5
	}
	prop := os.Getenv("VERIF_PROP")
	r := rand.New(rand.NewSource(seed))
	end := time.Now().Add(time.Duration(budget) * time.Second)
	n := 0
	seen := map[string]int{}
	fail := func(key, what string, in, got, want any) {
		seen[key]++
		if seen[key] > 2 {
			return
		}
		b, _ := json.Marshal(map[string]any{"property": prop, "key": key, "what": what, "input": in, "got": got, "want": want})
		fmt.Println("FAILINPUT " + string(b))
	}
	call := func(f func() any) (res any) {
		defer func() {
			if x := recover(); x != nil {
				res = fmt.Sprint("panic: ", x)
			}
		}()
		return f()
	}
	for i := 0; ; i++ {
		if i%64 == 0 && time.Now().After(end) {
			break
		}
		n++
		base := "box"[r.Intn(3)]
		per := map[byte]int{'b': 1, 'o': 3, 'x': 4}[base]
		// '-' and letters which are no digits of the base
		digits := map[byte]string{'b': "01", 'o': "01234567", 'x': "0123456789abcdefABCDEF"}[base]
		nd := 1 + r.Intn(6)
		if r.Intn(3) == 0 {
			nd = 1 + r.Intn(40)
		}
		withMeta := r.Intn(3) == 0
		var b strings.Builder
		for k := 0; k < nd; k++ {
			if withMeta && r.Intn(4) == 0 {
				b.WriteByte(meta[r.Intn(len(meta))])
			} else {
				b.WriteByte(digits[r.Intn(len(digits))])
			}
		}
		lit := string(base) + `"` + b.String() + `"`
		bs := BitStr(lit)
		bits := denote(lit)
		if got := call(func() any { return bs.BitWidth() }); got != any(int64(nd*per)) {
			fail("width", "BitWidth", lit, got, nd*per)
		}
		if got := call(func() any { return bs.CharWidth() }); got != any(int64(nd)) {
			fail("chars", "CharWidth", lit, got, nd)
		}
		if got := call(func() any { return bs.ValueLiteral() }); got != any(b.String()) {
			fail("literal", "ValueLiteral", lit, got, b.String())
		}
		if got := call(func() any { return string(bs.ToBin()) }); got != any(`b"`+bits+`"`) {
			fail("tobin", "ToBin", lit, got, `b"`+bits+`"`)
		}
		w := len(bits) + r.Intn(12)
		got, _ := call(func() any { return string(bs.Extend(int64(w))) }).(string)
		want := strings.Repeat("0", w-len(bits)) + bits
		if len(got) < 3 || strings.HasPrefix(got, "panic") || denote(got) != want {
			fail("extend", fmt.Sprintf("Extend(%d)", w), lit, got, want)
		}
		if !strings.ContainsAny(lit[2:], meta) && len(strings.TrimLeft(bits, "0")) <= 64 {
			u, _ := strconv.ParseUint("0"+strings.TrimLeft(bits, "0"), 2, 64)
			if got := call(func() any { return bs.Uint64() }); got != any(u) {
				fail("uint64", "Uint64", lit, got, u)
			}
		}
		up := strings.ToUpper(string(base)) + lit[1:]
		if v, err := val.MakeBitStr(up); err != nil || string(v) != lit {
			fail("make", "MakeBitStr", up, fmt.Sprint(v, err), lit)
		}
		// conversion of a number
		iw := int64(1 + r.Intn(70))
		x := int64(r.Uint64() >> uint(r.Intn(64)))
		if r.Intn(2) == 0 {
			x = -x
		}
		fits := (iw >= 63 || x <= 1<<uint(iw)-1) && (iw >= 64 || x >= -(1<<uint(iw-1)))
		v, err := val.BitStrFromInt(val.Int(x), iw)
		if (err == nil) != fits {
			fail("fits", fmt.Sprintf("BitStrFromInt(%d, %d)", x, iw), x, fmt.Sprint(v, err), fits)
		} else if fits {
			var e strings.Builder
			for k := iw - 1; k >= 0; k-- {
				s := k
				if s > 63 {
					s = 63
				}
				e.WriteByte('0' + byte(x>>uint(s)&1))
			}
			if denote(string(v)) != e.String() {
				fail("from-int", fmt.Sprintf("BitStrFromInt(%d, %d)", x, iw), x, v, e.String())
			}
		}
	}
	b, _ := json.Marshal(map[string]int{"bit_strings": n})
	fmt.Println("STATS " + string(b))
}
