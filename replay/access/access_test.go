package types

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"
)

type vfail struct {
	Key  string         `json:"key"`
	What string         `json:"what"`
	In   map[string]any `json:"input"`
	Got  any            `json:"got"`
	Want any            `json:"want"`
}

var vseen = map[string]bool{}

func report(key, what string, in map[string]any, got, want any) {
	if vseen[key] {
		return
	}
	vseen[key] = true
	b, _ := json.Marshal(vfail{key, what, in, got, want})
	fmt.Println("FAILINPUT " + string(b))
}

// span is the placement of an item in consecutive bits: register and bit of
// the first bit, register and bit of the last bit.
type span struct{ r0, b0, r1, b1 int64 }

// oracle places items one after another following the documented layout.
func describe(typ string, bw, addr, n, w int64, items []span) Access {
	f, l := items[0], items[len(items)-1]
	a := Access{Type: typ, RegWidth: bw, ItemCount: n, ItemWidth: w,
		StartAddr: f.r0, EndAddr: l.r1, StartBit: f.b0, EndBit: l.b1, RegCount: l.r1 - f.r0 + 1}
	for _, s := range items {
		for r := s.r0; r <= s.r1; r++ {
			lo, hi := int64(0), bw-1
			if r == s.r0 {
				lo = s.b0
			}
			if r == s.r1 {
				hi = s.b1
			}
			if r == f.r0 {
				a.StartRegWidth += hi - lo + 1
			}
			if r == l.r1 {
				a.EndRegWidth += hi - lo + 1
			}
		}
	}
	return a
}

// continuous placement starting at (reg, bit)
func cont(bw, reg, bit, w int64) span {
	e := bit + w - 1
	return span{reg, bit, reg + e/bw, e % bw}
}

func call(f func() Access) (a Access, p any) {
	defer func() { p = recover() }()
	a = f()
	return
}

func check(name string, bw, addr, sb, n, w int64, f func() Access, legal bool, typ string, items func() []span) {
	in := map[string]any{"function": name, "bus width": bw, "address": addr, "start bit": sb, "item count": n, "item width": w}
	got, p := call(f)
	if !legal {
		if p == nil {
			report(name+"/refuse", "placement which does not fit is accepted", in, got, "panic")
		}
		return
	}
	if p != nil {
		report(name+"/panic", "placement which fits is refused", in, fmt.Sprint(p), "descriptor")
		return
	}
	want := describe(typ, bw, addr, n, w, items())
	if got != want {
		report(name+"/geometry", "descriptor does not describe the placement", in, got, want)
	}
	if r := got.AddrRange(); r.Start != want.StartAddr || r.End != want.EndAddr {
		report(name+"/range", "address range", in, r, []int64{want.StartAddr, want.EndAddr})
	}
}

func checkAll(bw, addr, sb, n, w int64) {
	Init(bw)
	one := cont(bw, addr, sb, w)
	check("MakeSingleOneRegAccess", bw, addr, sb, 1, w, func() Access { return MakeSingleOneRegAccess(addr, sb, w) }, sb+w <= bw, "SingleOneReg", func() []span { return []span{one} })
	if sb+w > bw {
		check("MakeSingleNRegsAccess", bw, addr, sb, 1, w, func() Access { return MakeSingleNRegsAccess(addr, sb, w) }, true, "SingleNRegs", func() []span { return []span{one} })
	}
	t := "SingleOneReg"
	if sb+w > bw {
		t = "SingleNRegs"
	}
	check("MakeSingleAccess", bw, addr, sb, 1, w, func() Access { return MakeSingleAccess(addr, sb, w) }, true, t, func() []span { return []span{one} })
	contN := func() []span {
		var s []span
		for i := int64(0); i < n; i++ {
			b := sb + i*w
			s = append(s, cont(bw, addr+b/bw, b%bw, w))
		}
		return s
	}
	check("MakeArrayOneRegAccess", bw, addr, sb, n, w, func() Access { return MakeArrayOneRegAccess(n, addr, sb, w) }, sb+n*w <= bw, "ArrayOneReg", contN)
	check("MakeArrayNRegsAccess", bw, addr, sb, n, w, func() Access { return MakeArrayNRegsAccess(n, addr, sb, w) }, true, "ArrayNRegs", contN)
	check("MakeArrayOneInRegAccess", bw, addr, sb, n, w, func() Access { return MakeArrayOneInRegAccess(n, addr, sb, w) }, sb+w <= bw, "ArrayOneInReg", func() []span {
		var s []span
		for i := int64(0); i < n; i++ {
			s = append(s, cont(bw, addr+i, sb, w))
		}
		return s
	})
	if sb == 0 && w <= bw {
		k := bw / w
		pack := func() []span {
			var s []span
			for i := int64(0); i < n; i++ {
				s = append(s, cont(bw, addr+i/k, (i%k)*w, w))
			}
			return s
		}
		check("MakeArrayNInRegAccess", bw, addr, sb, n, w, func() Access { return MakeArrayNInRegAccess(n, addr, w) }, n%k == 0, "ArrayNInReg", pack)
		check("MakeArrayNInRegMInEndRegAccess", bw, addr, sb, n, w, func() Access { return MakeArrayNInRegMInEndRegAccess(n, addr, w) }, n%k != 0, "ArrayNInRegMInEndReg", pack)
	}
	if sb == 0 {
		check("MakeArrayOneInNRegsAccess", bw, addr, sb, n, w, func() Access { return MakeArrayOneInNRegsAccess(n, addr, w) }, w > bw, "ArrayOneInNRegs", func() []span {
			var s []span
			k := (w + bw - 1) / bw
			for i := int64(0); i < n; i++ {
				s = append(s, cont(bw, addr+i*k, 0, w))
			}
			return s
		})
	}
}

// checkBig compares with closed formulas where listing every item is too slow.
func checkBig(bw, addr, sb, n, w int64) {
	Init(bw)
	in := map[string]any{"bus width": bw, "address": addr, "start bit": sb, "item count": n, "item width": w}
	cmp := func(name string, f func() Access, regs, eb int64) {
		got, p := call(f)
		if p != nil {
			report(name+"/panic", "placement which fits is refused", in, fmt.Sprint(p), "descriptor")
		} else if got.RegCount != regs || got.EndBit != eb || got.StartAddr != addr || got.EndAddr != addr+regs-1 || got.ItemCount != n || got.ItemWidth != w {
			report(name+"/geometry", "descriptor does not describe the placement", in, got, map[string]int64{"registers": regs, "end bit": eb})
		}
	}
	last := sb + n*w - 1
	cmp("MakeArrayNRegsAccess", func() Access { return MakeArrayNRegsAccess(n, addr, sb, w) }, last/bw+1, last%bw)
	if w <= bw {
		k := bw / w
		if n%k == 0 {
			cmp("MakeArrayNInRegAccess", func() Access { return MakeArrayNInRegAccess(n, addr, w) }, n/k, k*w-1)
		} else {
			cmp("MakeArrayNInRegMInEndRegAccess", func() Access { return MakeArrayNInRegMInEndRegAccess(n, addr, w) }, n/k+1, n%k*w-1)
		}
	} else {
		cmp("MakeArrayOneInNRegsAccess", func() Access { return MakeArrayOneInNRegsAccess(n, addr, w) }, n*((w+bw-1)/bw), (w-1)%bw)
	}
	n = 1
	w += sb
	if last = sb + w - 1; last >= bw {
		cmp("MakeSingleAccess", func() Access { return MakeSingleAccess(addr, sb, w) }, last/bw+1, last%bw)
	}
}

func TestVerifC01(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if budget == 0 {
		budget = 10
	}
	rnd := rand.New(rand.NewSource(seed))
	cases := 0
	for bw := int64(1); bw <= 20; bw++ {
		for sb := int64(0); sb < bw; sb++ {
			for w := int64(1); w <= 3*bw+1; w++ {
				for n := int64(1); n <= 9; n++ {
					checkAll(bw, 5, sb, n, w)
					cases++
				}
			}
		}
	}
	end := time.Now().Add(time.Duration(budget) * time.Second / 2)
	for time.Now().Before(end) {
		bw := []int64{8, 16, 32, 64, 1 + rnd.Int63n(200)}[rnd.Intn(5)]
		w := 1 + rnd.Int63n([]int64{bw, 2 * bw, 10 * bw, 1000}[rnd.Intn(4)])
		n := 1 + rnd.Int63n([]int64{4, 40, 300}[rnd.Intn(3)])
		sb := rnd.Int63n(bw)
		if rnd.Intn(2) == 0 {
			sb = 0
		}
		checkAll(bw, rnd.Int63n(1<<uint(rnd.Intn(40)+1)), sb, n, w)
		checkBig(bw, rnd.Int63n(1<<uint(rnd.Intn(50)+1)), sb, 1+rnd.Int63n(1<<20), 1+rnd.Int63n(1<<uint(1+rnd.Intn(20))))
		cases += 2
	}
	fmt.Printf("STATS {\"cases\": %d}\n", cases)
}
