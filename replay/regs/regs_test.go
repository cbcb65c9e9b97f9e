package reg

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
)

var zzseen = map[string]bool{}

func zzreport(prop, key, what string, in any, got, want any) {
	if zzseen[prop+key] {
		return
	}
	zzseen[prop+key] = true
	b, _ := json.Marshal(map[string]any{"property": prop, "key": key, "what": what, "input": in, "got": got, "want": want})
	fmt.Println("FAILINPUT " + string(b))
}

type zzspan struct{ r0, b0, r1, b1 int64 }

// zzspans lists the bits of the items according to the documented layout of
// the access type; ok is false when the fields do not fit the layout.
func zzspans(a types.Access, bw int64) (ss []zzspan, ok bool) {
	w, n := a.ItemWidth, a.ItemCount
	if w < 1 || n < 1 || a.StartBit < 0 || a.StartBit >= bw {
		return nil, false
	}
	run := func(r, b, w int64) zzspan {
		p := b + w - 1
		return zzspan{r, b, r + p/bw, p % bw}
	}
	switch a.Type {
	case "SingleOneReg", "SingleNRegs":
		ss = append(ss, run(a.StartAddr, a.StartBit, w))
	case "ArrayOneReg", "ArrayNRegs":
		for i := int64(0); i < n; i++ {
			p := a.StartBit + i*w
			ss = append(ss, run(a.StartAddr+p/bw, p%bw, w))
		}
	case "ArrayOneInReg":
		for i := int64(0); i < n; i++ {
			ss = append(ss, run(a.StartAddr+i, a.StartBit, w))
		}
	case "ArrayNInReg", "ArrayNInRegMInEndReg":
		k := bw / w
		if k == 0 {
			return nil, false
		}
		for i := int64(0); i < n; i++ {
			ss = append(ss, run(a.StartAddr+i/k, (i%k)*w, w))
		}
	case "ArrayOneInNRegs":
		k := (w + bw - 1) / bw
		for i := int64(0); i < n; i++ {
			ss = append(ss, run(a.StartAddr+i*k, 0, w))
		}
	default:
		return nil, false
	}
	l := ss[len(ss)-1]
	return ss, l.r1 == a.EndAddr && l.b1 == a.EndBit && a.RegCount == a.EndAddr-a.StartAddr+1 && a.RegWidth == bw
}

type zzown struct {
	name, kind string
}

type zzmap struct {
	bw   int64
	bits map[[2]int64]zzown
	in   any
	own  int64
}

func (m *zzmap) take(prop string, o zzown, r, b int64) {
	if p, ok := m.bits[[2]int64{r, b}]; ok && p != o {
		zzreport(prop, "overlap-"+p.kind+"-"+o.kind, "a register bit belongs to two functionalities", m.in, fmt.Sprintf("register %d bit %d: %s %s and %s %s", r, b, p.kind, p.name, o.kind, o.name), "one owner")
	}
	if r < 0 || r >= m.own || b < 0 || b >= m.bw {
		zzreport(prop, "outside-"+o.kind, "a bit lies outside of the registers of the block", m.in, fmt.Sprintf("%s %s: register %d bit %d, own size %d", o.kind, o.name, r, b, m.own), "inside")
	}
	m.bits[[2]int64{r, b}] = o
}

func (m *zzmap) access(o zzown, a types.Access, f fn.Func, w int64) {
	n := int64(1)
	if f.IsArray {
		n = f.Count
	}
	if a.ItemWidth != w || a.ItemCount != n {
		zzreport("C02", "descriptor-"+o.kind, "the descriptor is for another width or count", m.in, a, []int64{n, w})
		return
	}
	ss, ok := zzspans(a, m.bw)
	if !ok {
		zzreport("C02", "layout-"+o.kind, "the descriptor does not agree with its layout", m.in, a, nil)
		return
	}
	for _, s := range ss {
		for r := s.r0; r <= s.r1; r++ {
			lo, hi := int64(0), m.bw-1
			if r == s.r0 {
				lo = s.b0
			}
			if r == s.r1 {
				hi = s.b1
			}
			for b := lo; b <= hi; b++ {
				m.take("C02", o, r, b)
			}
		}
	}
}

func (m *zzmap) register(o zzown, r int64) {
	for b := int64(0); b < m.bw; b++ {
		m.take("C02", o, r, b)
	}
}

type zzarg struct {
	a types.Access
	n int64
	w int64
}

// zzpacked demands that arguments follow one another from bit 0 of a register.
func (m *zzmap) packed(kind, name string, args []zzarg) (last int64) {
	if len(args) == 0 {
		return -1
	}
	r0 := args[0].a.StartAddr
	pos := int64(0)
	for i, x := range args {
		if x.a.StartAddr != r0+pos/m.bw || x.a.StartBit != pos%m.bw {
			zzreport("C05", "packed-"+kind, "an argument does not follow the one before it", m.in, map[string]any{"of": name, "argument": i, "access": x.a}, map[string]any{"register": r0 + pos/m.bw, "bit": pos % m.bw})
			return -1
		}
		pos += x.n * x.w
		e := pos - 1
		if x.a.EndAddr != r0+e/m.bw || x.a.EndBit != e%m.bw {
			zzreport("C05", "end-"+kind, "an argument does not end after its bits", m.in, map[string]any{"of": name, "argument": i, "access": x.a}, map[string]any{"register": r0 + e/m.bw, "bit": e % m.bw})
			return -1
		}
	}
	o := zzown{name, kind}
	last = r0 + (pos-1)/m.bw
	for r := r0; r <= last; r++ {
		m.register(o, r)
	}
	return last
}

func zzn(f fn.Func) int64 {
	if f.IsArray {
		return f.Count
	}
	return 1
}

func zzaddr(p *int64) any {
	if p == nil {
		return "none"
	}
	return *p
}

func zzcheckBlock(blk *fn.Block, bw int64, in any, bus, ts bool) {
	m := &zzmap{bw: bw, bits: map[[2]int64]zzown{}, in: in, own: blk.Sizes.Own}
	for _, p := range blk.Procs {
		var ps, rs []zzarg
		for _, x := range p.Params {
			ps = append(ps, zzarg{x.Access, zzn(x.Func), x.Width})
		}
		for _, x := range p.Returns {
			rs = append(rs, zzarg{x.Access, zzn(x.Func), x.Width})
		}
		o := zzown{p.Name, "proc"}
		for _, x := range p.Params {
			m.access(o, x.Access, x.Func, x.Width)
		}
		for _, x := range p.Returns {
			m.access(o, x.Access, x.Func, x.Width)
		}
		m.packed("proc", p.Name, append(append([]zzarg{}, ps...), rs...))
		var call, exit any = "none", "none"
		if len(ps) > 0 {
			call = ps[len(ps)-1].a.EndAddr
		} else if len(rs) == 0 {
			call = zzaddr(p.CallAddr)
			if p.CallAddr == nil {
				call = "an address"
			}
		} else if p.Delay != nil {
			call = rs[0].a.StartAddr
		}
		if len(rs) > 0 {
			exit = rs[len(rs)-1].a.EndAddr
		} else if p.Delay != nil {
			exit = call
		}
		if zzaddr(p.CallAddr) != call {
			zzreport("C05", "call", "wrong call address", in, map[string]any{"proc": p.Name, "call": zzaddr(p.CallAddr)}, call)
		}
		if zzaddr(p.ExitAddr) != exit {
			zzreport("C05", "exit", "wrong exit address", in, map[string]any{"proc": p.Name, "exit": zzaddr(p.ExitAddr)}, exit)
		}
		for _, a := range []*int64{p.CallAddr, p.ExitAddr} {
			if a != nil {
				m.register(o, *a)
			}
		}
	}
	for _, s := range blk.Streams {
		var as []zzarg
		o := zzown{s.Name, "stream"}
		for _, x := range s.Params {
			m.access(o, x.Access, x.Func, x.Width)
			as = append(as, zzarg{x.Access, zzn(x.Func), x.Width})
		}
		for _, x := range s.Returns {
			m.access(o, x.Access, x.Func, x.Width)
			as = append(as, zzarg{x.Access, zzn(x.Func), x.Width})
		}
		m.packed("stream", s.Name, as)
		if len(as) > 0 && s.StbAddr != as[len(as)-1].a.EndAddr {
			zzreport("C05", "strobe", "wrong strobe address", in, map[string]any{"stream": s.Name, "strobe": s.StbAddr}, as[len(as)-1].a.EndAddr)
		}
		m.register(o, s.StbAddr)
	}
	for _, x := range blk.Configs {
		m.access(zzown{x.Name, "config"}, x.Access, x.Func, x.Width)
	}
	for _, x := range blk.Masks {
		m.access(zzown{x.Name, "mask"}, x.Access, x.Func, x.Width)
	}
	for _, x := range blk.Statics {
		m.access(zzown{x.Name, "static"}, x.Access, x.Func, x.Width)
	}
	for _, x := range blk.Statuses {
		m.access(zzown{x.Name, "status"}, x.Access, x.Func, x.Width)
	}
	for _, x := range blk.Irqs {
		o := zzown{x.Name, "irq"}
		m.access(o, x.Access, x.Func, 1)
		if x.AddEnable {
			m.access(zzown{x.Name, "irq enable"}, x.EnableAccess, x.Func, 1)
		}
		if (x.Clear == "Explicit") != (x.ClearAddr != nil) {
			zzreport("C03", "clear-missing", "clear address does not match the kind of clear", in, zzaddr(x.ClearAddr), x.Clear)
		}
	}
	for _, x := range blk.Irqs {
		if x.ClearAddr == nil {
			continue
		}
		if *x.ClearAddr < 0 || *x.ClearAddr >= m.own {
			zzreport("C02", "clear-outside", "clear register outside of the block", in, *x.ClearAddr, m.own)
		}
		for _, y := range blk.Irqs {
			if y != x && y.ClearAddr != nil && *y.ClearAddr == *x.ClearAddr {
				zzreport("C03", "clear-shared", "one register clears two irqs", in, []string{x.Name, y.Name}, "own register")
			}
		}
		for b := int64(0); b < bw; b++ {
			o, ok := m.bits[[2]int64{*x.ClearAddr, b}]
			if !ok || o.name == x.Name || o.kind == "static" || o.kind == "status" {
				continue
			}
			zzreport("C03", "clear-"+o.kind, "a write to the clear register of an irq also reaches another functionality", in, fmt.Sprintf("irq %s, %s %s, register %d", x.Name, o.kind, o.name, *x.ClearAddr), "write safe register")
		}
	}
	// registers behind a procedure or stream are left for others
	end := m.own
	if bus && ts {
		end--
	}
	used := map[int64]zzown{}
	for rb, o := range m.bits {
		used[rb[0]] = o
	}
	for r := int64(1); r < end; r++ {
		if _, ok := used[r]; ok {
			continue
		}
		if o := used[r-1]; o.kind == "proc" || o.kind == "stream" {
			zzreport("C05", "hole-"+o.kind, "the register behind a procedure or stream is wasted", in, fmt.Sprintf("register %d behind %s %s, own size %d", r, o.kind, o.name, m.own), "used by another functionality")
		}
	}
	for _, sb := range blk.Subblocks {
		zzcheckBlock(sb, bw, in, false, false)
	}
}

func zzpow2(n int64) bool { return n > 0 && n&(n-1) == 0 }

func zzcheckTree(blk *fn.Block, parent *fn.Block, busAlign int64, plain bool, in any) {
	rep := func(key, what string, got, want any) { zzreport("C04", key, blk.Name+": "+what, in, got, want) }
	s := blk.Sizes
	cum, sub := s.Own, int64(0)
	for _, sb := range blk.Subblocks {
		cum += sb.Count * sb.Sizes.Cumulated
		sub += sb.Count * sb.Sizes.Aligned
	}
	if s.Cumulated != cum {
		rep("cumulated", "the cumulated size is not the sum over the hierarchy", s.Cumulated, cum)
	}
	if s.Aligned < s.Own+sub {
		rep("room", "no room for own registers and subblocks", s.Aligned, s.Own+sub)
	}
	align := blk.Align
	if align == 0 {
		align = busAlign
	}
	if align == 0 {
		if s.Aligned != 0 && !zzpow2(s.Aligned) {
			rep("pow2", "the size is not a power of two", s.Aligned, "power of two")
		}
	} else if s.Aligned%align != 0 {
		rep("multiple", "the size is not a multiple of the alignment", s.Aligned, align)
	}
	n := int64(1)
	if blk.IsArray {
		n = blk.Count
	}
	a := blk.AddrSpace
	if a.End-a.Start+1 != n*s.Aligned {
		rep("space", "the address space does not have one aligned size for each item", a, n*s.Aligned)
	}
	if plain && s.Aligned != 0 && a.Start%s.Aligned != 0 {
		rep("start", "the address space does not start at a multiple of its size", a.Start, s.Aligned)
	}
	if parent == nil {
		if a.Start != 0 {
			rep("base", "the bus does not start at 0", a.Start, 0)
		}
	} else if s.Aligned > 0 {
		if a.Start < parent.AddrSpace.Start+parent.Sizes.Own || a.End > parent.AddrSpace.End {
			rep("nested", "the address space is not behind the own registers within the space of the parent", a, map[string]any{"parent": parent.AddrSpace, "own": parent.Sizes.Own})
		}
		for _, o := range parent.Subblocks {
			if o != blk && o.Sizes.Aligned > 0 && o.AddrSpace.Start <= a.End && a.Start <= o.AddrSpace.End {
				rep("disjoint", "overlaps subblock "+o.Name, a, o.AddrSpace)
			}
		}
	}
	for _, sb := range blk.Subblocks {
		zzcheckTree(sb, blk, busAlign, plain, in)
	}
}

// ---- generator

type zzgen struct {
	r  *rand.Rand
	bw int64
	n  int
}

func (g *zzgen) name(p string) string { g.n++; return p + strconv.Itoa(g.n) }

func (g *zzgen) width(max int64) int64 {
	switch g.r.Intn(6) {
	case 0:
		return 1
	case 1:
		if g.bw <= max {
			return g.bw
		}
	case 2:
		if g.bw/2+1 <= max {
			return g.bw/2 + int64(g.r.Intn(2))*1 + 0*g.bw
		}
	}
	return 1 + g.r.Int63n(max)
}

func (g *zzgen) w(max int64) int64 {
	w := g.width(max)
	if w < 1 {
		w = 1
	}
	return w
}

func (g *zzgen) fun(p string, array bool) fn.Func {
	f := fn.Func{Name: g.name(p), Count: 1}
	if array {
		f.IsArray = true
		f.Count = 1 + int64(g.r.Intn(9))
	}
	return f
}

func (g *zzgen) params() []*fn.Param {
	var ps []*fn.Param
	for i := g.r.Intn(4); i > 0; i-- {
		ps = append(ps, &fn.Param{Func: g.fun("p", g.r.Intn(3) == 0), Width: g.w(3 * g.bw)})
	}
	return ps
}

func (g *zzgen) returns() []*fn.Return {
	var ps []*fn.Return
	for i := g.r.Intn(4); i > 0; i-- {
		ps = append(ps, &fn.Return{Func: g.fun("r", g.r.Intn(3) == 0), Width: g.w(3 * g.bw)})
	}
	return ps
}

func (g *zzgen) count() int {
	if g.r.Intn(2) == 0 {
		return 0
	}
	return g.r.Intn(5)
}

func (g *zzgen) block(depth int, full, aligned bool) *fn.Block {
	r := g.r
	b := &fn.Block{Func: g.fun("b", depth > 0 && r.Intn(3) == 0), Masters: 1}
	if aligned && r.Intn(2) == 0 {
		b.Align = 1 << uint(r.Intn(6))
	}
	if full {
		for i := g.count(); i > 0; i-- {
			p := &fn.Proc{Func: g.fun("f", false), Params: g.params(), Returns: g.returns()}
			if r.Intn(2) == 0 {
				p.Delay = &types.Time{S: 0, Ns: 1}
			}
			b.Procs = append(b.Procs, p)
		}
		for i := g.count(); i > 0; i-- {
			s := &fn.Stream{Func: g.fun("s", false)}
			if r.Intn(2) == 0 {
				s.Params = g.params()
			} else {
				s.Returns = g.returns()
			}
			b.Streams = append(b.Streams, s)
		}
	}
	for i := g.count(); i > 0; i-- {
		c := &fn.Config{Func: g.fun("c", r.Intn(3) == 0), Atomic: r.Intn(2) == 0}
		if c.IsArray {
			c.Atomic = true
			c.Width = g.w(g.bw)
		} else {
			c.Width = g.w(3 * g.bw)
		}
		b.Configs = append(b.Configs, c)
	}
	if full {
		for i := g.count(); i > 0; i-- {
			b.Masks = append(b.Masks, &fn.Mask{Func: g.fun("m", false), Atomic: r.Intn(2) == 0, Width: g.w(2 * g.bw)})
		}
	}
	for i := g.count(); i > 0; i-- {
		s := &fn.Static{Func: g.fun("t", r.Intn(3) == 0)}
		if s.IsArray {
			s.Width = g.w(g.bw)
		} else {
			s.Width = g.w(3 * g.bw)
		}
		b.Statics = append(b.Statics, s)
	}
	for i := g.count(); i > 0; i-- {
		b.Statuses = append(b.Statuses, &fn.Status{Func: g.fun("u", r.Intn(3) == 0), Atomic: r.Intn(2) == 0, Width: g.w(3 * g.bw)})
	}
	for i := g.count(); i > 0; i-- {
		q := &fn.Irq{Func: g.fun("i", false), AddEnable: r.Intn(3) == 0, Clear: "Explicit"}
		if r.Intn(4) == 0 {
			q.Clear = "On Read"
		}
		b.Irqs = append(b.Irqs, q)
	}
	if depth < 3 {
		for i := r.Intn(4 - depth); i > 0; i-- {
			b.Subblocks = append(b.Subblocks, g.block(depth+1, full, aligned))
		}
	}
	return b
}

// zzdescribe is the input as it goes into the report.
func zzdescribe(b *fn.Block) map[string]any {
	d := map[string]any{"name": b.Name, "count": b.Count, "array": b.IsArray, "align": b.Align}
	f := func(k string, f fn.Func, w int64, more ...any) {
		l, _ := d[k].([]string)
		d[k] = append(l, fmt.Sprint(f.Name, " array=", f.IsArray, " count=", f.Count, " width=", w, " ", fmt.Sprint(more...)))
	}
	for _, x := range b.Procs {
		f("procs", x.Func, 0, "delay=", x.Delay != nil)
		for _, y := range x.Params {
			f("procs", y.Func, y.Width, "param of ", x.Name)
		}
		for _, y := range x.Returns {
			f("procs", y.Func, y.Width, "return of ", x.Name)
		}
	}
	for _, x := range b.Streams {
		f("streams", x.Func, 0)
		for _, y := range x.Params {
			f("streams", y.Func, y.Width, "param of ", x.Name)
		}
		for _, y := range x.Returns {
			f("streams", y.Func, y.Width, "return of ", x.Name)
		}
	}
	for _, x := range b.Configs {
		f("configs", x.Func, x.Width, "atomic=", x.Atomic)
	}
	for _, x := range b.Masks {
		f("masks", x.Func, x.Width, "atomic=", x.Atomic)
	}
	for _, x := range b.Statics {
		f("statics", x.Func, x.Width)
	}
	for _, x := range b.Statuses {
		f("statuses", x.Func, x.Width, "atomic=", x.Atomic)
	}
	for _, x := range b.Irqs {
		f("irqs", x.Func, 1, "add-enable=", x.AddEnable, " clear=", x.Clear)
	}
	var subs []any
	for _, x := range b.Subblocks {
		subs = append(subs, zzdescribe(x))
	}
	if subs != nil {
		d["subblocks"] = subs
	}
	return d
}

func zzall(b *fn.Block) (n int64) {
	n = b.Sizes.Own
	for _, s := range b.Subblocks {
		if m := zzall(s); m > n {
			n = m
		}
	}
	return
}

func zzone(seed int64, st map[string]int64) {
	r := rand.New(rand.NewSource(seed))
	bw := int64(1 + r.Intn(40))
	if r.Intn(3) == 0 {
		bw = []int64{8, 16, 32, 64}[r.Intn(4)]
	}
	g := &zzgen{r: r, bw: bw}
	aligned := r.Intn(3) == 0
	bus := g.block(0, r.Intn(2) == 0, aligned)
	bus.Name, bus.Width = "Main", bw
	if r.Intn(3) == 0 {
		// one kind of functionality with several widths, then irqs
		bus.Procs, bus.Streams, bus.Subblocks = nil, nil, nil
	}
	// Add timestamp as the last one.
	ts := r.Intn(2) == 0
	in := map[string]any{"seed": seed, "bus_width": bw, "timestamp": ts, "bus": zzdescribe(bus)}
	plain := !aligned
	busAlign := bus.Align
	func() {
		defer func() {
			if e := recover(); e != nil {
				zzreport(os.Getenv("VERIF_PROP"), "panic", "the compiler aborts", in, fmt.Sprint(e), "no panic")
			}
		}()
		Registerify(bus, ts)
		zzcheckBlock(bus, bw, in, true, ts)
		zzcheckTree(bus, nil, busAlign, plain, in)
		st["blocks"]++
	}()
}

// zzbig checks sizes which floating point numbers do not hold exactly.
func zzbig(st map[string]int64) {
	for e := uint(40); e < 58; e++ {
		for _, d := range []int64{-1, 0, 1} {
			sub := &fn.Block{Func: fn.Func{Name: "s", IsArray: true, Count: int64(1)<<e + d}}
			sub.Configs = []*fn.Config{{Func: fn.Func{Name: "c", Count: 1}, Atomic: true, Width: 32}}
			bus := &fn.Block{Func: fn.Func{Name: "Main", Count: 1}, Width: 32, Subblocks: []*fn.Block{sub}}
			in := map[string]any{"bus_width": 32, "subblock_count": sub.Count, "what": "array of blocks with one config"}
			Registerify(bus, false)
			zzcheckTree(bus, nil, 0, true, in)
			st["blocks"]++
		}
	}
}

func TestVerifRegs(t *testing.T) {
	budget, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if budget == 0 {
		budget = 5
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	st := map[string]int64{}
	end := time.Now().Add(time.Duration(budget) * time.Second)
	zzbig(st)
	for i := int64(0); time.Now().Before(end) && i < 2000000; i++ {
		zzone(seed*1000003+i, st)
	}
	b, _ := json.Marshal(st)
	fmt.Println("STATS " + string(b))
}
