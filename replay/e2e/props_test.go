package main_test

import (
	"fmt"
	"math/big"
	"strings"
)

func init() {
	gens["C06"] = genC06
	gens["C07"] = genC07
	gens["C08"] = genC08
	gens["C16"] = genC16
}

var kindList = map[string]string{
	"blackbox": "Blackboxes", "block": "Subblocks", "config": "Configs", "group": "Groups", "irq": "Irqs", "mask": "Masks",
	"proc": "Procs", "static": "Statics", "status": "Statuses", "stream": "Streams", "param": "Params", "return": "Returns",
}

// instOf returns the named functionality of the kind; params and returns are looked for in proc P.
func instOf(bus obj, kind, name string) obj {
	if kind == "bus" {
		return bus
	}
	if kind == "param" || kind == "return" {
		p := find(list(bus, "Procs"), "P")
		if p == nil {
			return nil
		}
		return find(list(p, kindList[kind]), name)
	}
	return find(list(bus, kindList[kind]), name)
}

func ind(n int, s string) string {
	var b strings.Builder
	for _, l := range strings.Split(strings.TrimRight(s, "\n"), "\n") {
		b.WriteString(strings.Repeat("\t", n) + l + "\n")
	}
	return b.String()
}

// ---------- C06 ----------

type widthCase struct {
	kind, name string
	body       string // properties of the instance
	tbody      string // properties of its type, "" without a type
	want       string // "" when it must be refused
	rng        string // wanted range, "" when none
}

func bitlen(x *big.Int) int64 {
	if n := int64(x.BitLen()); n > 0 {
		return n
	}
	return 1
}

func (j *job) bound() *big.Int {
	switch j.r.Intn(4) {
	case 0:
		return big.NewInt(int64(j.r.Intn(20)))
	case 1: // around a power of two
		x := new(big.Int).Lsh(big.NewInt(1), uint(j.r.Intn(63)))
		x.Add(x, big.NewInt(int64(j.r.Intn(3)-1)))
		if x.Sign() < 0 || !inI64(x) {
			return big.NewInt(0)
		}
		return x
	case 2:
		return big.NewInt(j.r.Int63n(1 << uint(1+j.r.Intn(40))))
	}
	return big.NewInt(j.r.Int63())
}

func (j *job) rangePair() (lo, hi *big.Int) {
	lo, hi = j.bound(), j.bound()
	if lo.Cmp(hi) > 0 {
		lo, hi = hi, lo
	}
	return
}

func genWidthCase(j *job, i int, busWidth string, bad bool) widthCase {
	kinds := []string{"config", "mask", "static", "status", "param", "return"}
	c := widthCase{kind: pick(j.r, kinds), name: fmt.Sprintf("f%d", i), want: busWidth}
	ranged := c.kind == "config" || c.kind == "param"
	w := fmt.Sprint(1 + j.r.Intn(100))
	if j.r.Intn(5) == 0 {
		w = fmt.Sprintf("%d + %d", 1+j.r.Intn(9), j.r.Intn(9))
	}
	wv := w
	if k := strings.Index(w, " + "); k > 0 {
		a, _ := new(big.Int).SetString(w[:k], 10)
		b, _ := new(big.Int).SetString(w[k+3:], 10)
		wv = a.Add(a, b).String()
	}
	prop := ""
	mode := j.r.Intn(5)
	if bad {
		mode = 5 + j.r.Intn(3)
	}
	if mode > 1 && !ranged {
		mode = mode % 2
		if bad {
			mode = 8
		}
	}
	switch mode {
	case 0:
	case 1:
		prop, c.want = "width = "+w, wv
	case 2:
		v := j.bound()
		prop, c.want, c.rng = "range = "+v.String(), fmt.Sprint(bitlen(v)), "0:"+v.String()
	case 3:
		lo, hi := j.rangePair()
		prop, c.want, c.rng = fmt.Sprintf("range = (%s:%s)", lo, hi), fmt.Sprint(bitlen(hi)), lo.String()+":"+hi.String()
	case 4:
		m := big.NewInt(0)
		var xs, rs []string
		for k := 1 + j.r.Intn(5); k > 0; k-- {
			lo, hi := j.rangePair()
			if hi.Cmp(m) > 0 {
				m = hi
			}
			xs = append(xs, fmt.Sprintf("(%s:%s)", lo, hi))
			rs = append(rs, lo.String()+":"+hi.String())
		}
		prop, c.want, c.rng = "range = ["+strings.Join(xs, ", ")+"]", fmt.Sprint(bitlen(m)), strings.Join(rs, " ")
	case 5: // bounds out of order
		lo, hi := j.rangePair()
		if lo.Cmp(hi) == 0 {
			hi = new(big.Int).Add(lo, big.NewInt(1))
			if !inI64(hi) {
				lo, hi = big.NewInt(3), big.NewInt(4)
			}
		}
		prop = fmt.Sprintf("range = (%s:%s)", hi, lo)
		if j.r.Intn(2) == 0 {
			a, b := j.rangePair()
			good := fmt.Sprintf("(%s:%s)", a, b)
			xs := []string{good, good, good, good, good}[:1+j.r.Intn(5)]
			xs[j.r.Intn(len(xs))] = fmt.Sprintf("(%s:%s)", hi, lo)
			prop = "range = [" + strings.Join(xs, ", ") + "]"
		}
		c.want = ""
	case 6: // negative bound
		v := j.bound()
		if v.Sign() == 0 {
			v = big.NewInt(1)
		}
		prop = pick(j.r, []string{fmt.Sprintf("range = -%s", v), fmt.Sprintf("range = (-%s:%s)", v, v), fmt.Sprintf("range = [(1:2), (-%s:0)]", v), "range = []", "range = [1, 2]", "range = [(1:2), 3]"})
		c.want = ""
	case 7: // width and range
		a, b := "width = "+w, "range = "+j.bound().String()
		if j.r.Intn(2) == 0 {
			a, b = b, a
		}
		c.want = ""
		switch j.r.Intn(3) {
		case 0:
			c.body = a + "\n" + b
			return c
		case 1:
			c.tbody = a + "\n" + b
			return c
		}
		c.tbody, c.body = a, b
		return c
	case 8:
		prop, c.want = "width = "+pick(j.r, []string{"0", "-1", "-7", "true", `"8"`, "2.5", "(1:2)"}), ""
	}
	if prop != "" && j.r.Intn(3) == 0 {
		c.tbody = prop
	} else {
		c.body = prop
	}
	return c
}

// assemble writes a program with the cases; params and returns are placed in proc P.
func assemble(cs []widthCase, busWidth, busMode string) string {
	var types, bus, proc strings.Builder
	for _, c := range cs {
		typ := c.kind
		if c.tbody != "" {
			typ = "T" + c.name
			types.WriteString("type " + typ + " " + c.kind + "\n" + ind(1, c.tbody))
		}
		s := c.name + " " + typ + "\n"
		if c.body != "" {
			s += ind(1, c.body)
		}
		if c.kind == "static" {
			s += ind(1, "init-value = 0")
		}
		if c.kind == "param" || c.kind == "return" {
			proc.WriteString(ind(1, s))
		} else {
			bus.WriteString(ind(1, s))
		}
	}
	head := "Main bus\n"
	switch busMode {
	case "direct":
		head += "\twidth = " + busWidth + "\n"
	case "type":
		head = "type MainT bus\n\twidth = " + busWidth + "\nMain MainT\n"
	}
	if proc.Len() > 0 {
		bus.WriteString("\tP proc\n" + ind(1, proc.String()))
	}
	return types.String() + head + bus.String()
}

func rangeText(o any) string {
	one := func(m obj) string { return num(m, "Start") + ":" + num(m, "End") }
	switch r := o.(type) {
	case obj:
		return one(r)
	case []any:
		var s []string
		for _, x := range r {
			m, _ := x.(obj)
			s = append(s, one(m))
		}
		return strings.Join(s, " ")
	}
	return ""
}

func genC06(j *job) {
	busWidth := fmt.Sprint(1 + j.r.Intn(64))
	mode := pick(j.r, []string{"direct", "type", "none"})
	if mode == "none" {
		busWidth = "32"
	}
	if j.r.Intn(3) == 0 {
		c := genWidthCase(j, 0, busWidth, true)
		src := assemble([]widthCase{c}, busWidth, mode)
		res := j.compile(map[string]string{"main.fbd": src})
		j.count("refusals")
		if !res.refused() {
			j.fail("accepted", "invalid width or range is not refused with an error", src, res.String(), "error")
		}
		return
	}
	var cs []widthCase
	for i := 0; i < 8; i++ {
		cs = append(cs, genWidthCase(j, i, busWidth, false))
	}
	src := assemble(cs, busWidth, mode)
	res := j.compile(map[string]string{"main.fbd": src})
	if !res.ok() {
		j.fail("refused", "valid widths and ranges are refused", src, res.String(), "success")
		return
	}
	if num(res.bus, "Width") != busWidth {
		j.fail("bus-width", "width of the bus", src, num(res.bus, "Width"), busWidth)
	}
	for _, c := range cs {
		o := instOf(res.bus, c.kind, c.name)
		j.count("widths")
		if o == nil {
			j.fail("lost", "functionality is not in the result", src, c.name, c.kind)
			continue
		}
		if num(o, "Width") != c.want {
			j.fail("width", "width of "+c.kind+" "+c.name, src, num(o, "Width"), c.want)
		}
		if c.kind == "config" || c.kind == "param" {
			if got := rangeText(o["Range"]); got != c.rng {
				j.fail("range", "range of "+c.kind+" "+c.name, src, got, c.rng)
			}
		}
	}
}

// ---------- C07 ----------

var propsOf = map[string][]string{
	"blackbox": {"size"}, "block": {"align", "masters", "reset"}, "bus": {"align", "masters", "reset", "width"},
	"config": {"atomic", "init-value", "range", "read-value", "reset-value", "width"}, "group": {"virtual"},
	"irq":  {"add-enable", "clear", "enable-init-value", "enable-reset-value", "in-trigger", "out-trigger"},
	"mask": {"atomic", "init-value", "read-value", "reset-value", "width"}, "param": {"range", "width"}, "proc": {"delay"},
	"return": {"width"}, "static": {"init-value", "read-value", "reset-value", "width"}, "status": {"atomic", "read-value", "width"}, "stream": {"delay"},
}
var allProps = []string{"add-enable", "align", "atomic", "clear", "delay", "enable-init-value", "enable-reset-value", "in-trigger", "init-value",
	"masters", "out-trigger", "range", "read-value", "reset", "reset-value", "size", "virtual", "width"}
var propField = map[string]string{"add-enable": "AddEnable", "align": "Align", "atomic": "Atomic", "clear": "Clear", "delay": "Delay", "in-trigger": "InTrigger",
	"masters": "Masters", "out-trigger": "OutTrigger", "range": "Range", "reset": "Reset", "size": "Size", "virtual": "Virtual", "width": "Width",
	"init-value": "InitValue", "read-value": "ReadValue", "reset-value": "ResetValue", "enable-init-value": "EnableInitValue", "enable-reset-value": "EnableResetValue"}

type pval struct{ text, kind, show string }

var pvals = []pval{
	{"-1", "int", "-1"}, {"0", "int", "0"}, {"1", "int", "1"}, {"2", "int", "2"}, {"3", "int", "3"}, {"4", "int", "4"}, {"6", "int", "6"}, {"64", "int", "64"}, {"100", "int", "100"},
	{"2 ** 3", "int", "8"}, {"5 - 6", "int", "-1"},
	{"true", "bool", "true"}, {"false", "bool", "false"},
	{`"Edge"`, "str", "Edge"}, {`"Level"`, "str", "Level"}, {`"Explicit"`, "str", "Explicit"}, {`"On Read"`, "str", "On Read"}, {`"Sync"`, "str", "Sync"}, {`"Async"`, "str", "Async"},
	{`"edge"`, "str", "edge"}, {`""`, "str", ""}, {`"On read"`, "str", "On read"}, {`"level "`, "str", "level "}, {`"explicit"`, "str", "explicit"}, {`"sync"`, "str", "sync"},
	{"0 s", "time", "0 0"}, {"5 ns", "time", "0 5"}, {"2 ms", "time", "0 2000000"},
	{"(0:5)", "range", "0:5"}, {"(5:0)", "range", "5:0"}, {"(3:3)", "range", "3:3"}, {"(-1:4)", "range", "-1:4"},
	{"[(0:1), (4:4)]", "list", "0:1 4:4"}, {"[(0:1), (4:2)]", "list", "bad"}, {"[1, 2]", "list", "bad"}, {"[]", "list", "bad"}, {"[true]", "list", "bad"},
	{"1.5", "float", "1.5"}, {"2.0", "float", "2"}, {`b"0"`, "bits", "0"}, {`b"1"`, "bits", "1"},
}

// okProp is the documented type and range of values.
func okProp(p string, v pval) bool {
	n, isInt := new(big.Int), v.kind == "int"
	if isInt {
		n.SetString(v.show, 10)
	}
	one := func(ss ...string) bool {
		for _, s := range ss {
			if v.kind == "str" && v.show == s {
				return true
			}
		}
		return false
	}
	switch p {
	case "add-enable", "atomic", "virtual":
		return v.kind == "bool"
	case "align":
		return isInt && n.Sign() > 0 && new(big.Int).And(n, new(big.Int).Sub(n, big.NewInt(1))).Sign() == 0
	case "clear":
		return one("Explicit", "On Read")
	case "delay":
		return v.kind == "time"
	case "in-trigger", "out-trigger":
		return one("Edge", "Level")
	case "reset":
		return one("Sync", "Async")
	case "masters", "width", "size":
		return isInt && n.Sign() > 0
	case "range":
		if isInt {
			return n.Sign() >= 0
		}
		return v.kind == "range" && (v.show == "0:5" || v.show == "3:3") || v.kind == "list" && v.show != "bad"
	case "init-value", "read-value", "reset-value", "enable-init-value", "enable-reset-value":
		return v.kind == "bits" || isInt
	}
	return false
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// program writes a program with functionality "x" of the kind.
func propProgram(kind, tprops, props string, typed bool) string {
	typ, types := kind, ""
	inner := ""
	switch kind {
	case "group":
		inner = "c config\n"
	case "blackbox":
		if !strings.Contains(tprops+props, "size") {
			inner = "size = 4\n"
		}
	case "static":
		if !strings.Contains(tprops+props, "init-value") {
			inner = "init-value = 0\n"
		}
	}
	if typed {
		typ = "X"
		types = "type X " + kind + "\n" + ind(1, tprops)
		if tprops == "" {
			types = "type X " + kind + "\n"
		}
	}
	body := ""
	if props+inner != "" {
		if props != "" {
			body = ind(1, props)
		}
		if inner != "" {
			body += ind(1, inner)
		}
	}
	switch kind {
	case "bus":
		return types + "Main " + typ + "\n" + body
	case "param", "return":
		if body != "" {
			body = ind(2, body)
		}
		return types + "Main bus\n\tP proc\n\t\tx " + typ + "\n" + body
	}
	if body == "" {
		return types + "Main bus\n\tx " + typ + "\n"
	}
	return types + "Main bus\n\tx " + typ + "\n" + ind(1, body)
}

func genC07(j *job) {
	var kinds []string
	for _, k := range []string{"blackbox", "block", "bus", "config", "group", "irq", "mask", "param", "proc", "return", "static", "status", "stream"} {
		kinds = append(kinds, k)
	}
	kind := pick(j.r, kinds)
	mine := propsOf[kind]
	p := pick(j.r, mine)
	if j.r.Intn(4) == 0 {
		p = pick(j.r, append([]string{"foo", "access", "size", "widths", "Width"}, allProps...))
	}
	var v pval
	if j.r.Intn(2) == 0 {
		v = pick(j.r, pvals)
	} else { // a value of the right type
		for i := 0; i < 100; i++ {
			v = pick(j.r, pvals)
			if okProp(p, v) {
				break
			}
		}
	}
	if p == "range" && j.r.Intn(3) == 0 { // list with at most one bad entry
		var xs, rs []string
		n := 1 + j.r.Intn(5)
		bad := j.r.Intn(2 * n)
		for i := 0; i < n; i++ {
			lo, hi := j.rangePair()
			if i == bad {
				if j.r.Intn(2) == 0 {
					hi = new(big.Int).Sub(lo, big.NewInt(1+j.r.Int63n(10)))
				} else {
					lo = big.NewInt(-1 - j.r.Int63n(10))
				}
			}
			xs = append(xs, fmt.Sprintf("(%s:%s)", lo, hi))
			rs = append(rs, lo.String()+":"+hi.String())
		}
		v = pval{"[" + strings.Join(xs, ", ") + "]", "list", strings.Join(rs, " ")}
		if bad < n {
			v.show = "bad"
		}
	}
	wide := "" // additional property which makes numbers fit
	if strings.HasSuffix(p, "-value") {
		if strings.HasPrefix(p, "enable") {
			wide = "add-enable = true\n"
			if v.kind == "int" && v.show != "0" && v.show != "1" {
				v = pvals[2]
			}
		} else {
			wide = "width = 16\n"
		}
	}
	line := p + " = " + v.text
	mode := j.r.Intn(6)
	var src, why string
	ok := has(mine, p) && okProp(p, v)
	switch mode {
	case 0, 1:
		src, why = propProgram(kind, "", wide+line, false), "direct"
	case 2, 3:
		src, why = propProgram(kind, wide+line, "", true), "in the type"
	case 4: // twice through inheritance
		src, why, ok = propProgram(kind, wide+line, line, true), "in the type and in the instance", false
	case 5:
		src, why, ok = propProgram(kind, "", wide+line+"\n"+line, false), "twice", false
	}
	if wide != "" && !has(mine, strings.Fields(wide)[0]) {
		return
	}
	// conflicts between properties
	if ok && mode <= 1 && (kind == "config" || kind == "param") && (p == "width" || p == "range") && j.r.Intn(3) == 0 {
		o := "range = 7"
		if p == "range" {
			o = "width = 3"
		}
		a, b := line, o
		if j.r.Intn(2) == 0 {
			a, b = b, a
		}
		switch j.r.Intn(3) {
		case 0:
			src = propProgram(kind, "", a+"\n"+b, false)
		case 1:
			src = propProgram(kind, a+"\n"+b, "", true)
		case 2:
			src = propProgram(kind, a, b, true)
		}
		ok, why = false, "together with "+o
	}
	if ok && strings.HasPrefix(p, "enable-") && j.r.Intn(3) == 0 {
		src, ok, why = propProgram(kind, "", pick(j.r, []string{"", "add-enable = false\n"})+line, false), false, "without add-enable"
	}
	if !ok && kind == "blackbox" && p != "size" && mode > 3 {
		return
	}
	if ok && p == "atomic" && v.show == "false" && (kind == "config" || kind == "mask" || kind == "status") {
		return // registerification of non atomic functionalities is not implemented
	}
	res := j.compile(map[string]string{"main.fbd": src})
	j.count("assignments")
	if res.crashed() {
		j.fail("crash", "property assignment aborts the compiler", src, res.String(), "value or error")
		return
	}
	if !ok {
		if !res.refused() {
			j.fail("accepted", fmt.Sprintf("invalid assignment '%s' to %s is accepted (%s)", line, kind, why), src, res.String(), "error")
		} else if !strings.Contains(res.err, p) {
			j.fail("message", "error does not name the property", src, res.err, p)
		}
		return
	}
	if !res.ok() {
		j.fail("refused", fmt.Sprintf("valid assignment '%s' to %s is refused (%s)", line, kind, why), src, res.String(), "success")
		return
	}
	o := instOf(res.bus, kind, "x")
	if o == nil {
		j.fail("lost", "functionality is not in the result", src, nil, kind)
		return
	}
	j.count("accepted")
	got, want := "", v.show
	f := o[propField[p]]
	switch p {
	case "range":
		got = rangeText(f)
		if v.kind == "int" {
			want = "0:" + want
		}
	case "delay":
		m, _ := f.(obj)
		got = num(m, "S") + " " + num(m, "Ns")
	case "init-value", "read-value", "reset-value", "enable-init-value", "enable-reset-value":
		s, _ := f.(string)
		n, _ := bitsOf(s)
		got = n
		n2, _ := new(big.Int).SetString(want, 10)
		w := len(n)
		if v.kind == "bits" {
			want = v.show
		} else if w > 0 {
			want = fmt.Sprintf("%0*b", w, new(big.Int).And(n2, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))))
		}
	default:
		got = fmt.Sprint(f)
	}
	if got != want {
		j.fail("value", fmt.Sprintf("value of property %s of %s (%s)", p, kind, why), src, got, want)
	}
}

// bitsOf returns the bits which a bit string literal denotes.
func bitsOf(s string) (string, bool) {
	if len(s) < 3 || s[1] != '"' || s[len(s)-1] != '"' {
		return "", false
	}
	n := map[byte]int{'b': 1, 'o': 3, 'x': 4, 'B': 1, 'O': 3, 'X': 4}[s[0]]
	if n == 0 {
		return "", false
	}
	var b strings.Builder
	for _, c := range s[2 : len(s)-1] {
		d := strings.IndexRune("0123456789abcdef", c)
		if d < 0 {
			d = strings.IndexRune("0123456789ABCDEF", c)
		}
		if d >= 0 && d < 1<<uint(n) {
			fmt.Fprintf(&b, "%0*b", n, d)
			continue
		}
		for k := 0; k < n; k++ {
			b.WriteRune([]rune(strings.ToUpper(string(c)))[0])
		}
	}
	return b.String(), true
}

// ---------- C08 ----------

func genC08(j *job) {
	type vc struct {
		kind, name, prop string
		width            int
		text             string
		want             string // bits
	}
	var cs []vc
	bad := j.r.Intn(3) == 0
	n := 8
	if bad {
		n = 1
	}
	for i := 0; i < n; i++ {
		c := vc{name: fmt.Sprintf("f%d", i)}
		c.kind = pick(j.r, []string{"config", "mask", "static", "status", "irq"})
		c.prop = pick(j.r, []string{"init-value", "read-value", "reset-value"})
		c.width = 1 + j.r.Intn(20)
		if j.r.Intn(3) == 0 {
			c.width = 1 + j.r.Intn(140)
		}
		if c.kind == "status" {
			c.prop = "read-value"
		}
		if c.kind == "irq" {
			c.prop = pick(j.r, []string{"enable-init-value", "enable-reset-value"})
			c.width = 1
		}
		w := uint(c.width)
		one := big.NewInt(1)
		lim := new(big.Int).Lsh(one, w)              // first number which is too big
		low := new(big.Int).Neg(new(big.Int).Lsh(one, w-1)) // smallest number
		if j.r.Intn(2) == 0 { // number
			v := new(big.Int)
			if bad {
				d := big.NewInt(int64(j.r.Intn(3) * j.r.Intn(5)))
				if j.r.Intn(2) == 0 {
					v.Add(lim, d)
				} else {
					v.Sub(low, one)
					v.Sub(v, d)
				}
				if j.r.Intn(4) == 0 {
					v = big.NewInt(1<<62 + j.r.Int63n(1<<62))
				}
				if !inI64(v) || v.Cmp(minI) == 0 || v.Cmp(lim) < 0 && v.Cmp(low) >= 0 {
					i--
					continue
				}
			} else {
				switch j.r.Intn(4) {
				case 0:
					v.Sub(lim, big.NewInt(int64(1+j.r.Intn(2))))
				case 1:
					v.Add(low, big.NewInt(int64(j.r.Intn(2))))
				default:
					v.Rand(j.r, lim)
					if j.r.Intn(3) == 0 {
						v.Rand(j.r, new(big.Int).Neg(low))
						v.Neg(v)
					}
				}
				if v.Cmp(lim) >= 0 || v.Cmp(low) < 0 || v.Cmp(minI) == 0 {
					i--
					continue
				}
				if !inI64(v) {
					v.SetInt64(j.r.Int63())
				}
			}
			c.text = v.String()
			if v.Sign() > 0 && j.r.Intn(3) == 0 {
				c.text = pick(j.r, []string{"0x%x", "0b%b", "0o%o"})
				c.text = fmt.Sprintf(c.text, v)
			}
			m := new(big.Int).And(v, new(big.Int).Sub(lim, one))
			c.want = fmt.Sprintf("%0*b", c.width, m)
		} else { // bit string literal
			base := pick(j.r, []string{"b", "o", "x"})
			per := map[string]int{"b": 1, "o": 3, "x": 4}[base]
			nd := c.width / per
			if bad {
				nd += 1 + j.r.Intn(3)
			} else if nd == 0 {
				i--
				continue
			} else {
				nd = 1 + j.r.Intn(nd)
				if j.r.Intn(2) == 0 {
					nd = c.width / per
				}
			}
			var s strings.Builder
			for k := 0; k < nd; k++ {
				d := "0123456789abcdef"[j.r.Intn(1<<uint(per))]
				switch j.r.Intn(12) {
				case 0:
					d = "-uUwWxXzZ"[j.r.Intn(9)]
				case 1:
					d = strings.ToUpper(string(d))[0]
				}
				s.WriteByte(d)
			}
			c.text = base + `"` + s.String() + `"`
			c.want, _ = bitsOf(c.text)
		}
		cs = append(cs, c)
	}
	var types, bus strings.Builder
	for _, c := range cs {
		props := fmt.Sprintf("width = %d\n%s = %s\n", c.width, c.prop, c.text)
		if c.kind == "irq" {
			props = fmt.Sprintf("add-enable = true\n%s = %s\n", c.prop, c.text)
		}
		if c.kind == "static" && c.prop != "init-value" {
			props += "init-value = b\"0\"\n"
		}
		if j.r.Intn(4) == 0 {
			ls := strings.SplitAfter(strings.TrimRight(props, "\n"), "\n")
			types.WriteString("type T" + c.name + " " + c.kind + "\n" + ind(1, ls[0]))
			bus.WriteString("\t" + c.name + " T" + c.name + "\n" + ind(2, strings.Join(ls[1:], "")))
		} else {
			bus.WriteString("\t" + c.name + " " + c.kind + "\n" + ind(2, props))
		}
	}
	src := types.String() + "Main bus\n" + bus.String()
	res := j.compile(map[string]string{"main.fbd": src})
	if bad {
		j.count("refusals")
		if !res.refused() {
			got := ""
			if o := instOf(res.bus, cs[0].kind, cs[0].name); o != nil {
				got = fmt.Sprint(o[propField[cs[0].prop]])
			}
			j.fail("accepted", "value which does not fit is not refused with an error", src, got+" "+res.String(), "error")
		}
		return
	}
	if !res.ok() {
		j.fail("refused", "values which fit are refused", src, res.String(), "success")
		return
	}
	for _, c := range cs {
		j.count("values")
		o := instOf(res.bus, c.kind, c.name)
		if o == nil {
			j.fail("lost", "functionality is not in the result", src, c.name, c.kind)
			continue
		}
		s, _ := o[propField[c.prop]].(string)
		got, ok := bitsOf(s)
		if !ok || got != c.want {
			j.fail("value", fmt.Sprintf("%s %s of width %d, %s = %s", c.kind, c.name, c.width, c.prop, c.text), src, s, c.want)
		}
		for _, p := range []string{"InitValue", "ReadValue", "ResetValue", "EnableInitValue", "EnableResetValue"} {
			if v, ok := o[p].(string); ok && v != "" && p != propField[c.prop] && !(c.kind == "static" && p == "InitValue") {
				j.fail("other-value", "value which is not given", src, p+" "+v, "")
			}
		}
	}
}

// ---------- C16 ----------

func genC16(j *job) {
	units := []string{"s", "ms", "us", "ns"}
	per := map[string]int64{"s": 1, "ms": 1000, "us": 1000000, "ns": 1000000000}
	type tc struct {
		text, want string
	}
	var cs []tc
	var bus strings.Builder
	for i := 0; i < 8; i++ {
		u := pick(j.r, units)
		v := j.bound()
		d := big.NewInt(per[u])
		if j.r.Intn(3) == 0 { // around a whole number of seconds
			v.Mul(big.NewInt(int64(j.r.Intn(1000))), d)
			v.Add(v, big.NewInt(int64(j.r.Intn(3)-1)))
			v.Abs(v)
		}
		q, m := new(big.Int).QuoRem(v, d, new(big.Int))
		ns := new(big.Int).Mul(m, big.NewInt(1000000000/per[u]))
		c := tc{text: v.String() + " " + u, want: q.String() + " " + ns.String()}
		cs = append(cs, c)
		fmt.Fprintf(&bus, "\tf%d %s\n\t\tdelay = %s\n\t\tp param\n", i, []string{"proc", "stream"}[i%2], c.text)
	}
	src := "Main bus\n" + bus.String()
	res := j.compile(map[string]string{"main.fbd": src})
	if !res.ok() {
		j.fail("refused", "time literals are refused", src, res.String(), "success")
		return
	}
	for i, c := range cs {
		j.count("times")
		o := instOf(res.bus, []string{"proc", "stream"}[i%2], fmt.Sprintf("f%d", i))
		d := sub(o, "Delay")
		if got := num(d, "S") + " " + num(d, "Ns"); got != c.want {
			j.fail("duration", "seconds and nanoseconds of "+c.text, src, got, c.want)
		}
	}
	// A number in another base: refused, or the same duration.
	n := big.NewInt(j.r.Int63n(3000))
	u := pick(j.r, units)
	text := fmt.Sprintf(pick(j.r, []string{"0x%x", "0b%b", "0o%o", "0%d"}), n) + " " + u
	src = "Main bus\n\tf proc\n\t\tdelay = " + text + "\n"
	res = j.compile(map[string]string{"main.fbd": src})
	if !res.refused() {
		q, m := new(big.Int).QuoRem(n, big.NewInt(per[u]), new(big.Int))
		m.Mul(m, big.NewInt(1000000000/per[u]))
		d := sub(instOf(res.bus, "proc", "f"), "Delay")
		if got := num(d, "S") + " " + num(d, "Ns"); got != q.String()+" "+m.String() {
			j.fail("duration", "seconds and nanoseconds of "+text, src, got+" "+res.String(), q.String()+" "+m.String())
		}
	}
	// A number which does not fit into 64 bits.
	big1 := new(big.Int).Add(maxI, big.NewInt(1+j.r.Int63n(1000)))
	if j.r.Intn(2) == 0 {
		big1.Mul(big1, big.NewInt(1+j.r.Int63n(1<<40)))
	}
	src = fmt.Sprintf("Main bus\n\tf proc\n\t\tdelay = %s %s\n", big1, pick(j.r, units))
	res = j.compile(map[string]string{"main.fbd": src})
	j.count("refusals")
	if !res.refused() {
		j.fail("accepted", "time literal which cannot be represented is not refused", src, res.String(), "error")
	}
}
