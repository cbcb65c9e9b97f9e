package main_test

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

func init() {
	gens["C14"] = func(j *job) {
		switch j.r.Intn(6) {
		case 0, 1:
			genInner(j)
		case 2:
			genDuplicate(j)
		case 3:
			genCount(j)
		case 4:
			genGroupRules(j)
		case 5:
			genModel(j, cfgTree)
		}
	}
	gens["C17"] = func(j *job) {
		if j.r.Intn(3) == 0 {
			genConstErrors(j)
			return
		}
		genConsts(j)
	}
}

// ---------- C15: argument lists which must be refused ----------

func genArgErrors(j *job) {
	n := 1 + j.r.Intn(4)
	first := j.r.Intn(n + 1) // parameters from first on have defaults
	var ps, body []string
	for i := 0; i < n; i++ {
		p := fmt.Sprintf("p%d", i)
		body = append(body, fmt.Sprintf("c%d config\n\twidth = %s", i, p))
		if i >= first {
			p += fmt.Sprintf(" = %d", 1+j.r.Intn(30))
		}
		ps = append(ps, p)
	}
	// A valid argument list, positional arguments first.
	pos := j.r.Intn(n + 1)
	var as []string
	for i := 0; i < n; i++ {
		v := fmt.Sprint(1 + j.r.Intn(40))
		if i < pos {
			as = append(as, v)
		} else if i < first || j.r.Intn(2) == 0 {
			as = append(as, fmt.Sprintf("p%d = %s", i, v))
		}
	}
	why := ""
	switch j.r.Intn(7) {
	case 0: // missing
		if first == 0 {
			return
		}
		k := j.r.Intn(first)
		as = nil
		for i := 0; i < n; i++ {
			if i < k && j.r.Intn(2) == 0 && len(as) == i {
				as = append(as, "3")
			} else if i < k || i > k && (i < first || j.r.Intn(2) == 0) {
				as = append(as, fmt.Sprintf("p%d = 4", i))
			}
		}
		why = "missing"
	case 1: // surplus
		as = nil
		for i := 0; i < n+1+j.r.Intn(2); i++ {
			as = append(as, fmt.Sprint(1+j.r.Intn(9)))
		}
		why = "surplus"
	case 2: // repeated
		k := j.r.Intn(n)
		if k < pos && j.r.Intn(2) == 0 {
			as = append(as, fmt.Sprintf("p%d = 5", k))
		} else {
			as = append(as, fmt.Sprintf("p%d = 5", k), fmt.Sprintf("p%d = 5", k))
		}
		why = "repeated"
	case 3: // unknown
		as = append(as, pick(j.r, []string{"P0", "p", "q", "p10", "width", "c0"})+" = 7")
		why = "unknown"
	case 4: // positional after named
		if len(as) == 0 {
			return
		}
		k := j.r.Intn(n)
		as = []string{fmt.Sprintf("p%d = 5", k)}
		for i := 0; i < n; i++ {
			if i != k {
				as = append(as, "6")
			}
		}
		if n == 1 {
			as = append(as, "6")
		}
		why = "positional after named"
	case 5: // two parameters with the same name, or default before no default
		if j.r.Intn(2) == 0 {
			k := j.r.Intn(n)
			ps = append(ps, fmt.Sprintf("p%d = 2", k))
			why = "parameter twice"
		} else {
			ps = append([]string{"d = 1"}, append(ps, "e")...)
			as = []string{"1"}
			for i := 0; i < n+1; i++ {
				as = append(as, "2")
			}
			why = "default before no default"
		}
	case 6: // base type with arguments
		src := fmt.Sprintf("Main bus\n\tx %s(%s)\n", pick(j.r, []string{"config", "block", "mask", "status", "irq"}), pick(j.r, []string{"8", "width = 8", "1, 2"}))
		if j.r.Intn(2) == 0 {
			src = "type T config(8)\nMain bus\n\tx T\n"
		}
		j.count("refusals")
		if res := j.compile(map[string]string{"main.fbd": src}); !res.refused() {
			j.fail("accepted base", "arguments of a base type are not refused", src, res.String(), "error")
		}
		return
	}
	list := ""
	if len(as) > 0 {
		list = "(" + strings.Join(as, ", ") + ")"
	}
	def := "type T(" + strings.Join(ps, ", ") + ") block\n" + ind(1, strings.Join(body, "\n"))
	var src string
	switch j.r.Intn(4) {
	case 0:
		src = def + "Main bus\n\tx T" + list + "\n"
	case 1:
		src = def + "type U T" + list + "\nMain bus\n\tx U\n"
	case 2:
		src = def + "type B block\n\ty T" + list + "\nMain bus\n\tx B\n"
	case 3:
		src = "Main bus\n" + ind(1, def) + "\tx T" + list + "\n"
	}
	j.count("refusals")
	if res := j.compile(map[string]string{"main.fbd": src}); !res.refused() {
		j.fail("accepted "+why, "an invalid argument or parameter list ("+why+") is not refused", src, res.String(), "error")
	}
}

// ---------- C14 ----------

var allKinds = []string{"blackbox", "block", "bus", "config", "group", "irq", "mask", "param", "proc", "return", "static", "status", "stream"}

// bodyFor returns a body with which a functionality of the kind is complete.
func bodyFor(kind string) string {
	switch kind {
	case "blackbox":
		return "size = 4"
	case "static":
		return "init-value = 1"
	case "group":
		return "gc config"
	}
	return ""
}

// genInner checks every pair of an outer and an inner kind.
func genInner(j *job) {
	outer, inner := pick(j.r, allKinds), pick(j.r, allKinds)
	if outer == "group" && j.r.Intn(2) == 0 {
		outer = "block"
	}
	in, mode := "", j.r.Intn(4)
	types := ""
	name := fmt.Sprintf("x%d", j.r.Intn(9))
	count := ""
	want := "1"
	if j.r.Intn(3) == 0 {
		want = fmt.Sprint(1 + j.r.Intn(5))
		count = "[" + want + "] "
	}
	switch mode {
	case 0, 1:
		in = name + " " + count + inner + "\n"
		if b := bodyFor(inner); b != "" {
			in += ind(1, b)
		}
	case 2, 3: // by a type
		types = "type IT " + inner + "\n"
		if b := bodyFor(inner); b != "" {
			types += ind(1, b)
		}
		in = name + " " + count + "IT\n"
	}
	obody := ""
	switch outer {
	case "blackbox", "static":
		obody = bodyFor(outer) + "\n"
	case "group":
		if !has(innerOf["group"], inner) && j.r.Intn(2) == 0 {
			obody = "gc config\n"
		}
	}
	var src string
	where := j.r.Intn(3)
	switch {
	case outer == "bus":
		src = types + "Main bus\n" + ind(1, in)
		if where == 1 {
			src = types + "type M bus\n" + ind(1, in) + "Main M\n"
		}
	case outer == "param" || outer == "return":
		// They need a parent of their own.
		src = types + "Main bus\n\tP proc\n\t\to " + outer + "\n" + ind(3, in)
		if where == 1 {
			src = types + "type O " + outer + "\n" + ind(1, in) + "Main bus\n\tP proc\n\t\to O\n"
		}
	default:
		src = types + "Main bus\n\to " + outer + "\n" + ind(2, obody+in)
		if where == 1 {
			src = types + "type O " + outer + "\n" + ind(1, obody+in) + "Main bus\n\to O\n"
		} else if where == 2 {
			src = types + "type O " + outer + "\n"
			if obody != "" {
				src += ind(1, obody)
			}
			src += "Main bus\n\to O\n" + ind(2, in)
		}
	}
	ok := has(innerOf[outer], inner)
	if outer == "group" {
		// Such groups have no access descriptors yet.
		want = ""
	}
	res := j.compile(map[string]string{"main.fbd": src})
	j.count("pairs")
	what := outer + " with " + inner
	if !ok {
		if !res.refused() {
			j.fail("accepted "+what, "a "+inner+" within a "+outer+" is not refused", src, res.String(), "error")
		}
		return
	}
	if !res.ok() {
		if res.unimplemented() {
			j.count("unimplemented")
			return
		}
		j.fail("refused "+what, "a "+inner+" within a "+outer+" is refused", src, res.String(), "success")
		return
	}
	o := res.bus
	if outer != "bus" {
		o = find(list(res.bus, kindList[outer]), "o")
	}
	k := 0
	for _, kl := range kindList {
		for _, x := range list(o, kl) {
			if x["Name"] == name {
				k++
				if kl != kindList[inner] {
					j.fail("list "+what, "functionality in a wrong list", src, kl, kindList[inner])
				}
				if want != "" && num(x, "Count") != want {
					j.fail("count "+what, "item count", src, num(x, "Count"), want)
				}
			}
		}
	}
	if k != 1 {
		j.fail("lost "+what, "an instantiated functionality is not exactly once in the result", src, k, 1)
	}
}

// genDuplicate checks that no two functionalities of a parent have the same name.
func genDuplicate(j *job) {
	outer := pick(j.r, []string{"bus", "block", "group", "proc", "stream"})
	a, b := pick(j.r, innerOf[outer]), pick(j.r, innerOf[outer])
	if outer == "stream" {
		b = a
	}
	if outer == "group" {
		set := []string{"config", "mask", "static", "status"}
		a, b = pick(j.r, set), pick(j.r, set)
	}
	same := j.r.Intn(3) > 0
	na, nb := "x", "x"
	if !same {
		nb = pick(j.r, []string{"y", "X", "x1", "xx"})
	}
	one := func(n, k string) string {
		s := n + " " + k + "\n"
		if b := bodyFor(k); b != "" {
			s += ind(1, b)
		}
		return s
	}
	fill := ""
	for k := j.r.Intn(4); k > 0; k-- {
		fk := pick(j.r, innerOf[outer])
		if outer == "stream" {
			fk = a
		}
		if outer == "group" {
			fk = pick(j.r, []string{"config", "mask", "static", "status"})
		}
		fill += one(fmt.Sprintf("f%d", k), fk)
	}
	fa, fb := one(na, a), one(nb, b)
	var src string
	switch j.r.Intn(4) {
	case 0: // in the same body
		if outer == "bus" {
			src = "Main bus\n" + ind(1, fa+fill+fb)
		} else {
			src = "Main bus\n\to " + outer + "\n" + ind(2, fa+fill+fb)
		}
	case 1: // in a type and in the instance
		if outer == "bus" {
			src = "type T bus\n" + ind(1, fa+fill) + "Main T\n" + ind(1, fb)
		} else {
			src = "type T " + outer + "\n" + ind(1, fa+fill) + "Main bus\n\to T\n" + ind(2, fb)
		}
	case 2: // in a type and in a type derived from it
		if outer == "bus" {
			src = "type T bus\n" + ind(1, fa) + "type U T\n" + ind(1, fill+fb) + "Main U\n"
		} else {
			src = "type T " + outer + "\n" + ind(1, fa) + "type U T\n" + ind(1, fill+fb) + "Main bus\n\to U\n"
		}
	case 3: // in the first and the last of three
		if outer == "bus" {
			src = "type T bus\n" + ind(1, fa) + "type U T\n"
			if fill != "" {
				src += ind(1, fill)
			}
			src += "Main U\n" + ind(1, fb)
		} else {
			src = "type T " + outer + "\n" + ind(1, fa) + "type U T\n"
			if fill != "" {
				src += ind(1, fill)
			}
			src += "Main bus\n\to U\n" + ind(2, fb)
		}
	}
	res := j.compile(map[string]string{"main.fbd": src})
	j.count("names")
	if same && !res.refused() {
		j.fail("accepted duplicate "+outer, "two functionalities with the same name ("+a+", "+b+") are not refused", src, res.String(), "error")
	}
	if !same && !res.ok() {
		j.fail("refused names "+outer, "functionalities with different names are refused", src, res.String(), "success")
	}
}

// genCount checks item counts.
func genCount(j *job) {
	kinds := []string{"block", "config", "irq", "mask", "proc", "static", "status", "stream", "blackbox"}
	type c struct{ name, kind, want string }
	var cs []c
	var types, bus strings.Builder
	bad := j.r.Intn(3) == 0
	n := 1 + j.r.Intn(6)
	for i := 0; i < n; i++ {
		kind := pick(j.r, kinds)
		if i == 0 && bad {
			kind = pick(j.r, []string{"block", "config", "mask", "static", "status", "proc"})
		}
		x := c{fmt.Sprintf("f%d", i), kind, "1"}
		v := 1 + j.r.Intn(9)
		vs := pick(j.r, []string{fmt.Sprint(v), fmt.Sprintf("N + %d", v-5), fmt.Sprintf("%d - %d", v+2, 2)})
		mode := j.r.Intn(4)
		if kind == "irq" || kind == "blackbox" {
			mode = 0
		}
		tc, ic := "", ""
		switch mode {
		case 1:
			ic = "[" + vs + "] "
		case 2:
			tc = "[" + vs + "] "
		}
		if mode == 1 || mode == 2 {
			x.want = fmt.Sprint(v)
		}
		typ := kind
		if i == 0 && bad {
			b := pick(j.r, []string{"0", "-1", "N - 5", "N - 9", "true", `"3"`, "1.5", "(1:3)", "[1]"})
			tc, ic = "", ""
			switch j.r.Intn(3) {
			case 0:
				ic = "[" + b + "] "
			case 1:
				tc = "[" + b + "] "
			case 2: // set twice
				tc, ic = "["+vs+"] ", "["+pick(j.r, []string{"1", "2", vs})+"] "
			}
		}
		if tc != "" || mode == 3 {
			typ = "T" + x.name
			types.WriteString("type " + typ + " " + tc + kind + "\n")
			if b := bodyFor(kind); b != "" {
				types.WriteString(ind(1, b))
			}
			bus.WriteString("\t" + x.name + " " + ic + typ + "\n")
		} else {
			bus.WriteString("\t" + x.name + " " + ic + typ + "\n")
			if b := bodyFor(kind); b != "" {
				bus.WriteString(ind(2, b))
			}
		}
		cs = append(cs, x)
	}
	src := "const N = 5\n" + types.String() + "Main bus\n" + bus.String()
	res := j.compile(map[string]string{"main.fbd": src})
	if bad {
		j.count("refusals")
		if !res.refused() {
			j.fail("accepted count", "an invalid item count is not refused", src, res.String(), "error")
		}
		return
	}
	if res.unimplemented() {
		j.count("unimplemented")
		return
	}
	if !res.ok() {
		j.fail("refused count", "valid item counts are refused", src, res.String(), "success")
		return
	}
	for _, x := range cs {
		o := find(list(res.bus, kindList[x.kind]), x.name)
		j.count("counts")
		if o == nil || num(o, "Count") != x.want {
			j.fail("count", "item count of "+x.kind+" "+x.name, src, o, x.want)
		}
	}
	// Nothing may appear which was not instantiated.
	total := 0
	for _, kl := range []string{"Blackboxes", "Configs", "Groups", "Irqs", "Masks", "Procs", "Statics", "Statuses", "Streams", "Subblocks"} {
		for _, x := range list(res.bus, kl) {
			if kl == "Statics" && (x["Name"] == "ID" || x["Name"] == "TIMESTAMP") {
				continue
			}
			total++
		}
	}
	if total != len(cs) {
		j.fail("total", "number of functionalities", src, total, len(cs))
	}
}

// genGroupRules checks which functionalities may be together in a group.
func genGroupRules(j *job) {
	set := []string{"config", "irq", "mask", "param", "return", "static", "status"}
	virtual := j.r.Intn(3)
	vset := false
	n := j.r.Intn(4)
	excl := map[string]bool{}
	var parts []string
	trig := ""
	clash := false
	data := false
	only := pick(j.r, set)
	mixed := j.r.Intn(2) == 0
	for i := 0; i < n; i++ {
		k := only
		if mixed {
			k = pick(j.r, set)
		}
		s := fmt.Sprintf("x%d %s\n", i, k)
		if b := bodyFor(k); b != "" {
			s += ind(1, b)
		}
		if k == "irq" {
			t := "Level"
			if j.r.Intn(3) == 0 {
				t = "Edge"
				s += ind(1, `out-trigger = "Edge"`)
			}
			if trig != "" && trig != t {
				clash = true
			}
			trig = t
		}
		switch k {
		case "irq", "param", "return":
			excl[k] = true
		default:
			data = true
		}
		parts = append(parts, s)
	}
	vt := ""
	if virtual > 0 {
		vset = virtual == 1
		vt = fmt.Sprintf("virtual = %v\n", vset)
	}
	cut := j.r.Intn(len(parts) + 1)
	tbody, ibody := strings.Join(parts[:cut], ""), strings.Join(parts[cut:], "")
	if j.r.Intn(2) == 0 {
		tbody = vt + tbody
	} else {
		ibody = vt + ibody
	}
	src := "type G group\n"
	if tbody != "" {
		src += ind(1, tbody)
	}
	src += "Main bus\n\tg G\n"
	if ibody != "" {
		src += ind(2, ibody)
	}
	if j.r.Intn(2) == 0 && tbody+ibody != "" {
		src = "Main bus\n\tg group\n" + ind(2, tbody+ibody)
	}
	ok := n > 0 && len(excl) <= 1 && !(len(excl) == 1 && data) && !clash && !(vset && len(excl) > 0)
	res := j.compile(map[string]string{"main.fbd": src})
	j.count("groups")
	if !ok {
		if !res.refused() {
			j.fail("accepted group", "a group with functionalities which must not be together is not refused", src, res.String(), "error")
		}
		return
	}
	if !res.ok() {
		j.fail("refused group", "a valid group is refused", src, res.String(), "success")
		return
	}
	g := find(list(res.bus, "Groups"), "g")
	if g == nil {
		j.fail("lost group", "a group is not in the result", src, nil, "g")
		return
	}
	total := 0
	for _, kl := range []string{"Configs", "Irqs", "Masks", "Params", "Returns", "Statics", "Statuses"} {
		for i, x := range list(g, kl) {
			for _, y := range list(g, kl)[:i] {
				if x["Name"] == y["Name"] {
					total += 100
				}
			}
			k := strings.Index(fmt.Sprint(x["Name"]), "x")
			i, err := strconv.Atoi(fmt.Sprint(x["Name"])[k+1:])
			if err != nil || i >= len(parts) || kindList[strings.Fields(parts[i])[1]] != kl {
				j.fail("group list", "functionality of a group in a wrong list", src, fmt.Sprint(x["Name"], " in ", kl), "")
			}
			total++
		}
	}
	if total != n {
		j.fail("group total", "number of functionalities of a group", src, total, n)
	}
}

// ---------- C17 ----------

type constCase struct {
	name, text, coll string
	want             string // JSON
}

func (j *job) constCase(name string) constCase {
	c := constCase{name: name}
	intText := func() (string, string) {
		v := j.bound()
		if j.r.Intn(3) == 0 {
			v = new(big.Int).Neg(v)
		}
		return v.String(), v.String()
	}
	switch j.r.Intn(6) {
	case 0:
		b := j.r.Intn(2) == 0
		c.text, c.want, c.coll = fmt.Sprint(b), fmt.Sprint(b), "Bools"
	case 1:
		t, w := intText()
		c.text, c.want, c.coll = t, w, "Ints"
		if j.r.Intn(3) == 0 {
			a, k := j.r.Intn(1000), j.r.Intn(1000)
			c.text, c.want = fmt.Sprintf("%d * %d", a, k), fmt.Sprint(a*k)
		}
	case 2:
		f := fmt.Sprintf("%d.%d", j.r.Intn(100000), j.r.Intn(100000))
		if j.r.Intn(3) == 0 {
			f = fmt.Sprintf("%d.%de%d", j.r.Intn(10), j.r.Intn(1000), j.r.Intn(30))
		}
		c.text, c.want, c.coll = f, f, "Floats"
	case 3:
		s := pick(j.r, []string{"", "a", "Hello, world", "x = 5", "0", "true", "[1]", "ąę", "  "})
		c.text, c.coll = `"`+s+`"`, "Strings"
		b, _ := json.Marshal(s)
		c.want = string(b)
	case 4:
		n := 1 + j.r.Intn(6)
		var xs []string
		for i := 0; i < n; i++ {
			xs = append(xs, fmt.Sprint(j.r.Intn(2) == 0))
		}
		c.text, c.want, c.coll = "["+strings.Join(xs, ", ")+"]", "["+strings.Join(xs, ",")+"]", "BoolLists"
	case 5:
		n := 1 + j.r.Intn(6)
		var xs, ws []string
		for i := 0; i < n; i++ {
			t, w := intText()
			xs, ws = append(xs, t), append(ws, w)
		}
		c.text, c.want, c.coll = "["+strings.Join(xs, ", ")+"]", "["+strings.Join(ws, ",")+"]", "IntLists"
	}
	return c
}

func (j *job) checkConsts(cs []constCase, c obj, where, src string) {
	total := 0
	for _, k := range []string{"Bools", "BoolLists", "Floats", "Ints", "IntLists", "Strings"} {
		if m, ok := c[k].(obj); ok {
			total += len(m)
		}
	}
	if total != len(cs) {
		j.fail("total "+where, "number of constants of the "+where, src, total, len(cs))
	}
	for _, x := range cs {
		in, v := constOf(c, x.name)
		j.count("constants")
		if len(in) != 1 || in[0] != x.coll {
			j.fail("collection "+where, "collections with constant "+x.name, src, in, x.coll)
			continue
		}
		b, _ := json.Marshal(v)
		got := string(b)
		if x.coll == "Floats" {
			f, _ := strconv.ParseFloat(got, 64)
			w, _ := strconv.ParseFloat(x.want, 64)
			if f != w {
				j.fail("value "+where, "value of constant "+x.name, src, got, x.want)
			}
			continue
		}
		if got != x.want {
			j.fail("value "+where, "value of constant "+x.name, src, got, x.want)
		}
	}
}

func constLines(cs []constCase) string {
	var b strings.Builder
	for _, c := range cs {
		b.WriteString("const " + c.name + " = " + c.text + "\n")
	}
	return b.String()
}

func genConsts(j *job) {
	set := func(prefix string, n int) []constCase {
		var cs []constCase
		for i := 0; i < n; i++ {
			cs = append(cs, j.constCase(fmt.Sprintf("%s%d", prefix, i)))
		}
		return cs
	}
	p, q := set("P", j.r.Intn(12)), set("Q", j.r.Intn(12))
	b, g := set("B", 1+j.r.Intn(8)), set("G", 1+j.r.Intn(8))
	m := set("M", 1+j.r.Intn(8))
	bt := j.r.Intn(len(b) + 1)
	gt := j.r.Intn(len(g) + 1)
	part := func(n int, cs []constCase, more string) string {
		if s := constLines(cs) + more; s != "" {
			return ind(n, s)
		}
		return ""
	}
	src := "import \"q\"\n" + constLines(p) +
		"type BT block\n" + part(1, b[:bt], "") +
		"type GT group\n" + part(1, g[:gt], "c config\n") +
		"Main bus\n" + part(1, m, "") +
		"\tb BT\n" + part(2, b[bt:], "") +
		"\tg GT\n" + part(2, g[gt:], "")
	qsrc := constLines(q)
	all := src + "\n--- fbd-q/q.fbd\n" + qsrc
	res := j.compile(map[string]string{"main.fbd": src, "fbd-q/q.fbd": qsrc})
	if !res.ok() || res.consts == nil {
		j.fail("refused", "valid constants are refused", all, res.String(), "success")
		return
	}
	j.checkConsts(p, sub(sub(res.consts, "main"), "Consts"), "main package", all)
	j.checkConsts(q, sub(sub(res.consts, "q"), "Consts"), "imported package", all)
	j.checkConsts(m, sub(res.bus, "Consts"), "bus", all)
	j.checkConsts(b, sub(find(list(res.bus, "Subblocks"), "b"), "Consts"), "block", all)
	j.checkConsts(g, sub(find(list(res.bus, "Groups"), "g"), "Consts"), "group", all)
	if len(res.consts) != 2 {
		j.fail("packages", "number of packages", all, len(res.consts), 2)
	}
}

func genConstErrors(j *job) {
	bad := pick(j.r, []string{"[]", "[1, true]", "[true, 1]", `["a", "b"]`, "[1, 2, 3.5]", "[1.5]", "(1:2)", "5 ns", `b"01"`, `x"f"`, "[(1:2)]", "[[1]]", "[1, 2, true]", `[true, true, "x"]`, `[1, "x"]`})
	line := "const C = " + bad + "\n"
	why := "kind"
	if j.r.Intn(3) == 0 {
		why = "redefinition"
		x := pick(j.r, []string{"1", "true", `"s"`, "[1, 2]", "[true]", "2.5"})
		y := pick(j.r, []string{"1", "true", `"s"`, "[1, 2]", "[true]", "2.5"})
		a, b := "const C = "+x+"\n", "const C = "+y+"\n"
		var src string
		switch j.r.Intn(5) {
		case 0:
			src = a + b + "Main bus\n\tc config\n"
		case 1:
			src = "Main bus\n" + ind(1, a+b)
		case 2:
			src = "type T block\n" + ind(1, a) + "Main bus\n\tx T\n" + ind(2, b)
		case 3:
			src = "type T group\n" + ind(1, a+"c config\n") + "Main bus\n\tx T\n" + ind(2, b)
		case 4:
			src = "type T block\n" + ind(1, a) + "type U T\n\tconst D = 3\nMain bus\n\tx U\n" + ind(2, b)
		}
		j.count("refusals")
		if res := j.compile(map[string]string{"main.fbd": src}); !res.refused() {
			j.fail("accepted "+why, "a constant defined twice is not refused", src, res.String(), "error")
		}
		return
	}
	files := map[string]string{}
	switch j.r.Intn(5) {
	case 0:
		files["main.fbd"] = line + "Main bus\n\tc config\n"
	case 1:
		files["main.fbd"] = "Main bus\n" + ind(1, line)
	case 2:
		files["main.fbd"] = "Main bus\n\tb block\n" + ind(2, line)
	case 3:
		files["main.fbd"] = "Main bus\n\tg group\n" + ind(2, line+"c config\n")
	case 4:
		files["main.fbd"] = "import \"q\"\nMain bus\n\tc config\n"
		files["fbd-q/q.fbd"] = line
	}
	j.count("refusals")
	if res := j.compile(files); !res.refused() {
		j.fail("accepted "+why, "a constant of a kind which cannot be exported is not refused", files, res.String(), "error")
	}
}
