package main_test

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
)

func init() {
	gens["C10"] = genC10
	gens["C11"] = genC11
}

// node is an expression over integers.
type node struct {
	op   string // "lit", "id", "+", ..., "u-", "u+", or a function
	text string
	val  *big.Int
	l, r *node
}

var (
	maxI = new(big.Int).SetInt64(1<<63 - 1)
	minI = new(big.Int).SetInt64(-1 << 63)
)

func inI64(x *big.Int) bool { return x.Cmp(maxI) <= 0 && x.Cmp(minI) >= 0 }

type value struct {
	kind string // "int", "float", "refuse"
	i    *big.Int
	q    *big.Rat
}

var refuse = value{kind: "refuse"}

func intVal(x *big.Int) value {
	if !inI64(x) {
		return refuse
	}
	return value{kind: "int", i: x}
}

func (n *node) eval() value {
	switch n.op {
	case "lit", "id":
		return value{kind: "int", i: n.val}
	case "u-":
		v := n.l.eval()
		if v.kind == "skip" {
			return v
		}
		if v.kind != "int" {
			return refuse
		}
		return intVal(new(big.Int).Neg(v.i))
	case "u+":
		v := n.l.eval()
		if v.kind != "int" && v.kind != "skip" {
			return refuse
		}
		return v
	case "ceil", "floor":
		v := n.l.eval()
		switch v.kind {
		case "int":
			return v
		case "float":
			a, b := v.q.Num(), v.q.Denom()
			q := new(big.Int)
			m := new(big.Int)
			q.DivMod(a, b, m) // Euclidean, b > 0: floor
			if n.op == "ceil" && m.Sign() != 0 {
				q.Add(q, big.NewInt(1))
			}
			// Rounding of the quotient is exact enough only for small operands.
			if new(big.Int).Abs(a).BitLen() > 50 || b.BitLen() > 50 {
				return value{kind: "skip"}
			}
			return intVal(q)
		case "anyfloat", "skip":
			return value{kind: "skip"}
		}
		return refuse
	case "log2", "log10":
		v := n.l.eval()
		if v.kind != "int" {
			if v.kind == "float" || v.kind == "anyfloat" || v.kind == "skip" {
				return value{kind: "skip"}
			}
			return refuse
		}
		if v.i.Sign() <= 0 {
			return refuse
		}
		b := big.NewInt(2)
		if n.op == "log10" {
			b = big.NewInt(10)
		}
		e := int64(0)
		p := big.NewInt(1)
		for p.Cmp(v.i) < 0 {
			p.Mul(p, b)
			e++
		}
		if p.Cmp(v.i) == 0 {
			return value{kind: "int", i: big.NewInt(e)}
		}
		return value{kind: "anyfloat"}
	}
	a, b := n.l.eval(), n.r.eval()
	if a.kind == "skip" || b.kind == "skip" {
		return value{kind: "skip"}
	}
	if a.kind != "int" || b.kind != "int" {
		return refuse
	}
	x, y := a.i, b.i
	z := new(big.Int)
	switch n.op {
	case "+":
		return intVal(z.Add(x, y))
	case "-":
		return intVal(z.Sub(x, y))
	case "*":
		return intVal(z.Mul(x, y))
	case "/":
		if y.Sign() == 0 {
			return refuse
		}
		if z.Rem(x, y).Sign() == 0 {
			return intVal(new(big.Int).Quo(x, y))
		}
		return value{kind: "float", q: new(big.Rat).SetFrac(x, y)}
	case "%":
		if y.Sign() == 0 {
			return refuse
		}
		return intVal(z.Rem(x, y))
	case "**":
		if y.Sign() < 0 {
			return refuse
		}
		if x.CmpAbs(big.NewInt(1)) > 0 && y.Cmp(big.NewInt(64)) > 0 {
			return refuse
		}
		if x.CmpAbs(big.NewInt(1)) <= 0 {
			y = new(big.Int).SetInt64(y.Int64()%2 + 2*int64(bool2(y.Sign() > 0)))
			return intVal(z.Exp(x, y, nil))
		}
		return intVal(z.Exp(x, y, nil))
	case "<<":
		if y.Sign() < 0 {
			return refuse
		}
		if x.Sign() == 0 {
			return intVal(z)
		}
		if y.Cmp(big.NewInt(70)) > 0 {
			return refuse
		}
		return intVal(z.Lsh(x, uint(y.Int64())))
	case ">>":
		if y.Sign() < 0 {
			return refuse
		}
		n := uint(100)
		if y.Cmp(big.NewInt(100)) < 0 {
			n = uint(y.Int64())
		}
		return intVal(z.Rsh(x, n))
	}
	return refuse
}

func bool2(b bool) int {
	if b {
		return 1
	}
	return 0
}

// full writes the expression fully parenthesized.
func (n *node) full() string {
	switch n.op {
	case "lit", "id":
		return n.text
	case "u-":
		return "(-" + n.l.full() + ")"
	case "u+":
		return "(+" + n.l.full() + ")"
	case "ceil", "floor", "log2", "log10", "bool":
		return n.op + "(" + n.l.full() + ")"
	}
	return "(" + n.l.full() + " " + n.op + " " + n.r.full() + ")"
}

var edge = []int64{0, 1, 2, 3, 5, 7, 8, 10, 31, 32, 62, 63, 64, 65, 100, 127, 128, 255, 256, 1000, 1 << 20, 1<<31 - 1, 1 << 31, 1 << 32, 3037000499, 3037000500, 1 << 52, 1 << 53, 1<<53 + 1, 1 << 61, 1 << 62, 1<<62 + 1, 1<<63 - 2, 1<<63 - 1}

func lit(r *rand.Rand, small bool) *node {
	v := pick(r, edge)
	if small || r.Intn(3) == 0 {
		v = r.Int63n(12)
	} else if r.Intn(4) == 0 {
		v = r.Int63() >> uint(r.Intn(60))
	}
	t := fmt.Sprint(v)
	switch r.Intn(8) {
	case 0:
		t = fmt.Sprintf("0x%x", v)
	case 1:
		t = fmt.Sprintf("0b%b", v)
	case 2:
		t = fmt.Sprintf("0o%o", v)
	}
	n := &node{op: "lit", text: t, val: big.NewInt(v)}
	if r.Intn(3) == 0 {
		return &node{op: "u-", l: n}
	}
	return n
}

var intOps = []string{"+", "-", "*", "/", "%", "**", "<<", ">>"}

func randExpr(r *rand.Rand, depth int, small bool, ids []*node) *node {
	if depth == 0 || r.Intn(5) == 0 {
		if len(ids) > 0 && r.Intn(3) == 0 {
			return pick(r, ids)
		}
		return lit(r, small)
	}
	switch r.Intn(12) {
	case 0:
		return &node{op: "u-", l: randExpr(r, depth-1, small, ids)}
	case 1:
		return &node{op: "u+", l: randExpr(r, depth-1, small, ids)}
	case 2:
		return &node{op: pick(r, []string{"ceil", "floor", "log2", "log10"}), l: randExpr(r, depth-1, small, ids)}
	}
	op := pick(r, intOps)
	n := &node{op: op, l: randExpr(r, depth-1, small, ids), r: randExpr(r, depth-1, small, ids)}
	if (op == "**" || op == "<<" || op == ">>") && r.Intn(2) == 0 {
		n.r = &node{op: "lit", val: big.NewInt(int64(r.Intn(66)))}
		n.r.text = n.r.val.String()
	}
	return n
}

const emptyBus = "Main bus\n  c config\n"

func genC10(j *job) {
	switch j.r.Intn(4) {
	case 0:
		genRefusal(j)
		return
	case 1:
		genTypes(j)
		return
	}
	// many valid constants in one program
	var ids []*node
	type cst struct {
		n *node
		v value
	}
	var cs []cst
	var b strings.Builder
	for len(cs) < 60 {
		n := randExpr(j.r, 1+j.r.Intn(3), j.r.Intn(2) == 0, ids)
		v := n.eval()
		if v.kind != "int" && v.kind != "float" && v.kind != "anyfloat" {
			continue
		}
		if v.kind == "int" && j.r.Intn(12) == 0 {
			n = &node{op: "bool", l: n}
			b := int64(0)
			if v.i.Sign() != 0 {
				b = 1
			}
			v = value{kind: "bool", i: big.NewInt(b)}
		}
		name := fmt.Sprintf("K%d", len(cs))
		fmt.Fprintf(&b, "const %s = %s\n", name, n.full())
		cs = append(cs, cst{n, v})
		if v.kind == "int" {
			ids = append(ids, &node{op: "id", text: name, val: v.i})
		}
	}
	b.WriteString(emptyBus)
	res := j.compile(map[string]string{"main.fbd": b.String()})
	if !res.ok() {
		// find the constant which is refused
		for i, c := range cs {
			src := fmt.Sprintf("const K = %s\n", expand(c.n)) + emptyBus
			if r1 := j.compile(map[string]string{"main.fbd": src}); !r1.ok() {
				j.fail("refused", "constant expression with an exact result is refused", src, r1.String(), show(c.v))
				return
			}
			_ = i
		}
		j.fail("refused", "constant expressions with exact results are refused", b.String(), res.String(), "success")
		return
	}
	consts := sub(sub(res.consts, "main"), "Consts")
	for i, c := range cs {
		j.count("constants")
		if !checkConst(consts, fmt.Sprintf("K%d", i), c.v) {
			_, got := constOf(consts, fmt.Sprintf("K%d", i))
			j.fail("value", "constant has a wrong value", fmt.Sprintf("const K%d = %s", i, expand(c.n)), got, show(c.v))
		}
	}
}

// expand writes the expression with values in place of identifiers.
func expand(n *node) string {
	m := *n
	if m.op == "id" {
		m.op, m.text = "lit", m.val.String()
		if m.val.Sign() < 0 {
			if m.val.Cmp(minI) == 0 {
				return "(-9223372036854775807 - 1)"
			}
			return "(" + m.text + ")"
		}
		return m.text
	}
	if m.op == "lit" {
		return m.text
	}
	l := *n
	c := func(x *node) *node {
		if x == nil {
			return nil
		}
		return &node{op: "lit", text: expand(x)}
	}
	l.l, l.r = c(n.l), c(n.r)
	return l.full()
}

func show(v value) string {
	switch v.kind {
	case "int", "bool":
		return v.i.String()
	case "float":
		return v.q.RatString()
	}
	return v.kind
}

func checkConst(consts obj, name string, v value) bool {
	in, got := constOf(consts, name)
	if len(in) != 1 {
		return false
	}
	if v.kind == "bool" {
		return in[0] == "Bools" && got == (v.i.Sign() != 0)
	}
	n, ok := got.(json.Number)
	if !ok {
		return false
	}
	switch v.kind {
	case "int":
		return in[0] == "Ints" && n.String() == v.i.String()
	case "float":
		if in[0] != "Floats" {
			return false
		}
		q, ok := new(big.Rat).SetString(n.String())
		if !ok {
			return false
		}
		d := new(big.Rat).Sub(q, v.q)
		d.Abs(d)
		lim := new(big.Rat).Mul(new(big.Rat).Abs(v.q), big.NewRat(1, 1000000000000))
		return d.Cmp(lim) <= 0
	}
	return in[0] == "Floats"
}

func genRefusal(j *job) {
	var n *node
	for i := 0; ; i++ {
		n = randExpr(j.r, 1+j.r.Intn(2), false, nil)
		if n.eval().kind == "refuse" {
			break
		}
	}
	src := fmt.Sprintf("const K = %s\n", n.full()) + emptyBus
	res := j.compile(map[string]string{"main.fbd": src})
	j.count("refusals")
	if !res.refused() {
		consts := sub(sub(res.consts, "main"), "Consts")
		_, got := constOf(consts, "K")
		j.fail("not-refused", "expression without exact integer result is not refused with an error", src, fmt.Sprint(got, " ", res.String()), "error")
	}
}

var typed = map[string][]string{
	"bool": {"true", "false"}, "string": {`"abc"`, `""`}, "float": {"1.5", "0.25"}, "list": {"[1, 2]", "[true]"},
	"bitstr": {`b"01"`, `x"af"`}, "time": {"5 ns", "1 s"}, "range": {"(1:3)"}, "int": {"3", "0"},
}

// genTypes uses operands of all the types.
func genTypes(j *job) {
	kinds := []string{"bool", "string", "float", "list", "bitstr", "time", "range", "int"}
	a, b := pick(j.r, kinds), pick(j.r, kinds)
	x, y := pick(j.r, typed[a]), pick(j.r, typed[b])
	op := pick(j.r, append([]string{"&&", "||", "==", "!=", "<", "<=", ">", ">=", "&", "|", "^", ":"}, intOps...))
	e := x + " " + op + " " + y
	mustRefuse := true
	switch j.r.Intn(4) {
	case 0:
		u := pick(j.r, []string{"-", "+", "!"})
		e = u + x
		mustRefuse = a != "int" || u == "!"
	case 1:
		f := pick(j.r, []string{"ceil", "floor", "log2", "log10", "bool", "foo"})
		e = f + "(" + x + ")"
		mustRefuse = !(a == "int" && f != "foo" && !(x == "0" && strings.HasPrefix(f, "log"))) && !(a == "float" && f != "bool" && f != "foo")
		if j.r.Intn(4) == 0 {
			e = f + "(" + x + ", " + y + ")"
			mustRefuse = true
		}
	default:
		if a == "int" && b == "int" {
			mustRefuse = false
		}
	}
	src := fmt.Sprintf("const K = %s\n", e) + emptyBus
	res := j.compile(map[string]string{"main.fbd": src})
	j.count("typed_operands")
	if res.crashed() {
		j.fail("crash", "evaluation of an expression aborts the compiler", src, res.String(), "value or error")
	} else if mustRefuse && !res.refused() {
		_, got := constOf(sub(sub(res.consts, "main"), "Consts"), "K")
		j.fail("unsupported", "operator or function is applied to operand type it does not support", src, got, "error")
	}
}

// ---------- C11 ----------

var prec = map[string]int{"**": 6, "*": 5, "/": 5, "%": 5, "<<": 5, ">>": 5, "+": 4, "-": 4}

// tokens writes random operand and operator sequence without a tree.
func genC11(j *job) {
	var b strings.Builder
	var want []value
	var texts []string
	for len(want) < 60 {
		p := &exprText{r: j.r}
		p.gen(2 + j.r.Intn(5))
		t := strings.Join(p.toks, pick(j.r, []string{" ", "", "  "}))
		if strings.Contains(t, "***") || strings.Contains(t, "<<<") {
			continue
		}
		n := parseRef(p.toks)
		v := n.eval()
		if v.kind != "int" && v.kind != "float" {
			continue
		}
		fmt.Fprintf(&b, "const K%d = %s\n", len(want), t)
		want = append(want, v)
		texts = append(texts, t)
	}
	b.WriteString(emptyBus)
	res := j.compile(map[string]string{"main.fbd": b.String()})
	if !res.ok() {
		for i, t := range texts {
			src := "const K = " + t + "\n" + emptyBus
			if r1 := j.compile(map[string]string{"main.fbd": src}); !r1.ok() {
				j.fail("refused", "expression is not accepted", src, r1.String(), show(want[i]))
				return
			}
		}
		j.fail("refused", "expressions are not accepted", b.String(), res.String(), "success")
		return
	}
	consts := sub(sub(res.consts, "main"), "Consts")
	for i := range want {
		j.count("expressions")
		if !checkConst(consts, fmt.Sprintf("K%d", i), want[i]) {
			_, got := constOf(consts, fmt.Sprintf("K%d", i))
			j.fail("grouping", "expression is not grouped according to precedence and parentheses", "const K = "+texts[i], got, show(want[i]))
		}
	}
}

type exprText struct {
	r    *rand.Rand
	toks []string
}

func (p *exprText) gen(n int) {
	for i := 0; i < n; i++ {
		if i > 0 {
			p.toks = append(p.toks, pick(p.r, []string{"+", "-", "*", "/", "%", "**", "<<", ">>", "+", "-", "*"}))
		}
		if p.r.Intn(6) == 0 {
			p.toks = append(p.toks, pick(p.r, []string{"-", "+"}))
		}
		if n > 1 && p.r.Intn(4) == 0 {
			p.toks = append(p.toks, "(")
			p.gen(1 + p.r.Intn(3))
			p.toks = append(p.toks, ")")
		} else {
			p.toks = append(p.toks, fmt.Sprint(1+p.r.Intn(5)))
		}
	}
}

// parseRef is the reference: shunting yard with explicit stacks.
// A sign binds like an addition operator which has no left operand.
func parseRef(toks []string) *node {
	var out []*node
	type opr struct {
		s    string
		p    int
		sign bool
	}
	var ops []opr
	pop := func() {
		o := ops[len(ops)-1]
		ops = ops[:len(ops)-1]
		if o.sign {
			x := out[len(out)-1]
			out[len(out)-1] = &node{op: "u" + o.s, l: x}
			return
		}
		r := out[len(out)-1]
		l := out[len(out)-2]
		out = append(out[:len(out)-2], &node{op: o.s, l: l, r: r})
	}
	operand := true
	for _, t := range toks {
		switch {
		case t == "(":
			ops = append(ops, opr{s: "("})
			operand = true
		case t == ")":
			for ops[len(ops)-1].s != "(" {
				pop()
			}
			ops = ops[:len(ops)-1]
			operand = false
		case prec[t] > 0 && operand:
			ops = append(ops, opr{t, 4, true})
		case prec[t] > 0:
			for len(ops) > 0 && ops[len(ops)-1].s != "(" && ops[len(ops)-1].p >= prec[t] {
				pop()
			}
			ops = append(ops, opr{t, prec[t], false})
			operand = true
		default:
			v, _ := new(big.Int).SetString(t, 10)
			out = append(out, &node{op: "lit", text: t, val: v})
			operand = false
		}
	}
	for len(ops) > 0 {
		pop()
	}
	return out[0]
}
