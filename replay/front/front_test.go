package ast_test

// Driver of the front end: tok.Parse and ast.Build of the current tree run on
// generated sources; tokens and expression trees are compared with a reference
// lexer and a reference (shunting yard) parser written from the documentation.

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/ast"
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
)

var (
	mu    sync.Mutex
	seen  = map[string]int{}
	stats = map[string]int{}
	prop  string
)

func fail(key, what string, input, got, want any) {
	mu.Lock()
	defer mu.Unlock()
	seen[key]++
	if seen[key] > 2 {
		return
	}
	b, _ := json.Marshal(map[string]any{"property": prop, "key": key, "what": what, "input": input, "got": got, "want": want})
	fmt.Println("FAILINPUT " + string(b))
}

func count(k string, n int) {
	mu.Lock()
	stats[k] += n
	mu.Unlock()
}

// guard runs f on behalf of the input, a panic is reported.
func guard(in string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			st := string(debug.Stack())
			if len(st) > 1500 {
				st = st[:1500]
			}
			fail("panic", "the front end panics", in, fmt.Sprint(r, "\n", st), "a result or an error with a position")
		}
	}()
	f()
	return true
}

// ---------- reference lexer ----------

type tk struct {
	kind       string
	start, end int // end is the index of the last character
	line, col  int
}

var opTok = map[string]string{
	",": "Comma", ";": "Semicolon", ":": "Colon", "!=": "Neq", "!": "Neg", "==": "Eq", "=": "Ass", "+": "Add", "-": "Sub",
	"%": "Rem", "**": "Exp", "*": "Mul", "/": "Div", "<=": "LessEq", "<<": "LShift", "<": "Less", ">=": "GreaterEq",
	">>": "RShift", ">": "Greater", "(": "LParen", ")": "RParen", "[": "LBracket", "]": "RBracket", "&&": "And", "&": "BitAnd",
	"||": "Or", "|": "BitOr",
}

var keywords = map[string]string{
	"false": "Bool", "true": "Bool", "block": "Block", "bus": "Bus", "config": "Config", "const": "Const", "import": "Import",
	"group": "Group", "irq": "Irq", "mask": "Mask", "memory": "Memory", "param": "Param", "proc": "Proc", "return": "Return",
	"static": "Static", "status": "Status", "stream": "Stream", "type": "Type",
}

var functionalities = map[string]bool{
	"block": true, "bus": true, "config": true, "group": true, "irq": true, "mask": true, "memory": true, "param": true,
	"proc": true, "return": true, "static": true, "status": true, "stream": true,
}

var properties = map[string]string{
	"access": "Access", "add-enable": "AddEnable", "align": "Align", "atomic": "Atomic", "byte-write-enable": "ByteWriteEnable",
	"clear": "Clear", "delay": "Delay", "enable-init-value": "EnableInitValue", "enable-reset-value": "EnableResetValue",
	"init-value": "InitValue", "in-trigger": "InTrigger", "masters": "Masters", "out-trigger": "OutTrigger", "range": "Range",
	"read-latency": "ReadLatency", "read-value": "ReadValue", "reset": "Reset", "reset-value": "ResetValue", "size": "Size",
	"virtual": "Virtual", "width": "Width",
}

var (
	reStr   = regexp.MustCompile(`^"[^"]*"`)
	reBin   = regexp.MustCompile(`^[bB]"[-01uUwWxXzZ]*"`)
	reOct   = regexp.MustCompile(`^[oO]"[-0-7uUwWxXzZ]*"`)
	reHex   = regexp.MustCompile(`^[xX]"[-0-9a-fA-FuUwWxXzZ]*"`)
	reInt   = regexp.MustCompile(`^(0[bB][01]*|0[oO][0-7]*|0[xX][0-9a-fA-F]*)`)
	reNum   = regexp.MustCompile(`^[0-9]+(\.[0-9]*)?([eE][0-9]*)?`)
	reWord  = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_.\-]*`)
	reAfter = regexp.MustCompile(`^([ \t\n()\]\-+*/%=<>;:,|&!]|$)`)
	reQual  = regexp.MustCompile(`^[A-Za-z0-9_]+\.[A-Za-z][A-Za-z0-9_]*$`)
)

// lex returns the tokens of the source, false if it is malformed for the reference.
func lex(src string) ([]tk, bool) {
	var toks []tk
	line, bol := 1, 0 // line number and index of its first character
	indent := 0
	last := func() string {
		if len(toks) == 0 {
			return ""
		}
		return toks[len(toks)-1].kind
	}
	i := 0
	add := func(kind string, n int) {
		toks = append(toks, tk{kind, i, i + n - 1, line, i - bol + 1})
		i += n
	}
	for i < len(src) {
		rest := src[i:]
		switch c := rest[0]; {
		case c == '\n':
			if last() == "Semicolon" {
				return nil, false
			}
			n := len(rest) - len(strings.TrimLeft(rest, "\n"))
			add("Newline", n)
			line += n
			bol = i
			if i < len(src) && src[i] != ' ' {
				for ; indent > 0; indent-- {
					toks = append(toks, tk{"Dedent", i, i, line, 1})
				}
			}
		case c == ' ':
			n := len(rest) - len(strings.TrimLeft(rest, " "))
			if i+n < len(src) && src[i+n] == '\n' {
				return nil, false
			}
			if last() == "Newline" {
				if n%2 == 1 || n/2 > indent+1 {
					return nil, false
				}
				if n/2 == indent+1 {
					indent++
					add("Indent", n)
					continue
				}
				for ; indent > n/2; indent-- {
					toks = append(toks, tk{"Dedent", i, i + n - 1, line, 1})
				}
			}
			i += n
		case c == '#':
			n := strings.IndexByte(rest, '\n')
			if n < 0 {
				n = len(rest)
			}
			switch last() {
			case "", "Newline", "Indent", "Dedent":
				add("Comment", n)
			default:
				i += n
			}
		case c == '"':
			m := reStr.FindString(rest)
			if m == "" {
				return nil, false
			}
			add("String", len(m))
			if k := strings.Count(m, "\n"); k > 0 {
				line += k
				bol = i - len(m) + strings.LastIndexByte(m, '\n') + 1
			}
		case reBin.MatchString(rest):
			add("BitString", len(reBin.FindString(rest)))
		case reOct.MatchString(rest):
			add("BitString", len(reOct.FindString(rest)))
		case reHex.MatchString(rest):
			add("BitString", len(reHex.FindString(rest)))
		case len(rest) > 1 && rest[1] == '"' && strings.ContainsRune("bBoOxX", rune(c)):
			return nil, false
		case '0' <= c && c <= '9':
			kind, m := "Int", reInt.FindString(rest)
			if m == "" {
				m = reNum.FindString(rest)
				if strings.ContainsAny(m, ".eE") {
					kind = "Float"
				}
			}
			if !reAfter.MatchString(rest[len(m):]) {
				return nil, false
			}
			add(kind, len(m))
		case reWord.MatchString(rest):
			w := reWord.FindString(rest)
			place := false
			switch last() {
			case "", "Newline", "Semicolon", "Indent", "Dedent":
				place = true
			}
			if strings.Contains(w, "-") {
				if properties[w] != "" && place {
					add(properties[w], len(w))
					continue
				}
				w = w[:strings.IndexByte(w, '-')]
			}
			if strings.Contains(w, ".") {
				if !reQual.MatchString(w) {
					return nil, false
				}
				add("QualIdent", len(w))
				continue
			}
			kind := "Ident"
			switch {
			case functionalities[w]:
				switch last() {
				case "", "Newline", "Indent", "Dedent":
				default:
					kind = keywords[w]
				}
			case keywords[w] != "":
				kind = keywords[w]
			case properties[w] != "" && place:
				kind = properties[w]
			}
			if kind == "Ident" && last() == "Int" && (w == "s" || w == "ms" || w == "us" || w == "ns") {
				t := &toks[len(toks)-1]
				t.kind = "Time"
				t.end = i + len(w) - 1
				i += len(w)
				continue
			}
			add(kind, len(w))
		default:
			n := 2
			if len(rest) < 2 || opTok[rest[:2]] == "" {
				n = 1
			}
			k := opTok[rest[:n]]
			if k == "" || (k == "Comma" || k == "Semicolon") && last() == k {
				return nil, false
			}
			add(k, n)
		}
	}
	toks = append(toks, tk{"Eof", i, i, line, i - bol + 1})
	return toks, true
}

func kindOf(t tok.Token) string { return reflect.TypeOf(t).Name() }

// checkTokens compares the tokens of the source with the reference.
func checkTokens(src string) {
	var toks []tok.Token
	var err error
	if !guard(src, func() { toks, err = tok.Parse([]byte(src), "/x.fbd") }) {
		return
	}
	if err != nil {
		count("refused", 1)
		checkErr(src, err)
		return
	}
	count("tokenized", 1)
	want, ok := lex(src)
	var got []string
	exp := []string{}
	for _, t := range toks {
		got = append(got, fmt.Sprintf("%s[%d..%d]@%d:%d", kindOf(t), t.Start(), t.End(), t.Line(), t.Column()))
	}
	for _, t := range want {
		exp = append(exp, fmt.Sprintf("%s[%d..%d]@%d:%d", t.kind, t.start, t.end, t.line, t.col))
	}
	if !ok {
		fail("accepted", "a source with malformed tokens is accepted", src, got, "an error")
		return
	}
	if !reflect.DeepEqual(got, exp) {
		for i := range got {
			if i >= len(exp) || got[i] != exp[i] {
				w := any("end")
				if i < len(exp) {
					w = exp[i]
				}
				fail("token", fmt.Sprintf("token %d is not the one of the text", i), src, got[i], w)
				return
			}
		}
		fail("token", "tokens are missing", src, got, exp)
	}
}

// checkErr checks that the error has a position within the source and can be shown.
func checkErr(src string, err error) {
	var te tok.Error
	if !errors.As(err, &te) {
		fail("position", "error without position", src, err.Error(), "an error with a position")
		return
	}
	if len(te.Toks) == 0 {
		fail("position", "error without position", src, te.Msg, "an error with a position")
		return
	}
	for _, t := range te.Toks {
		if t == nil {
			fail("position", "error without position", src, te.Msg, "an error with a position")
			return
		}
		s, e := t.Start(), t.End()
		last := len(src) - 1
		if _, ok := t.(tok.Eof); ok {
			last = len(src)
		}
		if s < 0 || s > len(src) || e < s || e > last {
			fail("position", "position of the error is not within the text", src, fmt.Sprintf("%s: %d..%d", te.Msg, s, e), fmt.Sprintf("within 0..%d", len(src)))
			return
		}
		line := 1 + strings.Count(src[:s], "\n")
		col := s - strings.LastIndexByte(src[:s], '\n')
		if t.Line() != line || t.Column() != col {
			fail("position", "line and column of the error are not those of its place", src, fmt.Sprintf("%s: %d:%d", te.Msg, t.Line(), t.Column()), fmt.Sprintf("%d:%d", line, col))
			return
		}
	}
	guard(src, func() { _ = err.Error() })
}

// checkBuild checks that building of the tree ends with a result or a proper error.
func checkBuild(src string) {
	var err error
	if !guard(src, func() { _, err = ast.Build([]byte(src), "/x.fbd") }) {
		return
	}
	if err != nil {
		count("refused", 1)
		checkErr(src, err)
		return
	}
	count("built", 1)
}

// ---------- generation of sources ----------

var frags = []string{
	" ", "  ", "    ", "\n", "\n\n", "\n  ", "\n    ", "\n      ", "\t", "#", "# doc", "#\n", ",", ";", ":", "!", "!=", "=", "==", "+", "-", "*", "**", "/", "%",
	"<", "<=", "<<", ">", ">=", ">>", "(", ")", "[", "]", "&", "&&", "|", "||", "^", ".", "{", "}", "\"", "\"str\"", "\"a\nb\"", "b\"", "b\"01", "o\"", "o\"17", "x\"", "x\"aF", "\"abc", "b\"01\"", "o\"7\"",
	"x\"aF\"", "b\"01-uwxzUWXZ\"", "o\"8\"", "x\"g\"", "b\"0 1\"", "X\"\"", "B\"1\"", "O\"12\"",
	"0", "1", "12", "0b101", "0b", "0b2", "0o17", "0o8", "0xfF", "0xg", "0X1", "0O", "1.5", "1.", ".5", "1e3", "1e", "1.5e2", "1e2.5", "1..2", "1ee2", "1_000", "9999999999999999999999",
	"5 ns", "5ns", "1 us", "2 ms", "3 s", "s", "ns", "e", "E", "x", "a", "A", "_", "_a", "abc", "pkg.Sym", "pkg.sym", "a.b.c", "a.", "a.1", "a-b", "a-", "-a", "p.X-1", "a--b", "width-1",
	"const", "type", "import", "true", "false", "block", "bus", "config", "group", "irq", "mask", "memory", "param", "proc", "return", "static", "status", "stream",
	"access", "add-enable", "align", "atomic", "byte-write-enable", "clear", "delay", "enable-init-value", "enable-reset-value", "init-value", "in-trigger", "masters",
	"out-trigger", "range", "read-latency", "read-value", "reset", "reset-value", "size", "virtual", "width",
	"\x00", "\xff", "\r", "\r\n", "é", "'", "`", "@", "$", "?", "\\", "~",
	"const X = ", "const\n  A = 1\n  B = 2\n", "import \"a\"\n", "import a \"a\"\n", "type t(a, b = 1) config", "a t(1, b = 2)", "[2] config", "\n  width = 8", "\n  width = 8; range = 3",
}

var programs = []string{
	"const A = 1\nMain bus\n  masters = 1; width = 32\n  c [A+1]config\n    width = 2 ** 3; init-value = x\"0f\"\n  s status\n    range = (1:3)\n",
	"import \"pkg\"\nimport\n  q \"b\"\n  \"c\"\n# doc\nconst\n  X = 3 # comment\n  # doc of Y\n  Y = [1, true, \"s\", 2 us]\ntype t(a, b=3) block\n  const K = a\n  f proc\n    p param\n    r return\n      width = b\n  i irq\n    in-trigger = \"edge\"\nMain bus\n  b t(1, b = 2)\n  m [2]mask\n",
	"Main bus\n  g group\n    c config\n    s status\n  st static\n    init-value = b\"01\"; width = 8\n  blk block\n    x stream\n      a param\n  width = 16\n",
	"const B = -1 + 2 * (3 - 4) % 5 << 1 & 7 | 8 == 9 && true || false\nconst F = ceil(log2(1e3)) - 0xff\nMain bus; masters = 2\nX pkg.T(1)\n",
}

func randSource(r *rand.Rand) string {
	var b strings.Builder
	switch r.Intn(6) {
	case 0:
		n := r.Intn(20)
		for range n {
			b.WriteByte(byte(r.Intn(256)))
		}
	case 1:
		const cs = " \n\"#();=-.,:[]0x1bae+*sn<>&|!"
		n := r.Intn(24)
		for range n {
			b.WriteByte(cs[r.Intn(len(cs))])
		}
	case 2, 3:
		n := 1 + r.Intn(12)
		for range n {
			b.WriteString(frags[r.Intn(len(frags))])
			if r.Intn(3) == 0 {
				b.WriteByte(' ')
			}
		}
	case 4:
		// structured lines
		ind := 0
		for range 1 + r.Intn(8) {
			b.WriteString(strings.Repeat("  ", ind))
			for k := range 1 + r.Intn(5) {
				if k > 0 && r.Intn(4) > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(frags[r.Intn(len(frags))])
			}
			b.WriteString("\n")
			ind = max(0, ind+r.Intn(4)-2)
		}
	default:
		return mutate(r, programs[r.Intn(len(programs))])
	}
	return b.String()
}

// mutate changes some places of the program, it may also cut it.
func mutate(r *rand.Rand, s string) string {
	for range 1 + r.Intn(3) {
		if len(s) == 0 {
			return s
		}
		i := r.Intn(len(s))
		switch r.Intn(5) {
		case 0:
			s = s[:i]
		case 1:
			s = s[:i] + s[i+1:]
		case 2:
			s = s[:i] + frags[r.Intn(len(frags))] + s[i:]
		case 3:
			j := min(len(s), i+1+r.Intn(10))
			s = s[:i] + s[j:]
		default:
			// replace a whole word
			loc := regexp.MustCompile(`[A-Za-z0-9\-]+|[^A-Za-z0-9 ]`).FindAllStringIndex(s, -1)
			if len(loc) > 0 {
				l := loc[r.Intn(len(loc))]
				s = s[:l[0]] + frags[r.Intn(len(frags))] + s[l[1]:]
			}
		}
	}
	return s
}

// wellFormed makes a source of correct tokens, so that it is accepted often.
func wellFormed(r *rand.Rand) string {
	var b strings.Builder
	ind := 0
	words := []string{"a", "_b", "width", "s", "ns", "config", "bus", "true", "const", "pkg.Sym", "e1", "x", "b", "type", "reset-value", "a-b", "width-1", "init-value", "add-enable", "proc", "range"}
	vals := []string{"1", "0x1F", "0b01", "0o17", "1.5", "2e3", "b\"01x\"", "x\"Af\"", "o\"17\"", "\"s\"", "\"\"", "\"a\nb\"", "7 ns", "7ns", "3 s", "1 us", "00"}
	ops := []string{"+", "-", "*", "**", "/", "%", "<", "<=", "<<", ">", ">=", ">>", "(", ")", "[", "]", "&", "&&", "|", "||", "=", "==", "!=", "!", ":", ",", ";"}
	for range 1 + r.Intn(8) {
		b.WriteString(strings.Repeat("  ", ind))
		lastOp := ""
		n := 1 + r.Intn(6)
		for k := range n {
			var t string
			switch r.Intn(3) {
			case 0:
				t = words[r.Intn(len(words))]
			case 1:
				t = vals[r.Intn(len(vals))]
			default:
				t = ops[r.Intn(len(ops))]
				if (t == "," || t == ";") && (t == lastOp || k == 0 || k == n-1) {
					t = "+"
				}
				lastOp = t
			}
			if k > 0 && r.Intn(3) > 0 {
				b.WriteString(strings.Repeat(" ", 1+r.Intn(3)/2))
			}
			b.WriteString(t)
		}
		if r.Intn(4) == 0 {
			b.WriteString(" # text")
		}
		b.WriteString(strings.Repeat("\n", 1+r.Intn(5)/4))
		if r.Intn(6) == 0 {
			b.WriteString(strings.Repeat("  ", ind) + "# doc\n")
		}
		switch r.Intn(4) {
		case 0:
			ind++
		case 1:
			ind = r.Intn(ind + 1)
		}
	}
	s := b.String()
	if r.Intn(4) == 0 {
		s = strings.TrimRight(s, "\n")
	}
	return s
}

// ---------- expressions ----------

var prec = map[string]int{
	":": 0, "||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, "<=": 3, ">": 3, ">=": 3, "+": 4, "-": 4, "|": 4,
	"*": 5, "/": 5, "%": 5, "<<": 5, ">>": 5, "&": 5, "**": 6,
}

var binOps = []string{":", "||", "&&", "==", "!=", "<", "<=", ">", ">=", "+", "-", "|", "*", "/", "%", "<<", ">>", "&", "**"}

// tree is a reference tree, op is "" for leafs.
type tree struct {
	op   string // "bin", "un", "paren", "call", "list", ""
	text string
	xs   []*tree
}

func (t *tree) String() string {
	if t == nil {
		return "<nil>"
	}
	s := t.op + " " + t.text
	if t.op == "" {
		return t.text
	}
	for _, x := range t.xs {
		s += " " + x.String()
	}
	return "(" + s + ")"
}

// refParse parses a list of token texts, false if they are not an expression.
type refParser struct {
	ts []string
	i  int
}

func (p *refParser) cur() string {
	if p.i < len(p.ts) {
		return p.ts[p.i]
	}
	return ""
}

var reIdent = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)

func isAtom(s string) bool {
	if s == "" {
		return false
	}
	if _, ok := prec[s]; ok {
		return false
	}
	return !strings.Contains("()[],;=!", s)
}

// operand parses one operand without sign.
func (p *refParser) operand() *tree {
	t := p.cur()
	switch {
	case t == "(":
		p.i++
		x := p.expr()
		if x == nil || p.cur() != ")" {
			return nil
		}
		p.i++
		return &tree{"paren", "", []*tree{x}}
	case t == "[":
		p.i++
		xs, ok := p.list("]")
		if !ok {
			return nil
		}
		return &tree{"list", "", xs}
	case isAtom(t):
		p.i++
		if reIdent.MatchString(t) && t != "true" && t != "false" && p.cur() == "(" {
			p.i++
			xs, ok := p.list(")")
			if !ok {
				return nil
			}
			return &tree{"call", t, xs}
		}
		return &tree{"", t, nil}
	}
	return nil
}

func (p *refParser) list(end string) ([]*tree, bool) {
	var xs []*tree
	for {
		if p.cur() == end {
			p.i++
			return xs, true
		}
		if len(xs) > 0 {
			if p.cur() != "," {
				return nil, false
			}
			p.i++
			if p.cur() == end {
				p.i++
				return xs, true
			}
		}
		x := p.expr()
		if x == nil {
			return nil, false
		}
		xs = append(xs, x)
	}
}

// expr is a shunting yard parser, a sign is a prefix operator which binds like addition.
func (p *refParser) expr() *tree {
	type oper struct {
		text  string
		unary bool
		prec  int
	}
	var ops []oper
	var out []*tree
	pop := func() {
		o := ops[len(ops)-1]
		ops = ops[:len(ops)-1]
		if o.unary {
			out[len(out)-1] = &tree{"un", o.text, []*tree{out[len(out)-1]}}
			return
		}
		n := len(out)
		out = append(out[:n-2], &tree{"bin", o.text, []*tree{out[n-2], out[n-1]}})
	}
	for {
		for p.cur() == "+" || p.cur() == "-" {
			ops = append(ops, oper{p.cur(), true, 4})
			p.i++
		}
		x := p.operand()
		if x == nil {
			return nil
		}
		out = append(out, x)
		pr, ok := prec[p.cur()]
		if !ok {
			break
		}
		for len(ops) > 0 && ops[len(ops)-1].prec >= pr {
			pop()
		}
		ops = append(ops, oper{p.cur(), false, pr})
		p.i++
	}
	for len(ops) > 0 {
		pop()
	}
	return out[0]
}

func fromAst(e ast.Expr, src []byte) *tree {
	switch e := e.(type) {
	case ast.BinaryExpr:
		return &tree{"bin", tok.Text(e.Op, src), []*tree{fromAst(e.X, src), fromAst(e.Y, src)}}
	case ast.UnaryExpr:
		return &tree{"un", tok.Text(e.Op, src), []*tree{fromAst(e.X, src)}}
	case ast.ParenExpr:
		return &tree{"paren", "", []*tree{fromAst(e.X, src)}}
	case ast.Call:
		t := &tree{"call", tok.Text(e.Name, src), nil}
		for _, a := range e.Args {
			t.xs = append(t.xs, fromAst(a, src))
		}
		return t
	case ast.List:
		t := &tree{"list", "", nil}
		for _, a := range e.Xs {
			t.xs = append(t.xs, fromAst(a, src))
		}
		return t
	case nil:
		return nil
	}
	return &tree{"", tok.Text(e.Tok(), src), nil}
}

var atoms = []string{"1", "0x1f", "a", "B1", "p.Q", "true", "false", "1.5", "\"s\"", "b\"01\"", "5 ns", "f"}

func genExpr(r *rand.Rand, depth int) []string {
	var ts []string
	for k := range 1 + r.Intn(4) {
		if k > 0 {
			ts = append(ts, binOps[r.Intn(len(binOps))])
		}
		for r.Intn(6) == 0 {
			ts = append(ts, []string{"-", "+"}[r.Intn(2)])
		}
		x := r.Intn(8)
		if depth == 0 {
			x = 7
		}
		switch x {
		case 0, 1:
			ts = append(append(append(ts, "("), genExpr(r, depth-1)...), ")")
		case 2, 3:
			o, c := "[", "]"
			if x == 3 {
				ts = append(ts, []string{"f", "ceil", "log2"}[r.Intn(3)])
				o, c = "(", ")"
			}
			ts = append(ts, o)
			for i := range r.Intn(4) {
				if i > 0 {
					ts = append(ts, ",")
				}
				ts = append(ts, genExpr(r, depth-1)...)
			}
			ts = append(ts, c)
		default:
			ts = append(ts, atoms[r.Intn(len(atoms))])
		}
	}
	return ts
}

func checkExpr(r *rand.Rand) {
	ts := genExpr(r, 3)
	if r.Intn(3) == 0 { // make it malformed
		i := r.Intn(len(ts))
		switch r.Intn(3) {
		case 0:
			ts = append(append([]string{}, ts[:i]...), ts[i+1:]...)
		case 1:
			x := append(append([]string{}, binOps...), "(", ")", "[", "]", ",", "1", "a")
			ts = append(append(append([]string{}, ts[:i]...), x[r.Intn(len(x))]), ts[i:]...)
		case 2:
			ts[i] = binOps[r.Intn(len(binOps))]
		}
	}
	exprOf(ts, r.Intn(2) == 0)
}

// exprOf compares the tree built for the tokens with the reference.
func exprOf(ts []string, tight bool) {
	// Adjacent commas are refused by the tokenizer, time units must not follow an integer.
	p := &refParser{ts: ts}
	want := p.expr()
	if p.i != len(ts) {
		want = nil
	}
	sep := " "
	if tight {
		sep = ""
		for i := 1; i < len(ts); i++ {
			a, b := ts[i-1], ts[i]
			_, opA := prec[a]
			_, opB := prec[b]
			_, known := opTok[a+b]
			_, known2 := opTok[a[len(a)-1:]+b[:1]]
			if (isAtom(a) && isAtom(b)) || (opA && opB && (known || known2)) {
				sep = " "
			}
			if (a == "!" || a == "=") && b == "=" {
				sep = " "
			}
		}
	}
	src := "const X = " + strings.Join(ts, sep) + "\n"
	var f ast.File
	var err error
	if !guard(src, func() { f, err = ast.Build([]byte(src), "/x.fbd") }) {
		return
	}
	count("expressions", 1)
	if want == nil {
		count("malformed", 1)
		if err == nil {
			fail("accepted", "malformed expression is accepted", src, dump(f, src), "an error")
		}
		return
	}
	if err != nil {
		fail("refused", "expression is refused", src, err.Error(), want.String())
		return
	}
	if got := dump(f, src); got != want.String() {
		fail("tree", "wrong expression tree", src, got, want.String())
	}
}

func dump(f ast.File, src string) string {
	if len(f.Consts) != 1 {
		return fmt.Sprintf("%d constants", len(f.Consts))
	}
	return fromAst(f.Consts[0].Value, []byte(src)).String()
}

func TestVerifFront(t *testing.T) {
	prop = os.Getenv("VERIF_PROP")
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if budget == 0 {
		budget = 5
	}
	debug.SetMaxStack(64 << 20)
	end := time.Now().Add(time.Duration(budget) * time.Second)
	var running [8]atomic.Pointer[string]
	var since [8]atomic.Int64
	var wg sync.WaitGroup
	step := func(w int, src string, f func()) {
		running[w].Store(&src)
		since[w].Store(time.Now().UnixNano())
		f()
		running[w].Store(nil)
	}
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(500 * time.Millisecond):
			}
			for w := range running {
				if s := running[w].Load(); s != nil && time.Since(time.Unix(0, since[w].Load())) > 5*time.Second {
					fail("hang", "the front end does not end", *s, "no result after 5 s", "a result or an error")
					fmt.Println("STATS {\"hang\":1}")
					os.Exit(1)
				}
			}
		}
	}()
	one := func(w int, r *rand.Rand) {
		switch prop {
		case "C11":
			checkExpr(r)
		case "C12":
			s := wellFormed(r)
			if r.Intn(3) == 0 {
				s = randSource(r)
			}
			step(w, s, func() { checkTokens(s) })
		default:
			s := randSource(r)
			step(w, s, func() { checkBuild(s) })
		}
	}
	// exhaustive part: short sequences of fragments
	if prop != "C11" {
		var src []string
		for _, a := range frags {
			src = append(src, a)
			for _, b := range frags {
				src = append(src, a+b, "const X = "+a+b, "Main bus\n  "+a+b, "type t"+a+b, "import "+a+b)
				src = append(src, "Main bus\n  c config\n    "+a+b, "M bus "+a+b, "M "+a+b, "const X = 1 "+a+b)
			}
		}
		for w := range 8 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := w; i < len(src) && time.Now().Before(end); i += 8 {
					step(w, src[i], func() {
						if prop == "C12" {
							checkTokens(src[i])
						} else {
							checkBuild(src[i])
						}
					})
				}
			}()
		}
		wg.Wait()
		count("exhaustive", len(src))
	} else {
		// all pairs of operators, with a sign at every place
		for _, o1 := range binOps {
			for _, o2 := range binOps {
				for _, s := range []string{"", "-", "+"} {
					for pos := range 3 {
						ts := []string{}
						for k, a := range []string{"a", "b", "c"} {
							if s != "" && k == pos {
								ts = append(ts, s)
							}
							ts = append(ts, a)
							if k == 0 {
								ts = append(ts, o1)
							} else if k == 1 {
								ts = append(ts, o2)
							}
						}
						exprOf(ts, false)
						for _, o3 := range binOps {
							exprOf(append(append([]string{}, ts...), o3, "d"), false)
						}
					}
				}
			}
		}
	}
	for w := range 8 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed*7919 + int64(w)))
			for time.Now().Before(end) {
				for range 100 {
					one(w, r)
				}
			}
		}()
	}
	wg.Wait()
	close(stop)
	b, _ := json.Marshal(stats)
	fmt.Println("STATS " + string(b))
}
