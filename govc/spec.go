package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

type specErr string

func (e specErr) Error() string { return "specification error: " + string(e) }

// ---------- expressions ----------

type Expr struct {
	Op    string // "id","int","str","char","call","sel","index","slice","un","bin","forall","exists","old","let","pre"
	Name  string
	Args  []*Expr
	Vars  []QVar
	Trigs [][]*Expr
}

type QVar struct {
	Name string
	Type string
}

type Clause struct {
	Text    string
	Expr    *Expr
	Trusted bool
	Line    int
}

type ModClause struct {
	Cond     *Expr // any T.f if Cond, over the reference "it"
	Kind     string
	Base     *Expr
	Field    string
	TypeName string
	Text     string
}

type LoopSpec struct {
	Invs      []*Clause
	Decreases []*Clause
	Uses      []*Clause
	UsesEnd   []*Clause
}

type GhostUpd struct {
	Name string
	Vars []string
	Expr *Expr
	Text string
}

type GhostDecl struct {
	Name string
	Args []string
	Res  string
}

func (g *GhostDecl) sort(c *Ctx) string {
	s := specSort(g.Res)
	for i := len(g.Args) - 1; i >= 0; i-- {
		s = arrSort(specSort(g.Args[i]), s)
	}
	return s
}

func specSort(n string) string {
	switch n {
	case "int":
		return sInt
	case "bool":
		return sBool
	case "string":
		return sStr
	case "any":
		return sAny
	}
	return sInt
}

type Contract struct {
	Key        string
	File       string
	Line       int
	Props      []string
	Requires   []*Clause
	Decreases  []*Clause // measure of recursive functions
	Ensures    []*Clause
	Modifies   []*ModClause
	Loops      map[int]*LoopSpec
	Ghosts     []*GhostUpd
	Uses       []*Clause
	UsesRet    []*Clause
	Hints      []*Hint
	Math       bool
	Trusted    bool
	Invoke     bool // contract of an interface method
	PtrImpls   bool // the interface holds pointers
	Pure       bool
	readsHeap  bool
	NoReturn   bool
	MayPanic   bool
	NilRecv    bool
	NoVerify   bool
	Float      string
	PanicsWhen *Clause
	Note       string
	pkg        *types.Package
}

// Hint names the hypotheses with quantifiers which the proofs of some obligations are tried with first.
// Leaving out hypotheses is always sound.
type Hint struct {
	Kind string // kind of the obligations, may end in *
	Keep []string
}

// Short is the contract key without directories.
func (c *Contract) Short() string {
	return c.Key[strings.LastIndex(c.Key, "/")+1:]
}

type Macro struct {
	Name   string
	Params []QVar
	Body   *Expr
	Text   string
	pkg    *types.Package
}

type FuncDecl struct {
	Name string
	Args []string
	Res  string
}

type Axiom struct {
	Name string
	Text string
	Expr *Expr
	pkg  *types.Package
}

type Lemma struct {
	Name     string
	Params   []QVar
	Requires []*Clause
	Ensures  []*Clause
	Uses     []*Clause
	Induct   string
	Props    []string
	Math     bool
	Trusted  bool
}

// ---------- lexer ----------

type stok struct {
	kind string // id,int,str,char,op,eof
	text string
}

func lexSpec(s string) []stok {
	var out []stok
	i := 0
	ops := []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "::", ":=", "..", "(", ")", "[", "]", "{", "}", ",", ".", "+", "-", "*", "/", "%", "<", ">", "!", ":", "=", "&", "?"}
	for i < len(s) {
		ch := s[i]
		if ch == ' ' || ch == '\t' || ch == '\n' {
			i++
			continue
		}
		if ch == '#' || (ch == '/' && i+1 < len(s) && s[i+1] == '/') {
			for i < len(s) && s[i] != '\n' {
				i++
			}
			continue
		}
		if ch == '"' {
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				panic(specErr("unterminated string: " + s))
			}
			u, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				panic(specErr("bad string " + s[i:j+1]))
			}
			out = append(out, stok{"str", u})
			i = j + 1
			continue
		}
		if ch == '\'' {
			j := i + 1
			for j < len(s) && s[j] != '\'' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			u, _, _, err := strconv.UnquoteChar(s[i+1:j], '\'')
			if err != nil {
				panic(specErr("bad char " + s[i:j+1]))
			}
			out = append(out, stok{"int", strconv.Itoa(int(u))})
			i = j + 1
			continue
		}
		if unicode.IsLetter(rune(ch)) || ch == '_' || ch == '$' {
			j := i
			for j < len(s) && (unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j])) || s[j] == '_' || s[j] == '$' || s[j] == '\'') {
				j++
			}
			out = append(out, stok{"id", s[i:j]})
			i = j
			continue
		}
		if unicode.IsDigit(rune(ch)) {
			j := i
			for j < len(s) && unicode.IsDigit(rune(s[j])) {
				j++
			}
			out = append(out, stok{"int", s[i:j]})
			i = j
			continue
		}
		found := false
		for _, o := range ops {
			if strings.HasPrefix(s[i:], o) {
				out = append(out, stok{"op", o})
				i += len(o)
				found = true
				break
			}
		}
		if !found {
			panic(specErr(fmt.Sprintf("unexpected character %q in %q", ch, s)))
		}
	}
	out = append(out, stok{"eof", ""})
	return out
}

type sparser struct {
	toks []stok
	p    int
	src  string
}

func (p *sparser) peek() stok { return p.toks[p.p] }
func (p *sparser) next() stok { t := p.toks[p.p]; p.p++; return t }
func (p *sparser) isOp(o string) bool {
	t := p.peek()
	return t.kind == "op" && t.text == o
}
func (p *sparser) accept(o string) bool {
	if p.isOp(o) {
		p.p++
		return true
	}
	return false
}
func (p *sparser) expect(o string) {
	if !p.accept(o) {
		panic(specErr(fmt.Sprintf("expected %q, got %q in: %s", o, p.peek().text, p.src)))
	}
}
func (p *sparser) ident() string {
	t := p.next()
	if t.kind != "id" {
		panic(specErr(fmt.Sprintf("expected identifier, got %q in: %s", t.text, p.src)))
	}
	return t.text
}

func parseExpr(s string) *Expr {
	p := &sparser{toks: lexSpec(s), src: s}
	e := p.expr()
	if p.peek().kind != "eof" {
		panic(specErr(fmt.Sprintf("unexpected %q in: %s", p.peek().text, s)))
	}
	return e
}

func (p *sparser) expr() *Expr { return p.iff() }

func (p *sparser) iff() *Expr {
	l := p.imp()
	for p.accept("<==>") {
		r := p.imp()
		l = &Expr{Op: "bin", Name: "<==>", Args: []*Expr{l, r}}
	}
	return l
}

func (p *sparser) imp() *Expr {
	l := p.or()
	if p.accept("==>") {
		r := p.imp()
		return &Expr{Op: "bin", Name: "==>", Args: []*Expr{l, r}}
	}
	return l
}

func (p *sparser) or() *Expr {
	l := p.and()
	for p.accept("||") {
		r := p.and()
		l = &Expr{Op: "bin", Name: "||", Args: []*Expr{l, r}}
	}
	return l
}

func (p *sparser) and() *Expr {
	l := p.cmp()
	for p.accept("&&") {
		r := p.cmp()
		l = &Expr{Op: "bin", Name: "&&", Args: []*Expr{l, r}}
	}
	return l
}

func (p *sparser) cmp() *Expr {
	l := p.add()
	var res *Expr
	for {
		t := p.peek()
		if t.kind != "op" {
			break
		}
		switch t.text {
		case "==", "!=", "<", "<=", ">", ">=":
			p.next()
			r := p.add()
			e := &Expr{Op: "bin", Name: t.text, Args: []*Expr{l, r}}
			if res == nil {
				res = e
			} else {
				res = &Expr{Op: "bin", Name: "&&", Args: []*Expr{res, e}}
			}
			l = r
			continue
		}
		break
	}
	if res != nil {
		return res
	}
	return l
}

func (p *sparser) add() *Expr {
	l := p.mul()
	for {
		if p.accept("+") {
			l = &Expr{Op: "bin", Name: "+", Args: []*Expr{l, p.mul()}}
		} else if p.accept("-") {
			l = &Expr{Op: "bin", Name: "-", Args: []*Expr{l, p.mul()}}
		} else {
			return l
		}
	}
}

func (p *sparser) mul() *Expr {
	l := p.unary()
	for {
		if p.accept("*") {
			l = &Expr{Op: "bin", Name: "*", Args: []*Expr{l, p.unary()}}
		} else if p.accept("/") {
			l = &Expr{Op: "bin", Name: "/", Args: []*Expr{l, p.unary()}}
		} else if p.accept("%") {
			l = &Expr{Op: "bin", Name: "%", Args: []*Expr{l, p.unary()}}
		} else {
			return l
		}
	}
}

func (p *sparser) unary() *Expr {
	if p.accept("!") {
		return &Expr{Op: "un", Name: "!", Args: []*Expr{p.unary()}}
	}
	if p.accept("-") {
		return &Expr{Op: "un", Name: "-", Args: []*Expr{p.unary()}}
	}
	if p.accept("*") {
		return &Expr{Op: "un", Name: "*", Args: []*Expr{p.unary()}}
	}
	return p.postfix()
}

func (p *sparser) typeName() string {
	if p.accept("*") {
		return "*" + p.typeName()
	}
	if p.accept("[") {
		p.expect("]")
		return "[]" + p.typeName()
	}
	n := p.ident()
	if n == "map" && p.accept("[") {
		k := p.typeName()
		p.expect("]")
		return "map[" + k + "]" + p.typeName()
	}
	if p.accept(".") {
		n += "." + p.ident()
	}
	return n
}

func (p *sparser) postfix() *Expr {
	e := p.primary()
	for {
		if p.accept(".") {
			n := p.ident()
			e = &Expr{Op: "sel", Name: n, Args: []*Expr{e}}
		} else if p.accept("[") {
			i := p.expr()
			if p.accept(":") {
				j := p.expr()
				p.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, i, j}}
				continue
			}
			p.expect("]")
			e = &Expr{Op: "index", Args: []*Expr{e, i}}
		} else {
			return e
		}
	}
}

func (p *sparser) primary() *Expr {
	t := p.next()
	switch t.kind {
	case "int":
		return &Expr{Op: "int", Name: t.text}
	case "str":
		return &Expr{Op: "str", Name: t.text}
	case "op":
		if t.text == "(" {
			e := p.expr()
			p.expect(")")
			return e
		}
	case "id":
		switch t.text {
		case "forall", "exists":
			e := &Expr{Op: t.text}
			for {
				var names []string
				names = append(names, p.ident())
				for p.peek().kind == "op" && p.peek().text == "," {
					p.next()
					names = append(names, p.ident())
				}
				ty := "int"
				if !p.isOp("::") && !p.isOp(",") {
					ty = p.typeName()
				}
				for _, n := range names {
					e.Vars = append(e.Vars, QVar{n, ty})
				}
				if p.accept(",") {
					continue
				}
				break
			}
			p.expect("::")
			for p.accept("{") {
				var tr []*Expr
				tr = append(tr, p.expr())
				for p.accept(",") {
					tr = append(tr, p.expr())
				}
				p.expect("}")
				e.Trigs = append(e.Trigs, tr)
			}
			e.Args = []*Expr{p.expr()}
			return e
		case "let":
			n := p.ident()
			p.expect("=")
			v := p.expr()
			if p.ident() != "in" {
				panic(specErr("expected in: " + p.src))
			}
			b := p.expr()
			return &Expr{Op: "let", Name: n, Args: []*Expr{v, b}}
		case "typeis", "as", "isa":
			p.expect("(")
			x := p.expr()
			p.expect(",")
			ty := p.typeName()
			p.expect(")")
			return &Expr{Op: t.text, Name: ty, Args: []*Expr{x}}
		case "box", "ptr":
			p.expect("(")
			ty := p.typeName()
			p.expect(",")
			x := p.expr()
			p.expect(")")
			return &Expr{Op: t.text, Name: ty, Args: []*Expr{x}}
		}
		if p.accept("(") {
			e := &Expr{Op: "call", Name: t.text}
			if !p.isOp(")") {
				e.Args = append(e.Args, p.expr())
				for p.accept(",") {
					e.Args = append(e.Args, p.expr())
				}
			}
			p.expect(")")
			return e
		}
		return &Expr{Op: "id", Name: t.text}
	}
	panic(specErr(fmt.Sprintf("unexpected %q in: %s", t.text, p.src)))
}

// ---------- contract files ----------

var keywords = map[string]bool{
	"func": true, "invoke": true, "property": true, "requires": true, "ensures": true, "modifies": true,
	"loop": true, "invariant": true, "decreases": true, "endloop": true, "math": true, "trusted": true, "given": true,
	"pure": true, "readsheap": true, "panics": true, "define": true, "sum": true, "function": true, "axiom": true,
	"lemma": true, "ghost": true, "ghostset": true, "use": true, "useret": true, "useend": true,
	"induct": true, "float": true, "noreturn": true, "maypanic": true, "nilrecv": true, "pointers": true, "note": true,
	"package": true, "hint": true, "assume": true, "end": true, "noverify": true,
}

func (P *Program) loadContracts(dir string) error {
	files, err := filepath.Glob(filepath.Join(dir, "*.spec"))
	if err != nil {
		return err
	}
	sort.Strings(files)
	for _, f := range files {
		if err := P.loadContractFile(f); err != nil {
			return fmt.Errorf("%s: %v", f, err)
		}
	}
	return nil
}

func (P *Program) loadContractFile(file string) (err error) {
	line := 0
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("line %d: %v", line, e)
				return
			}
			panic(r)
		}
	}()
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	type cl struct {
		kw, text string
		line     int
	}
	var cls []cl
	for i, l := range strings.Split(string(data), "\n") {
		t := strings.TrimSpace(l)
		if k := strings.Index(t, "//"); k == 0 {
			continue
		}
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		if k := strings.Index(t, " // "); k > 0 {
			t = strings.TrimSpace(t[:k])
		}
		w := t
		if k := strings.IndexAny(t, " \t"); k > 0 {
			w = t[:k]
		}
		if keywords[w] {
			cls = append(cls, cl{w, strings.TrimSpace(t[len(w):]), i + 1})
		} else {
			if len(cls) == 0 {
				return fmt.Errorf("line %d: unexpected text", i+1)
			}
			cls[len(cls)-1].text += " " + t
		}
	}
	var cur *Contract
	var lem *Lemma
	var loop *LoopSpec
	var pkg *types.Package
	clause := func(c cl) *Clause {
		return &Clause{Text: c.text, Expr: parseExpr(c.text), Line: c.line}
	}
	for _, c := range cls {
		line = c.line
		switch c.kw {
		case "package":
			pkg = P.pkgByRel(c.text)
			if pkg == nil {
				return fmt.Errorf("line %d: unknown package %s", c.line, c.text)
			}
		case "func", "invoke":
			key := c.text
			cur = &Contract{Key: key, File: file, Line: c.line, Loops: map[int]*LoopSpec{}, pkg: pkg}
			lem, loop = nil, nil
			if _, dup := P.contracts[key]; dup {
				return fmt.Errorf("line %d: duplicate contract %s", c.line, key)
			}
			if c.kw == "invoke" {
				cur.Trusted = true
				cur.Invoke = true
			}
			P.contracts[key] = cur
			P.conOrder = append(P.conOrder, key)
		case "property":
			ps := strings.FieldsFunc(c.text, func(r rune) bool { return r == 0x2c || r == 0x20 || r == 0x09 })
			if lem != nil {
				lem.Props = ps
			} else {
				cur.Props = append(cur.Props, ps...)
			}
		case "requires":
			if lem != nil {
				lem.Requires = append(lem.Requires, clause(c))
			} else {
				cur.Requires = append(cur.Requires, clause(c))
			}
		case "given":
			// assumed precondition: introduces labels, callers do not prove it
			k := clause(c)
			k.Trusted = true
			cur.Requires = append(cur.Requires, k)
		case "ensures":
			if lem != nil {
				lem.Ensures = append(lem.Ensures, clause(c))
			} else {
				cur.Ensures = append(cur.Ensures, clause(c))
			}
		case "assume":
			// assumed postcondition: used by callers, not proved
			k := clause(c)
			k.Trusted = true
			cur.Ensures = append(cur.Ensures, k)
		case "modifies":
			for _, part := range splitTop(c.text) {
				cur.Modifies = append(cur.Modifies, parseMod(part))
			}
		case "loop":
			n, e := strconv.Atoi(strings.TrimSpace(c.text))
			if e != nil {
				return fmt.Errorf("line %d: bad loop ordinal", c.line)
			}
			loop = &LoopSpec{}
			cur.Loops[n] = loop
		case "endloop", "end":
			loop = nil
		case "invariant":
			loop.Invs = append(loop.Invs, clause(c))
		case "decreases":
			if loop == nil {
				for _, part := range splitTop(c.text) {
					cur.Decreases = append(cur.Decreases, &Clause{Text: c.text, Expr: parseExpr(part), Line: c.line})
				}
				break
			}
			for _, part := range splitTop(c.text) {
				loop.Decreases = append(loop.Decreases, &Clause{Text: c.text, Expr: parseExpr(part), Line: c.line})
			}
		case "math":
			if lem != nil {
				lem.Math = true
			} else {
				cur.Math = true
			}
		case "trusted":
			if lem != nil {
				lem.Trusted = true
			} else {
				cur.Trusted = true
			}
		case "noverify":
			cur.NoVerify = true
		case "pure":
			cur.Pure = true
		case "readsheap":
			cur.readsHeap = true
		case "noreturn":
			cur.NoReturn = true
		case "maypanic":
			cur.MayPanic = true
		case "pointers":
			cur.PtrImpls = true
		case "nilrecv":
			cur.NilRecv = true
		case "float":
			cur.Float = c.text
		case "note":
			cur.Note += c.text + " "
		case "panics":
			t := strings.TrimSpace(strings.TrimPrefix(c.text, "when"))
			cur.PanicsWhen = &Clause{Text: t, Expr: parseExpr(t), Line: c.line}
		case "define":
			k := strings.Index(c.text, ":=")
			if k < 0 {
				return fmt.Errorf("line %d: define without :=", c.line)
			}
			name, params := parseSig(c.text[:k])
			if P.macros[name] != nil {
				return fmt.Errorf("line %d: %s is already defined", c.line, name)
			}
			P.macros[name] = &Macro{Name: name, Params: params, Body: parseExpr(c.text[k+2:]), Text: c.text, pkg: pkg}
		case "sum":
			k := strings.Index(c.text, ":=")
			if k < 0 {
				return fmt.Errorf("line %d: sum without :=", c.line)
			}
			name, params := parseSig(c.text[:k])
			if P.sums[name] != nil || P.macros[name] != nil || len(params) != 1 {
				return fmt.Errorf("line %d: sum %s: defined twice, or not one parameter", c.line, name)
			}
			P.sums[name] = &Macro{Name: name, Params: params, Body: parseExpr(c.text[k+2:]), Text: c.text, pkg: pkg}
		case "function":
			name, params := parseSig(c.text)
			k := strings.LastIndex(c.text, ")")
			fd := &FuncDecl{Name: name, Res: strings.TrimSpace(c.text[k+1:])}
			for _, p := range params {
				fd.Args = append(fd.Args, p.Type)
			}
			P.funcs[name] = fd
		case "ghost":
			name, params := parseSig(c.text)
			k := strings.LastIndex(c.text, ")")
			g := &GhostDecl{Name: name, Res: strings.TrimSpace(c.text[k+1:])}
			for _, p := range params {
				g.Args = append(g.Args, p.Type)
			}
			P.ghosts = append(P.ghosts, g)
		case "ghostset":
			k := strings.Index(c.text, ":=")
			name, params := parseSig(c.text[:k])
			gu := &GhostUpd{Name: name, Expr: parseExpr(c.text[k+2:]), Text: c.text}
			for _, p := range params {
				gu.Vars = append(gu.Vars, p.Name)
			}
			cur.Ghosts = append(cur.Ghosts, gu)
		case "axiom":
			k := strings.Index(c.text, ":")
			P.axioms = append(P.axioms, &Axiom{Name: strings.TrimSpace(c.text[:k]), Text: c.text[k+1:], Expr: parseExpr(c.text[k+1:]), pkg: pkg})
		case "lemma":
			name, params := parseSig(c.text)
			lem = &Lemma{Name: name, Params: params}
			loop = nil
			P.lemmas[name] = lem
			P.lemOrder = append(P.lemOrder, name)
		case "induct":
			lem.Induct = c.text
		case "use":
			if lem != nil {
				lem.Uses = append(lem.Uses, clause(c))
			} else if loop != nil {
				loop.Uses = append(loop.Uses, clause(c))
			} else {
				cur.Uses = append(cur.Uses, clause(c))
			}
		case "useend":
			loop.UsesEnd = append(loop.UsesEnd, clause(c))
		case "hint":
			k, v, _ := strings.Cut(c.text, ":")
			cur.Hints = append(cur.Hints, &Hint{strings.TrimSpace(k), strings.Fields(v)})
		case "useret":
			cur.UsesRet = append(cur.UsesRet, clause(c))
		}
	}
	return nil
}

// parseSig parses name(a, b int, c T).
func parseSig(s string) (string, []QVar) {
	p := &sparser{toks: lexSpec(s), src: s}
	name := p.ident()
	var vars []QVar
	p.expect("(")
	var pending []string
	for !p.accept(")") {
		// either "name type" or "name" or bare type
		if p.isOp("*") || p.isOp("[") {
			ty := p.typeName()
			vars = append(vars, QVar{"", ty})
			p.accept(",")
			continue
		}
		n := p.ident()
		if p.isOp(",") || p.isOp(")") {
			pending = append(pending, n)
			p.accept(",")
			continue
		}
		if p.isOp(".") {
			p.next()
			vars = append(vars, QVar{"", n + "." + p.ident()})
			p.accept(",")
			continue
		}
		ty := p.typeName()
		for _, q := range pending {
			vars = append(vars, QVar{q, ty})
		}
		pending = nil
		vars = append(vars, QVar{n, ty})
		p.accept(",")
	}
	for _, q := range pending {
		if q == "int" || q == "bool" || q == "string" || q == "any" {
			vars = append(vars, QVar{"", q})
		} else {
			vars = append(vars, QVar{q, "int"})
		}
	}
	return name, vars
}

func splitTop(s string) []string {
	var out []string
	d := 0
	st := 0
	for i, c := range s {
		switch c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	out = append(out, strings.TrimSpace(s[st:]))
	return out
}

func parseMod(s string) *ModClause {
	m := &ModClause{Text: s}
	if k := strings.Index(s, " if "); k >= 0 && strings.HasPrefix(s, "any ") {
		m.Cond = parseExpr(s[k+4:])
		s = strings.TrimSpace(s[:k])
	}
	switch {
	case strings.HasPrefix(s, "any "):
		rest := strings.TrimSpace(s[4:])
		m.Kind = "any"
		if strings.HasPrefix(rest, "[]") || strings.HasPrefix(rest, "map[") || strings.HasPrefix(rest, "ptr ") {
			m.TypeName = strings.TrimPrefix(rest, "ptr ")
			return m
		}
		k := strings.LastIndex(rest, ".")
		m.TypeName, m.Field = rest[:k], rest[k+1:]
		return m
	case strings.HasPrefix(s, "global "):
		m.Kind = "global"
		rest := strings.TrimSpace(s[7:])
		m.TypeName = rest
		if k := strings.LastIndex(rest, "."); k >= 0 {
			m.Field = rest[k+1:]
		} else {
			m.Field = rest
		}
		return m
	case strings.HasPrefix(s, "elems(") && strings.HasSuffix(s, ")"):
		m.Kind = "elems"
		m.Base = parseExpr(s[6 : len(s)-1])
		return m
	case strings.HasPrefix(s, "map(") && strings.HasSuffix(s, ")"):
		m.Kind = "map"
		m.Base = parseExpr(s[4 : len(s)-1])
		return m
	case strings.HasPrefix(s, "*"):
		m.Kind = "field"
		m.Field = "*"
		m.Base = parseExpr(s[1:])
		return m
	}
	k := strings.LastIndex(s, ".")
	if k < 0 {
		panic(specErr("bad modifies clause: " + s))
	}
	m.Kind = "field"
	m.Field = s[k+1:]
	m.Base = parseExpr(s[:k])
	return m
}
