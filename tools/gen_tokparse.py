#!/usr/bin/env python3
# Generates contracts/tokparse.spec: the tokenizer, internal/tok/parse.go
out = [r'''# GENERATED by tools/gen_tokparse.py
# Tokenizer: internal/tok
package internal/tok

# line of the byte with index i: 1 + number of newlines before it
function lineAt(any, int) int
axiom lineAtStart: forall s []byte :: {lineAt(box([]byte, s), 0)} lineAt(box([]byte, s), 0) == 1
axiom lineAtStep: forall s []byte, i, j :: {lineAt(box([]byte, s), i), lineAt(box([]byte, s), j)} 0 <= i && j == i + 1 && j <= len(s) ==> lineAt(box([]byte, s), j) == lineAt(box([]byte, s), i) + ite(s[i] == '\n', 1, 0)
# text between tokens: blanks and comments
function blank(any, int, int) bool
axiom blankNone: forall s any, a :: {blank(s, a, a)} blank(s, a, a)
axiom blankSpace: forall s []byte, a, b, c :: {blank(box([]byte, s), a, b), blank(box([]byte, s), a, c)} blank(box([]byte, s), a, b) && c == b + 1 && 0 <= b && b < len(s) && s[b] == ' ' ==> blank(box([]byte, s), a, c)
axiom blankComment: forall s []byte, a, b :: {blank(box([]byte, s), a, b)} 0 <= a && a < b && b <= len(s) && s[a] == '#' && noNl(s, a, b) && (b == len(s) || s[b] == '\n') ==> blank(box([]byte, s), a, b)
axiom blankJoin: forall s any, a, b, c :: {blank(s, a, b), blank(s, b, c)} blank(s, a, b) && blank(s, b, c) ==> blank(s, a, c)

define noNl(s []byte, a int, b int) := forall k :: {s[k]} a <= k && k < b ==> s[k] != '\n'
# c is the column of the byte with index i
define colOk(s []byte, i int, c int) := 1 <= c && c <= i + 1 && (c == i + 1 || s[i - c] == '\n') && noNl(s, i - c + 1, i)
define twf(c *context) := c != nil && 0 <= c.idx && c.idx <= len(c.src) && 0 <= c.indent && c.indent <= c.idx && c.line == lineAt(box([]byte, c.src), c.idx) && 1 <= c.line && c.line <= c.idx + 1 && colOk(c.src, c.idx, c.idx - c.nlIdx)
# the token starts at the position of the context and ends at index e
define hereP(p position, c *context, e int) := p.start == c.idx && p.end == e && p.line == c.line && p.column == c.idx - c.nlIdx && p.src == c.src && p.path == c.path
define here(t any, c *context, e int) := hereP(tpos(t), c, e)
# exact position within the text
define placedS(p position, s []byte, pa string) := 0 <= p.start && p.start <= p.end && p.end < len(s) && 1 <= p.line && p.line <= p.start + 1 && p.src == s && p.path == pa && p.line == lineAt(box([]byte, s), p.start) && colOk(s, p.start, p.column)
define placedP(p position, c *context) := placedS(p, c.src, c.path)
define tplaced(t any, c *context) := placedS(tpos(t), c.src, c.path)
# an error with a position within the text
define errOkS(e any, s []byte, pa string) := typeis(e, Error) && len(as(e, Error).Toks) > 0 && forall k :: {as(e, Error).Toks[k]} 0 <= k && k < len(as(e, Error).Toks) ==> as(e, Error).Toks[k] != nil && placedS(tpos(as(e, Error).Toks[k]), s, pa)
define errOk(e any, c *context) := errOkS(e, c.src, c.path)
# the token lies within its source text
define srcOf(t any) := as(posOf(t), position).src
define pathOf(t any) := as(posOf(t), position).path
define inText(t any) := t != nil && 0 <= startOf(t) && startOf(t) <= endOf(t) && (endOf(t) < len(srcOf(t)) || typeis(t, Eof) && startOf(t) == endOf(t) && endOf(t) == len(srcOf(t))) && 1 <= lineOf(t) && lineOf(t) <= startOf(t) + 1 && 1 <= colOf(t) && colOf(t) <= startOf(t) + 1
define posErr(e any) := typeis(e, Error) && len(as(e, Error).Toks) > 0 && forall k :: {as(e, Error).Toks[k]} 0 <= k && k < len(as(e, Error).Toks) ==> inText(as(e, Error).Toks[k])
# nothing but the position changes
define same(c *context) := c.src == old(c.src) && c.path == old(c.path)
define moved(c *context) := twf(c) && same(c) && c.idx > old(c.idx)
define letter(b int) := 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z'
define digit(b int) := '0' <= b && b <= '9'
define hexDigit(b int) := digit(b) || 'a' <= b && b <= 'f' || 'A' <= b && b <= 'F'
define afterNum(b int) := b == ' ' || b == '\t' || b == '\n' || b == '(' || b == ')' || b == ']' || b == '-' || b == '+' || b == '*' || b == '/' || b == '%' || b == '=' || b == '<' || b == '>' || b == ';' || b == ':' || b == ',' || b == '|' || b == '&' || b == '!'
define metaByte(b int) := b == '-' || b == 'u' || b == 'U' || b == 'w' || b == 'W' || b == 'x' || b == 'X' || b == 'z' || b == 'Z'
define wordByte(b int) := letter(b) || digit(b) || b == '_' || b == '-' || b == '.'

func internal/tok.context.end
  property C12, C18
  ensures result == (ctx.idx >= len(ctx.src))
func internal/tok.context.col
  property C12, C18
  given -1 <= ctx.nlIdx && ctx.nlIdx <= len(ctx.src) && 0 <= idx && idx <= len(ctx.src)
  ensures result == idx - ctx.nlIdx
func internal/tok.context.pos
  property C12, C18
  given -1 <= ctx.nlIdx && ctx.nlIdx <= len(ctx.src) && 0 <= ctx.idx && ctx.idx <= len(ctx.src)
  ensures result.start == ctx.idx && result.end == ctx.idx && result.line == ctx.line && result.column == ctx.idx - ctx.nlIdx && result.src == ctx.src && result.path == ctx.path
func internal/tok.context.byte
  property C12, C18
  given 0 <= ctx.idx && ctx.idx <= len(ctx.src)
  ensures ctx.idx < len(ctx.src) ==> result == ctx.src[ctx.idx]
  ensures ctx.idx >= len(ctx.src) ==> result == 0
func internal/tok.context.nextByte
  property C12, C18
  given 0 <= ctx.idx && ctx.idx <= len(ctx.src)
  ensures ctx.idx + 1 < len(ctx.src) ==> result == ctx.src[ctx.idx + 1]
  ensures ctx.idx + 1 >= len(ctx.src) ==> result == 0
func internal/tok.isDigit
  property C12, C18
  ensures result == digit(b)
func internal/tok.isHexDigit
  property C12, C18
  ensures result == hexDigit(b)
func internal/tok.isLetter
  property C12, C18
  ensures result == letter(b)
func internal/tok.isValidAfterNumber
  property C12, C18
  ensures result == afterNum(b)
func internal/tok.lastToken
  property C12, C18
  ensures result1 == (len(toks) > 0)
  ensures result1 ==> result0 == toks[len(toks) - 1]

# the longest word which starts at the index
func internal/tok.getWord
  property C12, C18
  requires 0 <= idx && idx < len(src)
  loop 0
    invariant idx <= endIdx && endIdx <= len(src)
    invariant forall k :: {src[k]} idx <= k && k < endIdx ==> wordByte(src[k])
    invariant hasHyphen == exists k :: {src[k]} idx <= k && k < endIdx && src[k] == '-'
    invariant hasDot == exists k :: {src[k]} idx <= k && k < endIdx && src[k] == '.'
    decreases len(src) - endIdx
  ensures idx + len(result0) <= len(src) && result0 == src[idx:idx + len(result0)]
  ensures forall k :: {src[k]} idx <= k && k < idx + len(result0) ==> wordByte(src[k])
  ensures idx + len(result0) == len(src) || !wordByte(src[idx + len(result0)])
  ensures result1 == exists k :: {src[k]} idx <= k && k < idx + len(result0) && src[k] == '-'
  ensures result2 == exists k :: {src[k]} idx <= k && k < idx + len(result0) && src[k] == '.'
''']
MOD = '  modifies ctx.idx, ctx.line, ctx.nlIdx, ctx.indent'
one = {'NegationOperator': ('Neg', '!'), 'AssignmentOperator': ('Ass', '='), 'AdditionOperator': ('Add', '+'), 'SubtractionOperator': ('Sub', '-'),
       'RemainderOperator': ('Rem', '%'), 'MultiplicationOperator': ('Mul', '*'), 'DivisionOperator': ('Div', '/'), 'LessThanOperator': ('Less', '<'),
       'GreaterThanOperator': ('Greater', '>'), 'LeftParenthesis': ('LParen', '('), 'RightParenthesis': ('RParen', ')'), 'LeftBracket': ('LBracket', '['),
       'RightBracket': ('RBracket', ']'), 'BitAnd': ('BitAnd', '&'), 'BitOr': ('BitOr', '|')}
two = {'NonequalityOperator': ('Neq', '!='), 'EqualityOperator': ('Eq', '=='), 'ExponentiationOperator': ('Exp', '**'), 'LessThanEqualOperator': ('LessEq', '<='),
       'LeftShiftOperator': ('LShift', '<<'), 'GreaterThanEqualOperator': ('GreaterEq', '>='), 'RightShiftOperator': ('RShift', '>>'),
       'LogicalAnd': ('And', '&&'), 'LogicalOr': ('Or', '||')}
for f, (t, c) in list(one.items()) + list(two.items()):
    n = len(c)
    pre = ' && '.join(["ctx.src[ctx.idx%s] == '%s'" % (' + %d' % i if i else '', ch) for i, ch in enumerate(c)])
    out.append(f'''func internal/tok.parse{f}
  property C12, C18
  requires twf(ctx) && ctx.idx + {n} <= len(ctx.src) && {pre}
  modifies ctx.idx
  ensures moved(ctx) && ctx.idx == old(ctx.idx) + {n} && old(hereP(result.position, ctx, ctx.idx + {n - 1}))
''')
for f, t, c in [('Comma', 'Comma', ','), ('Semicolon', 'Semicolon', ';')]:
    out.append(f'''func internal/tok.parse{f}
  property C12, C18
  requires twf(ctx) && ctx.idx < len(ctx.src) && ctx.src[ctx.idx] == '{c}'
  modifies ctx.idx
  ensures result1 == nil ==> typeis(result0, {t}) && moved(ctx) && ctx.idx == old(ctx.idx) + 1 && old(here(result0, ctx, ctx.idx))
  ensures result1 != nil ==> errOk(result1, ctx) && same(ctx)
''')
out.append('''func internal/tok.parseColon
  property C12, C18
  requires twf(ctx) && ctx.idx < len(ctx.src) && ctx.src[ctx.idx] == ':'
  modifies ctx.idx
  ensures typeis(result, Colon) && moved(ctx) && ctx.idx == old(ctx.idx) + 1 && old(here(result, ctx, ctx.idx))
''')

out.append(r'''define TOKSKEEP(toks *[]Token, n int) := len(*toks) >= n && forall k :: {(*toks)[k]} {old((*toks)[k])} 0 <= k && k < n ==> (*toks)[k] == old((*toks)[k])
define sameArr(toks *[]Token) := arr(*toks) == old(arr(*toks)) && off(*toks) == old(off(*toks)) && cap(*toks) == old(cap(*toks)) || fresh(*toks)
define allBlank(s []byte, a int, b int) := forall k :: {s[k]} a <= k && k < b ==> s[k] == ' '

func internal/tok.parseTab
  property C12, C18
  requires twf(ctx) && ctx.idx < len(ctx.src)
  ensures errOk(result, ctx)

func internal/tok.parseIndent
  property C12, C18
  requires twf(ctx) && toks != nil && ctx.idx < len(ctx.src) && ctx.src[ctx.idx] == ' '
  modifies ctx.idx, ctx.indent, *toks, elems(*toks)
  loop 0
    invariant twf(ctx) && same(ctx) && spaceCount == ctx.idx - old(ctx.idx) && spaceCount >= 0
    invariant ctx.line == old(ctx.line)
    invariant allBlank(ctx.src, old(ctx.idx), ctx.idx) && blank(box([]byte, ctx.src), old(ctx.idx), ctx.idx)
    decreases len(ctx.src) - ctx.idx
  loop 1
    invariant 0 <= i && indentLvl + i <= ctx.indent && len(*toks) == old(len(*toks)) + i && ctx.indent == old(ctx.indent)
    invariant TOKSKEEP(toks, old(len(*toks)))
    invariant sameArr(toks)
    invariant forall k :: {(*toks)[k]} old(len(*toks)) <= k && k < len(*toks) ==> (*toks)[k] == box(Dedent, t)
    decreases ctx.indent - indentLvl - i
  ensures result1 == nil ==> moved(ctx) && ctx.line == old(ctx.line) && ctx.idx - old(ctx.idx) == 2 * ctx.indent
  ensures result1 == nil ==> allBlank(ctx.src, old(ctx.idx), ctx.idx) && blank(box([]byte, ctx.src), old(ctx.idx), ctx.idx) && (ctx.idx == len(ctx.src) || ctx.src[ctx.idx] != ' ' && ctx.src[ctx.idx] != '\n')
  ensures result1 == nil ==> TOKSKEEP(toks, old(len(*toks)))
  ensures result1 == nil ==> sameArr(toks)
  ensures result1 == nil ==> typeis(result0, Indent) || typeis(result0, None)
  # one level more
  ensures result1 == nil && typeis(result0, Indent) ==> ctx.indent == old(ctx.indent) + 1 && here(result0, old(ctx), 0)
  # as many dedents as levels are closed
  ensures result1 == nil && typeis(result0, None) ==> ctx.indent <= old(ctx.indent) && len(*toks) == old(len(*toks)) + old(ctx.indent) - ctx.indent
  ensures result1 == nil && typeis(result0, None) ==> newDedents(*toks, old(len(*toks)), ctx, old(ctx.idx))
  ensures result1 != nil ==> errOk(result1, ctx) && same(ctx)
'''.replace('here(result0, old(ctx), 0)', 'startOf(result0) == old(ctx.idx) && endOf(result0) == ctx.idx - 1 && tplaced(result0, ctx) && len(*toks) == old(len(*toks))'))

# the text is advanced over bytes which are not newlines
out.append(r"""lemma lineSame(s []byte, i int, j int)
  property C12, C18
  requires 0 <= i && i <= j && j <= len(s) && noNl(s, i, j)
  induct j
  ensures lineAt(box([]byte, s), j) == lineAt(box([]byte, s), i)

define lastPlaced(toks []Token, c *context) := len(toks) > 0 ==> toks[len(toks) - 1] != nil && tplaced(toks[len(toks) - 1], c) && endOf(toks[len(toks) - 1]) <= c.idx
define lastIs0(toks []Token) := len(toks) > 0 && (typeis(toks[len(toks) - 1], Newline) || typeis(toks[len(toks) - 1], Indent) || typeis(toks[len(toks) - 1], Dedent))
define newDedents(toks []Token, a int, c *context, at int) := forall k :: {toks[k]} a <= k && k < len(toks) ==> typeis(toks[k], Dedent) && tplaced(toks[k], c) && startOf(toks[k]) == at && endOf(toks[k]) <= c.idx

func internal/tok.parseNewline
  property C12, C18
  requires twf(ctx) && toks != nil && ctx.idx < len(ctx.src) && ctx.src[ctx.idx] == '\n' && lastPlaced(*toks, ctx)
  modifies ctx.idx, ctx.indent, ctx.nlIdx, ctx.line, *toks, elems(*toks)
  loop 0
    invariant twf(ctx) && same(ctx) && ctx.indent == old(ctx.indent) && ctx.idx >= old(ctx.idx) && ctx.idx < len(ctx.src) && ctx.src[ctx.idx] == '\n'
    invariant nl.position.end == ctx.idx && nl.position.start == old(ctx.idx) && nl.position.line == old(ctx.line) && nl.position.column == old(ctx.idx - ctx.nlIdx) && nl.position.src == ctx.src && nl.position.path == ctx.path
    invariant forall k :: {ctx.src[k]} old(ctx.idx) <= k && k <= ctx.idx ==> ctx.src[k] == '\n'
    invariant TOKSKEEP(toks, old(len(*toks))) && *toks == old(*toks)
    decreases len(ctx.src) - ctx.idx
  loop 1
    invariant 0 <= $n && $n <= ctx.indent && len(*toks) == old(len(*toks)) + 1 + $n && ctx.indent == old(ctx.indent)
    invariant TOKSKEEP(toks, old(len(*toks)))
    invariant (*toks)[old(len(*toks))] == box(Newline, nl)
    invariant sameArr(toks)
    invariant forall k :: {(*toks)[k]} old(len(*toks)) + 1 <= k && k < len(*toks) ==> (*toks)[k] == box(Dedent, t)
    decreases ctx.indent - $n
  ensures result == nil ==> moved(ctx) && (ctx.idx == len(ctx.src) || ctx.src[ctx.idx] != '\n')
  ensures result == nil ==> forall k :: {ctx.src[k]} old(ctx.idx) <= k && k < ctx.idx ==> ctx.src[k] == '\n'
  ensures result == nil ==> TOKSKEEP(toks, old(len(*toks))) && (sameArr(toks))
  ensures result == nil ==> len(*toks) == old(len(*toks)) + 1 + old(ctx.indent) - ctx.indent
  ensures result == nil ==> typeis((*toks)[old(len(*toks))], Newline) && tplaced((*toks)[old(len(*toks))], ctx) && startOf((*toks)[old(len(*toks))]) == old(ctx.idx) && endOf((*toks)[old(len(*toks))]) == ctx.idx - 1
  ensures result == nil ==> newDedents(*toks, old(len(*toks)) + 1, ctx, ctx.idx)
  ensures result == nil ==> ctx.indent == ite(ctx.idx == len(ctx.src) || ctx.src[ctx.idx] == ' ', old(ctx.indent), 0)
  ensures result != nil ==> errOk(result, ctx) && same(ctx)

func internal/tok.parseSpace
  property C12, C18
  requires twf(ctx) && toks != nil && ctx.idx < len(ctx.src) && ctx.src[ctx.idx] == ' '
  modifies ctx.idx, ctx.indent, *toks, elems(*toks)
  loop 0
    invariant twf(ctx) && same(ctx) && ctx.idx > old(ctx.idx) && ctx.line == old(ctx.line) && ctx.indent == old(ctx.indent)
    invariant allBlank(ctx.src, old(ctx.idx), ctx.idx) && blank(box([]byte, ctx.src), old(ctx.idx), ctx.idx)
    invariant *toks == old(*toks)
    decreases len(ctx.src) - ctx.idx
  ensures result1 == nil ==> moved(ctx)
  ensures result1 == nil ==> blank(box([]byte, ctx.src), old(ctx.idx), ctx.idx) && (ctx.idx == len(ctx.src) || ctx.src[ctx.idx] != ' ' && ctx.src[ctx.idx] != '\n')
  ensures result1 == nil ==> TOKSKEEP(toks, old(len(*toks))) && (sameArr(toks))
  ensures result1 == nil ==> typeis(result0, Indent) || typeis(result0, None)
  ensures result1 == nil && !old(len(*toks) > 0 && typeis((*toks)[len(*toks) - 1], Newline)) ==> typeis(result0, None) && *toks == old(*toks) && ctx.indent == old(ctx.indent)
  ensures result1 == nil && typeis(result0, Indent) ==> ctx.indent == old(ctx.indent) + 1 && startOf(result0) == old(ctx.idx) && endOf(result0) == ctx.idx - 1 && tplaced(result0, ctx) && len(*toks) == old(len(*toks))
  ensures result1 == nil && typeis(result0, None) ==> ctx.indent <= old(ctx.indent) && len(*toks) == old(len(*toks)) + old(ctx.indent) - ctx.indent
  ensures result1 == nil && typeis(result0, None) ==> newDedents(*toks, old(len(*toks)), ctx, old(ctx.idx))
  ensures result1 != nil ==> errOk(result1, ctx) && same(ctx)

func internal/tok.parseComment
  property C12, C18
  requires twf(ctx) && ctx.idx < len(ctx.src) && ctx.src[ctx.idx] == '#'
  modifies ctx.idx
  loop 0
    invariant twf(ctx) && same(ctx) && ctx.idx >= old(ctx.idx) && ctx.idx < len(ctx.src) && noNl(ctx.src, old(ctx.idx), ctx.idx + 1) && ctx.line == old(ctx.line)
    invariant t.position.start == old(ctx.idx) && t.position.line == old(ctx.line) && t.position.column == old(ctx.idx - ctx.nlIdx) && t.position.src == ctx.src && t.position.path == ctx.path
    decreases len(ctx.src) - ctx.idx
  ensures moved(ctx) && blank(box([]byte, ctx.src), old(ctx.idx), ctx.idx) && noNl(ctx.src, old(ctx.idx), ctx.idx) && (ctx.idx == len(ctx.src) || ctx.src[ctx.idx] == '\n')
  ensures typeis(result, None) || typeis(result, Comment)
  ensures typeis(result, Comment) == (len(toks) == 0 || lastIs0(toks))
  ensures typeis(result, Comment) ==> startOf(result) == old(ctx.idx) && endOf(result) == ctx.idx - 1 && tplaced(result, ctx)

func internal/tok.parseString
  property C12, C18
  requires twf(ctx) && ctx.idx < len(ctx.src) && ctx.src[ctx.idx] == '"'
  modifies ctx.idx, ctx.line, ctx.nlIdx
  loop 0
    invariant same(ctx) && ctx.idx >= old(ctx.idx) && ctx.idx < len(ctx.src) && ctx.indent == old(ctx.indent)
    invariant ctx.line == lineAt(box([]byte, ctx.src), ctx.idx + 1) && 1 <= ctx.line && ctx.line <= ctx.idx + 2 && colOk(ctx.src, ctx.idx + 1, ctx.idx + 1 - ctx.nlIdx)
    invariant t.position.start == old(ctx.idx) && t.position.end == ctx.idx && t.position.line == old(ctx.line) && t.position.column == old(ctx.idx - ctx.nlIdx) && t.position.src == ctx.src && t.position.path == ctx.path
    invariant forall k :: {ctx.src[k]} old(ctx.idx) < k && k <= ctx.idx ==> ctx.src[k] != '"'
    decreases len(ctx.src) - ctx.idx
  ensures result1 == nil ==> moved(ctx) && ctx.idx >= old(ctx.idx) + 2 && result0.position.start == old(ctx.idx) && result0.position.end == ctx.idx - 1 && placedP(result0.position, ctx)
  ensures result1 == nil ==> ctx.src[ctx.idx - 1] == '"' && forall k :: {ctx.src[k]} old(ctx.idx) < k && k < ctx.idx - 1 ==> ctx.src[k] != '"'
  ensures result1 != nil ==> errOk(result1, ctx) && same(ctx)
""")
for f, chk in [('Bin', "(ctx.src[k] == '0' || ctx.src[k] == '1' || metaByte(ctx.src[k]))"), ('Octal', "('0' <= ctx.src[k] && ctx.src[k] <= '7' || metaByte(ctx.src[k]))"), ('Hex', "(hexDigit(ctx.src[k]) || metaByte(ctx.src[k]))")]:
    out.append(fr"""func internal/tok.parse{f}BitString
  property C12, C18
  requires twf(ctx) && ctx.idx + 1 < len(ctx.src) && ctx.src[ctx.idx] != '\n' && ctx.src[ctx.idx + 1] == '"'
  modifies ctx.idx
  loop 0
    invariant twf(ctx) && same(ctx) && ctx.idx >= old(ctx.idx) + 2 && ctx.line == old(ctx.line)
    invariant t.position.start == old(ctx.idx) && t.position.end == ctx.idx - 1 && t.position.line == old(ctx.line) && t.position.column == old(ctx.idx - ctx.nlIdx) && t.position.src == ctx.src && t.position.path == ctx.path
    invariant forall k :: {{ctx.src[k]}} old(ctx.idx) + 2 <= k && k < ctx.idx ==> {chk}
    decreases len(ctx.src) - ctx.idx
  ensures result1 == nil ==> typeis(result0, BitString) && moved(ctx) && ctx.idx >= old(ctx.idx) + 3 && startOf(result0) == old(ctx.idx) && endOf(result0) == ctx.idx - 1 && tplaced(result0, ctx)
  ensures result1 == nil ==> ctx.src[ctx.idx - 1] == '"' && forall k :: {{ctx.src[k]}} old(ctx.idx) + 2 <= k && k < ctx.idx - 1 ==> {chk}
  ensures result1 != nil ==> errOk(result1, ctx) && same(ctx)
""")
for f, l, chk in [('Bin', 'b', "(ctx.src[k] == '0' || ctx.src[k] == '1')"), ('Octal', 'o', "('0' <= ctx.src[k] && ctx.src[k] <= '7')"), ('Hex', 'x', "hexDigit(ctx.src[k])")]:
    out.append(fr"""func internal/tok.parse{f}Int
  property C12, C18
  requires twf(ctx) && ctx.idx + 1 < len(ctx.src) && ctx.src[ctx.idx] == '0' && (ctx.src[ctx.idx + 1] == '{l}' || ctx.src[ctx.idx + 1] == '{l.upper()}')
  modifies ctx.idx
  loop 0
    invariant twf(ctx) && same(ctx) && ctx.idx >= old(ctx.idx) + 2 && ctx.line == old(ctx.line)
    invariant t.position.start == old(ctx.idx) && t.position.end == old(ctx.idx) && t.position.line == old(ctx.line) && t.position.column == old(ctx.idx - ctx.nlIdx) && t.position.src == ctx.src && t.position.path == ctx.path
    invariant forall k :: {{ctx.src[k]}} old(ctx.idx) + 2 <= k && k < ctx.idx ==> {chk}
    decreases len(ctx.src) - ctx.idx
  ensures result1 == nil ==> moved(ctx) && ctx.idx >= old(ctx.idx) + 2 && result0.position.start == old(ctx.idx) && result0.position.end == ctx.idx - 1 && placedP(result0.position, ctx)
  ensures result1 == nil ==> (ctx.idx == len(ctx.src) || afterNum(ctx.src[ctx.idx])) && forall k :: {{ctx.src[k]}} old(ctx.idx) + 2 <= k && k < ctx.idx ==> {chk}
  ensures result1 != nil ==> errOk(result1, ctx) && same(ctx)
""")
out.append(r"""func internal/tok.parseNumber
  property C12, C18
  requires twf(ctx) && ctx.idx < len(ctx.src) && digit(ctx.src[ctx.idx])
  modifies ctx.idx
  loop 0
    invariant twf(ctx) && same(ctx) && ctx.idx >= old(ctx.idx) && ctx.idx < len(ctx.src) && ctx.line == old(ctx.line)
    invariant i.position.start == old(ctx.idx) && i.position.line == old(ctx.line) && i.position.column == old(ctx.idx - ctx.nlIdx) && i.position.src == ctx.src && i.position.path == ctx.path
    invariant forall k :: {ctx.src[k]} old(ctx.idx) <= k && k <= ctx.idx ==> digit(ctx.src[k]) || hasPoint && ctx.src[k] == '.' || hasE && (ctx.src[k] == 'e' || ctx.src[k] == 'E')
    invariant hasPoint || hasE ==> exists k :: {ctx.src[k]} old(ctx.idx) <= k && k <= ctx.idx && !digit(ctx.src[k])
    decreases len(ctx.src) - ctx.idx
  ensures result1 == nil ==> (typeis(result0, Int) || typeis(result0, Float)) && moved(ctx) && startOf(result0) == old(ctx.idx) && endOf(result0) == ctx.idx - 1 && tplaced(result0, ctx)
  ensures result1 == nil ==> ctx.idx == len(ctx.src) || afterNum(ctx.src[ctx.idx])
  ensures result1 == nil ==> forall k :: {ctx.src[k]} old(ctx.idx) <= k && k < ctx.idx ==> letter(ctx.src[k]) || digit(ctx.src[k]) || ctx.src[k] == '.'
  ensures result1 == nil && typeis(result0, Float) ==> forall k :: {ctx.src[k]} old(ctx.idx) <= k && k < ctx.idx ==> digit(ctx.src[k]) || ctx.src[k] == '.' || ctx.src[k] == 'e' || ctx.src[k] == 'E'
  ensures result1 == nil && typeis(result0, Float) ==> exists k :: {ctx.src[k]} old(ctx.idx) <= k && k < ctx.idx && !digit(ctx.src[k])
  ensures result1 != nil ==> errOk(result1, ctx) && same(ctx)

func bytes.Split
  trusted
  ensures fresh(result) || cap(result) == 0
func bytes.IndexByte
  trusted
  pure
  ensures -1 <= result && result < len(b)
  ensures result >= 0 ==> b[result] == c && forall k :: {b[k]} 0 <= k && k < result ==> b[k] != c
  ensures result == -1 ==> forall k :: {b[k]} 0 <= k && k < len(b) ==> b[k] != c
func unicode.IsUpper
  trusted
  pure
func unicode.IsLower
  trusted
  pure

func internal/tok.isValidQualifiedIdentifier
  property C12, C18

func internal/tok.isPropertyPlace
  property C12, C18
  ensures result == (len(toks) == 0 || lastIs0(toks) || typeis(toks[len(toks) - 1], Semicolon))
""")
KW = {'Block': 'block', 'Bus': 'bus', 'Config': 'config', 'Const': 'const', 'Import': 'import', 'Group': 'group', 'Irq': 'irq', 'Mask': 'mask', 'Memory': 'memory', 'Param': 'param', 'Proc': 'proc', 'Return': 'return', 'Static': 'static', 'Status': 'status', 'Stream': 'stream', 'Type': 'type'}
PR = {'Access': 'access', 'AddEnable': 'add-enable', 'Align': 'align', 'Atomic': 'atomic', 'ByteWriteEnable': 'byte-write-enable', 'Clear': 'clear', 'Delay': 'delay', 'EnableInitValue': 'enable-init-value', 'EnableResetValue': 'enable-reset-value', 'InitValue': 'init-value', 'InTrigger': 'in-trigger', 'Masters': 'masters', 'OutTrigger': 'out-trigger', 'Range': 'range', 'ReadLatency': 'read-latency', 'ReadValue': 'read-value', 'Reset': 'reset', 'ResetValue': 'reset-value', 'Size': 'size', 'Virtual': 'virtual', 'Width': 'width'}
for f, tab in [('Keyword', KW), ('Property', PR)]:
    ens = ''.join(f'  ensures typeis(result, {t}) == (bstr(word) == "{w}")\n' for t, w in tab.items())
    if f == 'Keyword':
        ens += '  ensures typeis(result, Bool) == (bstr(word) == "false" || bstr(word) == "true")\n'
    any_ = ' || '.join(f'typeis(result, {t})' for t in list(tab) + (['Bool'] if f == 'Keyword' else []) + ['None'])
    out.append(fr"""func internal/tok.parse{f}
  property C12, C18
  given twf(ctx) && ctx.idx + len(word) <= len(ctx.src) && len(word) > 0
  ensures {any_}
  ensures startOf(result) == ctx.idx && endOf(result) == ctx.idx + len(word) - 1 && tplaced(result, ctx)
{ens}""")

W = 'bstr(ctx.src[old(ctx.idx):ctx.idx])'
ens = ''
for t in ['Bool', 'Const', 'Import', 'Type']:
    c = f'{W} == "false" || {W} == "true"' if t == 'Bool' else f'{W} == "{KW[t]}"'
    ens += f'  ensures result1 == nil ==> typeis(result0, {t}) == ({c})\n'
for t, w in KW.items():
    if t not in ['Const', 'Import', 'Type']:
        ens += f'  ensures result1 == nil ==> typeis(result0, {t}) == ({W} == "{w}" && old(len(*toks) > 0 && !lastIs0(*toks)))\n'
for t, w in PR.items():
    ens += f'  ensures result1 == nil ==> typeis(result0, {t}) == ({W} == "{w}" && old(propPlace(*toks)))\n'
out.append(fr"""define propPlace(toks []Token) := len(toks) == 0 || lastIs0(toks) || typeis(toks[len(toks) - 1], Semicolon)
func internal/tok.parseWord
  property C12, C18
  requires twf(ctx) && toks != nil && ctx.idx < len(ctx.src) && (letter(ctx.src[ctx.idx]) || ctx.src[ctx.idx] == '_') && lastPlaced(*toks, ctx)
  modifies ctx.idx, *toks
  useret lineSame(ctx.src, old(ctx.idx), ctx.idx)
  ensures result1 == nil ==> moved(ctx) && !typeis(result0, None) && !typeis(result0, Dedent) && !typeis(result0, Eof) && !typeis(result0, Newline) && result0 != nil
  ensures result1 == nil ==> tplaced(result0, ctx) && endOf(result0) == ctx.idx - 1
  ensures result1 == nil ==> ctx.idx == len(ctx.src) || !wordByte(ctx.src[ctx.idx]) || ctx.src[ctx.idx] == '-'
  ensures result1 == nil ==> forall k :: {{ctx.src[k]}} old(ctx.idx) <= k && k < ctx.idx ==> wordByte(ctx.src[k])
  ensures result1 == nil && !typeis(result0, Time) ==> *toks == old(*toks) && startOf(result0) == old(ctx.idx)
  # a unit after a number makes one token of them
  ensures result1 == nil && typeis(result0, Time) ==> old(len(*toks)) > 0 && typeis(old((*toks)[len(*toks) - 1]), Int) && *toks == old((*toks)[0:len(*toks) - 1]) && startOf(result0) == startOf(old((*toks)[len(*toks) - 1]))
  ensures result1 == nil ==> typeis(result0, Time) == (({W} == "ns" || {W} == "us" || {W} == "ms" || {W} == "s") && old(len(*toks) > 0 && typeis((*toks)[len(*toks) - 1], Int)))
  ensures result1 == nil ==> typeis(result0, QualIdent) ==> exists k :: {{ctx.src[k]}} old(ctx.idx) <= k && k < ctx.idx && ctx.src[k] == '.'
  ensures result1 == nil && typeis(result0, Ident) ==> forall k :: {{ctx.src[k]}} old(ctx.idx) <= k && k < ctx.idx ==> ctx.src[k] != '.'
{ens}  ensures result1 != nil ==> errOk(result1, ctx) && same(ctx)

# the end of a token; a dedent ends where it starts
define eend(t any) := ite(typeis(t, Dedent), startOf(t) - 1, endOf(t))
define adj(a any, b any, s []byte) := eend(a) < startOf(b) && blank(box([]byte, s), eend(a) + 1, startOf(b))
define tiles(toks []Token, s []byte, pa string) := (forall k :: {{toks[k]}} 0 <= k && k < len(toks) ==> toks[k] != nil && !typeis(toks[k], None) && !typeis(toks[k], Eof) && placedS(tpos(toks[k]), s, pa)) && (forall k, m :: {{toks[k], toks[m]}} 0 <= k && m == k + 1 && m < len(toks) ==> adj(toks[k], toks[m], s)) && (len(toks) > 0 ==> blank(box([]byte, s), 0, startOf(toks[0])))
func internal/tok.Parse
  property C12, C18
  loop 0
    invariant twf(ctx) && ctx.src == src && ctx.path == path
    invariant toks == nil || fresh(toks)
    invariant 0 <= len(toks)
    invariant tiles(toks, src, path)
    invariant len(toks) == 0 ==> blank(box([]byte, src), 0, ctx.idx)
    invariant len(toks) > 0 ==> eend(toks[len(toks) - 1]) < ctx.idx && endOf(toks[len(toks) - 1]) <= ctx.idx && blank(box([]byte, src), eend(toks[len(toks) - 1]) + 1, ctx.idx)
    decreases len(src) - ctx.idx
  # tokAt(i) is the name of token i of this source in the contracts of the syntax tree
  assume result1 == nil ==> forall k :: {{result0[k]}} 0 <= k && k < len(result0) ==> result0[k] == tokAt(k)
  ensures result1 == nil ==> len(result0) > 0 && tiles(result0[0:len(result0) - 1], src, path)
  ensures result1 == nil ==> typeis(result0[len(result0) - 1], Eof) && startOf(result0[len(result0) - 1]) == len(src) && endOf(result0[len(result0) - 1]) == len(src)
  ensures result1 == nil && len(result0) > 1 ==> adj(result0[len(result0) - 2], result0[len(result0) - 1], src)
  ensures result1 == nil && len(result0) == 1 ==> blank(box([]byte, src), 0, len(src))
  ensures result1 == nil ==> forall k :: {{result0[k]}} 0 <= k && k < len(result0) ==> inText(result0[k]) && pathOf(result0[k]) == path && srcOf(result0[k]) == src && (typeis(result0[k], Eof) == (k == len(result0) - 1))
  ensures result1 == nil ==> forall k, m :: {{result0[k], result0[m]}} 0 <= k && m == k + 1 && m < len(result0) ==> startOf(result0[k]) <= startOf(result0[m])
  ensures result1 != nil ==> errOkS(result1, src, path) && posErr(result1)

# ----- error messages
func strings.Builder.WriteString
  trusted
func strings.Builder.WriteRune
  trusted
func strings.Builder.Write
  trusted
func strings.Builder.String
  trusted
func github.com/mattn/go-isatty.IsTerminal
  trusted
func os.File.Fd
  trusted
func internal/tok.Error.getColor
  property C18
func internal/tok.Error.code
  property C18
  requires inText(tok)
  loop 0
    decreases lineNumWidth + 2 - $n
  loop 1
    invariant 0 <= lineStartIdx && lineStartIdx <= startOf(tok)
    decreases lineStartIdx
  loop 2
    invariant endOf(tok) < lineEndIdx && lineEndIdx <= len(src)
    decreases len(src) - lineEndIdx
  loop 3
    decreases lineNumWidth + 2 - $n
  loop 4
    invariant 1 <= col && col <= colOf(tok)
    decreases colOf(tok) - col
  loop 5
    invariant colOf(tok) <= col && col <= colOf(tok) + endOf(tok) - startOf(tok) + 1
    decreases colOf(tok) + endOf(tok) - startOf(tok) + 1 - col
func internal/tok.Error.Error
  property C18
  requires forall k :: {{err.Toks[k]}} 0 <= k && k < len(err.Toks) ==> inText(err.Toks[k])
""")
open('/verif/contracts/tokparse.spec', 'w').write('\n'.join(out) + '\n')
