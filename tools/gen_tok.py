#!/usr/bin/env python3
# Generates the part of contracts/tok.spec which lists the token types of internal/tok.
import re, sys
src = open('/repo/internal/tok/token.go').read()
types = re.findall(r'^\t(\w+)\s+struct\{ position \}', src, re.M)
out = ['''# GENERATED by tools/gen_tok.py: every token is its position
package internal/tok

# posOf: the position of a token
function posOf(any) any
define tpos(t any) := as(posOf(t), position)
define startOf(t any) := as(posOf(t), position).start
define endOf(t any) := as(posOf(t), position).end
define lineOf(t any) := as(posOf(t), position).line
define colOf(t any) := as(posOf(t), position).column''']
for t in types:
    out.append(f'axiom posOf{t}: forall x any :: {{posOf(x)}} typeis(x, {t}) ==> posOf(x) == box(position, as(x, {t}).position)')
for m, f in [('Start', 'start'), ('End', 'end'), ('Line', 'line'), ('Column', 'column'), ('Src', 'src'), ('Path', 'path')]:
    out.append(f'''
func internal/tok.position.{m}
  property C12, C18
  ensures result == pos.{f}
invoke internal/tok.Token.{m}
  property C12, C18
  pure
  ensures result == tpos(recv).{f}''')
out.append('''
func internal/tok.Join
  property C12, C18
  requires tok1 != nil && tok2 != nil && tpos(tok1).path == tpos(tok2).path && startOf(tok1) <= startOf(tok2)
  ensures typeis(result, None) && startOf(result) == startOf(tok1) && endOf(result) == endOf(tok2) && lineOf(result) == lineOf(tok1) && colOf(result) == colOf(tok1) && tpos(result).src == tpos(tok1).src && tpos(result).path == tpos(tok1).path
''')
open('/verif/contracts/tok.spec', 'w').write('\n'.join(out))
