# Syntax tree: declarations. Every builder leaves the cursor on a token of the stream,
# moves it forward, ends, and reports errors with a position within the text.
package internal/ast

define valOk(e Expr) := e != nil && wg(e)

func internal/ast.buildDoc
  property C18
  requires wf(ctx) && typeis(cur(ctx), tok.Comment)
  modifies ctx.idx
  loop 0
    invariant wf(ctx) && ctx.idx >= old(ctx.idx) && ctx.idx + 1 < len(ctx.toks)
    invariant fresh(doc.Lines) && len(doc.Lines) > 0
    decreases len(ctx.toks) - ctx.idx
  ensures wf(ctx) && ctx.idx > old(ctx.idx) && fresh(result.Lines) && len(result.Lines) > 0
func internal/ast.Doc.endLine
  property C18

func internal/ast.buildParamList
  property C18
  requires wf(ctx)
  modifies ctx.idx
  loop 0
    invariant wf(ctx) && ctx.idx >= old(ctx.idx) && ctx.idx + 1 < len(ctx.toks) && fresh(params) && 0 <= state && state <= 3
    invariant forall k :: {params[k]} 0 <= k && k < len(params) ==> params[k].Value == nil || valOk(params[k].Value)
    invariant p.Value == nil && (state == 3 ==> len(params) > 0)
    decreases len(ctx.toks) - ctx.idx
  ensures wf(ctx) && ctx.idx >= old(ctx.idx)
  ensures result1 == nil ==> (len(result0) > 0) == typeis(old(cur(ctx)), tok.LParen) && (result0 == nil || fresh(result0))
  ensures result1 == nil && len(result0) > 0 ==> ctx.idx > old(ctx.idx) && typeis(ctx.toks[ctx.idx - 1], tok.RParen)
  ensures result1 == nil ==> forall k :: {result0[k]} 0 <= k && k < len(result0) ==> result0[k].Value == nil || valOk(result0[k].Value)
  ensures result1 != nil ==> posErr(result1)

func internal/ast.buildArgList
  property C18
  requires wf(ctx)
  modifies ctx.idx
  loop 0
    invariant wf(ctx) && ctx.idx >= old(ctx.idx) && ctx.idx + 1 < len(ctx.toks) && fresh(argList.Args) && 0 <= state && state <= 3
    invariant forall k :: {argList.Args[k]} 0 <= k && k < len(argList.Args) ==> valOk(argList.Args[k].Value) && argList.Args[k].ValueFirstTok != nil
    invariant (state == 2 ==> len(argList.Args) > 0) && box(tok.LParen, argList.LParen) == old(cur(ctx)) && typeis(old(cur(ctx)), tok.LParen)
    decreases len(ctx.toks) - ctx.idx
  ensures wf(ctx) && ctx.idx >= old(ctx.idx)
  ensures result1 == nil ==> (len(result0.Args) > 0) == typeis(old(cur(ctx)), tok.LParen) && (cap(result0.Args) == 0 || fresh(result0.Args))
  ensures result1 == nil && len(result0.Args) > 0 ==> ctx.idx > old(ctx.idx) && ctx.toks[ctx.idx - 1] == box(tok.RParen, result0.RParen) && old(cur(ctx)) == box(tok.LParen, result0.LParen)
  ensures result1 == nil ==> forall k :: {result0.Args[k]} 0 <= k && k < len(result0.Args) ==> valOk(result0.Args[k].Value) && result0.Args[k].ValueFirstTok != nil
  ensures result1 != nil ==> posErr(result1)

func internal/ast.buildPropAssignments
  property C18
  requires wf(ctx)
  modifies ctx.idx
  loop 0
    invariant ctx != nil && ctx.toks == old(ctx.toks) && ctx.idx >= old(ctx.idx) - 1 && ctx.idx + 1 < len(ctx.toks) && fresh(props) && 0 <= state && state <= 3
    invariant state == 0 || ctx.idx >= old(ctx.idx)
    invariant state == 3 ==> len(props) > 0
    invariant forall k :: {props[k]} 0 <= k && k < len(props) ==> props[k].Name != nil && valOk(props[k].Value)
    invariant state >= 1 ==> p.Name != nil
    decreases len(ctx.toks) - ctx.idx
  ensures wf(ctx) && ctx.idx >= old(ctx.idx)
  ensures result1 == nil ==> ctx.idx > old(ctx.idx) && (typeis(cur(ctx), tok.Newline) || typeis(cur(ctx), tok.Eof)) && fresh(result0) && len(result0) > 0
  ensures result1 == nil ==> forall k :: {result0[k]} 0 <= k && k < len(result0) ==> result0[k].Name != nil && valOk(result0[k].Value)
  ensures result1 != nil ==> posErr(result1)

func internal/ast.buildSingleConst
  property C18
  requires wf(ctx) && ctx.idx + 1 < len(ctx.toks) && typeis(ctx.toks[ctx.idx + 1], tok.Ident)
  modifies ctx.idx
  ensures wf(ctx) && ctx.idx > old(ctx.idx)
  ensures result1 != nil ==> result0 == nil
  ensures result1 == nil ==> fresh(result0) && len(result0) == 1 && valOk(result0[0].Value) && span(result0[0].Value, old(ctx.idx) + 3, ctx.idx) && box(tok.Ident, result0[0].Name) == old(ctx.toks[ctx.idx + 1])
  ensures result1 != nil ==> posErr(result1)
func internal/ast.buildMultiConst
  property C18
  requires wf(ctx) && ctx.idx + 1 < len(ctx.toks) && typeis(ctx.toks[ctx.idx + 1], tok.Newline)
  modifies ctx.idx
  loop 0
    invariant wf(ctx) && ctx.idx > old(ctx.idx) && ctx.idx + 1 < len(ctx.toks) && fresh(consts) && 0 <= state && state <= 4
    invariant forall k :: {consts[k]} 0 <= k && k < len(consts) ==> valOk(consts[k].Value) && inText(box(tok.Ident, consts[k].Name))
    invariant state == 2 || state == 3 ==> inText(box(tok.Ident, con.Name))
    decreases len(ctx.toks) - ctx.idx
  ensures wf(ctx) && ctx.idx > old(ctx.idx)
  ensures result1 != nil ==> result0 == nil
  ensures result1 == nil ==> fresh(result0) && forall k :: {result0[k]} 0 <= k && k < len(result0) ==> valOk(result0[k].Value) && inText(box(tok.Ident, result0[k].Name))
  ensures result1 != nil ==> posErr(result1)
func internal/ast.buildConst
  property C18
  requires wf(ctx) && typeis(cur(ctx), tok.Const)
  modifies ctx.idx
  ensures wf(ctx) && ctx.idx >= old(ctx.idx) && (result1 == nil ==> ctx.idx > old(ctx.idx))
  ensures result0 == nil || fresh(result0)
  ensures forall k :: {result0[k]} 0 <= k && k < len(result0) ==> valOk(result0[k].Value) && inText(box(tok.Ident, result0[k].Name))
  ensures result1 != nil ==> posErr(result1) && len(result0) == 0

func internal/ast.buildSingleImport
  property C18
  requires wf(ctx) && ctx.idx + 1 < len(ctx.toks) && (typeis(ctx.toks[ctx.idx + 1], tok.Ident) || typeis(ctx.toks[ctx.idx + 1], tok.String))
  modifies ctx.idx
  ensures wf(ctx) && ctx.idx > old(ctx.idx)
  ensures result1 == nil ==> len(result0) == 1 && box(tok.String, result0[0].Path) == ctx.toks[ctx.idx - 1] && (typeis(old(ctx.toks[ctx.idx + 1]), tok.Ident) ==> result0[0].Name == old(ctx.toks[ctx.idx + 1])) && (typeis(old(ctx.toks[ctx.idx + 1]), tok.String) ==> result0[0].Name == nil)
  ensures result1 != nil ==> posErr(result1)
func internal/ast.buildMultiImport
  property C18
  requires wf(ctx) && ctx.idx + 1 < len(ctx.toks) && typeis(ctx.toks[ctx.idx + 1], tok.Newline)
  modifies ctx.idx
  loop 0
    invariant wf(ctx) && ctx.idx > old(ctx.idx) && ctx.idx + 1 < len(ctx.toks) && fresh(imps) && 0 <= state && state <= 1
    decreases len(ctx.toks) - ctx.idx
  ensures wf(ctx) && ctx.idx > old(ctx.idx)
  ensures result1 != nil ==> posErr(result1)
func internal/ast.buildImport
  property C18
  requires wf(ctx) && typeis(cur(ctx), tok.Import)
  modifies ctx.idx
  ensures wf(ctx) && ctx.idx >= old(ctx.idx) && (result1 == nil ==> ctx.idx > old(ctx.idx))
  ensures result1 != nil ==> posErr(result1)

define kindTok(t any) := t != nil && (isa(t, tok.Functionality) || typeis(t, tok.Ident) || typeis(t, tok.QualIdent))
func internal/ast.buildInst
  property C18
  decreases len(ctx.toks) - ctx.idx, 0
  requires wf(ctx) && typeis(cur(ctx), tok.Ident)
  modifies ctx.idx
  ensures wf(ctx) && ctx.idx > old(ctx.idx)
  ensures box(tok.Ident, result0.Name) == old(cur(ctx))
  ensures result1 == nil ==> kindTok(result0.Type) && (result0.Count == nil || valOk(result0.Count)) && (result0.Count != nil) == typeis(old(ctx.toks[ctx.idx + 1]), tok.LBracket)
  ensures result1 != nil ==> posErr(result1)
func internal/ast.buildType
  property C18
  decreases len(ctx.toks) - ctx.idx, 0
  requires wf(ctx) && typeis(cur(ctx), tok.Type)
  modifies ctx.idx
  ensures wf(ctx) && ctx.idx > old(ctx.idx)
  ensures result1 == nil ==> box(tok.Ident, result0.Name) == old(ctx.toks[ctx.idx + 1]) && kindTok(result0.Type) && (result0.Count == nil || valOk(result0.Count))
  ensures result1 != nil ==> posErr(result1)
func internal/ast.buildBody
  property C18
  decreases len(ctx.toks) - ctx.idx, 1
  requires wf(ctx)
  modifies ctx.idx
  loop 0
    invariant wf(ctx) && ctx.idx >= old(ctx.idx)
    invariant (cap(body.Consts) == 0 || fresh(body.Consts)) && (cap(body.Insts) == 0 || fresh(body.Insts)) && (cap(body.Props) == 0 || fresh(body.Props)) && (cap(body.Types) == 0 || fresh(body.Types))
    invariant err == nil
    decreases len(ctx.toks) - ctx.idx
  ensures wf(ctx) && ctx.idx >= old(ctx.idx)
  ensures result1 == nil ==> typeis(cur(ctx), tok.Eof) || ctx.idx > old(ctx.idx) && typeis(ctx.toks[ctx.idx - 1], tok.Dedent)
  ensures result1 != nil ==> posErr(result1)

func internal/ast.Build
  property C18
  loop 0
    invariant wf(ctx) && err == nil
    invariant (cap(f.Consts) == 0 || fresh(f.Consts)) && (cap(f.Insts) == 0 || fresh(f.Insts)) && (cap(f.Imports) == 0 || fresh(f.Imports)) && (cap(f.Types) == 0 || fresh(f.Types))
    decreases len(ctx.toks) - ctx.idx
  ensures result1 != nil ==> posErr(result1)
