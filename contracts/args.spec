# Arguments and parameters: internal/prs, internal/ins
package internal/prs

# Argument and parameter lists of the source: names are different, positional arguments come first,
# parameters without default value come first.
func internal/prs.buildParamList
  property C13, C15
  requires forall i :: {astParams[i]} 0 <= i && i < len(astParams) ==> okAst(astParams[i].Value)
  loop 0
    invariant len(params) == $n && fresh(params) && names != nil && fresh(names)
    invariant forall k :: {params[k]} 0 <= k && k < $n ==> params[k].Name == txtOf(box(tok.Ident, astParams[k].Name)) && mirrors(astParams[k].Value, params[k].DfltValue, scope) && (params[k].DfltValue == nil) == (astParams[k].Value == nil)
    invariant forall m string :: {has(names, m)} has(names, m) == exists k :: {params[k]} 0 <= k && k < $n && params[k].Name == m
    invariant forall m string :: {names[m]} has(names, m) ==> names[m]
    invariant forall i, j :: {params[i], params[j]} 0 <= i && i < j && j < $n ==> params[i].Name != params[j].Name
  loop 1
    invariant withDflt == exists k :: {params[k]} 0 <= k && k < $n && params[k].DfltValue != nil
    invariant forall i, j :: {params[i], params[j]} 0 <= i && i < j && j < $n && params[i].DfltValue != nil ==> params[j].DfltValue != nil
  ensures result1 == nil ==> len(result0) == len(astParams)
  ensures result1 == nil ==> forall k :: {result0[k]} 0 <= k && k < len(astParams) ==> result0[k].Name == txtOf(box(tok.Ident, astParams[k].Name)) && mirrors(astParams[k].Value, result0[k].DfltValue, scope) && (result0[k].DfltValue == nil) == (astParams[k].Value == nil)
  ensures result1 == nil ==> forall i, j :: {result0[i], result0[j]} 0 <= i && i < j && j < len(result0) ==> result0[i].Name != result0[j].Name
  ensures result1 == nil ==> forall i, j :: {result0[i], result0[j]} 0 <= i && i < j && j < len(result0) && result0[i].DfltValue != nil ==> result0[j].DfltValue != nil

func internal/prs.ArgList.Len
  property C15
  ensures result == len(al.Args)
func internal/ast.ArgList.Len
  property C15
  ensures result == len(al.Args)

func internal/prs.buildArgList
  property C13, C15
  requires forall i :: {astArgList.Args[i]} 0 <= i && i < len(astArgList.Args) ==> astArgList.Args[i].Value != nil && okAst(astArgList.Args[i].Value)
  given forall i :: {astArgList.Args[i]} 0 <= i && i < len(astArgList.Args) && astArgList.Args[i].Name != nil ==> txtOf(astArgList.Args[i].Name) != ""
  loop 0
    invariant len(argList.Args) == $n && argList.LParen == astArgList.LParen && argList.RParen == astArgList.RParen && fresh(argList.Args) && names != nil && fresh(names)
    invariant forall k :: {argList.Args[k]} 0 <= k && k < $n ==> argList.Args[k].Name == ite(astArgList.Args[k].Name == nil, "", txtOf(astArgList.Args[k].Name)) && mirrors(astArgList.Args[k].Value, argList.Args[k].Value, scope) && argList.Args[k].Value != nil
    invariant forall m string :: {has(names, m)} has(names, m) == exists k :: {argList.Args[k]} 0 <= k && k < $n && m != "" && argList.Args[k].Name == m
    invariant forall m string :: {names[m]} has(names, m) ==> names[m]
    invariant forall i, j :: {argList.Args[i], argList.Args[j]} 0 <= i && i < j && j < $n && argList.Args[i].Name != "" ==> argList.Args[i].Name != argList.Args[j].Name
  loop 1
    invariant withName == exists k :: {argList.Args[k]} 0 <= k && k < $n && argList.Args[k].Name != ""
    invariant forall i, j :: {argList.Args[i], argList.Args[j]} 0 <= i && i < j && j < $n && argList.Args[i].Name != "" ==> argList.Args[j].Name != ""
  ensures result1 == nil ==> len(result0.Args) == len(astArgList.Args)
  ensures result1 == nil && len(astArgList.Args) > 0 ==> result0.LParen == astArgList.LParen && result0.RParen == astArgList.RParen
  ensures result1 == nil ==> forall k :: {result0.Args[k]} 0 <= k && k < len(result0.Args) ==> result0.Args[k].Name == ite(astArgList.Args[k].Name == nil, "", txtOf(astArgList.Args[k].Name)) && mirrors(astArgList.Args[k].Value, result0.Args[k].Value, scope) && result0.Args[k].Value != nil
  ensures result1 == nil ==> forall i, j :: {result0.Args[i], result0.Args[j]} 0 <= i && i < j && j < len(result0.Args) && result0.Args[i].Name != "" ==> result0.Args[i].Name != result0.Args[j].Name && result0.Args[j].Name != ""

# A parameter is a constant of the instantiation with the value of its argument.
func internal/prs.(*Type).BindParams
  property C15
  requires t != nil
  modifies t.boundParams
  loop 0
    invariant t.boundParams != nil && fresh(t.boundParams)
    invariant forall n string :: {has(t.boundParams, n)} has(t.boundParams, n) == (has(args, n) && visited(n))
    invariant forall n string :: {t.boundParams[n]} has(t.boundParams, n) ==> has(args, n) && t.boundParams[n] != nil && fresh(t.boundParams[n]) && allocated(t.boundParams[n]) && t.boundParams[n].Value == args[n]
  ensures forall n string :: {has(t.boundParams, n)} has(t.boundParams, n) == has(args, n)
  ensures forall n string :: {t.boundParams[n]} has(args, n) ==> t.boundParams[n] != nil && t.boundParams[n].Value == args[n]

package internal/ins
func internal/ins.hasParam
  property C15
  loop 0
    invariant forall k :: {params[k]} 0 <= k && k < $n ==> params[k].Name != name
  ensures result == isParam(params, name)
define isParam(ps []prs.Param, n string) := exists k :: {ps[k]} 0 <= k && k < len(ps) && ps[k].Name == n

# the functionality whose arguments are resolved
function argCount(any) int
function argName(any, int) string
function argVal(any, int) any
function typeNameOf(any) string
function scopeOf(any) any
invoke internal/prs.Functionality.Args
  trusted
  ensures len(result) == argCount(recv)
  ensures forall i :: {result[i]} 0 <= i && i < len(result) ==> result[i].Name == argName(recv, i) && result[i].Value == argVal(recv, i) && result[i].Value != nil
invoke internal/prs.Functionality.Type
  trusted
  ensures result == typeNameOf(recv)
invoke internal/prs.Functionality.Scope
  trusted
  ensures result == scopeOf(recv) && result != nil
func internal/prs.Type.Params
  property C15
  ensures result == t.params

define paramsOf(s any) := ptr(prs.Type, scopeType(scopeOf(s), typeNameOf(s))).params
# the parameter which argument i is for
define forParam(s any, i int) := ite(argName(s, i) == "", paramsOf(s)[i].Name, argName(s, i))
define goodArg(s any, i int) := ite(argName(s, i) == "", i < len(paramsOf(s)), isParam(paramsOf(s), argName(s, i)))
define hasArg(s any, n string) := exists i :: {argName(s, i)} 0 <= i && i < argCount(s) && forParam(s, i) == n
func internal/ins.resolveArgs
  property C13, C15
  requires symbol != nil
  given scopeDefType(scopeOf(symbol), typeNameOf(symbol)) ==> forall i, j :: {paramsOf(symbol)[i], paramsOf(symbol)[j]} 0 <= i && i < j && j < len(paramsOf(symbol)) ==> paramsOf(symbol)[i].Name != paramsOf(symbol)[j].Name
  loop 0
    invariant resolvedArgs != nil && fresh(resolvedArgs) && $n <= argCount(symbol)
    invariant forall i :: {argName(symbol, i)} 0 <= i && i < $n ==> goodArg(symbol, i) && has(resolvedArgs, forParam(symbol, i)) && resolvedArgs[forParam(symbol, i)] == argVal(symbol, i)
    invariant forall i, j :: {argName(symbol, i), argName(symbol, j)} 0 <= i && i < j && j < $n ==> forParam(symbol, i) != forParam(symbol, j)
    invariant forall n string :: {has(resolvedArgs, n)} has(resolvedArgs, n) ==> exists i :: {argName(symbol, i)} 0 <= i && i < $n && forParam(symbol, i) == n
  loop 1
    invariant resolvedArgs != nil && fresh(resolvedArgs)
    invariant forall i :: {argName(symbol, i)} 0 <= i && i < argCount(symbol) ==> has(resolvedArgs, forParam(symbol, i)) && resolvedArgs[forParam(symbol, i)] == argVal(symbol, i)
    invariant forall k :: {paramsOf(symbol)[k]} 0 <= k && k < $n ==> has(resolvedArgs, paramsOf(symbol)[k].Name) && (!hasArg(symbol, paramsOf(symbol)[k].Name) ==> paramsOf(symbol)[k].DfltValue != nil && resolvedArgs[paramsOf(symbol)[k].Name] == paramsOf(symbol)[k].DfltValue)
    invariant forall n string :: {has(resolvedArgs, n)} has(resolvedArgs, n) ==> hasArg(symbol, n) || exists k :: {paramsOf(symbol)[k]} 0 <= k && k < $n && paramsOf(symbol)[k].Name == n
  ensures result1 == nil ==> scopeDefType(scopeOf(symbol), typeNameOf(symbol))
  # no surplus, unknown or repeated arguments
  ensures result1 == nil ==> forall i :: {argName(symbol, i)} 0 <= i && i < argCount(symbol) ==> goodArg(symbol, i)
  ensures result1 == nil ==> forall i, j :: {argName(symbol, i), argName(symbol, j)} 0 <= i && i < j && j < argCount(symbol) ==> forParam(symbol, i) != forParam(symbol, j)
  # every parameter has the value of its argument, or its default
  ensures result1 == nil ==> forall i :: {argName(symbol, i)} 0 <= i && i < argCount(symbol) ==> result0[forParam(symbol, i)] == argVal(symbol, i)
  ensures result1 == nil ==> forall k :: {paramsOf(symbol)[k]} 0 <= k && k < len(paramsOf(symbol)) ==> has(result0, paramsOf(symbol)[k].Name) && (!hasArg(symbol, paramsOf(symbol)[k].Name) ==> paramsOf(symbol)[k].DfltValue != nil && result0[paramsOf(symbol)[k].Name] == paramsOf(symbol)[k].DfltValue)
  # and nothing else is bound
  ensures result1 == nil ==> forall n string :: {has(result0, n)} has(result0, n) ==> isParam(paramsOf(symbol), n)
