# Type chains: internal/ins
package internal/ins

# base kind at the end of the chain of types of a functionality
function baseName(any) string
axiom baseNameBase: forall f any :: {baseName(f)} isBaseKind(typeNameOf(f)) ==> baseName(f) == typeNameOf(f)
axiom baseNameStep: forall f any :: {baseName(f)} !isBaseKind(typeNameOf(f)) ==> baseName(f) == baseName(typeOf(f))
# definition of the type of a functionality
define typeOf(f any) := box(*prs.Type, ptr(prs.Type, scopeType(scopeOf(f), typeNameOf(f))))
define isChain(c []prs.Functionality, f any) := len(c) >= 1 && c[len(c) - 1] == f && isBaseKind(typeNameOf(c[0])) && typeNameOf(c[0]) == baseName(f) &&
    (forall k :: {c[k]} 0 <= k && k < len(c) ==> c[k] != nil) &&
    (forall k :: {c[k]} 1 <= k && k < len(c) ==> !isBaseKind(typeNameOf(c[k])) && c[k - 1] == typeOf(c[k]) && scopeDefType(scopeOf(c[k]), typeNameOf(c[k])))

invoke internal/prs.Functionality.File
  trusted
  pure
  ensures result != nil
invoke internal/prs.Functionality.Line
  trusted
  pure
invoke internal/prs.Functionality.Col
  trusted
  pure
invoke internal/prs.Functionality.Name
  trusted
  pure
  ensures result == symName(recv)
function symName(any) string

func internal/ins.resolveTypeChain
  property C13, C14, C15
  requires f != nil && visited != nil
  modifies map(visited)
  ensures isChain(result, f) && fresh(result)

func internal/ins.resolveToBaseType
  property C13, C14, C15
  requires f != nil
  ensures isChain(result, f) && fresh(result)

# symbols of a functionality: constants, instantiations and types
function symCount(any) int
function symAt(any, int) any
invoke internal/prs.Functionality.Symbols
  trusted
  ensures len(result) == symCount(recv)
  ensures forall i :: {result[i]} 0 <= i && i < len(result) ==> result[i] == symAt(recv, i) && result[i] != nil && (typeis(result[i], *prs.Inst) ==> as(result[i], *prs.Inst) != nil)
invoke internal/prs.Functionality.Tok
  trusted
  pure

# a functionality may be instantiated in one of the given kind
define mayBeIn(s any, kind string) := typeis(s, *prs.Inst) ==> mayContain(kind, baseName(box(*prs.Inst, as(s, *prs.Inst))))
func internal/ins.checkInnerTypes
  property C14
  requires len(typeChain) > 0 && isBaseKind(typeNameOf(typeChain[0])) && forall k :: {typeChain[k]} 0 <= k && k < len(typeChain) ==> typeChain[k] != nil
  loop 0
    invariant forall k, i :: {symAt(typeChain[k], i)} 0 <= k && k < $n && 0 <= i && i < symCount(typeChain[k]) ==> mayBeIn(symAt(typeChain[k], i), typeNameOf(typeChain[0]))
  loop 1
    invariant forall i :: {symAt(typ, i)} 0 <= i && i < $n ==> mayBeIn(symAt(typ, i), typeNameOf(typeChain[0]))
  ensures (result == nil) == (forall k, i :: {symAt(typeChain[k], i)} 0 <= k && k < len(typeChain) && 0 <= i && i < symCount(typeChain[k]) ==> mayBeIn(symAt(typeChain[k], i), typeNameOf(typeChain[0])))
