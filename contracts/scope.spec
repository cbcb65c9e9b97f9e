# Names and scopes: internal/prs
package internal/prs

func sync.(*Mutex).Lock
  trusted
  pure
func sync.(*Mutex).Unlock
  trusted
  pure

define wfSyms(sc symbolContainer) :=
    (forall k :: {sc.Consts[k]} 0 <= k && k < len(sc.Consts) ==> sc.Consts[k] != nil) &&
    (forall k :: {sc.Insts[k]} 0 <= k && k < len(sc.Insts) ==> sc.Insts[k] != nil) &&
    (forall k :: {sc.Types[k]} 0 <= k && k < len(sc.Types) ==> sc.Types[k] != nil)
# the container defines the name
define defConst(sc symbolContainer, n string) := exists k :: {sc.Consts[k]} 0 <= k && k < len(sc.Consts) && sc.Consts[k].name == n
define defInst(sc symbolContainer, n string) := exists k :: {sc.Insts[k]} 0 <= k && k < len(sc.Insts) && sc.Insts[k].name == n
define defType(sc symbolContainer, n string) := exists k :: {sc.Types[k]} 0 <= k && k < len(sc.Types) && sc.Types[k].name == n
# r is the definition of the name in the container
define isConst(sc symbolContainer, n string, r *Const) := exists k :: {sc.Consts[k]} 0 <= k && k < len(sc.Consts) && sc.Consts[k] == r && r.name == n
define isInst(sc symbolContainer, n string, r *Inst) := exists k :: {sc.Insts[k]} 0 <= k && k < len(sc.Insts) && sc.Insts[k] == r && r.name == n
define isType(sc symbolContainer, n string, r *Type) := exists k :: {sc.Types[k]} 0 <= k && k < len(sc.Types) && sc.Types[k] == r && r.name == n

func internal/prs.symbolContainer.GetConst
  property C13
  requires wfSyms(sc)
  loop 0
    invariant forall k :: {sc.Consts[k]} 0 <= k && k < $n ==> sc.Consts[k].name != name
  ensures result1 == defConst(sc, name)
  ensures result1 ==> isConst(sc, name, result0) && result0 != nil

func internal/prs.(*symbolContainer).addConst
  property C13, C14
  requires sc != nil && wfSyms(sc) && cnst != nil
  modifies sc.Consts, elems(sc.Consts)
  loop 0
    invariant forall k :: {sc.Consts[k]} 0 <= k && k < $n ==> sc.Consts[k].name != cnst.name
  ensures result == !old(defConst(sc, cnst.name))
  ensures result ==> len(sc.Consts) == old(len(sc.Consts)) + 1 && sc.Consts[old(len(sc.Consts))] == cnst
  ensures !result ==> len(sc.Consts) == old(len(sc.Consts))
  ensures forall k :: {sc.Consts[k]} {old(sc.Consts[k])} 0 <= k && k < old(len(sc.Consts)) ==> sc.Consts[k] == old(sc.Consts[k])

# definition which a scope gives for a name, while the scopes do not change
function scopeDefConst(any, string) bool
function scopeConst(any, string) int
invoke internal/prs.Scope.GetConst
  trusted
  ensures (result1 == nil) == scopeDefConst(recv, name)
  ensures result1 == nil ==> result0 == scopeConst(recv, name) && result0 != nil

func internal/prs.symbolContainer.GetInst
  property C13
  requires wfSyms(sc)
  loop 0
    invariant forall k :: {sc.Insts[k]} 0 <= k && k < $n ==> sc.Insts[k].name != name
  ensures result1 == defInst(sc, name)
  ensures result1 ==> isInst(sc, name, result0) && result0 != nil

func internal/prs.(*symbolContainer).addInst
  property C13, C14
  requires sc != nil && wfSyms(sc) && ins != nil
  modifies sc.Insts, elems(sc.Insts)
  loop 0
    invariant forall k :: {sc.Insts[k]} 0 <= k && k < $n ==> sc.Insts[k].name != ins.name
  ensures result == !old(defInst(sc, ins.name))
  ensures result ==> len(sc.Insts) == old(len(sc.Insts)) + 1 && sc.Insts[old(len(sc.Insts))] == ins
  ensures !result ==> len(sc.Insts) == old(len(sc.Insts))
  ensures forall k :: {sc.Insts[k]} {old(sc.Insts[k])} 0 <= k && k < old(len(sc.Insts)) ==> sc.Insts[k] == old(sc.Insts[k])

# definition which a scope gives for a name, while the scopes do not change
function scopeDefInst(any, string) bool
function scopeInst(any, string) int
invoke internal/prs.Scope.GetInst
  trusted
  ensures (result1 == nil) == scopeDefInst(recv, name)
  ensures result1 == nil ==> result0 == scopeInst(recv, name) && result0 != nil

func internal/prs.symbolContainer.GetType
  property C13
  requires wfSyms(sc)
  loop 0
    invariant forall k :: {sc.Types[k]} 0 <= k && k < $n ==> sc.Types[k].name != name
  ensures result1 == defType(sc, name)
  ensures result1 ==> isType(sc, name, result0) && result0 != nil

func internal/prs.(*symbolContainer).addType
  property C13, C14
  requires sc != nil && wfSyms(sc) && typ != nil
  modifies sc.Types, elems(sc.Types)
  loop 0
    invariant forall k :: {sc.Types[k]} 0 <= k && k < $n ==> sc.Types[k].name != typ.name
  ensures result == !old(defType(sc, typ.name))
  ensures result ==> len(sc.Types) == old(len(sc.Types)) + 1 && sc.Types[old(len(sc.Types))] == typ
  ensures !result ==> len(sc.Types) == old(len(sc.Types))
  ensures forall k :: {sc.Types[k]} {old(sc.Types[k])} 0 <= k && k < old(len(sc.Types)) ==> sc.Types[k] == old(sc.Types[k])

# definition which a scope gives for a name, while the scopes do not change
function scopeDefType(any, string) bool
function scopeType(any, string) int
invoke internal/prs.Scope.GetType
  trusted
  ensures (result1 == nil) == scopeDefType(recv, name)
  ensures result1 == nil ==> result0 == scopeType(recv, name) && result0 != nil

func internal/prs.(*Package).GetConst
  property C13
  requires wfSyms(p.symbolContainer)
  ensures (result1 == nil) == defConst(p.symbolContainer, name)
  ensures result1 == nil ==> isConst(p.symbolContainer, name, result0) && result0 != nil

func internal/prs.(*Inst).GetConst
  property C13
  requires wfSyms(i.symbolContainer) && i.scope != nil
  ensures (result1 == nil) == (defConst(i.symbolContainer, name) || scopeDefConst(i.scope, name))
  ensures defConst(i.symbolContainer, name) ==> result1 == nil && isConst(i.symbolContainer, name, result0) && result0 != nil
  ensures !defConst(i.symbolContainer, name) && result1 == nil ==> result0 == scopeConst(i.scope, name)

func internal/prs.(*Type).GetConst
  property C13, C15
  requires wfSyms(t.symbolContainer) && t.scope != nil
  ensures (result1 == nil) == (defConst(t.symbolContainer, name) || has(t.boundParams, name) || scopeDefConst(t.scope, name))
  ensures defConst(t.symbolContainer, name) ==> result1 == nil && isConst(t.symbolContainer, name, result0) && result0 != nil
  ensures !defConst(t.symbolContainer, name) && has(t.boundParams, name) ==> result0 == t.boundParams[name]
  ensures !defConst(t.symbolContainer, name) && !has(t.boundParams, name) && result1 == nil ==> result0 == scopeConst(t.scope, name)

func internal/prs.(*Package).GetInst
  property C13
  requires wfSyms(p.symbolContainer)
  ensures (result1 == nil) == defInst(p.symbolContainer, name)
  ensures result1 == nil ==> isInst(p.symbolContainer, name, result0) && result0 != nil

func internal/prs.(*Inst).GetInst
  property C13
  requires wfSyms(i.symbolContainer) && i.scope != nil
  ensures (result1 == nil) == (defInst(i.symbolContainer, name) || scopeDefInst(i.scope, name))
  ensures defInst(i.symbolContainer, name) ==> result1 == nil && isInst(i.symbolContainer, name, result0) && result0 != nil
  ensures !defInst(i.symbolContainer, name) && result1 == nil ==> result0 == scopeInst(i.scope, name)

func internal/prs.(*Type).GetInst
  property C13
  requires wfSyms(t.symbolContainer) && t.scope != nil
  ensures (result1 == nil) == (defInst(t.symbolContainer, name) || scopeDefInst(t.scope, name))
  ensures defInst(t.symbolContainer, name) ==> result1 == nil && isInst(t.symbolContainer, name, result0) && result0 != nil
  ensures !defInst(t.symbolContainer, name) && result1 == nil ==> result0 == scopeInst(t.scope, name)

func internal/prs.(*Package).GetType
  property C13
  requires wfSyms(p.symbolContainer)
  ensures (result1 == nil) == defType(p.symbolContainer, name)
  ensures result1 == nil ==> isType(p.symbolContainer, name, result0) && result0 != nil

func internal/prs.(*Inst).GetType
  property C13
  requires wfSyms(i.symbolContainer) && i.scope != nil
  ensures (result1 == nil) == (defType(i.symbolContainer, name) || scopeDefType(i.scope, name))
  ensures defType(i.symbolContainer, name) ==> result1 == nil && isType(i.symbolContainer, name, result0) && result0 != nil
  ensures !defType(i.symbolContainer, name) && result1 == nil ==> result0 == scopeType(i.scope, name)

func internal/prs.(*Type).GetType
  property C13
  requires wfSyms(t.symbolContainer) && t.scope != nil
  ensures (result1 == nil) == (defType(t.symbolContainer, name) || scopeDefType(t.scope, name))
  ensures defType(t.symbolContainer, name) ==> result1 == nil && isType(t.symbolContainer, name, result0) && result0 != nil
  ensures !defType(t.symbolContainer, name) && result1 == nil ==> result0 == scopeType(t.scope, name)

define dotAt(s string, i int) := 0 <= i && i < len(s) && s[i] == '.' && forall j :: {s[j]} 0 <= j && j < i ==> s[j] != '.'
define hasDot(s string) := exists i :: {s[i]} 0 <= i && i < len(s) && s[i] == '.'
func strings.Contains
  trusted
  pure
  ensures substr == "." ==> result == hasDot(s)
func strings.Split
  trusted
  ensures sep == "." && hasDot(s) ==> len(result) >= 2
  ensures forall i :: {s[i]} sep == "." && dotAt(s, i) ==> result[0] == s[0:i]
  ensures forall i :: {s[i]} sep == "." && dotAt(s, i) && (forall j :: {s[j]} i < j && j < len(s) ==> s[j] != '.') ==> result[1] == s[i + 1:len(s)]

func internal/prs.(*File).GetConst
  property C13
  requires f.Pkg != nil && wfSyms(f.Pkg.symbolContainer)
  requires forall n string :: {f.Imports[n]} has(f.Imports, n) ==> f.Imports[n].Pkg != nil && wfSyms(f.Imports[n].Pkg.symbolContainer)
  ensures !hasDot(name) ==> (result1 == nil) == defConst(f.Pkg.symbolContainer, name)
  ensures !hasDot(name) && result1 == nil ==> isConst(f.Pkg.symbolContainer, name, result0) && result0 != nil
  ensures forall i :: {name[i]} dotAt(name, i) && !has(f.Imports, name[0:i]) ==> result1 != nil
  ensures forall i :: {name[i]} dotAt(name, i) && (forall j :: {name[j]} i < j && j < len(name) ==> name[j] != '.') && has(f.Imports, name[0:i]) ==>
    (result1 == nil) == defConst(f.Imports[name[0:i]].Pkg.symbolContainer, name[i + 1:len(name)]) &&
    (result1 == nil ==> isConst(f.Imports[name[0:i]].Pkg.symbolContainer, name[i + 1:len(name)], result0) && result0 != nil)

func internal/prs.(*File).GetInst
  property C13
  requires f.Pkg != nil && wfSyms(f.Pkg.symbolContainer)
  requires forall n string :: {f.Imports[n]} has(f.Imports, n) ==> f.Imports[n].Pkg != nil && wfSyms(f.Imports[n].Pkg.symbolContainer)
  ensures !hasDot(name) ==> (result1 == nil) == defInst(f.Pkg.symbolContainer, name)
  ensures !hasDot(name) && result1 == nil ==> isInst(f.Pkg.symbolContainer, name, result0) && result0 != nil
  ensures forall i :: {name[i]} dotAt(name, i) && !has(f.Imports, name[0:i]) ==> result1 != nil
  ensures forall i :: {name[i]} dotAt(name, i) && (forall j :: {name[j]} i < j && j < len(name) ==> name[j] != '.') && has(f.Imports, name[0:i]) ==>
    (result1 == nil) == defInst(f.Imports[name[0:i]].Pkg.symbolContainer, name[i + 1:len(name)]) &&
    (result1 == nil ==> isInst(f.Imports[name[0:i]].Pkg.symbolContainer, name[i + 1:len(name)], result0) && result0 != nil)

func internal/prs.(*File).GetType
  property C13
  requires f.Pkg != nil && wfSyms(f.Pkg.symbolContainer)
  requires forall n string :: {f.Imports[n]} has(f.Imports, n) ==> f.Imports[n].Pkg != nil && wfSyms(f.Imports[n].Pkg.symbolContainer)
  ensures !hasDot(name) ==> (result1 == nil) == defType(f.Pkg.symbolContainer, name)
  ensures !hasDot(name) && result1 == nil ==> isType(f.Pkg.symbolContainer, name, result0) && result0 != nil
  ensures forall i :: {name[i]} dotAt(name, i) && !has(f.Imports, name[0:i]) ==> result1 != nil
  ensures forall i :: {name[i]} dotAt(name, i) && (forall j :: {name[j]} i < j && j < len(name) ==> name[j] != '.') && has(f.Imports, name[0:i]) ==>
    (result1 == nil) == defType(f.Imports[name[0:i]].Pkg.symbolContainer, name[i + 1:len(name)]) &&
    (result1 == nil ==> isType(f.Imports[name[0:i]].Pkg.symbolContainer, name[i + 1:len(name)], result0) && result0 != nil)

func internal/prs.(*Package).addConst
  property C13, C14
  requires wfSyms(p.symbolContainer) && c != nil
  modifies p.symbolContainer, elems(p.symbolContainer.Consts)
  ensures (result == nil) == !old(defConst(p.symbolContainer, c.name))
  ensures result == nil ==> len(p.symbolContainer.Consts) == old(len(p.symbolContainer.Consts)) + 1 && p.symbolContainer.Consts[old(len(p.symbolContainer.Consts))] == c
  ensures result != nil ==> len(p.symbolContainer.Consts) == old(len(p.symbolContainer.Consts))
  ensures forall k :: {p.symbolContainer.Consts[k]} {old(p.symbolContainer.Consts[k])} 0 <= k && k < old(len(p.symbolContainer.Consts)) ==> p.symbolContainer.Consts[k] == old(p.symbolContainer.Consts[k])

func internal/prs.(*Package).addInst
  property C13, C14
  requires i.file != nil && i.tok != nil && forall k :: {p.Insts[k]} 0 <= k && k < len(p.Insts) ==> p.Insts[k].file != nil && p.Insts[k].tok != nil
  requires wfSyms(p.symbolContainer) && i != nil
  modifies p.symbolContainer, elems(p.symbolContainer.Insts)
  ensures (result == nil) == !old(defInst(p.symbolContainer, i.name))
  ensures result == nil ==> len(p.symbolContainer.Insts) == old(len(p.symbolContainer.Insts)) + 1 && p.symbolContainer.Insts[old(len(p.symbolContainer.Insts))] == i
  ensures result != nil ==> len(p.symbolContainer.Insts) == old(len(p.symbolContainer.Insts))
  ensures forall k :: {p.symbolContainer.Insts[k]} {old(p.symbolContainer.Insts[k])} 0 <= k && k < old(len(p.symbolContainer.Insts)) ==> p.symbolContainer.Insts[k] == old(p.symbolContainer.Insts[k])

func internal/prs.(*Package).addType
  property C13, C14
  requires wfSyms(p.symbolContainer) && t != nil
  modifies p.symbolContainer, elems(p.symbolContainer.Types)
  ensures (result == nil) == !old(defType(p.symbolContainer, t.name))
  ensures result == nil ==> len(p.symbolContainer.Types) == old(len(p.symbolContainer.Types)) + 1 && p.symbolContainer.Types[old(len(p.symbolContainer.Types))] == t
  ensures result != nil ==> len(p.symbolContainer.Types) == old(len(p.symbolContainer.Types))
  ensures forall k :: {p.symbolContainer.Types[k]} {old(p.symbolContainer.Types[k])} 0 <= k && k < old(len(p.symbolContainer.Types)) ==> p.symbolContainer.Types[k] == old(p.symbolContainer.Types[k])
