#!/usr/bin/env python3
# writes contracts/kinds.spec: which functionality may contain which, unique names (C14)
import os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts', 'kinds.spec')
kinds = "blackbox block bus config group irq mask param proc return static status stream".split()
inner = {
    'block': "blackbox block config group irq mask proc static status stream".split(),
    'group': "config irq mask param return static status".split(),
    'proc': ['param', 'return'], 'stream': ['param', 'return'],
}
inner['bus'] = inner['block']
T = lambda k: k.capitalize()
lists = {
    'block': [('Blackboxes', 'Blackbox'), ('Configs', 'Config'), ('Groups', 'Group'), ('Irqs', 'Irq'), ('Masks', 'Mask'), ('Procs', 'Proc'), ('Statics', 'Static'), ('Statuses', 'Status'), ('Streams', 'Stream'), ('Subblocks', 'Block')],
    'group': [('Configs', 'Config'), ('Irqs', 'Irq'), ('Masks', 'Mask'), ('Params', 'Param'), ('Returns', 'Return'), ('Statics', 'Static'), ('Statuses', 'Status')],
    'proc': [('Params', 'Param'), ('Returns', 'Return')],
    'stream': [('Params', 'Param'), ('Returns', 'Return')],
}
o = []
w = o.append
w("# Kinds of functionalities and their names: internal/util, internal/ins. Written by tools/gen_kinds.py, do not edit.")
w("package internal/util")
w("define isBaseKind(t string) := " + ' || '.join('t == "%s"' % k for k in kinds))
w("# rows of the table of the language specification: a functionality of kind it may be instantiated in one of kind ot")
w("define mayContain(ot string, it string) :=")
rows = []
for k in kinds:
    l = inner.get(k, [])
    if l:
        rows.append('(ot == "%s" && (%s))' % (k, ' || '.join('it == "%s"' % x for x in l)))
w('    ' + ' ||\n    '.join(rows))
w("""
func internal/util.IsBaseType
  property C14
  loop 0
    invariant forall k :: {baseTypes[k]} 0 <= k && k < $n ==> baseTypes[k] != t
  ensures result == isBaseKind(t)

func internal/util.IsValidInnerType
  property C14
  requires isBaseKind(ot)
  loop 0
    invariant forall k :: {list[k]} 0 <= k && k < $n ==> list[k] != it
  ensures result == mayContain(ot, it)
""")
w("package pkg/fbdl/fn")
w("# kind of an instantiated functionality")
w("function kindOf(any) string")
for k in kinds:
    if k == 'bus':
        continue
    w('axiom kindOf%s: forall e any :: {kindOf(e)} typeis(e, *fn.%s) ==> kindOf(e) == "%s"' % (T(k), T(k), k))
w("""function nameOf(any) string
invoke pkg/fbdl/fn.Functionality.Type
  property C14
  pointers
  pure
  ensures result == kindOf(recv)
invoke pkg/fbdl/fn.Functionality.GetName
  trusted
  pure
  ensures result == nameOf(recv)
""")
for k in kinds:
    if k == 'bus':
        continue
    w('func pkg/fbdl/fn.%s.Type\n  property C14\n  pure\n  ensures result == "%s"\n' % (T(k), k))
w("func pkg/fbdl/fn.Func.GetName\n  property C14\n  pure\n  ensures result == f.Name\n")

for k, pkg, var, ptr in [('block', 'block', 'blk', 'Block'), ('group', 'group', 'grp', 'Group'), ('proc', 'proc', 'p', 'Proc'), ('stream', 'stream', 's', 'Stream')]:
    w("package internal/util/%s" % pkg)
    w("define %sHas(x *fn.%s, n string) :=" % (k, ptr))
    w('    ' + ' ||\n    '.join("(exists i :: {x.%s[i]} 0 <= i && i < len(x.%s) && x.%s[i].Name == n)" % (f, f, f) for f, _ in lists[k]))
    w("func internal/util/%s.HasFunctionality" % pkg)
    w("  property C14")
    w("  requires %s != nil" % var)
    for f, t in lists[k]:
        w("  requires forall i :: {%s.%s[i]} 0 <= i && i < len(%s.%s) ==> %s.%s[i] != nil" % (var, f, var, f, var, f))
    for n, (f, t) in enumerate(lists[k]):
        w("  loop %d" % n)
        w("    invariant forall i :: {%s.%s[i]} 0 <= i && i < $n ==> %s.%s[i].Name != name" % (var, f, var, f))
    w("  ensures result == %sHas(%s, name)" % (k, var))
    w("")

def appended(x, f, e):
    return ["  ensures %s len(%s.%s) == old(len(%s.%s)) + 1 && %s.%s[old(len(%s.%s))] == %s",
            "  ensures %s forall i :: {%s.%s[i]} 0 <= i && i < old(len(%s.%s)) ==> %s.%s[i] == old(%s.%s[i])"]

w("package internal/util/block")
bp = {'Blackbox': 'bb', 'Config': 'c', 'Group': 'g', 'Irq': 'i', 'Mask': 'm', 'Proc': 'f', 'Static': 's', 'Status': 's', 'Stream': 's', 'Block': 's'}
for f, t in lists['block']:
    fnm = 'Subblock' if t == 'Block' else t
    a = bp[t]
    w("""func internal/util/block.Add%s
  property C14
  requires b != nil
  modifies b.%s, elems(b.%s)
  ensures len(b.%s) == old(len(b.%s)) + 1 && b.%s[old(len(b.%s))] == %s
  ensures forall k :: {b.%s[k]} 0 <= k && k < old(len(b.%s)) ==> b.%s[k] == old(b.%s[k])
""" % (fnm, f, f, f, f, f, f, a, f, f, f, f))

w("package internal/util/group")
w("func internal/util/group.IsEmpty\n  property C14\n  ensures result == (%s)\n" % ' && '.join('len(grp.%s) == 0' % f for f, _ in lists['group']))
w("func internal/util/group.cantAddErrMsg\n  property C14\n  requires g != nil && f1 != nil && f2 != nil\n  ensures result != nil\n")
gp = {'Config': 'c', 'Irq': 'i', 'Mask': 'm', 'Param': 'p', 'Return': 'r', 'Static': 's', 'Status': 's'}
excl = {'Config': ['Irqs', 'Params', 'Returns'], 'Mask': ['Irqs', 'Params', 'Returns'], 'Static': ['Irqs', 'Params', 'Returns'], 'Status': ['Irqs', 'Params', 'Returns'],
        'Irq': ['Configs', 'Masks', 'Params', 'Returns', 'Statics', 'Statuses'],
        'Param': ['Configs', 'Irqs', 'Masks', 'Returns', 'Statics', 'Statuses'],
        'Return': ['Configs', 'Irqs', 'Masks', 'Params', 'Statics', 'Statuses']}
w("# kinds which a group with elements of kind t must not hold")
for f, t in lists['group']:
    w("define accepts%s(grp *fn.Group) := %s%s" % (t, '!grp.Virtual && ' if t in ('Irq', 'Param', 'Return') else '', ' && '.join('len(grp.%s) == 0' % x for x in excl[t])))
for f, t in lists['group']:
    a = gp[t]
    w("""func internal/util/group.Add%(t)s
  property C14
  requires grp != nil && %(a)s != nil
  modifies grp.%(f)s, elems(grp.%(f)s)
  ensures (result == nil) == old(accepts%(t)s(grp))
  ensures result != nil ==> len(grp.%(f)s) == old(len(grp.%(f)s))
  ensures result == nil ==> len(grp.%(f)s) == old(len(grp.%(f)s)) + 1 && grp.%(f)s[old(len(grp.%(f)s))] == %(a)s
  ensures forall k :: {grp.%(f)s[k]} 0 <= k && k < old(len(grp.%(f)s)) ==> grp.%(f)s[k] == old(grp.%(f)s[k])
""" % dict(t=t, a=a, f=f))

w("package internal/ins")
mods = lambda x, k: ', '.join('%s.%s, elems(%s.%s)' % (x, f, x, f) for f, _ in lists[k])
def placed(x, k, cond=''):
    for f, t in lists[k]:
        w("  ensures %stypeis(f, *fn.%s) ==> len(%s.%s) == old(len(%s.%s)) + 1 && %s.%s[old(len(%s.%s))] == as(f, *fn.%s)" % (cond, t, x, f, x, f, x, f, x, f, t))
        w("  ensures !typeis(f, *fn.%s) ==> len(%s.%s) == old(len(%s.%s))" % (t, x, f, x, f))
        w("  ensures forall k :: {%s.%s[k]} 0 <= k && k < old(len(%s.%s)) ==> %s.%s[k] == old(%s.%s[k])" % (x, f, x, f, x, f, x, f))
w("func internal/ins.addBlockInnerElement")
w("  property C14")
w("  requires blk != nil && f != nil && (%s)" % ' || '.join("typeis(f, *fn.%s)" % t for _, t in lists['block']))
w("  modifies " + mods('blk', 'block'))
placed('blk', 'block')
w("")
w("define groupAccepts(grp *fn.Group, f any) := " + ' && '.join("(typeis(f, *fn.%s) ==> accepts%s(grp))" % (t, t) for _, t in lists['group']))
w("func internal/ins.addGroupInnerElement")
w("  property C14")
w("  requires grp != nil && f != nil && (%s)" % ' || '.join("typeis(f, *fn.%s) && as(f, *fn.%s) != nil" % (t, t) for _, t in lists['group']))
w("  modifies " + mods('grp', 'group'))
w("  ensures (result == nil) == old(groupAccepts(grp, f))")
for f, t in lists['group']:
    x = 'grp'
    w("  ensures result == nil && typeis(f, *fn.%s) ==> len(%s.%s) == old(len(%s.%s)) + 1 && %s.%s[old(len(%s.%s))] == as(f, *fn.%s)" % (t, x, f, x, f, x, f, x, f, t))
    w("  ensures !(result == nil && typeis(f, *fn.%s)) ==> len(%s.%s) == old(len(%s.%s))" % (t, x, f, x, f))
    w("  ensures forall k :: {%s.%s[k]} 0 <= k && k < old(len(%s.%s)) ==> %s.%s[k] == old(%s.%s[k])" % (x, f, x, f, x, f, x, f))
w("")
w("func internal/ins.addProcInnerFunctionality")
w("  property C14")
w("  requires p != nil && f != nil && (%s)" % ' || '.join("typeis(f, *fn.%s)" % t for _, t in lists['proc']))
w("  modifies " + mods('p', 'proc'))
placed('p', 'proc')
w("")
w("func internal/ins.addStreamInnerFunctionality")
w("  property C14")
w("  requires s != nil && f != nil && (%s)" % ' || '.join("typeis(f, *fn.%s)" % t for _, t in lists['stream']))
w("  modifies " + mods('s', 'stream'))
w("  # params and returns are not mixed")
w("  ensures (result == nil) == old((typeis(f, *fn.Param) ==> len(s.Returns) == 0) && (typeis(f, *fn.Return) ==> len(s.Params) == 0))")
for f, t in lists['stream']:
    x = 's'
    w("  ensures result == nil && typeis(f, *fn.%s) ==> len(%s.%s) == old(len(%s.%s)) + 1 && %s.%s[old(len(%s.%s))] == as(f, *fn.%s)" % (t, x, f, x, f, x, f, x, f, t))
    w("  ensures !(result == nil && typeis(f, *fn.%s)) ==> len(%s.%s) == old(len(%s.%s))" % (t, x, f, x, f))
    w("  ensures forall k :: {%s.%s[k]} 0 <= k && k < old(len(%s.%s)) ==> %s.%s[k] == old(%s.%s[k])" % (x, f, x, f, x, f, x, f))
w("")
w("""func internal/ins.checkIrqGroup
  property C14
  requires len(grp.Irqs) > 0 && forall k :: {grp.Irqs[k]} 0 <= k && k < len(grp.Irqs) ==> grp.Irqs[k] != nil
  loop 0
    invariant forall k :: {grp.Irqs[k]} 0 <= k && k <= $n ==> grp.Irqs[k].OutTrigger == irq0.OutTrigger
  ensures (result == nil) == (!grp.Virtual && forall k :: {grp.Irqs[k]} 0 <= k && k < len(grp.Irqs) ==> grp.Irqs[k].OutTrigger == grp.Irqs[0].OutTrigger)

func internal/ins.checkGroup
  property C14
  requires forall k :: {grp.Irqs[k]} 0 <= k && k < len(grp.Irqs) ==> grp.Irqs[k] != nil
  requires forall k :: {grp.Params[k]} 0 <= k && k < len(grp.Params) ==> grp.Params[k] != nil
  requires forall k :: {grp.Returns[k]} 0 <= k && k < len(grp.Returns) ==> grp.Returns[k] != nil
  ensures (result == nil) == (!(grp.Virtual && (len(grp.Irqs) > 0 || len(grp.Params) > 0 || len(grp.Returns) > 0)) && forall k :: {grp.Irqs[k]} 0 <= k && k < len(grp.Irqs) ==> grp.Irqs[k].OutTrigger == grp.Irqs[0].OutTrigger)
""")
open(H, 'w').write('\n'.join(o) + '\n')
