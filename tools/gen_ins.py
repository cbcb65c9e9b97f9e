#!/usr/bin/env python3
# Writes contracts/ins.spec: the contracts of the apply*Type functions follow one scheme.
import os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
VALID = {
    'blackbox': ['size'], 'block': ['align', 'masters', 'reset'], 'bus': ['align', 'masters', 'reset', 'width'],
    'config': ['atomic', 'init-value', 'range', 'read-value', 'reset-value', 'width'], 'group': ['virtual'],
    'irq': ['add-enable', 'clear', 'enable-init-value', 'enable-reset-value', 'in-trigger', 'out-trigger'],
    'mask': ['atomic', 'init-value', 'read-value', 'reset-value', 'width'], 'param': ['range', 'width'], 'proc': ['delay'],
    'return': ['width'], 'static': ['init-value', 'read-value', 'reset-value', 'width'], 'status': ['atomic', 'read-value', 'width'], 'stream': ['delay']}
HEAD = open(os.path.join(H, 'tools', 'ins_head.spec')).read()
out = [HEAD]
out.append('define isKind(t string) := ' + ' || '.join('t == "%s"' % k for k in VALID))
out.append('define validProp(p string, t string) :=\n    ' + ' ||\n    '.join('(t == "%s" && (%s))' % (k, ' || '.join('p == "%s"' % p for p in ps)) for k, ps in VALID.items()))

def conv(kind, fld, v):
    return {'bool': '%s == as(%s, val.Bool)', 'str': '%s == as(%s, val.Str)', 'int': '%s == as(%s, val.Int)', 'any': '%s == %s',
            'range': 'rangeIs(%s, %s)', 'time': 'timeIs(%s, %s)'}[kind] % (fld, v)

# kind: (function, receiver, [(property, set flag, field, conversion)])
K = {
 'config': ('applyConfigType', 'cfg', [('atomic', 'diary.atomicSet', 'cfg.Atomic', 'bool'), ('init-value', 'diary.initValSet', 'diary.initVal', 'any'), ('range', 'diary.rangeSet', 'cfg.Range', 'range'),
   ('read-value', 'diary.readValSet', 'diary.readVal', 'any'), ('reset-value', 'diary.resetValSet', 'diary.resetVal', 'any'), ('width', 'diary.widthSet', 'cfg.Width', 'int')]),
 'mask': ('applyMaskType', 'mask', [('atomic', 'diary.atomicSet', 'mask.Atomic', 'bool'), ('init-value', 'diary.initValSet', 'diary.initVal', 'any'),
   ('read-value', 'diary.readValSet', 'diary.readVal', 'any'), ('reset-value', 'diary.resetValSet', 'diary.resetVal', 'any'), ('width', 'diary.widthSet', 'mask.Width', 'int')]),
 'static': ('applyStaticType', 'st', [('init-value', 'diary.initValSet', 'diary.initVal', 'any'),
   ('read-value', 'diary.readValSet', 'diary.readVal', 'any'), ('reset-value', 'diary.resetValSet', 'diary.resetVal', 'any'), ('width', 'diary.widthSet', 'st.Width', 'int')]),
 'status': ('applyStatusType', 'st', [('atomic', 'diary.atomicSet', 'st.Atomic', 'bool'), ('read-value', 'diary.readValSet', 'diary.readVal', 'any'), ('width', 'diary.widthSet', 'st.Width', 'int')]),
 'param': ('applyParamType', 'param', [('range', 'diary.rangeSet', 'param.Range', 'range'), ('width', 'diary.widthSet', 'param.Width', 'int')]),
 'return': ('applyReturnType', 'ret', [('width', 'diary.widthSet', 'ret.Width', 'int')]),
 'irq': ('applyIrqType', 'irq', [('add-enable', 'diary.addEnableSet', 'irq.AddEnable', 'bool'), ('clear', 'diary.clearSet', 'irq.Clear', 'str'),
   ('enable-init-value', 'diary.enableInitValSet', 'diary.enableInitVal', 'any'), ('enable-reset-value', 'diary.enableResetValSet', 'diary.enableResetVal', 'any'),
   ('in-trigger', 'diary.inTriggerSet', 'irq.InTrigger', 'str'), ('out-trigger', 'diary.outTriggerSet', 'irq.OutTrigger', 'str')]),
 'blackbox': ('applyBlackboxType', 'bb', [('size', 'diary.sizeSet', 'bb.Size', 'int')]),
}
for kind, (fn, r, ps) in K.items():
    assert [p[0] for p in ps] == VALID[kind]
    o = out.append
    allp = 'C07' + (', C06' if any(p[0] in ('width', 'range') for p in ps) else '') + (', C08' if any('-value' in p[0] for p in ps) else '')
    o('\nfunc internal/ins.' + fn)
    o('  property ' + allp)
    o('  requires %s != nil && diary != nil && typ != nil' % r)
    mods = []
    for _, flag, fld, _ in ps:
        for m in (flag, fld):
            if m not in mods: mods.append(m)
    o('  modifies ' + ', '.join(mods))
    def body(n, q):
        """facts about the first n properties"""
        res = []
        res.append('forall k :: {propName(typ, k)} 0 <= k && k < %s ==> validProp(propName(typ, k), "%s") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k)))' % (n, kind))
        for p, flag, fld, c in ps:
            res.append('forall k :: {propName(typ, k)} 0 <= k && k < %s && propName(typ, k) == "%s" ==> !old(%s) && %s && %s' % (n, p, flag, flag, conv(c, fld, 'ev(propVal(typ, k))')))
            res.append('(forall k :: {propName(typ, k)} 0 <= k && k < %s ==> propName(typ, k) != "%s") ==> %s == old(%s) && %s == old(%s)' % (n, p, flag, flag, fld, fld))
        res.append('forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < %s ==> propName(typ, j) != propName(typ, k)' % n)
        if any(p[0] == 'range' for p in ps):
            res.append('!(old(diary.rangeSet) && old(diary.widthSet)) ==> !(diary.rangeSet && diary.widthSet)')
        return res
    o('  loop 0')
    for b in body('$n', None):
        o('    invariant ' + b)
    if any(p[0] == 'range' for p in ps):
        o('  loop 1')
        o('    invariant len(mr) == $n && (cap(mr) == 0 || fresh(mr))')
        o('    invariant forall k :: {mr[k]} 0 <= k && k < $n ==> mr[k].Start == as(rng[k], val.Range).L && mr[k].End == as(rng[k], val.Range).R')
    for b in body('propCount(typ)', None):
        o('  ensures result == nil ==> ' + ('(' + b + ')'))
    # nothing valid is refused
    acc = ['(forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> validProp(propName(typ, k), "%s") && evok(propVal(typ, k)) && okVal(propName(typ, k), ev(propVal(typ, k))))' % kind,
           '(forall j, k :: {propName(typ, j), propName(typ, k)} 0 <= j && j < k && k < propCount(typ) ==> propName(typ, j) != propName(typ, k))']
    for p, flag, fld, c in ps:
        acc.append('(old(%s) ==> forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "%s")' % (flag, p))
    if any(p[0] == 'range' for p in ps):
        acc.append('(old(diary.widthSet) || (exists k :: 0 <= k && k < propCount(typ) && propName(typ, k) == "width") ==> !old(diary.rangeSet) && forall k :: {propName(typ, k)} 0 <= k && k < propCount(typ) ==> propName(typ, k) != "range")')
    o('  ensures ' + ' && '.join(acc) + ' ==> result == nil')
out.append(open(os.path.join(H, 'tools', 'ins_tail.spec')).read())
open(os.path.join(H, 'contracts', 'ins.spec'), 'w').write('\n'.join(out) + '\n')
