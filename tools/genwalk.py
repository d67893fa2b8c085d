#!/usr/bin/env python3
"""Writes contracts/walkvisit.spec: one contract per generated visitor function.

Run by hand when the AST changes (never by a check). The children of each node
kind are taken from the AST definitions (the struct annotations), the field
behind each getter from the getter itself; the result is reviewed and committed.
"""
import re, glob, sys
ast = ''
for f in ('ast', 'jsx_ast', 'ts_ast'):
    ast += open('/repo/ecma/parser/%s.go' % f).read() + '\n'
nt = open('/repo/ecma/parser/nodetype.go').read()
types = {}
for t, s in re.findall(r'^[ \t]*(N_\w+)[ \t].*#\[visitor\((\w+)\)\]', nt, re.M):
    types.setdefault(s, []).append(t)
kids = {}
for args, name in re.findall(r'#\[visitor\(([\w,]+)\)\]\ntype (\w+) struct', ast):
    kids[name] = args.split(',')
fields = {}
for s, body in re.findall(r'^type (\w+) struct \{\n(.*?)^\}', ast, re.M | re.S):
    fields[s] = dict(re.findall(r'^\s+(\w+)\s+(\S+)', body, re.M))
SPECIAL = {('ParenExpr', 'Expr'): ('Node', None), ('TsTypDec', 'TypParams'): ('Node', 'ti.typParams')}
def getter(s, m):
    if (s, m) in SPECIAL and SPECIAL[(s, m)][1]:
        return SPECIAL[(s, m)]
    r = re.search(r'^func \(n \*%s\) %s\(\) (\S+) \{\n\s*return n\.(\w+)\n\}' % (s, m), ast, re.M)
    if not r:
        return None
    return r.group(1), r.group(2)
def ref(f):
    return 'parenInner(n)' if f == 'Expr' else 'n.' + f
out = ['package walk', '', '// written by tools/genwalk.py from the AST definitions, reviewed by hand', '']
for s in sorted(types):
    ts = types[s]
    ks = kids.get(s, [])
    one = len(ts) == 1
    before = 'parser.%s' % ts[0] if one else 'ntyp(node)'
    pre = 'bev(%s)' % before
    aft = 'aev(%s)' % before
    if not ks:
        out += ['func Visit%s(node, key, ctx)' % s, '  property C09', '  requires wk(ctx) && nodeIs(ctx, node)']
        if not one:
            out += ['  requires ' + ' || '.join('ntyp(node) == parser.%s' % t for t in ts)]
        out += ['  modifies *walking']
        out += ['  ensures tr == listened(listened(old(tr), %s, node, key, ctx), %s, node, key, ctx)' % (pre, aft)]
        out += ['  ensures kept(ctx)', '']
        continue
    bad = [k for k in ks if k != 'PUSH_SCOPE' and getter(s, k) is None]
    if bad:
        print('skip', s, bad, file=sys.stderr)
        if s != 'ParenExpr':
            out += ['// Visit%s: getters %s compute their result, covered by the oracle only' % (s, bad), '']
            continue
    out += ['func Visit%s(node, key, ctx)' % s, '  property C09',
            '  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.%s)) && node.(*parser.%s) != nil' % (s, s)]
    out += ['  requires ' + ' || '.join('ntyp(node) == parser.%s' % t for t in ts)]
    if not one:
        out += ['  requires node.(*parser.%s).typ == ntyp(node)' % s]
    out += ['  modifies *walking']
    if s == 'TsTypDec':
        out += ['  requires node.(*parser.TsTypDec).ti != nil']
    out += ['  let n = node.(*parser.%s)' % s]
    # event trace
    out += ['  let t0 = called(tr, ctx, %s, node, key, ctx.Parent)' % pre]
    i = 0
    for k in ks:
        if k == 'PUSH_SCOPE':
            continue
        g = getter(s, k)
        if g is None:
            c = ('[]Node' if k.endswith('s') else 'Node', k)
            typ, fld = c
        else:
            typ, fld = g
        if typ == '[]Node':
            nxt = 'visits(t%d, arr(n.%s), off(n.%s), len(n.%s), "%s", ctx)' % (i, fld, fld, fld, k)
        else:
            nxt = 'visit(t%d, ctx, %s, "%s")' % (i, ref(fld), k)
        if i == 0 and typ == '[]Node':
            out += ['  let t1 = %s' % nxt]
        else:
            out += ['  let t%d = ite(w_stop(t%d), t%d, %s)' % (i + 1, i, i, nxt)]
        i += 1
    out += ['  ensures tr == called(t%d, ctx, %s, node, key, ctx.Parent)' % (i, aft)]
    # scope of each event
    sc = 'sc'
    cur = 'sid(ctx.WalkCtx)'
    pushed = False
    lines = []
    first = ks[0] == 'PUSH_SCOPE'
    if 'PUSH_SCOPE' in ks:
        node = 'ctx.Parent.Node' if s == 'ClassBody' else 'node'
        inner = 'ite(pushes(node), ctx.WalkCtx.scopeOf[%s], sid(ctx.WalkCtx))' % node
        cond = '(!pushes(node) || %s in ctx.WalkCtx.scopeOf)' % node
        if s == 'ClassBody':
            out += ['  requires ctx.Parent != nil && ctx.Parent.Node != nil']
        out += ['  let inner = %s' % inner, '  let known = %s' % cond]
    seq = ['called'] + ks
    cur = 'sid(ctx.WalkCtx)'
    if first:
        cur = 'inner'
    out += ['  let s0 = scalled(sc, ctx, %s, node, %s)' % (pre, cur)]
    i = 0
    for k in ks:
        if k == 'PUSH_SCOPE':
            cur = 'inner'
            continue
        g = getter(s, k)
        typ, fld = g if g else (('[]Node' if k.endswith('s') else 'Node'), k)
        if typ == '[]Node':
            nxt = 'svisits(s%d, arr(n.%s), off(n.%s), len(n.%s), %s, ctx)' % (i, fld, fld, fld, cur)
        else:
            nxt = 'svisit(s%d, ctx, %s, %s)' % (i, ref(fld), cur)
        out += ['  let s%d = %s' % (i + 1, nxt if i == 0 and typ == '[]Node' else 'ite(w_stop(t%d), s%d, %s)' % (i, i, nxt))]
        i += 1
    aftcur = 'inner' if first else 'sid(ctx.WalkCtx)'
    e = 'sc == scalled(s%d, ctx, %s, node, %s)' % (i, aft, 'old(%s)' % aftcur if aftcur != 'inner' else 'inner')
    out += ['  ensures ' + ('known ==> ' if 'PUSH_SCOPE' in ks else '') + e]
    out += ['  ensures kept(ctx)', '']
    for w, ev in (('Before', 'bev'), ('After', 'aev')):
        out += ['func Visit%s%s(node, key, ctx)' % (s, w), '  property C09', '  requires wk(ctx) && nodeIs(ctx, node)']
        if not one:
            out += ['  requires ' + ' || '.join('ntyp(node) == parser.%s' % t for t in ts)]
        out += ['  modifies *walking', '  ensures tr == listened(old(tr), %s(%s), node, key, ctx)' % (ev, before), '  ensures kept(ctx)', '']
open('/verif/contracts/walkvisit.spec', 'w').write('\n'.join(out))
print(len(types), sum(1 for l in out if l.startswith('func ')))
