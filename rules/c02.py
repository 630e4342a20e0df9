"""C02: default traversal handles every child once, in order, balanced.

`visit_children`: default_result first, then one front-to-back loop over the node's
children whose every case is: ask the stop hook with the running result; if it says no,
leave the loop with the running result; else call exactly the handler of the child's node
kind with the child, and fold its result through the aggregation hook.  The running
result is what is returned.  The per-rule default handlers are one call of visit_children
with their own node; by default the latest child's result is the running result, a leaf
gives the default result and listener hooks call nothing.  `walk`: enter_every, enter, the loop (terminal and error children
as an enter/exit pair, rule children by a recursive walk with the same listener), exit,
exit_every.
"""
from lib import *
from c01 import KINDS, FAM, RCT, hook_calls


def hev(it, st, trace, traits, rec):
    """hook events of a straight-line trace, as [(name, args, raw result)]; loops are ('loop', L)"""
    out = []
    for e in toplevel(trace):
        if e[0] == 'loop':
            if any(x[0] == 'call' for t, u, s in e[1].conts for _, x in flat(t)):
                out.append(('loop', e[1], None))
        elif e[0] == 'call':
            if any(e[1].startswith(t + '::') for t in traits) or e[1] in ('indirect', 'closure') or rec(e[1]):
                out.append((short(e[1]), tuple(nv(it, st, x) for x in e[2]), e[3]))
    return out


def fmt_ev(ev):
    return ', '.join('a loop' if n == 'loop' else '%s(%s)' % (n, ', '.join(show(x) for x in a)) for n, a, _ in ev) or 'nothing'


def verdict(r, rule, loc, und, msg):
    (r.bad if und else r.undec)(rule, loc, msg)


def und_trace(it, p, ev=()):
    return all(understood(a) for a, v in conds(toplevel(p.trace), it, p.st)) and all(understood(x) for n, a, _ in ev if n != 'loop' for x in a)


def children_loop(r, rule, loc, it, L, node):
    dom = loop_dom(it, L)
    if dom.kind == 'fwd' and dom.seq == F(node, 'children'):
        return dom.elem
    if dom.seq == F(node, 'children') and dom.kind in ('rev', 'shifted'):
        r.bad(rule, loc, 'at %s: %s' % (L.where, dom.note or 'the children are taken back to front'))
    else:
        r.undec(rule, loc, 'at %s: loop over %s' % (L.where, show(dom.seq) if dom.seq else dom.note))
    return None


KV = {'Terminal': 'visit_terminal', 'Rule': 'visit', 'Error': 'visit_errornode'}
WALK = {'Terminal': ('enter_terminal', 'exit_terminal'), 'Error': ('enter_errornode', 'exit_errornode')}


def kind_of(f, E):
    ks = [k for k in KV if f.dec(('is', E, k)) is not False]
    return ks


def visit_children(r, src, vis):
    name = vis + '::visit_children'
    it, ps = get_paths(r, src, name)
    if ps is None:
        return
    none = lambda n: False
    for p in ps:
        ev = hev(it, p.st, p.trace, [vis], none)
        und = und_trace(it, p, ev)
        if p.kind == 'panic':
            verdict(r, 'traversal', name, und, 'panics (%s)' % p.val[0])
            continue
        if not ev or ev[0][0] != 'default_result' or ev[0][1] != (A(0),):
            called = any(e[0] == 'call' and short(e[1]) in ('default_result', 'indirect') or e[0] == 'closure' for ctx, e in flat(p.trace))
            verdict(r, 'traversal', name, und and bool(ev) and (ev[0][0] != 'loop' or not called), 'does not start from the default result: %s' % fmt_ev(ev))
            continue
        loops = [e for e in ev if e[0] == 'loop']
        if len(loops) != 1 or len(ev) != 2:
            if not loops and und:
                f = Facts(p.st, it)
                if len(ev) == 1 and f.dec(ieq(('len', F(A(1), 'children')), Int(0))) is True and it.val(p.st, p.val) == ev[0][2]:
                    r.ok('traversal', name, 'no children: the default result')
                    continue
            verdict(r, 'traversal', name, und and len(loops) <= 1, 'expected the default result and one pass over the children, found %s' % fmt_ev(ev))
            continue
        L = loops[0][1]
        E = children_loop(r, 'traversal', name, it, L, A(1))
        if E is None:
            continue
        d0 = ev[0][2]
        accs = [lv for lv, i in L.init.items() if i == d0]
        if not accs and und:
            kept = [c for c in cases(it, L) if c.kind == 'cont' and not any(
                e[0] == 'call' and short(e[1]) in ('aggregate_result', 'indirect') or e[0] == 'closure' for ctx, e in flat(c.trace))]
            if kept:
                r.bad('traversal', name, 'at %s: the result of a child is not aggregated, when %s' % (L.where, show_conds(kept[0].trace)))
                continue
        if len(accs) != 1:
            r.undec('traversal', name, 'the running result is not one loop variable')
            continue
        acc = accs[0]

        def na(x, st):
            return subst(nv(it, st, x), lambda t: ('sym', 'result') if t == acc else None)
        RES = ('sym', 'result')
        okall = True
        for c in cases(it, L):
            cev = []
            for e in c.trace:
                if e[0] == 'call' and (e[1].startswith(vis + '::') or e[1] in ('indirect', 'closure')):
                    cev.append((short(e[1]), tuple(na(x, c.st) for x in e[2]), e[3]))
            f = c.facts(it)
            cu = all(understood(subst(a, lambda t: RES if t == acc else None)) for a, v in conds(c.trace, it, c.st))
            loc = name
            if c.kind == 'panic':
                verdict(r, 'traversal', loc, cu, 'panics for a child (%s)' % (c.val[0],))
                okall = False
                continue
            if not cev or cev[0][0] != 'should_visit_next_child' or cev[0][1] != (A(0), A(1), RES):
                verdict(r, 'traversal', loc, cu, 'the stop hook is not asked first (with the node and the running result): %s' % fmt_ev(cev))
                okall = False
                continue
            go = c.st.decide(cev[0][2])
            if go is None:
                verdict(r, 'traversal', loc, cu, 'the answer of the stop hook is not used')
                okall = False
                continue
            if not go:
                if c.kind != 'exit' or len(cev) != 1:
                    verdict(r, 'traversal', loc, cu, 'after the stop hook says no: %s%s' % ('goes on with the next child' if c.kind == 'cont' else '', fmt_ev(cev[1:])))
                    okall = False
                continue
            if c.kind == 'exit':
                verdict(r, 'traversal', loc, cu, 'leaves the loop although the stop hook said to go on, when %s' % show_conds(c.trace))
                okall = False
                continue
            for k in kind_of(f, E):
                pay = ('fld', ('as', E, k), '0')
                want = [(KV[k], (A(0), pay)), ('aggregate_result',)]
                good = (len(cev) == 3 and cev[1][0] == KV[k] and cev[1][1] == (A(0), pay) and cev[2][0] == 'aggregate_result'
                        and len(cev[2][1]) == 3 and cev[2][1][1] == RES and cstrip(cev[2][1][2]) == cstrip(na(cev[1][2], c.st))
                        and c.upd.get(acc) is not None and it.val(c.st, c.upd[acc]) == cev[2][2])
                if not good:
                    verdict(r, 'traversal', loc, cu, 'for a %s child: after the stop hook: %s; running result := %s' % (
                        k, fmt_ev(cev[1:]), fmt(na(c.upd.get(acc, acc), c.st))))
                    okall = False
        v = it.val(p.st, p.val)
        if v != acc:
            verdict(r, 'traversal-result', name, und and understood(subst(nv(it, p.st, v), lambda t: RES if t == acc else None)), 'returns %s instead of the running result' % fmt(nv(it, p.st, v)))
            okall = False
        if okall:
            r.ok('traversal', name, 'each child once, in order, %d cases' % len(cases(it, L)))


def default_handlers(r, src, vis):
    for k in KINDS:
        name = vis + '::visit_' + k
        it, ps = get_paths(r, src, name)
        for p in ps or []:
            ev = hev(it, p.st, p.trace, [vis], lambda n: False)
            und = und_trace(it, p, ev)
            arg = None
            if len(ev) == 1 and ev[0][0] == 'visit_children' and len(ev[0][1]) == 2:
                arg = ev[0][1][1]
            good = arg is not None and callt(arg, 'as_rule') is not None and callt(arg, 'as_rule')[1] == (A(1),) and ev[0][1][0] == A(0)
            if good and p.kind == 'ret' and it.val(p.st, p.val) == ev[0][2]:
                r.ok('default-handler', name, 'visits the children and returns their result')
            else:
                verdict(r, 'default-handler', name, und, 'is not a traversal of its own node: %s' % fmt_ev(ev))
    name = vis + '::should_visit_next_child'
    it, ps = get_paths(r, src, name)
    for p in ps or []:
        v = rv(it, p.st, p.val) if p.kind == 'ret' else ('panic',)
        if v == TRUE:
            r.ok('default-stop', name, 'never stops by default')
        else:
            verdict(r, 'default-stop', name, und_trace(it, p) and understood(v), 'answers %s when %s: children would be left out by default' % (fmt(v), show_conds(p.trace)))


def default_hooks(r, src, vis):
    name = vis + '::aggregate_result'
    it, ps = get_paths(r, src, name)
    for p in ps or []:
        v = nv(it, p.st, p.val) if p.kind == 'ret' else ('panic',)
        if cstrip(v) == A(2):
            r.ok('default-fold', name, 'the latest result is the running result')
        else:
            verdict(r, 'default-fold', name, und_trace(it, p) and understood(v), 'gives %s when %s' % (fmt(v), show_conds(p.trace)))
    for k in ('visit_terminal', 'visit_errornode'):
        name = vis + '::' + k
        it, ps = get_paths(r, src, name)
        for p in ps or []:
            ev = hev(it, p.st, p.trace, [vis], lambda n: False)
            if p.kind == 'ret' and [(n, a) for n, a, _ in ev] == [('default_result', (A(0),))] and it.val(p.st, p.val) == ev[0][2]:
                r.ok('default-leaf', name, 'a leaf gives the default result')
            else:
                verdict(r, 'default-leaf', name, und_trace(it, p, ev) and not any(e[0] == 'loop' for e in toplevel(p.trace)), 'does not just give the default result: %s' % fmt_ev(ev))


def default_listener(r, src, lis):
    hooks = ['%s_%s' % (x, k) for x in ('enter', 'exit') for k in KINDS + ['terminal', 'errornode', 'every_rule']]
    for h in hooks:
        name = lis + '::' + h
        it, ps = get_paths(r, src, name)
        for p in ps or []:
            ev = hev(it, p.st, p.trace, [lis], lambda n: False)
            if p.kind == 'ret' and not ev:
                r.ok('default-listener', name, 'calls nothing')
            else:
                verdict(r, 'default-listener', name, und_trace(it, p, ev), 'is not silent by default: %s' % (fmt_ev(ev) if ev else p.val[0]))


def walk(r, src, pre):
    lis = pre + 'syntaxis_listener::SyntaxisListener'
    wk = pre + 'syntaxis_walker::SyntaxisWalker'
    name = wk + '::walk'
    it, ps = get_paths(r, src, name)
    if ps is None:
        return
    rec = lambda n: n.startswith(wk + '::') or (n in src.d['fns'] and not n.startswith(lis))
    NODE, LI = A(2), A(1)
    want = ['enter_every_rule', 'enter', 'loop', 'exit', 'exit_every_rule']
    for p in ps:
        ev = hev(it, p.st, p.trace, [lis], rec)
        und = und_trace(it, p, ev)
        if p.kind == 'panic':
            verdict(r, 'walk', name, und, 'panics (%s)' % p.val[0])
            continue
        names = [e[0] for e in ev]
        if names != want or any(e[1] != (LI, NODE) for e in ev if e[0] != 'loop'):
            if names.count('loop') <= 1:
                f = Facts(p.st, it)
                if names == [w for w in want if w != 'loop'] and f.dec(ieq(('len', F(NODE, 'children')), Int(0))) is True:
                    continue
                verdict(r, 'walk', name, und, 'a node is walked as: %s' % fmt_ev(ev))
            else:
                busy = []
                for e in ev:
                    if e[0] == 'loop':
                        d = loop_dom(it, e[1])
                        if d.kind in ('fwd', 'rev') and d.seq == F(NODE, 'children') and any(hev(it, c.st, c.trace, [lis], rec) for c in cases(it, e[1], d)):
                            busy.append(e)
                if len(busy) > 1 and all(understood(a) for a, v in conds([e for e in p.trace if e[0] == 'cond'], it, p.st)):
                    verdict(r, 'walk', name, True, 'the children are handled in %d passes, so not one after the other' % len(busy))
                else:
                    r.undec('walk', name, 'several loops')
            continue
        L = ev[2][1]
        E = children_loop(r, 'walk', name, it, L, NODE)
        if E is None:
            continue
        okall = True
        for c in cases(it, L):
            cev = hev(it, c.st, c.trace, [lis], rec)
            cu = all(understood(a) for a, v in conds(c.trace, it, c.st)) and not any(e[0] in ('loop', 'indirect', 'closure') for e in cev)
            if c.kind != 'cont':
                verdict(r, 'walk', name, cu, 'the walk of the children is left early when %s' % show_conds(c.trace))
                okall = False
                continue
            f = c.facts(it)
            for k in kind_of(f, E):
                pay = ('fld', ('as', E, k), '0')
                if k in WALK:
                    good = [(n, a) for n, a, _ in cev] == [(w, (LI, pay)) for w in WALK[k]]
                else:
                    good = len(cev) == 1 and rec(full(cev[0][2])) and cev[0][0] not in WALK['Terminal'] + WALK['Error'] and LI in cev[0][1] and pay in cev[0][1]
                if not good:
                    verdict(r, 'walk', name, cu, 'a %s child is walked as: %s' % (k, fmt_ev(cev)))
                    okall = False
        if okall:
            r.ok('walk', name, 'balanced, each child once, in order')


def full(res):
    return res[1] if res[0] == 'call' else ''


def run(r, src):
    for fam, pre in FAM.items():
        vis = pre + 'syntaxis_visitor::SyntaxisVisitor'
        visit_children(r, src, vis)
        default_handlers(r, src, vis)
        default_hooks(r, src, vis)
    default_listener(r, src, FAM['syntaxis'] + 'syntaxis_listener::SyntaxisListener')
    walk(r, src, FAM['syntaxis'])


FLOOR = 12
