"""C01: dispatch reaches the handler of the node's own rule kind.

For the visitor's `visit`, the listener's `enter` and `exit`, every path summary is
compared, for each rule kind constant k (and for an index that is none of them), with
the specified one: the guards admit rule_index == k  =>  the only hook called on the
visitor/listener is the one named after k, with the dispatched node, and (visitor) its
result is what is returned.  Each typed accept/enter/exit calls its own handler with
itself.  `as_rule` of a node is that node.
"""
from lib import *

KINDS = ['rule_list', 'parser_rule', 'block', 'alternative', 'epsilon', 'element', 'ebnf_suffix', 'lexer_rule', 'regular']
RCT = 'runtime::ast::rule_context::RuleContext'
FAM = {'syntaxis': 'tool::syntaxis::', 'v1': 'tool::v1::'}


def hook_calls(it, st, trace, traits):
    """[(method, args...)] of trait-method calls on the given traits, in order; None if inside a loop"""
    out = []
    for ctx, e in flat(trace):
        if e[0] == 'call' and any(e[1].startswith(t + '::') for t in traits):
            if ctx:
                return None
            out.append((short(e[1]), tuple(nv(it, st, x) for x in e[2]), e[3]))
        elif e[0] == 'call' and e[1] in ('indirect', 'closure'):
            return None
    return out


def rule_ids(src, fam):
    out = {}
    for k in KINDS:
        c = src.d['consts'].get(FAM[fam] + 'syntaxis_parser::SyntaxisParser::' + k.upper())
        if c and c['c']['k'] == 'int':
            out[k] = c['c']['v']
    return out


def strip_calls(x):
    return cstrip(x)


def dispatch(r, src, fam, name, trait, handler, default, returns):
    it, ps = get_paths(r, src, name)
    if ps is None:
        return
    ids = rule_ids(src, fam)
    if len(ids) != len(KINDS) or len(set(ids.values())) != len(KINDS):
        r.bad('kinds', FAM[fam] + 'syntaxis_parser', 'the nine rule kinds are not nine distinct constants: %s' % ids)
        return
    idx = F(A(1), 'rule_index')
    for kind, k in list(ids.items()) + [('unknown', None)]:
        hit = 0
        for p in ps:
            f = Facts(p.st, it)
            dec = [(f.dec(ieq(idx, Int(v)))) for v in ids.values()]
            if k is None:
                if True in dec:
                    continue
            else:
                if f.dec(ieq(idx, Int(k))) is False or any(d is True and v != k for d, v in zip(dec, ids.values())):
                    continue
            hit += 1
            und = all(understood(a) for a, v in conds(p.trace, it, p.st))
            exp = (handler + kind if k is not None else default)
            loc = name
            what = 'for a %s node' % kind
            if p.kind == 'panic':
                (r.bad if und else r.undec)('dispatch', loc, '%s: panics (%s)' % (what, p.val[0]))
                continue
            hc = hook_calls(it, p.st, p.trace, [trait])
            if hc is None:
                r.undec('dispatch', loc, '%s: handlers are called in a loop or through a table' % what)
                continue
            got = [(n, a) for n, a, _ in hc]
            want = [] if exp is None else [(exp, (A(0), A(1)))]
            if got != want:
                ok_ = und and all(understood(x) for n, a in got for x in a)
                (r.bad if ok_ else r.undec)('dispatch', loc, '%s: calls %s instead of %s' % (
                    what, ', '.join('%s(%s)' % (n, ', '.join(show(x) for x in a)) for n, a in got) or 'nothing', exp or 'nothing'))
                continue
            if returns and exp is not None:
                v = it.val(p.st, p.val)
                if v != hc[0][2]:
                    (r.bad if und and understood(nv(it, p.st, v)) else r.undec)('dispatch-result', loc, '%s: the result of %s is not what is returned' % (what, exp))
                    continue
            r.ok('dispatch', loc, '%s -> %s' % (what, exp or 'nothing'))
        if not hit:
            r.undec('dispatch', name, 'no path for %s' % kind)


def single(r, src, name, trait, want, recv, node, returns):
    it, ps = get_paths(r, src, name)
    if ps is None:
        return
    for p in ps:
        und = all(understood(a) for a, v in conds(p.trace, it, p.st))
        if p.kind == 'panic':
            (r.bad if und else r.undec)('own-handler', name, 'panics (%s)' % p.val[0])
            continue
        hc = hook_calls(it, p.st, p.trace, [trait])
        if hc is None:
            r.undec('own-handler', name, 'handlers are called in a loop or through a table')
            continue
        got = [(n, tuple(x for x in a)) for n, a, _ in hc]
        if got != [(want, (recv, node))]:
            (r.bad if und else r.undec)('own-handler', name, 'calls %s instead of %s(%s)' % (
                ', '.join('%s(%s)' % (n, ', '.join(show(x) for x in a)) for n, a in got) or 'nothing', want, show(node)))
            continue
        if returns and it.val(p.st, p.val) != hc[0][2]:
            (r.bad if und else r.undec)('own-handler', name, 'the handler\'s result is not what is returned')
            continue
        r.ok('own-handler', name, '-> %s' % want)


def run(r, src):
    for fam, pre in FAM.items():
        vis = pre + 'syntaxis_visitor::SyntaxisVisitor'
        dispatch(r, src, fam, vis + '::visit', vis, 'visit_', 'visit_children', True)
        for k in KINDS:
            T = pre + 'syntaxis_context::' + ''.join(w.capitalize() for w in k.split('_')) + 'Context'
            single(r, src, '<%s as %s>::accept' % (RCT, T), vis, 'visit_' + k, A(1), A(0), True)
            if fam == 'syntaxis':
                lis = pre + 'syntaxis_listener::SyntaxisListener'
                for w in ('enter', 'exit'):
                    single(r, src, '<%s as %s>::%s' % (RCT, T, w), lis, '%s_%s' % (w, k), A(1), A(0), False)
    lis = FAM['syntaxis'] + 'syntaxis_listener::SyntaxisListener'
    for w in ('enter', 'exit'):
        dispatch(r, src, 'syntaxis', lis + '::' + w, lis, w + '_', None, False)
    for w in ('as_rule', 'as_mut_rule'):
        n = '<%s as runtime::ast::to_rule::ToRule>::%s' % (RCT, w)
        it, ps = get_paths(r, src, n)
        for p in ps or []:
            v = nv(it, p.st, p.val) if p.kind == 'ret' else ('panic',)
            (r.ok if v == A(0) else (r.bad if understood(v) else r.undec))('same-node', n, 'returns %s' % fmt(v))


FLOOR = 40
