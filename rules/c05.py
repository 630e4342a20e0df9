"""C05: a node's extent and text cover exactly the tokens beneath it.

get_start_token / get_stop_token / get_first_terminal / get_last_terminal must be one
pass over the node's children, from the proper end, whose cases are: a token child of the
wanted kind ends the search with that child('s token); a sub-rule ends it exactly when
the same search in the sub-rule finds something, with what it found; anything else goes
on; exhausted means nothing.  By induction over the tree that is the outermost token.
get_text is the slice of the input between the start of the start token and the end of
the stop token, empty without tokens.
"""
from lib import *

RC = 'runtime::ast::rule_context::RuleContext::'
KIDS = F(A(0), 'children')


def Some(v):
    return ('adt', 'Option', 'Some', (('0', v),))


def recursive(it, c, pay):
    """calls in this case that repeat the enclosing search in the sub-rule: result terms"""
    ok_, bad = [], []
    for e in c.trace:
        if e[0] != 'call' or len(e) < 6 or e[5] is None:
            continue
        got = tuple(nv(it, c.st, x) for x in e[2])
        frame = tuple(nv(it, c.st, x) for x in e[5])
        want = tuple(subst(x, lambda t: pay if t == A(0) else None) for x in frame)
        kids = tuple(subst(x, lambda t: F(pay, 'children') if t == KIDS else None) for x in frame)
        (ok_ if got == want or got == kids else bad).append((e[3], got))
    return ok_, bad


def search(r, src, fn, wanted, sel, direction):
    name = RC + fn
    it, ps = get_paths(r, src, name)
    if ps is None:
        return
    no_panic(r, name, ps, it)
    rule = 'outermost-token'
    seen = set()
    for p in rets(ps):
        loops = [e[1] for e in toplevel(p.trace) if e[0] == 'loop']
        f = Facts(p.st, it)
        v = nv(it, p.st, p.val)
        if not loops:
            und = all(understood(a) for a, _ in conds(p.trace, it, p.st)) and understood(v)
            if f.dec(ieq(('len', KIDS), Int(0))) is True:
                if v[0] == 'adt' and v[2] == 'None':
                    continue
            (r.bad if und else r.undec)(rule, name, 'answers %s without looking at all children, when %s' % (fmt(v), show_conds(p.trace)))
            continue
        if len(loops) > 1:
            r.undec(rule, name, 'several loops')
            continue
        L = loops[0]
        if L.id in seen:
            continue
        seen.add(L.id)
        dom = loop_dom(it, L)
        if dom.seq is not None and dom.seq != KIDS and cut_from(dom.seq)[0] == KIDS and cut_from(dom.seq)[1]:
            r.bad(rule, name, 'at %s: %s' % (L.where, cut_from(dom.seq)[1]))
            continue
        if dom.seq != KIDS or dom.kind == 'other':
            r.undec(rule, name, 'loop over %s' % (show(dom.seq) if dom.seq else dom.note))
            continue
        if dom.kind == 'shifted':
            r.bad(rule, name, 'at %s: %s' % (L.where, dom.note))
            continue
        E = dom.elem
        cs = cases(it, L)
        # keep-last loops: never leave early, overwrite the result with every hit
        keep = None
        lvs = [lv for lv, i in L.init.items() if i is not None and i[0] == 'adt' and i[2] == 'None']
        if all(c.kind == 'cont' for c in cs) and len(lvs) == 1 and it.val(p.st, p.val) == lvs[0]:
            keep = lvs[0]
        eff = dom.kind if keep is None else {'fwd': 'rev', 'rev': 'fwd'}[dom.kind]
        if eff != direction:
            r.bad(rule, name, 'at %s: searches from the %s end' % (L.where, 'front' if eff == 'fwd' else 'back'))
            continue
        good = True
        for c in cs:
            cf = c.facts(it)
            cu = all(understood(a) for a, _ in conds(c.trace, it, c.st))
            if c.kind == 'panic':
                continue
            if keep is not None:
                u = c.upd.get(keep, keep)
                out = ('cont',) if u == keep else ('exit', nv(it, c.st, u))
            elif c.kind == 'exit':
                x = nv(it, c.st, c.val) if isinstance(c.val, tuple) else None
                if x is None or x[0] not in ('adt', 'call'):
                    x = exit_value(it, ps, L, c)
                out = ('exit', x)
            else:
                out = ('cont',)
            for k in ('Terminal', 'Rule', 'Error'):
                if cf.dec(('is', E, k)) is False:
                    continue
                pay = ('fld', ('as', E, k), '0')
                if k == 'Rule':
                    okc, badc = recursive(it, c, pay)
                    if badc and not okc:
                        if not understood(badc[0][1]):
                            r.undec(rule, name, 'searches the sub-rule in an unrecognised way')
                        else:
                            r.bad(rule, name, 'a sub-rule is searched differently: %s' % fmt(badc[0][0]))
                        good = False
                        continue
                    if not okc:
                        others = [e for e in c.trace if e[0] == 'call']
                        (r.bad if cu and not others else r.undec)(rule, name, 'a sub-rule is not searched when %s' % show_conds(c.trace))
                        good = False
                        continue
                    res = nv(it, c.st, okc[0][0])
                    hit = cf.dec(('is', res, 'Some'))
                    if hit is None:
                        (r.bad if cu else r.undec)(rule, name, 'an empty sub-rule ends the search: %s when %s' % (fmt(out[1]) if len(out) > 1 else 'goes on', show_conds(c.trace)))
                        good = False
                        continue
                    exp = [('exit', res), ('exit', Some(('fld', ('as', res, 'Some'), '0')))] if hit else [('cont',)]
                elif k in wanted:
                    exp = [('exit', Some(F(pay, *sel)))]
                else:
                    exp = [('cont',)]
                if out not in exp:
                    und = cu and (len(out) == 1 or out[1] is not None and understood(out[1]))
                    (r.bad if und else r.undec)(rule, name, 'for a %s child when %s: %s instead of %s' % (
                        k, show_conds(c.trace), fmt(out[1]) if len(out) > 1 and out[1] else 'goes on', fmt(exp[0][1]) if len(exp[0]) > 1 else 'going on'))
                    good = False
        if good:
            r.ok(rule, name, '%s, %d cases' % (L.where, len(cs)))


def exit_value(it, ps, L, c):
    """what the function returns after leaving the loop this way"""
    for p in rets(ps):
        tr = p.trace
        for i, e in enumerate(tr):
            if e[0] == 'loop' and e[1] is L and tuple(tr[i + 1:i + 1 + len(c.trace)]) == tuple(c.trace):
                return nv(it, p.st, p.val)
    return None


def text(r, src):
    name = RC + 'get_text'
    op = (RC + 'get_start_token', RC + 'get_stop_token')
    it, ps = get_paths(r, src, name, op)
    if ps is None:
        return
    no_panic(r, name, ps, it)
    rule = 'text-extent'
    ST, SP = ('call', op[0], (A(0),), None), ('call', op[1], (A(0),), None)
    lo = F(('as', ST, 'Some'), '0', 'char_start_index')
    hi = F(('as', SP, 'Some'), '0', 'char_stop_index')
    cs = [Case('ret', p.trace, p.st, p.val) for p in rets(ps)]
    full = ('substr', A(1), lo, hi)

    def observe(c):
        v = cstrip(nv(it, c.st, c.val))
        if v[0] == 'substr' and v[1] == A(1) and v[2] == v[3]:
            return ('empty',)
        if v == Str(''):
            return ('empty',)
        return v

    def expect(a):
        if a['start'] and a['stop']:
            return full
        return ('empty',)
    for c in cs:
        v = observe(c)
        if v != ('empty',) and not occurs(v, lambda t: t[0] == 'call' and t[1] in op):
            r.undec(rule, name, 'returns %s' % fmt(v))
            return
    check_cases(r, rule, name, it, cs, {'start': ('is', ST, 'Some'), 'stop': ('is', SP, 'Some')}, expect, observe,
                feasible=lambda a: a['start'] == a['stop'])


def run(r, src):
    search(r, src, 'get_start_token', ('Terminal', 'Error'), ('symbol',), 'fwd')
    search(r, src, 'get_stop_token', ('Terminal', 'Error'), ('symbol',), 'rev')
    search(r, src, 'get_first_terminal', ('Terminal',), (), 'fwd')
    search(r, src, 'get_last_terminal', ('Terminal',), (), 'rev')
    text(r, src)
    for T in ('terminal_context::TerminalContext', 'error_context::ErrorContext'):
        name = 'runtime::ast::%s::get_text' % T
        it, ps = get_paths(r, src, name)
        for p in ps or []:
            v = nv(it, p.st, p.val) if p.kind == 'ret' else ('panic',)
            (r.ok if v == F(A(0), 'symbol', 'text') else (r.bad if understood(v) else r.undec))('leaf-text', name, 'returns %s' % fmt(v))


FLOOR = 8
