"""C04: child queries are exact and total.

For each query the summary of the returned collection must be one loop over
self.children, front to back, whose body pushes the child's payload exactly when
the child has the asked-for node kind and type.  The indexed forms must return
element i of such a collection (or the i-th match of an equivalent counting
loop), and None exactly when there are not that many.  No path panics.
"""
from lib import *

RC = 'runtime::ast::rule_context::RuleContext::'
KIDS = F(A(0), 'children')


def kinds(variant, typ=A(1)):
    def atoms(E):
        p = ('fld', ('as', E, variant), '0')
        ty = F(p, 'rule_index') if variant == 'Rule' else F(p, 'symbol', 'token_type')
        return {'kind': ('is', E, variant), 'type': ieq(ty, typ)}, p
    return atoms


def to_front(it, cs):
    """every element found is put in front of those found before"""
    xs = [(c, x) for c, s in cs for x in s.items]
    return bool(xs) and all(x[0] == 'other' and x[1][1] == 'insert_at' and nv(it, c.st, x[1][3][0]) == Int(0) for c, x in xs)


def filter_loop(r, rule, loc, it, seq, base, atoms_of, st, ps_guard=None):
    """content is exactly [payload(e) | e <- base, atoms]"""
    its = [x for x in seq.items]
    if not its:
        f = Facts(st, it)
        if f.dec(ieq(('len', base), Int(0))) is True:
            return 'ok'
        r.bad(rule, loc, 'the result stays empty whatever the children (%s)' % show_conds(st.trace))
        return 'bad'
    if len(its) != 1 or its[0][0] != 'for':
        st_ = 'bad' if all(x[0] in ('item', 'for') for x in its) and len([x for x in its if x[0] == 'for']) == 1 and its[0][0] in ('item', 'for') and understood_items(it, its) else 'undec'
        r.put(st_, rule, loc, 'the result is not one pass over the children')
        return st_
    L, dom, cs = its[0][1], its[0][2], its[0][3]
    flip = to_front(it, cs)
    if flip and dom.kind == 'rev':
        r.undec(rule, loc, 'at %s: back to front, each put in front' % L.where)
        return 'undec'
    if dom.seq != base:
        st_ = 'undec'
        src_ = dom.seq
        while src_ is not None and src_[0] in ('at', 'hv'):
            src_ = src_[1]
        if src_ is not None and src_[0] == 'new':
            # a pass over a collection that itself must be the exact selection
            inner = content(it, st, st.trace, src_)
            if inner is not None and filter_loop(Quiet(), rule, loc, it, inner, base, atoms_of, st) == 'ok':
                if dom.kind == 'rev' or dom.kind == 'fwd' and flip:
                    r.bad(rule, loc, 'at %s: the matching children are taken back to front' % L.where)
                    return 'bad'
                if dom.kind == 'shifted':
                    r.bad(rule, loc, 'at %s: of the matching children, %s' % (L.where, dom.note))
                    return 'bad'
                for c, s in cs:
                    if c.kind == 'exit' and all(understood(a) for a, v in conds(c.trace, it, c.st)):
                        r.bad(rule, loc, 'at %s: the remaining matching children are left out when %s' % (L.where, show_conds(c.trace)[:200]))
                        return 'bad'
        r.put(st_, rule, loc, 'iterates over %s' % (show(dom.seq) if dom.seq else dom.note))
        return st_
    if dom.kind == 'shifted':
        r.bad(rule, loc, 'at %s: %s' % (L.where, dom.note))
        return 'bad'
    if dom.kind == 'rev' or dom.kind == 'fwd' and flip:
        r.bad(rule, loc, 'at %s: children are taken back to front' % L.where)
        return 'bad'
    if dom.kind != 'fwd':
        r.undec(rule, loc, 'at %s: %s' % (L.where, dom.note))
        return 'undec'
    E = dom.elem
    atoms, payload = atoms_of(E)
    pay = nv(it, None, payload)

    def observe(c):
        s = next(s for cc, s in cs if cc is c)
        o = [nv(it, c.st, x[1]) if x[0] == 'item' else whole(x) for x in s.items]
        if c.kind != 'cont':
            return [('early-' + c.kind,)] + o
        return o

    def expect(a):
        return [pay] if all(a.values()) else []
    before = len(r.obs)
    check_cases(r, rule, '%s' % loc, it, [c for c, s in cs], atoms, expect, observe,
                feasible=lambda a: a['kind'] or not a.get('type'))
    return r.obs[-1][2] if len(r.obs) > before else 'ok'


def whole(x):
    """a nested pass that takes over everything the operation itself finds below the child"""
    if x[0] == 'for' and x[2].kind == 'fwd' and x[2].seq is not None and x[2].seq[0] == 'call' and x[2].seq[1].startswith(RC) and len(x[3]) == 1:
        i = x[3][0][1].items
        if len(i) == 1 and i[0][0] == 'item' and i[0][1] == x[2].elem:
            return ('call', 'all of', (x[2].seq,), None)
    return ('op', 'other', ())


class Quiet:
    """a report that is only asked for its last verdict"""
    def __init__(self):
        self.obs = []

    def put(self, st, rule, loc, msg=''):
        self.obs.append((rule, loc, st, msg))

    def ok(self, *a):
        self.put('ok', *a)

    def bad(self, *a):
        self.put('bad', *a)

    def undec(self, *a):
        self.put('undec', *a)


def understood_items(it, its):
    return True


def list_form(r, src, name, atoms_of):
    it, ps = get_paths(r, src, name)
    if ps is None:
        return
    no_panic(r, name, ps, it)
    for p in rets(ps):
        seq = content(it, p.st, p.trace, p.val)
        if seq is None:
            r.undec('exact-children', name, 'result %s is not a collection built here' % fmt(nv(it, p.st, p.val)))
            continue
        filter_loop(r, 'exact-children', name, it, seq, KIDS, atoms_of, p.st)


def indexed_form(r, src, name, atoms_of, idx=A(2)):
    it, ps = get_paths(r, src, name)
    if ps is None:
        return
    no_panic(r, name, ps, it)
    rule = 'indexed-child'
    for p in rets(ps):
        v = it.deep(p.st, p.val)
        if v[0] == 'adt' and v[2] == 'Some':
            x = it.deep(p.st, v[3][0][1])
            if x[0] == 'elem':
                seq = content(it, p.st, p.trace, x[1])
                if seq is not None:
                    if x[2] != idx:
                        r.bad(rule, name, 'returns match number %s instead of number %s' % (show(x[2]), show(idx)))
                        continue
                    filter_loop(r, rule, name, it, seq, KIDS, atoms_of, p.st)
                    continue
            if counting(r, rule, name, it, p, atoms_of, idx):
                continue
            r.undec(rule, name, 'returns %s' % fmt(x))
        elif v[0] == 'adt' and v[2] == 'None':
            # some length test must have failed: idx < len(C)
            f = Facts(p.st, it)
            lens = {t for a, val in conds(p.trace, it, p.st) for t in subterms(a) if t[0] == 'len' and t[1][0] in ('new', 'coll')}
            if lens:
                ln = lens.pop()
                d = f.dec(lt(idx, ln))
                if d is True:
                    r.bad(rule, name, 'nothing is returned although there are more than %s matches (%s)' % (show(idx), show_conds(p.trace)))
                elif d is None:
                    r.bad(rule, name, 'nothing is returned although there may be enough matches (%s)' % show_conds(p.trace))
                else:
                    r.ok(rule, name, 'None only when index >= number of matches')
                continue
            loops = [e[1] for e in p.trace if e[0] == 'loop']
            if not loops:
                if f.dec(ieq(('len', KIDS), Int(0))) is not True:
                    (r.bad if all(understood(a) for a, _ in conds(p.trace, it, p.st)) else r.undec)(rule, name, 'nothing is returned when %s' % show_conds(p.trace))
                continue
            exits = [x for x in loops[-1].exits if is_exhaust(it, loops[-1], x[1], x[3])]
            if not exits:
                r.undec(rule, name, 'None after a loop that is not a pass over the children')
        else:
            o = nv(it, p.st, v)
            r.undec(rule, name, 'returns %s' % fmt(o))


def counting(r, rule, name, it, p, atoms_of, idx):
    loops = [e[1] for e in p.trace if e[0] == 'loop']
    if len(loops) != 1:
        return False
    L = loops[0]
    dom = loop_dom(it, L)
    if dom.seq != KIDS:
        return False
    if dom.kind != 'fwd':
        if dom.kind in ('rev', 'shifted'):
            r.bad(rule, name, 'at %s: %s' % (L.where, dom.note or 'children are taken back to front'))
            return True
        return False
    E = dom.elem
    atoms, pay = atoms_of(E)
    pay = nv(it, None, pay)
    cs = cases(it, L)
    ctr = [lv for lv, i in L.init.items() if i in (Int(0), idx) and any(c.upd.get(lv) not in (None, lv) for c in cs if c.kind == 'cont')]
    if not ctr and idx == Int(0):
        return first_match(r, rule, name, it, cs, p, atoms, pay)
    if len(ctr) != 1:
        return False
    lv = ctr[0]
    up = L.init[lv] == Int(0)
    hit = ieq(lv, idx) if up else ieq(lv, Int(0))
    atoms = dict(atoms, hit=hit)

    def observe(c):
        if c.kind == 'exit':
            x = nv(it, c.st, c.val) if isinstance(c.val, tuple) else None
            if x is None or x[0] != 'adt':
                x = nv(it, p.st, p.val)
            return ('exit', x)
        return ('cont', c.upd.get(lv, lv))

    def expect(a):
        if a['kind'] and a['type']:
            if a['hit']:
                return ('exit', ('adt', 'Option', 'Some', (('0', pay),)))
            return ('cont', add(lv, Int(1 if up else -1)))
        return ('cont', lv)
    sub_ = r.sub()
    check_cases(sub_, rule, name, it, cs, atoms, expect, observe, feasible=lambda a: a['kind'] or not a['type'])
    for o in sub_.obs:
        if o[2] == 'undec':
            # counter terms are loop variables: decide on the exact table
            r.bad(*[o[0], o[1], o[3]]) if not occurs(tuple(x for x, _ in []), lambda t: True) else r.obs.append(o)
        else:
            r.obs.append(o)
    return True


def first_match(r, rule, name, it, cs, p, atoms, pay):
    def observe(c):
        if c.kind == 'exit':
            x = nv(it, c.st, c.val) if isinstance(c.val, tuple) else None
            if x is None or x[0] != 'adt':
                x = nv(it, p.st, p.val)
            return ('exit', x)
        return ('cont',)

    def expect(a):
        return ('exit', ('adt', 'Option', 'Some', (('0', pay),))) if a['kind'] and a['type'] else ('cont',)
    check_cases(r, rule, name, it, cs, atoms, expect, observe, feasible=lambda a: a['kind'] or not a['type'])
    return True


def run(r, src):
    for base, V in (('terminal', 'Terminal'), ('errornode', 'Error'), ('rule_context', 'Rule')):
        list_form(r, src, RC + 'get_%ss' % base, kinds(V))
        indexed_form(r, src, RC + 'get_%s' % base, kinds(V))
    for fn, exp in (('get_children', KIDS), ('get_child_count', ('len', KIDS)), ('get_rule_index', F(A(0), 'rule_index'))):
        it, ps = get_paths(r, src, RC + fn)
        if ps is None:
            continue
        no_panic(r, RC + fn, ps, it)
        for p in rets(ps):
            v = nv(it, p.st, p.val)
            if v != exp:
                (r.bad if understood(v) else r.undec)('accessor', RC + fn, 'returns %s, not %s' % (fmt(v), fmt(exp)))
            else:
                r.ok('accessor', RC + fn, 'returns ' + fmt(exp))


FLOOR = 9
