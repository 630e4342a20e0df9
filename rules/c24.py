"""C24: copies, equality, order and hashing of the library's values regard everything they hold.

Every implementation of Clone, PartialEq, Ord, PartialOrd and Hash for a type of the library is
taken from the compiler.  One that the compiler derives goes field by field.  Any other is
summarised: a copy must have the same variant and in every field the original's value, whole and
in order; equality must hold exactly when every field is equal; an order may call two values
equal only when every field is, and must when they are; a hash may depend on nothing but the
value itself.
"""
from lib import *
from fix import Stop, bad, undec, guard, definite

FLOOR = 1
TEXT = ('trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase')
TECHNIQUE = 'compiler-derived implementations enumerated from the type-checked program; any other one decided on its MIR path summaries'
CHECKED = {'std::clone::Clone': 'clone', 'std::cmp::PartialEq': 'eq', 'std::cmp::Ord': 'cmp', 'std::cmp::PartialOrd': 'partial_cmp', 'std::hash::Hash': 'hash'}


def run(r, src):
    for name, f in sorted(src.d['fns'].items()):
        tr = f.get('trait') or ''
        if tr not in CHECKED or f.get('kind') == 'Closure' or '{' in name.split('::')[-1]:
            continue
        op = name.split('::')[-1]
        adt = src.d['adts'].get(re.sub(r'<.*>$', '', f.get('selfty') or ''))
        if f.get('derived'):
            r.ok('derived', name, 'goes field by field, as the compiler derives it')
        elif adt is None:
            r.undec(op, name, 'a type that is not understood')
        elif op == CHECKED[tr]:
            it, ps = get_paths(r, src, name)
            if ps is not None:
                guard(r, op, name, lambda: globals()[op](it, ps, adt))
        else:
            r.undec(op, name, 'an override that is not understood')


def variants(it, p, x, adt):
    f = Facts(p.st, it)
    vs = adt['variants']
    return [v for v in vs if len(vs) == 1 or f.dec(('is', x, v['name'])) is not False]


def payload(x, adt, v, fname):
    return ('fld', x, fname) if len(adt['variants']) == 1 else ('fld', ('as', x, v['name']), fname)


def pieces(p, it, x, adt):
    vs = variants(it, p, x, adt)
    return vs[0] if len(vs) == 1 else None


def clone(it, ps, adt):
    me = A(0)
    for p in ps:
        if p.kind != 'ret':
            definite(it, p.trace, p.st, 'panics (%s), when %s' % (p.val[0], show_conds(p.trace)))
        v = nv(it, p.st, p.val)
        if v == me:
            continue
        if v[0] != 'adt':
            undec('gives %s' % fmt(v))
        for var in variants(it, p, me, adt):
            if v[2] != var['name']:
                definite(it, p.trace, p.st, 'a %s is copied as a %s' % (var['name'], v[2]))
            got = dict(v[3])
            raw = it.deep(p.st, p.val)
            rawf = dict(raw[3]) if raw[0] == 'adt' else {}
            for fl in var['fields']:
                want, g = payload(me, adt, var, fl['name']), got.get(fl['name'])
                if g is not None and (g == want or cstrip(g) == want):
                    continue
                s = whole(it, p, rawf.get(fl['name'], g), want)
                if s is True:
                    continue
                msg = 'the copy has %s in field %s, when %s' % (fmt(g) if g else 'nothing', fl['name'], show_conds(p.trace))
                if s is False or (s is None and g is not None and understood(g) and not occurs(g, lambda t: t[0] in ('new', 'coll', 'cat', 'fmt') or t[0] == 'call' and short(t[1]) not in TEXT)):
                    definite(it, p.trace, p.st, msg)
                undec(msg)
    return '%d ways, every field kept' % len(ps)


def whole(it, p, v, base):
    """a rebuilt collection: True all of base in order, False definitely not, None not known"""
    if v is None:
        return None
    q = content(it, p.st, p.trace, v)
    if q is None:
        return None
    f = Facts(p.st, it)
    if not q.items:
        e = f.dec(ieq(('len', base), Int(0)))
        return True if e is True else False
    if len(q.items) != 1:
        return None
    x = q.items[0]
    if x[0] == 'all':
        return True if x[1] == base else None
    if x[0] != 'for' or x[2].seq != base:
        return None
    if x[2].kind != 'fwd':
        return False if x[2].kind in ('rev', 'shifted') else None
    res = True
    for c, s in x[3]:
        if c.kind == 'panic':
            continue
        und = all(understood(a) for a, _ in conds(c.trace, it, c.st))
        items = s.items
        good = c.kind == 'cont' and len(items) == 1 and items[0][0] == 'item' and cstrip(nv(it, c.st, items[0][1])) == x[2].elem
        if good:
            continue
        if und and (c.kind == 'exit' or not items or all(i[0] == 'item' and understood(nv(it, c.st, i[1])) for i in items)):
            return False
        res = None
    return res


def worlds(st, t, val):
    """states in which the boolean term has the value"""
    if t in (TRUE, FALSE):
        return [st] if (t == TRUE) == val else []
    if t[0] == 'not':
        return worlds(st, t[1], not val)
    if t[0] in ('and', 'or'):
        if val == (t[0] == 'and'):
            return [w for s in worlds(st, t[1], val) for w in worlds(s, t[2], val)]
        return worlds(st, t[1], val) + [w for s in worlds(st, t[1], not val) for w in worlds(s, t[2], val)]
    if st.decide(t) is (not val):
        return []
    s = st.copy()
    if t[0] == 'is' and t[1][:2] == ('call', 'Ord::cmp'):
        s.assume(t, val, ('Less', 'Equal', 'Greater'))
    else:
        s.assume(t, val)
    return [s]


def split(it, p, v, adt):
    """for every way the operation answers: (answer, what is then known, state)"""
    for val in (True, False):
        for st in worlds(p.st.copy(), v, val):
            yield val, Facts(st, it), st


def same(f, x, y, ty):
    if f.dec(ieq(x, y)) is not None:
        return f.dec(ieq(x, y))
    a, b = sorted((x, y), key=rk)
    e = f.dec(('eq', a, b))
    if e is not None:
        return e
    for t in (('call', 'Ord::cmp', (x, y), None), ('call', 'Ord::cmp', (y, x), None)):
        e = f.dec(('is', t, 'Equal'))
        if e is not None:
            return e
    if ('Vec<' in ty or 'String' in ty) and f.dec(ieq(('len', x), ('len', y))) is False:
        return False
    return None


def relation(it, ps, adt, answers, word):
    LATER[:] = []
    r = relation_(it, ps, adt, answers, word)
    if LATER:
        raise LATER[0]
    return r


def relation_(it, ps, adt, answers, word):
    """`answers(p)` gives (term, flag of "equal")"""
    X, Y = A(0), A(1)
    n = 0
    for p in ps:
        if p.kind != 'ret':
            definite(it, p.trace, p.st, 'panics (%s), when %s' % (p.val[0], show_conds(p.trace)))
        t = answers(p)
        for yes, f, st in split(it, p, t, adt):
            n += 1
            for vx in adt['variants']:
                if len(adt['variants']) > 1 and f.dec(('is', X, vx['name'])) is False:
                    continue
                for vy in adt['variants']:
                    if len(adt['variants']) > 1 and f.dec(('is', Y, vy['name'])) is False:
                        continue
                    und = understood(t)
                    if vx is not vy:
                        if yes:
                            one(it, p, und, '%s a %s with a %s' % (word, vx['name'], vy['name']))
                        continue
                    es = [same(f, payload(X, adt, vx, g['name']), payload(Y, adt, vx, g['name']), g['ty']) for g in vx['fields']]
                    if yes:
                        for g, e in zip(vx['fields'], es):
                            if e is not True:
                                one(it, p, und, '%s two values whose %s may differ' % (word, g['name'] if not g['name'].isdigit() else vx['name']),
                                    'Vec<' in g['ty'] and (payload(X, adt, vx, g['name']), payload(Y, adt, vx, g['name'])))
                    elif all(e is True for e in es):
                        one(it, p, und, 'tells equal values apart')
                    elif not any(e is False for e in es):
                        one(it, p, und, 'may tell equal values apart')
    return '%d answers, each by all fields' % n


LATER = []


def one(it, p, und, msg, lens=None):
    if lens and any(e[0] == 'loop' for e in p.trace):
        # a pass over both lists: how long they are must have been looked at
        cs = [nv(it, p.st, a) for a, v in conds(p.trace, it, p.st)] + [nv(it, p.st, p.val)]
        seen = [any(occurs(a, lambda x: x == ('len', y)) or occurs(a, lambda x: x[0] == 'call' and y in x[2]) for a in cs) for y in lens]
        calls = [e for ctx, e in flat(p.trace) if e[0] == 'call' and any(y in [nv(it, p.st, z) for z in e[2] if isinstance(z, tuple)] for y in lens)]
        if seen.count(True) == 1 and not calls:
            bad('two lists are compared without regard to the length of %s, when %s' % (fmt(lens[seen.index(False)]), show_conds(p.trace)))
    try:
        one_(it, p, und, msg)
    except Stop as e:
        if e.kind == 'bad':
            raise
        LATER.append(e)


def one_(it, p, und, msg):
    msg += ', when %s' % show_conds(p.trace)
    (bad if und and all(understood(a) for a, v in conds(p.trace, it, p.st)) and not any(e[0] == 'loop' for e in p.trace) else undec)(msg)


def eq(it, ps, adt):
    return relation(it, ps, adt, lambda p: nv(it, p.st, p.val), 'equates')


def cmp(it, ps, adt):
    def ans(p):
        v = nv(it, p.st, p.val)
        if v[0] == 'adt':
            return TRUE if v[2] == 'Equal' else FALSE
        return ('is', v, 'Equal')
    return relation(it, ps, adt, ans, 'ranks as equal')


def partial_cmp(it, ps, adt):
    def ans(p):
        v = nv(it, p.st, p.val)
        if v[0] != 'adt' or v[2] != 'Some':
            undec('gives %s' % fmt(v))
        w = v[3][0][1]
        if w[0] == 'adt':
            return TRUE if w[2] == 'Equal' else FALSE
        return ('is', w, 'Equal')
    return relation(it, ps, adt, ans, 'ranks as equal')


def hash(it, ps, adt):
    for p in ps:
        for ctx, e in flat(p.trace):
            if e[0] == 'call' and not e[1].startswith('Hash') and not short(e[1]).startswith(('hash', 'write')):
                if short(e[1]) in ('capacity', 'as_ptr', 'as_mut_ptr'):
                    bad('depends on %s, in which equal values may differ' % e[1])
                undec('calls %s' % e[1])
    return 'depends on the value only'
