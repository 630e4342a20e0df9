"""C06: the vocabulary is a consistent one-to-one naming of ids.

Inductive invariant: per kind, name->id and id->name are inverse, named ids lie in
the id set (terminals: exactly).  Checked per operation on all paths: a registration
returns true and makes exactly the three (unnamed: one) inserts if neither name nor
id is taken, and otherwise returns false and changes nothing; construction registers
0 and 1; every lookup reads the view it is named after; the fields are private and
no other function borrows them mutably.
"""
from lib import *

VO = 'runtime::vocabulary::Vocabulary'
ROLES = {'nn2i': 'non_terminal_name_to_id', 'ni2n': 'non_terminal_id_to_name', 'tn2i': 'terminal_name_to_id',
         'ti2n': 'terminal_id_to_name', 'ns': 'nonterminals', 'ts': 'terminals'}
LOOK = {'nn2i': 'get_nonterminal_id_by_name', 'ni2n': 'get_nonterminal_name_by_id', 'tn2i': 'get_terminal_id_by_name',
        'ti2n': 'get_terminal_name_by_id', 'ns': 'is_nonterminal_id', 'ts': 'is_terminal_id'}


def field_of(t):
    """a field of the vocabulary, or of a structure it keeps"""
    while t[0] == 'fld':
        t = t[1]
        if t == A(0):
            return True
    return False


def roles(r, src):
    fs = {f['name']: f for f in src.d['adts'][VO]['variants'][0]['fields']}
    if all(v in fs for v in ROLES.values()):
        return {k: F(A(0), v) for k, v in ROLES.items()}, fs
    out = {}
    for k, fn in LOOK.items():
        it, ps = src.paths(VO + '::' + fn)
        if isinstance(ps, Exception):
            return None, fs
        for p in ps:
            for x in subterms(tuple(a for a, _ in conds(p.trace, it, p.st)) + (nv(it, p.st, p.val) if p.kind == 'ret' else UNIT,)):
                if x[0] in ('contains', 'mget', 'mval') and field_of(x[1]):
                    out.setdefault(k, x[1])
    if len(out) == 6 and len(set(out.values())) == 6:
        return out, fs
    return None, fs


def views(src):
    """role -> the field, as a term over A(0); None when not recognised"""
    if VO not in src.d['adts']:
        return None
    if not hasattr(src, 'voc_views'):
        src.voc_views = roles(None, src)[0]
    return src.voc_views


def nkey(t):
    """keys compare by content: owned and borrowed forms are the same term here"""
    return t


def muts(it, p, fields):
    """mutations of vocabulary fields on a path, as a set-like sorted list; no-op inserts dropped"""
    out = []
    for ctx, e in flat(p.trace):
        if e[0] == 'mut':
            c = nv(it, p.st, e[2])
            if c in fields:
                if e[4] == 'present' and e[1] == 'insert':
                    continue
                out.append((e[1], c, tuple(nv(it, p.st, x) for x in e[3])))
        elif e[0] == 'write' and nv(it, p.st, e[1]) == A(0):
            out.append(('write', A(0), (nv(it, p.st, e[3]),)))
    return sorted(set(out), key=rk) if True else out


def registration(r, src, fn, ro, kind, named):
    name = VO + '::' + fn
    it, ps = get_paths(r, src, name)
    if ps is None:
        return
    no_panic(r, name, ps, it)
    n2i, i2n, st = (ro['tn2i'], ro['ti2n'], ro['ts']) if kind == 't' else (ro['nn2i'], ro['ni2n'], ro['ns'])
    atoms = {'id taken': ('contains', st, A(1)), 'id named': ('contains', i2n, A(1))}
    if named:
        atoms['name taken'] = ('contains', n2i, A(2))
    eff = [('insert', st, (A(1),))]
    if named:
        eff += [('minsert', n2i, (A(2), A(1))), ('minsert', i2n, (A(1), A(2)))]
    eff = sorted(eff, key=rk)
    fields = set(ro.values())

    def feasible(a):
        if a['id named'] and not a['id taken']:
            return False
        if kind == 't' and a['id taken'] and not a['id named']:
            return False
        return True
    cs = []
    for p in rets(ps):
        c = Case('ret', p.trace, p.st, p.val)
        c.p = p
        cs.append(c)

    def observe(c):
        v = rv(it, c.st, c.val)
        return [v, muts(it, c.p, fields)]

    def expect(a):
        if a['id taken'] or a.get('name taken'):
            return [FALSE, []]
        return [TRUE, eff]
    check_cases(r, 'registration', name, it, cs, atoms, expect, observe, feasible)


def lookup(r, src, fn, exp):
    """exp: list of (guard atom or None, polarity, expected value)"""
    name = VO + '::' + fn
    it, ps = get_paths(r, src, name)
    if ps is None:
        return
    atom, on, off, pan = exp
    cs = [Case('ret' if p.kind == 'ret' else 'panic', p.trace, p.st, p.val) for p in ps]

    def observe(c):
        if c.kind == 'panic':
            return ('panic',)
        return canon(it, nv(it, c.st, c.val))

    def expect(a):
        return on if a['present'] else off

    check_cases(r, 'lookup', name, it, cs, {'present': atom}, expect, observe)
    for p in ps:
        if p.kind == 'ret':
            m = [e for e in mutations(p.trace) if e[0] in ('mut', 'write')]
            if m:
                r.bad('lookup-pure', name, 'a lookup changes %s' % fmt(strip(m[0][2] if m[0][0] == 'mut' else m[0][1])))


def canon(it, v):
    """Option-valued map reads in one form: split by the guard"""
    return v


def Some(v):
    return ('adt', 'Option', 'Some', (('0', v),))


NONE_ = ('adt', 'Option', 'None', ())


def run(r, src):
    if VO not in src.d['adts']:
        r.bad('anchor', VO, 'the vocabulary type no longer exists')
        return
    ro, fs = roles(r, src)
    for f in fs.values():
        if f['pub']:
            r.bad('private-views', VO + '.' + f['name'], 'the view can be changed from outside the three registrations')
        else:
            r.ok('private-views', VO + '.' + f['name'], 'private')
    if ro is None:
        r.undec('roles', VO, 'the six views cannot be identified')
        return
    registration(r, src, 'add_terminal', ro, 't', True)
    registration(r, src, 'add_named_nonterminal', ro, 'n', True)
    registration(r, src, 'add_unnamed_nonterminal', ro, 'n', False)
    # options may be returned as the raw map read (get().copied()) or rebuilt
    for k, fn in LOOK.items():
        m = ro[k]
        if k in ('ns', 'ts'):
            atom = ('contains', m, A(1))
            lookup_bool(r, src, fn, atom)
        else:
            lookup_opt(r, src, fn, m)
    lookup_bool(r, src, 'is_terminal_name_defined', ('contains', ro['tn2i'], A(1)))
    lookup_bool(r, src, 'is_nonterminal_name_defined', ('contains', ro['nn2i'], A(1)))
    lookup(r, src, 'get_nonterminal_name_with_default', (('contains', ro['ni2n'], A(1)), ('mval', ro['ni2n'], A(1)), ('disp', A(1)), False))
    lookup(r, src, 'get_terminal_name', (('contains', ro['ti2n'], A(1)), ('mval', ro['ti2n'], A(1)), ('panic',), True))
    for fn, k in (('get_all_terminals', 'ts'), ('get_all_nonterminals', 'ns')):
        it, ps = get_paths(r, src, VO + '::' + fn)
        if ps is None:
            continue
        for p in rets(ps):
            v = nv(it, p.st, p.val)
            (r.ok if v == ro[k] else (r.bad if understood(v) else r.undec))('lookup', VO + '::' + fn, 'returns ' + fmt(v))
    construction(r, src, ro)
    writers(r, src, ro, fs)


def lookup_bool(r, src, fn, atom):
    name = VO + '::' + fn
    it, ps = get_paths(r, src, name)
    if ps is None:
        return
    no_panic(r, name, ps, it)
    cs = [Case('ret', p.trace, p.st, p.val) for p in rets(ps)]
    for c in cs:
        v = rv(it, c.st, c.val)
        if v[0] == 'bool':
            continue
        if v == atom:
            c.val = None
        elif not understood(v):
            r.undec('lookup', name, 'returns ' + fmt(v))
            return
        else:
            r.bad('lookup', name, 'answers %s, not %s' % (fmt(v), fmt(atom)))
            return
    check_cases(r, 'lookup', name, it, [c for c in cs if c.val is not None], {'present': atom},
                lambda a: ('bool', a['present']), lambda c: rv(it, c.st, c.val))


def lookup_opt(r, src, fn, m):
    name = VO + '::' + fn
    it, ps = get_paths(r, src, name)
    if ps is None:
        return
    no_panic(r, name, ps, it)
    cs = [Case('ret', p.trace, p.st, p.val) for p in rets(ps)]
    raw = [c for c in cs if nv(it, c.st, c.val) == ('mget', m, A(1))]
    rest = [c for c in cs if c not in raw]
    if raw:
        r.ok('lookup', name, 'returns the map read itself')
    check_cases(r, 'lookup', name, it, rest, {'present': ('contains', m, A(1))},
                lambda a: Some(('mval', m, A(1))) if a['present'] else NONE_, lambda c: nv(it, c.st, c.val))


def construction(r, src, ro):
    name = VO + '::new'
    it, ps = get_paths(r, src, name)
    if ps is None:
        return
    no_panic(r, name, ps, it)
    inv = {v[2]: k for k, v in ro.items()}
    for p in rets(ps):
        v = it.deep(p.st, p.val)
        while v[0] == 'obj':
            v = v[1]
        if v[0] != 'adt':
            r.undec('construction', name, 'returns ' + fmt(v))
            continue
        exp = {'ts': [Int(0), Int(1)], 'tn2i': [('tup', (Str('_START'), Int(0))), ('tup', (Str('_STOP'), Int(1)))],
               'ti2n': [('tup', (Int(0), Str('_START'))), ('tup', (Int(1), Str('_STOP')))], 'ns': [], 'nn2i': [], 'ni2n': []}
        for f, x in v[3]:
            k = inv.get(f)
            if k is None:
                continue
            s = content(it, p.st, p.trace, x)
            if s is None or any(i[0] != 'item' for i in s.items):
                r.undec('construction', name, 'initial %s not understood' % f)
                continue
            got = sorted({nv(it, p.st, i[1]) for i in s.items}, key=rk)
            if got == sorted(exp[k], key=rk):
                r.ok('construction', name, '%s starts as %s' % (f, fmt(got)))
            elif all(understood(g) for g in got):
                # a path that the facts make impossible (add refused on a fresh map) is not one
                r.bad('construction', name, '%s starts as %s, expected %s' % (f, fmt(got), fmt(exp[k])))
            else:
                r.undec('construction', name, '%s starts as %s' % (f, fmt(got)))


def writers(r, src, ro, fs):
    """who borrows a view mutably: only functions of the vocabulary itself"""
    n = 0
    for fn, info in src.d['fns'].items():
        for b in info['body']['blocks']:
            for s in b['st']:
                if s['s'] != 'assign':
                    continue
                pls = [(s['pl'], True)]
                if s['rv']['r'] in ('ref', 'rawptr') and s['rv'].get('mut'):
                    pls.append((s['rv']['pl'], True))
                for pl, _ in pls:
                    if any(e[0] == 'field' and e[3] == VO and e[1] in fs for e in pl['p']):
                        n += 1
                        if not fn.startswith(VO):
                            r.bad('who-may-write', fn, 'writes a vocabulary view outside the vocabulary')
    r.ok('who-may-write', VO, '%d mutable accesses, all in the vocabulary itself' % n)


FLOOR = 25
