"""C11: the LL(1) table has exactly its entries, reproducibly, conflicts reported.

ll1_table must be one loop over all productions in an order that hash iteration does not
influence (a total sort), whose body stores the production under (left side, token) for
every token of its FIRST entry, and, exactly when that entry is nullable, for every token
of its left side's FOLLOW set; and whose every store that finds the cell taken prints.
"""
from fix import *

NAME = 'tool::grammar::Grammar::ll1_table'
FLOOR = 1


def run(r, src):
    it, ps = get_paths(r, src, NAME)
    if ps is None:
        return
    rs = rets(ps)
    if not rs:
        r.undec('shape', NAME, 'never returns normally')
        return
    for p in rs[:8]:
        v = nv(it, p.st, p.val)
        if v[0] != 'new':
            r.undec('result', NAME, 'returns %s' % fmt(v))
            return
        one(r, it, p, v)


def stores(it, L, RES):
    return any(e[0] == 'mut' and nv(it, None, e[2]) == RES for t, u, s in L.conts for ctx, e in flat(t))


def unsort(t):
    while t[0] == 'sorted':
        t = t[1]
    return t


def one(r, it, p, RES):
    loops = [e[1] for e in p.trace if e[0] == 'loop' and stores(it, e[1], RES)]
    if len(loops) != 1:
        (r.bad if not loops else r.undec)('shape', NAME, '%d loops fill the table' % len(loops))
        return
    P = loops[0]
    guard(r, 'order', NAME, lambda: order(it, p, P))
    guard(r, 'entries', NAME, lambda: entries(it, p, P, RES))
    guard(r, 'conflicts', NAME, lambda: conflicts(it, P, RES))

    def nothing_else():
        for e in toplevel(p.trace):
            if e[0] == 'mut' and nv(it, p.st, e[2]) == RES:
                (bad if understood(nv(it, p.st, e[2])) else undec)('the table is also changed outside the loop: %s' % e[1])
        return 'no other change of the table'
    guard(r, 'only', NAME, nothing_else)


def seq_of(it, P):
    """(raw sequence term, element term) the loop ranges over"""
    ix = ixof(P)
    for t, s in [(t, s) for t, u, s in P.conts]:
        for ctx, e in flat(t):
            for x in subterms(nvtrace(it, s, e)):
                if x[0] == 'elem' and x[2] == ix:
                    return x[1], x
    return None, None


def base_order(it, p, S):
    """'fixed' | 'hash' | None for the iteration order of a sequence term"""
    if S[0] == 'sorted':
        how = S[2][1]
        o = total(it, how)
        if o == 'fixed':
            return o
        b = base_order(it, p, S[1])
        if b == 'fixed':
            return b
        return o if b == 'hash' else None
    if S[0] in ('hseq',):
        return 'hash'
    if S == PRODS:
        return 'hash'
    if S[0] == 'coll' and S[1] in ('HashSet', 'HashMap'):
        return 'hash'
    if S[0] == 'coll' and S[1] in ('BTreeSet', 'BTreeMap'):
        return 'fixed'
    if S[0] in ('coll', 'map', 'rev', 'copied'):
        return base_order(it, p, S[2] if S[0] == 'coll' else S[1])
    if S[0] == 'new':
        if S[1] in ('BTreeSet', 'BTreeMap'):
            return 'fixed'
        if S[1] in ('HashSet', 'HashMap'):
            return 'hash'
        if S[1] == 'Vec':
            if any(e[0] == 'sort' and nv(it, p.st, e[1]) == S for e in p.trace):
                return None
            q = content(it, p.st, p.trace, S)
            if q and len(q.items) == 1 and q.items[0][0] == 'for' and q.items[0][2].seq is not None:
                return base_order(it, p, q.items[0][2].seq)
    return None


def total(it, how):
    """'fixed' if the comparison tells any two productions apart, 'hash' if it ignores the right side"""
    fns = it.d['fns']
    if how == 'total':
        own = [k for k in fns if k.startswith('<tool::grammar::Production') and k.endswith('as std::cmp::Ord>::cmp')]
        if own and all(fns[k]['derived'] for k in own):
            return 'fixed'
        name = '<tool::grammar::Production as std::cmp::Ord>::cmp'
    else:
        name = how.split(' ', 1)[1]
    if name not in fns:
        return None
    try:
        ps = analyse(it, name)
    except Budget:
        return None
    seen = set()
    for q in ps:
        v = nv(it, q.st, q.val) if q.kind == 'ret' else ('lv', 0, 0)
        terms = [v] + [a for a, w in conds(q.trace, it, q.st)] + [nv(it, q.st, y) for e in q.trace if e[0] == 'call' for y in e[2]]
        for x in terms:
            if not understood(x):
                return None
            for y in subterms(x):
                if y[0] == 'fld':
                    seen.add(y[2])
                elif y[0] == 'sym':
                    seen.add('*')
                elif y[0] in ('disp', 'dbg'):
                    return None
    if how.startswith('cmp'):
        return ties(it, ps)
    if 'right' in seen:
        # a tuple of both fields, or a comparison that goes on to the right side
        v = nv(it, ps[0].st, ps[0].val) if len(ps) == 1 else None
        if how.startswith('key') and v is not None:
            # the key itself: does it hold both fields as they are?
            parts = v[1] if v[0] == 'tup' else (v,)
            while any(x[0] == 'tup' for x in parts):
                parts = tuple(z for x in parts for z in (x[1] if x[0] == 'tup' else (x,)))
            whole = {x[2] for x in parts if x[0] == 'fld'}
            if {'left', 'right'} <= whole or any(x[0] == 'sym' for x in parts):
                return 'fixed'
            if all(x[0] in ('fld', 'len', 'int', 'add') for x in parts):
                return 'hash'
        return None
    if 'left' in seen:
        return 'hash'
    return None


ENDS = ('truncate', 'pop', 'remove', 'swap_remove', 'drain', 'split_off', 'clear')


def thinned(it, p, S):
    """the list was handed to something that takes elements out of it"""
    while S[0] in ('coll', 'rev', 'copied', 'seq'):
        S = S[2] if S[0] == 'coll' else S[1]
    if S[0] != 'hv':
        return
    for e in p.trace:
        if e[0] != 'call' or not e[2] or nv(it, p.st, e[2][0]) != S[1]:
            continue
        n = short(e[1])
        if n in ENDS:
            bad('some productions are taken out of the list: %s' % n)
        if n in ('dedup_by', 'dedup_by_key') and len(e[2]) == 2 and e[2][1][0] == 'clo':
            try:
                qs = analyse(it, e[2][1][1])
            except Budget:
                continue
            vs = [nv(it, q.st, q.val) for q in qs if q.kind == 'ret']
            fs = {y[2] for v in vs for y in subterms(v) if y[0] == 'fld'}
            if vs and all(understood(v) for v in vs) and fs and not {'left', 'right'} <= fs:
                bad('productions that agree in %s only are taken out of the list' % ', '.join(sorted(fs)))


def ties(it, ps):
    """what two productions agree in when the comparison calls them equal"""
    worst = 'fixed'

    def part(t):
        if t[0] != 'call' or short(t[1]) != 'cmp' or len(t[2]) != 2:
            return None
        x, y = t[2]
        sx, sy = ({z for z in subterms(q) if z[0] == 'sym'} for q in (x, y))
        if len(sx) != 1 or len(sy) != 1 or sx == sy:
            return None
        m = {list(sx)[0]: list(sy)[0]}
        return x if subst(x, lambda z: m.get(z)) == y else None

    def parts(x):
        return [z for y in x[1] for z in parts(y)] if x[0] == 'tup' else [x]
    for q in ps:
        if q.kind != 'ret':
            return None
        v = nv(it, q.st, q.val)
        cs_ = [(a, w) for a, w in conds(q.trace, it, q.st)]
        if any(e[0] == 'loop' for e in q.trace) or any(a[0] != 'is' or a[2] != 'Equal' or part(a[1]) is None for a, w in cs_):
            return None
        if v[0] == 'adt' and v[2] in ('Less', 'Greater') or ('is', v, 'Equal') in [a for a, w in cs_ if not w]:
            continue
        agree = [part(a[1]) for a, w in cs_ if w]
        if not (v[0] == 'adt' and v[2] == 'Equal'):
            x = part(v)
            if x is None:
                return None
            agree.append(x)
        agree = [z for x in agree for z in parts(x)]
        whole = {x[2] for x in agree if x[0] == 'fld' and x[1][0] == 'sym'} | ({'left', 'right'} if any(x[0] == 'sym' for x in agree) else set())
        if {'left', 'right'} <= whole:
            continue
        if not all(x[0] in ('fld', 'len') for x in agree):
            return None
        worst = 'hash'
    return worst


def order(it, p, P):
    S, E = seq_of(it, P)
    if S is not None:
        thinned(it, p, S)
    if S is None:
        undec('what the loop at %s ranges over is not understood' % P.where)
    o = base_order(it, p, S)
    if o == 'hash':
        bad('at %s the productions are taken in hash order, so a conflicting cell depends on it' % P.where)
    if o is None:
        undec('the order of %s is not understood' % fmt(S))
    return 'at %s: sorted' % P.where


def is_production(it, p, v, E):
    """v is the loop's production (possibly behind Rc/clone)"""
    if v == E:
        return True
    return False


def root(it, S):
    """the collection a derived sequence was made from, if nothing is left out"""
    while True:
        if S[0] == 'sorted':
            S = S[1]
        elif S[0] == 'coll':
            S = S[2]
        elif S[0] in ('hseq', 'copied', 'rev'):
            S = S[1]
        elif S[0] == 'map':
            S = S[1]
        else:
            return S


def left_out(S):
    while S[0] in ('coll', 'hseq', 'copied', 'rev', 'map', 'sorted', 'take', 'skip'):
        if S[0] in ('take', 'skip') and S[2][0] == 'int' and (S[0] == 'take' or S[2][1] > 0):
            bad('%s %d productions are entered' % ('only the first' if S[0] == 'take' else 'only those behind the first', S[2][1]))
        S = S[2] if S[0] == 'coll' else S[1]


def entries(it, p, P, RES):
    S, E = seq_of(it, P)
    dom = loop_dom(it, P)
    if dom.kind == 'shifted' and dom.seq is not None and occurs(it.deep(p.st, dom.seq), lambda x: x == PRODS):
        bad('at %s: %s' % (P.where, dom.note))
    if S is None:
        undec('what the loop ranges over is not understood')
    left_out(S)
    if dom.kind not in ('fwd', 'rev'):
        undec('at %s: %s' % (P.where, dom.note))
    if root(it, S) != PRODS:
        q = content(it, p.st, p.trace, unsort(S)) if unsort(S)[0] == 'new' else None
        okk = q is not None and len(q.items) == 1 and q.items[0][0] == 'for' and q.items[0][2].seq == PRODS \
            and q.items[0][2].kind == 'fwd' and all(len(z.items) == 1 for c, z in q.items[0][3] if c.kind != 'panic')
        if not okk:
            undec('ranges over %s' % fmt(S))
    n = 0
    first = ('mval', A(1), E)
    follow = ('mval', A(2), F(E, 'left'))
    for c in cases(it, P):
        if c.kind == 'panic':
            continue
        if c.kind == 'exit':
            definite(it, c.trace, c.st, 'the remaining productions are not entered, when %s' % show_conds(c.trace))
        f = c.facts(it)
        N = f.dec(F(first, 'allow_epsilon'))
        got = {}
        for e in c.trace:
            if e[0] == 'mut' and nv(it, c.st, e[2]) == RES:
                undec('a cell is stored outside a loop over tokens')
            if e[0] == 'loop' and stores(it, e[1], RES):
                src_, w = token_loop(it, e[1], RES, E)
                for q in src_:
                    for q2 in pieces(it, c, q):
                        got[q2] = e[1]
        n += 1
        for q in got:
            if q not in (F(first, 'set'), follow):
                (bad if understood(q) else undec)('cells are filled for the tokens of %s' % fmt(q))
        if F(first, 'set') not in got:
            definite(it, c.trace, c.st, 'the tokens of the FIRST set get no entry, when %s' % show_conds(c.trace))
        if follow in got and N is not True:
            definite(it, c.trace, c.st, 'the tokens of FOLLOW get an entry although the production may not be nullable, when %s' % show_conds(c.trace))
        if N is not False and follow not in got:
            definite(it, c.trace, c.st, 'the tokens of FOLLOW get no entry for a nullable production, when %s' % show_conds(c.trace))
    return '%d ways through the treatment of one production' % n


def pieces(it, c, q):
    """the sets a token list was put together from"""
    if q[0] == 'coll':
        return pieces(it, c, root(it, q))
    if q[0] == 'chain':
        return pieces(it, c, q[1]) + pieces(it, c, q[2])
    if q[0] in ('hseq', 'copied', 'rev'):
        return pieces(it, c, q[1])
    if q[0] != 'new':
        return [q]
    seq = content(it, c.st, c.trace, q)
    if seq is None:
        undec('the tokens of %s are not understood' % fmt(q))
    out = []
    for x in seq.items:
        if x[0] == 'all':
            out += pieces(it, c, x[1])
        elif x[0] == 'for' and x[2].kind in ('fwd', 'rev') and all(
                len(z.items) == 1 and z.items[0][0] == 'item' and nv(it, k.st, z.items[0][1]) == x[2].elem for k, z in x[3] if k.kind != 'panic'):
            out += pieces(it, c, x[2].seq)
        else:
            undec('the tokens of %s are not understood' % fmt(q))
    return out


def token_loop(it, L, RES, E):
    dom = loop_dom(it, L)
    if dom.kind == 'shifted':
        bad('at %s: %s' % (L.where, dom.note))
    if dom.kind not in ('fwd', 'rev'):
        return chained(it, L, RES, E)
    for c in cases(it, L):
        if c.kind == 'panic':
            continue
        if c.kind == 'exit':
            definite(it, c.trace, c.st, 'at %s: the remaining tokens get no entry, when %s' % (L.where, show_conds(c.trace)))
        ms = [e for e in c.trace if e[0] == 'mut' and nv(it, c.st, e[2]) == RES]
        if any(e[0] == 'loop' and stores(it, e[1], RES) for e in c.trace):
            undec('nested loops over tokens')
        if not ms:
            # leaving a taken cell alone gives it to the other production: still one of the two
            if any(t[0] == 'contains' and t[1] == RES and v for t, v in c.facts(it).s.facts.items()):
                continue
            # a token of FIRST has its cell from there
            if c.facts(it).dec(('contains', F(('mval', A(1), E), 'set'), dom.elem)) is True and dom.seq != F(('mval', A(1), E), 'set'):
                continue
            definite(it, c.trace, c.st, 'a token gets no entry, when %s' % show_conds(c.trace))
        for e in ms:
            if e[1] != 'minsert':
                definite(it, c.trace, c.st, 'the table is changed by %s' % e[1])
            k, v = nv(it, c.st, e[3][0]), nv(it, c.st, e[3][1])
            want = ('tup', (F(E, 'left'), dom.elem))
            if k != want:
                (bad if understood(k) else undec)('at %s: stored under %s instead of (left side, token)' % (L.where, fmt(k)))
            if v != E:
                (bad if understood(v) else undec)('at %s: stores %s instead of the production' % (L.where, fmt(v)))
    return [dom.seq], L.where


def chained(it, L, RES, E):
    undec('the loop at %s is not understood' % L.where)


def conflicts(it, P, RES):
    n = 0

    def walk(trace, st):
        nonlocal n
        for i, e in enumerate(trace):
            if e[0] == 'loop':
                if stores(it, e[1], RES):
                    for c in cases(it, e[1]):
                        if c.kind != 'panic':
                            walk(c.trace, c.st)
            elif e[0] == 'mut' and nv(it, st, e[2]) == RES and e[1] == 'minsert':
                n += 1
                k = nv(it, st, e[3][0])
                taken = None
                for a, v in conds(trace, it, st):
                    b, w = (a[1], not v) if a[0] == 'not' else (a, v)
                    if b == ('contains', RES, k):
                        taken = w
                if taken is False:
                    continue
                if not any(x[0] in ('print', 'eprint') for x in trace):
                    definite(it, trace, st, 'a cell that is already taken is overwritten without a report, when %s' % show_conds(trace))
        # a taken cell left alone must be reported as well
        f = Facts(st, it)
        if not any(e[0] == 'mut' and nv(it, st, e[2]) == RES for e in trace) and not any(e[0] == 'loop' for e in trace):
            if any(t[0] == 'contains' and t[1] == RES and v for t, v in f.s.facts.items()):
                if not any(x[0] in ('print', 'eprint') for x in trace):
                    definite(it, trace, st, 'a second claim of a cell is dropped without a report, when %s' % show_conds(trace))
    for c in cases(it, P):
        if c.kind != 'panic':
            walk(c.trace, c.st)
    return '%d stores' % n
