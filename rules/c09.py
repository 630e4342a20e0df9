"""C09: FIRST sets are the complete least fixpoint.

first_set must start from empty, non-nullable sets for every nonterminal and production,
repeat passes over all productions until a pass changes nothing, and in a pass, per
production: every loop over the right-hand side adds FIRST of the symbol and goes on
exactly behind a rule that is nullable so far; the production is nullable exactly when the
loop ran to the end; set and nullability flow to the left side's entry.  The changed flag
is shown to be set exactly when something changed, through all nested loops (boolean
equivalence over loop-change variables), and the repetition to end exactly when it is not.
"""
from fix import *
import fix

NAME = 'tool::grammar::Grammar::first_set'
FLOOR = 1


def run(r, src):
    it, ps = get_paths(r, src, NAME)
    if ps is None:
        return
    rs = rets(ps)
    if not rs:
        r.undec('shape', NAME, 'never returns normally')
        return
    for p in rs[:8]:
        v = nv(it, p.st, p.val)
        if v[0] != 'tup' or len(v[1]) != 2 or any(x[0] != 'new' for x in v[1]):
            r.undec('result', NAME, 'returns %s' % fmt(v))
            return
        RES, CACHE = v[1]
        one(r, it, p, RES, CACHE, len(rs) == 1)


def one(r, it, p, RES, CACHE, sole):
    tl = p.trace

    def sets(t):
        return t[0] == 'fld' and t[2] == 'set' and t[1][0] == 'mval' and t[1][1] in (RES, CACHE)

    fl = Flags(it, sets, 'allow_epsilon')
    W = [e[1] for e in toplevel(tl) if e[0] == 'loop' and fl.changes(e[1])]
    if len(W) != 1:
        if not W and sole and never_grows(it, p, (RES, CACHE)):
            r.bad('until-no-change', NAME, 'returns the sets as they start out, without a pass that adds to them, when %s' % show_conds(p.trace))
            return
        r.undec('shape', NAME, '%d changing loops' % len(W))
        return
    W = W[0]
    pos = [i for i, e in enumerate(tl) if e[0] == 'loop' and e[1] is W][0]

    opts = {'eps': True}
    guard(r, 'start-empty', NAME, lambda: initial(it, p, tl[:pos], RES, CACHE, opts))
    def passes():
        # the sets of a production and of its left side grow together, so it is enough to notice either, for
        # the members and for nullability each
        first = None
        for a, b in ((RES, RES), (CACHE, CACHE), (RES, CACHE), (CACHE, RES)):
            if b == CACHE and not opts['eps']:
                continue
            f2 = Flags(it, sets, 'allow_epsilon', lambda t: t[1][1] == (a if t[2] == 'set' else b))
            try:
                check_passes(f2, W, None)
                return 'the pass loop at %s' % W.where
            except Stop as e:
                if first is None or first.kind == 'bad' and e.kind == 'undec':
                    first = e
        raise first
    guard(r, 'until-no-change', NAME, passes)

    def after():
        for e in tl[pos + 1:]:
            if e[0] == 'mut' and e[1] not in ('insert',) and nv(it, p.st, e[2]) in (RES, CACHE):
                bad('changes the result after the last pass: %s' % e[1])
        return 'nothing after the last pass'
    guard(r, 'final', NAME, after)
    done = set()
    for t, s in [(t, s) for t, u, s in W.conts] + [(t, s) for k, t, v, s in W.exits if k != 'panic']:
        PL = [e[1] for e in toplevel(t) if e[0] == 'loop' and fl.changes(e[1])]
        if not PL:
            continue
        for P in PL:
            if P.id in done:
                continue
            done.add(P.id)
            guard(r, 'per-production', NAME, lambda: production_loop(it, P, RES, CACHE, fl, len(PL), opts))


def initial(it, p, tr, RES, CACHE, opts):
    for M, dom_want, what in ((RES, nts(), 'nonterminals'), (CACHE, PRODS, 'productions')):
        seq = content(it, p.st, tr, M)
        if seq is None or len(seq.items) != 1 or seq.items[0][0] != 'for':
            undec('the initial content of %s is not understood' % fmt(M))
        _, L, dom, cs = seq.items[0]
        if dom.seq != dom_want:
            undec('initialised from %s' % (fmt(dom.seq) if dom.seq else dom.note))
        if dom.kind not in ('fwd', 'rev'):
            bad('at %s not all %s get an entry: %s' % (L.where, what, dom.note))
        for c, sq in cs:
            if c.kind == 'panic':
                continue
            if not sq.items:
                definite(it, c.trace, c.st, 'some of the %s get no entry, when %s' % (what, show_conds(c.trace)))
            for x in sq.items:
                if x[0] != 'item' or x[1][0] != 'tup':
                    undec('initial entry not understood')
                k, v = nv(it, c.st, x[1][1][0]), nv(it, c.st, x[1][1][1])
                if k != dom.elem:
                    (bad if understood(k) else undec)('the entry is filed under %s' % fmt(k))
                if v[0] != 'adt':
                    undec('initial entry %s' % fmt(v))
                d = dict(v[3])
                if d.get('allow_epsilon') != FALSE and M == CACHE and d.get('allow_epsilon') is not None:
                    opts['eps'] = False       # harmless as long as every pass sets it anew
                elif d.get('allow_epsilon') != FALSE:
                    (bad if understood(d.get('allow_epsilon')) else undec)('an entry starts out nullable: %s' % fmt(v))
                st = d.get('set')
                if st is None or st[0] != 'new' or st[3] != ('empty',):
                    (bad if st is not None and understood(st) else undec)('an entry does not start out empty: %s' % fmt(v))
                if events_on(it, c.trace, st):
                    undec('the initial set is filled')
    return 'every nonterminal and production starts empty and not nullable'


def production_loop(it, P, RES, CACHE, fl, npl, opts):
    dom = loop_dom(it, P)
    if dom.seq != PRODS:
        undec('a pass ranges over %s' % (fmt(dom.seq) if dom.seq else dom.note))
    if dom.kind == 'shifted' or dom.kind == 'other':
        (bad if dom.kind == 'shifted' else undec)('at %s: %s' % (P.where, dom.note))
    if npl > 1:
        undec('several loops per pass')
    X = dom.elem
    right, left = F(X, 'right'), F(X, 'left')
    RL, CP = ('mval', RES, left), ('mval', CACHE, X)
    n = 0
    for c in cases(it, P):
        if c.kind == 'panic':
            continue
        n += production_case(it, P, c, X, right, RL, CP, RES, CACHE, fl, opts)
    return '%d ways through the treatment of one production' % n


def flag_set(P, c):
    """the change flag of this pass is already known to be set on this way"""
    for e in c.trace:
        if e[0] == 'cond':
            a, v = (e[1][1], not e[2]) if e[1][0] == 'not' else (e[1], e[2])
            if a[0] == 'lv' and v is True and a in P.init:
                return True
    return False


def production_case(it, P, c, X, right, RL, CP, RES, CACHE, fl, opts):
    tr = c.trace
    if c.kind == 'exit':
        definite_flags(it, tr, c.st, 'at %s: the pass ends before all productions are treated, when %s' % (P.where, show_conds(tr)))
    rows = []
    for i, e in enumerate(tr):
        if e[0] == 'loop':
            S, base = slice_dom(it, e[1])
            if S == right:
                if base != Int(0):
                    (bad if understood(base) else undec)('at %s: does not start at the first symbol' % e[1].where)
                end = loop_end(it, tr, i, e[1])
                if end[0] == '?':
                    undec('how the loop at %s ends is not understood' % e[1].where)
                rows.append((e[1], end[0] == 'end', i))
    exempt = flag_set(P, c)
    f = c.facts(it)
    ends = {x[1] for x in rows}
    if len(ends) > 1:
        for L, end, i in rows:
            check_row(it, L, right, Int(0), RES)
        return 0                      # two walks over the same symbols cannot end differently
    if rows:
        N = rows[0][1]
    elif f.dec(ieq(('len', right), Int(0))) is True:
        N = True
    else:
        if exempt:
            return 0
        definite_flags(it, tr, c.st, 'the symbols of a production are not looked at, when %s' % show_conds(tr))
    # which sets hold FIRST(right) at the end
    covered = set()
    where_ = P.where
    for L, end, i in rows:
        tg, E, M = check_row(it, L, right, Int(0), RES)
        rest = ins_events(it, c.st, tr[i + 1:])
        if end:
            got = set(tg)
            if not L.conts:
                got = None
        else:
            isnt = f.dec(('is', E, 'NonTerminal'))
            last = set()
            for x in rest:
                if isnt is True and x[0] == 'all' and x[2] == F(M, 'set'):
                    last.add(x[1])
                if isnt is False and x[0] == 'ins' and x[2] == ('fld', ('as', E, 'Terminal'), '0'):
                    last.add(x[1])
            if isnt is None:
                undec('the symbol at which the loop at %s stops is not known' % L.where)
            if isnt is True and nullness(f, M) is not False:
                definite_flags(it, tr, c.st, 'the symbols are left at a rule not known to be non-nullable, when %s' % show_conds(tr))
            for x in (tg | last) - (tg & last):
                if x in (F(CP, 'set'), F(RL, 'set')) and not exempt:
                    definite_flags(it, tr, c.st, '%s does not get FIRST of %s symbol, when %s' % (
                        fmt(x), 'the stopping' if x in tg else 'a leading', show_conds(tr)))
            got = tg & last
        covered |= got or set()
    # copies
    evs = ins_events(it, c.st, tr)
    changed = True
    while changed:
        changed = False
        for x in evs:
            if x[0] == 'all' and x[2] in covered and x[1] not in covered:
                covered.add(x[1])
                changed = True
    if rows or True:
        for x in evs:
            if x[0] == 'loop' and fl.changes(x[1]) and not any(x[1] is q[0] for q in rows):
                unread(it, x[1])
            if x[0] in ('mut', 'minsert') and (x[1] in (RES, CACHE) or occurs(x[1], lambda t: t in (RES, CACHE))):
                definite_flags(it, tr, c.st, 'a set is changed other than by adding: %s' % x[2] if x[0] == 'mut' else 'an entry is replaced')
            if x[0] in ('ins', 'all') and x[1][0] == 'fld' and x[1][1][0] == 'mval' and x[1][1][1] in (RES, CACHE):
                if x[1] not in (F(CP, 'set'), F(RL, 'set')):
                    (bad if understood(x[1]) else undec)('adds to the set of %s, which is not the production or its left side' % fmt(x[1]))
                okv = (x[0] == 'all' and (x[2] in covered or any(x[2] == F(check_row(it, L, right, Int(0), RES)[2], 'set') for L, e_, i in rows)))
                okv = okv or (x[0] == 'ins' and any(x[2] == ('fld', ('as', check_row(it, L, right, Int(0), RES)[1], 'Terminal'), '0') for L, e_, i in rows))
                if not okv and not (exempt and x[0] == 'all' and x[2] == F(CP, 'set')):
                    (bad if understood(x[2]) else undec)('adds %s to %s' % (fmt(x[2]), fmt(x[1])))
    empty = not rows or all(e_ and not L.conts for L, e_, i in rows)
    if not exempt:
        for t, what in ((F(CP, 'set'), 'the production'), (F(RL, 'set'), 'its left side')):
            if t not in covered and not (not rows and N):
                definite_flags(it, tr, c.st, '%s does not get the FIRST set of the symbols, when %s' % (what, show_conds(tr)))
    # nullability
    known = {}
    for e in tr:
        if e[0] == 'cond':
            a, v = nv(it, c.st, e[1]), e[2]
            if a[0] == 'not':
                a, v = a[1], not v
            known.setdefault(a, v)
    rng = {}
    for o in (CP, RL):
        k = known.get(F(o, 'allow_epsilon'))
        rng[o] = (k,) if k is not None else (False, True)
    owner = {}
    for e in tr:
        if e[0] == 'loop':
            for lv in e[1].init:
                owner[lv] = e[1]
    for oc in rng[CP]:
        if oc is True and N is False and opts['eps']:
            continue                  # cannot happen: nullability only grows
        for ol in rng[RL]:
            fin = {CP: oc, RL: ol}
            env = {F(CP, 'allow_epsilon'): oc, F(RL, 'allow_epsilon'): ol}
            for e in tr:
                if e[0] == 'write' and 'allow_epsilon' in e[2]:
                    o = nv(it, c.st, e[1])
                    o = o[1] if o[0] == 'obj' else o
                    if o not in fin:
                        if o[0] == 'mval' and o[1] in (RES, CACHE):
                            (bad if understood(o) else undec)('changes whether %s is nullable' % fmt(o))
                        continue
                    v = rv(it, c.st, e[3])
                    # what is read back after a write is the written value
                    fin[o] = fl.ev(v, c.st, env, owner, 'nullability')
                    env[F(o, 'allow_epsilon')] = fin[o]
            if not exempt:
                if fin[CP] != N:
                    definite_flags(it, tr, c.st, 'the production counts as %snullable although %s symbol can vanish, when %s' % (
                        '' if fin[CP] else 'not ', 'every' if N else 'not every', show_conds(tr)))
                if N and fin[RL] is not True:
                    definite_flags(it, tr, c.st, 'the left side of a nullable production does not become nullable, when %s' % show_conds(tr))
            if not N and fin[RL] != ol:
                definite_flags(it, tr, c.st, 'a production that is not nullable changes whether its left side is, when %s' % show_conds(tr))
    return 1
