"""C10: FOLLOW sets are the complete least fixpoint.

follow_set must start from empty sets for every nonterminal, with end-of-input (1) put into
that of the start rule (0) before the first pass, and repeat passes over all productions
until a pass changes nothing.  In a pass, for every position holding a rule B: FIRST of the
symbols behind it (a loop over exactly those symbols, checked like in C09) goes into
FOLLOW(B), and FOLLOW(left side) goes into FOLLOW(B) exactly when that loop ran to the end.
The changed flag is verified through all nested loops.
"""
from fix import *

NAME = 'tool::grammar::Grammar::follow_set'
FLOOR = 1
FIRST = A(1)


def run(r, src):
    it, ps = get_paths(r, src, NAME)
    if ps is None:
        return
    rs = rets(ps)
    if not rs:
        r.undec('shape', NAME, 'never returns normally')
        return
    for p in rs[:8]:
        v = nv(it, p.st, p.val)
        if v[0] != 'new':
            r.undec('result', NAME, 'returns %s' % fmt(v))
            return
        one(r, it, p, v, len(rs) == 1)


def one(r, it, p, RES, sole):
    tl = p.trace

    def sets(t):
        return t[0] == 'mval' and t[1] == RES

    fl = Flags(it, sets, None)
    W = [(i, e[1]) for i, e in enumerate(tl) if e[0] == 'loop' and fl.changes(e[1]) and e in toplevel(tl)]
    if len(W) != 1:
        if not W and sole and never_grows(it, p, (RES,)):
            r.bad('until-no-change', NAME, 'returns the sets as they start out, without a pass that adds to them, when %s' % show_conds(p.trace))
            return
        r.undec('shape', NAME, '%d changing loops' % len(W))
        return
    pos, W = W[0]
    guard(r, 'start', NAME, lambda: initial(it, p, tl[:pos], RES))
    guard(r, 'until-no-change', NAME, lambda: (check_passes(fl, W, None), 'the pass loop at %s' % W.where)[1])

    def after():
        for e in tl[pos + 1:]:
            if e[0] == 'mut' and (nv(it, p.st, e[2]) == RES or sets(nv(it, p.st, e[2]))):
                bad('changes the result after the last pass: %s' % e[1])
        return 'nothing after the last pass'
    guard(r, 'final', NAME, after)
    done = set()
    for t, s in [(t, s) for t, u, s in W.conts] + [(t, s) for k, t, v, s in W.exits if k != 'panic']:
        PL = [e[1] for e in toplevel(t) if e[0] == 'loop' and fl.changes(e[1])]
        for P in PL:
            if P.id not in done:
                done.add(P.id)
                guard(r, 'per-production', NAME, lambda: production_loop(it, P, RES, fl, len(PL)))


def initial(it, p, tr, RES):
    seq = content(it, p.st, tr, RES)
    loops = [x for x in seq.items if x[0] == 'for'] if seq else []
    if len(loops) != 1:
        undec('the initial content is not understood')
    _, L, dom, cs = loops[0]
    if dom.seq != nts():
        undec('initialised from %s' % (fmt(dom.seq) if dom.seq else dom.note))
    if dom.kind not in ('fwd', 'rev'):
        bad('at %s not all nonterminals get an entry: %s' % (L.where, dom.note))
    for c, sq in cs:
        if c.kind == 'panic':
            continue
        if not sq.items:
            definite(it, c.trace, c.st, 'some nonterminals get no entry, when %s' % show_conds(c.trace))
        for x in sq.items:
            if x[0] != 'item' or x[1][0] != 'tup':
                undec('initial entry not understood')
            k, v = nv(it, c.st, x[1][1][0]), nv(it, c.st, x[1][1][1])
            if k != dom.elem:
                (bad if understood(k) else undec)('the entry is filed under %s' % fmt(k))
            if v[0] != 'new' or v[3] != ('empty',):
                undec('initial entry %s' % fmt(v))
            if events_on(it, c.trace, v):
                undec('the initial set is filled')
    start = [e for e in tr if e[0] == 'mut' and nv(it, p.st, e[2])[0] == 'mval' and nv(it, p.st, e[2])[1] == RES]
    got = [(nv(it, p.st, e[2])[2], nv(it, p.st, e[3][0]), e[1]) for e in start]
    if got != [(Int(0), Int(1), 'insert')]:
        if all(understood(a) and understood(b) for a, b, c in got):
            bad('before the first pass FOLLOW sets receive %s instead of end-of-input (1) for the start rule (0)' % fmt([('tup', (a, b)) for a, b, c in got]))
        undec('the first elements are not understood')
    return 'empty sets, end-of-input in that of the start rule'


def production_loop(it, P, RES, fl, npl):
    dom = loop_dom(it, P)
    if dom.seq != PRODS:
        undec('a pass ranges over %s' % (fmt(dom.seq) if dom.seq else dom.note))
    if dom.kind in ('shifted', 'other'):
        (bad if dom.kind == 'shifted' else undec)('at %s: %s' % (P.where, dom.note))
    if npl > 1:
        undec('several loops per pass')
    X = dom.elem
    n = 0
    for c in cases(it, P):
        if c.kind == 'panic':
            continue
        if c.kind == 'exit':
            definite_flags(it, c.trace, c.st, 'at %s: the pass ends before all productions are treated, when %s' % (P.where, show_conds(c.trace)))
        for e in c.trace:
            if e[0] == 'mut' and fl.tracked(nv(it, c.st, e[2])):
                undec('a set is changed outside the loop over the symbols')
        ol = [e[1] for e in toplevel(c.trace) if e[0] == 'loop' and fl.changes(e[1])]
        if not ol:
            if c.facts(it).dec(ieq(('len', F(X, 'right')), Int(0))) is True:
                continue
            definite_flags(it, c.trace, c.st, 'a production is passed over, when %s' % show_conds(c.trace))
        if len(ol) > 1:
            undec('several loops per production')
        R = trailer(it, ol[0], X, RES, fl)
        if R is not None:
            n += trailing(it, c, ol[0], X, RES, fl, R)
        else:
            n += occurrences(it, ol[0], X, RES, fl)
    return '%d ways through the treatment of one symbol' % n


def occurrences(it, O, X, RES, fl):
    S, base = slice_dom(it, O)
    if S != F(X, 'right'):
        undec('the loop at %s is not over the symbols of the production' % O.where)
    if base != Int(0):
        (bad if understood(base) else undec)('at %s: not every symbol is looked at' % O.where)
    E = None
    d = loop_dom(it, O)
    if d.kind == 'other':
        # shortened range, e.g. all but the last symbol
        undec('at %s: %s' % (O.where, d.note))
    if d.kind == 'shifted':
        bad('at %s: %s' % (O.where, d.note))
    E = d.elem
    i = E[2]
    B = ('fld', ('as', E, 'NonTerminal'), '0')
    FB, FL = ('mval', RES, B), ('mval', RES, F(X, 'left'))
    n = 0
    for c in cases(it, O):
        if c.kind == 'panic':
            continue
        if c.kind == 'exit':
            definite_flags(it, c.trace, c.st, 'at %s: the remaining symbols are not looked at, when %s' % (O.where, show_conds(c.trace)))
        f = c.facts(it)
        isnt = f.dec(('is', E, 'NonTerminal'))
        evs = ins_events(it, c.st, c.trace)
        mine = [x for x in evs if (x[0] in ('ins', 'all', 'mut') and fl.tracked(x[1])) or (x[0] == 'loop' and fl.changes(x[1]))
                or (x[0] == 'minsert' and x[1] == RES)]
        if isnt is False:
            if mine:
                definite_flags(it, c.trace, c.st, 'a terminal changes FOLLOW sets')
            n += 1
            continue
        if isnt is None:
            definite_flags(it, c.trace, c.st, 'the kind of the symbol is not looked at, when %s' % show_conds(c.trace))
        n += 1
        rows = []
        for q, e in enumerate(c.trace):
            if e[0] == 'loop':
                S2, b2 = slice_dom(it, e[1])
                if S2 == F(X, 'right') and e[1].id != O.id:
                    if b2 != add(i, Int(1)):
                        (bad if understood(b2) else undec)('at %s: looks at the symbols from position %s on instead of those behind the rule' % (e[1].where, fmt(b2)))
                    end = loop_end(it, c.trace, q, e[1])
                    if end[0] == '?':
                        undec('how the loop at %s ends is not understood' % e[1].where)
                    rows.append((e[1], end[0] == 'end', q))
        ends = {x[1] for x in rows}
        if len(ends) > 1:
            continue
        exempt = already(O, c)
        N = None
        if rows:
            N = rows[0][1]
        elif f.dec(ieq(sub(('len', F(X, 'right')), i), Int(1))) is True:
            N = True
        elif exempt:
            continue
        else:
            behind = ('elem', F(X, 'right'), add(i, Int(1)))
            if any(occurs(a, lambda x: x == behind) for a, v in conds(c.trace, it, c.st)):
                undec('the symbols behind a rule are looked at other than in a loop')
            definite_flags(it, c.trace, c.st, 'the symbols behind a rule are not looked at, when %s' % show_conds(c.trace))
        covered = set()
        firsts = set()
        for L, end, q in rows:
            tg, E2, M = check_row(it, L, F(X, 'right'), add(i, Int(1)), FIRST)
            firsts |= {F(M, 'set'), ('fld', ('as', E2, 'Terminal'), '0')}
            rest = ins_events(it, c.st, c.trace[q + 1:])
            if end:
                covered |= tg
                continue
            k = f.dec(('is', E2, 'NonTerminal'))
            if k is None:
                undec('the symbol at which the loop at %s stops is not known' % L.where)
            if k is True and nullness(f, M) is not False:
                definite_flags(it, c.trace, c.st, 'stops at a rule not known to be non-nullable, when %s' % show_conds(c.trace))
            last = set()
            for x in rest:
                if k is True and x[0] == 'all' and x[2] == F(M, 'set'):
                    last.add(x[1])
                if k is False and x[0] == 'ins' and x[2] == ('fld', ('as', E2, 'Terminal'), '0'):
                    last.add(x[1])
            covered |= tg & last
        leftish = {FL}
        changed = True
        while changed:
            changed = False
            for group in (covered, leftish):
                for x in evs:
                    if x[0] == 'all' and x[2] in group and x[1] not in group:
                        group.add(x[1])
                        changed = True
                    if x[0] == 'all' and x[2][0] == 'new' and x[2][3] is not None and x[2][3][0] == 'copy' \
                            and nv(it, c.st, x[2][3][1]) in group and x[2] not in group:
                        group.add(x[2])
                        changed = True
        got_left = False
        for x in mine:
            if x[0] == 'loop':
                if any(x[1] is q[0] for q in rows):
                    continue
                unread(it, x[1])
            if x[0] in ('mut', 'minsert'):
                definite_flags(it, c.trace, c.st, 'a set is changed other than by adding')
            if x[1] != FB:
                (bad if understood(x[1]) else undec)('adds to %s instead of the FOLLOW set of the rule at hand' % fmt(x[1]))
            if x[0] == 'all' and x[2] in leftish:
                got_left = True
                if not N:
                    definite_flags(it, c.trace, c.st, 'FOLLOW of the left side is added although the rest cannot vanish, when %s' % show_conds(c.trace))
            elif x[0] == 'all' and x[2][0] == 'new' and x[2][3] == ('empty',) and not any(y[1] == x[2] for y in evs if y[0] != 'loop'):
                continue
            elif x[2] not in covered and x[2] not in firsts:
                (bad if understood(x[2]) and x[2][0] != 'new' else undec)('adds %s' % fmt(x[2]))
        if not exempt:
            if rows and FB not in covered:
                definite_flags(it, c.trace, c.st, 'FIRST of the rest is not added, when %s' % show_conds(c.trace))
            if N and not got_left and f.dec(ieq(B, F(X, 'left'))) is not True:
                definite_flags(it, c.trace, c.st, 'FOLLOW of the left side is not added although the rest can vanish, when %s' % show_conds(c.trace))
    return n


def already(O, c):
    for e in c.trace:
        if e[0] == 'cond':
            a, v = (e[1][1], not e[2]) if e[1][0] == 'not' else (e[1], e[2])
            if a[0] == 'lv' and v is True and a in O.init:
                return True
    return False


# ------------------------------------------------------------------ from right to left, with the set of what may follow
def trailer(it, O, X, RES, fl):
    """the set kept from one symbol to the next, all of which is added to FOLLOW sets"""
    d = loop_dom(it, O)
    if d.kind != 'rev' or d.seq != F(X, 'right'):
        return None
    FB = ('mval', RES, ('fld', ('as', d.elem, 'NonTerminal'), '0'))
    own = {e[1] for c in cases(it, O) for e in c.trace if e[0] == 'new'}
    out = set()
    for c in cases(it, O):
        for x in ins_events(it, c.st, c.trace):
            if x[0] == 'all' and x[1] == FB and (x[2][0] == 'new' and x[2] not in own or x[2][0] == 'lv' and x[2] in O.init):
                out.add(x[2])
    return out.pop() if len(out) == 1 else None


def setval(it, t, env, names):
    if t in env:
        return env[t]
    if t in names:
        return frozenset([names[t]])
    if t[0] == 'coll' and t[2][0] in ('hseq', 'seq'):
        return setval(it, t[2][1], env, names)
    if t[0] == 'new' and t[3] == ('empty',):
        return frozenset()
    if t[0] == 'new' and t[3] is not None and t[3][0] == 'copy':
        return setval(it, nv(it, None, t[3][1]), env, names)
    undec('the set %s is not understood' % fmt(t))


def effects(it, st, trace, env, names, fl, FB):
    """runs the set operations; what FOLLOW of the rule at hand receives"""
    got = set()
    for e in trace:
        if e[0] == 'new' and e[1][1] in ('HashSet', 'BTreeSet'):
            env[nv(it, None, e[1])] = setval(it, e[1], env, names)
    for x in ins_events(it, st, trace):
        T = x[1] if x[0] != 'loop' else None
        if x[0] == 'loop':
            if fl.changes(x[1]) or any(k[0] == 'mut' for t, u, s in x[1].conts for k in t):
                unread(it, x[1])
            continue
        if T in env or T[0] == 'new' and T[1] in ('HashSet', 'BTreeSet'):
            cur = setval(it, T, env, names)
            if x[0] == 'all':
                env[T] = cur | setval(it, x[2], env, names)
            elif x[0] == 'ins':
                if x[2] not in names:
                    undec('adds %s' % fmt(x[2]))
                env[T] = cur | {names[x[2]]}
            elif x[0] == 'mut' and x[2] == 'clear':
                env[T] = frozenset()
            else:
                undec('changes the set of what may follow by %s' % str(x[2])[:40])
        elif fl.tracked(T):
            if T != FB:
                undec('adds to %s instead of the FOLLOW set of the rule at hand' % fmt(T))
            if x[0] == 'all':
                got |= setval(it, x[2], env, names)
            elif x[0] == 'ins' and x[2] in names:
                got.add(names[x[2]])
            else:
                undec('changes a FOLLOW set by %s' % fmt(x[2]))
    return got


def trailing(it, pc, O, X, RES, fl, R):
    d = loop_dom(it, O)
    E = d.elem
    M = ('mval', FIRST, ('fld', ('as', E, 'NonTerminal'), '0'))
    FB, FL = ('mval', RES, ('fld', ('as', E, 'NonTerminal'), '0')), ('mval', RES, F(X, 'left'))
    names = {F(M, 'set'): 'FIRST', FL: 'LEFT', ('fld', ('as', E, 'Terminal'), '0'): 'TOKEN'}
    i = [k for k, e in enumerate(pc.trace) if e[0] == 'loop' and e[1] is O][0]
    env = {}
    effects(it, pc.st, pc.trace[:i], env, {FL: 'LEFT'}, fl, FB)
    start = setval(it, nv(it, pc.st, O.init[R]) if R[0] == 'lv' else R, env, {FL: 'LEFT'})
    Z = None
    if start == frozenset():
        zs = [lv for lv, v in O.init.items() if v == ('bool', True) and any(
            e[0] == 'cond' and lv in (e[1], e[1][1]) for c in cases(it, O) for e in c.trace)]
        if len(zs) != 1:
            undec('whether the rest can vanish is not kept')
        Z = zs[0]
    elif start != {'LEFT'}:
        undec('before the last symbol the set holds %s' % sorted(start))
    n = 0
    for c in cases(it, O):
        if c.kind == 'panic':
            continue
        if c.kind == 'exit':
            definite_flags(it, c.trace, c.st, 'at %s: the remaining symbols are not looked at, when %s' % (O.where, show_conds(c.trace)))
        n += 1
        f = c.facts(it)
        isnt = f.dec(('is', E, 'NonTerminal'))
        nul = nullness(f, M) if isnt else False
        env = {R: frozenset(['REST'])}
        got = effects(it, c.st, c.trace, env, names, fl, FB)
        new = setval(it, nv(it, c.st, c.upd.get(R, R)), env, names) if R[0] == 'lv' else env[R]
        z = z2 = None
        if Z is not None:
            for e in c.trace:
                if e[0] == 'cond':
                    a, v = (e[1][1], not e[2]) if e[1][0] == 'not' else (e[1], e[2])
                    z = v if a == Z else z
            z2 = rv(it, c.st, c.upd.get(Z, Z))
        why = 'when %s' % show_conds(c.trace)
        if isnt is None:
            definite_flags(it, c.trace, c.st, 'the kind of the symbol is not looked at, ' + why)
        if isnt:
            want = {'REST'} | ({'LEFT'} if z is True else set())
            if Z is not None and z is None:
                definite_flags(it, c.trace, c.st, 'whether the rest can vanish is not looked at, ' + why)
            if got != want:
                definite_flags(it, c.trace, c.st, 'FOLLOW of the rule receives %s instead of %s, %s' % (sorted(got), sorted(want), why))
        elif got:
            definite_flags(it, c.trace, c.st, 'a terminal changes FOLLOW sets')
        if isnt and nul is None:
            definite_flags(it, c.trace, c.st, 'whether the rule can vanish is not looked at, ' + why)
        want = {'TOKEN'} if not isnt else {'REST', 'FIRST'} if nul else {'FIRST'}
        if new != want:
            definite_flags(it, c.trace, c.st, 'in front of the symbol, what may follow is %s instead of %s, %s' % (sorted(new), sorted(want), why))
        if Z is not None:
            w = (Z, ('bool', z)) if isnt and nul else (('bool', False),)
            if z2 not in w and not (z is False and z2 == Z):
                (definite_flags if z2 == Z or z2[0] == 'bool' else lambda *a: undec(a[3]))(it, c.trace, c.st, 'whether the rest can vanish becomes %s, %s' % (fmt(z2), why))
    return n
