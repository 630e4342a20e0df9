"""C07: every symbol gets its own id and the lexer table follows the ids.

The visitors that number the symbols are summarised per entry.  On every path: a name the
vocabulary already has must change nothing and be reported; a new name must be recorded
exactly once everywhere, under the next free id: the vocabulary's two maps and its id set, the
lexer table (tokens) with that same id, that name and the anchored pattern without its
delimiters; and the counter must move by one.  Nothing else may change.  The ids handed from
one pass to the next must be the ones the previous pass stopped at.
"""
from sym import *

FLOOR = 1
TECHNIQUE = 'symbolic path summaries of the numbering visitors: all effects per entry against the exact expected record'
ADT = 'LexerRuleData'
SAMPLES = ['/a/', '/ab+c/', r'/a\/b/', r'/\/\//', '/"[^"]*"/', r'/\+/', r'/x|y/', '/é/', r'/a\/\n/', '/ a /', '/A\\w/']


def run(r, src):
    m = maps(r, src)
    if m is None:
        r.undec('anchor', 'vocabulary', 'its views are not recognised')
        return
    for f, rule, chk in ((SYM + 'visit_lexer_rule', 'token', tokens), (SYM + 'visit_parser_rule', 'rule', rules),
                         (LIT + 'visit_element', 'literal', literals)):
        it, ps = get_paths(r, src, f, helpers(src, f))
        if ps is None:
            continue
        guard(r, rule, f, lambda: chk(it, ps, m))
    for f, chk in ((LEX + 'visit_lexer_rule', plain), (SLV + 'visit_terminal', terminal)):
        if f not in src.d['fns']:
            continue
        it, ps = get_paths(r, src, f, helpers(src, f))
        if ps is not None:
            guard(r, 'table', f, lambda: chk(it, ps))
    for n, args in ((GV + 'SymbolVisitor::<\'a>::new', {'grammar': 0, 'next_token_id': 1, 'next_rule_id': 2, 'data': 3}),
                    (GV + 'StringLiteralToTokenVisitor::<\'a>::new', {'grammar': 0, 'next_token_id': 1, 'data': []}),
                    (LV + 'LexerRuleVisitor::new', {'data': 0, 'next_token_type': 1})):
        if n not in src.d['fns']:
            continue
        it, ps = get_paths(r, src, n)
        if ps is not None:
            guard(r, 'start', n, lambda: ctor(it, ps, args))
    for pre, known in ((SYM, ('visit_lexer_rule', 'visit_parser_rule')), (LIT, ('visit_element',)), (LEX, ('visit_lexer_rule',))):
        for k, f in overrides(src, pre).items():
            if k in known or '{' in k:
                continue
            guard(r, 'reach', f, lambda: reach(r, src, f, k, pre))
    driver(r, src)


# ------------------------------------------------------------------ new or repeated
def split(it, p, dup, taken):
    """'dup' | 'new' | 'open' (never looked up) | None (the next id is taken: cannot happen)"""
    d = dec(it, p, dup)
    if d is not True and dec_any(it, p, taken) is True:
        return None
    return 'dup' if d else ('open' if d is None else 'new')


def only(E, allowed):
    """effects that are not among the allowed ones"""
    return [x for x in E.real() if (x[0], x[1], x[2]) not in allowed]


def what(x):
    return '%s %s %s' % (x[0], fmt(x[1]), ', '.join(fmt(y) for y in x[2]))


def vocab(m, kind, i, name):
    if kind == 't':
        return [('insert', m['ts'], (i,)), ('minsert', m['tn2i'], (name, i)), ('minsert', m['ti2n'], (i, name))]
    return [('insert', m['ns'], (i,)), ('minsert', m['nn2i'], (name, i)), ('minsert', m['ni2n'], (i, name))]


def quiet(it, p, E, why, ignore=()):
    """nothing may have changed"""
    ch = [x for x in E.real() if x[1] not in ignore]
    if ch:
        definite(it, p.trace, p.st, '%s, yet it changes things: %s' % (why, what(ch[0])))
    for L in E.loops:
        for ctx, e in flat((('loop', L),)):
            if e[0] in ('mut', 'write') and touches_self(e):
                undec('changes inside a loop')


def touches_self(e):
    return occurs(e[2] if e[0] == 'mut' else e[1], lambda x: x == A(0))


def exact(it, p, E, must, cnt, step, name):
    """exactly the records `must` and the counter moved by `step`"""
    i = fld(A(0), cnt)
    nxt = add(i, Int(step))
    eff = [(x[0], x[1], x[2]) for x in E.real()]
    w = [x for x in eff if x[0] == 'write' and x[1] == i]
    if not w:
        definite(it, p.trace, p.st, 'a new entry is recorded but %s does not move on: two entries get the same id' % cnt)
    if w[-1][2][0] != nxt:
        v = w[-1][2][0]
        (bad if understood(v) and cond_all(it, p) else undec)('after a new entry %s becomes %s' % (cnt, fmt(v)))
    for x in must:
        if x not in eff:
            near = [y for y in eff if y[1] == x[1]]
            if near and not all(understood(z) for y in near for z in y[2]):
                undec('records %s' % what(near[0]))
            definite(it, p.trace, p.st, 'a new entry: expected %s, found %s' % (what(x), what(near[0]) if near else 'nothing of the kind'))
    for x in eff:
        if x in must or (x[0] == 'write' and x[1] == i):
            continue
        if all(understood(z) for z in x[2]) and understood(x[1]):
            definite(it, p.trace, p.st, 'a new entry also does: %s' % what(x))
        undec('also does %s' % what(x))
    for L in E.loops:
        for ctx, e in flat((('loop', L),)):
            if e[0] in ('mut', 'write') and touches_self(e):
                undec('changes inside a loop')


def cond_all(it, p):
    return all(understood(a) for a, v in conds(p.trace, it, p.st))


def entry(it, p, E, data):
    """the entry put into the lexer table on this path, or None"""
    ps = [x for x in E.real() if x[1] == data]
    if not ps:
        return None
    if len(ps) > 1:
        definite(it, p.trace, p.st, 'one definition puts %d entries into the table' % len(ps))
    if ps[0][0] != 'push':
        if ps[0][0] in ('insert', 'insert_at', 'clear', 'pop', 'truncate'):
            definite(it, p.trace, p.st, 'the entry is not put at the end of the table: %s' % ps[0][0])
        undec('the table is changed by %s' % ps[0][0])
    v = ps[0][2][0]
    if v[0] != 'adt' or v[1] != ADT:
        undec('puts %s into the table' % fmt(v))
    return ps[0], dict(v[3])


def degenerate(it, p, lit):
    """the guards of the path only hold for a pattern that is none at all"""
    cc = [(a, v) for a, v in ((cs(a), v) for a, v in conds(p.trace, it, p.st)) if occurs(a, lambda x: x == lit)]
    if not cc:
        return False
    for s in SAMPLES:
        if all(evcond(a, {lit: s}) in (v, None) for a, v in cc):
            if all(evcond(a, {lit: s}) == v for a, v in cc):
                definite(it, p.trace, p.st, 'the definition of a token with pattern %s is dropped' % s)
            undec('drops a definition when %s' % show_conds(p.trace)[:200])
    return True


def inner(it, p, h, lit):
    body = ('substr', lit, Int(1), add(('len', lit), Int(-1)))
    if h in (body, ('replace', body, Str('\\/'), Str('/'))):
        return
    for s in SAMPLES:
        x = ev(h, {lit: s})
        if x is None:
            undec('the pattern is made from %s' % fmt(h)[:200])
        if x not in (s[1:-1], s[1:-1].replace('\\/', '/')):
            definite(it, p.trace, p.st, 'the pattern of %s becomes %s (it is %s)' % (s, x, fmt(h)[:200]))
    undec('the pattern is made from %s' % fmt(h)[:200])


# ------------------------------------------------------------------ the visitors
def tokens(it, ps, m):
    i = fld(A(0), 'next_token_id')
    dup = ('contains', m['tn2i'], TOKNAME)
    taken = [('contains', m['ts'], i), ('contains', m['ti2n'], i)]
    data = fld(A(0), 'data')
    n = 0
    new = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        k = split(it, p, dup, taken)
        if k is None:
            continue
        n += 1
        E = Eff(it, p.trace, p.st)
        if k == 'dup':
            quiet(it, p, E, 'a token is defined again')
            if not E.prints:
                definite(it, p.trace, p.st, 'a token defined again is not reported')
            continue
        if not E.real():
            if k == 'new' and not degenerate(it, p, REGLIT):
                definite(it, p.trace, p.st, 'a newly defined token is not recorded')
            continue
        if k == 'open':
            definite(it, p.trace, p.st, 'a token is recorded without asking whether its name is taken')
        g = entry(it, p, E, data)
        if g is None:
            definite(it, p.trace, p.st, 'a new token gets no entry in the lexer table')
        x, f = g
        for a, b in (('token_type', i), ('token_name', TOKNAME)):
            if f[a] != b:
                (bad if understood(f[a]) and cond_all(it, p) else undec)('the table entry of a token has %s %s' % (a, fmt(f[a])))
        h = pattern(it, p, rawfield(x, 'regex'), REGLIT)
        inner(it, p, h, REGLIT)
        exact(it, p, E, vocab(m, 't', i, TOKNAME) + [(x[0], x[1], x[2])], 'next_token_id', 1, TOKNAME)
        new += 1
    if not new:
        undec('no path records a token')
    return '%d ways' % n


def rules(it, ps, m):
    i = fld(A(0), 'next_rule_id')
    dup = ('contains', m['nn2i'], RULENAME)
    taken = [('contains', m['ns'], i), ('contains', m['ni2n'], i)]
    n = new = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        k = split(it, p, dup, taken)
        if k is None:
            continue
        n += 1
        E = Eff(it, p.trace, p.st)
        if k == 'dup':
            quiet(it, p, E, 'a rule is defined again')
            if not E.prints:
                definite(it, p.trace, p.st, 'a rule defined again is not reported')
            continue
        if not E.real():
            if k == 'new':
                definite(it, p.trace, p.st, 'a newly defined rule is not recorded')
            continue
        if k == 'open':
            definite(it, p.trace, p.st, 'a rule is recorded without asking whether its name is taken')
        exact(it, p, E, vocab(m, 'n', i, RULENAME), 'next_rule_id', 1, RULENAME)
        new += 1
    if not new:
        undec('no path records a rule')
    return '%d ways' % n


def literals(it, ps, m):
    i = fld(A(0), 'next_token_id')
    data = fld(A(0), 'data')
    taken = [('contains', m['ts'], i), ('contains', m['ti2n'], i)]
    n = new = 0
    for p in ps:
        if p.kind != 'ret' or dec_any(it, p, taken) is True:
            continue
        n += 1
        E = Eff(it, p.trace, p.st)
        ch = E.real()
        if not ch:
            continue
        g = entry(it, p, E, data)
        if g is None:
            definite(it, p.trace, p.st, 'a new literal gets no entry in the lexer table')
        x, f = g
        if f['token_type'] != i:
            (bad if understood(f['token_type']) and cond_all(it, p) else undec)('the table entry of a literal has token_type %s' % fmt(f['token_type']))
        ks = [y for y in ch if y[0] == 'minsert' and y[1] in (m['tn2i'],)]
        if not ks:
            definite(it, p.trace, p.st, 'a literal gets an entry in the lexer table but no token')
        key = ks[0][2][0]
        madeup(it, p, f['token_name'], key, i)
        exact(it, p, E, vocab(m, 't', i, key) + [(x[0], x[1], x[2])], 'next_token_id', 1, key)
        new += 1
    if not new:
        undec('no path records a literal')
    return '%d ways' % n


def madeup(it, p, name, key, i):
    """different literals need different names"""
    if occurs(name, lambda x: x == i) or occurs(name, lambda x: x == key):
        return
    if understood(name) and not occurs(name, lambda x: x[0] in ('call',) or x == STRLIT):
        definite(it, p.trace, p.st, 'the table names every literal alike: %s' % fmt(name))
    undec('the table names a literal %s' % fmt(name))


# ------------------------------------------------------------------ the visitors that only build the table
def plain(it, ps):
    i = fld(A(0), 'next_token_type')
    data = fld(A(0), 'data')
    n = new = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        n += 1
        E = Eff(it, p.trace, p.st)
        k = searched(it, p, E, data)
        if k == 'dup':
            quiet(it, p, E, 'a token is defined again')
            if not E.prints:
                definite(it, p.trace, p.st, 'a token defined again is not reported')
            continue
        if not E.real():
            if k == 'new' and not degenerate(it, p, REGLIT):
                definite(it, p.trace, p.st, 'a newly defined token is not recorded')
            continue
        if k == 'open':
            definite(it, p.trace, p.st, 'a token is recorded without asking whether its name is taken')
        g = entry(it, p, E, data)
        if g is None:
            if k == 'new' and all(x[1] in (i, A(0)) for x in E.real()) and not degenerate(it, p, REGLIT):
                definite(it, p.trace, p.st, 'a newly defined token is not recorded')
            undec('records something else: %s' % ', '.join('%s %s' % (x[0], fmt(x[1])) for x in E.real())[:200])
        x, f = g
        for a, b in (('token_type', i), ('token_name', TOKNAME)):
            if f[a] != b:
                (bad if understood(f[a]) and cond_all(it, p) else undec)('the table entry of a token has %s %s' % (a, fmt(f[a])))
        inner(it, p, pattern(it, p, rawfield(x, 'regex'), REGLIT), REGLIT)
        exact(it, p, E, [(x[0], x[1], x[2])], 'next_token_type', 1, TOKNAME)
        new += 1
    if not new:
        undec('no path records a token')
    return '%d ways' % n


def searched(it, p, E, data):
    """whether the table was searched for the name, entry by entry, and how that ended"""
    for L in E.loops:
        d = loop_dom(it, L)
        if d.seq is None or cs(d.seq) != data:
            continue
        if d.kind not in ('fwd', 'rev'):
            if d.kind == 'shifted':
                definite(it, p.trace, p.st, 'not every entry of the table is looked at: %s' % d.note)
            undec('the table is searched in an unusual way')
        el = cs(d.elem)
        want = ('eq', fld(el, 'token_name'), TOKNAME)

        def same(a):
            return a in (want, ('eq', want[2], want[1]))
        for c in cases(it, L, d):
            cc = [(cs(a), v) for a, v in conds(c.trace, it, c.st)]
            hit = [v for a, v in cc if same(a)]
            if c.kind == 'cont':
                if not hit:
                    oth = [a for a, v in cc if a[0] == 'eq' and occurs(a, lambda x: x == TOKNAME)]
                    if oth and understood(oth[0]):
                        definite(it, c.trace, c.st, 'names are compared with %s' % fmt(oth[0]))
                    oth = [x for a, v in cc if a[0] == 'eq' for x, y in (a[1:], a[:0:-1]) if y == want[1] and x[0] == 'fld' and x[1] == TOKNAME[1] and x != TOKNAME]
                    if oth:
                        definite(it, c.trace, c.st, 'names are compared with %s' % fmt(oth[0]))
                    undec('the search does not compare names')
                if hit[0] is True:
                    if not any(k != v for k, v in c.upd.items()):
                        definite(it, c.trace, c.st, 'an entry of the same name does not stop the definition')
                    undec('the search only notes what it finds')
            elif c.kind == 'exit':
                if hit and hit[0] is False:
                    definite(it, c.trace, c.st, 'the search ends at the first entry that differs')
                if not hit:
                    k = capped(it, L)
                    if k is not None:
                        definite(it, p.trace, p.st, 'only %d entries of the table are looked at' % k)
                    undec('the search ends early')
        # did this path leave through a hit?
        best = None
        for kk, t, v, s in L.exits:
            if kk == 'panic':
                continue
            h = is_exhaust(it, L, t, s)
            idx = find(p.trace, L)
            if idx is not None and tuple(p.trace[idx + 1:idx + 1 + len(t)]) == tuple(t) and (best is None or len(t) > best[0]):
                best = (len(t), h)
        if best is None:
            undec('how the search ended is not clear')
        return 'new' if best[1] else 'dup'
    d = None
    for a, v in conds(p.trace, it, p.st):
        if occurs(a, lambda x: x == data) and occurs(cs(a), lambda x: x == TOKNAME):
            undec('the table is searched by %s' % fmt(a)[:160])
    if E.loops:
        undec('there is a loop over something else')
    return 'open'


def find(trace, L):
    for i, e in enumerate(trace):
        if e[0] == 'loop' and e[1] is L:
            return i
    return None


def terminal(it, ps):
    i = fld(A(0), 'next_token_type')
    data = fld(A(0), 'data')
    n = new = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        n += 1
        E = Eff(it, p.trace, p.st)
        x = entry(it, p, E, data)
        if x is None:
            continue
        x, f = x
        if f['token_type'] != i:
            (bad if understood(f['token_type']) and cond_all(it, p) else undec)('the table entry of a literal has token_type %s' % fmt(f['token_type']))
        lit = fld(A(1), 'symbol', 'text')
        madeup(it, p, f['token_name'], lit, i)
        ins = [(y[0], y[1], y[2]) for y in E.real() if y[0] in ('insert', 'minsert') and y[1] != data]
        exact(it, p, E, [(x[0], x[1], x[2])] + ins, 'next_token_type', 1, lit)
        new += 1
    if not new:
        undec('no path records a literal')
    return '%d ways' % n


# ------------------------------------------------------------------ where counting starts
def ctor(it, ps, args):
    for p in ps:
        if p.kind != 'ret':
            undec('panics')
        v = nv(it, p.st, p.val)
        if v[0] != 'adt':
            undec('gives %s' % fmt(v))
        f = dict(v[3])
        for k, a in args.items():
            if k not in f:
                undec('no field %s' % k)
            if isinstance(a, int):
                if f[k] != A(a):
                    if understood(f[k]) and f[k][0] != 'new':
                        definite(it, p.trace, p.st, 'counting starts with %s = %s, not as given' % (k, fmt(f[k])))
                    if f[k][0] == 'new' and k == 'data':
                        definite(it, p.trace, p.st, 'the entries handed over are dropped')
                    undec('%s is %s' % (k, fmt(f[k])))
    return 'fields as given'


# ------------------------------------------------------------------ every definition is reached
LISTS = {'visit_rule_list': ('parser_rule_list', 'lexer_rule_list')}
NEED = {SYM: ('parser_rule_list', 'lexer_rule_list'), LIT: ('parser_rule_list',), LEX: ('lexer_rule_list',)}


def reach(r, src, f, k, pre):
    it, ps = get_paths(r, src, f)
    if ps is None:
        undec('not analysed')
    for p in ps:
        if p.kind != 'ret':
            continue
        E = Eff(it, p.trace, p.st, loops=True)
        calls = [x for x in E.calls]
        for L in E.loops:
            for c in cases(it, L):
                calls += [(short(e[1]),) for ctx, e in flat(c.trace) if e[0] == 'call']
        names = {c[0] for c in calls}
        if k in LISTS:
            doms = {}
            for L in E.loops:
                d = loop_dom(it, L)
                if d.seq is not None:
                    s = cs(d.seq)
                    acc = all(any(e[0] == 'call' and short(e[1]) in ('accept', 'visit') for ctx, e in flat(c.trace)) for c in cases(it, L, d) if c.kind == 'cont')
                    doms[s[1] if s[0] == 'call' else s] = (d.kind, acc)
                    if capped(it, L) is not None and acc and len(E.loops) == len({loop_dom(it, x).seq for x in E.loops}):
                        bad('of %s only %d elements are visited' % (fmt(d.seq), capped(it, L)))
            if any(not isinstance(x, str) for x in doms):
                undec('goes over %s' % list(doms))
            for need in NEED[pre]:
                if need not in doms:
                    if 'visit_children' in names or not cond_all(it, p) or any(n.startswith('visit') for n in names):
                        undec('reaches rules by other means')
                    bad('the definitions in %s are never visited' % need)
                kd, acc = doms[need]
                if kd == 'shifted':
                    bad('not all definitions in %s are visited' % need)
                if kd not in ('fwd', 'rev') or not acc:
                    undec('visits %s in an unusual way' % need)
        elif not names and not E.loops and k in ('visit_compilation_unit', 'visit_syntaxis', 'visit_rule', 'visit_children', 'visit'):
            bad('nothing below is visited')
        else:
            undec('an override that is not understood')
    return 'all reached'


# ------------------------------------------------------------------ handing over
def driver(r, src):
    """the program's own loading: the second pass goes on where the first stopped"""
    import json
    import os
    p = os.path.join(src.dir, 'syntaxis-Executable.json')
    if not os.path.exists(p):
        return
    d = json.load(open(p))
    ex = Sources(d)
    for name, fn in d['fns'].items():
        calls = json.dumps(fn.get('body'))
        if 'SymbolVisitor' not in calls or '::new' not in calls or '{' in name:
            continue
        guard(r, 'hand-over', 'main.rs ' + name, lambda: handover(ex, name))


def handover(ex, name):
    it, ps = ex.paths(name)
    if isinstance(ps, Exception):
        undec('not analysed: %s' % ps)
    n = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        cl = [e for e in p.trace if e[0] == 'call']
        seen = {}
        order = []
        for j, e in enumerate(cl):
            if short(e[1]) == 'new' and 'Visitor' in e[1]:
                nm = [x for x in e[1].split('::') if x.endswith('Visitor')]
                if not nm:
                    continue
                nm = nm[-1]
                if nm in seen:
                    undec('several %s' % nm)
                obj = e[3]
                acc = [x for x in cl[j + 1:] if short(x[1]) in ('accept', 'visit') and any(idof(y) == idof(obj) for y in x[2] if isinstance(y, tuple))]
                if len(acc) != 1:
                    if not acc and not any(idof(y) == idof(obj) for x in cl if x is not e for y in x[2] if isinstance(y, tuple)):
                        definite(it, p.trace, p.st, 'the tree is never shown to %s' % nm)
                    undec('%s sees %d trees' % (nm, len(acc)))
                seen[nm] = (e, acc[0], j)
                order.append(nm)
        if [x for x in order if x in ('StringLiteralToTokenVisitor', 'SymbolVisitor', 'ProductionVisitor')] != ['StringLiteralToTokenVisitor', 'SymbolVisitor', 'ProductionVisitor']:
            undec('the passes are %s' % order)
        lit, sym, pro = (seen[x] for x in ('StringLiteralToTokenVisitor', 'SymbolVisitor', 'ProductionVisitor'))
        first = nv(it, p.st, lit[0][2][1])
        if first[0] == 'int' and first[1] < 2:
            definite(it, p.trace, p.st, 'token ids start at %d, which is taken' % first[1])
        if first[0] != 'int':
            undec('token ids start at %s' % fmt(first))
        start = nv(it, p.st, sym[0][2][2])
        if start[0] == 'int' and start[1] != 0:
            definite(it, p.trace, p.st, 'rule ids start at %d, and the first rule is not the start symbol 0' % start[1])
        if start[0] != 'int':
            undec('rule ids start at %s' % fmt(start))
        for of, arg, fieldn, to in ((lit, sym[0][2][1], 'next_token_id', 'SymbolVisitor'), (lit, sym[0][2][3], 'data', 'SymbolVisitor'), (sym, pro[0][2][1], 'next_rule_id', 'ProductionVisitor')):
            v = nv(it, p.st, arg)
            if v != nv(it, p.st, fld(of[0][3], fieldn)):
                if understood(v):
                    definite(it, p.trace, p.st, '%s gets %s, not the %s the previous pass stopped at' % (to, fmt(v), fieldn))
                undec('%s gets %s' % (to, fmt(v)))
            at = seen[to][2]
            if cl.index(of[1]) > at:
                definite(it, p.trace, p.st, '%s gets the %s of a pass that has not run yet' % (to, fieldn))
            if fieldn != 'data' and not occurs(arg, lambda x: x[0] == 'hv' and x[2] == of[1][3][3]):
                if understood(nv(it, p.st, arg)):
                    definite(it, p.trace, p.st, '%s gets the %s the previous pass began with' % (to, fieldn))
        v = p.val
        w = [x for x in subterms(nv(it, p.st, v)) if x[0] == 'fld' and x[2] == 'data']
        if w and nv(it, p.st, fld(sym[0][3], 'data')) not in w:
            definite(it, p.trace, p.st, 'hands out %s as the lexer table' % fmt(w[0]))
        n += 1
    if not n:
        undec('no way through')
    return '%d ways' % n


def idof(t):
    """the creating call of an object, whatever happened to it since"""
    while isinstance(t, tuple) and t and t[0] in ('at', 'hv', 'obj', 'ref'):
        t = t[1][1] if t[0] == 'ref' and isinstance(t[1], tuple) and t[1][0] == 'H' else t[1]
    return t[3] if isinstance(t, tuple) and len(t) > 3 and t[0] == 'call' and t[3] is not None else None
