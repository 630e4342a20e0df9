"""C08: EBNF lowering keeps the grammar's language.

The visitor that makes the productions is summarised method by method.  A rule must get exactly
one production per alternative (the result of visiting it); an alternative's result must be
the results of all its elements in order, nothing for epsilon; a group must return a helper
with exactly one production per alternative; an element without operator must be the symbol its
reference names (right kind, right map).  For *, + and ? the productions added on the path form
a small grammar over one letter (the operand): its language is computed and compared, no two
alternatives of a helper may begin alike, every left side must be a registered, fresh id, taken
when no visit that hands out ids lies in between, and a helper may only be taken from the cache
of its own operator under the operand itself.  A new grammar has no productions.
"""
from sym import *

FLOOR = 1
TECHNIQUE = 'symbolic path summaries of the lowering visitor; the added productions are evaluated as a one-letter grammar; id epochs by versioned terms'
PRODS = fld(A(0), 'grammar', 'productions')
NEXT = fld(A(0), 'next_rule_id')
BLOCK = get('block', A(1))
SUF = get('ebnf_suffix', A(1))


def run(r, src):
    m = maps(r, src)
    if m is None:
        r.undec('anchor', 'vocabulary', 'its views are not recognised')
        return
    ov = overrides(src, PRO)
    hs = helpers(src, None)
    kind = [None, None]
    for k, rule, chk in (('visit_rule_list', 'rules', rule_list), ('visit_parser_rule', 'rule', parser_rule), ('visit_alternative', 'alternative', alternative),
                         ('visit_block', 'group', block), ('visit_element', 'element', element)):
        f = PRO + k
        if f not in ov.values():
            if k == 'visit_rule_list':
                r.ok('rules', f, 'the default visits every rule')
                continue
            r.bad('anchor', f, 'the operation no longer exists')
            continue
        it, ps = get_paths(r, src, f, hs)
        if ps is None:
            continue
        guard(r, rule, f, lambda: chk(it, ps, m, kind))
    for k, f in ov.items():
        if k in ('visit_rule_list', 'visit_parser_rule', 'visit_alternative', 'visit_block', 'visit_element') or '{' in k:
            continue
        if k in ('visit_compilation_unit', 'visit_rule', 'visit', 'visit_children', 'visit_ebnf_suffix', 'default_result', 'aggregate_result', 'should_visit_next_child'):
            r.undec('override', f, 'an override that is not understood')
    n = GV + "ProductionVisitor::<'a>::new"
    if n in src.d['fns']:
        it, ps = get_paths(r, src, n)
        if ps is not None:
            guard(r, 'start', n, lambda: start(it, ps))
    guard(r, 'start', 'tool::grammar::Grammar::new', lambda: empty(src))


def empty(src):
    n, v = 'tool::grammar::Grammar::new', 'runtime::vocabulary::Vocabulary::new'
    if n not in src.d['fns']:
        bad('the operation no longer exists')
    it, ps = src.paths(n, (v,))
    if isinstance(ps, Exception):
        undec('not analysed: %s' % ps)
    for p in ps:
        w = it.deep(p.st, p.val) if p.kind == 'ret' else ('panic',)
        if w[0] != 'adt':
            undec('gives %s' % fmt(w))
        d = dict(w[3])
        P = d.get('productions')
        if P is None or P[0] not in ('new', 'at', 'hv', 'ref'):
            undec('productions are %s' % fmt(P or A(0)))
        ms = [e for c, e in flat(p.trace) if e[0] == 'mut' and nv(it, p.st, e[2]) == nv(it, p.st, P)]
        if ms:
            definite(it, p.trace, p.st, 'a new grammar already has productions (%s at %s)' % (ms[0][1], ms[0][5]))
        if nv(it, p.st, P)[0] != 'new' or nv(it, p.st, P)[3] != ('empty',):
            undec('productions are %s' % fmt(P))
        voc = cstrip(nv(it, p.st, d['vocabulary']))
        if not (voc[0] == 'call' and voc[1] == v):
            undec('the vocabulary is %s' % fmt(voc))
    return 'no productions and a new vocabulary'


def start(it, ps):
    for p in ps:
        v = nv(it, p.st, p.val)
        if p.kind != 'ret' or v[0] != 'adt':
            undec('gives %s' % fmt(v))
        f = dict(v[3])
        if f.get('next_rule_id') != A(1):
            if f.get('next_rule_id') is not None and understood(f['next_rule_id']):
                definite(it, p.trace, p.st, 'helper ids start at %s, not as given' % fmt(f['next_rule_id']))
            undec('helper ids start at %s' % fmt(f.get('next_rule_id')))
    return 'as given'


def cond_all(it, trace, st):
    return all(understood(a) for a, v in conds(trace, it, st))


# ------------------------------------------------------------------ what is visited
def rule_list(it, ps, m, kind):
    n = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        n += 1
        E = Eff(it, p.trace, p.st, loops=True)
        want = get('parser_rule_list', A(1))
        if any(c[0] == 'visit_children' for c in E.calls):
            continue
        hit = False
        for L in E.loops:
            d = loop_dom(it, L)
            if d.seq is None or cs(d.seq) != want:
                continue
            visited(it, L, d, 'rule')
            hit = True
        if not hit:
            if not E.loops and cond_all(it, p.trace, p.st):
                definite(it, p.trace, p.st, 'the rules are not visited')
            undec('how the rules are visited is not clear')
    if not n:
        undec('no way through')
    return '%d ways' % n


# list operations behind which something gathered may be missing
DROPS = ('dedup_by', 'dedup_by_key', 'truncate', 'pop', 'remove', 'swap_remove', 'clear', 'drain', 'split_off')


def visited(it, L, d, what):
    """every element of the domain is visited once with this visitor"""
    if d.kind == 'shifted':
        definite(it, (), None, 'not every %s is visited: %s' % (what, d.note))
    if d.kind not in ('fwd', 'rev'):
        undec('the %ss are visited in an unusual way' % what)
    for c in cases(it, L, d):
        acc = [e for ctx, e in flat(c.trace) if e[0] == 'call' and short(e[1]) in ('accept', 'visit') and nv(it, c.st, e[2][0]) == d.elem]
        if c.kind == 'panic':
            continue
        if c.kind == 'exit':
            definite(it, c.trace, c.st, 'the remaining %ss are not visited when %s' % (what, show_conds(c.trace)[:200]))
        if not acc:
            if any(e[0] == 'call' and (d.elem in [nv(it, c.st, x) for x in e[2] if isinstance(x, tuple)]) for ctx, e in flat(c.trace)):
                undec('a %s is handed to something else' % what)
            definite(it, c.trace, c.st, 'a %s is not visited when %s' % (what, show_conds(c.trace)[:200]))
        if len(acc) > 1:
            definite(it, c.trace, c.st, 'a %s is visited twice' % what)


def accept_of(elem):
    return ('call', 'accept', (elem, A(0)), None)


def vacc(t):
    """the element whose visit gave this term, or None"""
    t = cs(t)
    while t[0] in ('at',) or (t[0] == 'new' and t[3] is not None and t[3][0] == 'copy'):
        t = t[1] if t[0] == 'at' else t[3][1]
    if t[0] == 'call' and t[1] in ('accept', 'visit', 'visit_alternative', 'visit_element', 'visit_block') and len(t[2]) == 2:
        a = [x for x in t[2] if base(x) != A(0)]
        return a[0] if len(a) == 1 else None
    return None


def results(it, st, trace, v, lst, what):
    """v holds the results of visiting every entry of `lst`: 'fwd' | 'rev', else a verdict is raised"""
    s = content(it, st, trace, v)
    if s is None:
        undec('the %ss gathered are %s' % (what, fmt(nv(it, st, v))[:120]))
    return seqresults(it, st, trace, s.items, lst, what)


def seqresults(it, st, trace, items, lst, what, wrap=lambda t: t):
    items = list(items)
    if not items:
        definite(it, trace, st, 'the %ss are dropped' % what)
    if len(items) == 1 and items[0][0] == 'all' and uncast(items[0][1])[0] == 'slice':
        _, X, lo, hi = uncast(items[0][1])
        k = results(it, st, trace, X, lst, what)
        if lo == Int(0) and hi == ('len', X):
            return k
        if lo[0] == 'int' and lo[1] > 0 or hi[0] == 'lin' and hi[1] == ((('len', X), 1),) and hi[2] < 0:
            definite(it, trace, st, 'only the %ss %s..%s count' % (what, fmt(lo), fmt(hi)))
        undec('the %ss %s..%s count' % (what, fmt(lo), fmt(hi)))
    for i, x in enumerate(items):
        if x[0] == 'other' and x[1][0] == 'mut' and strip(x[1][2])[0] == 'elem' and x[1][1] in DROPS + ('sort', 'reverse', 'dedup', 'rotate_left', 'rotate_right'):
            definite(it, trace, st, 'the %ss are gathered, but then what is in them is changed (%s)' % (what, x[1][1]))
        if x[0] == 'other' and (x[1][1] in DROPS or what == 'element' and x[1][1] == 'dedup') and any(y[0] == 'for' for y in items[:i]):
            definite(it, trace, st, 'the %ss are gathered, but then some may be left out (%s)' % (what, x[1][1]))
    if len(items) != 1 or items[0][0] != 'for':
        if any(x[0] == 'item' for x in items) and any(x[0] == 'for' for x in items):
            fors = [x for x in items if x[0] == 'for']
            its = [x for x in items if x[0] == 'item']
            if len(fors) == 1 and cs(fors[0][2].seq or UNIT) == lst and understood(nv(it, st, its[0][1])):
                definite(it, trace, st, 'besides the %ss there is also %s' % (what, fmt(nv(it, st, its[0][1]))[:100]))
        undec('the %ss are gathered in an unusual way' % what)
    _, L, d, cl = items[0]
    via = d.seq is not None and base(d.seq)[0] == 'new' and cs(d.seq) != lst
    if via:
        # a second pass over what was gathered first
        if results(it, st, trace, d.seq, lst, what) != 'fwd':
            undec('goes over what was gathered in reverse')
    elif d.seq is None or cs(d.seq) != lst:
        if d.seq is not None and understood(d.seq):
            undec('goes over %s' % fmt(d.seq)[:100])
        undec('the %ss are gathered in an unusual way' % what)
    if d.kind == 'shifted':
        definite(it, trace, st, 'not every %s counts: %s' % (what, d.note))
    if d.kind not in ('fwd', 'rev'):
        undec('the %ss are gathered in an unusual order' % what)
    dirs = set()
    for c, s in cl:
        if c.kind == 'panic':
            continue
        if c.kind == 'exit':
            definite(it, c.trace, c.st, 'the remaining %ss are dropped when %s' % (what, show_conds(c.trace)[:200]))
        if not s.items:
            definite(it, c.trace, c.st, 'the %s is dropped when %s' % (what, show_conds(c.trace)[:200]))
        if len(s.items) != 1:
            if all(x[0] == 'item' for x in s.items):
                ts = [wrap(nv(it, c.st, x[1])) for x in s.items]
                if all(t is not None and understood(t) or vacc(t) == cs(d.elem) for t in ts):
                    definite(it, c.trace, c.st, 'one %s gives %d entries' % (what, len(ts)))
            undec('one %s gives several entries' % what)
        x = s.items[0]
        front = False
        if x[0] == 'other' and x[1][1] == 'insert_at' and len(x[1][3]) == 2 and nv(it, c.st, x[1][3][0]) == Int(0):
            x, front = ('item', x[1][3][1]), True
        if x[0] != 'item':
            undec('the %s is stored by %s' % (what, x[0]))
        dirs.add(front)
        t = wrap(n_(it, c.st, x[1]))
        if t is None:
            undec('stores %s' % fmt(nv(it, c.st, s.items[0][1]))[:160])
        if via and d.elem[0] == 'elem' and vacc(t) == ('elem', lst, cs(d.elem[2])):
            continue
        if (cs(t) if via else vacc(t)) != cs(d.elem):
            if understood(t):
                definite(it, c.trace, c.st, 'the %s gives %s' % (what, fmt(t)[:160]))
            undec('the %s gives %s' % (what, fmt(t)[:160]))
    if dirs == {True}:
        return {'fwd': 'rev', 'rev': 'fwd'}[d.kind]
    if len(dirs) > 1:
        undec('the %ss are gathered from both ends' % what)
    return d.kind


def prod_items(it, st, trace):
    """everything inserted into the grammar's productions, in order, loops kept"""
    def go(tr, st):
        out = []
        for e in tr:
            if e[0] == 'mut' and n_(it, st, e[2]) == PRODS:
                if e[1] == 'insert':
                    out.append(('item', e[3][0], 'insert', e))
                else:
                    out.append(('other', e))
            elif e[0] == 'loop':
                L = e[1]
                used = any(x[0] == 'mut' and n_(it, st, x[2]) == PRODS for ctx, x in flat((e,)))
                if used:
                    cl = [(c, Seq(go(c.trace, c.st))) for c in cases(it, L)]
                    out.append(('for', L, loop_dom(it, L), cl))
        return out
    items = go(toplevel(trace), st)
    return fuse(it, st, trace, Seq(items)).items


def left_right(t):
    if t[0] == 'adt' and t[1] == 'Production':
        f = dict(t[3])
        return f.get('left'), f.get('right')
    return None, None


# ------------------------------------------------------------------ named rules
def parser_rule(it, ps, m, kind):
    want = ('mval', m['nn2i'], RULENAME)
    lst = get('alternative_list', pay(BLOCK))
    n = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        if dec(it, p, ('contains', m['nn2i'], RULENAME)) is False or dec(it, p, ('is', BLOCK, 'Some')) is False or dec(it, p, ('is', get('rule_ref', A(1)), 'Some')) is False:
            continue
        n += 1
        productions(it, p, lst, want)
        others(it, p, m)
    if not n:
        undec('no way through')
    return '%d ways' % n


def productions(it, p, lst, left):
    items = prod_items(it, p.st, p.trace)
    for x in items:
        if x[0] == 'other':
            definite(it, p.trace, p.st, 'the productions found so far are changed by %s' % x[1][1])

    def wrap(t):
        l, r_ = left_right(t)
        if l is None:
            return None
        if l != left:
            if understood(l):
                definite(it, p.trace, p.st, 'a production is stored for %s instead of %s' % (fmt(l), fmt(left)))
            undec('a production is stored for %s' % fmt(l))
        return r_
    return seqresults(it, p.st, p.trace, items, lst, 'alternative', wrap)


def others(it, p, m, ok=()):
    """a method that may only add productions"""
    for ctx, e in flat(p.trace):
        if e[0] == 'mut':
            i = e[2]
            while i[0] in ('at', 'hv'):
                i = i[1]
            if i[0] == 'new':
                continue
            t = n_(it, p.st, e[2])
            if t == PRODS or t in ok or (e[4] == 'present' and e[1] == 'insert'):
                continue
            if occurs(t, lambda x: x == A(0)) and understood(t):
                (bad if cond_all(it, p.trace, p.st) else undec)('also changes %s (%s)' % (fmt(t), e[1]))
            undec('also changes %s' % fmt(t))
        elif e[0] == 'write':
            undec('also writes %s' % (e[2],))


def alternative(it, ps, m, kind):
    eps = ('is', get('epsilon', A(1)), 'Some')
    lst = get('element_list', A(1))
    n = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        n += 1
        d = dec(it, p, eps)
        s = content(it, p.st, p.trace, p.val)
        if s is None:
            undec('an alternative gives %s' % fmt(nv(it, p.st, p.val))[:120])
        if d is True:
            if not s.items:
                continue
            if len(s.items) == 1 and s.items[0][0] == 'for' and cs(s.items[0][2].seq or UNIT) == lst:
                continue
            definite(it, p.trace, p.st, 'epsilon gives symbols')
        ln = [v for a, v in ((cs(a), v) for a, v in conds(p.trace, it, p.st)) if a in (ieq(('len', lst), Int(0)),) ]
        if not s.items and True in ln:
            continue
        k = seqresults(it, p.st, p.trace, s.items, lst, 'element')
        if k == 'rev':
            definite(it, p.trace, p.st, 'the symbols of an alternative are in reverse order')
        others(it, p, m)
    if not n:
        undec('no way through')
    return '%d ways' % n


# ------------------------------------------------------------------ ids and the visits in between
def visits(it, trace):
    """indices of top-level events at which another visit may hand out ids"""
    out = []
    for i, e in enumerate(trace):
        if e[0] == 'call' and short(e[1]) in ('accept', 'visit', 'visit_children', 'visit_block', 'visit_alternative', 'visit_element'):
            out.append((i, ('call', e[3][3] if e[3][0] == 'call' else None)))
        elif e[0] == 'loop' and any(x[0] == 'call' and short(x[1]) in ('accept', 'visit', 'visit_children', 'visit_block', 'visit_alternative', 'visit_element') for ctx, x in flat((e,))):
            out.append((i, ('loop', e[1].id)))
    return out


def marks(raw):
    """visits the value was read after"""
    out = set()
    for x in subterms(raw):
        if x[0] == 'hv':
            out.add(('call', x[2]))
        if x[0] == 'lv':
            out.add(('loop', x[1]))
    return out


def reads_next(it, st, raw):
    return occurs(n_(it, st, raw), lambda x: x == NEXT)


def stale(it, p, raws):
    """an id read before a visit and used after it, without having been taken off the counter before"""
    vs = visits(it, p.trace)
    if not vs:
        return
    last = vs[-1]
    writes = [(i, e) for i, e in enumerate(p.trace) if e[0] == 'write' and e[2] == ('next_rule_id',)]
    for raw in raws:
        if not reads_next(it, p.st, raw):
            continue
        if last[1] in marks(raw):
            continue
        # read earlier: the counter must have moved on before that visit
        w = [e for i, e in writes if i < last[0]]
        if not w:
            definite(it, p.trace, p.st, 'the id is read before the parts are visited and used afterwards: a nested group gets the same id')
    for i, e in writes:
        if i > last[0] and last[1] not in marks(e[3]) and reads_next(it, p.st, e[3]):
            definite(it, p.trace, p.st, 'after the parts are visited the counter is set back to what it was before: ids are handed out twice')


# ------------------------------------------------------------------ groups
def block(it, ps, m, kind):
    lst = get('alternative_list', A(1))
    n = new = 0
    cache = None
    taken = [('contains', m['ns'], NEXT), ('contains', m['ni2n'], NEXT)]
    for p in ps:
        if p.kind != 'ret' or dec_any(it, p, taken) is True:
            continue
        n += 1
        v = n_(it, p.st, p.val)
        k = 'id'
        if v[0] == 'adt' and v[2] == 'NonTerminal':
            k, v = 'item', v[3][0][1]
        elif v[0] == 'adt' and v[2] == 'Terminal':
            definite(it, p.trace, p.st, 'a group becomes a token')
        if kind[0] not in (None, k):
            undec('a group gives different kinds of results')
        kind[0] = k
        items = prod_items(it, p.st, p.trace)
        hits = [(a, b) for a, b in conds(p.trace, it, p.st) if a[0] == 'contains' and occurs(a[1], lambda x: x == A(0)) and cs(a[1]) not in m.values() and cs(a[1]) != PRODS]
        if v[0] == 'mval':
            if items:
                definite(it, p.trace, p.st, 'a known group gets more productions')
            keyed(it, p, v[2], raw_key(it, p, v[1]), lst)
            if cache not in (None, v[1]):
                undec('several caches')
            cache = v[1]
            continue
        if not items and any(b for a, b in hits):
            undec('a known group gives %s' % fmt(v))
        if not reads_next(it, p.st, v):
            if understood(v):
                definite(it, p.trace, p.st, 'a group becomes %s' % fmt(v))
            undec('a group becomes %s' % fmt(v))
        E = Eff(it, p.trace, p.st)
        w = [x for x in E.ev if x[0] == 'write' and x[1] == NEXT]
        off = offset(v)
        if off is None:
            undec('the id of a group is %s' % fmt(v))
        productions(it, p, lst, v)
        regs = [x for x in E.real() if x[0] == 'insert' and x[1] == m['ns']]
        if not any(x[2][0] == v for x in regs):
            if dec(it, p, ('contains', m['ns'], v)) is None:
                definite(it, p.trace, p.st, 'the id of a group (%s) is not registered in the vocabulary' % fmt(v))
        if not w:
            definite(it, p.trace, p.st, 'a group takes an id but the counter does not move on')
        o2 = offset(w[-1][2][0])
        if o2 is None:
            undec('the counter becomes %s' % fmt(w[-1][2][0]))
        if o2 <= off:
            definite(it, p.trace, p.st, 'after a group with id %s the counter becomes %s' % (fmt(v), fmt(w[-1][2][0])))
        raws = [p.val] + [x[4][3][0] for x in regs]
        for ctx, e in flat(p.trace):
            if e[0] == 'mut' and n_(it, p.st, e[2]) == PRODS:
                raws.append(e[3][0])
        stale(it, p, raws)
        for x in E.real():
            if x[0] == 'minsert':
                if x[1] in m.values():
                    definite(it, p.trace, p.st, 'a group gets a name: %s' % fmt(x[1]))
                if x[2][1] != v:
                    if understood(x[2][1]):
                        definite(it, p.trace, p.st, 'a group is remembered as %s, not as %s' % (fmt(x[2][1]), fmt(v)))
                    undec('a group is remembered as %s' % fmt(x[2][1]))
                keyed(it, p, x[2][0], x[4][3][0], lst)
            elif x[0] == 'insert' and x[1] == m['ns']:
                o = offset(x[2][0])
                if o is None:
                    undec('registers %s' % fmt(x[2][0]))
            elif x[0] == 'write' and x[1] == NEXT:
                pass
            elif x[1] == PRODS:
                pass
            else:
                if understood(x[1]) and all(understood(y) for y in x[2]):
                    definite(it, p.trace, p.st, 'a group also changes %s (%s)' % (fmt(x[1]), x[0]))
                undec('a group also changes %s' % fmt(x[1]))
        new += 1
    if not new:
        undec('no path makes a helper')
    return '%d ways' % n


def raw_key(it, p, cache):
    for e in p.trace:
        if e[0] == 'cond' and e[1][0] == 'contains' and n_(it, p.st, e[1][1]) == cache:
            return e[1][2]
    return None


def keyed(it, p, key, raw, lst):
    """a group is remembered under exactly its alternatives"""
    if raw is None:
        undec('the key is not seen')
    k = it.val(p.st, raw)
    while k[0] == 'at':
        k = k[1]
    if k[0] == 'join' and k[2] == Str('') and k[1][0] in ('new', 'at'):
        results(it, p.st, p.trace, k[1], lst, 'alternative')
        definite(it, p.trace, p.st, 'groups are told apart by their alternatives strung together, whichever way they are divided')
    results(it, p.st, p.trace, raw, lst, 'alternative')


def offset(t):
    """k if t is the counter + k"""
    t = cs(t)
    if t == NEXT:
        return 0
    if t[0] == 'lin' and len(t[1]) == 1 and t[1][0] == (NEXT, 1):
        return t[2]
    return None


# ------------------------------------------------------------------ elements
def want_item(it, p, m):
    """(the symbol the element's reference names, kind) or None when several or none are known"""
    hit = []
    for acc in ('token_ref', 'string_literal', 'rule_ref', 'block'):
        if dec(it, p, ('is', get(acc, A(1)), 'Some')) is True:
            hit.append(acc)
    return hit[0] if len(hit) == 1 else (None if not hit else 'several')


def is_item(it, p, t, acc, m, kind):
    """whether t is the symbol of this reference: True, False (definitely another), None"""
    if acc == 'block':
        if vacc(t) == pay(BLOCK):
            kind[1] = 'item'
            return True
        if t[0] == 'adt' and t[2] == 'NonTerminal' and vacc(t[3][0][1]) == pay(BLOCK):
            kind[1] = 'id'
            return True
        return False if understood(t) else None
    if t[0] != 'adt' or t[2] not in ('Terminal', 'NonTerminal') or not t[3]:
        return False if understood(t) else None
    x = t[3][0][1]
    if acc == 'rule_ref':
        want = [('mval', m['nn2i'], RULENAME)]
        k = 'NonTerminal'
    elif acc == 'token_ref':
        want = [('mval', m['tn2i'], TOKNAME)]
        k = 'Terminal'
    else:
        k = 'Terminal'
        if t[2] == k and x[0] == 'mval' and x[1] == m['tn2i'] and occurs(x[2], lambda y: y == STRLIT):
            return True
        return False if understood(t) else None
    if t[2] == k and x in want:
        return True
    return False if understood(t) else None


def operator(it, p):
    s = dec(it, p, ('is', SUF, 'Some'))
    if s is False:
        return ''
    if s is None:
        return None
    st = {k: dec(it, p, ('is', get(k, pay(SUF)), 'Some')) for k in ('star', 'plus', 'question')}
    yes = [k for k, v in st.items() if v]
    if len(yes) == 1:
        return yes[0]
    no = [k for k, v in st.items() if v is False]
    if len(yes) == 0 and len(no) == 2:
        return [k for k in st if k not in no][0]
    if len(no) == 3:
        return 'skip'
    return None


WANT = {'star': ('zero or more', lambda n: True), 'plus': ('one or more', lambda n: n >= 1), 'question': ('at most one', lambda n: n <= 1)}
CACHES = {}


def constant(t):
    return t[0] in ('int', 'str', 'bool', 'char') or t[0] == 'adt' and all(constant(x) for _, x in t[3])


def tagged(it, p, c, k):
    """a key of the operand and constants besides: the cache is the part of c with these constants"""
    if k[0] != 'tup':
        return c, k
    tag, rest = [], []
    for j, x in enumerate(k[1]):
        b = x if constant(x) and not (x[0] == 'adt' and x[2] in ('Terminal', 'NonTerminal')) else None
        if b is None and x[0] in ('is', 'eq', 'ieq', 'not', 'contains') and dec(it, p, x) is not None:
            b = ('bool', dec(it, p, x))
        if b is None:
            rest.append(x)
        else:
            tag.append((j, b))
    return (('part', c, tuple(tag)), rest[0]) if len(rest) == 1 and tag else (c, k)


def element(it, ps, m, kind):
    CACHES.clear()
    n = new = 0
    seen = set()
    for p in ps:
        if p.kind != 'ret':
            continue
        if taken(it, p, m):
            continue
        acc = want_item(it, p, m)
        if acc == 'several':
            continue
        if acc is None:
            v = n_(it, p.st, p.val)
            undec('an element gives %s without asking what it is' % fmt(v)[:120])
        op = operator(it, p)
        if op == 'skip':
            continue
        n += 1
        seen.add((acc, op))
        if op is None:
            if acc is not None and not any(cs(a)[0] == 'is' and occurs(cs(a), lambda x: x == SUF) for a, v in conds(p.trace, it, p.st)):
                if cond_all(it, p.trace, p.st):
                    definite(it, p.trace, p.st, 'the operator behind the element is never looked at')
            undec('which operator applies is not clear when %s' % show_conds(p.trace)[:200])
        if op == '':
            v = n_(it, p.st, p.val)
            ok = is_item(it, p, v, acc, m, kind)
            if ok is not True:
                (bad if ok is False and cond_all(it, p.trace, p.st) else undec)('a %s becomes %s' % (acc, fmt(v)[:200]))
            E = Eff(it, p.trace, p.st)
            if E.real():
                x = E.real()[0]
                definite(it, p.trace, p.st, 'an element without operator changes %s' % fmt(x[1]))
            continue
        suffixed(it, p, m, kind, acc, op)
        new += 1
    if not new:
        undec('no path makes a helper')
    if kind[0] is not None and kind[1] is not None and kind[0] != kind[1]:
        bad('a group gives a bare %s but an element expects %s' % (kind[0], kind[1]))
    ops = {}
    for op, c in CACHES.items():
        for x in c:
            if x in ops and ops[x] != op:
                bad('%s and %s share one cache (%s): the helper made for one is used for the other' % (ops[x], op, fmt(x[1]) + ' under %s' % ', '.join(fmt(y) for _, y in x[2]) if x[0] == 'part' else fmt(x)))
            ops[x] = op
    return '%d ways: %s' % (n, ', '.join(sorted({'%s%s' % (a, {'star': '*', 'plus': '+', 'question': '?', '': ''}[o]) for a, o in seen})))


def taken(it, p, m):
    """the counter points at an id in use: excluded"""
    for a, v in conds(p.trace, it, p.st):
        a = cs(a)
        if v and a[0] == 'contains' and a[1] in (m['ns'], m['ni2n']) and offset(a[2]) is not None:
            return True
    return False


def suffixed(it, p, m, kind, acc, op):
    E = Eff(it, p.trace, p.st)
    v = n_(it, p.st, p.val)
    if E.loops and any(x[0] in ('mut', 'write') for L in E.loops for ctx, x in flat((('loop', L),))):
        undec('changes things in a loop')
    lookups = [(cs(a)[1], cs(a)[2], b) for a, b in conds(p.trace, it, p.st) if cs(a)[0] == 'contains' and cs(a)[1] not in m.values() and cs(a)[1] != PRODS and occurs(a[1], lambda x: x == A(0))]
    for c, k, b in lookups:
        k = tagged(it, p, c, k)[1]
        ok = is_item(it, p, k, acc, m, kind)
        if ok is not True:
            idonly(it, p, k, acc, m)
            (bad if ok is False and cond_all(it, p.trace, p.st) else undec)('the helper of %s is looked up under %s' % (acc, fmt(k)[:160]))
    hits = [(c, k) for c, k, b in lookups if b]
    if hits and any(x[1] == PRODS for x in E.real()):
        # what is remembered is looked at, but the helper that is made is another one
        hits = [h for h in hits if occurs(v, lambda x: x == ('mval',) + h)]
    if hits:
        c, k = ([h for h in hits if occurs(v, lambda x: x == ('mval',) + h)] or hits)[-1]
        CACHES.setdefault(op, set()).add(tagged(it, p, c, k)[0])
        want = ('adt', 'ProductionItem', 'NonTerminal', (('0', ('mval', c, k)),))
        if v != want and not (v == ('mval', c, k)):
            (bad if understood(v) and cond_all(it, p.trace, p.st) else undec)('a known helper gives %s' % fmt(v)[:160])
        if E.real():
            x = E.real()[0]
            definite(it, p.trace, p.st, 'a known helper also changes %s' % fmt(x[1]))
        return
    # a new helper
    prods = []
    raws = [p.val]
    regs = set()
    nxt = None
    for x in E.real():
        if x[1] == PRODS:
            if x[0] != 'insert':
                definite(it, p.trace, p.st, 'the productions found so far are changed by %s' % x[0])
            t = x[2][0]
            l, r_ = left_right(t)
            if l is None:
                undec('inserts %s' % fmt(t)[:120])
            raw = x[4][3][0]
            rr = rawright(it, raw)
            raws.append(dict(uncast(raw)[3])['left'])
            raws += rawitems(p, rr)
            s = content(it, p.st, p.trace, rr)
            if s is None or any(y[0] != 'item' for y in s.items):
                undec('inserts %s' % fmt(t)[:160])
            prods.append((l, tuple(n_(it, p.st, y[1]) for y in s.items)))
        elif x[0] == 'insert' and x[1] == m['ns']:
            regs.add(x[2][0])
            raws.append(x[4][3][0])
        elif x[0] == 'minsert' and x[1] in m.values():
            definite(it, p.trace, p.st, 'a helper gets a name: %s' % fmt(x[1]))
        elif x[0] == 'minsert' or (x[0] == 'insert' and x[2] and len(x[2]) == 2):
            k, i = x[2]
            c_, k = tagged(it, p, x[1], k)
            ok = is_item(it, p, k, acc, m, kind)
            if ok is not True:
                idonly(it, p, k, acc, m)
                (bad if ok is False and cond_all(it, p.trace, p.st) else undec)('the helper of %s is remembered under %s' % (acc, fmt(k)[:160]))
            CACHES.setdefault(op, set()).add(c_)
            root = v[3][0][1] if v[0] == 'adt' and v[2] == 'NonTerminal' else v
            if i not in (root, v):
                (bad if understood(i) and cond_all(it, p.trace, p.st) else undec)('the helper %s is remembered as %s' % (fmt(root), fmt(i)))
            raws.append(x[4][3][1])
        elif x[0] == 'write' and x[1] == NEXT:
            nxt = x[2][0]
        else:
            if understood(x[1]) and all(understood(y) for y in x[2]):
                definite(it, p.trace, p.st, 'the operator also changes %s (%s)' % (fmt(x[1]), x[0]))
            undec('the operator also changes %s' % fmt(x[1]))
    ok = is_item(it, p, v, acc, m, kind)
    if ok is True:
        definite(it, p.trace, p.st, 'the element with %s becomes the plain element' % op)
    if v[0] != 'adt' or v[2] != 'NonTerminal' or offset(v[3][0][1]) is None:
        if v[0] == 'adt' and v[2] == 'Terminal':
            definite(it, p.trace, p.st, 'the helper is handed out as a token: %s' % fmt(v))
        undec('the helper is %s' % fmt(v)[:160])
    if nxt is None:
        definite(it, p.trace, p.st, 'a helper takes an id but the counter does not move on')
    adv = offset(nxt)
    if adv is None:
        undec('the counter becomes %s' % fmt(nxt))
    root = offset(v[3][0][1])
    g = {}
    operand = None
    used = {root}
    for l, right in prods:
        o = offset(l)
        if o is None:
            if understood(l) and cond_all(it, p.trace, p.st):
                bad('a production is added to %s, which is no helper' % fmt(l)[:160])
            undec('a production is added to %s' % fmt(l)[:160])
        used.add(o)
        syms = []
        for t in right:
            if is_item(it, p, t, acc, m, kind) is True:
                syms.append('a')
            elif t[0] == 'adt' and t[2] == 'NonTerminal' and offset(t[3][0][1]) is not None:
                syms.append(offset(t[3][0][1]))
                used.add(syms[-1])
            else:
                (bad if understood(t) and cond_all(it, p.trace, p.st) else undec)('the helper for %s contains %s' % (op, fmt(t)[:160]))
        g.setdefault(o, set()).add(tuple(syms))
    for o in sorted(used):
        t = add(NEXT, Int(o))
        if o < 0 or o >= adv:
            definite(it, p.trace, p.st, 'the helper uses the id %s but the counter only moves to %s: the id is handed out again' % (fmt(t), fmt(nxt)))
        if t not in regs and dec(it, p, ('contains', m['ns'], t)) is None and dec(it, p, ('contains', m['ni2n'], t)) is None:
            definite(it, p.trace, p.st, 'the helper id %s is not registered in the vocabulary' % fmt(t))
    stale(it, p, raws)
    words = language(g, root)
    text_, want = WANT[op]
    show_ = '; '.join('%d -> %s' % (o, ' '.join(map(str, r_)) or 'ε') for o in sorted(g) for r_ in sorted(g[o], key=str))
    for k in range(0, 9):
        if (k in words) != want(k):
            definite(it, p.trace, p.st, '%s must derive %s; the helper (%s) derives %s: %d operands' % (op, text_, show_, 'also' if k in words else 'not', k))
    nul, fst = nullable(g), None
    fst = firsts(g, nul)
    for o, rs in g.items():
        if o not in reach_(g, root):
            continue
        begins = [r_ for r_ in rs if begins_a(r_, nul, fst)]
        empties = [r_ for r_ in rs if all(s != 'a' and nul.get(s) for s in r_)]
        if len(begins) > 1:
            definite(it, p.trace, p.st, 'two alternatives of the helper for %s begin with the operand (%s): one token of lookahead cannot choose' % (op, show_))
        if nul.get(o) and follow_a(g, nul, fst, root).get(o):
            definite(it, p.trace, p.st, 'in the helper for %s (%s) the operand can both begin and follow %d: one token of lookahead cannot choose' % (op, show_, o)) if begins else None
        if len(empties) > 1:
            definite(it, p.trace, p.st, 'two alternatives of the helper for %s derive nothing (%s)' % (op, show_))


def idonly(it, p, k, acc, m):
    """the bare number of the symbol as key: tokens and rules share their numbers"""
    if k in (('mval', m['tn2i'], TOKNAME), ('mval', m['nn2i'], RULENAME)) or (acc == 'block' and vacc(k) == pay(BLOCK) and k[0] == 'call'):
        definite(it, p.trace, p.st, 'helpers are kept by the bare number of the operand: a token and a rule with the same number share a helper')


def uncast(raw):
    while raw[0] in ('at', 'hv'):
        raw = raw[1]
    return raw


def rawright(it, raw):
    r = dict(uncast(raw)[3])['right']
    while r[0] == 'coll' and r[1] == 'Vec' and r[2][0] == 'seq' and uncast(r[2][1])[0] == 'new':
        r = uncast(r[2][1])
    return r


def rawitems(p, rr):
    rr = uncast(rr)
    out = []
    if rr[0] == 'new' and rr[3] is not None:
        if rr[3][0] == 'arr':
            out += list(rr[3][1])
        elif rr[3][0] == 'copy':
            out += list(rr[3][1][1]) if rr[3][1][0] == 'arr' else rawitems(p, rr[3][1])
    for e in p.trace:
        if e[0] == 'mut' and same_ident(e[2], rr):
            out += list(e[3])
    return out


def reach_(g, root):
    out, todo = set(), [root]
    while todo:
        o = todo.pop()
        if o in out:
            continue
        out.add(o)
        for r_ in g.get(o, ()):
            todo += [s for s in r_ if s != 'a']
    return out


def language(g, root, n=9):
    """lengths <= n derivable (least fixpoint)"""
    L = {o: set() for o in set(g) | {root} | {s for rs in g.values() for r_ in rs for s in r_ if s != 'a'}}
    ch = True
    while ch:
        ch = False
        for o, rs in g.items():
            for r_ in rs:
                cur = {0}
                for s in r_:
                    nx = {1} if s == 'a' else L[s]
                    cur = {x + y for x in cur for y in nx if x + y <= n}
                if not cur <= L[o]:
                    L[o] |= cur
                    ch = True
    return L[root]


def nullable(g):
    nul = {o: False for o in g}
    ch = True
    while ch:
        ch = False
        for o, rs in g.items():
            if not nul[o] and any(all(s != 'a' and nul.get(s) for s in r_) for r_ in rs):
                nul[o] = ch = True
    return nul


def firsts(g, nul):
    f = {o: False for o in g}
    ch = True
    while ch:
        ch = False
        for o, rs in g.items():
            if not f[o] and any(begins_a(r_, nul, f) for r_ in rs):
                f[o] = ch = True
    return f


def follow_a(g, nul, fst, root):
    """helpers behind which the operand can stand, inside the helper's own grammar"""
    f = {o: False for o in g}
    ch = True
    while ch:
        ch = False
        for o in reach_(g, root):
            for r_ in g.get(o, ()):
                for i, s in enumerate(r_):
                    if s == 'a' or f.get(s):
                        continue
                    rest = r_[i + 1:]
                    if begins_a(rest, nul, fst) or (all(x != 'a' and nul.get(x) for x in rest) and f.get(o)):
                        f[s] = ch = True
    return f


def begins_a(r_, nul, fst):
    for s in r_:
        if s == 'a' or fst.get(s):
            return True
        if not nul.get(s):
            return False
    return False
