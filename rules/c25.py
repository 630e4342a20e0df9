"""C25: an operation panics only when its input breaks a stated precondition.

Every public operation (and every default and implemented trait method) is summarised with its
private helpers inlined; each way of ending in a panic gives an obligation whose reason is the
last condition on the path.  The reasons a group of operations may have are listed (undefined
name, missing part of a tree node, symbol without an entry in the given set, no table entry or
no token left, unusable file); any other reason that is a condition on the inputs alone is a
violation.  Differences of unsigned counts that can go below zero and text cut at a fixed
offset that nothing on the path vouches for are further obligations.
"""
from lib import *
from fix import Stop, bad, undec, guard, definite

FLOOR = 1
TECHNIQUE = 'reachability of panic sites on MIR path summaries, reasons classified against the stated preconditions'
NEVER, ANALYSIS, LOWER, PARSE, DRAW, SCAN, NAME, TEXT = range(8)
GROUPS = [
    (r'^tool::grammar::Grammar::(first_set|follow_set|ll1_table|get_first)', ANALYSIS),
    (r'^<tool::grammar::Grammar as std::fmt::Display>', NAME),
    (r'Vocabulary::get_terminal_name$', NAME),
    (r'^<?tool::visitor::', LOWER),
    (r'^tool::(parser|v1::syntaxis_parser)::', PARSE),
    (r'^tool::gui::ast_drawer::ASTDrawer::(new|draw)$', DRAW),
    (r'SyntaxisLexer', SCAN),
    (r'RuleContext::get_text$', TEXT),
]
VOCMAPS = ('tn2i', 'nn2i', 'ti2n')


def of_vocabulary(m, *roles_):
    """is m one of those views of a vocabulary, wherever it is kept"""
    if not VIEWS:
        undec('the views of the vocabulary are not recognised')

    def path(t):
        return (path(t[1]) + (t[2],)) if t[0] == 'fld' else ()
    p = path(m)
    return any(p[-len(q):] == q for q in (path(VIEWS[k]) for k in roles_))


def group(n):
    for p, g in GROUPS:
        if re.search(p, n):
            return g
    return NEVER


def roots(src):
    return [n for n in sorted(src.d['fns']) if n in BASE]


def run(r, src):
    for n in roots(src):
        f = src.d['fns'][n]
        if f.get('derived') or not f.get('body'):
            continue
        it, ps = get_paths(r, src, n)
        if ps is not None:
            guard(r, 'total', n, lambda: operation(it, ps, group(n)))


def at_cursor(key, f, t):
    """condition: the position asked for (no offset) is past the end of the field"""
    ls = [k for k, c in key if k[0] == 'len']
    return len(ls) == 1 and ls[0][1][0] == 'fld' and ls[0][1][2] == f and t == 0


def allowed(g, kind, a, v):
    """is the reason one of the preconditions of the group"""
    def ct(t, f):
        return t[0] == 'fld' and t[2] == f
    if a[0] == 'contains' and v is False:
        m = a[1]
        if g == NAME:
            return of_vocabulary(m, 'ti2n')
        if g == LOWER:
            return of_vocabulary(m, *VOCMAPS)
        if g == PARSE:
            return ct(m, 'table')
        if g == ANALYSIS:
            return m[0] in ('sym', 'new')
    if a[0] == 'is' and v is False:
        t = a[1]
        if g == LOWER and a[2] == 'Some' and accessor(t):
            return True
        if g == LOWER and a[2] == 'Ok' and t[0] == 'dcast':
            return True
        if g == DRAW and a[2] == 'Ok' and t[0] in ('call', 'op'):
            return True
        if g in (SCAN, LOWER) and a[2] == 'Ok' and t[0] in ('call', 'op') and t[1].split('::')[-1] == 'new' and 'egex' in t[1]:
            return True
    if a[0] in ('ile', 'ieq') and v is True:
        if g == PARSE and at_cursor(a[1], 'tokens', a[2]):
            return True
        if g == SCAN and at_cursor(a[1], 'token_names', a[2]):
            return True
    return None


def accessor(t):
    return t[0] == 'call' and 'Context' in t[1]


def zero(trace, skip=True):
    """values when no loop on the path has run an iteration"""
    init = {}
    fresh = {}
    for e in trace:
        if e[0] == 'loop':
            init.update({k: v for k, v in (e[1].init or {}).items()})
        elif e[0] == 'new' and e[1][0] == 'new' and e[1][3] is not None and e[1][3][0] == 'empty':
            fresh[e[1]] = 0
    for e in toplevel(trace):
        if e[0] == 'mut':
            for k in list(fresh):
                if same_ident(e[2], k):
                    del fresh[k]
        elif e[0] == 'loop' and not skip:
            for k in list(fresh):
                if not any(not any(x[0] == 'mut' and same_ident(x[2], k) for c, x in flat(t)) for t, u, st in e[1].conts):
                    del fresh[k]
    return init, fresh


def rebuild(t, f):
    if t[0] in ('ile', 'ieq'):
        acc = Int(0)
        for k, c in t[1]:
            acc = add(acc, mul(rebuild(k, f), Int(c)))
        return le(acc, Int(t[2])) if t[0] == 'ile' else ieq(acc, Int(t[2]))
    if t[0] in ('not', 'and', 'or'):
        return (t[0],) + tuple(rebuild(x, f) for x in t[1:])
    return subst(t, f)


def first_time(it, p, cs, skip=True):
    """the conditions when the loops have not run (or, not skip, have added nothing)"""
    init, fresh = zero(p.trace, skip)
    names = {k: v for k, v in init.items()}
    new = {nv(it, p.st, k) for k in fresh} | set(fresh)

    def f(x):
        if skip and x[0] == 'lv' and x in names:
            return nv(it, p.st, names[x])
        if skip and x[0] == 'ix':
            return Int(0)
        if x[0] == 'len' and strip(x[1]) in {strip(y) for y in new}:
            return Int(0)
        return None
    out = []
    for a, v in cs:
        b = rebuild(a, f)
        if b[0] == 'contains' and strip(b[1]) in {strip(y) for y in new}:
            b = FALSE
        out.append((b, v))
    return out


INPUT = ('tup', 'sym', 'jidx', 'jnum', 'ix', 'as',  'fld', 'elem', 'len', 'is', 'dcast', 'contains', 'int', 'str', 'ile', 'ieq', 'eq', 'not', 'lin', 'bool', 'char', 'unit')
READS = ('str::chars', 'str::split', 'str::lines', 'str::char_indices', 'str::bytes', 'from_str')


def free(t, last=False, g=None):
    """made of inputs only, so that it can hold or not as the caller likes"""
    if t[0] == 'is' and not t[2] in ('Some', 'Ok', 'Err', 'None'):
        pass
    if t[0] == 'is' and t[1][0] in ('call', 'op') and parses(t[1]):
        return True
    if t[0] == 'contains' and last and occurs(t[2], lambda y: y[0] in ('mval', 'elem', 'op')) and g != PARSE:
        return False
    if mismatch(g, 'explicit', t) and not occurs(t, lambda x: x[0] == 'lv'):
        return True
    if t[0] == 'ieq' and any(k[0] == 'mval' or occurs(k, lambda x: x[0] == 'mval') for k, c in t[1]):
        # a looked-up value against what it was looked up with
        keys = [x for k, c in t[1] for m in subterms(k) if m[0] == 'mval' for x in leaves(m[2])]
        if any(x in keys for k, c in t[1] if not occurs(k, lambda x: x[0] == 'mval') for x in leaves(k)):
            return False

    def bad_(x):
        k = x[0]
        if k in INPUT or k in ('mval', 'jval'):
            return False
        if k == 'call':
            return not accessor(x) and x[1].split('::')[-1] not in ('from_str', 'from_reader') and x[1] not in BASE
        if k == 'op':
            return x[1] not in READS
        return True
    return not occurs(t, bad_)


def parses(t):
    """reading a number out of a text: the text may not be one"""
    return t[1].split('::')[-1] in ('parse', 'from_str_radix')


def leaves(t):
    return [x for x in subterms(t) if x[0] in ('sym', 'fld', 'elem', 'as', 'ix')]


BASE = set(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'operations.txt')).read().split('\n'))


def stems(t):
    """the inputs a condition speaks about, as the condition reads them"""
    if t[0] in ('ile', 'ieq'):
        return [y for k, c in t[1] for y in stems(k)]
    if t[0] in ('not', 'and', 'or', 'eq'):
        return [y for k in t[1:] for y in stems(k)]
    if t[0] in ('int', 'str', 'bool', 'char'):
        return []
    if t[0] == 'contains':
        return [t[1]] + stems(t[2])
    if t[0] in ('is', 'len', 'jnum'):
        return stems(t[1])
    if t[0] == 'lin':
        return [y for k, c in t[1] for y in stems(k)]
    return [t]


def independent(cs):
    """no input is read in two ways whose relation is not known"""
    ss = [s for a, v in cs for s in stems(a)]
    nums = {}
    for a, v in cs:
        if a[0] == 'jnum':
            nums.setdefault(a[1], []).append(v)
    if any(len(vs) > 1 for vs in nums.values()):
        return False
    for a, v in cs:
        if a[0] == 'is' and a[1] in nums and (not v or (a[2] == 'Number') != nums[a[1]][0]):
            return False
    for x in ss:
        for y in ss:
            if x is not y and x != y and y[0] in ('op',) and occurs(y, lambda z: z == x):
                return False
    return True


def model(cs):
    """numbers for the inputs under which every condition holds"""
    seen = {}
    num = []
    for a, v in cs:
        while a[0] == 'not':
            a, v = a[1], not v
        if a[0] == 'bool':
            if a[1] != v:
                return False
            continue
        if a[0] in ('ile', 'ieq'):
            num.append((a, v))
            continue
        if a[0] in ('and', 'or'):
            return None
        if seen.setdefault(a, v) != v:
            return False
        if a[0] == 'is':
            for b, w in seen.items():
                if b[0] == 'is' and b[1] == a[1] and b[2] != a[2] and w and v:
                    return False
    atoms = sorted({k for a, v in num for k, c in a[1]}, key=repr)
    consts = {0, 1, 2, 3}
    for a, v in num:
        if abs(a[2]) > 1 << 31 and not all(k[0] == 'jval' for k, c in a[1]):
            return None
        consts |= {abs(a[2]) + d for d in (-1, 0, 1) if abs(a[2]) + d >= 0}
    if len(consts) ** len(atoms) > 300000:
        return None
    import itertools
    for vals in itertools.product(sorted(consts), repeat=len(atoms)):
        m = dict(zip(atoms, vals))
        if all(((sum(m[k] * c for k, c in a[1]) <= a[2]) if a[0] == 'ile' else (sum(m[k] * c for k, c in a[1]) == a[2])) == v for a, v in num):
            return True
    return False


def possible(it, p, cs, g):
    """can a caller bring the conditions about: True / False (cannot) / None"""
    if model(cs) is False:
        return False
    for c in (cs, first_time(it, p, cs), first_time(it, p, cs, False)):
        c = [(a, v) for a, v in c if a[0] != 'bool' or a[1] != v]
        if all(free(a, i == len(c) - 1, g) for i, (a, v) in enumerate(c)) and independent(c) and model(c):
            return True
        if os.environ.get('VERIF_DEBUG'):
            print('  NOT SHOWN', p.val, independent(c), model(c))
            for a, v in c:
                print('     ', free(a), '' if v else 'not', fmt(a)[:150], a if not free(a) else '')
    return None


def mismatch(g, kind, a):
    """an explicit panic because a terminal of the production is not the token"""
    if g != PARSE or kind != 'explicit' or a[0] != 'ieq':
        return False
    return any(occurs(k, lambda x: x[0] == 'fld' and x[2] == 'right') for k, c in a[1]) and \
        any(k[0] == 'fld' and k[2] == 'token_type' for k, c in a[1])


def operation(it, ps, g):
    n = 0
    doubt = None
    seen = set()
    for p in ps:
        if p.kind != 'panic':
            continue
        cs = conds(p.trace, it, p.st)
        if not cs:
            bad('always panics (%s at %s)' % (p.val[0], p.val[2]))
        facts = {}
        if any(facts.setdefault(a, v) != v for a, v in cs):
            continue                                    # contradictory: cannot happen
        n += 1
        a, v = cs[-1]
        if allowed(g, p.val[0], a, v):
            continue
        msg = 'panics (%s at %s) when %s%s' % (p.val[0], p.val[2], '' if v else 'not ', fmt(a))
        ok = possible(it, p, cs, g)
        if ok or mismatch(g, p.val[0], a):
            bad(msg)
        if ok is None:
            doubt = doubt or msg
    for p in ps:
        es = [e for ctx, e in flat(p.trace)]
        todo = [e for e in es if e[0] in ('under', 'cut') and id(e) not in seen]
        if not todo:
            continue
        seen |= {id(e) for e in todo}
        cs = [nv(it, p.st, e[1]) for e in es if e[0] == 'cond']
        for e in todo:
            if e[0] == 'under':
                a = nv(it, p.st, e[1])
                if a == FALSE:
                    continue
                n += 1
                parts = [k for k, c in a[1]] if a[0] in ('ile', 'ieq') else [a]
                rel = [c for c in cs if any(occurs(c, lambda x: x == k or (k[0] == 'len' and x == k[1])) for k in parts)]
                if not rel and all(understood(k) or piece(k) for k in parts) and not delimited(a, g) and not extent(a) and Facts(p.st, it).dec(a) is not False:
                    bad('a difference of counts may go below zero (%s)' % fmt(a))
                top = p.trace[:p.trace.index(e)] if e in p.trace else None
                if top is not None and not delimited(a, g) and possible(it, p, conds(top, it, p.st) + [(a, True)], g):
                    bad('a difference of counts may go below zero (%s)' % fmt(a))
            elif e[0] == 'cut':
                n += 1
                s, lo, hi = (nv(it, p.st, x) for x in e[1:4])
                cut(it, p, g, cs, s, lo, hi, e[4])
    if doubt:
        undec(doubt)
    return '%d possible failures, each for a stated reason' % n


def literal(s):
    """text of a token, or an argument that is one"""
    return s[0] == 'sym' or s[0] == 'fld' and s[2] == 'text'


def piece(k):
    """the length of one part of a text cut at separators: any length, also none"""
    return k[0] == 'len' and k[1][0] == 'elem' and k[1][1][0] == 'op' and k[1][1][1] in ('str::split', 'str::lines')


def delimited(a, g):
    """length of a token's text less its delimiters"""
    return g == LOWER and a[0] in ('ile', 'ieq') and len(a[1]) == 1 and a[1][0][0][0] == 'len' and a[2] in (0, -1, 1)


def extent(a):
    return any(k[0] == 'fld' and k[2] in ('char_start_index', 'char_stop_index', 'cursor') for k, c in a[1]) if a[0] == 'ile' else False


def cut(it, p, g, cs, s, lo, hi, where):
    n = ('len', s)
    near = (Int(0), Int(1), n, add(n, Int(-1)), add(n, Int(-2)))
    if g == LOWER and lo in near and hi in near:
        return                                          # delimiters of a literal token
    width = add(hi, lo, -1)
    if lo != Int(0) and width[0] == 'int' and width[1] > 0 and understood(s):
        if not any(vouches(c, s) for c in cs):
            bad('at %s: %d bytes of %s are cut out whatever they are' % (where, width[1], fmt(s)))
        return
    fixed = [x for x in (lo, hi) if x[0] == 'int' and x[1] > 0 or x[0] == 'lin' and any(k == n for k, c in x[1]) and len(x[1]) == 1 and x != n]
    if not fixed or not understood(s) or s[0] == 'str':
        return
    if any(vouches(c, s) or s[0] == 'substr' and vouches(c, s[1]) for c in cs):
        return
    bad('at %s: text is cut at a fixed offset (%s to %s of %s) whatever it is' % (where, fmt(lo), fmt(hi), fmt(s)))


def vouches(c, s):
    """the condition says more about the text than its length"""
    c = rebuild(c, lambda x: Int(0) if x == ('len', s) or x[0] in ('rfind', 'mend') else None)
    return occurs(c, lambda x: x == s)
