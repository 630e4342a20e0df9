"""C21: quoted literals become tokens that match exactly their text.

For the visitor that collects literals every path is summarised: an element without a literal
must show all its children to the visitor, one with a literal must register exactly one key
derived from it (distinct for distinct literals and never a token's name), unless the key is
already there, and put '^(' escape(text) ')' into the lexer table.  The function that turns the
quoted form into the text is checked as a table over character classes.  The reference in a
production must look up the very same key.
"""
from sym import *

FLOOR = 1
TECHNIQUE = 'symbolic path summaries of the literal visitors; character-class table of the unescaping loop; term equality between registering and looking up'
# quoted forms and no two with the same text
LITS = ["'a'", "'ab'", "'A'", "'if'", "'+'", "'a.b'", "'('", "'a|b'", r"'\n'", r"'\\'", r"'\\n'", r"'\''", "'*'", "' '", "'  '", "'a '", "' a'", "'é'", "'#'",
        "'a-b'", r"'\t'", r"'\r'", "'^'", "'$'", "'\"'", "'/'", "'[a]'", "'{1}'", "'n'", r"'x\'y'", r"'\\\\'", r"'\\\''", "'ID'", "'T_2'", r"'\n\n'", r"'\\t'", r"'\\r'", "'%%'", "'?'"]


def run(r, src):
    m = maps(r, src)
    if m is None:
        r.undec('anchor', 'vocabulary', 'its views are not recognised')
        return
    hs = helpers(src, None)
    fns = {}
    keyt = [None]
    f = LIT + 'visit_element'
    it, ps = get_paths(r, src, f, hs)
    if ps is not None:
        guard(r, 'collected', f, lambda: collected(it, ps))
        guard(r, 'token', f, lambda: token(it, ps, m, keyt, hs))
    used = set()
    g = PRO + 'visit_element'
    it2, ps2 = get_paths(r, src, g, hs)
    if ps2 is not None:
        guard(r, 'reference', g, lambda: reference(it2, ps2, m, keyt[0], hs))
    h = SLV + 'visit_terminal'
    if h in src.d['fns']:
        it3, ps3 = get_paths(r, src, h, hs)
        if ps3 is not None:
            guard(r, 'table', h, lambda: terminal(it3, ps3, hs))
    for x in hs:
        it4, ps4 = get_paths(r, src, x)
        if ps4 is not None:
            guard(r, 'text', x, lambda: table(it4, ps4))


def env_of(lit, s, hs):
    return {lit: s, '@fns': {short(h): unescape for h in hs}}


# ------------------------------------------------------------------ nothing overlooked
def collected(it, ps):
    has = ('is', get('string_literal', A(1)), 'Some')
    n = 0
    for p in ps:
        if p.kind != 'ret' or dec(it, p, has) is True:
            continue
        E = Eff(it, p.trace, p.st)
        n += 1
        if descends(it, p, E):
            continue
        if dec(it, p, ieq(('len', fld(get('as_rule', A(1)), 'children')), Int(0))) is True:
            continue                    # there is nothing below it
        if not E.calls or all(c[0] in ('string_literal', 'default_result', 'as_rule') for c in E.calls):
            if not E.loops:
                definite(it, p.trace, p.st, 'below an element without a literal nothing is visited: literals inside a group are not collected')
        if any(c[0] in ('token_ref', 'rule_ref', 'block') for c in E.calls):
            nob = dec(it, p, ('is', get('block', A(1)), 'Some'))
            if nob is False:
                continue
            if dec_any(it, p, [('is', get('token_ref', A(1)), 'Some'), ('is', get('rule_ref', A(1)), 'Some')]) is True:
                continue
            if not E.loops and not any(c[0] in ('accept', 'visit', 'visit_children', 'visit_block') for c in E.calls):
                definite(it, p.trace, p.st, 'a group inside an element is not visited')
        undec('how the parts of an element are visited is not clear')
    if not n:
        undec('every element is taken for a literal')
    return '%d ways' % n


def descends(it, p, E):
    for c in E.calls:
        if c[0] == 'visit_children' and c[1][:1] and base(c[1][0]) == A(0):
            return True
        if c[0] in ('accept', 'visit', 'visit_block') and pay(get('block', A(1))) in c[1]:
            return True
    for L in E.loops:
        d = loop_dom(it, L)
        if d.seq is None:
            continue
        s = cs(d.seq)
        if s == ('fld', get('as_rule', A(1)), 'children'):
            if d.kind == 'shifted':
                definite(it, p.trace, p.st, 'not all parts of an element are visited: %s' % d.note)
            for c in cases(it, L, d):
                if c.kind != 'cont':
                    continue
                rule = [v for a, v in conds(c.trace, it, c.st) if a[0] == 'is' and a[1] == d.elem and a[2] == 'Rule']
                if rule and rule[0]:
                    if not any(e[0] == 'call' and short(e[1]) in ('visit', 'accept') for ctx, e in flat(c.trace)):
                        definite(it, c.trace, c.st, 'a rule below an element is not visited')
            return True
    return False


# ------------------------------------------------------------------ one token per literal
def token(it, ps, m, keyt, hs):
    has = ('is', get('string_literal', A(1)), 'Some')
    i = fld(A(0), 'next_token_id')
    taken = [('contains', m['ts'], i), ('contains', m['ti2n'], i)]
    data = fld(A(0), 'data')
    n = new = 0
    looked = set()
    for p in ps:
        if p.kind != 'ret' or dec(it, p, has) is not True or dec_any(it, p, taken) is True:
            continue
        E = Eff(it, p.trace, p.st)
        n += 1
        looks = [(cs(a)[2], v) for a, v in conds(p.trace, it, p.st) if cs(a)[0] == 'contains' and cs(a)[1] == m['tn2i']]
        other = [cs(a) for a, v in conds(p.trace, it, p.st) if cs(a)[0] == 'contains' and cs(a)[1] in (m['nn2i'],)]
        ch = E.real()
        if not ch:
            if any(v for k, v in looks):
                looked |= {k for k, v in looks if v}
                continue
            cc = [(cs(a), v) for a, v in conds(p.trace, it, p.st) if occurs(a, lambda x: x[0] == 'fld' and x[2] == 'text')]
            cc = [(a, v) for a, v in cc if a[0] != 'contains' or a[1] not in m.values()]
            if cc:
                for s in LITS:
                    if all(evcond(a, env_of(STRLIT, s, hs)) == v for a, v in cc):
                        definite(it, p.trace, p.st, 'the literal %s gets no token' % s)
                undec('a literal gets no token when %s' % show_conds(p.trace)[:200])
            definite(it, p.trace, p.st, 'a literal that is not registered yet gets no token')
        ins = [x for x in ch if x[0] == 'minsert' and x[1] == m['tn2i']]
        if not ins:
            definite(it, p.trace, p.st, 'a literal is put into the table but no token is registered for it')
        key, idt = ins[0][2]
        tests = [k for k, v in looks if not v]
        if not looks:
            undec('whether the literal is known already is asked in an unusual way')
        for k in tests + sorted(looked, key=rk):
            if k != key:
                same_text(it, p, k, key, hs, 'is looked for')
        keycheck(it, p, key, hs)
        keyt[0] = key
        pu = [x for x in ch if x[1] == data and x[0] == 'push']
        if not pu:
            definite(it, p.trace, p.st, 'a literal gets a token but no entry in the lexer table')
        v = pu[0][2][0]
        if v[0] != 'adt':
            undec('puts %s into the table' % fmt(v))
        f = dict(v[3])
        if f.get('token_type') != idt:
            if f.get('token_type') is not None and understood(f['token_type']) and understood(idt):
                definite(it, p.trace, p.st, 'the literal is token %s, its pattern belongs to token %s' % (fmt(idt), fmt(f['token_type'])))
            undec('the pattern belongs to token %s' % fmt(f.get('token_type')))
        exact_text(it, p, pattern(it, p, rawfield(pu[0], 'regex'), STRLIT), STRLIT, hs)
        new += 1
    if not new:
        undec('no path makes a token')
    return '%d ways' % n


def same_text(it, p, a, b, hs, how):
    for s in LITS:
        x, y = ev(a, env_of(STRLIT, s, hs)), ev(b, env_of(STRLIT, s, hs))
        if x is None or y is None:
            undec('%s as %s' % (how, fmt(a)[:160]))
        if x != y:
            definite(it, p.trace, p.st, 'the literal %s is registered as %s and %s as %s' % (s, y, how, x))
    undec('%s as %s' % (how, fmt(a)[:160]))


def keycheck(it, p, key, hs):
    """distinct literals, distinct keys; no key looks like the name of a token"""
    if not occurs(key, lambda x: x == STRLIT):
        if understood(key):
            definite(it, p.trace, p.st, 'every literal is registered as %s' % fmt(key)[:160])
        undec('a literal is registered as %s' % fmt(key)[:160])
    got = {}
    for s in LITS:
        k = ev(key, env_of(STRLIT, s, hs))
        if k is None:
            undec('a literal is registered as %s' % fmt(key)[:160])
        if k in got:
            definite(it, p.trace, p.st, 'the literals %s and %s become the same token (%s)' % (got[k], s, k))
        if k[:1].isalpha() and k.replace('_', 'a').isalnum() and k.isascii():
            definite(it, p.trace, p.st, 'the literal %s is registered as %s, which may be the name of a token' % (s, k))
        got[k] = s


CHANGES = ('trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'to_lowercase',
           'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'replacen', 'trim_ascii')


def exact_text(it, p, h, lit, hs):
    """the pattern matches the literal's text and nothing else"""
    body = ('substr', lit, Int(1), add(('len', lit), Int(-1)))
    if any(h == ('rescape', ('call', x, (body,), None)) for x in [short(y) for y in hs]):
        return
    for y in subterms(h):
        if y[0] in ('call', 'op') and short(y[1]) in CHANGES and any(z == lit for z in subterms(y[2][0] if y[2] else UNIT)):
            definite(it, p.trace, p.st, 'the pattern of a literal is made from its text after %s' % short(y[1]))
    if not occurs(h, lambda y: y == lit) and all(y[1] in hs or understood(y) for y in subterms(h) if y[0] in ('call', 'op')) \
            and occurs(h, lambda y: y[0] == 'fld' and lit[0] == 'fld' and y[1] == lit[1]):
        definite(it, p.trace, p.st, 'the pattern of a literal is not made from its text but from %s' % fmt(h)[:160])
    for s in LITS:
        x = ev(h, env_of(lit, s, hs))
        if x is None:
            if not occurs(h, lambda y: y[0] == 'rescape') and ev(h, env_of(lit, "'+'", hs)) == '+':
                definite(it, p.trace, p.st, 'the pattern of the literal \'+\' is +: special characters are not taken literally')
            undec('the pattern is made from %s' % fmt(h)[:160])
        want = rescape(unescape(s[1:-1]))
        if x != want and not (plain(x) and x == unescape(s[1:-1])):
            definite(it, p.trace, p.st, 'the pattern of the literal %s is %s, expected %s' % (s, x, want))
    if not occurs(h, lambda y: y[0] == 'rescape'):
        undec('the pattern is made from %s' % fmt(h)[:160])
    undec('the pattern is made from %s' % fmt(h)[:160])


def plain(x):
    return not any(c in '\\.+*?()|[]{}^$#&-~' for c in x)


# ------------------------------------------------------------------ the reference
def reference(it, ps, m, key, hs):
    if key is None:
        undec('how literals are registered is not known')
    has = ('is', get('string_literal', A(1)), 'Some')
    n = 0
    for p in ps:
        if dec(it, p, has) is not True:
            continue
        if p.kind != 'ret':
            continue
        ks = [cs(a)[2] for a, v in conds(p.trace, it, p.st) if cs(a)[0] == 'contains' and cs(a)[1] == m['tn2i']]
        wr = [cs(a)[2] for a, v in conds(p.trace, it, p.st) if cs(a)[0] == 'contains' and cs(a)[1] == m['nn2i']]
        if not ks:
            if wr and understood(wr[0]):
                definite(it, p.trace, p.st, 'a literal is looked up among the rules')
            undec('how a literal is looked up is not clear')
        for k in ks:
            if k != key:
                same_text(it, p, k, key, hs, 'is looked up')
        n += 1
    if not n:
        for p in ps:
            if p.kind == 'ret' and any(c[0] == 'string_literal' for c in Eff(it, p.trace, p.st).calls):
                undec('no way through for a literal')
        definite(it, ps[0].trace, ps[0].st, 'a literal in a rule is not resolved at all') if all(p.kind == 'ret' for p in ps) else undec('no way through for a literal')
    return '%d ways' % n


# ------------------------------------------------------------------ the terminal visitor
def terminal(it, ps, hs):
    lit = fld(A(1), 'symbol', 'text')
    ty = fld(A(1), 'symbol', 'token_type')
    is_lit = ieq(ty, Int(19))
    i = fld(A(0), 'next_token_type')
    data = fld(A(0), 'data')
    n = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        F_ = Facts(p.st, it)
        d = F_.dec(is_lit)
        E = Eff(it, p.trace, p.st)
        ch = E.real()
        n += 1
        if d is not True:
            if ch and d is False:
                definite(it, p.trace, p.st, 'a terminal that is no quoted literal changes things: %s %s' % (ch[0][0], fmt(ch[0][1])))
            if ch:
                definite(it, p.trace, p.st, 'a terminal is treated as a quoted literal without asking for its type')
            continue
        seen = [(cs(a)[1], cs(a)[2], v) for a, v in conds(p.trace, it, p.st) if cs(a)[0] == 'contains' and cs(a)[1] != data]
        pu = [x for x in ch if x[1] == data]
        if not ch:
            if any(v for _, _, v in seen):
                continue
            if any(occurs(cs(a), lambda x: x == lit) for a, v in conds(p.trace, it, p.st)):
                undec('a literal gets no token when %s' % show_conds(p.trace)[:200])
            definite(it, p.trace, p.st, 'a literal not seen before gets no entry in the table')
        if not pu:
            if not any(v for _, _, v in seen):
                definite(it, p.trace, p.st, 'a literal not seen before gets no entry in the table')
            continue
        if any(v for _, _, v in seen):
            definite(it, p.trace, p.st, 'a literal seen before gets another entry')
        if pu[0][0] != 'push' or pu[0][2][0][0] != 'adt':
            undec('changes the table by %s' % pu[0][0])
        ins = [(x[1], x[2][0]) for x in ch if x[0] in ('insert', 'minsert') and x[1] != data]
        if not seen:
            undec('whether a literal was seen before is asked in an unusual way')
        if not any((c, k) == (c2, k2) for c, k, v in seen for c2, k2 in ins):
            if not ins:
                definite(it, p.trace, p.st, 'a literal is not remembered: a second occurrence becomes another token')
            undec('remembers %s' % fmt(ins[0][1]))
        for c, k, v in seen:
            got = {}
            for s in LITS:
                x = ev(k, env_of(lit, s, hs))
                if x is None:
                    undec('remembers a literal as %s' % fmt(k)[:100])
                if x in got:
                    definite(it, p.trace, p.st, 'the literals %s and %s are taken for the same' % (got[x], s))
                got[x] = s
        exact_text(it, p, pattern(it, p, rawfield(pu[0], 'regex'), lit), lit, hs)
    if not n:
        undec('no way through')
    return '%d ways' % n


# ------------------------------------------------------------------ from the quoted form to the text
def table(it, ps):
    """the loop over the characters, one step per class of the next two characters"""
    rets_ = [p for p in ps if p.kind == 'ret']
    ls = [[e[1] for e in p.trace if e[0] == 'loop'] for p in rets_]
    m = machine(it, ps, rets_)
    if m is not None:
        return m
    vs = {it.deep(p.st, p.val) for p in rets_}
    one = len(vs) == 1
    if not rets_ or any(len(x) != 1 or x[0] is not ls[0][0] for x in ls):
        undec('%d ways through' % len(ps))
    if not one:
        # left in the middle with something more appended
        b = {v[1][0] if v[0] == 'cat' else v for v in vs}
        if len(b) != 1:
            undec('%d ways through' % len(ps))
        vs = b
    p = rets_[0]
    L = ls[0][0]
    v = vs.pop()
    pos = [k for k in L.init if k[0] == 'lv' and k != v and L.init[k] == Int(0)]
    if v not in L.init or L.init[v] not in (Str(''), ('cat', ())):
        undec('the result is %s' % fmt(v))
    if len(pos) == 0:
        pos = [ixof(L)]
    if len(pos) != 1:
        undec('several positions')
    pos = pos[0]
    seqs = set()
    consts = set()
    allc = []
    for t, u, s in L.conts:
        allc.append(('cont', t, u, s))
    for k, t, x, s in L.exits:
        allc.append(('panic' if k == 'panic' else 'exit', t, {}, s))
    for k, t, u, s in allc:
        for a, b in conds(t, it, s):
            for x in subterms(a):
                if x[0] == 'elem':
                    seqs.add(x[1])
                if x[0] == 'len':
                    seqs.add(x[1])
                if x[0] == 'char':
                    consts.add(chr(x[1]))
    if len(seqs) != 1:
        undec('looks at %s' % ', '.join(fmt(x) for x in seqs))
    S = seqs.pop()
    if not (S[0] == 'op' and short(S[1]) == 'chars' and S[2][0] == A(0)):
        undec('goes over %s' % fmt(S))
    classes = sorted(consts | {'\\', "'", 'n', 't', 'r', 'q', '"', '0'})
    fresh = '\u20ac'
    classes.append(fresh)
    n = 0
    for rem in (2, 1, 0):
        for c0 in (classes if rem >= 1 else ['']):
            for c1 in (classes if rem >= 2 else ['']):
                env = {pos: 1000, ('elem', S, pos): c0, ('elem', S, add(pos, Int(1))): c1, ('len', S): 1000 + (rem if rem < 2 else 50)}
                hit = []
                for k, t, u, s in allc:
                    ok = True
                    for a, b in conds(t, it, s):
                        e = evcond(a, env)
                        if e is None:
                            undec('asks %s' % fmt(a)[:120])
                        if e != b:
                            ok = False
                            break
                    if ok:
                        hit.append((k, t, u, s))
                if len(hit) != 1:
                    undec('%d steps fit %r %r' % (len(hit), c0, c1))
                k, t, u, s = hit[0]
                n += 1
                if rem == 0:
                    if k != 'exit':
                        undec('does not end with the text')
                    continue
                if k == 'panic':
                    bad('panics at the characters %r %r' % (c0, c1))
                if k == 'exit' and not one and rem < 2:
                    undec('ends with something more appended')
                if k == 'exit':
                    bad('stops at the characters %r %r: the rest of the literal is lost' % (c0, c1))
                new = nv(it, s, u.get(v, v))
                front(new, nv(it, s, v), c0 + c1)
                q = suffix(new, nv(it, s, v), env)
                d = u.get(pos, add(pos, Int(1)) if pos[0] == 'ix' else pos)
                d = ev(nv(it, s, d), env)
                if q is None or d is None:
                    undec('at %r %r appends %s' % (c0, c1, fmt(new)[:120]))
                d -= 1000
                if c0 != '\\':
                    want = [(c0, 1)]
                elif rem == 1:
                    want = [('\\', 1), ('', 1)]
                elif c1 in 'ntr':
                    want = [({'n': '\n', 't': '\t', 'r': '\r'}[c1], 2)]
                elif c1 in '\\\'':
                    want = [(c1, 2)]
                else:
                    want = [('\\' + c1, 2), (c1, 2), ('\\', 1)]
                    if c1 in consts or c1 in '"0':
                        want = want + [(q, 2)]          # further escapes are left open
                if (q, d) not in want:
                    bad('at the characters %r %r it appends %r and moves on by %d, expected %r and %d' % (c0, c1, q, d, want[0][0], want[0][1]))
    return '%d combinations of characters' % n


def machine(it, ps, rets_):
    """a loop that takes one character at a time and remembers what came before in flags: every
    reachable combination of its flags and what a reading of the text is in the middle of"""
    if not rets_ or len(rets_) != len(ps):
        return None
    Ls = {id(e[1]): e[1] for p in rets_ for e in p.trace if e[0] == 'loop'}
    if len(Ls) != 1 or any(sum(e[0] == 'loop' for e in p.trace) != 1 for p in rets_):
        return None
    L = list(Ls.values())[0]
    p0 = rets_[0]
    res = [k for k in L.init if L.init[k] in (Str(''), ('cat', ()))]
    vals = [it.deep(p.st, p.val) for p in rets_]
    res = [k for k in res if all(x == k or x[0] == 'cat' and x[1][0] == k for x in vals)]
    if len(res) != 1:
        return None
    v = res[0]
    flags = [k for k in L.init if k != v and '#pos' not in str(k)]
    if not flags:
        return None
    d = loop_dom(it, L)
    if d.kind != 'fwd' or not (d.seq[0] == 'op' and short(d.seq[1]) == 'chars' and d.seq[2][0] == A(0)):
        return None
    S, ix, elem = d.seq, ixof(L), d.elem
    consts = set()
    for t, u, s in L.conts:
        for a, b in conds(t, it, s):
            consts |= {chr(x[1]) for x in subterms(a) if x[0] == 'char'}
    classes = sorted(consts | {'\\', "'", 'n', 't', 'r', 'q', '"', '0'}) + ['\u20ac']

    def value(t, env):
        if t[0] == 'bool':
            return t[1]
        x = ev(t, env)
        return x if x is not None else evcond(t, env)

    def holds(a, env):
        if a in env:
            return env[a]
        if a[0] == 'not':
            x = holds(a[1], env)
            return None if x is None else not x
        return evcond(a, env)

    def fits(cs_, env):
        for a, b in cs_:
            x = holds(a, env)
            if x is None:
                undec('asks %s' % fmt(a)[:120])
            if x != b:
                return False
        return True

    start = tuple(value(nv(it, p0.st, L.init[k]), {}) for k in flags)
    if None in start:
        return None
    todo, seen = [(start, False, '')], {}
    how = {(start, False, ''): ''}
    n = 0
    while todo:
        key = todo.pop()
        if key in seen:
            continue
        seen[key] = 1
        if len(seen) > 200:
            undec('more than 200 combinations of flags')
        state, esc, out = key
        env = dict(zip(flags, state))
        env[ix], env[('len', S)] = 1000, 1000
        # the text ends here
        hit = [(p, x) for p, x in zip(rets_, vals) if fits([(a, b) for a, b in conds(p.trace, it, p.st) if not occurs(a, lambda y: y == ix)], env)]
        if len(hit) != 1:
            undec('%d ways out fit' % len(hit))
        q = suffix(hit[0][1], v, env)
        if q is None:
            undec('ends with %s' % fmt(hit[0][1])[:120])
        if out + q not in (('\\', '') if esc else ('',)):
            bad('behind %r the text ends with %r appended, expected %r' % (how[key], out + q, '\\' if esc else ''))
        for c in classes:
            env = dict(zip(flags, state))
            env[ix], env[('len', S)], env[elem] = 1000, 1050, c
            hit = [(t, u, s) for t, u, s in L.conts if fits(conds(t, it, s), env)]
            if not hit:
                if any(k != 'panic' and fits(conds(t, it, s), env) for k, t, x, s in L.exits):
                    bad('stops at %r: the rest of the literal is lost' % (how[key] + c))
                if any(k == 'panic' and fits(conds(t, it, s), env) for k, t, x, s in L.exits):
                    bad('panics at %r' % (how[key] + c))
            if len(hit) != 1:
                undec('%d steps fit %r' % (len(hit), how[key] + c))
            t, u, s = hit[0]
            front(nv(it, s, u.get(v, v)), v, c)
            q = suffix(nv(it, s, u.get(v, v)), v, env)
            nxt = tuple(value(nv(it, s, u.get(k, k)), env) for k in flags)
            if q is None or None in nxt:
                undec('at %r the step is not understood' % (how[key] + c))
            n += 1
            got = out + q
            if not esc and c == '\\':
                new = (nxt, True, got)
                if got not in ('', '\\'):
                    bad('at the beginning of an escape %r it appends %r' % (how[key] + c, got))
            else:
                if not esc:
                    want = [c]
                elif c in 'ntr':
                    want = [{'n': '\n', 't': '\t', 'r': '\r'}[c]]
                elif c in '\\\'':
                    want = [c]
                else:
                    want = ['\\' + c, c]
                    if c in consts or c in '"0':
                        want = want + [got]
                if got not in want:
                    bad('the characters %r become %r, expected %r (behind %r)' % (how[key][-1:] + c if esc else c, got, want[0], how[key]))
                new = (nxt, False, '')
            how.setdefault(new, how[key] + c)
            todo.append(new)
    return '%d combinations of flags and characters' % n


def front(new, old, at):
    if new[0] == 'cat' and new[1][0] != old and new[1].count(old) == 1:
        bad('at the characters %r it puts something in front of what was there' % at)


def suffix(new, old, env):
    """what was appended to the result"""
    if new == old:
        return ''
    if new[0] != 'cat' or new[1][0] != old:
        return None
    out = [ev(x, env) for x in new[1][1:]]
    return None if None in out else ''.join(out)
