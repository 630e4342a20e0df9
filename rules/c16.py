"""C16: generated scanners are right for every token table.

The template is parsed.  Its only inputs must be the name and plain loops over the table, so
that the text for a token depends on that token alone; how an entry's fields reach the
template is read off the summary of its serializer.  Under that uniformity finitely many
tables stand for all: instances with no, one, many, odd and oddly numbered tokens (quotes, hashes,
backslashes, newlines, wide characters, no whitespace token) are generated, type-checked
against the library, and the constants, names and patterns found in the compiled instance
compared with the table.  The literal around the pattern is checked for an unbounded class of
patterns: a raw literal with k hashes is ended by a quote and k hashes.
"""
from scan import *
import re

FLOOR = 1
TECHNIQUE = 'structural check of the template for uniformity, plus type-checked instances whose compiled tables are compared with the token table'
KEYS = ['full', 'bare', 'empty', 'one', 'odd', 'many', 'gaps']


def run(r, src):
    t = template_text(src)
    if t is None:
        r.bad('anchor', TEMPLATE, 'the template is gone')
        return
    guard(r, 'entry-fields', DATA, lambda: fields(src))
    try:
        ast = tera.parse(t)
    except tera.Unsupported as e:
        if e.malformed:
            r.bad('uniform', TEMPLATE, 'the template cannot be rendered: %s' % e)
            return
        r.undec('uniform', TEMPLATE, str(e))
        return
    guard(r, 'uniform', TEMPLATE, lambda: uniform(src, ast))
    literals(r, src, ast)
    instances(r, src, KEYS)
    for k, where in (('cr', 'carriage-return'), ('crlf', 'carriage-return-newline')):
        instances(r, src, [k], 'template-regex-literal', where)


def fields(src):
    ks = entry_keys(src)
    for f in ('token_name', 'token_type', 'regex'):
        if list(ks.values()).count(f) != 1:
            bad('the field %s is handed to the template %d times' % (f, list(ks.values()).count(f)))
    return 'each field under one key: %s' % sorted(ks)


def walk(ns, path=()):
    for n in ns:
        yield path, n
        if n[0] == 'for':
            yield from walk(n[3], path + (n,))
            yield from walk(n[4], path + (('else', n),))
        elif n[0] == 'if':
            for c, b in n[1]:
                yield from walk(b, path + (('if', c),))
            yield from walk(n[2], path + (('if', None),))


def evars(e):
    if not isinstance(e, tuple):
        return
    if e and e[0] == 'var':
        yield e[1]
        return
    for x in e:
        if isinstance(x, tuple):
            yield from evars(x)


PER_VALUE = ('replace', 'safe')


def uniform(src, ast):
    loops = outs = conds_ = 0
    ks = serialized(src)
    for path, n in walk(ast):
        if n[0] == 'for':
            if n[2] != ('var', ('tokens',)):
                if any(v[0] == 'tokens' for v in evars(n[2])) and chain(n[2]) and 'slice' in chain(n[2]):
                    bad('a loop ranges only over a part of the table (slice)')
                undec('a loop ranges over something else than the plain table')
            if any(p[0] == 'for' for p in path):
                bad('a loop over the table lies inside another one') if any(v[0] == n[1] for _, m in walk(n[3]) if m[0] == 'expr' for v in evars(m[1])) else None
            if n[4]:
                undec('a loop has an else part')
            loops += 1
        elif n[0] == 'if':
            lv = [p[1] for p in path if p[0] == 'for']
            for c, b in n[1]:
                if not per_token(c, lv, ks):
                    undec('a part of the template is conditional')
            conds_ += 1
        elif n[0] == 'set':
            undec('the template sets a variable')
        elif n[0] == 'expr':
            outs += 1
            lv = [p[1] for p in path if p[0] == 'for']
            for v in evars(n[1]):
                if v == ('name',):
                    continue
                if v[0] in lv:
                    if len(v) != 2 or v[1] not in ks:
                        bad('the template refers to %s, which a table entry does not have' % '.'.join(v))
                    continue
                undec('the template uses %s' % '.'.join(v))
            e = n[1]
            while e[0] == 'filter':
                if e[1] not in PER_VALUE:
                    undec('the template applies %s' % e[1])
                e = e[2]
            if e[0] != 'var':
                undec('the template computes a value')
    if not loops:
        bad('no loop over the table')
    return '%d plain loops over the table, %d insertions, %d choices by a token\'s own name' % (loops, outs, conds_)


def per_token(c, lv, ks):
    """a comparison of the token's own name with a name that some instance has and some has not"""
    if c[0] != 'cmp' or c[1] not in ('==', '!='):
        return False
    a, b = c[2], c[3]
    if a[0] == 'lit':
        a, b = b, a
    return a[0] == 'var' and len(a[1]) == 2 and a[1][0] in lv and ks.get(a[1][1]) == 'token_name' and b[0] == 'lit' and \
        any(b[1] in [t['token_name'] for t in INSTANCES[k][1]] for k in KEYS)


def chain(e):
    out = []
    while e[0] == 'filter':
        out.append(e[1])
        e = e[2]
    return out


def literals(r, src, ast):
    """raw literals around something that depends on the table"""
    def seq(ns, loopvars):
        for i, n in enumerate(ns):
            if n[0] == 'for':
                seq(n[3], loopvars | {n[1]})
            elif n[0] == 'if':
                for c, b in n[1]:
                    seq(b, loopvars)
                seq(n[2], loopvars)
            elif n[0] == 'expr' and any(v[0] in loopvars and serialized(src).get(v[-1]) == 'regex' for v in evars(n[1])):
                before = ns[i - 1][1] if i and ns[i - 1][0] == 'text' else ''
                m = re.search(r'(?<![A-Za-z0-9_])r(#*)"[^"]*$', before)
                if m:
                    r.bad('template-regex-literal', 'raw-hash-%d' % len(m.group(1)), 'a pattern that contains "%s ends the literal it is put into' % m.group(1))
                else:
                    r.ok('template-regex-literal', TEMPLATE, 'not a raw literal; escaping decided on the instances')
    seq(ast, frozenset())


def instances(r, src, keys, rule=None, where=None):
    ls, why = instance_lexers(src, keys)
    if ls is None and len(keys) > 1 and not why.startswith('unsupported'):
        for k in keys:
            instances(r, src, [k])
        return
    loc = where or 'instance ' + '-'.join(keys)
    if ls is None:
        if why.startswith('unsupported'):
            r.undec(rule or 'instance', loc, why)
        else:
            r.bad(rule or 'instance', loc, ('the generated scanner does not build: ' if why.startswith('build') else '') + why[:900])
        return
    for lx in ls:
        k = lx.typ.split('::')[0][len('verif_'):]
        if rule is None:
            guard(r, 'instance', 'instance ' + k, lambda: compare(lx, k))
        else:
            try:
                compare(lx, k)
                r.ok(rule, where, 'reproduced')
            except Stop as e:
                r.put(e.kind, rule, where, e.msg)


def compare(lx, k):
    name, toks = INSTANCES[k]
    if lx.new not in lx.src.d['fns']:
        bad('there is no %sLexer::new' % name)
    ns, ps, d = table(lx)
    want = ['_START', '_STOP'] + [t['token_name'] for t in toks]
    if ns != want:
        bad('the names are %s instead of %s' % (ns[:12], want[:12]))
    if ps != [t['regex'] for t in toks]:
        for i, t in enumerate(toks):
            if i >= len(ps) or ps[i] != t['regex']:
                bad('%s has the pattern %r instead of %r' % (t['token_name'], ps[i] if i < len(ps) else None, t['regex']))
        bad('%d patterns for %d tokens' % (len(ps), len(toks)))
    for n, v in [('_START', 0), ('_STOP', 1)] + [(t['token_name'], t['token_type']) for t in toks]:
        c = const_of(lx, n)
        if c is None:
            bad('no constant %s' % n)
        if int(c) != v:
            bad('the constant %s is %s instead of %d' % (n, c, v))
    return '%d constants, %d patterns, %d names' % (len(toks) + 2, len(ps), len(ns))
