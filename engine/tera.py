"""A small subset of the Tera template language: parser (AST) and renderer.

Used to inspect the scanner template and to instantiate it with token tables.
Anything outside the subset raises Unsupported (the rules then give no verdict).
"""
import re


class Unsupported(Exception):
    malformed = False       # True: the template is no template at all
    pass


TAG = re.compile(r'(\{\{-?.*?-?\}\}|\{%-?.*?-?%\}|\{#-?.*?-?#\})', re.S)


def lex(src):
    out = []
    pos = 0
    for m in TAG.finditer(src):
        if m.start() > pos:
            out.append(['text', src[pos:m.start()]])
        t = m.group(0)
        kind = {'{{': 'expr', '{%': 'stmt', '{#': 'comment'}[t[:2]]
        ls, rs = t[2] == '-', t[-3] == '-'
        body = t[3 if ls else 2:-3 if rs else -2].strip()
        if ls and out and out[-1][0] == 'text':
            out[-1][1] = out[-1][1].rstrip()
        out.append([kind, body, rs])
        pos = m.end()
    if pos < len(src):
        out.append(['text', src[pos:]])
    for i in range(len(out) - 1):
        if out[i][0] != 'text' and out[i][2] and out[i + 1][0] == 'text':
            out[i + 1][1] = out[i + 1][1].lstrip()
    return out


def parse(src):
    """-> list of nodes: ('text', s) ('expr', e) ('for', var, e, body, other) ('if', [(cond, body)], other) ('set', name, e)"""
    toks = lex(src)
    i = [0]

    def block(ends):
        out = []
        while i[0] < len(toks):
            t = toks[i[0]]
            if t[0] == 'text':
                out.append(('text', t[1]))
                i[0] += 1
            elif t[0] == 'comment':
                i[0] += 1
            elif t[0] == 'expr':
                out.append(('expr', expr(t[1])))
                i[0] += 1
            else:
                w = t[1].split(None, 1)
                k = w[0] if w else ''
                if k in ends:
                    return out
                i[0] += 1
                if k == 'for':
                    m = re.match(r'for\s+(\w+)\s+in\s+(.*)$', t[1], re.S)
                    if not m:
                        raise Unsupported('for: ' + t[1])
                    body = block(('else', 'endfor'))
                    other = []
                    if toks[i[0]][1] == 'else':
                        i[0] += 1
                        other = block(('endfor',))
                    i[0] += 1
                    out.append(('for', m.group(1), expr(m.group(2)), body, other))
                elif k == 'if':
                    arms = [(expr(w[1]), block(('elif', 'else', 'endif')))]
                    other = []
                    while True:
                        e = toks[i[0]][1].split(None, 1)
                        i[0] += 1
                        if e[0] == 'elif':
                            arms.append((expr(e[1]), block(('elif', 'else', 'endif'))))
                        elif e[0] == 'else':
                            other = block(('endif',))
                        else:
                            break
                    out.append(('if', arms, other))
                elif k in ('set', 'set_global'):
                    m = re.match(r'set(?:_global)?\s+(\w+)\s*=\s*(.*)$', t[1], re.S)
                    if not m:
                        raise Unsupported(t[1])
                    out.append(('set', m.group(1), expr(m.group(2)), k == 'set_global'))
                else:
                    e = Unsupported('tag ' + t[1])
                    e.malformed = k in ('endfor', 'endif', 'elif', 'else', 'endblock', 'endmacro', 'endfilter')
                    raise e
        if ends:
            e = Unsupported('missing ' + '/'.join(ends))
            e.malformed = True
            raise e
        return out
    return block(())


# ------------------------------------------------------------------ expressions
TOK = re.compile(r'\s*(?:(?P<num>\d+(?:\.\d+)?)|(?P<str>"[^"]*"|\'[^\']*\'|`[^`]*`)|(?P<id>[A-Za-z_]\w*(?:\.\w+|::\w+)*)|(?P<op>==|!=|<=|>=|[-+*/%~|()\[\],=<>]))')


def expr(s):
    toks = []
    pos = 0
    s = s.strip()
    while pos < len(s):
        m = TOK.match(s, pos)
        if not m:
            raise Unsupported('expression: ' + s)
        k = m.lastgroup
        toks.append((k, m.group(k)))
        pos = m.end()
    p = [0]

    def peek(v=None):
        if p[0] >= len(toks):
            return None
        t = toks[p[0]]
        return t if v is None or t[1] == v else None

    def take():
        p[0] += 1
        return toks[p[0] - 1]

    def p_or():
        a = p_and()
        while peek('or'):
            take()
            a = ('or', a, p_and())
        return a

    def p_and():
        a = p_not()
        while peek('and'):
            take()
            a = ('and', a, p_not())
        return a

    def p_not():
        if peek('not'):
            take()
            return ('not', p_not())
        return p_cmp()

    def p_cmp():
        a = p_add()
        while peek() and peek()[1] in ('==', '!=', '<', '>', '<=', '>=', 'in', 'is'):
            o = take()[1]
            if o == 'is':
                neg = False
                if peek('not'):
                    take()
                    neg = True
                t = take()[1]
                args = []
                if peek('('):
                    take()
                    while not peek(')'):
                        args.append(p_or())
                        if peek(','):
                            take()
                    take()
                a = ('is', a, t, tuple(args))
                a = ('not', a) if neg else a
            else:
                a = ('cmp', o, a, p_add())
        return a

    def p_add():
        a = p_mul()
        while peek() and peek()[1] in ('+', '-', '~'):
            o = take()[1]
            a = ('bin', o, a, p_mul())
        return a

    def p_mul():
        a = p_filter()
        while peek() and peek()[1] in ('*', '/', '%'):
            o = take()[1]
            a = ('bin', o, a, p_filter())
        return a

    def p_filter():
        a = p_atom()
        while peek('|'):
            take()
            n = take()[1]
            args = {}
            if peek('('):
                take()
                while not peek(')'):
                    k = take()[1]
                    if not peek('='):
                        raise Unsupported('filter argument')
                    take()
                    args[k] = p_or()
                    if peek(','):
                        take()
                take()
            a = ('filter', n, a, tuple(sorted(args.items())))
        return a

    def p_atom():
        t = take() if peek() else None
        if t is None:
            raise Unsupported('expression: ' + s)
        if t[0] == 'num':
            return ('lit', float(t[1]) if '.' in t[1] else int(t[1]))
        if t[0] == 'str':
            return ('lit', t[1][1:-1])
        if t[1] in ('true', 'false'):
            return ('lit', t[1] == 'true')
        if t[0] == 'id':
            if peek('(') or peek('['):
                raise Unsupported('call or index: ' + s)
            return ('var', tuple(t[1].split('.')))
        if t[1] == '(':
            a = p_or()
            take()
            return a
        raise Unsupported('expression: ' + s)
    e = p_or()
    if p[0] != len(toks):
        raise Unsupported('expression: ' + s)
    return e


# ------------------------------------------------------------------ rendering
def truth(v):
    return not (v is None or v is False or v == 0 or v == '' or v == [] or v == {})


def ev(e, env):
    k = e[0]
    if k == 'lit':
        return e[1]
    if k == 'var':
        if e[1][0] not in env:
            raise KeyError('.'.join(e[1]))
        v = env[e[1][0]]
        for f in e[1][1:]:
            if isinstance(v, list) and f.isdigit():
                v = v[int(f)]
            elif isinstance(v, dict) and f in v:
                v = v[f]
            else:
                raise KeyError('.'.join(e[1]))
        return v
    if k == 'or':
        return truth(tev(e[1], env)) or truth(tev(e[2], env))
    if k == 'and':
        return truth(tev(e[1], env)) and truth(tev(e[2], env))
    if k == 'not':
        return not truth(tev(e[1], env))
    if k == 'cmp':
        a, b = ev(e[2], env), ev(e[3], env)
        if e[1] == 'in':
            return a in b
        return {'==': a == b, '!=': a != b}[e[1]] if e[1] in ('==', '!=') else {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[e[1]]
    if k == 'is':
        if e[2] == 'defined':
            try:
                ev(e[1], env)
                return True
            except KeyError:
                return False
        v = ev(e[1], env)
        a = [ev(x, env) for x in e[3]]
        if e[2] == 'starting_with':
            return v.startswith(a[0])
        if e[2] == 'ending_with':
            return v.endswith(a[0])
        if e[2] == 'containing':
            return a[0] in v
        if e[2] == 'odd':
            return v % 2 == 1
        if e[2] == 'even':
            return v % 2 == 0
        raise Unsupported('test ' + e[2])
    if k == 'bin':
        a, b = ev(e[2], env), ev(e[3], env)
        if e[1] == '~':
            return fmt(a) + fmt(b)
        if not isinstance(a, int) or not isinstance(b, int):
            raise Unsupported('arithmetic')
        return {'+': a + b, '-': a - b, '*': a * b}.get(e[1]) if e[1] in '+-*' else (_ for _ in ()).throw(Unsupported('division'))
    if k == 'filter':
        n = e[1]
        a = dict((x, ev(y, env)) for x, y in e[3])
        if n == 'default':
            try:
                return ev(e[2], env)
            except KeyError:
                return a['value']
        v = ev(e[2], env)
        if n == 'safe':
            return v
        if n == 'upper':
            return v.upper()
        if n == 'lower':
            return v.lower()
        if n == 'trim':
            return v.strip()
        if n == 'length':
            return len(v)
        if n == 'replace':
            return v.replace(a['from'], a['to'])
        if n == 'first':
            return v[0]
        if n == 'last':
            return v[-1]
        if n == 'reverse':
            return v[::-1]
        if n == 'slice':
            return v[a.get('start', 0):a.get('end', len(v))]
        if n == 'sort':
            return sorted(v, key=(lambda x: x[a['attribute']]) if 'attribute' in a else None)
        if n == 'unique':
            seen, out = set(), []
            for x in v:
                q = x[a['attribute']] if 'attribute' in a else x
                if q not in seen:
                    seen.add(q)
                    out.append(x)
            return out
        if n == 'filter':
            return [x for x in v if x.get(a['attribute']) == a.get('value', x.get(a['attribute']))]
        raise Unsupported('filter ' + n)
    raise Unsupported(k)


def tev(e, env):
    try:
        return ev(e, env)
    except KeyError:
        return None


def fmt(v):
    if v is True:
        return 'true'
    if v is False:
        return 'false'
    return str(v)


def render(nodes, env):
    out = []
    for n in nodes:
        if n[0] == 'text':
            out.append(n[1])
        elif n[0] == 'expr':
            out.append(fmt(ev(n[1], env)))
        elif n[0] == 'set':
            env[n[1]] = ev(n[2], env)
        elif n[0] == 'if':
            for c, b in n[1]:
                if truth(tev(c, env)):
                    out.append(render(b, env))
                    break
            else:
                out.append(render(n[2], env))
        elif n[0] == 'for':
            xs = ev(n[2], env)
            if not xs:
                out.append(render(n[4], env))
            for i, x in enumerate(xs):
                e2 = dict(env)
                e2[n[1]] = x
                e2['loop'] = {'index': i + 1, 'index0': i, 'first': i == 0, 'last': i == len(xs) - 1}
                out.append(render(n[3], e2))
    return ''.join(out)
