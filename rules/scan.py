"""Shared by the rules about scanners (C13-C16): the scanner types, their tables, and instances of the template."""
import json
import os
import shutil
import subprocess
from lib import *
from fix import Stop, bad, undec, guard, definite
import tera

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HAND = 'tool::syntaxis::syntaxis_lexer::SyntaxisLexer'
GEN = 'tool::v1::syntaxis_lexer::SyntaxisLexer'
TEMPLATE = 'src/tool/templates/target/rust/lexer.tera'
SKIP = ('WHITE_SPACE', 'WS', 'LINE_COMMENT', 'BLOCK_COMMENT')


class Lexer:
    def __init__(self, src, typ, stop, label):
        self.src, self.typ, self.stop, self.label = src, typ, stop, label
        self.scan = '<%s as runtime::lexer::Lexer>::scan' % typ
        self.all = '<%s as runtime::lexer::Lexer>::scan_all_on_channel_tokens' % typ
        self.new = typ + '::new'


def bundled(src):
    return [Lexer(src, HAND, False, 'hand-written scanner'), Lexer(src, GEN, True, 'bundled generated scanner')]


# ------------------------------------------------------------------ template instances
def tok(name, ty, regex):
    return {'token_name': name, 'token_type': ty, 'regex': regex}


def numbered(pairs):
    return [tok(n, i + 2, r) for i, (n, r) in enumerate(pairs)]


INSTANCES = {
    'full': ('Demo', numbered([('NUMBER', '^([0-9]+)'), ('WHITE_SPACE', '^([ \\t\\n]+)'), ('NAME', '^([a-z]+|_)'), ('PLUS', '^(\\+)')])),
    'bare': ('Plain', numbered([('NUMBER', '^([0-9]+)'), ('T_3', '^(\\*)')])),
    'empty': ('Nothing', []),
    'one': ('One', numbered([('WHITE_SPACE', '^( )')])),
    'odd': ('Odd', numbered([('QUOTES', '^("|\'|`|\\")'), ('HASHES', '^(#"#|"##|"####|"########)'), ('SLASHES', '^(\\\\|/|\\/|\\{|\\}|\\\\\\")'),
                             ('WIDE', '^(\u03b5|\u4e2d\u6587)'), ('MARKUP', '^(<&>|\\{\\{|%\\})'), ('SPACES', '^( a\tb )'), ('_T_8', '^(x\n y)'), ('Mixed', '^(//|/\\*)'), ('TAIL', '^b ')])),
    'many': ('Many', numbered([('A%d' % i, '^(a{%d})' % (i + 1)) for i in range(70)])),
    'gaps': ('Gaps', [tok('SEVEN', 7, '^(a)'), tok('NINE', 9, '^(b)'), tok('WHITE_SPACE', 30, '^( )'), tok('THIRTYONE', 31, '^(c)')]),
    'cr': ('Cr', numbered([('CR', '^(a\rb)')])),
    'crlf': ('Crlf', numbered([('CRLF', '^(\r\n)')])),
}


def template_text(src):
    p = os.path.join(src.repo, TEMPLATE)
    return open(p, encoding='utf-8').read() if os.path.exists(p) else None


def render(src, key):
    name, toks = INSTANCES[key]
    ks = serialized(src)
    toks = [{k: t[f] for k, f in ks.items()} for t in toks]
    return tera.render(tera.parse(template_text(src)), {'tokens': toks, 'name': name})


DATA = 'tool::visitor::lexer_rule_visitor::LexerRuleData'


def serialized(src):
    """{key in the template: field} as the token table's entries are handed to the template"""
    same = {f: f for f in ('token_name', 'token_type', 'regex')}
    try:
        ks = entry_keys(src)
    except Stop:
        return same
    return ks if set(ks.values()) == set(same) else same


def entry_keys(src):
    fs = [f for f in src.d['fns'] if 'serde' in f and 'Serialize' in f and 'for %s>::serialize' % DATA in f]
    if len(fs) != 1:
        undec('%d serializers for a table entry' % len(fs))
    it, ps = src.paths(fs[0])
    if isinstance(ps, Exception):
        undec('the serializer is too complex')
    out = None
    for p in rets(ps):
        v = nv(it, p.st, p.val)
        if v[0] == 'adt' and v[2] == 'Err':
            continue
        ks = {}
        for e in toplevel(p.trace):
            if e[0] == 'call' and e[1].endswith('SerializeStruct::serialize_field'):
                k, x = nv(it, p.st, e[2][1]), nv(it, p.st, e[2][2])
                if k[0] != 'str':
                    undec('a key is %s' % fmt(k))
                if x[0] != 'fld' or x[1] != A(0):
                    (bad if understood(x) else undec)('an entry is handed to the template with %s = %s' % (k[1], fmt(x)))
                ks[k[1]] = x[2]
            elif e[0] == 'call' and 'serialize' in e[1] and not e[1].endswith('serialize_struct'):
                undec('calls %s' % e[1])
        if out is not None and ks != out:
            bad('an entry is handed to the template with the keys %s or %s' % (sorted(out), sorted(ks)))
        out = ks
    if out is None:
        undec('the serializer never succeeds')
    return out


def instance(src, keys):
    """(Sources of the library plus the instances as modules, '') or (None, why)"""
    k = ('inst',) + tuple(keys)
    if k in src.cache:
        return src.cache[k]
    src.cache[k] = res = build(src, keys)
    return res


def build(src, keys):
    if template_text(src) is None:
        return None, 'missing: ' + TEMPLATE
    texts = {}
    try:
        for k in keys:
            texts[k] = render(src, k)
    except tera.Unsupported as e:
        return None, 'unsupported: %s' % e
    except KeyError as e:
        return None, 'undefined: %s' % e
    out = os.path.join(src.dir, 'inst-' + '-'.join(keys))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    shutil.copytree(os.path.join(src.repo, 'src'), out + '/src')
    for f in ('Cargo.toml', 'Cargo.lock'):
        shutil.copy(os.path.join(src.repo, f), out)
    if os.path.exists(out + '/src/main.rs'):
        os.remove(out + '/src/main.rs')
    with open(out + '/Cargo.toml', 'a') as f:
        f.write('\n[workspace]\n')
    lib = open(out + '/src/lib.rs', encoding='utf-8').read()
    with open(out + '/src/lib.rs', 'w', encoding='utf-8') as f:
        f.write(lib + '\nextern crate self as syntaxis;\n' + ''.join('pub mod verif_%s;\n' % k for k in keys))
    for k in keys:
        with open(out + '/src/verif_%s.rs' % k, 'w', encoding='utf-8') as f:
            f.write(texts[k])
    cache = os.environ.get('VERIF_CACHE', os.path.join(V, '.cache'))
    env = dict(os.environ, VERIF_REPO=out, VERIF_CACHE=cache)
    p = subprocess.run(['flock', os.path.join(cache, 'lock'), 'bash', os.path.join(V, 'engine', 'dump.sh'), out + '/dump'],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        err = [l for l in p.stdout.splitlines() if l.strip()]
        return None, 'build: ' + ' | '.join(err[:12])
    s = Sources(json.load(open(out + '/dump/syntaxis-Rlib.json')))
    s.dir, s.repo, s.tier = out + '/dump', src.repo, src.tier
    src.subs = getattr(src, 'subs', []) + [s]
    return s, ''


def instance_lexers(src, keys):
    s, why = instance(src, keys)
    if s is None:
        return None, why
    return [Lexer(s, 'verif_%s::%sLexer' % (k, INSTANCES[k][0]), True, 'template instance "%s"' % k) for k in keys], ''


def lexers(r, src):
    out = bundled(src)
    ls, why = instance_lexers(src, ['full', 'bare'])
    if ls is None:
        r.undec('template', TEMPLATE, why[:500])
        return out
    return out + ls


# ------------------------------------------------------------------ tables
def table(lx):
    """(names, patterns, fields) as built by new(), from its summary; raises Stop"""
    it, ps = lx.src.paths(lx.new)
    if isinstance(ps, Exception):
        undec('the constructor is too complex')
    rs = rets(ps)
    if len(rs) != 1:
        undec('%d ways through the constructor' % len(rs))
    p = rs[0]
    v = nv(it, p.st, p.val)
    if v[0] != 'adt':
        undec('the constructor returns %s' % fmt(v))
    d = dict(v[3])
    names = strings(it, p, d.get('token_names'))
    pats = strings(it, p, d.get('regex_list'))
    return names, pats, d


def strings(it, p, t):
    """the string literals a list is made of"""
    if t is None:
        undec('a table is missing')
    c = content(it, p.st, p.trace, t)
    items = []
    if c is None or any(x[0] not in ('item', 'all', 'for') for x in c.items):
        undec('the table %s is not understood' % fmt(t)[:200])
    for x in c.items:
        if x[0] == 'item':
            items.append(literal(nv(it, p.st, x[1])))
        else:
            items += mapped(it, p, x)
    return items


def unwrap(x):
    while x[0] == 'fld' and x[1][0] == 'as' and x[1][2] in ('Ok', 'Some'):
        x = x[1][1]
    return x


def literal(x):
    x = unwrap(x)
    if x[0] == 'call' and x[1].endswith('Regex::new') and len(x[2]) == 1:
        x = x[2][0]
    if x[0] == 'str':
        return x[1]
    undec('a table entry is %s' % fmt(x)[:200])


def mapped(it, p, x):
    """a table filled from another list, entry by entry"""
    if x[0] == 'all':
        return strings(it, p, x[1])
    L, dom, cs = x[1], x[2], x[3]
    cs = [(c, q) for c, q in cs if c.kind == 'cont']
    if len(cs) != 1:
        undec('a table is filled by a loop')
    c, q = cs[0]
    if len(q.items) != 1 or q.items[0][0] != 'item':
        undec('a table is filled by a loop')
    y = unwrap(nv(it, c.st, q.items[0][1]))
    if y[0] == 'call' and y[1].endswith('Regex::new') and len(y[2]) == 1:
        y = y[2][0]
    if dom.kind == 'fwd' and y == dom.elem:
        return strings(it, p, dom.seq)
    ix = ixof(L)
    if y[0] == 'elem' and y[1][0] == 'arr' and y[2] == ix and (le(ix, Int(len(y[1][1]) - 1)), True) in conds(c.trace, it, c.st):
        return [literal(nv(it, p.st, z)) for z in y[1][1]]
    undec('a table is filled by a loop with %s' % fmt(y)[:200])


def const_of(lx, name):
    c = lx.src.d['consts'].get(lx.typ + '::' + name)
    return c['c'].get('v') if c else None
