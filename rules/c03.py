"""C03: typed accessors select children of exactly the kind they name.

For every accessor of every typed node trait, in both families: the method name and the
trait's own signature say which token or rule constant is meant; the summary of the
implementation must be the child query (as in C04) for exactly that constant: first match
or nothing, or all matches in order.  Each typed entry point of the generated parser
consults the table for the rule it is named after at the first token, builds a node with
that rule's index, and its result type is the typed node of the same kind and the same
family as the parser.
"""
from lib import *
import c04
from c01 import KINDS, FAM, RCT


def cap(k):
    return ''.join(w.capitalize() for w in k.split('_'))


def const(src, path):
    c = src.d['consts'].get(path)
    return c['c']['v'] if c and c['c']['k'] == 'int' else None


def accessors(r, src, pre):
    n = 0
    for k in KINDS:
        T = pre + 'syntaxis_context::%sContext' % cap(k)
        ms = src.d['traits'].get(T)
        if ms is None:
            r.bad('anchor', T, 'the typed node no longer exists')
            continue
        for m in ms:
            if m['name'] in ('accept', 'enter', 'exit'):
                continue
            sig = m['sig'].split('->')[-1]
            lst = m['name'].endswith('_list')
            base = m['name'][:-5] if lst and m['name'] != 'rule_list' else m['name']
            if 'TerminalContext' in sig:
                V, c = 'Terminal', const(src, pre + 'syntaxis_lexer::SyntaxisLexer::' + base.upper())
            else:
                V, c = 'Rule', const(src, pre + 'syntaxis_parser::SyntaxisParser::' + base.upper())
                want = pre + 'syntaxis_context::%sContext' % cap(base)
                if base in KINDS and want not in sig:
                    r.bad('accessor-type', T + '::' + m['name'], 'hands out %s, not a %s' % (sig.strip(), want))
            if c is None:
                r.undec('accessor', T + '::' + m['name'], 'no constant is named after it')
                continue
            n += 1
            name = '<%s as %s>::%s' % (RCT, T, m['name'])
            if 'Vec<' in sig:
                c04.list_form(r, src, name, c04.kinds(V, Int(c)))
            else:
                c04.indexed_form(r, src, name, c04.kinds(V, Int(c)), Int(0))
    return n


def entries(r, src):
    pre = FAM['v1']
    P = pre + 'syntaxis_parser::SyntaxisParser::'
    for k in KINDS + ['parse']:
        name = P + k
        kind = 'rule_list' if k == 'parse' else k
        c = const(src, P + kind.upper())
        it, ps = get_paths(r, src, name)
        if ps is None or c is None:
            continue
        ty = src.d['fns'][name]['body']['locals'][0]['ty']
        if k != 'parse':
            want = pre + 'syntaxis_context::%sContext' % cap(k)
            (r.ok if want in ty else r.bad)('entry-type', name, 'hands out %s' % ty)
        TB, TK = F(A(0), 'table'), F(A(0), 'tokens')
        for p in rets(ps):
            v = it.deep(p.st, p.val)
            if v[0] == 'adt':
                v = nv(it, p.st, v)
                ri = dict(v[3]).get('rule_index')
            else:
                v = nv(it, p.st, v)
                if callt(v) or (v[0] == 'fld' and callt(v[1])):
                    cc = callt(v) or callt(v[1])
                    if Int(c) in cc[1]:
                        r.ok('entry-rule', name, 'parses from %d' % c)
                    elif any(x[0] == 'int' for x in cc[1]) and all(understood(x) for x in cc[1]):
                        r.bad('entry-rule', name, 'parses from %s, not from rule %d' % (fmt(cc[1]), c))
                    else:
                        r.undec('entry-rule', name, fmt(v))
                    continue
                ri = None
            if ri is None:
                r.undec('entry-rule', name, 'returns %s' % fmt(v))
                continue
            bad = None
            if ri != Int(c):
                bad = 'the node it hands out has rule index %s, not %d' % (show(ri), c)
            for a, val in conds(toplevel(p.trace), it, p.st):
                if a[0] == 'contains' and a[1] == TB and a[2][0] == 'tup':
                    row, col = a[2][1]
                    if row != Int(c):
                        bad = 'consults the table for rule %s, not %d' % (show(row), c)
                    elif col != F(('elem', TK, Int(0)), 'token_type'):
                        bad = 'consults the table at %s, not at the first token' % show(col)
            if bad:
                (r.bad if understood(ri) else r.undec)('entry-rule', name, bad)
            else:
                r.ok('entry-rule', name, 'parses rule %d from the first token' % c)


def run(r, src):
    for fam, pre in FAM.items():
        accessors(r, src, pre)
    entries(r, src)


FLOOR = 60
