"""C15: token constants, names and patterns line up in every scanner.

The name and pattern tables are read off the summary of each scanner's constructor and joined
with the compiler's values of the associated constants: one name per pattern behind the two
reserved ones, names distinct, every name a constant whose value is the name's index.  Every
pattern is parsed (regex-syntax): valid, and beginning with a start-of-text assertion in all
alternatives.  The tables of the generated family are compared with the lexer and parser rules
of the bundled grammar tree, patterns as leftmost-first automata (regex-automata, product
construction; the witness is a text on which they differ), and every node of the bundled trees
is looked up under the hand-written family's constants.
"""
from scan import *
import rx

FLOOR = 1
TECHNIQUE = 'constant tables read off the MIR summary and joined with compiler constants; patterns compared as parsed regular expressions and automata'
HANDP, GENP = 'tool::syntaxis::syntaxis_parser::SyntaxisParser', 'tool::v1::syntaxis_parser::SyntaxisParser'
TREE = 'src/tool/syntaxis/syntaxis2.json'
TREES = [TREE, 'src/tool/syntaxis/syntaxis.json']
RULES = ['rule_list', 'parser_rule', 'block', 'alternative', 'epsilon', 'element', 'ebnf_suffix', 'lexer_rule', 'regular']


def run(r, src):
    tabs = {}
    for lx in bundled(src):
        if lx.new not in src.d['fns']:
            r.bad('anchor', lx.new, 'the scanner has no constructor')
            continue
        guard(r, 'names', lx.label, lambda: names(lx, tabs))
        if lx.label in tabs:
            guard(r, 'patterns', lx.label, lambda: patterns(tabs[lx.label][1]))
    trees = {}
    for t in TREES:
        try:
            trees[t] = json.load(open(os.path.join(src.repo, t), encoding='utf-8'))
        except Exception as e:
            r.bad('tree', t, 'not readable: %s' % e)
    for typ in (HANDP, GENP):
        guard(r, 'rule-constants', typ, lambda: rules(src, typ, trees.get(TREE)))
    for t, tree in trees.items():
        guard(r, 'tree-numbering', t, lambda: numbering(src, tree))
    if TREE in trees and 'bundled generated scanner' in tabs:
        guard(r, 'generated-from-tree', GEN, lambda: generated(tabs['bundled generated scanner'], trees[TREE]))
    if len(tabs) == 2:
        guard(r, 'shared-tokens', 'both scanners', lambda: shared(*tabs.values()))


def names(lx, tabs):
    ns, ps, d = table(lx)
    tabs[lx.label] = ns, ps
    if ns[:2] != ['_START', '_STOP']:
        bad('the names of the reserved types are %s' % ns[:2])
    if len(ns) != len(ps) + 2:
        bad('%d names for %d patterns' % (len(ns), len(ps)))
    for i, n in enumerate(ns):
        if n in ns[:i]:
            bad('the name %s stands for %d and %d' % (n, ns.index(n), i))
        c = const_of(lx, n)
        if c is None:
            bad('there is no constant %s' % n if lx.typ + '::' + n not in lx.src.d['consts'] else 'the constant %s has no known value' % n)
        if int(c) != i:
            bad('%s is %s, but the name stands at index %d' % (n, c, i))
    return '%d names, %d patterns' % (len(ns), len(ps))


def patterns(ps):
    for p, a in zip(ps, rx.ask([['info', p] for p in ps])):
        if not a['ok']:
            bad('the pattern %r is not valid: %s' % (p, a['err'].replace('\n', ' ')))
        if not a['tied']:
            bad('the pattern %r can match behind the scan position' % p)
        if a['never']:
            bad('the pattern %r never matches' % p)
    return '%d patterns valid and tied to the start' % len(ps)


def kids(n):
    return n.get('children', []) if isinstance(n, dict) else []


def child(n, key, name):
    for c in kids(n):
        if c.get(key) == name:
            return c
    return None


def nodes(n):
    yield n
    for c in kids(n):
        yield from nodes(c)


def rules(src, typ, tree):
    n = 0
    want = RULES
    if tree is not None:
        want = [child(c, 'token_name', 'RULE_REF')['text'] for c in kids(tree) if c.get('rule_name') == 'parser_rule']
    for i, x in enumerate(want):
        c = src.d['consts'].get('%s::%s' % (typ, x.upper()))
        if c is None:
            bad('there is no constant %s' % x.upper())
        if c['c'].get('v') is None:
            undec('%s has no known value' % x.upper())
        if int(c['c']['v']) != i:
            bad('%s is %s, but the grammar numbers the rule %d' % (x.upper(), c['c']['v'], i))
        n += 1
    return '%d rule constants' % n


def numbering(src, tree):
    n = 0
    for x in nodes(tree):
        if 'rule_index' in x:
            k, v, typ = x.get('rule_name', '').upper(), x['rule_index'], HANDP
        else:
            k, v, typ = x.get('token_name', ''), x.get('token_type'), HAND
        c = src.d['consts'].get('%s::%s' % (typ, k))
        if c is None:
            bad('a node is of kind %s, which %s does not know' % (k, typ))
        if c['c'].get('v') is None:
            undec('%s has no known value' % k)
        if int(c['c']['v']) != v:
            bad('a node %s (%s) is numbered %s, but %s::%s is %s' % (k, x.get('text', ''), v, typ, k, c['c']['v']))
        n += 1
    return '%d nodes' % n


def generated(tab, tree):
    ns, ps = tab
    want = []
    for c in kids(tree):
        if c.get('rule_name') == 'lexer_rule':
            lit = child(child(c, 'rule_name', 'regular'), 'token_name', 'REGULAR_LITERAL')['text']
            want.append((child(c, 'token_name', 'TOKEN_REF')['text'], '^(' + lit[1:-1].replace('\\/', '/') + ')'))
    if ns[2:] != [n for n, p in want]:
        bad('the grammar tree defines %s, the scanner has %s' % ([n for n, p in want], ns[2:]))
    same([(n, p, 'the grammar tree', q, 'the scanner') for (n, p), q in zip(want, ps)])
    return '%d tokens and patterns' % len(want)


def shared(a, b):
    both = [n for n in a[0][2:] if n in b[0]]
    same([(n, a[1][a[0].index(n) - 2], 'the hand-written scanner', b[1][b[0].index(n) - 2], 'the generated one') for n in both])
    return '%d tokens match the same texts: %s' % (len(both), ' '.join(both))


def same(rows):
    for (n, p, pw, q, qw), a in zip(rows, rx.ask([['same', x[1], x[3]] for x in rows])):
        if 'err' in a:
            undec('%s: %s' % (n, a['err']))
        if not a['same']:
            bad('%s is %r in %s but %r in %s: they differ on %r' % (n, p, pw, q, qw, a['witness']))
