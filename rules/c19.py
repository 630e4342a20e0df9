"""C19: only drawing touches the outside world; nothing is hidden state.

A call graph of the whole library is built from its MIR: resolved calls, functions passed as
values, closures, and for a call through a trait every implementation in the library.  Every
callee outside the library is classified by its path: touching the file system, environment,
network, processes, threads, clock, standard input or error, process-global hooks, or random
seeds.  Such a call may only be reachable from the drawing module, and there only to read
templates and to create the file that was asked for.  Besides, the compiler's list of statics,
foreign items and user-written unsafe code is checked: no static may be mutable, thread-local
or hold a cell, other than once-initialised values that depend on nothing; no unsafe.
"""
import re
from lib import *
import scan
from fix import Stop, bad, undec, guard, definite

TECHNIQUE = 'call-graph effect analysis over the MIR (every public operation to every outside callee), plus typed lints for statics, cells and unsafe code'

EFFECTS = [
    ('the file system', r'^std::fs::|^std::path::Path::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|canonicalize|read_dir|read_link)\b|^std::os::(unix|linux|windows)::fs|^tera::Tera::(new|parse|full_reload|add_template_files?|extend_from_dir)\b|^tera::Tera::(load_from_glob)|^glob(wild|walk)?::|^walkdir::|^ignore::|^memmap|^tempfile::'),
    ('the environment', r'^std::env::(?!args_os::|consts)'),
    ('the network', r'^std::net::(TcpStream|TcpListener|UdpSocket|ToSocketAddrs|Incoming)|::to_socket_addrs$|^std::os::(unix|linux)::net'),
    ('processes', r'^std::process::(?!Termination|ExitCode)|^std::os::(unix|linux)::process|^core::intrinsics::abort|^std::intrinsics::abort'),
    ('threads', r'^std::thread::(?!LocalKey|local_impl|AccessError)|^rayon::'),
    ('the clock', r'^std::time::(Instant|SystemTime)::(now|elapsed)\b|^chrono::|^time::'),
    ('standard error', r'^std::io::(_eprint|stderr|stdio::_eprint|stdio::stderr)\b|^std::io::Stderr'),
    ('standard input', r'^std::io::(stdin|read_to_string::stdin)\b|^std::io::Stdin'),
    ('process-wide state', r'^std::panic::(set_hook|take_hook|update_hook|resume_unwind)|^std::alloc::(set_alloc_error_hook|System)|^log::set_'),
    ('randomness', r'^std::(collections::hash_map|hash)::(random::)?RandomState::(new|default)|^<std::(collections::hash_map|hash)::(random::)?RandomState as .*>::(hash_one|build_hasher|default)|^rand(_core)?::|^getrandom::|^fastrand::|^uuid::'),
    ('foreign code', r'^libc::|^nix::|^winapi::'),
]
ALLOWED_DRAW = re.compile(r'^std::fs::(File::(create|open|options|set_len|sync_all|sync_data|try_clone|metadata)|OpenOptions::|write$|read$|read_to_string$|read_dir|DirEntry|<|metadata)|^tera::Tera::')
MAKES = re.compile(r'^std::fs::(File::(create|create_new|create_buffered)|write)$')
CELLS = re.compile(r'\b(Cell|RefCell|UnsafeCell|SyncUnsafeCell|OnceCell|Mutex|RwLock|Atomic\w*|mpsc::\w+)\b')
ONCE = re.compile(r'^(std::sync::|std::cell::|once_cell::sync::|once_cell::unsync::|lazy_static::lazy::|std::sync::lazy_lock::)?(LazyLock|LazyCell|Lazy)<')
ONCELOCK = re.compile(r'(^|::)(OnceLock|OnceCell)<')


def ops_of(body):
    """(block, statement, operand-or-rvalue) leaves of a body"""
    for bi, b in enumerate(body['blocks']):
        for s in b['st']:
            yield bi, s, s
        if b.get('te'):
            yield bi, None, b['te']


def consts_in(x):
    if isinstance(x, dict):
        if x.get('k') in ('fn', 'static') and 'v' in x:
            yield x
            return
        if x.get('r') == 'agg' and x.get('kind') == 'closure':
            yield {'k': 'closure', 'v': x['def']}
        for v in x.values():
            yield from consts_in(v)
    elif isinstance(x, list):
        for v in x:
            yield from consts_in(v)


class Graph:
    def __init__(self, d):
        self.d = d
        self.fns = d['fns']
        self.impls = {}
        for n, f in self.fns.items():
            if f.get('trait'):
                self.impls.setdefault((f['trait'], n.rsplit('::', 1)[1]), []).append(n)
            elif f.get('default'):
                self.impls.setdefault((f['parent'], n.rsplit('::', 1)[1]), []).append(n)
        self.out, self.ext, self.casts = {}, {}, []
        for n, f in self.fns.items():
            self.scan(n, f)

    def scan(self, n, f):
        out, ext = [], []
        for body in [f['body']] + list(f.get('promoted') or []):
            if not body:
                continue
            for bi, st, x in ops_of(body):
                sp = (x or {}).get('sp') or f['sp']
                if st is not None and st.get('s') == 'assign':
                    rv = st['rv']
                    if rv.get('r') == 'cast' and 'PointerExpose' in str(rv.get('kind')):
                        self.casts.append((n, sp, rv.get('from')))
                for c in consts_in(x):
                    if c['k'] == 'closure':
                        out.append((c['v'], sp))
                    elif c['k'] == 'fn':
                        v = c['v']
                        r = v.get('res')
                        if r and v.get('reslocal') and r in self.fns:
                            out.append((r, sp))
                            continue
                        if v['def'] in self.fns:
                            out.append((v['def'], sp))
                        if v.get('trait') and not r:
                            for m in self.impls.get((v['trait'], v['name']), []):
                                out.append((m, sp))
                        ext.append((v['def'], r, v.get('targs') or [], sp, bi))
        self.out[n], self.ext[n] = out, ext

    def reach(self, root):
        """function -> how it was reached"""
        seen = {root: None}
        todo = [root]
        while todo:
            n = todo.pop(0)
            for m, sp in self.out.get(n, []):
                if m not in seen:
                    seen[m] = (n, sp)
                    todo.append(m)
        return seen


def effect(d, r, targs=()):
    if d.startswith('std::hash::BuildHasher::') and targs and 'RandomState' in targs[0]:
        return 'randomness', '<%s as %s' % (targs[0], d)
    for name in (r, d):
        if not name:
            continue
        for what, rx in EFFECTS:
            if re.search(rx, name):
                return what, name
    return None


def way(seen, n):
    w = [n]
    while seen[n]:
        n = seen[n][0]
        w.append(n)
    return ' -> '.join(reversed(w))


def drawing(n, f):
    return n.startswith('tool::gui') or (f.get('selfty') or '').startswith('tool::gui') or n.startswith('<tool::gui')


def run(r, src):
    whole(r, src)
    if any(o[2] == 'bad' for o in r.obs):
        return
    s2, why = scan.instance(src, ('full', 'bare'))
    if s2 is None:
        r.undec('generated', scan.TEMPLATE, why)
        return
    r2 = Report(r.prop)
    whole(r2, s2, files=False)
    r.nfun |= r2.nfun
    for rule, loc, stt, det in r2.obs:
        if 'verif_' in loc or stt == 'bad':
            r.put(stt, rule, 'generated scanner: ' + loc, det)


def whole(r, src, files=True):
    d = src.d
    g = Graph(d)
    for n in d['fns']:
        r.nfun.add(n)
    if 'statics' not in d:
        r.undec('dump', 'statics', 'the dump lists no statics')
        return
    effects(r, src, g)
    statics(r, d, g)
    unsafe(r, d)
    pointers(r, g)
    if files:
        one_file(r, src, g)


def effects(r, src, g):
    d = g.d
    sites = {n: [(e, c) for c in cs for e in [effect(c[0], c[1], c[2])] if e] for n, cs in g.ext.items()}
    roots = [n for n, f in d['fns'].items()
             if f['kind'] in ('Fn', 'AssocFn') and (f['vis'] == 'pub' or f.get('trait') or f.get('default'))]
    if not roots:
        r.bad('coverage', 'library', 'no public operation found')
        return
    found = {}
    for root in roots:
        seen = g.reach(root)
        dr = drawing(root, d['fns'][root])
        clean = True
        for n in seen:
            for (what, name), c in sites.get(n, []):
                if dr and (ALLOWED_DRAW.search(name) or re.match(r'^<std::fs::(File|OpenOptions|Metadata|DirEntry|ReadDir) as ', name)):
                    continue
                clean = False
                found.setdefault((n, what), []).append('%s at %s (%s)' % (name, c[3], way(seen, n)))
        if clean:
            r.ok('effects', root, '%d functions reached, no outside effect%s' % (len(seen), ' beyond reading templates and writing a file' if dr else ''))
    for (n, what), l in found.items():
        r.bad('effects', n, 'touches %s: calls %s' % (what, '; '.join(l[:3])))


def inner(ty):
    m = re.search(r'<(.*)>$', ty)
    return m.group(1) if m else ''


def has_cell(d, ty, seen=()):
    m = CELLS.search(ty)
    if m:
        return m.group(1)
    for a, x in d['adts'].items():
        if a in seen or a not in ty:
            continue
        for v in x['variants']:
            for f in v['fields']:
                h = has_cell(d, f['ty'], tuple(seen) + (a,))
                if h:
                    return h
    return None


def statics(r, d, g):
    r.ok('statics', 'library', '%d statics' % len(d['statics']))
    for n, s in d['statics'].items():
        ty = s['ty']
        if s['mut']:
            r.bad('statics', n, 'static mut at %s' % s['sp'])
        elif ONCE.match(ty):
            h = has_cell(d, inner(ty))
            if h:
                r.bad('statics', n, 'global %s at %s can be changed' % (ty, s['sp']))
            else:
                r.ok('statics', n, 'initialised once, by a function of nothing')
        elif ONCELOCK.search(ty):
            once(r, d, g, n, s)
        elif 'std::thread::local_impl' in ty or s['tls']:
            h = has_cell(d, re.sub(r'^std::thread::local_impl::\w+', '', ty))
            if h:
                r.bad('statics', n, 'thread-local %s at %s can be changed' % (ty, s['sp']))
            else:
                r.ok('statics', n, 'thread-local constant')
        elif s['freeze']:
            r.ok('statics', n, 'immutable %s' % ty)
        else:
            r.bad('statics', n, 'global %s at %s can be changed' % (ty, s['sp']))
    # thread-locals are reached through LocalKey
    for n, cs in g.ext.items():
        for c in cs:
            m = re.match(r'^std::thread::LocalKey::<', c[0])
            if m and c[0].rsplit('::', 1)[1] in ('with', 'try_with', 'set', 'take', 'replace', 'with_borrow', 'with_borrow_mut', 'get'):
                t = c[2][0] if c[2] else ''
                h = has_cell(d, t)
                if h:
                    r.bad('statics', n, 'uses the thread-local state %s at %s' % (t, c[3]))


def once(r, d, g, n, s):
    """a OnceLock static: its value must not depend on who comes first"""
    if has_cell(d, inner(s['ty'])):
        r.bad('statics', n, 'global %s at %s can be changed' % (s['ty'], s['sp']))
        return
    users = []
    for f, x in d['fns'].items():
        for body in [x['body']] + list(x.get('promoted') or []):
            if body and any(c['k'] == 'static' and c['v'] == n for _, _, y in ops_of(body) for c in consts_in(y)):
                users.append(f)
    for f in users:
        for c in g.ext[f]:
            if re.search(r'Once(Lock|Cell)(::<[^>]*>)?::(set|try_insert)$', re.sub(r'::<.*>::', '::', c[0])):
                r.bad('statics', n, '%s sets the global %s at %s: the first call decides for all later ones' % (f, s['ty'], c[3]))
                return
            if re.search(r'Once(Lock|Cell).*::get_or_(try_)?init$', c[0]):
                cl = [k for body in [d['fns'][f]['body']] for _, st, y in ops_of(body) if st is not None and st.get('s') == 'assign'
                      and st['rv'].get('r') == 'agg' and st['rv'].get('kind') == 'closure' and st['rv'].get('a')
                      for k in [st['rv']['def']] if any(k in t for t in c[2]) or ('{closure' in ' '.join(c[2]))]
                if cl:
                    r.bad('statics', n, '%s initialises the global %s from its own arguments at %s: the first call decides for all later ones' % (f, s['ty'], c[3]))
                    return
    r.ok('statics', n, 'initialised once, from nothing')


def unsafe(r, d):
    for what, sp in d['unsafes']:
        r.bad('unsafe', sp, what)
    for n, sp in d['foreign']:
        r.bad('unsafe', sp, 'foreign item %s' % n)
    for n, f in d['fns'].items():
        if f.get('unsafe') and not f.get('derived'):
            r.bad('unsafe', n, 'unsafe function at %s' % f['sp'])
    if not d['unsafes'] and not d['foreign']:
        r.ok('unsafe', 'library', 'no unsafe block, impl, function or foreign item')


def pointers(r, g):
    for n, sp, t in g.casts:
        r.bad('addresses', n, 'turns an address (%s) into a number at %s' % (t, sp))
    k = 0
    for n, cs in g.ext.items():
        for c in cs:
            if re.search(r'^core::fmt::rt::Argument::<.*>::new_pointer|^<.* as std::fmt::Pointer>::fmt|^std::fmt::Pointer::fmt|fmt::rt::Argument::new_pointer', c[1] or '') or re.search(r'new_pointer$|^std::fmt::Pointer::fmt$', c[0]):
                r.bad('addresses', n, 'prints an address at %s' % c[3])
                k += 1
            elif re.search(r'::addr$|expose_(addr|provenance)$', c[0]) and 'ptr' in c[0]:
                r.bad('addresses', n, 'turns an address into a number at %s' % c[3])
                k += 1
    if not g.casts and not k:
        r.ok('addresses', 'library', 'no address becomes a value')


READS = re.compile(r'^std::fs::(File::open|read|read_to_string|read_dir|metadata)$')


def leaf(t):
    """the path behind conversions"""
    while t[0] == 'call' and re.search(r'(Path::new|as_ref|into|from|to_string|to_owned|to_path_buf|clone|as_path|borrow)$', t[1]) and t[2]:
        t = t[2][0]
    return t


def one_file(r, src, g):
    """drawing creates the file whose name it was given, and reads nothing but its templates"""
    d = g.d
    for root, f in d['fns'].items():
        if not (drawing(root, f) and f['vis'] == 'pub' and f['kind'] in ('Fn', 'AssocFn')):
            continue
        seen = g.reach(root)
        if not any(effect(c[0], c[1]) for m in seen for c in g.ext.get(m, [])):
            continue
        guard(r, 'one-file', root, lambda: files(r, src, root))


ARGS = [A(i) for i in range(9)]


def files(r, src, root):
    it, ps = get_paths(r, src, root)
    if ps is None:
        return
    n = 0
    for p in ps:
        names = set()
        for e in toplevel(p.trace):
            if e[0] != 'call':
                continue
            mk = MAKES.match(e[1])
            if not mk and e[1] != 'std::fs::OpenOptions::open' and not READS.match(e[1]):
                continue
            path = leaf(nv(it, p.st, e[2][1 if e[1].endswith('OpenOptions::open') else 0]))
            if READS.match(e[1]):
                if path[0] == 'str' and 'templates' in path[1]:
                    continue
                (bad if path[0] == 'str' or path in ARGS else undec)('reads %s with %s, when %s' % (fmt(path)[:100], e[1], show_conds(p.trace)[:200]))
                continue
            n += 1
            names.add(path)
            if path not in ARGS:
                (bad if understood(path) else undec)('creates the file %s, which is not the one it was given, when %s' % (fmt(path)[:100], show_conds(p.trace)[:200]))
        if len(names) > 1:
            bad('creates the files %s' % ', '.join(fmt(x) for x in names))
    return '%d paths, %d creations, all of the given file' % (len(ps), n)
