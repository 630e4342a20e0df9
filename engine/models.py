"""Abstract semantics of the std / third-party callees met in this code base
(and of the ones an equivalent rewrite would plausibly use)."""
import re
from terms import *
from interp import Out

MODELS = {}


def model(*names):
    def dec(f):
        for n in names:
            MODELS[n] = f
        return f
    return dec


def R(st, v):
    return Out('ret', st, v)


def P(st, kind, sp):
    st.ev('panic', kind, sp)
    return Out('panic', st, (kind, st.stack[-1] if st.stack else '', sp))


# ------------------------------------------------------------------ identity-like
def ident_model(it, st, a, c, sp):
    return a[0]


for n in ('Deref::deref DerefMut::deref_mut String::as_str String::as_mut_str Vec::as_slice Vec::as_mut_slice '
          'Borrow::borrow BorrowMut::borrow_mut slice::as_ref hint::must_use convert::identity AsRef::as_ref '
          'AsMut::as_mut Into::into From::from Box::new Rc::new Arc::new Box::leak Rc::as_ref Box::as_ref '
          'Iterator::by_ref str::as_bytes String::as_bytes String::into_bytes str::into_string str::as_ref '
          'Pin::new RefCell::new Cell::new hint::black_box Vec::into_boxed_slice slice::into_vec Box::pin '
          'String::into_boxed_str Cow::into_owned Cow::Borrowed Wrapping::0 bool::from usize::from ToOwned::borrow '
          'slice::as_slice TryFrom::from').split():
    MODELS[n] = ident_model


@model('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'Borrow::borrow', 'AsMut::as_mut')
def _deref(it, st, a, c, sp):
    ty = c['targs'][0] if c['targs'] else ''
    if re.match(r'(std::rc::Rc|std::sync::Arc|std::boxed::Box)<', ty):
        v = it.val(st, a[0]) if a[0][0] == 'ref' else a[0]
        return v
    return a[0]


UNSIGNED = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}


@model('TryFrom::try_from', 'TryInto::try_into')
def _try_from(it, st, a, c, sp):
    if len(c['targs'] or ()) < 2:
        return None
    to, of = c['targs'][0], c['targs'][1]
    if c['name'] == 'try_into':
        to, of = of, to
    if to not in UNSIGNED or of not in UNSIGNED:
        return None
    v = it.val(st, a[0])
    if UNSIGNED[to] >= UNSIGNED[of]:
        return ok(v)
    out = []
    for s, b in it.split(st, le(v, Int(2 ** UNSIGNED[to] - 1))):
        out.append(R(s, ok(v) if b else err(('adt', 'std::num::TryFromIntError', 'TryFromIntError', ()))))
    return out


@model('From::from', 'Into::into')
def _from(it, st, a, c, sp):
    ty = c['targs'][0] if c['targs'] else ''
    if len(a) == 1:
        if 'HashMap' in ty or 'HashSet' in ty or 'BTree' in ty:
            v = it.val(st, a[0])
            k = 'HashMap' if 'HashMap' in ty.split('<')[0] else ('HashSet' if 'HashSet' in ty.split('<')[0] else 'BTree')
            if v[0] == 'arr':
                n = ('new', k, it.fresh(), ('empty',))
                st.ev('new', n)
                for x in v[1]:
                    if k == 'HashMap' and x[0] == 'tup':
                        st.ev('mut', 'minsert', n, (it.deep(st, x[1][0]), x[1][1]), None, None)
                    else:
                        st.ev('mut', 'insert', n, (it.deep(st, x),), None, None)
                st.ver[n] = it.fresh()
                return n
        if ty.startswith('std::vec::Vec'):
            return new_vec(it, st, it.val(st, a[0]))
        v = a[0]
        if v[0] == 'ref':
            v = it.val(st, v)
        return v
    return None


def new_vec(it, st, v):
    n = ('new', 'Vec', it.fresh(), v if v[0] in ('arr', 'empty') else ('copy', it.at(st, v)))
    return n


@model('Clone::clone', 'ToOwned::to_owned', 'slice::to_vec', 'Option::cloned', 'Option::copied', 'Rc::clone', 'Arc::clone', 'Clone::clone_from')
def _clone(it, st, a, c, sp):
    v = it.val(st, a[0])
    ty = (c['targs'] or [''])[0]
    if c['name'] in ('clone', 'to_owned', 'to_vec') and not ty.startswith(('std::rc::Rc', 'std::sync::Arc', '&')):
        if v[0] == 'it':
            return v
        kind = container_kind(ty) or ('Vec' if c['name'] == 'to_vec' or ty.startswith('[') else None)
        if kind and kind != 'String' and v[0] not in ('coll', 'sorted'):
            return ('new', kind, it.fresh(), ('copy', it.at(st, v)))
        return it.snapshot(st, v)
    return v


def container_kind(ty):
    ty = ty.lstrip('&')
    m = re.match(r"(?:[\w]+::)*(Vec|HashMap|HashSet|BTreeMap|BTreeSet|VecDeque|String)\b", ty)
    return m.group(1) if m else None


@model('ToString::to_string')
def _to_string(it, st, a, c, sp):
    return disp(it, st, a[0], (c['targs'] or [''])[0])


STRTY = re.compile(r"^(&+('\S+ )?(mut )?)*(str|std::string::String|std::borrow::Cow<.*>|std::boxed::Box<str>|std::rc::Rc<str>)$")


def disp(it, st, x, ty):
    v = it.val(st, x)
    if v[0] == 'str' or v[0] == 'cat' or STRTY.match(ty or ''):
        return v
    if v[0] == 'int':
        return Str(str(v[1]))
    if v[0] == 'bool':
        return Str('true' if v[1] else 'false')
    if v[0] == 'char' or ty.lstrip('&') == 'char':
        return v if v[0] == 'char' else ('chr', v)
    return ('disp', it.deep(st, x))


# ------------------------------------------------------------------ fmt
@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex')
def _farg(it, st, a, c, sp):
    ty = c['targs'][-1] if c['targs'] else ''
    if c['name'] == 'new_display':
        return ('farg', disp(it, st, a[0], ty))
    return ('farg', ('dbg', it.deep(st, a[0])))


@model('Arguments::from_str', 'Arguments::new_const')
def _args_str(it, st, a, c, sp):
    v = it.val(st, a[0])
    if v[0] == 'arr' and v[1]:
        v = cat(*v[1])
    return ('fmt', v)


@model('Arguments::new', 'Arguments::new_v1')
def _args(it, st, a, c, sp):
    t = it.val(st, a[0])
    xs = it.val(st, a[1])
    if t[0] != 'bytes' or xs[0] != 'arr':
        return ('fmt', ('op', 'fmt', (t, xs)))
    args = [it.val(st, x) for x in xs[1]]
    args = [x[1] if x[0] == 'farg' else x for x in args]
    b = t[1]
    i = 0
    k = 0
    parts = []
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            parts.append(Str(bytes(b[i:i + n]).decode('utf8', 'replace')))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            parts.append(Str(bytes(b[i:i + ln]).decode('utf8', 'replace')))
            i += ln
        else:
            spec = []
            if n & 1:
                spec.append(('flags', bytes(b[i:i + 4]).hex()))
                i += 4
            if n & 2:
                spec.append(('width', b[i] | b[i + 1] << 8))
                i += 2
            if n & 4:
                spec.append(('prec', b[i] | b[i + 1] << 8))
                i += 2
            idx = k
            if n & 8:
                idx = b[i] | b[i + 1] << 8
                i += 2
            k = idx + 1
            x = args[idx] if idx < len(args) else ('op', 'fmtarg', (Int(idx),))
            if spec:
                x = ('op', 'pad', (x, Str(str(spec))))
            parts.append(x)
    return ('fmt', cat(*parts))


@model('fmt::format', 'string::format')
def _format(it, st, a, c, sp):
    v = it.val(st, a[0])
    return v[1] if v[0] == 'fmt' else ('op', 'format', (v,))


@model('io::_print', 'io::_eprint')
def _print(it, st, a, c, sp):
    v = it.val(st, a[0])
    st.ev('print' if c['name'] == '_print' else 'eprint', v[1] if v[0] == 'fmt' else v, sp)
    return UNIT


@model('Formatter::write_fmt', 'Formatter::write_str', 'Write::write_str', 'Write::write_fmt', 'Formatter::pad', 'Formatter::write_char', 'Write::write_char')
def _wfmt(it, st, a, c, sp):
    v = it.val(st, a[1])
    v = v[1] if v[0] == 'fmt' else v
    tgt = it.val(st, a[0])
    if tgt[0] in ('str', 'cat') or (c['targs'] and c['targs'][0] == 'std::string::String'):
        # fmt::Write for String: appends, never fails
        append_str(it, st, a[0], v)
        return ok(UNIT)
    st.ev('out', tgt, v, sp)
    return ('call', 'write', (tgt, v), it.fresh())


@model('Display::fmt')
def _dfmt(it, st, a, c, sp):
    tgt = it.val(st, a[1])
    v = disp(it, st, a[0], (c['targs'] or [''])[0])
    st.ev('out', tgt, v, sp)
    return ('call', 'write', (tgt, v), it.fresh())


# ------------------------------------------------------------------ panics
@model('rt::panic_fmt', 'panicking::panic', 'panicking::panic_fmt', 'panicking::todo_default_msg', 'panicking::unreachable_display',
       'panicking::panic_display', 'panicking::panic_explicit', 'panicking::assert_failed', 'rt::begin_panic', 'process::abort',
       'panicking::panic_str_2015', 'panicking::panic_nounwind', 'option::expect_failed', 'panicking::unimplemented_default_msg',
       'panicking::unreachable_default_msg', 'panicking::panic_default_msg', 'result::unwrap_failed')
def _panic(it, st, a, c, sp):
    return [P(st, 'explicit', sp)]


@model('process::exit')
def _exit(it, st, a, c, sp):
    st.ev('call', 'std::process::exit', tuple(a), UNIT, sp)
    return [Out('panic', st, ('exit', '', sp))]


# ------------------------------------------------------------------ strings
@model('String::new', 'String::with_capacity')
def _snew(it, st, a, c, sp):
    return Str('')


def append_str(it, st, ref, v):
    cur = it.val(st, ref)
    if ref[0] == 'ref':
        it.store(st, (ref[1], ref[2]), cat(cur, v))
    else:
        it.store(st, (('H', ref), ()), cat(cur, v))


@model('String::push_str', 'AddAssign::add_assign', 'String::push')
def _push_str(it, st, a, c, sp):
    ty = (c['targs'] or [''])[0]
    if c['name'] == 'add_assign' and not ty.startswith('std::string::String'):
        cur = it.val(st, a[0])
        v = add(cur, it.val(st, a[1]))
        if a[0][0] == 'ref':
            it.store(st, (a[0][1], a[0][2]), v)
        else:
            it.store(st, (('H', a[0]), ()), v)
        return UNIT
    v = it.val(st, a[1])
    if c['name'] == 'push' and v[0] != 'char':
        v = ('chr', v)
    append_str(it, st, a[0], v)
    return UNIT


@model('Add::add')
def _add(it, st, a, c, sp):
    ty = (c['targs'] or [''])[0]
    x, y = it.val(st, a[0]), it.val(st, a[1])
    if ty.startswith('std::string::String'):
        return cat(x, y)
    return add(x, y)


@model('Sub::sub')
def _sub(it, st, a, c, sp):
    return sub(it.val(st, a[0]), it.val(st, a[1]))


@model('SubAssign::sub_assign')
def _subassign(it, st, a, c, sp):
    v = sub(it.val(st, a[0]), it.val(st, a[1]))
    it.store(st, (a[0][1], a[0][2]) if a[0][0] == 'ref' else (('H', a[0]), ()), v)
    return UNIT


@model('BitOrAssign::bitor_assign', 'BitAndAssign::bitand_assign')
def _bitor(it, st, a, c, sp):
    x, y = it.val(st, a[0]), it.val(st, a[1])
    ty = (c['targs'] or [''])[0]
    if ty != 'bool':
        return None
    v = mkor(x, y) if 'or' in c['name'] else mkand(x, y)
    it.store(st, (a[0][1], a[0][2]) if a[0][0] == 'ref' else (('H', a[0]), ()), v)
    return UNIT


@model('Not::not')
def _not(it, st, a, c, sp):
    return mknot(it.val(st, a[0]))


def strpat(it, st, v):
    v = it.val(st, v)
    if v[0] == 'char':
        return Str(chr(v[1]))
    return v


@model('str::replace', 'str::replacen')
def _replace(it, st, a, c, sp):
    s = it.val(st, a[0])
    x, y = strpat(it, st, a[1]), it.val(st, a[2])
    if c['name'] == 'replace':
        if s[0] == 'str' and x[0] == 'str' and y[0] == 'str' and x[1]:
            return Str(s[1].replace(x[1], y[1]))
        return ('replace', s, x, y)
    return None


@model('str::len', 'String::len', 'Vec::len', 'slice::len', 'HashMap::len', 'HashSet::len', 'VecDeque::len', 'BTreeMap::len', 'BTreeSet::len', 'ExactSizeIterator::len')
def _len(it, st, a, c, sp):
    v = it.val(st, a[0])
    if v[0] == 'it':
        n = it.iter_len(v[1])
        return sub(n, v[2]) if n is not None else ('len', v)
    return it.len(st, v)


@model('str::is_empty', 'String::is_empty', 'Vec::is_empty', 'slice::is_empty', 'HashMap::is_empty', 'HashSet::is_empty', 'VecDeque::is_empty', 'BTreeMap::is_empty')
def _is_empty(it, st, a, c, sp):
    return ieq(it.len(st, it.val(st, a[0])), Int(0))


def sub_str(it, st, s, lo, hi):
    if s[0] == 'substr':
        return sub_str(it, st, s[1], add(s[2], lo), add(s[2], hi))
    if s[0] == 'str' and lo[0] == 'int' and hi[0] == 'int':
        try:
            return Str(s[1].encode()[lo[1]:hi[1]].decode())
        except Exception:
            pass
    if lo == Int(0) and hi == it.len_at(s):
        return s
    return ('substr', s, lo, hi)


def range_bounds(it, st, r, n):
    """(lo, hi) of a range value or None"""
    r = it.val(st, r)
    if r[0] != 'adt':
        return None
    f = dict(r[3])
    name = r[1].split('::')[-1]
    if name == 'Range':
        return it.val(st, f['start']), it.val(st, f['end'])
    if name == 'RangeFrom':
        return it.val(st, f['start']), n
    if name == 'RangeTo':
        return Int(0), it.val(st, f['end'])
    if name == 'RangeFull':
        return Int(0), n
    if name == 'RangeToInclusive':
        return Int(0), add(it.val(st, f['end']), Int(1))
    if name == 'RangeInclusive':
        return it.val(st, f['start']), add(it.val(st, f['end']), Int(1))
    return None


@model('RangeInclusive::new')
def _rinc(it, st, a, c, sp):
    return ('adt', 'std::ops::RangeInclusive', 'RangeInclusive', (('start', a[0]), ('end', a[1])))


@model('Index::index', 'IndexMut::index_mut')
def _index(it, st, a, c, sp):
    ty = (c['targs'] or [''])[0]
    s = it.val(st, a[0])
    if ty in ('str', 'std::string::String') or s[0] in ('str', 'substr'):
        b = range_bounds(it, st, a[1], it.len(st, s))
        if b is None:
            return None
        st.ev('cut', it.at(st, s), b[0], b[1], sp)
        return sub_str(it, st, it.at(st, s), b[0], b[1])
    if 'HashMap<' in ty.split('::')[-1] + ty or ty.startswith(('std::collections::HashMap', 'std::collections::BTreeMap')):
        k = it.deep(st, a[1])
        r = []
        for s2, b in it.split(st, ('contains', it.at(st, s), k)):
            r.append(R(s2, ('mval', it.at(s2, s), k)) if b else P(s2, 'map-index', sp))
        return r
    if 'Value' in ty.split('<')[0]:
        return ('jidx', s, it.val(st, a[1]))
    if ty.split('<')[0].rstrip(':').endswith('::Map') and jobj(s) is not None:
        k = it.val(st, a[1])
        r = []
        for s2, b in it.split(st, ('is', ('jget', jobj(s), k), 'Some')):
            r.append(R(s2, ('jidx', jobj(s), k)) if b else P(s2, 'map-index', sp))
        return r
    if ty.startswith(('std::vec::Vec', '[', 'std::collections::VecDeque')) or ty.startswith('std::vec'):
        i = it.val(st, a[1])
        b = range_bounds(it, st, a[1], it.len(st, s)) if i[0] == 'adt' else None
        r = []
        if b is not None:
            n = it.len(st, s)
            for s2, x in it.split(st, mkand(le(b[0], b[1]), le(b[1], n))):
                if x:
                    sl = ('slice', it.at(s2, s), b[0], b[1])
                    r.append(R(s2, sl))
                else:
                    r.append(P(s2, 'slice-index', sp))
            return r
        if i[0] == 'adt':
            return None
        for s2, x in it.split(st, lt(i, it.len(st, s))):
            if x:
                r.append(R(s2, elem_ptr(it, s2, a[0], s, i)))
            else:
                r.append(P(s2, 'index', sp))
        return r
    return None


def elem_ptr(it, st, ref, s, i):
    return it.elem(st, s, i)


@model('str::get')
def _strget(it, st, a, c, sp):
    s = it.val(st, a[0])
    b = range_bounds(it, st, a[1], it.len(st, s))
    if b is None:
        return None
    return ('strget', sub_str(it, st, it.at(st, s), b[0], b[1]))


def seqop(name):
    def f(it, st, a, c, sp):
        s = it.at(st, it.val(st, a[0]))
        rest = tuple(strpat(it, st, x) for x in a[1:])
        return ('it', ('seq', ('op', name, (s,) + rest)), Int(0))
    return f


for n in 'chars split lines char_indices bytes split_whitespace split_terminator rsplit matches split_inclusive splitn'.split():
    MODELS['str::' + n] = seqop('str::' + n)


# ------------------------------------------------------------------ comparison
@model('PartialEq::eq', 'PartialEq::ne')
def _eq(it, st, a, c, sp):
    ty = (c['targs'] or [''])[0].lstrip('&')
    r = it.eq(st, cver(it, st, a[0]), cver(it, st, a[1]), ty)
    return mknot(r) if c['name'] == 'ne' else r


def cver(it, st, x):
    v = it.val(st, x)
    return it.at(st, v)


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def _ord(it, st, a, c, sp):
    ty = (c['targs'] or [''])[0].lstrip('&')
    x, y = it.val(st, a[0]), it.val(st, a[1])
    if ty not in ('usize', 'u64', 'u32', 'i32', 'i64', 'isize', 'u8'):
        return None
    return {'lt': lt(x, y), 'le': le(x, y), 'gt': lt(y, x), 'ge': le(y, x)}[c['name']]


@model('Ord::cmp')
def _cmp(it, st, a, c, sp):
    return ('call', 'Ord::cmp', (it.deep(st, it.val(st, a[0])), it.deep(st, it.val(st, a[1]))), None)


@model('PartialOrd::partial_cmp')
def _pcmp(it, st, a, c, sp):
    return some(_cmp(it, st, a, c, sp))


@model('Ordering::then', 'Ordering::then_with')
def _then(it, st, a, c, sp):
    v = it.val(st, a[0])
    out = []
    for s, b in it.split(st, it.is_(v, 'Equal')):
        if not b:
            out.append(R(s, v))
        elif c['name'] == 'then':
            out.append(R(s, a[1]))
        else:
            out.extend(it.call_closure(s, a[1], []))
    return out


@model('Ordering::reverse')
def _revord(it, st, a, c, sp):
    v = it.val(st, a[0])
    if v[0] == 'call' and v[1] == 'Ord::cmp':
        return ('call', 'Ord::cmp', (v[2][1], v[2][0]), None)
    return None


@model('Ordering::is_eq', 'Ordering::is_ne')
def _iseq(it, st, a, c, sp):
    t = it.is_(it.val(st, a[0]), 'Equal')
    return t if c['name'] == 'is_eq' else mknot(t)


@model('Ord::max', 'Ord::min', 'cmp::max', 'cmp::min', 'usize::max', 'usize::min')
def _max(it, st, a, c, sp):
    x, y = it.val(st, a[0]), it.val(st, a[1])
    r = []
    for s, b in it.split(st, le(x, y)):
        if c['name'] == 'max':
            r.append(R(s, y if b else x))
        else:
            r.append(R(s, x if b else y))
    return r


@model('usize::saturating_sub')
def _satsub(it, st, a, c, sp):
    x, y = it.val(st, a[0]), it.val(st, a[1])
    return [R(s, sub(x, y) if b else Int(0)) for s, b in it.split(st, le(y, x))]


@model('usize::wrapping_add', 'usize::saturating_add')
def _wadd(it, st, a, c, sp):
    return add(it.val(st, a[0]), it.val(st, a[1]))


@model('usize::wrapping_sub')
def _wsub(it, st, a, c, sp):
    return sub(it.val(st, a[0]), it.val(st, a[1]))


@model('usize::checked_sub')
def _csub(it, st, a, c, sp):
    x, y = it.val(st, a[0]), it.val(st, a[1])
    return [R(s, some(sub(x, y)) if b else NONE) for s, b in it.split(st, le(y, x))]


@model('usize::checked_add')
def _cadd(it, st, a, c, sp):
    return some(add(it.val(st, a[0]), it.val(st, a[1])))


# ------------------------------------------------------------------ containers
@model('Vec::new', 'Vec::with_capacity', 'HashMap::new', 'HashSet::new', 'HashMap::with_capacity', 'HashSet::with_capacity',
       'VecDeque::new', 'BTreeMap::new', 'BTreeSet::new', 'VecDeque::with_capacity')
def _cnew(it, st, a, c, sp):
    k = re.search(r'(Vec|HashMap|HashSet|VecDeque|BTreeMap|BTreeSet)', c['def'].split('::<')[0].split('::')[-1] or c['def'])
    k = re.search(r'(VecDeque|Vec|HashMap|HashSet|BTreeMap|BTreeSet)::', c['def'])
    n = ('new', k.group(1) if k else 'Vec', it.fresh(), ('empty',))
    st.ev('new', n)
    return n


@model('Default::default')
def _default(it, st, a, c, sp):
    ty = (c['targs'] or [''])[0]
    if ty in ('usize', 'u64', 'u32', 'i32', 'i64', 'isize', 'u8'):
        return Int(0)
    if ty == 'bool':
        return FALSE
    if ty in ('std::string::String', '&str'):
        return Str('')
    if ty.startswith('std::option::Option'):
        return NONE
    k = container_kind(ty)
    if k:
        n = ('new', k, it.fresh(), ('empty',))
        st.ev('new', n)
        return n
    if ty == '()':
        return UNIT
    return None


@model('Box::new_uninit')
def _uninit(it, st, a, c, sp):
    cell = ('L', it.fresh(), 'box')
    st.store[cell] = ('undef', cell)
    return ('ref', cell, ())


@model('boxed::box_assume_init_into_vec_unsafe', 'slice::into_vec')
def _into_vec(it, st, a, c, sp):
    v = it.val(st, a[0])
    n = ('new', 'Vec', it.fresh(), v if v[0] == 'arr' else ('copy', it.at(st, v)))
    st.ev('new', n)
    return n


@model('vec::from_elem')
def _from_elem(it, st, a, c, sp):
    return ('new', 'Vec', it.fresh(), ('fill', it.val(st, a[0]), it.val(st, a[1])))


def own(it, st, ref):
    """identity of the container behind a &mut"""
    v = it.val(st, ref)
    if v[0] in ('coll', 'sorted', 'arr', 'slice'):
        kind = v[1] if v[0] == 'coll' else 'Vec'
        n = ('new', kind, it.fresh(), ('copy', v) if v[0] != 'arr' else v)
        st.ev('new', n)
        if ref[0] == 'ref':
            st_store(it, st, ref, n)
        return n
    return v


def st_store(it, st, ref, v):
    if ref[0] == 'ref':
        it.store(st, (ref[1], ref[2]), v)
    else:
        it.store(st, (('H', ref), ()), v)


def mutate(it, st, ident, op, args, extra=None, sp=''):
    st.ev('mut', op, ident, args, extra, sp)
    n = it.fresh()
    if op in ('insert', 'minsert') and args[0][0] in ('int', 'str'):
        c = it.at(st, ident)
        ks = frozenset() if c[0] == 'new' and c[3] == ('empty',) else st.facts.get(('keys', c))
        if ks is not None:
            st.facts[('keys', ('at', ident, n))] = ks | {args[0]}
    st.ver[ident] = n
    it.touch(st, ident)
    return n


@model('Vec::push', 'VecDeque::push_back', 'BTreeSet::insert_', 'Vec::push_within_capacity')
def _push(it, st, a, c, sp):
    v = own(it, st, a[0])
    mutate(it, st, v, 'push', (keep(it, st, a[1]),), None, sp)
    return UNIT


def keep(it, st, x):
    """value put into a container"""
    return it.deep(st, x)


@model('HashSet::insert', 'BTreeSet::insert')
def _sinsert(it, st, a, c, sp):
    v = own(it, st, a[0])
    k = it.deep(st, a[1])
    if not it.dest_used:
        mutate(it, st, v, 'insert', (k,), None, sp)
        st.assume(('contains', it.at(st, v), k), True)
        return ('op', 'unused', ())
    out = []
    for s, b in it.split(st, ('contains', it.at(st, v), k)):
        if b:
            s.ev('mut', 'insert', v, (k,), 'present', sp)
            out.append(R(s, FALSE))
        else:
            mutate(it, s, v, 'insert', (k,), 'fresh', sp)
            s.assume(('contains', it.at(s, v), k), True)
            out.append(R(s, TRUE))
    return out


@model('HashMap::insert', 'BTreeMap::insert')
def _minsert(it, st, a, c, sp):
    v = own(it, st, a[0])
    k = it.deep(st, a[1])
    x = keep(it, st, a[2])
    if not it.dest_used:
        mutate(it, st, v, 'minsert', (k, x), None, sp)
        st.assume(('contains', it.at(st, v), k), True)
        return ('op', 'unused', ())
    out = []
    for s, b in it.split(st, ('contains', it.at(st, v), k)):
        old = ('mval', it.at(s, v), k)
        mutate(it, s, v, 'minsert', (k, x), 'present' if b else 'fresh', sp)
        s.assume(('contains', it.at(s, v), k), True)
        out.append(R(s, some(old) if b else NONE))
    return out


@model('HashMap::entry', 'BTreeMap::entry')
def _entry(it, st, a, c, sp):
    return ('entry', a[0], it.deep(st, a[1]))


@model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default')
def _or_insert(it, st, a, c, sp):
    e = it.val(st, a[0])
    if e[0] != 'entry':
        return None
    v = own(it, st, e[1])
    k = e[2]
    out = []
    for s, b in it.split(st, ('contains', it.at(st, v), k)):
        if b:
            out.append(R(s, ('mval', it.at(s, v), k)))
            continue
        if c['name'] == 'or_insert':
            rs = [R(s, a[1])]
        elif c['name'] == 'or_insert_with':
            rs = it.call_closure(s, a[1], [])
        else:
            ty = c['targs'][-1] if c['targs'] else ''
            k2 = next((container_kind(t) for t in c['targs'] if container_kind(t) and container_kind(t) != 'String'), None)
            n = ('new', k2 or 'Vec', it.fresh(), ('empty',))
            s.ev('new', n)
            rs = [R(s, n)]
        for o in rs:
            if o.kind != 'ret':
                out.append(o)
                continue
            x = keep(it, o.st, o.val)
            mutate(it, o.st, v, 'minsert', (k, x), 'fresh', sp)
            at = it.at(o.st, v)
            o.st.assume(('contains', at, k), True)
            p = ('mval', at, k)
            o.st.store[('H', p)] = x
            out.append(R(o.st, p))
    return out


@model('VacantEntry::insert', 'OccupiedEntry::insert')
def _slot_insert(it, st, a, c, sp):
    e = it.val(st, a[0])
    if e[0] != 'entry':
        return None
    v, k, x = own(it, st, e[1]), e[2], keep(it, st, a[1])
    vacant = 'VacantEntry' in c['def']
    old = ('mval', it.at(st, v), k)
    mutate(it, st, v, 'minsert', (k, x), 'fresh' if vacant else 'present', sp)
    at = it.at(st, v)
    st.assume(('contains', at, k), True)
    if not vacant:
        return old
    p = ('mval', at, k)
    st.store[('H', p)] = x
    return p


@model('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut')
def _slot_get(it, st, a, c, sp):
    e = it.val(st, a[0])
    return ('mval', it.at(st, own(it, st, e[1])), e[2]) if e[0] == 'entry' else None


@model('OccupiedEntry::key', 'VacantEntry::key', 'Entry::key', 'VacantEntry::into_key')
def _slot_key(it, st, a, c, sp):
    e = it.val(st, a[0])
    return e[2] if e[0] == 'entry' else None


@model('HashMap::get', 'HashMap::get_mut', 'BTreeMap::get', 'BTreeMap::get_mut')
def _mget(it, st, a, c, sp):
    v = it.val(st, a[0])
    return ('mget', it.at(st, v), it.deep(st, a[1]))


@model('HashSet::get')
def _sget(it, st, a, c, sp):
    v = it.val(st, a[0])
    k = it.deep(st, a[1])
    return [R(s, some(k) if b else NONE) for s, b in it.split(st, ('contains', it.at(st, v), k))]


@model('HashMap::contains_key', 'HashSet::contains', 'BTreeMap::contains_key', 'BTreeSet::contains', 'slice::contains', 'Vec::contains', 'VecDeque::contains')
def _contains(it, st, a, c, sp):
    v = it.at(st, it.val(st, a[0]))
    k = it.deep(st, a[1])
    arr = v if v[0] == 'arr' else (v[3] if v[0] == 'new' and v[3] and v[3][0] == 'arr' else None)
    if arr is not None:
        ty = (c['targs'] or [''])[0]
        r = FALSE
        for x in arr[1]:
            r = mkor(r, it.eq(st, x, k, ty))
        return r
    return ('contains', v, k)


def simple_mut(op):
    def f(it, st, a, c, sp):
        v = own(it, st, a[0])
        args = tuple(it.deep(st, x) for x in a[1:])
        old = it.at(st, v)
        mutate(it, st, v, op, args, None, sp)
        return ('call', op, (old,) + args, it.fresh())
    return f


for t, ms in {'Vec': 'insert remove clear truncate drain retain dedup swap_remove resize reserve shrink_to_fit splice dedup_by_key split_off',
              'slice': 'swap reverse_ rotate_left rotate_right fill',
              'VecDeque': 'push_front pop_back clear',
              'HashMap': 'remove clear retain drain remove_entry', 'HashSet': 'remove clear retain drain take',
              'BTreeMap': 'remove clear retain', 'BTreeSet': 'remove clear'}.items():
    for m in ms.split():
        MODELS['%s::%s' % (t, m)] = simple_mut(m)


def noop(it, st, a, c, sp):
    return UNIT


for n in ('Vec::reserve', 'Vec::shrink_to_fit', 'String::reserve', 'HashMap::reserve', 'HashSet::reserve', 'mem::drop', 'mem::forget'):
    MODELS[n] = noop


@model('Vec::insert')
def _vinsert(it, st, a, c, sp):
    v = own(it, st, a[0])
    i = it.val(st, a[1])
    n = it.len(st, v)
    if st.decide(ieq(i, n)) is True or i == n:
        mutate(it, st, v, 'push', (keep(it, st, a[2]),), None, sp)
        return UNIT
    out = []
    for s, b in it.split(st, le(i, n)):
        if not b:
            out.append(P(s, 'insert', sp))
            continue
        mutate(it, s, v, 'insert_at', (i, keep(it, s, a[2])), None, sp)
        out.append(R(s, UNIT))
    return out


@model('Vec::remove', 'Vec::swap_remove')
def _vremove(it, st, a, c, sp):
    v = own(it, st, a[0])
    i = it.val(st, a[1])
    old = it.at(st, v)
    out = []
    for s, b in it.split(st, lt(i, it.len_at(old))):
        if not b:
            out.append(P(s, 'remove', sp))
            continue
        x = it.elem_at(s, old, i)
        mutate(it, s, v, c['name'], (i,), None, sp)
        out.append(R(s, x))
    return out


@model('Vec::split_off')
def _splitoff(it, st, a, c, sp):
    v = own(it, st, a[0])
    i = it.val(st, a[1])
    old = it.at(st, v)
    n = it.len_at(old)
    out = []
    for s, b in it.split(st, le(i, n)):
        if not b:
            out.append(P(s, 'split_off', sp))
            continue
        mutate(it, s, v, 'split_off', (i,), None, sp)
        out.append(R(s, ('slice', old, i, n)))
    return out


@model('str::split_at')
def _strsplitat(it, st, a, c, sp):
    s = it.at(st, it.val(st, a[0]))
    i = it.val(st, a[1])
    n = it.len(st, s)
    st.ev('cut', s, Int(0), i, sp)
    return ('tup', (sub_str(it, st, s, Int(0), i), sub_str(it, st, s, i, n)))


@model('String::insert', 'String::insert_str')
def _strinsert(it, st, a, c, sp):
    cur = it.val(st, a[0])
    i, x = it.val(st, a[1]), it.val(st, a[2])
    if c['name'] == 'insert' and x[0] != 'char':
        x = ('chr', x)
    if i == Int(0):
        new = cat(x, cur)
    elif i == it.len(st, cur):
        new = cat(cur, x)
    else:
        new = ('op', 'str::' + c['name'], (it.at(st, cur), i, x))
    st_store(it, st, a[0], new)
    return UNIT


@model('String::pop', 'String::remove', 'String::truncate')
def _strcut(it, st, a, c, sp):
    cur = it.val(st, a[0])
    args = tuple(it.val(st, x) for x in a[1:])
    if cur[0] == 'str' and all(x[0] == 'int' for x in args) and cur[1].isascii():
        t = cur[1]
        if c['name'] == 'pop':
            st_store(it, st, a[0], Str(t[:-1]))
            return some(('char', ord(t[-1]))) if t else NONE
        if c['name'] == 'truncate':
            st_store(it, st, a[0], Str(t[:args[0][1]]))
            return UNIT
    if c['name'] == 'truncate' and args == (Int(0),):
        st_store(it, st, a[0], Str(''))
        return UNIT
    last = cur[1][-1] if cur[0] == 'cat' and cur[1] else None
    if c['name'] == 'pop' and last is not None and (last[0] == 'str' and last[1] or last[0] in ('chr', 'char')):
        parts = cur[1][:-1]
        if last[0] == 'str':
            parts, last = parts + (Str(last[1][:-1]),), ('char', ord(last[1][-1]))
        st_store(it, st, a[0], cat(*parts) if parts else Str(''))
        return some(last if last[0] == 'char' else last[1])
    old = it.at(st, cur)
    st_store(it, st, a[0], ('op', 'str::' + c['name'], (old,) + args))
    return UNIT if c['name'] == 'truncate' else ('call', c['name'], (old,) + args, it.fresh())


@model('String::clear')
def _sclear(it, st, a, c, sp):
    st_store(it, st, a[0], Str(''))
    return UNIT


@model('Vec::clear', 'HashSet::clear', 'HashMap::clear')
def _vclear(it, st, a, c, sp):
    v = own(it, st, a[0])
    mutate(it, st, v, 'clear', (), None, sp)
    return UNIT


@model('Vec::pop', 'VecDeque::pop_front', 'VecDeque::pop_back')
def _pop(it, st, a, c, sp):
    v = own(it, st, a[0])
    old = it.at(st, v)
    n = it.len_at(old)
    out = []
    for s, b in it.split(st, mknot(ieq(n, Int(0)))):
        if not b:
            out.append(R(s, NONE))
            continue
        front = c['name'] == 'pop_front'
        x = it.elem_at(s, old, Int(0) if front else sub(n, Int(1)))
        mutate(it, s, v, 'pop_front' if front else 'pop', (), None, sp)
        out.append(R(s, some(x)))
    return out


def inner(it, st, v, op, sp):
    """an element of a list is changed in place: the list no longer holds what was put in"""
    while v[0] == 'at':
        v = v[1]
    if v[0] == 'elem':
        st.ev('mut', op, v, (), None, sp)


@model('slice::sort', 'slice::sort_unstable', 'slice::sort_by_key', 'slice::sort_by', 'slice::sort_unstable_by', 'slice::sort_unstable_by_key', 'slice::sort_by_cached_key')
def _sort(it, st, a, c, sp):
    v = it.val(st, a[0])
    how = Str('total')
    if c['name'] not in ('sort', 'sort_unstable'):
        f = it.val(st, a[1])
        how = Str(('key ' if 'key' in c['name'] else 'cmp ') + (f[1] if f[0] in ('clo', 'fn') and isinstance(f[1], str) else '?'))
    s = ('sorted', it.at(st, v), how)
    inner(it, st, v, 'sort', sp)
    if a[0][0] == 'ref':
        st_store(it, st, a[0], s)
    else:
        st.store[('H', a[0])] = s
    st.ev('sort', v, s, sp)
    return UNIT


@model('slice::reverse')
def _reverse(it, st, a, c, sp):
    v = it.val(st, a[0])
    s = ('coll', 'Vec', ('rseq', it.at(st, v)))
    inner(it, st, v, 'reverse', sp)
    st_store(it, st, a[0], s)
    return UNIT


@model('slice::first', 'slice::last', 'slice::get', 'Vec::get', 'slice::get_mut', 'slice::first_mut', 'slice::last_mut', 'VecDeque::get', 'VecDeque::front', 'VecDeque::back')
def _vget(it, st, a, c, sp):
    v = it.at(st, it.val(st, a[0]))
    n = it.len_at(v)
    m = c['name']
    if m.startswith(('first', 'front')):
        i = Int(0)
    elif m.startswith(('last', 'back')):
        i = sub(n, Int(1))
        out = []
        for s, b in it.split(st, mknot(ieq(n, Int(0)))):
            out.append(R(s, some(it.elem_at(s, v, i)) if b else NONE))
        return out
    else:
        i = it.val(st, a[1])
        if i[0] == 'adt':
            b = range_bounds(it, st, i, n)
            if b is None:
                return None
            return [R(s, some(('slice', v, b[0], b[1])) if x else NONE) for s, x in it.split(st, mkand(le(b[0], b[1]), le(b[1], n)))]
    out = []
    for s, b in it.split(st, lt(i, n)):
        out.append(R(s, some(it.elem_at(s, v, i)) if b else NONE))
    return out


@model('slice::split_first', 'slice::split_last')
def _split_first(it, st, a, c, sp):
    v = it.at(st, it.val(st, a[0]))
    n = it.len_at(v)
    out = []
    for s, b in it.split(st, mknot(ieq(n, Int(0)))):
        if not b:
            out.append(R(s, NONE))
        elif c['name'] == 'split_first':
            out.append(R(s, some(('tup', (it.elem_at(s, v, Int(0)), ('slice', v, Int(1), n))))))
        else:
            out.append(R(s, some(('tup', (it.elem_at(s, v, sub(n, Int(1))), ('slice', v, Int(0), sub(n, Int(1))))))))
    return out


@model('slice::split_at')
def _split_at(it, st, a, c, sp):
    v = it.at(st, it.val(st, a[0]))
    n = it.len_at(v)
    i = it.val(st, a[1])
    return [R(s, ('tup', (('slice', v, Int(0), i), ('slice', v, i, n)))) if b else P(s, 'split_at', sp) for s, b in it.split(st, le(i, n))]


@model('mem::take', 'mem::replace')
def _take(it, st, a, c, sp):
    v = it.val(st, a[0])
    if c['name'] == 'replace':
        n = a[1]
    else:
        n = _default(it, st, [], c, sp)
        if n is None:
            n = ('op', 'default', (Str((c['targs'] or [''])[0]),))
    st_store(it, st, a[0], n)
    return v


@model('mem::swap')
def _swap(it, st, a, c, sp):
    x, y = it.val(st, a[0]), it.val(st, a[1])
    st_store(it, st, a[0], y)
    st_store(it, st, a[1], x)
    return UNIT


# ------------------------------------------------------------------ Option / Result
def osplit(it, st, o, pos='Some'):
    """[(state, payload | None)]"""
    o = it.val(st, o)
    if o[0] == 'adt':
        return [(st, o[3][0][1] if o[2] == pos else None)]
    if o[0] == 'obj':
        return [(s, it.payload(o, pos, '0') if b else None) for s, b in it.split(st, it.is_(o, pos))]
    return [(s, it.payload(o, pos, '0') if b else None) for s, b in it.split(st, it.is_(o, pos))]


def errval(it, o):
    return it.payload(o, 'Err', '0') if o[0] != 'adt' else o[3][0][1]


def callR(it, outs, f):
    """apply f(state, value) -> list[Out] | value to every returning outcome"""
    r = []
    for o in outs:
        if o.kind != 'ret':
            r.append(o)
        else:
            x = f(o.st, o.val)
            if isinstance(x, list):
                r.extend(x)
            else:
                r.append(R(o.st, x))
    return r


@model('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect')
def _unwrap(it, st, a, c, sp):
    pos = 'Some' if 'Option' in c['def'] else 'Ok'
    return [R(s, p) if p is not None else P(s, 'unwrap', sp) for s, p in osplit(it, st, a[0], pos)]


@model('Option::unwrap_unchecked')
def _unwrapu(it, st, a, c, sp):
    return it.payload(it.val(st, a[0]), 'Some', '0')


@model('Option::unwrap_or', 'Result::unwrap_or')
def _unwrap_or(it, st, a, c, sp):
    pos = 'Some' if 'Option' in c['def'] else 'Ok'
    return [R(s, p if p is not None else a[1]) for s, p in osplit(it, st, a[0], pos)]


@model('Option::unwrap_or_else', 'Result::unwrap_or_else')
def _unwrap_or_else(it, st, a, c, sp):
    isopt = 'Option' in c['def']
    out = []
    for s, p in osplit(it, st, a[0], 'Some' if isopt else 'Ok'):
        if p is not None:
            out.append(R(s, p))
        else:
            out.extend(it.call_closure(s, a[1], [] if isopt else [errval(it, it.val(s, a[0]))]))
    return out


@model('Option::unwrap_or_default', 'Result::unwrap_or_default')
def _unwrap_or_default(it, st, a, c, sp):
    isopt = 'Option' in c['def']
    out = []
    for s, p in osplit(it, st, a[0], 'Some' if isopt else 'Ok'):
        out.append(R(s, p if p is not None else (_default(it, s, [], c, sp) or ('op', 'default', (Str(c['targs'][0]),)))))
    return out


@model('Option::map', 'Result::map')
def _omap(it, st, a, c, sp):
    isopt = 'Option' in c['def']
    out = []
    for s, p in osplit(it, st, a[0], 'Some' if isopt else 'Ok'):
        if p is None:
            out.append(R(s, NONE if isopt else err(errval(it, it.val(s, a[0])))))
        else:
            out.extend(callR(it, it.call_closure(s, a[1], [p]), lambda s2, v: (some if isopt else ok)(v)))
    return out


@model('Option::map_or', 'Option::map_or_else', 'Result::map_or', 'Result::map_or_else')
def _omapor(it, st, a, c, sp):
    isopt = 'Option' in c['def']
    out = []
    for s, p in osplit(it, st, a[0], 'Some' if isopt else 'Ok'):
        if p is None:
            if c['name'] == 'map_or':
                out.append(R(s, a[1]))
            else:
                out.extend(it.call_closure(s, a[1], [] if isopt else [errval(it, it.val(s, a[0]))]))
        else:
            out.extend(it.call_closure(s, a[2], [p]))
    return out


@model('Option::and_then', 'Result::and_then')
def _andthen(it, st, a, c, sp):
    isopt = 'Option' in c['def']
    out = []
    for s, p in osplit(it, st, a[0], 'Some' if isopt else 'Ok'):
        if p is None:
            out.append(R(s, NONE if isopt else err(errval(it, it.val(s, a[0])))))
        else:
            out.extend(it.call_closure(s, a[1], [p]))
    return out


@model('Option::is_some_and', 'Option::is_none_or', 'Result::is_ok_and')
def _issomeand(it, st, a, c, sp):
    out = []
    for s, p in osplit(it, st, a[0], 'Ok' if 'ok' in c['name'] else 'Some'):
        if p is None:
            out.append(R(s, TRUE if c['name'] == 'is_none_or' else FALSE))
        else:
            out.extend(it.call_closure(s, a[1], [p]))
    return out


@model('Option::filter')
def _ofilter(it, st, a, c, sp):
    out = []
    for s, p in osplit(it, st, a[0]):
        if p is None:
            out.append(R(s, NONE))
        else:
            def g(s2, v, p=p):
                return [R(s3, some(p) if b else NONE) for s3, b in it.split(s2, it.val(s2, v))]
            out.extend(callR(it, it.call_closure(s, a[1], [p]), g))
    return out


@model('Option::ok_or', 'Option::ok_or_else')
def _okor(it, st, a, c, sp):
    out = []
    for s, p in osplit(it, st, a[0]):
        if p is not None:
            out.append(R(s, ok(p)))
        elif c['name'] == 'ok_or':
            out.append(R(s, err(a[1])))
        else:
            out.extend(callR(it, it.call_closure(s, a[1], []), lambda s2, v: err(v)))
    return out


@model('Option::or', 'Option::or_else')
def _oor(it, st, a, c, sp):
    out = []
    for s, p in osplit(it, st, a[0]):
        if p is not None:
            out.append(R(s, some(p)))
        elif c['name'] == 'or':
            out.append(R(s, a[1]))
        else:
            out.extend(it.call_closure(s, a[1], []))
    return out


@model('Result::map_err')
def _maperr(it, st, a, c, sp):
    out = []
    for s, p in osplit(it, st, a[0], 'Ok'):
        if p is not None:
            out.append(R(s, ok(p)))
        else:
            out.extend(callR(it, it.call_closure(s, a[1], [errval(it, it.val(s, a[0]))]), lambda s2, v: err(v)))
    return out


@model('Result::ok', 'Result::err')
def _rok(it, st, a, c, sp):
    out = []
    for s, p in osplit(it, st, a[0], 'Ok'):
        if c['name'] == 'ok':
            out.append(R(s, some(p) if p is not None else NONE))
        else:
            out.append(R(s, NONE if p is not None else some(errval(it, it.val(s, a[0])))))
    return out


@model('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
def _issome(it, st, a, c, sp):
    return it.is_(it.val(st, a[0]), {'is_some': 'Some', 'is_none': 'None', 'is_ok': 'Ok', 'is_err': 'Err'}[c['name']])


@model('Option::as_ref', 'Option::as_mut', 'Option::as_deref', 'Option::as_deref_mut', 'Result::as_ref', 'Option::cloned', 'Option::copied')
def _oasref(it, st, a, c, sp):
    v = it.val(st, a[0])
    return v


@model('Option::take')
def _otake(it, st, a, c, sp):
    v = it.val(st, a[0])
    st_store(it, st, a[0], NONE)
    return v


@model('Option::replace', 'Option::insert')
def _oreplace(it, st, a, c, sp):
    v = it.val(st, a[0])
    st_store(it, st, a[0], some(a[1]))
    return v if c['name'] == 'replace' else a[1]


@model('Option::flatten')
def _oflat(it, st, a, c, sp):
    return [R(s, p if p is not None else NONE) for s, p in osplit(it, st, a[0])]


@model('Option::zip')
def _ozip(it, st, a, c, sp):
    out = []
    for s, p in osplit(it, st, a[0]):
        if p is None:
            out.append(R(s, NONE))
            continue
        for s2, q in osplit(it, s, a[1]):
            out.append(R(s2, some(('tup', (p, q))) if q is not None else NONE))
    return out


@model('bool::then', 'bool::then_some')
def _then(it, st, a, c, sp):
    out = []
    for s, b in it.split(st, it.val(st, a[0])):
        if not b:
            out.append(R(s, NONE))
        elif c['name'] == 'then_some':
            out.append(R(s, some(a[1])))
        else:
            out.extend(callR(it, it.call_closure(s, a[1], []), lambda s2, v: some(v)))
    return out


@model('Try::branch')
def _branch(it, st, a, c, sp):
    ty = (c['targs'] or [''])[0]
    isopt = ty.startswith('std::option::Option')
    out = []
    for s, p in osplit(it, st, a[0], 'Some' if isopt else 'Ok'):
        if p is not None:
            out.append(R(s, ('adt', 'std::ops::ControlFlow', 'Continue', (('0', p),))))
        else:
            r = NONE if isopt else err(errval(it, it.val(s, a[0])))
            out.append(R(s, ('adt', 'std::ops::ControlFlow', 'Break', (('0', r),))))
    return out


@model('FromResidual::from_residual', 'Try::from_output')
def _resid(it, st, a, c, sp):
    if c['name'] == 'from_output':
        ty = (c['targs'] or [''])[0]
        return some(a[0]) if ty.startswith('std::option::Option') else ok(a[0])
    return a[0]


# ------------------------------------------------------------------ Any
@model('Box::downcast')
def _downcast(it, st, a, c, sp):
    v = it.val(st, a[0])
    return ('dcast', v, Str(c['targs'][-1]))


@model('Any::downcast_ref', 'dyn std::any::Any::downcast_ref', "Any + 'static::downcast_ref")
def _downcast_ref(it, st, a, c, sp):
    v = it.val(st, a[0])
    return ('dcast', v, Str(c['targs'][-1]))


# ------------------------------------------------------------------ JSON values
for n, V in {'as_array': 'Array', 'as_str': 'String', 'as_object': 'Object', 'as_bool': 'Bool', 'as_u64': 'u64', 'as_i64': 'i64', 'as_f64': 'f64', 'as_null': 'Null'}.items():
    def _mk(V):
        def f(it, st, a, c, sp):
            return ('jas', it.val(st, a[0]), V)
        return f
    MODELS['Value::' + n] = _mk(V)
for n, V in {'is_array': 'Array', 'is_string': 'String', 'is_object': 'Object', 'is_boolean': 'Bool', 'is_null': 'Null', 'is_u64': 'u64', 'is_number': 'Number'}.items():
    def _mk2(V):
        def f(it, st, a, c, sp):
            return jis(it.val(st, a[0]), V)
        return f
    MODELS['Value::' + n] = _mk2(V)


def jis(v, V):
    if V in ('u64', 'i64', 'f64'):
        return ('jnum', v, V)
    return ('is', v, V)


@model('Value::get')
def _jget(it, st, a, c, sp):
    return ('jget', it.val(st, a[0]), it.val(st, a[1]))


def jobj(v):
    """the JSON value whose object v is"""
    return v[1][1] if v[0] == 'fld' and v[1][0] == 'as' and v[1][2] == 'Object' else None


@model('Map::get')
def _jmget(it, st, a, c, sp):
    o = jobj(it.val(st, a[0]))
    return None if o is None else ('jget', o, it.val(st, a[1]))


@model('Map::contains_key')
def _jmhas(it, st, a, c, sp):
    o = jobj(it.val(st, a[0]))
    return None if o is None else ('is', ('jget', o, it.val(st, a[1])), 'Some')


# ------------------------------------------------------------------ regex
@model('Regex::find', 'Regex::find_at', 'Regex::shortest_match_')
def _rfind(it, st, a, c, sp):
    s = it.at(st, it.val(st, a[1]))
    pos = it.val(st, a[2]) if len(a) > 2 else Int(0)
    return ('rfind', it.val(st, a[0]), s, pos)


@model('Match::end', 'Match::start')
def _mend(it, st, a, c, sp):
    m = it.val(st, a[0])
    return ('m' + c['name'], m)


@model('Match::as_str')
def _mstr(it, st, a, c, sp):
    m = it.val(st, a[0])
    o = m[1][1] if m[0] == 'fld' and m[1][0] == 'as' else None
    if o is not None and o[0] == 'rfind':
        return sub_str(it, st, o[2], ('mstart', m), ('mend', m))
    return ('mstr', m)


@model('Match::len')
def _mlen(it, st, a, c, sp):
    m = it.val(st, a[0])
    return sub(('mend', m), ('mstart', m))


@model('Match::range')
def _mrange(it, st, a, c, sp):
    m = it.val(st, a[0])
    return ('adt', 'std::ops::Range', 'Range', (('start', ('mstart', m)), ('end', ('mend', m))))


@model('regex::escape', 'escape')
def _rescape(it, st, a, c, sp):
    return ('rescape', it.val(st, a[0]))


# ------------------------------------------------------------------ iterators
def mkit(d, pos=None):
    return ('it', d, pos or Int(0))


@model('slice::iter', 'slice::iter_mut', 'VecDeque::iter', 'Vec::iter')
def _iter(it, st, a, c, sp):
    return seq_of(it, st, it.val(st, a[0]))


def seq_of(it, st, v):
    v = it.at(st, v)
    if v[0] == 'coll':
        return mkit(v[2])
    return mkit(('seq', v))


@model('HashSet::iter', 'HashSet::drain', 'BTreeSet::iter', 'HashSet::into_iter')
def _hiter(it, st, a, c, sp):
    v = it.at(st, it.val(st, a[0]))
    return mkit(('hseq' if 'Hash' in c['def'] else 'seq', v))


@model('HashMap::iter', 'HashMap::iter_mut', 'BTreeMap::iter', 'HashMap::drain')
def _miter(it, st, a, c, sp):
    v = it.at(st, it.val(st, a[0]))
    return mkit(('mseq' if 'Hash' in c['def'] else 'bseq', v))


@model('HashMap::keys', 'HashMap::values', 'HashMap::values_mut', 'HashMap::into_keys', 'HashMap::into_values', 'BTreeMap::keys', 'BTreeMap::values')
def _mkeys(it, st, a, c, sp):
    v = it.at(st, it.val(st, a[0]))
    return mkit(('mkeys' if 'keys' in c['name'] else 'mvals', v))


@model('IntoIterator::into_iter')
def _into_iter(it, st, a, c, sp):
    v = it.val(st, a[0])
    ty = (c['targs'] or [''])[0]
    r = to_iter(it, st, v, ty)
    return r


def to_iter(it, st, v, ty=''):
    v = it.val(st, v)
    if v[0] == 'it':
        return v
    b = ty.lstrip('&').replace('mut ', '')
    b = re.sub(r"^'\S+ ", '', b)
    if v[0] == 'adt':
        n = v[1].split('::')[-1]
        f = dict(v[3])
        if n == 'Range':
            return mkit(('range', it.val(st, f['start']), it.val(st, f['end'])))
        if n == 'RangeInclusive':
            return mkit(('range', it.val(st, f['start']), add(it.val(st, f['end']), Int(1))))
        if n == 'RangeFrom':
            return mkit(('range', it.val(st, f['start']), ('inf',)))
        if n == 'Option':
            arr = ('arr', tuple(x for _, x in v[3]))
            return mkit(('seq', arr))
    kind = container_kind(b)
    if kind is None and v[0] == 'new':
        kind = v[1]
    if kind == 'HashSet':
        return mkit(('hseq', it.at(st, v)))
    if kind == 'HashMap':
        return mkit(('mseq', it.at(st, v)))
    if kind == 'BTreeMap':
        return mkit(('bseq', it.at(st, v)))
    if kind in ('Vec', 'VecDeque', 'BTreeSet') or b.startswith('[') or v[0] in ('new', 'coll', 'sorted', 'arr', 'slice', 'at'):
        return seq_of(it, st, v)
    if b.startswith('std::option::Option') or v[0] in ('mget', 'vget'):
        return mkit(('opt', v))
    return mkit(('seq', it.at(st, v)))


def adaptor(name, nargs=0):
    def f(it, st, a, c, sp):
        i = it.val(st, a[0])
        if i[0] != 'it':
            i = to_iter(it, st, i, (c['targs'] or [''])[0])
        d = i[1]
        if i[2] != Int(0):
            d = ('skip', d, i[2])
        ex = []
        for x in a[1:]:
            x = x if x[0] == 'clo' else it.val(st, x)
            ex.append(x)
        return mkit((name, d) + tuple(ex))
    return f


for n in ('map', 'filter', 'filter_map', 'enumerate', 'skip', 'take', 'take_while', 'skip_while', 'flat_map',
          'inspect', 'map_while', 'peekable', 'flatten', 'step_by', 'cycle', 'scan'):
    MODELS['Iterator::' + n] = adaptor(n)
MODELS['Iterator::fuse'] = ident_model
MODELS['Iterator::cloned'] = lambda it, st, a, c, sp: to_iter(it, st, a[0], (c['targs'] or [''])[0])
MODELS['Iterator::copied'] = MODELS['Iterator::cloned']


@model('Iterator::zip', 'Iterator::chain')
def _zip(it, st, a, c, sp):
    x = to_iter(it, st, a[0], (c['targs'] or [''])[0])
    y = to_iter(it, st, a[1], c['targs'][-1] if c['targs'] else '')
    return mkit((c['name'], x[1], y[1]))


@model('Iterator::rev')
def _rev(it, st, a, c, sp):
    i = to_iter(it, st, a[0], (c['targs'] or [''])[0])
    return mkit(rev(i[1]))


def rev(d):
    k = d[0]
    if k == 'seq':
        return ('rseq', d[1])
    if k == 'rseq':
        return ('seq', d[1])
    if k in ('map', 'filter', 'filter_map', 'inspect'):
        return (k, rev(d[1])) + d[2:]
    if k == 'range':
        return ('rrange', d[1], d[2])
    if k == 'enumerate' and d[1][0] == 'seq':
        return ('renum', d[1][1])
    if k == 'chain':
        return ('chain', rev(d[2]), rev(d[1]))
    return ('rev', d)


def next_iter(it, st, d, pos, sp=''):
    """one step of iterator d at position pos: [(kind, state, value)], kind in some/none/skip/panic"""
    k = d[0]

    def bounded(n, f):
        r = []
        for s, b in it.split(st, lt(pos, n)):
            r.append(('some', s, f(s)) if b else ('none', s, None))
        return r
    if k == 'seq':
        return bounded(it.len_at(d[1]), lambda s: it.elem_at(s, d[1], pos))
    if k == 'hseq':
        return bounded(it.len_at(d[1]), lambda s: ('elem', d[1], pos))
    if k == 'rseq':
        n = it.len_at(d[1])
        return bounded(n, lambda s: it.elem_at(s, d[1], sub(sub(n, Int(1)), pos)))
    if k == 'renum':
        n = it.len_at(d[1])
        i = sub(sub(n, Int(1)), pos)
        return bounded(n, lambda s: ('tup', (i, it.elem_at(s, d[1], i))))
    if k in ('mseq', 'bseq'):
        ky = ('elem', ('keys', d[1]), pos)
        return bounded(it.len_at(d[1]), lambda s: ('tup', (ky, ('mval', d[1], ky))))
    if k in ('mkeys', 'mvals'):
        ky = ('elem', ('keys', d[1]), pos)
        return bounded(it.len_at(d[1]), lambda s: ky if k == 'mkeys' else ('mval', d[1], ky))
    if k == 'range':
        if d[2] == ('inf',):
            return [('some', st, add(d[1], pos))]
        return bounded(sub(d[2], d[1]), lambda s: add(d[1], pos))
    if k == 'rrange':
        return bounded(sub(d[2], d[1]), lambda s: sub(sub(d[2], Int(1)), pos))
    if k == 'opt':
        r = []
        for s, b in it.split(st, ieq(pos, Int(0))):
            if not b:
                r.append(('none', s, None))
                continue
            for s2, p in osplit(it, s, d[1]):
                r.append(('some', s2, p) if p is not None else ('none', s2, None))
        return r
    if k == 'skip':
        return next_iter(it, st, d[1], add(pos, d[2]), sp)
    if k == 'take':
        r = []
        for s, b in it.split(st, lt(pos, d[2])):
            if b:
                r.extend(next_iter(it, s, d[1], pos, sp))
            else:
                r.append(('none', s, None))
        return r
    if k == 'enumerate':
        if has_skip(d[1]):
            return None
        sub_ = next_iter(it, st, d[1], pos, sp)
        if sub_ is None:
            return None
        return [(kk, s, ('tup', (pos, v)) if kk == 'some' else v) for kk, s, v in sub_]
    if k == 'peekable':
        return next_iter(it, st, d[1], pos, sp)
    if k == 'zip':
        r = []
        x = next_iter(it, st, d[1], pos, sp)
        if x is None or has_skip(d[1]) or has_skip(d[2]):
            return None
        for kk, s, v in x:
            if kk != 'some':
                r.append((kk, s, v))
                continue
            y = next_iter(it, s, d[2], pos, sp)
            if y is None:
                return None
            for k2, s2, v2 in y:
                r.append((k2, s2, ('tup', (v, v2)) if k2 == 'some' else v2))
        return r
    if k in ('map', 'filter', 'filter_map', 'inspect', 'take_while', 'map_while', 'skip_while'):
        x = next_iter(it, st, d[1], pos, sp)
        if x is None:
            return None
        if k == 'skip_while':
            return None
        r = []
        for kk, s, v in x:
            if kk != 'some':
                r.append((kk, s, v))
                continue
            for o in it.call_closure(s, d[2], [v]):
                if o.kind != 'ret':
                    r.append(('panic', o.st, o.val))
                    continue
                if k == 'map':
                    r.append(('some', o.st, o.val))
                elif k == 'inspect':
                    r.append(('some', o.st, v))
                elif k in ('filter', 'take_while'):
                    for s3, b in it.split(o.st, it.val(o.st, o.val)):
                        r.append(('some', s3, v) if b else ('skip' if k == 'filter' else 'none', s3, None))
                else:
                    for s3, p in osplit(it, o.st, o.val):
                        r.append(('some', s3, p) if p is not None else ('skip' if k == 'filter_map' else 'none', s3, None))
        return r
    return None


def has_skip(d):
    k = d[0]
    if k in ('filter', 'filter_map', 'flat_map', 'flatten', 'skip_while', 'chain'):
        return True
    return any(isinstance(x, tuple) and x and isinstance(x[0], str) and has_skip(x) for x in d[1:2])


@model('Iterator::next')
def _next(it, st, a, c, sp):
    i = it.val(st, a[0])
    if i[0] != 'it':
        i2 = to_iter(it, st, i, (c['targs'] or [''])[0]) if i[0] == 'adt' else None
        if i2 is None:
            return None
        i = i2
    d, pos = i[1], i[2]
    x = next_iter(it, st, d, pos, sp)
    if x is None:
        # materialise
        m = ('coll', 'Vec', d)
        x = []
        for s, b in it.split(st, lt(pos, ('len', m))):
            x.append(('some', s, ('elem', m, pos)) if b else ('none', s, None))
    out = []
    for kk, s, v in x:
        if kk == 'panic':
            out.append(Out('panic', s, v))
            continue
        if kk == 'none':
            out.append(R(s, NONE))
            continue
        st_store(it, s, a[0], ('it', d, add(pos, Int(1))))
        if kk == 'skip':
            out.append(Out('skip', s, None))
        else:
            out.append(R(s, some(v)))
    return out


def consume(it, st, d, pos, body, where):
    """drive iterator d; body(state, x) -> [Out cont | exit(val) | panic].
    Returns Outs of kind done | exit | panic."""
    k = d[0]
    if k == 'map' and needs_struct(d[1]):
        def b2(s, x):
            r = []
            for o in it.call_closure(s, d[2], [x]):
                r.extend(body(o.st, o.val) if o.kind == 'ret' else [o])
            return r
        return consume(it, st, d[1], pos, b2, where)
    if k in ('filter', 'filter_map') and needs_struct(d[1]):
        def b3(s, x):
            r = []
            for o in it.call_closure(s, d[2], [x]):
                if o.kind != 'ret':
                    r.append(o)
                elif k == 'filter':
                    for s3, b in it.split(o.st, it.val(o.st, o.val)):
                        r.extend(body(s3, x) if b else [Out('cont', s3)])
                else:
                    for s3, p in osplit(it, o.st, o.val):
                        r.extend(body(s3, p) if p is not None else [Out('cont', s3)])
            return r
        return consume(it, st, d[1], pos, b3, where)
    if k == 'chain':
        r = []
        for o in consume(it, st, d[1], pos, body, where):
            if o.kind == 'done':
                r.extend(consume(it, o.st, d[2], Int(0), body, where))
            else:
                r.append(o)
        return r
    if k in ('flat_map', 'flatten'):
        def b4(s, x):
            r = []
            outs = it.call_closure(s, d[2], [x]) if k == 'flat_map' else [R(s, x)]
            for o in outs:
                if o.kind != 'ret':
                    r.append(o)
                    continue
                inner = to_iter(it, o.st, o.val)
                for o2 in consume(it, o.st, inner[1], inner[2], body, where):
                    r.append(Out('cont', o2.st) if o2.kind == 'done' else o2)
            return r
        return consume(it, st, d[1], pos, b4, where)
    if k == 'seq' and d[1][0] == 'arr' and pos[0] == 'int' and len(d[1][1]) <= 4:
        outs = [Out('cont', st)]
        for x in d[1][1][pos[1]:]:
            nxt = []
            for o in outs:
                if o.kind == 'cont':
                    nxt.extend(body(o.st, x))
                else:
                    nxt.append(o)
            outs = nxt
        for o in outs:
            if o.kind == 'cont':
                o.kind = 'done'
        return outs
    cell = ('L', it.fresh(), 'vit')
    st.store[cell] = ('it', d, pos)

    def lb(s):
        p = s.store[cell][2]
        x = next_iter(it, s, d, p)
        if x is None:
            m = ('coll', 'Vec', d)
            x = []
            for s2, b in it.split(s, lt(p, ('len', m))):
                x.append(('some', s2, ('elem', m, p)) if b else ('none', s2, None))
        r = []
        for kk, s2, v in x:
            if kk == 'panic':
                r.append(Out('panic', s2, v))
            elif kk == 'none':
                r.append(Out('exit', s2, ('done',)))
            else:
                s2.store[cell] = ('it', d, add(p, Int(1)))
                if kk == 'skip':
                    r.append(Out('cont', s2))
                else:
                    for o in body(s2, v):
                        if o.kind == 'exit':
                            r.append(Out('exit', o.st, ('user', o.val)))
                        else:
                            r.append(o)
        return r
    outs = it.summarise(st, lb, where, 'iter')
    r = []
    for o in outs:
        if o.kind == 'exit' and o.val == ('done',):
            r.append(Out('done', o.st))
        elif o.kind == 'exit':
            r.append(Out('exit', o.st, o.val[1]))
        else:
            r.append(o)
    return r


def needs_struct(d):
    k = d[0]
    if k in ('flat_map', 'flatten', 'chain'):
        return True
    if k in ('map', 'filter', 'filter_map', 'inspect'):
        return needs_struct(d[1])
    return False


def finish(outs, done):
    r = []
    for o in outs:
        if o.kind == 'done':
            x = done(o.st)
            if isinstance(x, list):
                r.extend(x)
            else:
                r.append(R(o.st, x))
        elif o.kind == 'exit':
            r.append(R(o.st, o.val))
        else:
            r.append(o)
    return r


def getit(it, st, a, c):
    i = it.val(st, a)
    if i[0] != 'it':
        i = to_iter(it, st, i, (c['targs'] or [''])[0])
    return i


@model('Iterator::for_each')
def _for_each(it, st, a, c, sp):
    i = getit(it, st, a[0], c)
    clo = pin(it, st, a[1])

    def body(s, x):
        return [Out('cont', o.st) if o.kind == 'ret' else o for o in it.call_closure(s, clo, [x])]
    return finish(consume(it, st, i[1], i[2], body, sp), lambda s: UNIT)


@model('Iterator::try_for_each')
def _try_for_each(it, st, a, c, sp):
    i = getit(it, st, a[0], c)
    clo = pin(it, st, a[1])
    isopt = c['targs'] and 'Option' in c['targs'][-1].split('<')[0]

    def body(s, x):
        r = []
        for o in it.call_closure(s, clo, [x]):
            if o.kind != 'ret':
                r.append(o)
                continue
            for s2, p in osplit(it, o.st, o.val, 'Some' if isopt else 'Ok'):
                r.append(Out('cont', s2) if p is not None else Out('exit', s2, NONE if isopt else err(errval(it, it.val(s2, o.val)))))
        return r
    return finish(consume(it, st, i[1], i[2], body, sp), lambda s: some(UNIT) if isopt else ok(UNIT))


def pin(it, st, clo):
    """give an FnMut closure a stable cell so that state it owns persists"""
    if clo[0] == 'clo':
        cell = ('L', it.fresh(), 'clo')
        st.store[cell] = clo
        return ('ref', cell, ())
    return clo


@model('Iterator::any', 'Iterator::all')
def _any(it, st, a, c, sp):
    i = getit(it, st, a[0], c)
    anyp = c['name'] == 'any'

    def body(s, x):
        r = []
        for o in it.call_closure(s, a[1], [x]):
            if o.kind != 'ret':
                r.append(o)
                continue
            for s2, b in it.split(o.st, it.val(o.st, o.val)):
                if b == anyp:
                    r.append(Out('exit', s2, ('bool', anyp)))
                else:
                    r.append(Out('cont', s2))
        return r
    return finish(consume(it, st, i[1], i[2], body, sp), lambda s: ('bool', not anyp))


@model('Iterator::find', 'Iterator::position', 'Iterator::find_map')
def _find(it, st, a, c, sp):
    i = getit(it, st, a[0], c)
    nm = c['name']
    d = i[1]
    if nm == 'position':
        d = ('enumerate', d if i[2] == Int(0) else ('skip', d, i[2]))
        i = mkit(d)

    def body(s, x):
        r = []
        y = x
        if nm == 'position':
            y = x[1][1] if x[0] == 'tup' else ('fld', x, '1')
        for o in it.call_closure(s, a[1], [y]):
            if o.kind != 'ret':
                r.append(o)
                continue
            if nm == 'find_map':
                for s2, p in osplit(it, o.st, o.val):
                    r.append(Out('exit', s2, some(p)) if p is not None else Out('cont', s2))
            else:
                for s2, b in it.split(o.st, it.val(o.st, o.val)):
                    if b:
                        r.append(Out('exit', s2, some(x if nm == 'find' else (x[1][0] if x[0] == 'tup' else ('fld', x, '0')))))
                    else:
                        r.append(Out('cont', s2))
        return r
    return finish(consume(it, st, d, i[2], body, sp), lambda s: NONE)


@model('Iterator::fold', 'Iterator::try_fold')
def _fold(it, st, a, c, sp):
    i = getit(it, st, a[0], c)
    if c['name'] == 'try_fold':
        isopt = 'Option' in c['targs'][-1].split('<')[0]
        if 'Result' not in c['targs'][-1].split('<')[0] and not isopt:
            return None
    cell = ('L', it.fresh(), 'acc')
    st.store[cell] = it.val(st, a[1]) if a[1][0] == 'ref' and False else a[1]
    clo = pin(it, st, a[2])

    def body(s, x):
        r = []
        for o in it.call_closure(s, clo, [s.store[cell], x]):
            if o.kind != 'ret':
                r.append(o)
                continue
            if c['name'] == 'fold':
                o.st.store[cell] = o.val
                r.append(Out('cont', o.st))
            else:
                for s2, p in osplit(it, o.st, o.val, 'Some' if isopt else 'Ok'):
                    if p is not None:
                        s2.store[cell] = p
                        r.append(Out('cont', s2))
                    else:
                        r.append(Out('exit', s2, NONE if isopt else err(errval(it, it.val(s2, o.val)))))
        return r

    def done(s):
        v = s.store[cell]
        if c['name'] == 'fold':
            return v
        return some(v) if isopt else ok(v)
    return finish(consume(it, st, i[1], i[2], body, sp), done)


@model('Iterator::count')
def _count(it, st, a, c, sp):
    i = getit(it, st, a[0], c)
    n = it.iter_len(i[1])
    if n is not None and i[2] == Int(0):
        return n
    return ('count', i[1])


@model('Iterator::last', 'Iterator::nth')
def _last(it, st, a, c, sp):
    i = getit(it, st, a[0], c)
    m = ('coll', 'Vec', i[1])
    n = it.len_at(m)
    out = []
    if c['name'] == 'last':
        for s, b in it.split(st, mknot(ieq(n, Int(0)))):
            out.append(R(s, some(it.elem_at(s, m, sub(n, Int(1)))) if b else NONE))
        return out
    k = add(it.val(st, a[1]), i[2])
    for s, b in it.split(st, lt(k, n)):
        out.append(R(s, some(it.elem_at(s, m, k)) if b else NONE))
    return out


@model('Iterator::sum', 'Iterator::max', 'Iterator::min', 'Iterator::max_by_key', 'Iterator::min_by_key', 'Iterator::max_by', 'Iterator::min_by', 'Iterator::reduce', 'Iterator::partition', 'Iterator::unzip', 'Iterator::product')
def _agg(it, st, a, c, sp):
    i = getit(it, st, a[0], c)
    return ('agg', c['name'], i[1], tuple(x if x[0] == 'clo' else it.val(st, x) for x in a[1:]))


@model('Iterator::collect', 'FromIterator::from_iter')
def _collect(it, st, a, c, sp):
    i = getit(it, st, a[0], c) if c['name'] == 'collect' else to_iter(it, st, a[0], c['targs'][-1] if c['targs'] else '')
    ty = c['targs'][-1] if c['name'] == 'collect' else c['targs'][0]
    return collect(it, st, i, ty, sp)


def collect(it, st, i, ty, sp):
    d = i[1] if i[2] == Int(0) else ('skip', i[1], i[2])
    m = re.match(r'std::(result::Result|option::Option)<(.*)>$', ty)
    if m:
        isopt = 'Option' in m.group(1)
        inner = container_kind(m.group(2)) or 'unit'
        n = ('new', inner, it.fresh(), ('empty',))
        st.ev('new', n)

        def body(s, x):
            r = []
            for s2, p in osplit(it, s, x, 'Some' if isopt else 'Ok'):
                if p is None:
                    r.append(Out('exit', s2, NONE if isopt else err(errval(it, it.val(s2, x)))))
                else:
                    put(it, s2, n, p, sp)
                    r.append(Out('cont', s2))
            return r
        return finish(consume(it, st, d, Int(0), body, sp), lambda s: some(n) if isopt else ok(n))
    kind = container_kind(ty) or ty
    # pure iterators stay symbolic
    tmp = st.copy()
    tmp.trace = ()
    outs = consume(it, tmp, d, Int(0), lambda s, x: [Out('cont', s)], sp)
    pure = True
    for o in outs:
        if o.kind == 'panic':
            pure = False
        for e in o.st.trace:
            if e[0] == 'loop' and not loop_pure(e[1]):
                pure = False
            elif e[0] not in ('loop', 'cond', 'new') and not (e[0] == 'call' and e[3][0] == 'call' and e[3][3] is None):
                pure = False
    if kind in ('HashMap', 'BTreeMap') and d[0] == 'map':
        pure = False    # what is stored may be changed in place later
    if pure:
        return ('coll', kind, d)
    n = ('new', kind, it.fresh(), ('empty',))
    st.ev('new', n)

    def body(s, x):
        put(it, s, n, x, sp)
        return [Out('cont', s)]
    return finish(consume(it, st, d, Int(0), body, sp), lambda s: n)


def put(it, st, n, x, sp):
    k = n[1]
    x = it.deep(st, x)
    if k in ('HashMap', 'BTreeMap') and x[0] == 'tup':
        mutate(it, st, n, 'minsert', x[1], None, sp)
    elif k in ('HashSet', 'BTreeSet'):
        mutate(it, st, n, 'insert', (x,), None, sp)
    else:
        mutate(it, st, n, 'push', (x,), None, sp)


def loop_pure(L):
    for tr, upd, s in L.conts:
        if not trace_pure(tr):
            return False
    for k, tr, v, s in L.exits:
        if k == 'panic' or not trace_pure(tr):
            return False
    return True


def trace_pure(tr):
    for e in tr:
        if e[0] == 'loop':
            if not loop_pure(e[1]):
                return False
        elif e[0] == 'call':
            if e[3][0] == 'call' and e[3][3] is not None:
                return False
        elif e[0] not in ('cond', 'new'):
            return False
    return True


@model('Extend::extend', 'Vec::extend_from_slice', 'Vec::append', 'HashSet::extend', 'Vec::extend')
def _extend(it, st, a, c, sp):
    ty = (c['targs'] or [''])[0]
    cur = it.val(st, a[0])
    if container_kind(ty) == 'String' or cur[0] in ('str', 'cat'):
        i = to_iter(it, st, a[1], c['targs'][-1])
        append_str(it, st, a[0], ('coll', 'String', i[1]))
        return UNIT
    v = own(it, st, a[0])
    src = it.val(st, a[1])
    i = to_iter(it, st, src, c['targs'][-1] if c['name'] == 'extend' and c['targs'] else '')
    kind = container_kind(ty) or ('Vec' if 'Vec' in c['def'] else None)

    def body(s, x):
        x = it.deep(s, x)
        if kind in ('HashSet', 'BTreeSet'):
            mutate(it, s, v, 'insert', (x,), None, sp)
        elif kind in ('HashMap', 'BTreeMap'):
            k2, v2 = (x[1] if x[0] == 'tup' else (('fld', x, '0'), ('fld', x, '1')))
            mutate(it, s, v, 'minsert', (k2, v2), None, sp)
        else:
            mutate(it, s, v, 'push', (x,), None, sp)
        return [Out('cont', s)]
    outs = finish(consume(it, st, i[1], i[2], body, sp), lambda s: UNIT)
    if c['name'] == 'append':
        for o in outs:
            if o.kind == 'ret':
                mutate(it, o.st, it.val(o.st, a[1]), 'clear', (), None, sp)
    return outs


@model('slice::join', 'slice::concat', 'Join::join', 'Concat::concat')
def _join(it, st, a, c, sp):
    v = it.at(st, it.val(st, a[0]))
    sep = it.val(st, a[1]) if len(a) > 1 else Str('')
    return ('join', v, sep)


@model('HashSet::union', 'HashSet::difference', 'HashSet::intersection')
def _setop(it, st, a, c, sp):
    x, y = it.at(st, it.val(st, a[0])), it.at(st, it.val(st, a[1]))
    if c['name'] == 'union':
        return mkit(('chain', ('hseq', x), ('hseq', y)))
    return None


@model('Iterator::size_hint')
def _sh(it, st, a, c, sp):
    return ('op', 'size_hint', ())


# ------------------------------------------------------------------ io / fs / tera: effects as calls
@model('Write::write_all', 'Write::write', 'Write::flush')
def _write(it, st, a, c, sp):
    u = it.fresh()
    vals = tuple(it.deep(st, x) for x in a)
    r = ('call', c['def'], vals, u)
    st.ev('call', c['def'], vals, r, sp)
    return r
