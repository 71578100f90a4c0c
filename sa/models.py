"""What the functions outside of the analysed crate do to terms: conversions, collections, iterators, the contract API."""
import re

from terms import *
from interp import (kind_of, strip_ref, type_args, array_len, mref, binop, ovf, API, READ, SELF, BLOCK, UNIT_, INTW)

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def ret(st, v):
    return [('ret', st, v)]


# ---------------------------------------------------------------- the contract API and the protocol

@model(READ)
def m_read(I, st, site, cal, args, t):
    return I.read_operation(st, site, args)


def api_pure(name):
    def m(I, st, site, cal, args, t):
        me = I.load(st, args[0])
        v = app('api::' + name, me)
        st.ev = st.ev + (('api', name, me),)
        return ret(st, v)
    return m


for _n in ('contract_id', 'codex', 'repo', 'memory'):
    MODELS[API + _n] = api_pure(_n)


@model(API + 'is_known')
def m_known(I, st, site, cal, args, t):
    me, opid = I.load(st, args[0]), I.load(st, args[1])
    v = app('is_known', opid, c(st.ver))
    st.ev = st.ev + (('is_known', me, opid, c(st.ver)),)
    return ret(st, v)


def api_effect(name):
    def m(I, st, site, cal, args, t):
        vals = tuple(I.deep(st, a) for a in args)
        st.ev = st.ev + ((name,) + vals + (mk('at', I.where()),),)
        st.ver += 1
        return ret(st, UNIT_)
    return m


for _n in ('apply_operation', 'apply_seals', 'apply_witness'):
    MODELS[API + _n] = api_effect(_n)


@model('rgbcore::seals::RgbSealDef::auth_token')
def m_auth(I, st, site, cal, args, t):
    if cal.get('key'):
        return None
    return ret(st, app('auth_token', I.load(st, args[0])))


@model('rgbcore::seals::RgbSealDef::to_src')
def m_tosrc(I, st, site, cal, args, t):
    if cal.get('key'):
        return None
    return ret(st, app('to_src', I.load(st, args[0])))


@model('rgbcore::seals::RgbSealDef::resolve')
def m_resolve(I, st, site, cal, args, t):
    if cal.get('key'):
        return None
    return ret(st, app('resolve', I.load(st, args[0]), I.load(st, args[1])))


@model('single_use_seals::PublishedWitness::pub_id')
def m_pubid(I, st, site, cal, args, t):
    return ret(st, app('pub_id', I.load(st, args[0])))


@model('single_use_seals::SealWitness::verify_seals_closing')
def m_close(I, st, site, cal, args, t):
    w, seals, msg = [I.load(st, a) for a in args]
    s = seals
    if s.tag == 'it' and not s.a[1] and s.a[0].tag == 'B' and s.a[2] is c(0):
        s = s.a[0].a[1]
        outs = [(st, s)]
    elif s.tag == 'it':
        outs = [(o[1], o[2]) for o in collect_into(I, st, args[1], site, 'seq') if o[0] == 'ret']
    else:
        outs = [(st, s)]
    res = []
    for x, v in outs:
        term = app('closes', w, v, msg)
        x.ev = x.ev + (('closes', term),)
        res.append(('ret', x, term))
    return res


@model('single_use_seals::SealWitness::verify_seal_closing')
def m_close1(I, st, site, cal, args, t):
    w, seal, msg = [I.load(st, a) for a in args]
    term = app('closes1', w, seal, msg)
    st.ev = st.ev + (('closes1', term),)
    return ret(st, term)


@model('single_use_seals::SealWitness::new')
def m_switness(I, st, site, cal, args, t):
    return ret(st, agg('single_use_seals::SealWitness', '', (('published', args[0]), ('client', args[1]))))


@model('ultrasonic::codex::Codex::verify', 'Codex::verify')
def m_verify(I, st, site, cal, args, t):
    vals = [I.deep(st, a) for a in args]
    term = app('verify', *(vals + [c(st.ver)]))
    st.ev = st.ev + (('verify', term),)
    return ret(st, term)


@model('Operation::opid')
def m_opid(I, st, site, cal, args, t):
    return ret(st, app('opid', I.deep(st, args[0])))


@model('Codex::codex_id')
def m_codexid(I, st, site, cal, args, t):
    return ret(st, app('codex_id', I.load(st, args[0])))


@model('CommitId::commit_id')
def m_commitid(I, st, site, cal, args, t):
    h = (cal.get('self') or '').split('::')[-1]
    n = {'Operation': 'opid', 'Codex': 'codex_id'}.get(h, 'commit_id')
    return ret(st, app(n, I.deep(st, args[0])))


def verified(v):
    """The operation in a verified operation."""
    if v.tag == 'fld' and v.a[1] == 'Ok' and v.a[0].tag == 'app' and v.a[0].a[0] == 'verify':
        return v.a[0].a[1][2]
    return None


@model('VerifiedOperation::opid')
def m_vopid(I, st, site, cal, args, t):
    v = I.load(st, args[0])
    o = verified(v)
    return ret(st, app('opid', o) if o is not None else app('vopid', v))


@model('VerifiedOperation::as_operation', 'VerifiedOperation::into_operation')
def m_vop(I, st, site, cal, args, t):
    v = I.load(st, args[0])
    o = verified(v)
    return ret(st, o if o is not None else app('vop', v))


@model('CellAddr::new')
def m_celladdr(I, st, site, cal, args, t):
    return ret(st, agg('ultrasonic::operation::CellAddr', '', (('opid', I.load(st, args[0])), ('pos', I.load(st, args[1])))))


@model('Outpoint::new')
def m_outpoint(I, st, site, cal, args, t):
    return ret(st, agg('bc::tx::Outpoint', '', (('txid', I.load(st, args[0])), ('vout', I.load(st, args[1])))))


# ---------------------------------------------------------------- conversions that keep the value

def ident(I, st, site, cal, args, t):
    v = I.load(st, args[0]) if args and args[0].tag == 'mref' and not is_mut_ret(t) else args[0]
    while v.tag == 'agg' and v.a[0].split('::')[-1] == 'Cow' and len(v.a[2]) == 1:
        v = v.a[2][0][1]   # owned or borrowed
    return ret(st, v)


def is_mut_ret(t):
    return bool(t) and len(t) > 7 and isinstance(t[7], str) and t[7].startswith('&mut')


for _n in ('Deref::deref', 'AsRef::as_ref', 'Borrow::borrow', 'ToOwned::to_owned', 'Box::new', 'Rc::new', 'Arc::new',
           'Confined::release', 'Confined::into_inner', 'Confined::as_unconfined', 'Confined::to_unconfined',
           'Confined::from_checked', 'Confined::as_inner', 'Array::to_byte_array', 'Array::into_inner', 'Array::from_byte_array',
           'ByteArray::to_byte_array', 'ByteArray::from_byte_array', 'Wrapper::into_inner', 'Wrapper::as_inner', 'Wrapper::to_inner',
           'Wrapper::from_inner', 'AuthToken::from_byte_array', 'AuthToken::to_byte_array', 'Opid::to_byte_array',
           'Into::into', 'From::from', 'Clone::clone', 'Vec::as_slice', 'Vec::as_mut_slice', 'Vec::into_boxed_slice', '[]::to_vec',
           '[]::into_vec', 'black_box', 'hint::must_use', 'convert::identity', 'hint::black_box', 'intrinsics::likely',
           'Option::cloned', 'Option::copied', 'Result::copied', 'Result::cloned', 'ByteArray::as_byte_array', 'Txid::to_byte_array',
           '[;]::as_slice', 'Array::as_slice', 'Array::as_ref', 'bytes::as_ref', 'AsSlice::as_slice', 'ByteArray::to_inner',
           'boxed::box_new', 'Vec::leak', 'Borrow::borrow', 'Cow::into_owned', 'DerefMut::deref_mut', 'AsMut::as_mut',
           'BorrowMut::borrow_mut', 'Option::as_deref', 'Option::as_deref_mut', 'Box::leak', 'Index::identity', 'Confined::as_slice',
           'Confined::unbox', 'ConfinedVec::into_inner', 'boxed::box_assume_init_into_vec_unsafe', 'slice::into_vec',
           'ManuallyDrop::new', 'ManuallyDrop::into_inner', 'Iterator::by_ref', 'Result::into_ok', 'Vout::into_u32', 'Reverse'):
    MODELS[_n] = ident


@model('Clone::clone')
def m_clone(I, st, site, cal, args, t):
    if cal.get('key') and cal['key'] in I.f['bodies'] and cal.get('rcrate') == I.f['crate']:
        return None
    return ret(st, I.load(st, args[0]))


@model('From::from', 'Into::into')
def m_from(I, st, site, cal, args, t):
    if cal.get('key') and cal['key'] in I.f['bodies']:
        return None
    v = I.load(st, args[0])
    # conversions between collections
    rt = (t[7] if t and len(t) > 7 else '') or ''
    at_ = (t[6][0] if t and len(t) > 6 and t[6] else '')
    k, k0 = kind_of(rt), kind_of(at_)
    if k in ('seq', 'map', 'set') and k0 in ('seq', 'map', 'set') and k != k0:
        return collect_into(I, st, to_it(I, st, v, at_)[0][1], site, k)
    if (cal.get('rcrate') or 'core') != I.f['crate']:
        return ret(st, v)
    return None


@model('TryFrom::try_from', 'TryInto::try_into')
def m_tryfrom(I, st, site, cal, args, t):
    v = I.load(st, args[0])
    rt = (t[7] if t and len(t) > 7 else '') or ''
    a = type_args(rt)
    to = a[0] if a else rt
    if v.tag in ('ix', 'len') or (v.tag == 'wit' and v.a[1].tag == 'ix'):
        if to in WIDE:
            return ret(st, ok(v))  # positions within a confined collection fit 16 bits
    elif v.tag == 'c' and isinstance(v.a[0], int):
        m = re.fullmatch(r'([ui])(\d+|size)', to)
        bits = (64 if m.group(2) == 'size' else int(m.group(2))) if m else 0
        if bits and (0 if m.group(1) == 'u' else -(1 << bits - 1)) <= v.a[0] < 1 << (bits if m.group(1) == 'u' else bits - 1):
            return ret(st, ok(v))
    f = fits(v, to)
    return [('ret', s, ok(v) if b else err(app('try_from_err', v))) for s, b in I.branch(st, f)]


WIDE = ('u16', 'u32', 'u64', 'u128', 'usize', 'i32', 'i64', 'i128', 'isize')


def bounded(v):
    """Whether a collection has at most 65535 items, having no more than one of the operation at hand."""
    if v.tag == 'cop':
        b, ops = coll_ops(v)
        if b.tag == 'empty' and all(o[0] in ('push', 'ins') for o in ops):
            return True
        src = at_most(v)
        return src is not None and bounded(src)
    if v.tag in ('empty', 'arr', 'rep'):
        return True
    while v.tag in ('fld', 'upd'):
        v = v.a[0]
    return v is BLOCK


def fits(v, ty):
    """Whether a value fits a confined collection, or an array."""
    n = array_len(ty)
    if n is not None:
        return f_eq(length(v), c(n))
    h = ty.split('<')[0]
    if h.endswith('Confined') and bounded(v):
        a = type_args(ty)[1:]
        if a and all(re.search(r'(Small|Medium|Large)(?!.*NonEmpty)', x) for x in a):
            return TRUE
        if len(a) == 2 and re.fullmatch(r'0(_?usize)?|.*ZERO.*', a[0]) and (
                re.fullmatch(r'\d+(_?usize)?', a[1]) and int(re.match(r'\d+', a[1]).group()) >= 65535 or re.search(
                    r'U16|U24|U32|U64|USIZE|MAX', a[1])):
            return TRUE
    return mk('fits', v, ty)


@model('Confined::try_from', 'Confined::try_from_iter', 'Confined::from_iter_checked', 'Confined::from_checked', 'Confined::from_slice_checked')
def m_conf(I, st, site, cal, args, t):
    m = cal['cn'].split('::')[-1]
    rt = retty(t)
    ty = rt if m in ('from_checked', 'from_iter_checked', 'from_slice_checked') else (type_args(rt) or [rt])[0]

    def conv(s0, v):
        out = []
        for s, b in I.branch(s0, fits(v, ty)):
            if m in ('from_checked', 'from_iter_checked', 'from_slice_checked'):
                out.append(('ret', s, v) if b else ('panic', s, ('size of a confined collection', I.where(), '')))
            else:
                out.append(('ret', s, ok(v) if b else err(app('confinement_err', v))))
        return out
    if m in ('try_from_iter', 'from_iter_checked'):
        k = kind_of(ty) or 'seq'
        return [x for o in collect_into(I, st, args[0], site, k) for x in (conv(o[1], o[2]) if o[0] == 'ret' else [o])]
    return conv(st, I.load(st, args[0]))


@model('ToString::to_string')
def m_tostring(I, st, site, cal, args, t):
    v = I.load(st, args[0])
    return ret(st, v if v.tag == 'str' else app('to_string', v))


@model('Default::default')
def m_default(I, st, site, cal, args, t):
    ty = cal.get('selfty') or ''
    k = kind_of(ty)
    m = re.match(r'^\[(\w+); *(\d+)\]$', ty)
    if m:
        return ret(st, mk('rep', c(0) if m.group(1) in INTW else app('default', mk('str', m.group(1))), int(m.group(2))))
    if k in ('seq', 'map', 'set'):
        return ret(st, empty_coll(k))
    if k == 'opt':
        return ret(st, none())
    if k == 'str':
        return ret(st, mk('str', ''))
    if ty in INTW:
        return ret(st, c(0))
    if ty == '()':
        return ret(st, UNIT_)
    if ty.startswith('(') and ty.endswith(')'):
        from interp import split_top
        vals = []
        for x in split_top(ty[1:-1]):
            k = kind_of(x)
            vals.append(empty_coll(k) if k in ('seq', 'map', 'set') else none() if k == 'opt' else c(0) if x in INTW
                        else app('default', mk('str', x)))
        return ret(st, tup(*vals))
    if cal.get('key') and cal['key'] in I.f['bodies']:
        return None
    return ret(st, app('default', mk('str', ty)))


@model('mem::replace')
def m_replace(I, st, site, cal, args, t):
    old = I.load(st, args[0])
    I.store(st, args[0], args[1])
    return ret(st, old)


@model('Cell::new', 'Cell::into_inner')
def m_cell(I, st, site, cal, args, t):
    return ret(st, args[0])


@model('Cell::get', 'Cell::set', 'Cell::replace', 'Cell::take')
def m_cellop(I, st, site, cal, args, t):
    name = cal['cn'].split('::')[-1]
    if args[0].tag != 'mref':
        return None
    old = I.load(st, args[0])
    if name == 'take':
        return m_take(I, st, site, dict(cal, targs=[re.sub(r'^.*?Cell<(.*)>$', r'\1', argty(t, 0))]), args, t)
    if name != 'get':
        I.store(st, args[0], args[1])
    return ret(st, UNIT_ if name == 'set' else old)


@model('mem::take')
def m_take(I, st, site, cal, args, t):
    old = I.load(st, args[0])
    r = []
    c2 = dict(cal)
    c2['selfty'] = (cal.get('targs') or [''])[0]
    for o in m_default(I, st, site, c2, [], t) or [('ret', st, app('default'))]:
        I.store(o[1], args[0], o[2])
        r.append(('ret', o[1], old))
    return r


@model('mem::swap')
def m_swap(I, st, site, cal, args, t):
    a, b = I.load(st, args[0]), I.load(st, args[1])
    I.store(st, args[0], b)
    I.store(st, args[1], a)
    return ret(st, UNIT_)


@model('mem::drop', 'mem::forget')
def m_drop(I, st, site, cal, args, t):
    return ret(st, UNIT_)


@model('Option::iter', 'Option::iter_mut')
def m_oiter(I, st, site, cal, args, t):
    v = I.load(st, args[0])
    out = []
    for s, b in I.branch(st, f_is(v, 'Some')):
        r = args[0]
        x = fld(v, 'Some', '0') if cal['cn'].endswith('iter') or r.tag != 'mref' else mref(r.a[0], r.a[1], r.a[2] + (('f', 'Some', '0'),))
        out.append(('ret', s, it(mk('once', x)) if b else it(mk('chain', (), 0))))
    return out


@model('Option::take')
def m_otake(I, st, site, cal, args, t):
    old = I.load(st, args[0])
    I.store(st, args[0], none())
    return ret(st, old)


@model('Option::replace')
def m_oreplace(I, st, site, cal, args, t):
    old = I.load(st, args[0])
    I.store(st, args[0], some(args[1]))
    return ret(st, old)


@model('Option::insert')
def m_oinsert(I, st, site, cal, args, t):
    I.store(st, args[0], some(args[1]))
    r = args[0]
    return ret(st, mref(r.a[0], r.a[1], r.a[2] + (('f', 'Some', '0'),)) if r.tag == 'mref' else args[1])


# ---------------------------------------------------------------- comparisons

@model('PartialEq::eq', 'PartialEq::ne')
def m_eq(I, st, site, cal, args, t):
    if cal.get('key') and cal.get('rcrate') == I.f['crate']:
        return None
    f = f_eq(I.deep(st, args[0]), I.deep(st, args[1]))
    return ret(st, f if cal['cn'].endswith('::eq') else f_not(f))


@model('Iterator::eq', 'Iterator::ne')
def m_iteq(I, st, site, cal, args, t):
    xs = [I.load(st, a) for a in args[:2]]
    seqs = []
    for x in xs:
        if x.tag != 'it' or x.a[0].tag != 'B' or x.a[0].a[0] != 'seq' or x.a[1] or not is_c(x.a[2], 0):
            return None
        seqs.append(x.a[0].a[1])
    f = f_eq(*seqs)
    return ret(st, f if cal['cn'].endswith('eq') else f_not(f))


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def m_ord(I, st, site, cal, args, t):
    a, b = I.deep(st, args[0]), I.deep(st, args[1])
    return ret(st, binop({'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[cal['cn'].split('::')[-1]], a, b, ''))


@model('Ord::cmp')
def m_cmp(I, st, site, cal, args, t):
    return ret(st, app('cmp', I.deep(st, args[0]), I.deep(st, args[1])))


@model('Ord::max', 'Ord::min', 'cmp::max', 'cmp::min')
def m_max(I, st, site, cal, args, t):
    a, b = I.load(st, args[0]), I.load(st, args[1])
    top = cal['cn'].endswith('max')
    for x, y in ((a, b), (b, a)):
        if x.tag in ('pos', 'len', 'ix', 'count') and is_c(y) and y.a[0] <= (1 if x.tag == 'pos' else 0):
            return ret(st, x if top else y)
    f = f_lt(b, a)
    return [('ret', s, (a if x else b) if top else (b if x else a)) for s, x in I.branch(st, f)]


@model('bool::then')
def m_then(I, st, site, cal, args, t):
    out = []
    for s, b in I.branch(st, I.load(st, args[0])):
        if b:
            out += [(k, x, some(v)) if k == 'ret' else (k, x, v) for k, x, v in I.call_value(s, args[1], [], site)]
        else:
            out.append(('ret', s, none()))
    return out


@model('bool::then_some')
def m_thensome(I, st, site, cal, args, t):
    return [('ret', s, some(args[1]) if b else none()) for s, b in I.branch(st, I.load(st, args[0]))]


@model('num::checked_add', *('%s::checked_add' % w for w in INTW))
def m_cadd(I, st, site, cal, args, t):
    a, b = I.load(st, args[0]), I.load(st, args[1])
    ty = cal.get('selfty') or cal['cn'].split('::')[-2]
    f = ovf('Add', a, b, ty)
    return [('ret', s, none() if o else some(binop('Add', a, b, ty))) for s, o in I.branch(st, f)]


@model(*('%s::%s_add' % (w, x) for w in INTW for x in ('saturating', 'wrapping')))
def m_sadd(I, st, site, cal, args, t):
    a, b = I.load(st, args[0]), I.load(st, args[1])
    ty = cal.get('selfty') or cal['cn'].split('::')[-2]
    f = ovf('Add', a, b, ty)
    if is_c(f, 0):
        return ret(st, binop('Add', a, b, ty))
    if ty[0] != 'u':
        return None
    wraps = cal['cn'].endswith('wrapping_add')
    if a.tag == 'c' and b.tag == 'c':
        n = (1 << INTW[ty]) if ty in INTW else None
        return ret(st, c((a.a[0] + b.a[0]) % n if wraps else n - 1)) if n else None
    if a.tag == 'pos' and b.tag == 'c' and b.a[0] > 0:
        if not wraps:
            return ret(st, a)
        if b.a[0] == 1:
            return [('ret', s, c(0) if o else a) for s, o in I.branch(st, f)]
    return None


# ---------------------------------------------------------------- iterators
# ('it', base, stages, pos); base is ('B', shape, src) ('chain', its, idx) ('once', x) ('gen', f) ('via', reference)

def it(base, stages=(), pos=None):
    return mk('it', base, stages, pos if pos is not None else c(0))


RANGES = ('core::ops::range::Range', 'core::range::Range')
SHAPES = {'seq': 'seq', 'set': 'set', 'map': 'kv'}


def coll_it(v, shape):
    """An iterator over the elements of a collection."""
    if v.tag == 'cop':
        b, ops = coll_ops(v)
        if b.tag == 'empty' and all(o[0] in ('push', 'ins', 'each') for o in ops) and (shape == 'seq' or one_each(ops)):
            parts = []
            for o in ops:
                if o[0] == 'each':
                    src = o[1]
                    parts.append(it(mk('B', 'raw', src), (mk('S', 'vars', o[2], shape, src),)))
                else:
                    parts.append(it(mk('once', op_item(o, shape))))
            if len(parts) == 1:
                return parts[0]
            return it(mk('chain', tuple(parts), 0))
    return it(mk('B', shape, v))


def op_item(o, shape):
    if o[0] == 'push':
        return o[1]
    if shape == 'kv':
        return tup(o[1], o[2])
    if shape == 'v':
        return o[2]
    return o[1]


def to_it(I, st, v, ty, shape=None):
    """[(state, iterator)] for a value that can be iterated over."""
    if v.tag == 'agg' and v.a[0] in I.nexts:
        return [(st, it(mk('user', v, I.nexts[v.a[0]])))]
    if v.tag == 'agg' and v.a[0] in I.intos:
        out = []
        for k, s, r in I.exec_body(I.intos[v.a[0]], 'I%d' % v.n, st, [v]):
            if k != 'ret':
                from interp import Unproven
                raise Unproven('an iterator which may not be made')
            out += to_it(I, s, r, '')
        return out
    if v.tag == 'mref':
        w = I.load(st, v)
        if w.tag == 'agg' and w.a[0] in I.nexts or w.tag == 'it' or is_range(w) or w.tag in ('hv',) and not kind_of(ty):
            return [(st, it(mk('via', v)))]
        if strip_mutref(ty):
            return [(st, mut_it(I, st, v, kind_of(ty)))]
        v = w
    if v.tag == 'it':
        return [(st, v)]
    if is_range(v):
        return [(st, range_it(v))]
    k = kind_of(ty)
    if v.tag in ('empty',):
        k = v.a[0]
    if v.tag in ('arr', 'rep', 'slice'):
        k = 'seq'
    if k == 'opt' or (v.tag == 'agg' and v.a[0] in (OPT,)):
        return [(s, it(mk('once', fld(v, 'Some', '0'))) if b else it(mk('chain', (), 0)))
                for s, b in I.branch(st, f_is(v, 'Some'))]
    if v.tag == 'agg' and v.a[0] == RES:
        return [(s, it(mk('once', fld(v, 'Ok', '0'))) if b else it(mk('chain', (), 0)))
                for s, b in I.branch(st, f_is(v, 'Ok'))]
    if k in SHAPES:
        return [(st, coll_it(v, shape or SHAPES[k]))]
    return [(st, it(mk('B', shape or 'any', v)))]


def mut_it(I, st, v, kind):
    n = length(I.load(st, v))
    if v.tag == 'mref' and is_c(n) and n.a[0] <= 256:
        # an array: references to its elements, one by one
        return it(mk('B', 'seq', mk('arr', tuple(mref(v.a[0], v.a[1], v.a[2] + (('at', c(i)),)) for i in range(n.a[0])))))
    return it(mk('mut', v, kind or '?'))


def strip_mutref(ty):
    return ty.strip().startswith('&mut')


def is_range(v):
    return v.tag == 'agg' and v.a[0] in RANGES


def range_it(v):
    lo, hi = fld(v, None, 'start'), fld(v, None, 'end')
    if is_c(lo) and is_c(hi):
        return it(mk('B', 'seq', mk('arr', tuple(c(i) for i in range(lo.a[0], min(hi.a[0], lo.a[0] + 300)))))
                  if hi.a[0] - lo.a[0] < 300 else mk('B', 'seq', mk('range', lo, hi)))
    if is_c(lo, 0) and hi.tag == 'len':
        return it(mk('B', 'ix', hi.a[0]))
    return it(mk('B', 'seq', mk('range', lo, hi)))


def stage(v, *s):
    return mk('it', v.a[0], v.a[1] + (mk('S', *s),), v.a[2])


def item(src, shape, i):
    """The element at a position: i is the generic index, or a term."""
    generic = i is mk('ix', src)
    if shape == 'ix':
        return i
    if shape in ('seq', 'any'):
        return mk('el', src) if generic and src.tag != 'range' else at(src, i)
    if shape == 'set':
        return mk('el', src) if generic else app('nth', src, i)
    k = mk('key', src) if generic else app('nthk', src, i)
    v = mk('val', src) if generic else app('nthv', src, i)
    return {'kv': tup(k, v), 'k': k, 'v': v}.get(shape, mk('el', src))


DROPPING = {'filter', 'filter_map', 'skip', 'skip_while', 'vars', 'flat', 'flat_map', 'step_by'}


def step(I, st, v, site, drop_to=None):
    """One step of an iterator: [(kind, state, iterator, element)], kind one of some, none, skip, part, panic…"""
    if v.tag != 'it':
        if is_range(v):
            v = range_it(v)
        else:
            o = app('next', v)
            return [('some' if b else 'none', s, app('rest', v), fld(o, 'Some', '0')) for s, b in I.branch(st, f_is(o, 'Some'))]
    base, stages, pos = v.a
    drops = any(s.a[0] in DROPPING for s in stages)
    if drops and base.tag == 'B' and is_c(pos, 0) and stages[0].a[0] == 'skip' and base.a[0] in SHAPES.values() and \
            not any(s.a[0] not in ('map', 'inspect') for s in stages[1:]) and not is_c(stages[0].a[1]):
        n, out = stages[0].a[1], []
        for s, b in I.branch(st, f_lt(n, length(base.a[1]))):
            if not b:
                out.append(('none', s, mk('it', base, stages, mk('done')), None))
                continue
            for status, s2, e2 in run_stages(I, s, item(base.a[1], base.a[0], n), stages[1:], None, site, None):
                out.append((status, s2, mk('it', base, stages, mk('rest', site)), e2))
        return out
    if drops and drop_to is None and base.tag == 'B' and pos.tag == 'c' and not is_c(length(base.a[1])):
        # search for the first element that is not dropped
        ref = mref(site, 'find', ())
        st = st.copy()
        st.env[(site, 'find')] = v
        outs = []
        for k, s, x in consume(I, st, ref, site + '~f', lambda s, e: [('goto', s, ('found', e))]):
            nv = mk('it', base, stages, mk('rest', site))
            s.env.pop((site, 'find'), None)
            if k == 'goto' and x == 'end':
                outs.append(('none', s, mk('it', base, stages, mk('done')), None))
            elif k == 'goto':
                outs.append(('some', s, nv, x[1]))
            else:
                outs.append((k, s, nv, x))
        return outs
    out = []
    for kind, s, nb, e, ix in base_step(I, st, base, pos, site, drop_to):
        nbase, npos = nb
        nv = mk('it', nbase, stages, npos)
        if kind != 'some':
            out.append((kind, s, nv, e))
            continue
        run = stages
        if ix is not None and ix.tag == 'c' and base.tag == 'B':
            src = base.a[1]
            run = inst_stages(stages, src, {mk('ix', src): ix, mk('el', src): at(src, ix), mk('key', src): app('nthk', src, ix),
                                            mk('val', src): app('nthv', src, ix)})
        for status, s2, e2 in run_stages(I, s, e, run, ix, site, npos):
            if status == 'some':
                out.append(('some', s2, nv, e2))
            elif status == 'stop':
                tok = generic_tok(nv)
                if tok is not None:
                    s2.mark(tok, 'cut')
                out.append(('none', s2, mk('it', nbase, stages, mk('done')), None))
            elif status == 'drop':
                tok = generic_tok(nv)
                if tok is not None:
                    out.append(('skip', s2, nv, (tok[0],)))
                elif drop_to is not None:
                    out.append(('skip', s2, nv, (drop_to,)))
                else:
                    out += step(I, s2, nv, site, drop_to)
            else:
                out.append((status, s2, nv, e2))
    return out


def inst_stages(stages, src, m):
    """Stages whose conditions refer to the elements of a source, for a certain element."""
    return tuple(mk('S', 'vars', subst(x.a[1], m), x.a[2], UNIT) if x.a[0] == 'vars' and x.a[3] is src else x for x in stages)


def generic_tok(v):
    if v.tag != 'it':
        return None
    if v.a[0].tag == 'chain':
        its, idx = v.a[0].a
        return generic_tok(its[idx]) if idx < len(its) else None
    if v.a[2].tag == 'g':
        return v.a[2].a[0]
    return None


def base_step(I, st, base, pos, site, drop_to=None):
    """[(kind, state, (base, pos), element, index)]"""
    g = base.tag
    if pos.tag == 'done':
        return [('none', st, (base, pos), None, None)]
    if g == 'chain':
        its, idx = base.a
        if idx >= len(its):
            return [('none', st, (base, pos), None, None)]
        cur = its[idx]
        gen = generic_tok(cur) is not None
        out = []
        for kind, s, nv, e in step(I, st, cur, site, drop_to):
            nb = mk('chain', its[:idx] + (nv,) + its[idx + 1:], idx)
            if kind == 'none':
                nb = mk('chain', its[:idx] + (nv,) + its[idx + 1:], idx + 1)
                if idx + 1 < len(its):
                    if gen:
                        out.append(('part', s, (nb, pos), (generic_tok(cur)[0],), None))
                    else:
                        out += base_step(I, s, nb, pos, site, drop_to)
                    continue
                out.append(('none', s, (nb, pos), None, None))
            else:
                out.append((kind, s, (nb, pos), e, None))
        return out
    if g == 'once':
        if is_c(pos, 0):
            return [('some', st, (base, c(1)), base.a[0], None)]
        return [('none', st, (base, mk('done')), None, None)]
    if g == 'gen':
        out = []
        npos = c(pos.a[0] + 1) if pos.tag == 'c' else pos
        for k, s, r in I.call_value(st, base.a[0], [], site + '>g'):
            if k != 'ret':
                out.append((k, s, (base, pos), r, None))
                continue
            r = I.load(s, r)
            for s2, b in I.branch(s, f_is(r, 'Some')):
                if b:
                    out.append(('some', s2, (base, npos), fld(r, 'Some', '0'), pos))
                else:
                    out.append(('none', s2, (base, mk('done')), None, None))
        return out
    if g == 'user':
        # an iterator defined by the crate
        out = []
        cell = (site + '~u', 'self')
        st = st.copy()
        st.env[cell] = base.a[0]
        for k, s, r in I.exec_body(base.a[1], site + '>u', st, [mref(cell[0], cell[1], ())]):
            nb = mk('user', s.env.pop(cell), base.a[1])
            if k != 'ret':
                out.append((k, s, (nb, pos), r, None))
                continue
            r = I.load(s, r)
            for s2, b in I.branch(s, f_is(r, 'Some')):
                out.append(('some' if b else 'none', s2, (nb, pos), fld(r, 'Some', '0') if b else None, None))
        return out
    if g == 'via':
        out = []
        inner = I.load(st, base.a[0])
        user = inner.tag == 'agg' and inner.a[0] in I.nexts
        if user:
            inner = it(mk('user', inner, I.nexts[inner.a[0]]))
        for kind, s, nv, e in step(I, st, inner, site, drop_to):
            if user:
                nv = nv.a[0].a[0]
            I.store(s, base.a[0], nv)
            out.append((kind, s, (base, pos), e, None))
        return out
    if g == 'mut':
        o = app('next', base, pos)
        out = []
        for s, b in I.branch(st, f_is(o, 'Some')):
            if b:
                s.note('iter_mut', site)
                I.store(s, base.a[0], mk('mutated', I.load(s, base.a[0])))
            out.append(('some' if b else 'none', s, (base, mk('rest', site)), fld(o, 'Some', '0'), None))
        return out
    if g == 'B':
        shape, src = base.a
        if pos.tag == 'g':
            tok, n = pos.a
            if n == 0:
                a, b = st.copy(), st
                a.mark(tok, 'exh')
                out = [('none', a, (base, mk('done')), None, None)] if st.marks.get(tok) != 1 else []
                for s in I.assume(b, f_empty(src), False) if st.marks.get(tok) != 'exh' else ():
                    s.mark(tok, 1)
                    out.append(('some', s, (base, mk('g', tok, 1)), item(src, shape, mk('ix', src)), mk('ix', src)))
                return out
            o = app('furthernext', src, c(n))
            out = []
            for s, b in I.branch(st, f_is(o, 'Some')):
                s.mark(tok, n + 1 if b else 'cut')
                out.append(('some' if b else 'none', s, (base, mk('g', tok, n + 1) if b else mk('done')),
                            fld(o, 'Some', '0') if b else None, None))
            return out
        if pos.tag == 'c':
            n = pos.a[0]
            out = []
            for s, b in I.branch(st, f_lt(c(n), length(src))):
                if b:
                    out.append(('some', s, (base, c(n + 1)), item(src, shape, c(n)), c(n)))
                else:
                    out.append(('none', s, (base, mk('done')), None, None))
            return out
    o = app('next', base, pos)
    return [('some' if b else 'none', s, (base, mk('rest', site)), fld(o, 'Some', '0'), None)
            for s, b in I.branch(st, f_is(o, 'Some'))]


def run_stages(I, st, e, stages, ix, site, npos):
    """[(some/drop/stop/other, state, element)]"""
    work = [(st, e, ix)]
    for n, sg in enumerate(stages):
        k = sg.a[0]
        nxt = []
        lab = site + '~s%d' % n
        for s, e, ix in work:
            if isinstance(s, tuple):
                nxt.append((s, e, ix))
                continue
            if k == 'map':
                for o, s2, v in I.call_value(s, sg.a[1], [e], lab):
                    nxt.append((s2, v, ix) if o == 'ret' else ((o, s2), v, None))
            elif k in ('filter', 'take_while', 'skip_while', 'inspect'):
                for o, s2, v in I.call_value(s, sg.a[1], [e], lab):
                    if o != 'ret':
                        nxt.append(((o, s2), v, None))
                        continue
                    if k == 'inspect':
                        nxt.append((s2, e, ix))
                        continue
                    f = I.load(s2, v)
                    if k == 'skip_while':
                        f = f_not(mk('skipped', f, lab))
                    for s3, b in I.branch(s2, f):
                        if b:
                            nxt.append((s3, e, ix if k == 'take_while' else None))
                        else:
                            nxt.append((('stop' if k == 'take_while' else 'drop', s3), None, None))
            elif k in ('filter_map', 'map_while', 'flat_map', 'flat'):
                outs = I.call_value(s, sg.a[1], [e], lab) if k != 'flat' else [('ret', s, e)]
                for o, s2, v in outs:
                    if o != 'ret':
                        nxt.append(((o, s2), v, None))
                        continue
                    v = I.load(s2, v)
                    if k in ('flat', 'flat_map') and not (v.tag == 'agg' and v.a[0] in (OPT, RES)) and sg.a[-1] not in ('opt',):
                        nxt.append((s2, app('flat', v), None))
                        continue
                    pos = 'Ok' if v.tag == 'agg' and v.a[0] == RES else 'Some'
                    for s3, b in I.branch(s2, f_is(v, pos)):
                        if b:
                            nxt.append((s3, fld(v, pos, '0'), ix if k == 'map_while' else None))
                        else:
                            nxt.append((('stop' if k == 'map_while' else 'drop', s3), None, None))
            elif k == 'enum':
                i = ix if ix is not None else mk('eidx', e)
                nxt.append((s, tup(i, e), ix))
            elif k == 'enumr':
                i = ix if ix is not None else mk('eidx', e)
                nxt.append((s, tup(e, binop('Add', sg.a[1], i, 'usize')), ix))
            elif k == 'zip':
                nxt += zip_stage(I, s, e, ix, sg.a[1], lab)
            elif k == 'zipl':
                for s2, y, i2 in zip_stage(I, s, e, ix, sg.a[1], lab):
                    if isinstance(s2, tuple):
                        nxt.append((s2, y, i2))
                    else:
                        nxt.append((s2, tup(fld(y, None, '1'), fld(y, None, '0')), i2))
            elif k in ('take', 'skip'):
                f = f_lt(ix, sg.a[1]) if ix is not None else mk('within', e, sg.a[1])
                for s2, b in I.branch(s, f):
                    if b == (k == 'take'):
                        nxt.append((s2, e, ix if k == 'take' else None))
                    else:
                        nxt.append((('stop' if k == 'take' else 'drop', s2), None, None))
            elif k == 'step_by':
                for s2, b in I.branch(s, mk('stepped', e, sg.a[1])):
                    nxt.append((s2, e, None) if b else (('drop', s2), None, None))
            elif k == 'rev':
                nxt.append((s, e, None))
            elif k == 'vars':
                for fs, ops in sg.a[1]:
                    ss = [s.copy()]
                    for f, p in sorted(fs, key=lambda x: x[0].n):
                        ss = [b for a in ss for b in I.assume(a, f, p)]
                    for s2 in ss:
                        if not ops:
                            nxt.append((('drop', s2), None, None))
                        elif len(ops) == 1 and ops[0][0] in ('push', 'ins'):
                            one = all(len(o) == 1 for _, o in sg.a[1])
                            nxt.append((s2, op_item(ops[0], sg.a[2]), ix if one else None))
                        else:
                            nxt.append((s2, app('oneof', *[op_item(o, sg.a[2]) for o in ops if o[0] in ('push', 'ins')]), None))
            else:
                nxt.append((s, app('stage:' + k, e), None))
        work = nxt
    out = []
    for s, e, ix in work:
        if isinstance(s, tuple):
            out.append((s[0], s[1], e))
        else:
            out.append(('some', s, e))
    return out


def zip_stage(I, s, e, ix, other, lab):
    """Pairs an element with the one at the same position of another iterator."""
    if other.tag == 'it' and other.a[2] is c(0) and ix is not None and other.a[0].tag == 'B' and \
            not any(x.a[0] in DROPPING | {'rev'} and not (x.a[0] == 'vars' and all(len(o) == 1 for _, o in x.a[1])) for x in other.a[1]):
        shape, src = other.a[0].a
        out = []
        for s2, b in I.branch(s, f_lt(ix, length(src))):
            if not b:
                out.append((('stop', s2), None, None))
                continue
            y = at(src, ix) if shape in ('seq', 'any', 'raw') else ix if shape == 'ix' else item(src, shape, ix)
            m = {mk('el', src): at(src, ix), mk('ix', src): ix}
            stages = inst_stages(other.a[1], src, m)
            for st3, s3, y2 in run_stages(I, s2, y, stages, ix, lab + 'z', None):
                if st3 == 'some':
                    out.append((s3, tup(e, y2), ix))
                else:
                    out.append(((st3, s3), y2, None))
        return out
    if other.tag == 'it' and other.a[0].tag == 'repeat':
        return [(s, tup(e, other.a[0].a[0]), ix)]
    o = app('zipped', other, e)
    return [(s2, tup(e, fld(o, 'Some', '0')), None) if b else (('stop', s2), None, None)
            for s2, b in I.branch(s, f_is(o, 'Some'))]


def consume(I, st, ref, lid, body):
    """Runs an iterator, kept in a variable, to its end: body(state, element) gives outcomes 'back' or others.
    Outcome ('goto', state, 'end') when there are no more elements."""
    sub = (lid + '>', lid + '~', lid + '^')
    v = I.load(st, ref)
    if v.tag == 'it' and v.a[0].tag == 'user' and ref.a[0] == lid and (lid, 'user') not in st.env:
        # the state of an iterator of the crate in a variable of its own, whose parts change one by one
        st = st.copy()
        st.env[(lid, 'user')] = v.a[0].a[0]
        v = mk('it', mk('via', mref(lid, 'user', ())), v.a[1], v.a[2])
        I.store(st, ref, v)
    if v.tag == 'it':
        for n, sg in enumerate(v.a[1]):
            if sg.a[0] in ('flat', 'flat_map') and sg.a[-1] != 'opt':
                rest = v.a[1][n + 1:]
                if any(x.a[0] not in ('map', 'filter', 'filter_map', 'inspect', 'flat', 'flat_map', 'vars') for x in rest):
                    break
                outer = v.a[1][:n] + ((mk('S', 'map', sg.a[1]),) if sg.a[0] == 'flat_map' else ())
                I.store(st, ref, mk('it', v.a[0], outer, v.a[2]))
                return consume(I, st, ref, lid, flattened(I, lid + '~in', rest, '' if sg.a[-1] == 'x' else sg.a[-1], body))

    def prune(s):
        if any(k[0].startswith(sub) for k in s.env):
            s = s.copy()
            s.env = {k: v for k, v in s.env.items() if not k[0].startswith(sub)}
        return s

    def runner(s):
        outs = []
        for kind, s2, nv, e in step(I, s.copy(), I.load(s, ref), lid, lid):
            if kind not in ('panic', 'div'):
                I.store(s2, ref, nv)
            if kind == 'some':
                outs += body(s2, e)
            elif kind == 'none':
                outs.append(('goto', s2, 'end'))
            else:
                outs.append((kind, s2, e))
        return outs
    return I.run_loop(st, runner, lid, prune)


def flattened(I, lid, rest, ty, body):
    """The body of a loop over the items an iterator is flattened into."""
    from interp import Unproven

    def run(s, e):
        outs = []
        for s2, x in to_it(I, s, I.load(s, e), ty):
            if x.tag != 'it':
                raise Unproven('flattening of a value')
            s2 = s2.copy()
            s2.env[(lid, 'it')] = mk('it', x.a[0], x.a[1] + tuple(rest), x.a[2])
            for k, s3, p in consume(I, s2, mref(lid, 'it', ()), lid, body):
                s3.env.pop((lid, 'it'), None)
                outs.append(('back', s3, None) if k == 'goto' and p == 'end' else (k, s3, p))
        return outs
    return run


def as_ref(I, st, v, site, ty):
    """[(state, reference to an iterator)] for an iterator given by value or by reference."""
    if v.tag == 'mref' and I.load(st, v).tag == 'it':
        return [(st, v)]
    out = []
    if v.tag == 'mref' and is_range(I.load(st, v)):
        I.store(st, v, range_it(I.load(st, v)))
        return [(st, v)]
    for s, x in to_it(I, st, v, ty):
        s = s.copy()
        s.env[(site, 'it')] = x
        out.append((s, mref(site, 'it', ())))
    return out


def fin(outs, site, conv):
    """Outcomes of a consumed iterator as outcomes of the call; conv(state, payload) gives the result."""
    res = []
    for k, s, x in outs:
        if k == 'goto':
            v = conv(s, x)
            for kk in [kk for kk in s.env if kk[0] == site or kk[0].startswith(site + '~')]:
                del s.env[kk]
            res.append(('ret', s, v))
        else:
            res.append((k, s, x))
    return res


def argty(t, i):
    try:
        return t[6][i]
    except (IndexError, TypeError):
        return ''


def retty(t):
    try:
        return t[7] or ''
    except (IndexError, TypeError):
        return ''


@model('IntoIterator::into_iter')
def m_into_iter(I, st, site, cal, args, t):
    v = args[0]
    ty = cal.get('selfty') or argty(t, 0)
    w = I.load(st, v)
    if w.tag == 'agg' and w.a[0] in I.nexts:
        return ret(st, v)
    return [('ret', s, x) for s, x in to_it(I, st, v, ty)]


@model('Iterator::next')
def m_next(I, st, site, cal, args, t):
    ref = args[0]
    v = I.load(st, ref)
    out = []
    for kind, s, nv, e in step(I, st, v, site):
        if kind in ('some', 'none', 'skip', 'part') and ref.tag == 'mref':
            I.store(s, ref, nv)
        if kind == 'some':
            out.append(('ret', s, some(e)))
        elif kind == 'none':
            out.append(('ret', s, none()))
        else:
            out.append((kind, s, e))
    return out


def adaptor(*names):
    def m(I, st, site, cal, args, t):
        name = cal['cn'].split('::')[-1]
        ty = cal.get('selfty') or argty(t, 0)
        out = []
        for s, v in to_it(I, st, args[0], ty):
            if v.tag != 'it':
                return None
            if name in ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'map_while', 'inspect'):
                out.append(('ret', s, stage(v, name, args[1])))
            elif name == 'flat_map':
                out.append(('ret', s, stage(v, 'flat_map', args[1], flat_map_ty(cal))))
            elif name == 'flatten':
                a = ty
                out.append(('ret', s, stage(v, 'flat', 'opt' if flat_opt(ty) else 'x')))
            elif name == 'enumerate':
                out.append(('ret', s, stage(v, 'enum')))
            elif name in ('take', 'skip', 'step_by'):
                n = I.load(s, args[1])
                if name == 'skip' and is_c(n, 0):
                    out.append(('ret', s, v))
                else:
                    out.append(('ret', s, stage(v, name, n)))
            elif name in ('cloned', 'copied', 'fuse', 'into_iter', 'peekable', 'by_ref'):
                out.append(('ret', s, v))
            elif name == 'rev':
                b = v.a[0]
                n = length(b.a[1]) if b.tag == 'B' and b.a[0] == 'seq' else None
                if n is not None and is_c(n) and n.a[0] <= 256 and is_c(v.a[2], 0) and all(x.a[0] == 'map' for x in v.a[1]):
                    v = mk('it', mk('B', 'seq', mk('arr', tuple(at(b.a[1], c(i)) for i in reversed(range(n.a[0]))))), v.a[1], v.a[2])
                    out.append(('ret', s, v))
                else:
                    out.append(('ret', s, stage(v, 'rev')))
            elif name == 'zip' and args[1].tag == 'agg' and args[1].a[0].endswith('::RangeFrom'):
                out.append(('ret', s, stage(v, 'enumr', fld(args[1], None, 'start'))))
            elif name in ('zip', 'chain'):
                at_ = (cal.get('targs') or ['', ''])[1]
                for s2, w in to_it(I, s, args[1], at_):
                    if name == 'zip':
                        b = v.a[0]
                        if b.tag == 'B' and b.a[0] == 'range_from' or b.tag == 'count':
                            out.append(('ret', s2, stage(w, 'enum')))
                        else:
                            out.append(('ret', s2, stage(v, 'zip', w)))
                    else:
                        a = v.a[0].a[0] if v.a[0].tag == 'chain' and not v.a[1] and v.a[0].a[1] == 0 else (v,)
                        b = w.a[0].a[0] if w.a[0].tag == 'chain' and not w.a[1] and w.a[0].a[1] == 0 else (w,)
                        out.append(('ret', s2, it(mk('chain', tuple(a) + tuple(b), 0))))
        return out
    for n in names:
        MODELS['Iterator::' + n] = m


def flat_map_ty(cal):
    u = (cal.get('targs') or ['', ''])[1]
    return 'opt' if re.match(r'(std|core)::option::Option<', u) else u or 'x'


def flat_opt(ty):
    return 'Option' in ty


adaptor('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'map_while', 'inspect', 'flat_map', 'flatten', 'enumerate',
        'take', 'skip', 'step_by', 'cloned', 'copied', 'fuse', 'rev', 'zip', 'chain', 'peekable')
MODELS['Iterator::by_ref'] = lambda I, st, site, cal, args, t: ret(st, args[0])


@model('Peekable::peek')
def m_peek(I, st, site, cal, args, t):
    v = I.load(st, args[0])
    src, pos = ahead(v)
    if src is None or pos.tag not in ('c', 'g', 'done'):
        return None
    if pos.tag == 'c' or pos.tag == 'done':
        e = item(src, v.a[0].a[0], pos) if pos.tag == 'c' else None
    elif pos.a[1] < 2:
        ix = mk('ix', src)
        e = item(src, v.a[0].a[0], mk('add', ix, c(1)) if pos.a[1] else ix)
    else:
        return None
    return [('ret', s, none() if b else some(e)) for s, b in I.branch(st, f_empty(v))]


@model('sources::once::once', 'once::once', 'iter::once')
def m_once(I, st, site, cal, args, t):
    return ret(st, it(mk('once', args[0])))


@model('empty::empty', 'iter::empty')
def m_empty(I, st, site, cal, args, t):
    return ret(st, it(mk('chain', (), 0)))


@model('repeat::repeat', 'iter::repeat')
def m_repeat(I, st, site, cal, args, t):
    return ret(st, it(mk('repeat', args[0])))


@model('from_fn::from_fn', 'iter::from_fn')
def m_fromfn(I, st, site, cal, args, t):
    return ret(st, it(mk('gen', args[0])))


@model('Iterator::all', 'Iterator::any')
def m_all(I, st, site, cal, args, t):
    isall = cal['cn'].endswith('::all')
    out = []
    for s, ref in as_ref(I, st, args[0], site, cal.get('selfty') or ''):
        def body(s, e):
            r = []
            for k, s2, v in I.call_value(s, args[1], [e], site + '~b'):
                if k != 'ret':
                    r.append((k, s2, v))
                    continue
                for s3, b in I.branch(s2, I.load(s2, v)):
                    r.append(('back', s3, None) if b == isall else ('goto', s3, 'stop'))
            return r
        out += fin(consume(I, s, ref, site, body), site, lambda s, x: c((x == 'end') == isall))
    return out


@model('Iterator::find', 'Iterator::find_map', 'Iterator::position')
def m_find(I, st, site, cal, args, t):
    name = cal['cn'].split('::')[-1]
    out = []
    for s, ref in as_ref(I, st, args[0], site, cal.get('selfty') or ''):
        cur = I.load(s, ref)
        if name != 'position' and generic_tok(cur) is not None and ref.a[0] != site:
            # the next of the items left of an iterator over which a loop around runs
            kind = 'filter' if name == 'find' else 'filter_map'
            for k, s2, nv, e in step(I, s.copy(), stage(cur, kind, args[1]), site):
                if k in ('some', 'none', 'skip', 'part'):
                    I.store(s2, ref, mk('it', nv.a[0], nv.a[1][:-1], nv.a[2]))
                out.append(('ret', s2, some(e)) if k == 'some' else ('ret', s2, none()) if k == 'none' else (k, s2, e))
            continue
        if name == 'position':
            s.env[(site, 'n')] = c(0)

        def body(s, e):
            r = []
            for k, s2, v in I.call_value(s, args[1], [e], site + '~b'):
                if k != 'ret':
                    r.append((k, s2, v))
                    continue
                v = I.load(s2, v)
                for s3, b in I.branch(s2, f_is(v, 'Some') if name == 'find_map' else v):
                    if b:
                        r.append(('goto', s3, ('found', fld(v, 'Some', '0') if name == 'find_map' else e)))
                    else:
                        if name == 'position':
                            s3.env[(site, 'n')] = binop('Add', s3.env[(site, 'n')], c(1), 'usize')
                        r.append(('back', s3, None))
            return r

        def conv(s, x):
            if x == 'end':
                return none()
            if name == 'position':
                return some(s.env[(site, 'n')])
            return some(x[1])
        # the element found is kept in a variable, for it to be renamed along with the state
        out += fin(keep(I, consume, s, ref, site, body), site, conv)
    return out


def keep(I, consume, s, ref, site, body):
    """Consumes with payloads that hold terms passed through a variable."""
    def body2(s, e):
        r = []
        for k, s2, x in body(s, e):
            if k == 'goto' and isinstance(x, tuple):
                s2.env[(site, 'pay')] = x[1]
                r.append((k, s2, x[0]))
            else:
                r.append((k, s2, x))
        return r
    res = []
    for k, s2, x in consume(I, s, ref, site, body2):
        if k == 'goto' and x != 'end':
            res.append((k, s2, (x, s2.env.pop((site, 'pay')))))
        else:
            res.append((k, s2, x))
    return res


def put(I, s, acc, e, kind):
    """Adds an element to a collection."""
    v = I.load(s, acc)
    if kind == 'map':
        e = I.load(s, e)
        k, x = I.load(s, fld(e, None, '0')), fld(e, None, '1')
        I.store(s, acc, cop(v, 'ins', k, x))
    elif kind == 'set':
        I.store(s, acc, cop(v, 'ins', I.deep(s, e), UNIT_))
    else:
        I.store(s, acc, cop(v, 'push', I.deep(s, e)))


def collect_into(I, st, itv, site, kind, wrap=None):
    out = []
    for s, ref in as_ref(I, st, itv, site, ''):
        v0 = I.load(s, ref)
        # the identity on a fresh iterator over the same kind of collection
        if wrap is None and v0.tag == 'it' and not v0.a[1] and v0.a[0].tag == 'B' and v0.a[2] is c(0) and \
                v0.a[0].a[0] == SHAPES.get(kind):
            s.env.pop((site, 'it'), None)
            out.append(('ret', s, v0.a[0].a[1]))
            continue
        s.env[(site, 'acc')] = empty_coll(kind)
        acc = mref(site, 'acc', ())

        def body(s, e):
            if wrap is None:
                put(I, s, acc, e, kind)
                return [('back', s, None)]
            e = I.load(s, e)
            r = []
            good = 'Ok' if wrap == 'res' else 'Some'
            for s2, b in I.branch(s, f_is(e, good)):
                if b:
                    put(I, s2, acc, fld(e, good, '0'), kind)
                    r.append(('back', s2, None))
                else:
                    r.append(('goto', s2, ('bad', fld(e, 'Err', '0') if wrap == 'res' else UNIT_)))
            return r

        def conv(s, x):
            if x == 'end':
                v = s.env[(site, 'acc')]
                return v if wrap is None else ok(v) if wrap == 'res' else some(v)
            return err(x[1]) if wrap == 'res' else none()
        out += fin(keep(I, consume, s, ref, site, body), site, conv)
    return out


@model('Iterator::collect', 'FromIterator::from_iter')
def m_collect(I, st, site, cal, args, t):
    ta = cal.get('targs') or []
    if cal['cn'].endswith('collect'):
        ty = ta[1] if len(ta) > 1 else retty(t)
        sty = cal.get('selfty') or ''
    else:
        ty = cal.get('selfty') or retty(t)
        sty = argty(t, 0)
    wrap = None
    if ty.startswith(('std::result::Result<', 'core::result::Result<')):
        wrap, ty = 'res', type_args(ty)[0]
    elif ty.startswith(('std::option::Option<', 'core::option::Option<')):
        wrap, ty = 'opt', type_args(ty)[0]
    kind = kind_of(ty)
    if ty == '()':
        kind = 'seq'
    if kind not in ('seq', 'map', 'set'):
        return None
    out = []
    for s, v in to_it(I, st, args[0], sty):
        out += collect_into(I, s, v, site, kind, wrap)
    return out


def own_keys(v):
    """Whether the items put into a collection have keys of their own, so that their order makes no difference to a map."""
    b, ops = coll_ops(v)
    return b.tag == 'empty' and all(o[0] == 'each' for o in ops) and one_each(
        ops, lambda o: o[1].a[2][0][1] if o[0] == 'push' and o[1].tag == 'agg' and o[1].a[2] else None)


def one_each(ops, key=lambda o: o[1] if o[0] == 'ins' else None):
    """Whether the items put into a map or set one by one are all different, so that it has each of them."""
    if any(o[0] != 'each' for o in ops):
        return len(ops) < 2
    seen = []
    for _, src, alts in ops:
        for fs, items in alts:
            for o in items:
                k = key(o)
                ps = k is not None and parts_of_its_own(k, src)
                if not ps:
                    return False
                if any(not ps & ps2 or not any((f, not p) in fs2 for f, p in fs) for ps2, fs2 in seen):
                    return False
                seen.append((ps, fs))
    return True


def parts_of_its_own(k, src, path=()):
    """The parts of a term which have another value for each element of a collection."""
    if k.tag == 'agg':
        return {x for n, y in k.a[2] for x in parts_of_its_own(y, src, path + (k.a[0], k.a[1], n))}
    return {(path, k)} if distinct(k, src) else set()


@model('Extend::extend')
def m_extend(I, st, site, cal, args, t):
    acc = args[0]
    kind = kind_of(cal.get('selfty') or '')
    if acc.tag != 'mref' or kind not in ('seq', 'map', 'set'):
        return None
    ta = cal.get('targs') or []
    out = []
    src = args[1]
    if kind == 'map' and src.tag == 'app' and src.a[0].startswith('perm:') and own_keys(src.a[1][0]):
        src = src.a[1][0]
    for s, v in to_it(I, st, src, ta[2] if len(ta) > 2 else argty(t, 1)):
        for s, ref in as_ref(I, s, v, site, ''):
            def body(s, e):
                put(I, s, acc, e, kind)
                return [('back', s, None)]
            out += fin(consume(I, s, ref, site, body), site, lambda s, x: UNIT_)
    return out


@model('Iterator::for_each')
def m_foreach(I, st, site, cal, args, t):
    out = []
    for s, ref in as_ref(I, st, args[0], site, cal.get('selfty') or ''):
        s.env[(site, 'fn')] = args[1]
        f = mref(site, 'fn', ()) if args[1].tag == 'clos' else args[1]

        def body(s, e):
            return [('back', s2, None) if k == 'ret' else (k, s2, v)
                    for k, s2, v in I.call_value(s, f, [e], site + '~b')]
        out += fin(consume(I, s, ref, site, body), site, lambda s, x: UNIT_)
    return out


def try_out(I, s, v, ty):
    """[(state, 'go'|'stop', value)] of a value of a Try type."""
    v = I.load(s, v)
    path = v.a[0] if v.tag == 'agg' else RES if 'Result<' in ty[:30] else OPT if 'Option<' in ty[:30] else CF
    good = {RES: 'Ok', OPT: 'Some', CF: 'Continue'}.get(path, 'Ok')
    return path, good, I.branch(s, f_is(v, good))


def try_bad(path, v):
    if path == OPT:
        return none()
    bad = 'Err' if path == RES else 'Break'
    return agg(path, bad, (('0', fld(v, bad, '0')),))


@model('Iterator::try_for_each', 'Iterator::try_fold', 'Iterator::fold')
def m_tryfold(I, st, site, cal, args, t):
    name = cal['cn'].split('::')[-1]
    rt = retty(t)
    out = []
    for s, ref in as_ref(I, st, args[0], site, cal.get('selfty') or ''):
        fv = args[1] if name == 'try_for_each' else args[2]
        s.env[(site, 'fn')] = fv
        f = mref(site, 'fn', ()) if fv.tag == 'clos' else fv
        s.env[(site, 'acc')] = UNIT_ if name == 'try_for_each' else args[1]

        def body(s, e):
            r = []
            a = [e] if name == 'try_for_each' else [s.env[(site, 'acc')], e]
            for k, s2, v in I.call_value(s, f, a, site + '~b'):
                if k != 'ret':
                    r.append((k, s2, v))
                    continue
                if name == 'fold':
                    s2.env[(site, 'acc')] = v
                    r.append(('back', s2, None))
                    continue
                v = I.load(s2, v)
                path, good, bs = try_out(I, s2, v, rt)
                for s3, b in bs:
                    if b:
                        if name == 'try_fold':
                            s3.env[(site, 'acc')] = fld(v, good, '0')
                        r.append(('back', s3, None))
                    else:
                        r.append(('goto', s3, ('stop', try_bad(path, v))))
            return r

        def conv(s, x):
            if x == 'end':
                v = s.env[(site, 'acc')]
                if name == 'fold':
                    return v
                path = RES if 'Result<' in rt[:30] else OPT if 'Option<' in rt[:30] else CF
                return agg(path, {RES: 'Ok', OPT: 'Some'}.get(path, 'Continue'), (('0', v),))
            return x[1]
        out += fin(keep(I, consume, s, ref, site, body), site, conv)
    return out


@model('Iterator::count', 'Iterator::last')
def m_count(I, st, site, cal, args, t):
    name = cal['cn'].split('::')[-1]
    out = []
    for s, ref in as_ref(I, st, args[0], site, cal.get('selfty') or ''):
        s.env[(site, 'n')] = c(0) if name == 'count' else none()

        def body(s, e):
            s.env[(site, 'n')] = binop('Add', s.env[(site, 'n')], c(1), 'usize') if name == 'count' else some(e)
            return [('back', s, None)]
        out += fin(consume(I, s, ref, site, body), site, lambda s, x: s.env[(site, 'n')])
    return out


@model('Iterator::partition')
def m_partition(I, st, site, cal, args, t):
    ta = cal.get('targs') or []
    kind = kind_of(ta[1] if len(ta) > 1 else '')
    if kind not in ('seq', 'set', 'map'):
        return None
    out = []
    for s, ref in as_ref(I, st, args[0], site, cal.get('selfty') or ''):
        s.env[(site, 'a')] = s.env[(site, 'b')] = empty_coll(kind)

        def body(s, e):
            r = []
            for k, s2, v in I.call_value(s, args[1], [e], site + '~b'):
                if k != 'ret':
                    r.append((k, s2, v))
                    continue
                for s3, b in I.branch(s2, I.load(s2, v)):
                    put(I, s3, mref(site, 'a' if b else 'b', ()), e, kind)
                    r.append(('back', s3, None))
            return r
        out += fin(consume(I, s, ref, site, body), site, lambda s, x: tup(s.env[(site, 'a')], s.env[(site, 'b')]))
    return out


@model('Iterator::unzip')
def m_unzip(I, st, site, cal, args, t):
    ta = cal.get('targs') or []
    kinds = [kind_of(x) for x in ta[-2:]]
    if any(k not in ('seq', 'set') for k in kinds):
        return None
    out = []
    for s, ref in as_ref(I, st, args[0], site, cal.get('selfty') or ''):
        s.env[(site, 'a')], s.env[(site, 'b')] = empty_coll(kinds[0]), empty_coll(kinds[1])

        def body(s, e):
            e = I.load(s, e)
            put(I, s, mref(site, 'a', ()), fld(e, None, '0'), kinds[0])
            put(I, s, mref(site, 'b', ()), fld(e, None, '1'), kinds[1])
            return [('back', s, None)]
        out += fin(consume(I, s, ref, site, body), site, lambda s, x: tup(s.env[(site, 'a')], s.env[(site, 'b')]))
    return out


@model('Iterator::nth')
def m_nth(I, st, site, cal, args, t):
    v = I.load(st, args[0])
    i = I.load(st, args[1])
    if v.tag == 'it' and not v.a[1] and v.a[2] is c(0) and v.a[0].tag == 'B' and v.a[0].a[0] in ('seq', 'any'):
        I.store(st, args[0], mk('it', v.a[0], (), mk('rest', site)))
        return ret(st, app('get', v.a[0].a[1], i))
    return None


# ---------------------------------------------------------------- collections

COLLS = {'BTreeMap', 'BTreeSet', 'HashMap', 'HashSet', 'Vec', 'VecDeque', '[]', '[;]', 'Confined', 'IndexMap', 'IndexSet',
         'LinkedList', 'slice', 'array', 'String', 'str'}


def opt_branch(I, st, o):
    if o.tag == 'ite':
        return [x for s, b in I.branch(st, o.a[0]) for x in opt_branch(I, s, o.a[1] if b else o.a[2])]
    return [('ret', st, o)]


def coll_method(I, st, site, cal, args, t):
    cn = cal['cn']
    name = cn.split('::')[-1]
    ty = argty(t, 0) if args else retty(t)
    selfty = cal.get('selfty') or ty
    kind = kind_of(selfty) or kind_of(ty)
    conf = cn.split('::')[-2] == 'Confined'
    if name in ('new', 'with_capacity', 'new_in', 'with_hasher', 'with_capacity_and_hasher') and (
            not args or name.startswith('with') or name == 'new_in' and len(args) == 1):
        k = kind_of(selfty) or kind_of(retty(t))
        return ret(st, empty_coll(k)) if k in ('seq', 'map', 'set') else None
    if not args:
        return None
    ref = args[0]
    v = I.load(st, ref)
    mut = ref.tag == 'mref'
    a1 = I.load(st, args[1]) if len(args) > 1 else None
    if v.tag == 'empty':
        kind = v.a[0]
    if name == 'iter':
        return [('ret', s, x) for s, x in to_it(I, st, v, ty if kind_of(ty) else selfty)]
    if name in ('iter_mut', 'values_mut'):
        return ret(st, mut_it(I, st, ref, kind))
    if name == 'into_iter':
        return [('ret', s, x) for s, x in to_it(I, st, ref, ty if kind_of(ty) else selfty)]
    if name in ('keys', 'into_keys'):
        return ret(st, coll_it(v, 'k'))
    if name in ('values', 'into_values'):
        return ret(st, coll_it(v, 'v'))
    if name in ('len', 'len_u8', 'len_u16', 'len_u32'):
        return ret(st, length(v))
    if name == 'is_empty':
        return ret(st, f_empty(v))
    if name in ('reserve', 'shrink_to_fit', 'reserve_exact'):
        return ret(st, UNIT_)
    if name in ('as_slice', 'as_mut_slice', 'to_vec', 'into_vec', 'as_ref', 'into_boxed_slice', 'as_bytes', 'as_str', 'into_bytes',
                'to_owned', 'release', 'into_inner', 'as_unconfined', 'to_inner', 'as_inner', 'clone'):
        return ret(st, ref if name == 'as_mut_slice' else v)
    if kind in ('map', 'set') and not (conf and mut):
        if name == 'get':
            return opt_branch(I, st, mget(v, a1))
        if name in ('contains_key', 'contains') and (kind == 'map' or name == 'contains'):
            return ret(st, f_is(mget(v, a1), 'Some') if kind == 'map' else set_contains(v, a1))
        if name == 'get_key_value':
            o = mget(v, a1)
            return [('ret', s, some(tup(a1, fld(o, 'Some', '0'))) if b else none()) for s, b in I.branch(st, f_is(o, 'Some'))]
        if name == 'get_mut' and mut:
            o = mget(v, a1)
            return [('ret', s, some(mref(ref.a[0], ref.a[1], ref.a[2] + (('mget', a1),))) if b else none())
                    for s, b in I.branch(st, f_is(o, 'Some'))]
        if name == 'is_subset':
            return ret(st, subset(v, a1))
        if name == 'is_superset':
            return ret(st, subset(a1, v))
        if mut and name == 'remove' and kind == 'map':
            o = mget(v, a1)
            res = []
            for k, s, x in opt_branch(I, st, o):
                I.store(s, ref, cop(v, 'rem', a1))
                res.append((k, s, x))
            return res
        if mut and name == 'remove_entry':
            o = mget(v, a1)
            I.store(st, ref, cop(v, 'rem', a1))
            return [('ret', s, some(tup(a1, fld(o, 'Some', '0'))) if b else none()) for s, b in I.branch(st, f_is(o, 'Some'))]
        if mut and name == 'remove':
            I.store(st, ref, cop(v, 'rem', a1))
            return ret(st, set_contains(v, a1))
        if mut and name == 'insert':
            if kind == 'map':
                o = mget(v, a1)
                I.store(st, ref, cop(v, 'ins', a1, args[2]))
                return ret(st, o)
            I.store(st, ref, cop(v, 'ins', I.deep(st, a1), UNIT_))
            return ret(st, f_not(set_contains(v, a1)))
        if mut and name == 'entry':
            o = mget(v, a1)
            e = mk('agg', 'Entry', '', (('m', ref), ('k', a1)))
            return [('ret', s, agg('alloc::collections::btree::map::entry::Entry', 'Occupied' if b else 'Vacant', (('0', e),)))
                    for s, b in I.branch(st, f_is(o, 'Some'))]
    if mut and (name, kind) in (('pop_front', 'seq'), ('pop_first', 'map'), ('pop_first', 'set')):
        w = v if v.tag == 'it' else coll_it(v, SHAPES[kind])
        if w.tag == 'it' and w.a[0].tag == 'B':
            out = []
            for k, s, nv, e in step(I, st, w, site):
                if k in ('some', 'none'):
                    I.store(s, ref, nv)
                    out.append(('ret', s, some(e) if k == 'some' else none()))
                else:
                    out.append((k, s, e))
            return out
    if kind == 'seq':
        if name == 'get' and len(args) > 1 and not (a1.tag == 'agg'):  # a position
            return ret(st, app('get', v, a1)) if length(v).tag != 'c' or a1.tag != 'c' else ret(
                st, some(at(v, a1)) if a1.a[0] < length(v).a[0] else none())
        if name == 'get_mut' and mut and a1.tag != 'agg':
            return [('ret', s, some(mref(ref.a[0], ref.a[1], ref.a[2] + (('at', a1),))) if b else none())
                    for s, b in I.branch(st, f_lt(a1, length(v)))]
        if name == 'first':
            return ret(st, app('get', v, c(0)))
        if name == 'split_first':
            w = v if v.tag == 'it' else coll_it(v, 'seq')
            if ahead(w)[0] is None:
                return None
            return [('ret', s, some(tup(e, nv)) if k == 'some' else none()) if k in ('some', 'none') else (k, s, e)
                    for k, s, nv, e in step(I, st, w, site)]
        if name == 'last':
            return [('ret', s, none() if e else some(app('last', v))) for s, e in I.branch(st, f_empty(v))]
        if name in ('get', 'split_at', 'split_at_checked', 'first_chunk', 'split_first_chunk', 'last_chunk', 'split_last_chunk'):
            n = length(v)
            if name == 'get':
                b = bounds(a1, n)
                if b is None:
                    return None
                lo, hi = b
                return [('ret', s, some(slice_(v, lo, hi)) if x else none()) for s, x in I.branch(
                    st, f_and(f_not(f_lt(hi, lo)), f_not(f_lt(n, hi))))]
            if name.startswith('split_at'):
                k = a1
            else:
                k = array_len(re.sub(r'^.*?(?=&\[)', '', retty(t))) if '&[' in retty(t) else None
                m = re.search(r'\[[^\[\]]*; *(\d+)', retty(t))
                k = int(m.group(1)) if m else k
                if k is None:
                    return None
                k = c(k)
            if name in ('last_chunk', 'split_last_chunk'):
                if not is_c(n):
                    return None
                k = c(n.a[0] - k.a[0])
            out = []
            for s, x in I.branch(st, f_not(f_lt(n, k)) if not (is_c(k) and k.a[0] < 0) else FALSE):
                if x:
                    a, b = slice_(v, c(0), k), slice_(v, k, n)
                    w = a if name == 'first_chunk' else b if name == 'last_chunk' else tup(a, b)
                    out.append(('ret', s, w if name == 'split_at' else some(w)))
                elif name == 'split_at':
                    out.append(('panic', s, (name, I.where(), '')))
                else:
                    out.append(('ret', s, none()))
            return out
        if name == 'contains':
            return ret(st, set_contains(v, a1))
        if mut and not conf:
            if name in ('push', 'push_back'):
                I.store(st, ref, cop(v, 'push', I.deep(st, args[1]) if not any_sub(args[1], lambda x: x.tag == 'mref') else args[1]))
                return ret(st, UNIT_)
            if name in ('extend_from_slice',):
                c2 = dict(cal)
                c2['selfty'] = 'std::vec::Vec<T>'
                c2['targs'] = ['', '', '[T]']
                return m_extend(I, st, site, c2, args, t)
            if name == 'copy_from_slice' or name == 'clone_from_slice':
                n, m = length(v), length(a1)
                if n is m or not is_c(n) and not is_c(m):
                    f = f_eq(n, m)
                else:
                    f = f_eq(n, m)
                res = []
                for s, b in I.branch(st, f):
                    if b:
                        I.store(s, ref, a1)
                        res.append(('ret', s, UNIT_))
                    else:
                        res.append(('panic', s, (name, I.where(), '')))
                return res
            if name == 'truncate':
                res = []
                for s, b in I.branch(st, f_lt(a1, length(v))):
                    if b:
                        I.store(s, ref, slice_(v, c(0), a1))
                    res.append(('ret', s, UNIT_))
                return res
            if any(any_sub(x, lambda y: y.tag == 'mref') for x in args[1:]) and name.startswith(('sort', 'dedup')):
                return None
            if name in ('reverse', 'sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'dedup', 'sort_unstable_by_key'):
                I.store(st, ref, app('perm:' + name, v))
                return ret(st, UNIT_)
            if name == 'fill':
                n = length(v)
                I.store(st, ref, mk('rep', a1, n.a[0]) if is_c(n) else app('fill', v, a1))
                return ret(st, UNIT_)
    if mut and name == 'clear' and kind in ('seq', 'map', 'set'):
        I.store(st, ref, empty_coll(kind))
        return ret(st, UNIT_)
    if mut and name == 'append' and kind in ('seq', 'map', 'set'):
        src = args[1]
        w = I.load(st, src)
        c2 = dict(cal)
        c2['selfty'] = ty
        c2['targs'] = ['', '', ty.replace('&mut ', '&')]
        outs = m_extend(I, st, site, c2, [ref, w], t)
        for o in outs or []:
            if o[0] == 'ret' and src.tag == 'mref':
                I.store(o[1], src, empty_coll(kind))
        return outs
    if mut and name == 'extend' and conf:
        return None
    if mut and name == 'drain' and kind == 'seq' and a1 is not None:
        I.store(st, ref, empty_coll(kind) if a1.tag == 'agg' and not a1.a[2] else app('drained', v, a1))
        return ret(st, coll_it(v, 'seq') if a1.tag == 'agg' and not a1.a[2] else it(mk('B', 'seq', app('drain', v, a1))))
    if mut and name == 'retain' and kind in ('map', 'seq', 'set') and not any_sub(args[1], lambda x: x.tag == 'mref'):
        I.store(st, ref, app('retain', v, args[1]))
        return ret(st, UNIT_)
    if mut and conf and name in ('push', 'insert', 'remove', 'extend', 'remove_key'):
        o = app('confined:' + name, v, *[I.deep(st, a) for a in args[1:]])
        I.store(st, ref, app('after:' + name, v, *[I.deep(st, a) for a in args[1:]]))
        return ret(st, o)
    return None


def set_contains(v, x):
    b, ops = coll_ops(v)
    if ops and ops[-1][0] == 'ins' and ops[-1][1] is x:
        return TRUE
    if b.tag == 'empty' and not ops:
        return FALSE
    if b.tag == 'empty' and len(ops) == 1 and ops[0][0] == 'each':
        # some element of the source equals it
        src, alts = apart(ops[0][1], ops[0][2], x)
        vs = []
        for fs, os in alts:
            if len(os) == 0:
                vs.append((fs, ()))
            elif len(os) == 1 and os[0][0] in ('ins', 'push'):
                f = f_eq(os[0][1], x)
                vs += [(fs | d, (('n',),)) for d in dnf(f, True)] + [(fs | d, ()) for d in dnf(f, False)]
            else:
                return app('contains', v, x)
        vs = [(fs, o) for fs, o in vs if not any((f, not p) in fs for f, p in fs)]
        return contrib(src, tuple(vs))
    return app('contains', v, x)


def subset(v, w):
    """Whether a set has all the items of another one."""
    b, ops = coll_ops(v)
    if b.tag == 'empty' and len(ops) == 1 and ops[0][0] == 'each' and all(
            len(os) <= 1 and all(o[0] == 'ins' for o in os) for _, os in ops[0][2]):
        src, alts = apart(ops[0][1], ops[0][2], w)
        fds = []
        for fs, os in alts:
            fds += [fs | d for d in dnf(set_contains(w, os[0][1]), True)] if os else [fs]
        return f_all(src, fds)
    return app('subset', v, w)


def dnf(f, pol):
    """The exclusive conjunctions of facts in which a formula has the truth value."""
    f, pol = strip_not(f, pol)
    if f.tag == 'c':
        return [frozenset()] if bool(f.a[0]) == pol else []
    if f.tag == 'and':
        yes = dnf(f.a[0], True)
        if pol:
            return [x | y for x in yes for y in dnf(f.a[1], True)]
        return dnf(f.a[0], False) + [x | y for x in yes for y in dnf(f.a[1], False)]
    if f.tag == 'ite':
        return [x | y for b, g in ((True, f.a[1]), (False, f.a[2])) for x in dnf(f.a[0], b) for y in dnf(g, pol)]
    return [frozenset([(f, pol)])]


def coll_lookup(cn):
    parts = cn.split('::')
    if len(parts) >= 2 and parts[-2] in COLLS:
        return coll_method
    return None


def _ent(v):
    e = v
    while e.tag == 'agg' and len(e.a[2]) == 1:
        e = e.a[2][0][1]
    return fld(e, None, 'm'), fld(e, None, 'k')


@model('OccupiedEntry::remove', 'OccupiedEntry::remove_entry')
def m_orem(I, st, site, cal, args, t):
    m, k = _ent(I.load(st, args[0]))
    v = I.load(st, m)
    o = fld(mget(v, k), 'Some', '0')
    I.store(st, m, cop(v, 'rem', k))
    return ret(st, o if cal['cn'].endswith('remove') else tup(k, o))


@model('OccupiedEntry::get', 'OccupiedEntry::into_mut', 'OccupiedEntry::get_mut')
def m_oget(I, st, site, cal, args, t):
    m, k = _ent(I.load(st, args[0]))
    if cal['cn'].endswith('::get'):
        return ret(st, fld(mget(I.load(st, m), k), 'Some', '0'))
    return ret(st, mref(m.a[0], m.a[1], m.a[2] + (('mget', k),)))


@model('OccupiedEntry::insert', 'VacantEntry::insert', 'VacantEntry::insert_entry', 'Entry::insert_entry')
def m_vins(I, st, site, cal, args, t):
    m, k = _ent(I.load(st, args[0]))
    v = I.load(st, m)
    old = mget(v, k)
    I.store(st, m, cop(v, 'ins', k, args[1]))
    if 'Occupied' in cal['cn']:
        return ret(st, fld(old, 'Some', '0'))
    return ret(st, mref(m.a[0], m.a[1], m.a[2] + (('mget', k),)))


@model('OccupiedEntry::key', 'VacantEntry::key', 'Entry::key', 'VacantEntry::into_key')
def m_ekey(I, st, site, cal, args, t):
    return ret(st, _ent(I.load(st, args[0]))[1])


@model('Entry::or_insert', 'Entry::or_default', 'Entry::or_insert_with')
def m_orins(I, st, site, cal, args, t):
    e = I.load(st, args[0])
    if e.tag != 'agg':
        return None
    m, k = _ent(e)
    r = mref(m.a[0], m.a[1], m.a[2] + (('mget', k),))
    if e.a[1] == 'Occupied':
        return ret(st, r)
    name = cal['cn'].split('::')[-1]
    if name == 'or_insert_with':
        out = []
        for kd, s, v in I.call_value(st, args[1], [], site):
            if kd == 'ret':
                I.store(s, m, cop(I.load(s, m), 'ins', k, v))
                out.append(('ret', s, r))
            else:
                out.append((kd, s, v))
        return out
    if name == 'or_default':
        ty = (cal.get('targs') or ['', ''])[1] if cal.get('targs') else ''
        c2 = dict(cal)
        c2['selfty'] = retty(t).replace('&mut ', '')
        v = m_default(I, st, site, c2, [], t)[0][2]
    else:
        v = args[1]
    I.store(st, m, cop(I.load(st, m), 'ins', k, v))
    return ret(st, r)


def bounds(i, n):
    """The bounds of a range of indices."""
    if i.tag != 'agg':
        return None
    h = i.a[0].split('::')[-1]
    lo, hi = c(0), n
    d = dict(i.a[2])
    if h in ('Range', 'RangeFrom'):
        lo = d['start']
    if h in ('Range', 'RangeTo'):
        hi = d['end']
    if h == 'RangeToInclusive':
        hi = binop('Add', d['end'] if 'end' in d else d['last'], c(1), 'usize')
    if h == 'RangeInclusive' or h not in ('Range', 'RangeFrom', 'RangeTo', 'RangeToInclusive', 'RangeFull'):
        return None
    return lo, hi


@model('Index::index', 'IndexMut::index_mut')
def m_index(I, st, site, cal, args, t):
    ref = args[0]
    v, i = I.load(st, ref), I.load(st, args[1])
    mut = cal['cn'].endswith('index_mut') and ref.tag == 'mref'
    ty = cal.get('selfty') or argty(t, 0)
    k = kind_of(ty)
    if k == 'map':
        o = mget(v, i)
        return [('ret', s, fld(o, 'Some', '0')) if b else ('panic', s, ('index', I.where(), '')) for s, b in I.branch(st, f_is(o, 'Some'))]
    if k != 'seq':
        return None
    n = length(v)
    al = array_len(ty)
    if al is not None:
        n = c(al)
    if i.tag == 'agg':
        b = bounds(i, n)
        if b is None:
            return None
        lo, hi = b
        f = f_and(f_not(f_lt(hi, lo)), f_not(f_lt(n, hi)))
        out = []
        for s, b in I.branch(st, f):
            if not b:
                out.append(('panic', s, ('slice', I.where(), '')))
            elif mut:
                out.append(('ret', s, mref(ref.a[0], ref.a[1], ref.a[2] + (('sub', lo, hi),))))
            else:
                out.append(('ret', s, v if is_c(lo, 0) and hi is n else slice_(v, lo, hi)))
        return out
    out = []
    for s, b in I.branch(st, f_lt(i, n)):
        if b:
            out.append(('ret', s, mref(ref.a[0], ref.a[1], ref.a[2] + (('at', i),)) if mut else at(v, i)))
        else:
            out.append(('panic', s, ('index', I.where(), '')))
    return out


@model('bool::not', 'Not::not')
def m_not(I, st, site, cal, args, t):
    return ret(st, f_not(I.load(st, args[0])))


@model('array::map', '[;]::map')
def m_arrmap(I, st, site, cal, args, t):
    v = I.load(st, args[0])
    if v.tag != 'arr':
        return None
    work = [(st, ())]
    for i, x in enumerate(v.a[0]):
        nxt = []
        for s, acc in work:
            for k, s2, y in I.call_value(s, args[1], [x], site + '~%d' % i):
                if k != 'ret':
                    return None
                nxt.append((s2, acc + (y,)))
        work = nxt
    return [('ret', s, arr(a)) for s, a in work]


@model('array::from_fn')
def m_arrfromfn(I, st, site, cal, args, t):
    n = array_len(retty(t))
    if n is None or n > 128:
        return None
    work = [(st, ())]
    for i in range(n):
        nxt = []
        for s, acc in work:
            for k, s2, y in I.call_value(s, args[0], [c(i)], site + '~%d' % i):
                if k != 'ret':
                    return None
                nxt.append((s2, acc + (y,)))
        work = nxt
    return [('ret', s, arr(a)) for s, a in work]
