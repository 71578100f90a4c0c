"""Value terms of the abstract interpreter: hash-consed, with normalising constructors."""


class T:
    __slots__ = ('tag', 'a', 'n', '_fv')

    def __repr__(self):
        return show(self)


_tab = {}


def mk(tag, *a):
    k = (tag,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.tag, t.a, t.n = tag, a, len(_tab)
        t._fv = None
        _tab[k] = t
    return t


def reset():
    _tab.clear()
    global TRUE, FALSE, UNIT
    TRUE, FALSE, UNIT = mk('c', 1), mk('c', 0), mk('agg', '()', '', ())


TRUE, FALSE, UNIT = mk('c', 1), mk('c', 0), mk('agg', '()', '', ())


def subterms(t):
    """The set of all subterms (cached)."""
    if t._fv is None:
        s = {t}
        stack = list(t.a)
        while stack:
            x = stack.pop()
            if isinstance(x, T):
                s |= subterms(x)
            elif isinstance(x, (tuple, frozenset)):
                stack.extend(x)
        t._fv = frozenset(s)
    return t._fv


def contains(t, x):
    return x in subterms(t)


def wits(t):
    """The elements of collections which a term speaks about by name."""
    if isinstance(t, (tuple, frozenset)):
        return frozenset(w for x in t for w in wits(x))
    return frozenset(x for x in subterms(t) if x.tag == 'wit') if isinstance(t, T) else frozenset()


def any_sub(t, pred):
    return any(pred(x) for x in subterms(t))


def c(n):
    return mk('c', int(n))


def sym(name):
    return mk('sym', name)


def app(cn, *args):
    return mk('app', cn, tuple(args))


def is_c(t, v=None):
    return t.tag == 'c' and (v is None or t.a[0] == v)


# ---------------------------------------------------------------- structures

OPT, RES, CF = 'core::option::Option', 'core::result::Result', 'core::ops::control_flow::ControlFlow'


def agg(path, variant, fields):
    """fields: tuple of (name, term)"""
    if variant == '' and len(fields) >= 2 and path not in ('()', '[]'):
        # rebuilding a structure out of the fields of another one is an update of the latter
        cand = {}
        for f, v in fields:
            if v.tag == 'fld' and v.a[1] is None and v.a[2] == f:
                cand[v.a[0]] = cand.get(v.a[0], 0) + 1
        if cand:
            b = max(cand, key=lambda x: (cand[x], -x.n))
            if cand[b] * 2 > len(fields) or cand[b] == len(fields):
                rest = [(f, v) for f, v in fields if v is not fld(b, None, f)]
                if not any(f.startswith('_') for f, _ in rest):
                    for f, v in sorted(rest):
                        b = upd(b, f, v)
                    return b
    if len(fields) == 1:
        f, v = fields[0]
        if v.tag == 'fld' and v.a[1] == variant and v.a[2] == f and variant != '':
            return v.a[0]
    return mk('agg', path, variant, tuple(fields))


def tup(*xs):
    return mk('agg', '()', '', tuple((str(i), x) for i, x in enumerate(xs)))


def some(x):
    return agg(OPT, 'Some', (('0', x),))


def none():
    return mk('agg', OPT, 'None', ())


def ok(x):
    return agg(RES, 'Ok', (('0', x),))


def err(x):
    return agg(RES, 'Err', (('0', x),))


def upd(b, f, v):
    if b.tag == 'agg':
        return mk('agg', b.a[0], b.a[1], tuple((n, v if n == f else x) for n, x in b.a[2]))
    if v.tag == 'fld' and v.a[0] is b and v.a[1] is None and v.a[2] == f:
        return b
    if b.tag == 'upd':
        if b.a[1] == f:
            return upd(b.a[0], f, v)
        if b.a[1] > f:  # keep updates sorted by the name of the field
            return mk('upd', upd(b.a[0], f, v), b.a[1], b.a[2])
    if v is fld(b, None, f):
        return b
    return mk('upd', b, f, v)


def fld(b, variant, f):
    if b.tag == 'agg':
        if variant is not None and b.a[1] != variant:
            return mk('bot')
        for n, x in b.a[2]:
            if n == f:
                return x
        return mk('bot')
    if b.tag == 'upd':
        if b.a[1] == (f if variant is None else variant + '.' + f):
            return b.a[2]
        return fld(b.a[0], variant, f)
    if b.tag == 'wit' and b.a[1].tag == 'agg':
        return fld(b.a[1], variant, f)
    if b.tag == 'clos':
        try:
            return b.a[1][int(f)]
        except (ValueError, IndexError):
            return mk('bot')
    if b.tag == 'app' and b.a[0] == 'get' and variant == 'Some':
        return at(b.a[1][0], b.a[1][1])
    if b.tag == 'app' and b.a[0] == 'mget' and variant == 'Some':
        m, k = b.a[1]
        if k.tag == 'key' and k.a[0] is m:
            return mk('val', m)
        if k.tag == 'wit' and k.a[1].tag == 'key' and k.a[1].a[0] is m:
            return mk('wit', k.a[0], mk('val', m))
    if b.tag == 'ite':
        return ite(b.a[0], fld(b.a[1], variant, f), fld(b.a[2], variant, f))
    return mk('fld', b, variant, f)


def ahead(v):
    """The source and the position of an iterator over a sequence, which also stands for what is left of the sequence."""
    if v.tag == 'it' and v.a[0].tag == 'B' and not v.a[1]:
        return v.a[0].a[1], v.a[2]
    return None, None


def at(v, i):
    src, pos = ahead(v)
    if src is not None and is_c(i) and v.a[0].a[0] in ('seq', 'any'):
        if pos.tag == 'c':
            return at(src, c(pos.a[0] + i.a[0]))
        if pos.tag == 'g' and pos.a[1] + i.a[0] == 0:
            return mk('el', src)
    if v.tag == 'arr' and is_c(i) and 0 <= i.a[0] < len(v.a[0]):
        return v.a[0][i.a[0]]
    if v.tag == 'rep':
        return v.a[0]
    if v.tag == 'slice' and is_c(i) and is_c(v.a[1]):
        return at(v.a[0], c(v.a[1].a[0] + i.a[0]))
    if i.tag == 'ix' and i.a[0] is v:
        return mk('el', v)
    if i.tag == 'wit' and i.a[1].tag == 'ix' and i.a[1].a[0] is v:
        return mk('wit', i.a[0], mk('el', v))
    if v.tag == 'cop' and v.a[0].tag == 'empty' and v.a[0].a[0] == 'seq' and v.a[1][0] == 'each':
        # an element of a sequence with one item for each element of another one
        src, vs = v.a[1][1], v.a[1][2]
        if len(vs) == 1 and len(vs[0][1]) == 1 and vs[0][1][0][0] == 'push':
            x = vs[0][1][0][1]
            return subst(x, {mk('ix', src): i, mk('el', src): at(src, i)})
    if v.tag == 'range' and is_c(v.a[0], 0):
        return i
    return mk('at', v, i)


def slice_(v, s, e):
    if v.tag == 'slice' and is_c(v.a[1]) and is_c(s) and is_c(e):
        o = v.a[1].a[0]
        return slice_(v.a[0], c(o + s.a[0]), c(o + e.a[0]))
    if v.tag == 'arr' and is_c(s) and is_c(e):
        return arr(v.a[0][s.a[0]:e.a[0]])
    if is_c(s, 0) and e is length(v):
        return v
    src, pos = ahead(v)
    if src is not None and is_c(s, 1) and e is length(v) and v.a[0].a[0] in ('seq', 'any'):
        if pos.tag == 'c':
            return mk('it', v.a[0], (), c(pos.a[0] + 1))
        if pos.tag == 'g' and pos.a[1] == 0:
            return mk('it', v.a[0], (), mk('g', pos.a[0], 1))
    if v.tag == 'rep' and is_c(s) and is_c(e):
        return mk('rep', v.a[0], e.a[0] - s.a[0])
    return mk('slice', v, s, e)


def arr(items):
    items = tuple(items)
    if items and all(x.tag == 'at' and is_c(x.a[1]) for x in items):
        b = items[0].a[0]
        s = items[0].a[1].a[0]
        if all(x.a[0] is b and x.a[1].a[0] == s + i for i, x in enumerate(items)):
            return slice_(b, c(s), c(s + len(items)))
    if items and all(x is items[0] for x in items):
        return mk('rep', items[0], len(items))
    return mk('arr', items)


# ---------------------------------------------------------------- collections
# A collection value is either opaque, ('empty', kind), or ('cop', base, op) with op one of the tuples
#   ('push', x) ('ins', k, v) ('rem', k) ('each', src, variants)
# where variants = tuple of (facts, ops): for each element of src exactly one of the variants applies.


def empty_coll(kind):
    return mk('empty', kind)


def cop(b, *op):
    if op[0] == 'each':
        if all(not v[1] for v in op[2]):
            return b
        if b.tag == 'empty' and len(op[2]) == 1 and len(op[2][0][1]) == 1:
            # a copy
            x, src = op[2][0][1][0], op[1]
            if b.a[0] == 'map' and x[0] == 'ins' and x[1] is mk('key', src) and x[2] is mk('val', src):
                return src
            if b.a[0] == 'seq' and x[0] == 'push' and x[1] is mk('el', src):
                return src
    return mk('cop', b, op)


def coll_ops(t):
    ops = []
    while t.tag == 'cop':
        ops.append(t.a[1])
        t = t.a[0]
    return t, ops[::-1]


def at_most(v):
    """A collection for each item of which there is at most one of `v`."""
    b, ops = coll_ops(v)
    if b.tag != 'empty' or not ops or any(o[0] != 'each' or o[1] is not ops[0][1] for o in ops):
        return None
    vs = [[(fs, x) for fs, x in o[2] if x] for o in ops]
    if any(len(x) > 1 or x[0][0] not in ('push', 'ins') for w in vs for _, x in w):
        return None
    for i, w in enumerate(vs):
        for z in vs[i + 1:]:
            if not all(any((f, not p) in g for f, p in h) for h, _ in w for g, _ in z):
                return None
    return ops[0][1]


HASHES = ('commit_id', 'opid', 'codex_id')   # 32 bytes


def length(v):
    if v.tag == 'empty':
        return c(0)
    if v.tag == 'app' and v.a[0] in HASHES or v.tag == 'fld' and v.a[2] in ('contract_id', 'opid'):
        return c(32)
    if v.tag == 'it':
        src, pos = ahead(v)
        if src is not None and is_c(pos, 0):
            return length(src)
        if pos.tag == 'done':
            return c(0)
        if src is not None and pos.tag == 'g' and pos.a[1] > 0:
            return app('left', mk('ix', src), c(pos.a[1]))
    if v.tag == 'arr':
        return c(len(v.a[0]))
    if v.tag == 'rep' and isinstance(v.a[1], int):
        return c(v.a[1])
    if v.tag == 'slice' and is_c(v.a[1]) and is_c(v.a[2]):
        return c(v.a[2].a[0] - v.a[1].a[0])
    if v.tag == 'cop':
        b, ops = coll_ops(v)
        if b.tag == 'empty' and b.a[0] == 'seq':
            if all(o[0] == 'push' for o in ops):
                return c(len(ops))
            if len(ops) == 1 and ops[0][0] == 'each':
                vs = ops[0][2]
                if all(len(x) == 1 and x[0][0] == 'push' for _, x in vs):
                    return length(ops[0][1])
                if all(len(x) <= 1 and all(o[0] == 'push' for o in x) for _, x in vs):
                    return mk('count', ops[0][1], tuple((fs, (('n',),) if x else ()) for fs, x in vs))
    return mk('len', v)


def ite(g, a, b):
    if g.tag == 'c':
        return a if g.a[0] else b
    if a is b:
        return a
    if g.tag == 'not':
        return ite(g.a[0], b, a)
    return mk('ite', g, a, b)


def mget(m, k):
    b = m
    if b.tag == 'cop' and b.a[0].tag == 'empty' and b.a[1][0] == 'each':
        # a map with one entry for each element of a sequence, under its position, or of another map, under the same key
        src, vs = b.a[1][1], b.a[1][2]
        if len(vs) == 1 and len(vs[0][1]) == 1 and vs[0][1][0][0] == 'ins':
            _, kk, v = vs[0][1][0]
            if kk is mk('ix', src) and not contains(v, kk):
                return ite(f_lt(k, length(src)), some(subst(v, {mk('el', src): at(src, k)})), none())
            if kk is mk('key', src):
                o = mget(src, k)
                return ite(f_is(o, 'Some'), some(subst(v, {kk: k, mk('val', src): fld(o, 'Some', '0')})), none())
    while b.tag == 'cop':
        o = b.a[1]
        if o[0] == 'ins' and o[1] is k:
            return some(o[2])
        if o[0] == 'rem' and o[1] is k:
            return none()
        break
    if b.tag == 'empty':
        return none()
    return app('mget', m, k)


def distinct(k, src):
    """Whether a term has another value for each element of a collection."""
    if k is mk('ix', src) or k is mk('key', src):
        return True
    return k.tag == 'agg' and any(distinct(x, src) for _, x in k.a[2])


# ---------------------------------------------------------------- formulas

def f_not(f):
    if f.tag == 'c':
        return c(1 - f.a[0])
    if f.tag == 'not':
        return f.a[0]
    return mk('not', f)


def f_and(a, b):
    if is_c(a, 0) or is_c(b, 0):
        return FALSE
    if is_c(a, 1):
        return b
    if is_c(b, 1):
        return a
    if a is b:
        return a
    return mk('and', a, b)


def f_or(a, b):
    return f_not(f_and(f_not(a), f_not(b)))


NEG = {'None': ('Some',), 'Err': ('Ok',), 'Break': ('Continue',)}


def f_is(t, v):
    if t.tag == 'agg':
        return c(t.a[1] == v)
    if v in NEG:
        return f_not(f_is(t, NEG[v][0]))
    if v == 'Some':
        if t.tag == 'app' and t.a[0] == 'get':
            return f_lt(t.a[1][1], length(t.a[1][0]))
        if t.tag == 'app' and t.a[0] == 'mget':
            m, k = t.a[1]
            if (k.a[1] if k.tag == 'wit' else k) is mk('key', m):
                return TRUE
    if t.tag == 'upd' and '.' in t.a[1]:
        return f_is(t.a[0], v)
    if t.tag == 'ite':
        return ite(t.a[0], f_is(t.a[1], v), f_is(t.a[2], v))
    if t.tag == 'app' and t.a[0] == 'cmp':
        a, b = t.a[1]
        if v == 'Equal':
            return f_eq(a, b)
        if v == 'Less':
            return f_lt(a, b)
        if v == 'Greater':
            return f_lt(b, a)
    return mk('is', t, v)


def f_empty(v):
    if v.tag == 'again':
        return f_empty(v.a[0])
    src, pos = ahead(v)
    if src is not None and pos.tag == 'c':
        return f_not(f_lt(pos, length(src)))
    if src is not None and pos.tag == 'g' and pos.a[1] == 1:
        return f_not(f_lt(mk('add', mk('ix', src), c(1)), length(src)))
    n = length(v)
    if is_c(n):
        return c(n.a[0] == 0)
    if n.tag == 'count':
        return f_not(contrib(*n.a))
    v = n.a[0] if n.tag == 'len' else v
    if v.tag == 'cop':
        b, ops = coll_ops(v)
        if any(o[0] in ('push', 'ins') for o in ops) and not any(o[0] in ('rem',) for o in ops):
            return FALSE
        if b.tag == 'empty' and len(ops) == 1 and ops[0][0] == 'each':
            # some elements contribute under a condition
            if all(x for _, x in ops[0][2]):
                return f_empty(ops[0][1])
            return f_not(contrib(ops[0][1], tuple((fs, (('n',),) if x else ()) for fs, x in ops[0][2])))
        if b.tag == 'empty' and ops and all(o[0] == 'each' and all(y[0] in ('push', 'ins') for _, x in o[2] for y in x) for o in ops):
            r = TRUE
            for o in ops:
                r = f_and(r, f_empty(cop(b, *o)))
            return r
    return mk('isempty', v)


def taut(fds):
    """Whether a disjunction of conjunctions of facts always holds (by cases)."""
    if any(not fd for fd in fds):
        return True
    if not fds:
        return False
    f = min((f for fd in fds for f, _ in fd), key=lambda f: f.n)
    for v in (True, False):
        if not taut([fd - {(f, v)} for fd in fds if (f, not v) not in fd]):
            return False
    return True


def f_all(src, fds):
    """Every element of a collection meets one of the conjunctions of facts."""
    if not fds:
        return f_empty(src)
    if taut(fds):
        return TRUE
    return mk('all', src, frozenset(fds))


def contrib(src, vs):
    """Some element of the collection meets the conditions of a variant that does something."""
    if not any(ops for _, ops in vs):
        return FALSE
    if taut([fs for fs, ops in vs if ops]):
        return f_not(f_empty(src))
    if all(ops for _, ops in vs):
        return f_not(f_empty(src))
    return mk('contrib', src, vs)


def f_lt(a, b):
    if is_c(a) and is_c(b):
        return c(a.a[0] < b.a[0])
    if a is b:
        return FALSE
    if b.tag == 'len':
        if is_c(a, 0):
            return f_not(f_empty(b.a[0]))
        if a.tag == 'ix' and a.a[0] is b.a[0]:
            return TRUE
        if a is length(at_most(b.a[0]) or b.a[0]):
            return FALSE
    if a.tag == 'len' and is_c(b, 1):
        return f_empty(a.a[0])
    if a.tag == 'len' and is_c(b, 0):
        return FALSE
    if is_c(b, 0) and a.tag in ('len', 'ix', 'pos', 'count'):
        return FALSE
    if is_c(a, 0) and b.tag == 'count':
        return contrib(*b.a)
    if a.tag == 'count' and b is length(a.a[0]):
        return contrib(a.a[0], tuple((fs, () if ops else (('n',),)) for fs, ops in a.a[1]))
    if a.tag == 'app' and a.a[0] == 'chosen' and a.a[1][3].tag == 'ix' and b is length(a.a[1][3].a[0]):
        return TRUE
    if a.tag == 'wit' and a.a[1].tag == 'ix' and b is length(a.a[1].a[0]):
        return TRUE
    if a.tag == 'pos' and is_c(b, 1):
        return FALSE
    if b.tag == 'pos' and is_c(a, 0):
        return TRUE
    return mk('lt', a, b)


def f_eq(a, b):
    if a is b:
        return TRUE
    if a.tag == 'c' and b.tag == 'c':
        return c(a.a[0] == b.a[0])
    if a.tag == 'str' and b.tag == 'str':
        return c(a.a[0] == b.a[0])
    if a.tag == 'agg' and b.tag == 'agg' and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        r = TRUE
        bf = dict(b.a[2])
        for n, x in a.a[2]:
            r = f_and(r, f_eq(x, bf.get(n, mk('bot'))))
        return r
    if b.tag == 'agg' and a.tag != 'agg':
        a, b = b, a
    if a.tag == 'agg' and a.a[1] != '':
        r = f_is(b, a.a[1])
        for n, x in a.a[2]:
            r = f_and(r, f_eq(x, fld(b, a.a[1], n)))
        return r
    if a.tag == 'agg' and a.a[0] == '()':
        r = TRUE
        for n, x in a.a[2]:
            r = f_and(r, f_eq(x, fld(b, None, n)))
        return r
    if is_bool(a) and is_bool(b):
        if is_c(a):
            return b if a.a[0] else f_not(b)
        if is_c(b):
            return a if b.a[0] else f_not(a)
    for x, y in ((a, b), (b, a)):
        if x.tag == 'len' and is_c(y, 0):
            return f_empty(x.a[0])
        if x.tag == 'pos' and is_c(y, 0):
            return FALSE
        if x.tag == 'count' and is_c(y, 0):
            return f_not(contrib(*x.a))
        if x.tag == 'count' and y is length(x.a[0]):
            return f_not(contrib(x.a[0], tuple((fs, () if ops else (('n',),)) for fs, ops in x.a[1])))
    if a.n > b.n:
        a, b = b, a
    return mk('eq', a, b)


BOOLTAGS = {'not', 'and', 'is', 'isempty', 'lt', 'eq', 'contrib', 'all', 'some', 'ite'}


def is_bool(t):
    if t.tag == 'ite':
        return is_bool(t.a[1]) and is_bool(t.a[2])
    return t.tag in BOOLTAGS or (t.tag == 'c' and t.a[0] in (0, 1)) or (
        t.tag == 'app' and t.a[0] in ('subset', 'contains', 'is_known'))


# ---------------------------------------------------------------- substitution

def rebuild(tag, a):
    if tag == 'fld':
        return fld(*a)
    if tag == 'upd':
        return upd(*a)
    if tag == 'agg':
        return agg(*a)
    if tag == 'at':
        return at(*a)
    if tag == 'slice':
        return slice_(*a)
    if tag == 'len':
        return length(*a)
    if tag == 'not':
        return f_not(*a)
    if tag == 'and':
        return f_and(*a)
    if tag == 'is':
        return f_is(*a)
    if tag == 'isempty':
        return f_empty(*a)
    if tag == 'lt':
        return f_lt(*a)
    if tag == 'eq':
        return f_eq(*a)
    if tag == 'ite':
        return ite(*a)
    if tag == 'contrib':
        return contrib(*a)
    if tag == 'all':
        return f_all(a[0], a[1])
    if tag == 'app' and a[0] == 'mget':
        return mget(*a[1])
    return mk(tag, *a)


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def bound(src):
    return (mk('el', src), mk('ix', src), mk('key', src), mk('val', src))


def terms_of(x):
    if isinstance(x, T):
        return [x]
    return [z for y in x for z in terms_of(y)] if isinstance(x, (tuple, frozenset)) else []


def free(t, src):
    """Whether a term speaks of the element of a collection at hand (and not of a named one, or of all of them)."""
    if isinstance(t, (tuple, frozenset)):
        return any(free(x, src) for x in t)
    if not isinstance(t, T):
        return False
    b = bound(src)
    if t in b:
        return True
    if t.tag == 'wit' or not any(contains(t, x) for x in b):
        return False
    if t.tag in ('all', 'contrib', 'count') and t.a[0] is src:
        return False
    return any(free(x, src) for x in t.a if not (isinstance(x, tuple) and x and x[0] in ('each', 'loop') and x[1] is src))


def apart(src, body, *outer):
    """(source, body) of a binder with bound variables which none of the other terms have."""
    src2, n = src, 0
    while any(free(t, src2) for t in outer):
        n += 1
        src2 = mk('again', src, n)
    return (src, body) if src2 is src else (src2, _subst(body, dict(zip(bound(src), bound(src2))), {}))


def _under(src, body, m, memo):
    """Substitution below a binder: (new source, new body)."""
    src2 = _subst(src, m, memo)
    b = bound(src)
    out = [v for k, v in m.items() if k not in b and free(v, src) and any(contains(x, k) for x in terms_of(body))]
    if out:
        src3, body = apart(src, body, *out)
        if src3 is not src:
            src, src2, b, memo = src3, mk('again', src2, src3.a[1]), bound(src3), {}
    if any(x in m for x in b):
        m = {k: v for k, v in m.items() if k not in b}
        memo = {}
        body2 = _subst(body, m, memo) if m else body
    else:
        body2 = _subst(body, m, memo)
    if src2 is not src:
        # the bound variables follow the source
        body2 = _subst(body2, dict(zip(b, bound(src2))), {})
    return src2, body2


def _subst(t, m, memo):
    if isinstance(t, T):
        r = m.get(t)
        if r is not None:
            return r
        r = memo.get(t)
        if r is not None:
            return r
        if subterms(t).isdisjoint(m.keys()):
            return t
        if t.tag in ('all', 'contrib', 'count'):
            na = _under(t.a[0], t.a[1], m, memo)
        elif t.tag == 'S' and t.a[0] == 'vars':
            src, vs = _under(t.a[3], t.a[1], m, memo)
            na = ('vars', vs, t.a[2], src)
        else:
            na = tuple(_subst(x, m, memo) for x in t.a)
        r = rebuild(t.tag, na)
        memo[t] = r
        return r
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] in ('each', 'loop') and isinstance(t[1], T):
            return (t[0],) + _under(t[1], t[2], m, memo)
        return tuple(_subst(x, m, memo) for x in t)
    if isinstance(t, frozenset):
        out = set()
        for e in t:
            if not (isinstance(e, tuple) and len(e) == 2 and isinstance(e[1], bool)):
                out.add(_subst(e, m, memo))
                continue
            f, p = e
            g = _subst(f, m, memo)
            g, p = strip_not(g, p)
            if g.tag == 'c' and bool(g.a[0]) == p:
                continue
            out.add((g, p))
        return frozenset(out)
    return t


def strip_not(f, p):
    while f.tag == 'not':
        f, p = f.a[0], not p
    return f, p


def show(t, d=0):
    if isinstance(t, T):
        g, a = t.tag, t.a
        if d > 14:
            return '…'
        if g == 'c':
            return str(a[0])
        if g in ('sym', 'str'):
            return str(a[0])
        if g == 'fld':
            return show(a[0], d + 1) + '.' + (('%s.' % a[1]) if a[1] else '') + a[2]
        if g == 'agg':
            return '%s%s{%s}' % (a[0].split('::')[-1], ('::' + a[1]) if a[1] else '',
                                 ', '.join('%s: %s' % (n, show(x, d + 1)) for n, x in a[2]))
        if g == 'app':
            return '%s(%s)' % ('::'.join(str(a[0]).split('::')[-2:]), ', '.join(show(x, d + 1) for x in a[1]))
        if g == 'upd':
            return '%s[%s:=%s]' % (show(a[0], d + 1), a[1], show(a[2], d + 1))
        if g == 'cop':
            return '%s+%s' % (show(a[0], d + 1), show(a[1], d + 1))
        return '%s(%s)' % (g, ', '.join(show(x, d + 1) for x in a))
    if isinstance(t, frozenset):
        return '{%s}' % ' & '.join(sorted(
            ('' if e[1] else '!') + show(e[0], d + 1) if isinstance(e, tuple) and len(e) == 2 and isinstance(e[1], bool)
            else show(e, d + 1) for e in t))
    if isinstance(t, tuple):
        return '(%s)' % ', '.join(show(x, d + 1) for x in t)
    return str(t)
