"""Path-sensitive value-flow analysis of the compiler's intermediate representation (MIR).

The abstract state maps every variable to a term over the inputs of the analysed function, and keeps the outcome of the
branches taken as facts.  References are transparent, calls of local functions and closures are analysed in place, calls
of the standard collections and iterators have models, and any other call yields an opaque term.  Loops are widened until
the state at their head is stable, and are then replaced by what they do to an arbitrary element of what they iterate over.
A loop that reads the consignment stream is instead analysed for the first and for an arbitrary later operation: at each
read all that depends on an earlier operation is forgotten.
"""
import re
from terms import *
import terms as TM


BOX = re.compile(r'(std|alloc)::boxed::Box<')


class Unproven(Exception):
    pass


class St:
    __slots__ = ('env', 'facts', 'ev', 'k', 'ver', 'reads', 'marks', 'start', 'rd', 'notes', 'prev', 'loc', 'lids')

    def __init__(self):
        self.env, self.facts, self.ev = {}, {}, ()
        self.k = self.ver = self.reads = 0
        self.marks, self.start, self.rd, self.notes, self.prev, self.loc = {}, {}, 'start', (), None, ''
        self.lids = {}   # how often the loops have been left

    def copy(self):
        s = St.__new__(St)
        s.env, s.facts, s.ev = dict(self.env), dict(self.facts), self.ev
        s.k, s.ver, s.reads = self.k, self.ver, self.reads
        s.marks, s.start, s.rd, s.notes, s.prev, s.loc = self.marks, self.start, self.rd, self.notes, self.prev, self.loc
        s.lids = self.lids
        return s

    def mark(self, tok, v):
        self.marks = dict(self.marks)
        self.marks[tok] = v

    def note(self, *n):
        if n not in self.notes:
            self.notes = self.notes + (n,)


UNIT_ = UNIT
READ = 'rgbcore::verify::ReadOperation::read_operation'
API = 'rgbcore::verify::ContractApi::'
OPEN_TRAITS = {'rgbcore::verify::ReadOperation', 'rgbcore::verify::ContractApi', 'rgbcore::seals::RgbSealDef',
               'rgbcore::seals::RgbSeal'}
SELF, READER, BLOCK = sym('self'), sym('reader'), sym('block')

MAXSTEPS = 400000


def eltop(v):
    """Whether a term denotes (part of) the position of an element: an index or a length, which cannot overflow."""
    return v.tag in ('ix', 'len', 'pos', 'count') or (v.tag == 'wit' and v.a[1].tag == 'ix')


INTW = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64,
        'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64, 'bool': 1, 'char': 32}


def type_args(ty):
    """The generic arguments of a printed type."""
    i = ty.find('<')
    if i < 0 or not ty.endswith('>'):
        return []
    return split_top(ty[i + 1:-1])


def split_top(s):
    out, d, cur, prev = [], 0, '', ''
    for ch in s:
        if ch in '<([{':
            d += 1
        elif ch in '>)]}' and not (ch == '>' and prev == '-'):
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
        prev = ch
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_ref(ty):
    while True:
        ty = ty.strip()
        if ty.startswith('&'):
            ty = ty[1:].lstrip()
            if ty.startswith("'"):
                ty = ty.split(' ', 1)[1]
            if ty.startswith('mut '):
                ty = ty[4:]
            continue
        if ty.startswith('mut '):
            ty = ty[4:]
        for w in ('std::boxed::Box<', 'amplify::confinement::Confined<', 'std::rc::Rc<', 'std::sync::Arc<',
                  'std::borrow::Cow<'):
            if ty.startswith(w) and ty.endswith('>'):
                a = [x for x in type_args(ty) if not x.startswith("'")]
                ty = a[0]
                break
        else:
            return ty


def kind_of(ty):
    """The kind of collection a printed type denotes: seq, map, set, opt, or None."""
    ty = strip_ref(ty)
    h = ty.split('<')[0].split('::')[-1]
    if ty.startswith('['):
        return 'seq'
    if h in ('Vec', 'VecDeque', 'LinkedList'):
        return 'seq'
    if h in ('BTreeMap', 'HashMap', 'IndexMap'):
        return 'map'
    if h in ('BTreeSet', 'HashSet', 'IndexSet'):
        return 'set'
    if h.endswith(('OrdMap', 'HashMap')):
        return 'map'
    if h.endswith(('OrdSet', 'HashSet')):
        return 'set'
    if h.endswith('Vec') or h.endswith('Blob'):
        return 'seq'
    if h == 'Option':
        return 'opt'
    if h == 'String' or h == 'str':
        return 'str'
    return None


def array_len(ty):
    ty = strip_ref(ty)
    if ty.startswith('[') and ';' in ty:
        n = ty.rsplit(';', 1)[1].strip(' ]')
        n = n.split('_')[0]
        if n.isdigit():
            return int(n)
    return None


class Body:
    def __init__(self, key, b):
        self.key, self.b = key, b
        self.blocks = b['blocks']
        self.locals = b['locals']
        self.argc = b['argc']
        self._cfg()

    def succ(self, i):
        t = self.blocks[i]['t']
        k = t[0]
        if k == 'goto':
            r = [t[1]]
        elif k == 'switch':
            r = [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
        elif k == 'drop':
            r = [t[2]]
        elif k == 'call':
            r = [t[4]] if t[4] is not None else []
        elif k == 'assert':
            r = [t[5]]
        else:
            r = []
        return [x for x in r if x is not None and self.blocks[x] is not None]

    def _cfg(self):
        n = len(self.blocks)
        order, seen = [], set()
        stack = [(0, iter(self.succ(0)))]
        seen.add(0)
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    stack.append((v, iter(self.succ(v))))
                    break
            else:
                stack.pop()
                order.append(u)
        rpo = order[::-1]
        num = {u: i for i, u in enumerate(rpo)}
        preds = {u: [] for u in rpo}
        for u in rpo:
            for v in self.succ(u):
                preds[v].append(u)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for u in rpo[1:]:
                ps = [p for p in preds[u] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while num[x] > num[y]:
                            x = idom[x]
                        while num[y] > num[x]:
                            y = idom[y]
                if idom.get(u) != x:
                    idom[u] = x
                    ch = True
        self.rpo, self.preds = rpo, preds

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.loops = {}
        self.irreducible = False
        for u in rpo:
            for v in self.succ(u):
                if num[v] <= num[u]:
                    if not dom(v, u):
                        self.irreducible = True
                        continue
                    body = self.loops.setdefault(v, {v})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self._live()

    def _uses(self, i):
        use, deff = set(), set()

        def place(p, w=False):
            for pr in p[1]:
                if pr[0] == 'idx' and pr[1] not in deff:
                    use.add(pr[1])
            if w and not p[1]:
                deff.add(p[0])
            elif p[0] not in deff:
                use.add(p[0])

        def op(o):
            if o[0] in ('copy', 'move'):
                place(o[1])

        def rv(r):
            k = r[0]
            if k in ('use', 'repeat'):
                op(r[1])
            elif k in ('ref', 'mut', 'raw', 'rbref', 'rbmut', 'discr', 'len'):
                place(r[1])
            elif k == 'cast':
                op(r[2])
            elif k == 'bin':
                op(r[2])
                op(r[3])
            elif k == 'un':
                op(r[2])
            elif k == 'agg':
                for o in r[2]:
                    op(o)
        for s in self.blocks[i]['s']:
            if s[0] == '=':
                rv(s[2])
                place(s[1], True)
            elif s[0] == 'setdiscr':
                place(s[1])
        t = self.blocks[i]['t']
        if t[0] == 'switch':
            op(t[1])
        elif t[0] == 'assert':
            op(t[1])
        elif t[0] == 'call':
            for o in t[2]:
                op(o)
            place(t[3], True)
        elif t[0] == 'return':
            if 0 not in deff:
                use.add(0)
        return use, deff

    def _live(self):
        ud = {u: self._uses(u) for u in self.rpo}
        live = {u: set() for u in self.rpo}
        ch = True
        while ch:
            ch = False
            for u in reversed(self.rpo):
                out = set()
                for v in self.succ(u):
                    out |= live[v]
                new = ud[u][0] | (out - ud[u][1])
                if new != live[u]:
                    live[u] = new
                    ch = True
        self.live = live


def mref(frame, local, projs):
    return mk('mref', frame, local, projs)


def taken(v):
    """Whether an iterator is past its element of this pass."""
    if v.tag == 'it' and v.a[0].tag == 'chain':
        its, idx = v.a[0].a
        return idx >= len(its) or taken(its[idx])
    return not (v.tag == 'it' and v.a[2].tag == 'g' and v.a[2].a[1] == 0)


class Interp:
    def __init__(self, facts, force=frozenset()):
        self.f = facts
        self.force = force     # collections of which nothing is assumed after the first operation
        self.hvs, self.empties = set(), set()
        self.bodies = {}
        self.fns = {}
        self.stack = []
        self.depth = 0
        self.steps = 0
        self.segments = []
        self.seen = set()
        self.nexts = {}        # iterators of the crate and the bodies of their `next`
        self.running = []      # loops of which a pass is followed
        self.intos = {}        # types of the crate to iterate over and the bodies of their `into_iter`
        self.active = []
        self.used = set()      # bodies analysed
        self.calls = 0         # call sites evaluated
        self.opaque = {}       # functions without a body or a model
        self.panics = []
        self.loops = {}        # loops analysed: id -> how
        self.unproven = []
        self.open_loops = {}   # loops not shown to end: id -> (state at the head, states after a pass)
        self.cur = []          # the source position being analysed
        from models import MODELS, coll_lookup, bounded, coll_it
        self.models, self.coll_lookup, self.bounded, self.coll_it = MODELS, coll_lookup, bounded, coll_it

    def body(self, key):
        b = self.bodies.get(key)
        if b is None:
            b = self.bodies[key] = Body(key, self.f['bodies'][key])
            if b.irreducible:
                raise Unproven('irreducible control flow in ' + key.split('[')[0])
        return b

    # ------------------------------------------------------------ places
    def get(self, st, frame, local):
        v = st.env.get((frame, local))
        return v if v is not None else mk('uninit')

    def proj(self, st, v, p):
        while v.tag == 'mref':
            v = self.load(st, v)
        if p[0] == 'f':
            return fld(v, p[1], p[2])
        if p[0] == 'at':
            return at(v, p[1])
        if p[0] == 'mget':
            return fld(mget(v, p[1]), 'Some', '0')
        if p[0] == 'sub':
            return slice_(v, p[1], p[2])
        raise Unproven('projection %s' % (p,))

    def readp(self, st, root, projs):
        v = self.get(st, *root)
        for p in projs:
            v = self.proj(st, v, p)
        return v

    def load(self, st, v):
        """The value a mutable reference points to (any other value is itself)."""
        n = 0
        while v.tag == 'mref':
            v = self.readp(st, (v.a[0], v.a[1]), v.a[2])
            n += 1
            if n > 50:
                raise Unproven('cyclic reference')
        return v

    def deep(self, st, v, d=0):
        v = self.load(st, v)
        if v.tag in ('agg',) and d < 4 and any_sub(v, lambda x: x.tag == 'mref'):
            return mk('agg', v.a[0], v.a[1], tuple((n, self.deep(st, x, d + 1)) for n, x in v.a[2]))
        return v

    def store(self, st, ref, val):
        root = (ref.a[0], ref.a[1])
        projs = ref.a[2]
        # a reference on the way leads to another place
        v = self.get(st, *root)
        for i in range(len(projs) + 1):
            if v.tag == 'mref':
                return self.store(st, mref(v.a[0], v.a[1], v.a[2] + projs[i:]), val)
            if i < len(projs):
                v = self.proj(st, v, projs[i])
        st.env[root] = self.write(st, self.get(st, *root), projs, val)

    def write(self, st, v, projs, val):
        if not projs:
            return val
        p = projs[0]
        sub = self.proj(st, v, p) if len(projs) > 1 else None
        n = self.write(st, sub, projs[1:], val) if len(projs) > 1 else val
        if p[0] == 'f':
            if p[1] is None:
                return upd(v, p[2], n)
            if v.tag == 'agg':
                return mk('agg', v.a[0], v.a[1], tuple((m, n if m == p[2] else x) for m, x in v.a[2]))
            return upd(v, p[1] + '.' + p[2], n)
        if p[0] == 'at':
            m = length(v)
            if is_c(p[1]) and is_c(m) and 0 <= p[1].a[0] < m.a[0] <= 256:
                return arr(n if i == p[1].a[0] else at(v, c(i)) for i in range(m.a[0]))
            return mk('store', v, p[1], n)
        if p[0] == 'mget':
            return cop(v, 'ins', p[1], n)
        if p[0] == 'sub':
            m = length(v)
            if is_c(p[1]) and is_c(p[2]) and is_c(m) and 0 <= p[1].a[0] <= p[2].a[0] <= m.a[0] <= 256:
                return arr(at(n, c(i - p[1].a[0])) if p[1].a[0] <= i < p[2].a[0] else at(v, c(i)) for i in range(m.a[0]))
            return mk('substore', v, p[1], p[2], n)
        raise Unproven('write')

    def resolve(self, st, frame, place):
        root, projs, variant = (frame, place[0]), [], None
        for pr in place[1]:
            k = pr[0]
            if k == 'deref':
                cur = self.readp(st, root, projs)
                if cur.tag == 'mref':
                    root, projs = (cur.a[0], cur.a[1]), list(cur.a[2])
            elif k == 'as':
                variant = pr[1]
            elif k == 'f':
                projs.append(('f', variant, pr[1]))
                variant = None
            elif k == 'idx':
                projs.append(('at', self.load(st, self.get(st, frame, pr[1]))))
            elif k == 'cidx':
                projs.append(('at', mk('fromend', pr[1]) if pr[3] else c(pr[1])))
            elif k == 'sub':
                base = self.load(st, self.readp(st, root, projs))
                e = (mk('sub', length(base), c(pr[2])) if pr[2] else length(base)) if pr[3] else c(pr[2])
                if pr[3] and is_c(length(base)):
                    e = c(length(base).a[0] - pr[2])
                projs.append(('sub', c(pr[1]), e))
            else:
                raise Unproven('projection ' + k)
        return root, tuple(projs)

    def read(self, st, frame, place):
        return self.readp(st, *self.resolve(st, frame, place))

    def assign(self, st, frame, place, val):
        root, projs = self.resolve(st, frame, place)
        if not projs:
            st.env[root] = val
        else:
            self.store(st, mref(root[0], root[1], projs), val)

    # ------------------------------------------------------------ operands and values
    def operand(self, st, frame, o):
        if o[0] in ('copy', 'move'):
            return self.read(st, frame, o[1])
        return self.const(st, frame, o[1], o[2])

    def const(self, st, frame, d, ty):
        if 'int' in d:
            return c(d['int'])
        if 'ref' in d:
            return self.const(st, frame, d['ref'], ty)
        if 'fn' in d:
            return self.fnval(d['fn'])
        if 'closure' in d:
            return mk('clos', d['closure'], ())
        if d.get('unit'):
            return UNIT_
        if 'str' in d:
            return mk('str', d['str'])
        if 'bytes' in d:
            return mk('str', repr(d['bytes']))
        if 'promoted' in d or 'constbody' in d:
            key = d.get('promoted') or d.get('constbody')
            if key in self.f['bodies']:
                outs = self.exec_body(key, frame + '^', st, [])
                if len(outs) == 1 and outs[0][0] == 'ret':
                    return outs[0][2]
            return app('const', mk('str', key))
        if 'static' in d:
            return app('static', mk('str', d['static']))
        if 'adt' in d:
            return agg(d['adt'], d.get('variant') or '', tuple(
                (n, self.const(st, frame, x, '')) for n, x in zip(d.get('fields', []), d.get('vals', []))))
        if 'tuple' in d:
            return tup(*[self.const(st, frame, x, '') for x in d.get('vals', [])])
        if 'array' in d:
            return arr([self.const(st, frame, x, '') for x in d.get('vals', [])])
        if 'item' in d:
            return app('const', mk('str', d['item']))
        if 'param' in d:
            return app('param', mk('str', d['param']))
        if re.match(r'^(std|core)::option::Option<(&|std::boxed::Box<|alloc::boxed::Box<)', str(ty)) and re.match(
                r'^Scalar\(0x0+\)$', str(d.get('opaque')).strip()):
            return none()   # no reference
        return app('const', mk('str', str(d.get('opaque')) + str(ty)))

    def fnval(self, cal):
        t = mk('fn', cal['cn'], cal.get('key') or '', tuple(cal.get('targs') or ()))
        self.fns[t] = cal
        return t

    def rvalue(self, st, frame, r, dty):
        """Yields (state, value)."""
        k = r[0]
        if k == 'use':
            if r[1][0] == 'copy' and BOX.match(dty or '') and any(p[0] == 'deref' for p in r[1][1][1]):
                # (a box is never copied; this is a way to what is in it)
                root, projs = self.resolve(st, frame, r[1][1])
                return mref(root[0], root[1], projs)
            return self.operand(st, frame, r[1])
        if k in ('ref', 'rbref'):
            if re.match(r'&[^ ]* ?(std|core)::cell::Cell<', dty or ''):   # written through shared references
                root, projs = self.resolve(st, frame, r[1])
                return mref(root[0], root[1], projs)
            return self.read(st, frame, r[1])
        if k in ('mut', 'rbmut', 'raw'):
            root, projs = self.resolve(st, frame, r[1])
            if k == 'raw' and self.readp(st, root, projs).tag == 'mref':
                return self.readp(st, root, projs)
            return mref(root[0], root[1], projs)
        if k == 'repeat':
            n = r[2]
            if isinstance(n, int):
                return mk('rep', self.operand(st, frame, r[1]), n)
            return mk('rep', self.operand(st, frame, r[1]), str(n))
        if k == 'cast':
            return self.cast(r[1], self.operand(st, frame, r[2]), r[3], r[4])
        if k == 'bin':
            a = self.load(st, self.operand(st, frame, r[2]))
            b = self.load(st, self.operand(st, frame, r[3]))
            return binop(r[1], a, b, r[4])
        if k == 'un':
            a = self.load(st, self.operand(st, frame, r[2]))
            if r[1] == 'Not':
                return f_not(a) if is_bool(a) or dty == 'bool' else app('bitnot', a)
            if r[1] == 'PtrMetadata':
                return length(a)
            if r[1] == 'Neg':
                return c(-a.a[0]) if a.tag == 'c' else app('neg', a)
            return app('un:' + r[1], a)
        if k == 'len':
            return length(self.load(st, self.read(st, frame, r[1])))
        if k == 'discr':
            v = self.load(st, self.read(st, frame, r[1]))
            names = tuple((a, b) for a, b in r[2])
            if v.tag == 'agg':
                for a, b in names:
                    if b == v.a[1]:
                        return c(a)
            return mk('discr', v, names)
        if k == 'agg':
            vals = [self.operand(st, frame, o) for o in r[2]]
            d = r[1]
            if d.get('tuple'):
                return tup(*vals) if vals else UNIT_
            if d.get('array'):
                return arr(vals)
            if 'closure' in d:
                return mk('clos', d['closure'], tuple(vals))
            if 'adt' in d:
                return agg(d['adt'], d.get('variant') or '', tuple(zip(d['fields'], vals)))
            return app('agg', *vals)
        if k == 'tls':
            return app('static', mk('str', str(r[1])))
        return mk('opaque', k)

    def cast(self, kind, v, to, frm):
        if kind.startswith('PointerCoercion') or kind.startswith('PtrToPtr') or kind == 'Subtype':
            return v
        if kind == 'IntToInt':
            if v.tag == 'c':
                w = INTW.get(to)
                if w:
                    n = v.a[0] & ((1 << w) - 1)
                    if to[0] == 'i' and n >> (w - 1):
                        n -= 1 << w
                    return c(n)
                return v
            a, b = INTW.get(frm), INTW.get(to)
            if a and b and (b > a or (b == a and frm[0] == to[0])) and not (frm[0] == 'i' and to[0] == 'u'):
                return mk('b2i', v) if frm == 'bool' else v
            # positions within a confined collection fit 16 bits
            if to in ('u16', 'u32', 'u64', 'usize') and (eltop(v) or v.tag == 'lv'):
                return v
            if v.tag == 'discr':
                return v
            return app('cast', mk('str', to), v)
        if kind == 'Transmute':
            return app('transmute', mk('str', to), v)
        return app('cast', mk('str', to), v)

    # ------------------------------------------------------------ facts
    def assume(self, st, f, pol=True):
        """The states in which the formula has the truth value; the given state is consumed."""
        f, pol = strip_not(f, pol)
        if f.tag == 'c':
            return [st] if bool(f.a[0]) == pol else []
        if f.tag == 'and':
            if pol:
                return [s2 for s in self.assume(st, f.a[0], True) for s2 in self.assume(s, f.a[1], True)]
            out = self.assume(st.copy(), f.a[0], False)
            for s in self.assume(st, f.a[0], True):
                out += self.assume(s, f.a[1], False)
            return out
        if f.tag == 'contrib' and self.known(st, f) is None:
            # whether some element of a collection meets a condition
            src, vs = f.a
            if not pol:
                st.facts[f] = False
                return self.assume(st, self.all_fact(src, [fs for fs, ops in vs if not ops]), True)
            out = []
            w = self.witness('contrib%d' % f.n, src)
            for fs, ops in vs:
                if ops:
                    ss = [st.copy()]
                    ss[0].facts[f] = True
                    for g, p in sorted(fs, key=lambda x: x[0].n) + [(f_empty(src), False)]:
                        ss = [s3 for s2 in ss for s3 in self.assume(s2, subst(g, w), p)]
                    out += ss
            return out
        if f.tag == 'ite':
            g, x, y = f.a
            out = []
            for s in self.assume(st.copy(), g, True):
                out += self.assume(s, x, pol)
            for s in self.assume(st, g, False):
                out += self.assume(s, y, pol)
            return out
        v = self.known(st, f)
        if v is not None:
            return [st] if v == pol else []
        if f.tag == 'isempty' and f.a[0].tag == 'it':
            src, pos = ahead(f.a[0])
            if src is not None and pos.tag == 'g' and pos.a[1] == 0:
                # whether there is an element for this pass of a loop
                st.mark(pos.a[0], 'exh' if pol else 1)
                return [st] if pol else self.assume(st, f_empty(src), False)
        st.facts[f] = pol
        if f.tag == 'eq' and all(x.tag == 'at' and is_c(x.a[1]) for x in f.a) and f.a[0].a[1] is f.a[1].a[1]:
            # arrays compared element by element
            x, y = f.a[0].a[0], f.a[1].a[0]
            n, e = length(x), f_eq(x, y)
            if e.tag == 'eq' and is_c(n) and length(y) is n and st.facts.get(e) is None and (not pol or all(
                    st.facts.get(f_eq(at(x, c(i)), at(y, c(i)))) for i in range(n.a[0]))):
                return self.assume(st, e, pol)
        if pol and f.tag == 'eq':
            # an index known to equal another term denotes the same element
            for i, t in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                if i.tag == 'wit' and i.a[1].tag == 'ix' or i.tag == 'ix':
                    src = (i.a[1] if i.tag == 'wit' else i).a[0]
                    e = mk('wit', i.a[0], mk('el', src)) if i.tag == 'wit' else mk('el', src)
                    m = {e: at(src, t), i: t}
                    for g, p in list(st.facts.items()):
                        if g is not f and (contains(g, e)):
                            h, q = strip_not(subst(g, m), p)
                            if h.tag == 'c':
                                if bool(h.a[0]) != q:
                                    return []
                            elif st.facts.setdefault(h, q) != q:
                                return []
                    g, q = strip_not(f_lt(t, length(src)), True)
                    if g.tag != 'c':
                        if st.facts.get(g, q) != q:
                            return []
                        st.facts[g] = q
                    break
        if wits(f):
            # what is learnt of an element after its index
            for w in wits(f):
                i, e = mk('wit', w.a[0], mk('ix', w.a[1].a[0])), mk('wit', w.a[0], mk('el', w.a[1].a[0]))
                if not contains(f, e):
                    continue
                for g, p in list(st.facts.items()):
                    if p and g.tag == 'eq' and i in g.a:
                        t = g.a[1] if g.a[0] is i else g.a[0]
                        h, q = strip_not(subst(f, {e: at(w.a[1].a[0], t), i: t}), pol)
                        if h is f:
                            continue
                        if h.tag == 'c':
                            if bool(h.a[0]) != q:
                                return []
                        elif st.facts.setdefault(h, q) != q:
                            return []
        return [st]

    def known(self, st, f):
        v = st.facts.get(f)
        if v is not None:
            return v
        if f.tag == 'isempty' and f.a[0].tag == 'it' and f.a[0].a[2].tag == 'g' and f.a[0].a[2].a[1] == 0:
            v = st.marks.get(f.a[0].a[2].a[0])
            if v in ('exh', 1):
                return v == 'exh'
        if f.tag == 'is':
            t = f.a[0]
            for g, p in st.facts.items():
                if p and g.tag == 'is' and g.a[0] is t and g.a[1] != f.a[1]:
                    return False
        if f.tag == 'lt':
            # the number of items in a collection of an operation
            x, y = f.a
            if y.tag == 'len' and x.tag == 'c' and x.a[0] >= 65535 and self.bounded(y.a[0]):
                return False
            k = y.a[1] if y.tag == 'wit' else y
            k = k.a[0] if k.tag == 'key' else k.a[1][0] if k.tag == 'app' and k.a[0] == 'nthk' else None
            if x.tag == 'c' and x.a[0] >= 65535 and k is not None and k.tag == 'fld' and self.bounded(k):
                return False   # the number of a cell
            if x.tag == 'len' and y.tag == 'c' and y.a[0] > 65535 and self.bounded(x.a[0]):
                return True
            if st.facts.get(f_eq(x, y)) or st.facts.get(mk('lt', y, x)):
                return False
        if f.tag == 'eq':
            if st.facts.get(mk('lt', f.a[0], f.a[1])) or st.facts.get(mk('lt', f.a[1], f.a[0])):
                return False
            # equality with different constants
            for x, y in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                if x.tag in ('c', 'str'):
                    for g, p in st.facts.items():
                        if p and g.tag == 'eq' and y in g.a and any(z.tag == x.tag and z is not x for z in g.a):
                            return False
        if f.tag == 'all':
            # a universal over all elements that is implied by a stronger one
            if f_empty(f.a[0]) in st.facts and st.facts[f_empty(f.a[0])]:
                return True
        return None

    def holds(self, st, f, pol=True):
        f, pol = strip_not(f, pol)
        if f.tag == 'c':
            return bool(f.a[0]) == pol
        return self.known(st, f) == pol

    def branch(self, st, f):
        """[(state, bool)]"""
        out = [(s, True) for s in self.assume(st.copy(), f, True)]
        out += [(s, False) for s in self.assume(st, f, False)]
        return out

    def substate(self, st, m):
        """Replaces terms throughout a state; the states that remain consistent."""
        memo = {}
        st.env = {k: subst(v, m, memo) for k, v in st.env.items()}
        st.ev = tuple(subst(e, m, memo) for e in st.ev)
        facts, st.facts = st.facts, {}
        states = [st]
        for f, p in facts.items():
            g = subst(f, m, memo)
            states = [s2 for s in states for s2 in self.assume(s, g, p)]
            if not states:
                return []
        return states

    # ------------------------------------------------------------ execution
    def exec_body(self, key, frame, st, args):
        if self.depth > 60 or frame.count('>') > 60:
            raise Unproven('call depth')
        if key in [k for k, _, _ in self.stack] and sum(1 for k, _, _ in self.stack if k == key) > 2:
            raise Unproven('recursion: ' + key.split('[')[0])
        b = self.body(key)
        self.used.add(key)
        st = st.copy()
        for i, a in enumerate(args):
            st.env[(frame, i + 1)] = a
        self.depth += 1
        try:
            outs = self.region(b, frame, 0, st, None)
        finally:
            self.depth -= 1
        res = []
        for kind, s, v in outs:
            if kind == 'ret':
                v = self.get(s, frame, 0)
                drop = [x for x in s.env if x[0] == frame or x[0].startswith(frame + '>') or x[0].startswith(frame + '~')
                        or x[0].startswith(frame + '^')]
                if any(True for _ in drop):
                    # a value must not refer to the variables that go away
                    for d in drop:
                        del s.env[d]
                res.append((kind, s, v))
            else:
                res.append((kind, s, v))
        return res

    def region(self, b, frame, start, st, loop):
        """Executes from a block; inside a loop, ends at its head and outside of it."""
        outs, work, first = [], [(start, st)], True
        while work:
            bb, s = work.pop()
            if loop is not None and not first:
                if bb == loop:
                    outs.append(('back', s, None))
                    continue
                if bb not in b.loops[loop]:
                    outs.append(('goto', s, bb))
                    continue
            if bb in b.loops and not (bb == loop and first):
                first = False
                for kind, s2, v in self.mir_loop(b, frame, bb, s):
                    if kind == 'goto':
                        work.append((v, s2))
                    else:
                        outs.append((kind, s2, v))
                continue
            first = False
            self.steps += 1
            if self.steps > MAXSTEPS:
                raise Unproven('too many paths')
            for kind, s2, v in self.block(b, frame, bb, s):
                if kind == 'goto':
                    work.append((v, s2))
                else:
                    outs.append((kind, s2, v))
        return outs

    def block(self, b, frame, bb, st):
        blk = b.blocks[bb]
        for s in blk['s']:
            k = s[0]
            if k == '=':
                v = self.rvalue(st, frame, s[2], b.locals[s[1][0]][0] if not s[1][1] else None)
                self.assign(st, frame, s[1], v)
            elif k == 'dead':
                st.env.pop((frame, s[1]), None)
            elif k == 'setdiscr':
                v = self.read(st, frame, s[1])
                if v.tag == 'agg':
                    self.assign(st, frame, s[1], mk('agg', v.a[0], s[2], v.a[2]))
                else:
                    self.assign(st, frame, s[1], app('setdiscr', v, mk('str', str(s[2]))))
        t = blk['t']
        k = t[0]
        if k == 'goto':
            return [('goto', st, t[1])]
        if k == 'return':
            return [('ret', st, None)]
        if k == 'unreachable':
            return []
        if k == 'drop':
            return [('goto', st, t[2])]
        if k == 'switch':
            return self.switch(st, self.load(st, self.operand(st, frame, t[1])), t)
        if k == 'assert':
            f = self.load(st, self.operand(st, frame, t[1]))
            out = [('goto', s, t[5]) for s in self.assume(st.copy(), f, bool(t[2]))]
            out += [('panic', s, (t[3], t[6], b.key)) for s in self.assume(st, f, not t[2])]
            return out
        if k == 'call':
            return self.call(b, frame, bb, st, t)
        raise Unproven('terminator %s in %s' % (k, b.key.split('[')[0]))

    def switch(self, st, x, t):
        out, ty = [], t[4]
        if x.tag == 'discr':
            v, names = x.a
            nm = dict(names)
            rest = [n for _, n in names]
            for val, bb in t[2]:
                n = nm.get(val)
                if n is None:
                    continue
                if n in rest:
                    rest.remove(n)
                out += [('goto', s, bb) for s in self.assume(st.copy(), f_is(v, n), True)]
            if t[3] is not None:
                states = [st]
                if len(rest) == 1:
                    states = self.assume(st, f_is(v, rest[0]), True)
                elif not rest:
                    states = []
                else:
                    for n in nm.values():
                        if n not in rest:
                            states = [s2 for s in states for s2 in self.assume(s, f_is(v, n), False)]
                out += [('goto', s, t[3]) for s in states]
            return out
        if ty == 'bool':
            for val, bb in t[2]:
                out += [('goto', s, bb) for s in self.assume(st.copy(), x, bool(val))]
            if t[3] is not None:
                seen = {bool(v) for v, _ in t[2]}
                for want in (True, False):
                    if want not in seen:
                        out += [('goto', s, t[3]) for s in self.assume(st.copy(), x, want)]
            return out
        rest = [st]
        for val, bb in t[2]:
            f = f_eq(x, c(val))
            out += [('goto', s, bb) for s in self.assume(st.copy(), f, True)]
            rest = [s2 for s in rest for s2 in self.assume(s, f, False)]
        if t[3] is not None:
            out += [('goto', s, t[3]) for s in rest]
        return out

    # ------------------------------------------------------------ calls
    def call(self, b, frame, bb, st, t):
        cal, args, dest, target, span = t[1], [self.operand(st, frame, o) for o in t[2]], t[3], t[4], t[5]
        self.calls += 1
        self.cur.append((b.key, span))
        self.stack.append((b.key, frame, (target, dest[0])))
        if not span.startswith('/'):
            st.loc = '%s (%s)' % (b.key.split('[')[0], span)
        try:
            if cal['cn'] == '{indirect}' and cal['op'][0] != 'const':
                outs = self.call_value(st, self.operand(st, frame, cal['op']), args, frame + '>%d' % bb)
            else:
                outs = self.invoke(st, frame + '>%d' % bb, cal, args, t)
        finally:
            self.stack.pop()
            self.cur.pop()
        res = []
        for kind, s, v in outs:
            if kind == 'ret':
                if target is None:
                    continue
                self.assign(s, frame, dest, v)
                res.append(('goto', s, target))
            else:
                res.append((kind, s, v))
        if target is None and not any(o[0] == 'panic' for o in outs):
            res.append(('panic', st, ('call ' + cal['cn'], span, b.key)))
        return res

    def invoke(self, st, site, cal, args, t=None):
        """Calls a function; site names the call.  Outcomes: ('ret', state, value) and those that leave the caller."""
        if not isinstance(cal, dict):
            raise Unproven('call of an unknown function')
        if 'ctor' in cal:
            return [('ret', st, agg(cal['ctor'], cal['variant'], tuple(zip(cal['fields'], args))))]
        cn = cal['cn']
        tr = cal.get('trait') or ''
        if tr in ('core::ops::function::FnOnce', 'core::ops::function::FnMut', 'core::ops::function::Fn'):
            tp = self.load(st, args[1])
            n = len(tp.a[2]) if tp.tag == 'agg' else 0
            return self.call_value(st, args[0], [fld(tp, None, str(i)) for i in range(n)], site)
        for h, k in cal.get('nexts') or ():
            self.nexts[h] = k
        for h, k in cal.get('intos') or ():
            self.intos[h] = k
        if cal.get('rcrate') == self.f['crate'] and tr.split('::')[0] in ('core', 'alloc', 'std') and cal.get('key') in self.f['bodies']:
            # an implementation by the crate
            return self.exec_body(cal['key'], site, st, args)
        m = self.models.get(cn)
        if m is None:
            # a trait method, or a method of a type, under a short name
            parts = cn.split('::')
            m = self.models.get('::'.join(parts[-2:])) or self.coll_lookup(cn)
        if m is not None:
            r = m(self, st, site, cal, args, t)
            if r is not None:
                return r
        key = cal.get('key') or self.blanket(cal)
        if key and key in self.f['bodies']:
            return self.exec_body(key, site, st, args)
        return self.unknown(st, site, cal, args)

    def blanket(self, cal):
        """The body of a method of a trait of the crate that is implemented once, for all types, or by its default."""
        tr = cal.get('trait')
        if not tr or tr in OPEN_TRAITS or not any(t['path'] == tr for t in self.f['traits']):
            return None
        impls = [i for i in self.f['impls'] if i.get('trait') == tr]
        if len(impls) != 1 or not str(impls[0]['self']).startswith('param:'):
            return None
        rs = [r for r in self.f['roots'] if r['cn'] == cal['cn'] and r['key'] in self.f['bodies']]
        rs = [r for r in rs if r.get('trait')] or rs
        return rs[0]['key'] if len(rs) == 1 else None

    def unknown(self, st, site, cal, args):
        cn = cal['cn']
        if '::panicking::' in cn:
            from logic import refuted
            if refuted(self, st.facts):
                return []   # not reached
        self.opaque[cn] = self.opaque.get(cn, 0) + 1
        vals = [self.deep(st, a) for a in args]
        for a in args:
            for x in subterms(a):
                if x.tag == 'clos':
                    st.note('escape', cn, x.a[0])
                if x.tag == 'mref':
                    old = self.load(st, x)
                    if old is SELF or old is READER:
                        st.note('escape', cn, old.a[0])
                        st.ev = st.ev + (('unknown', cn, site),)
                        continue
                    self.store(st, x, app('after:' + cn, *vals))
        return [('ret', st, app(cn, *vals))]

    def call_value(self, st, f, args, site):
        g = self.load(st, f)
        if g.tag == 'fn':
            return self.invoke(st, site, self.fns[g], args)
        if g.tag == 'clos':
            key = g.a[0]
            b = self.body(key)
            # a closure taking itself by mutable reference may change what it has captured by value
            ty = b.locals[1][0] if b.argc else ''
            if ty.startswith('&mut') and f.tag != 'mref':
                cell = (site, 'self')
                st = st.copy()
                st.env[cell] = g
                outs = self.exec_body(key, site + '>c', st, [mref(site, 'self', ())] + args)
                res = []
                for kind, s, v in outs:
                    if kind == 'ret':
                        if s.env.get(cell) is not g:
                            s.note('closure-state', key)
                            self.unproven.append('a closure keeps state: ' + key.split('[')[0])
                        s.env.pop(cell, None)
                    res.append((kind, s, v))
                return res
            me = f if ty.startswith('&mut') else g
            return self.exec_body(key, site + '>c', st, [me] + args)
        return self.unknown(st, site, {'cn': 'callv'}, [g] + list(args))

    # ------------------------------------------------------------ loops
    def reach(self, st, roots):
        seen, todo = set(), list(roots)
        while todo:
            x = todo.pop()
            if x in seen or x not in st.env:
                continue
            seen.add(x)
            for y in subterms(st.env[x]):
                if y.tag == 'mref':
                    todo.append((y.a[0], y.a[1]))
        return seen

    def mir_loop(self, b, frame, header, st):
        live = b.live[header]
        sub = (frame + '>', frame + '~', frame + '^')

        def prune(s):
            roots = [k for k in s.env if not (k[0] == frame and k[1] not in live) and not k[0].startswith(sub)]
            if len(roots) == len(s.env):
                return s
            keep = self.reach(s, roots)
            if len(keep) < len(s.env):
                s = s.copy()
                s.env = {k: v for k, v in s.env.items() if k in keep}
            return s

        def runner(s):
            return self.region(b, frame, header, s.copy(), header)
        return self.run_loop(st, runner, frame + '@%d' % header, prune)

    def diff(self, old, new, path=()):
        """The paths at which two values differ."""
        if old is new:
            return []
        if old.tag == 'agg' and new.tag == 'agg' and old.a[0] == new.a[0] and old.a[1] == new.a[1] and \
                [n for n, _ in old.a[2]] == [n for n, _ in new.a[2]]:
            r = []
            for (n, x), (_, y) in zip(old.a[2], new.a[2]):
                r += self.diff(x, y, path + (('f', old.a[1] or None, n),))
            return r
        if old.tag == 'upd' or new.tag == 'upd':
            def flat(v):
                d = {}
                while v.tag == 'upd':
                    d[v.a[1]] = v.a[2]
                    v = v.a[0]
                return v, d
            (o, od), (n, nd) = flat(old), flat(new)
            if o is n:
                r = []
                for k in sorted(set(od) | set(nd)):
                    if '.' in k:
                        return [path]
                    r += self.diff(od.get(k, fld(o, None, k)), nd.get(k, fld(n, None, k)), path + (('f', None, k),))
                return r
        return [path]

    def diffs(self, s0, s1):
        out = set()
        for k, v in s0.env.items():
            w = s1.env.get(k)
            if w is None:
                w = mk('uninit')
            if w is not v:
                for p in self.diff(v, w):
                    out.add((k, p))
        for k in s1.env:
            if k not in s0.env:
                out.add((k, ()))
        return out

    def it_const(self, v):
        """Whether an iterator runs over a collection of a known, small length."""
        if v.tag != 'it':
            return False
        base = v.a[0]
        if base.tag == 'chain':
            return all(self.it_const(x) for x in base.a[0])
        if base.tag == 'B':
            n = length(base.a[1])
            return is_c(n) and n.a[0] <= 64
        return base.tag == 'once'

    def lv(self, lid, p):
        return mk('lv', lid, p[0][0], p[0][1], p[1])

    def widen_it(self, v, tok):
        if v.tag != 'it':
            return None
        base, stages, pos = v.a
        if base.tag == 'chain':
            its, idx = base.a
            if idx >= len(its):
                return v
            w = self.widen_it(its[idx], tok)
            if w is None:
                return None
            return mk('it', mk('chain', its[:idx] + (w,) + its[idx + 1:], idx), stages, pos)
        if base.tag == 'B':
            shape, src = base.a
            if pos.tag == 'c' and pos.a[0] > 0:
                src = mk('tail', src, pos.a[0])
            elif pos.tag in ('rest', 'done'):
                src = mk('restof', src)
            if src in self.active:
                n = 1
                while mk('again', src, n) in self.active:
                    n += 1
                src = mk('again', src, n)
            return mk('it', mk('B', shape, src), stages, mk('g', tok, 0))
        if base.tag in ('gen', 'user'):
            return v
        if base.tag == 'once':
            return None
        return None

    def driver_src(self, v):
        if v.tag != 'it':
            return None
        if v.a[0].tag == 'chain':
            its, idx = v.a[0].a
            return self.driver_src(its[idx]) if idx < len(its) else None
        if v.a[0].tag == 'B' and v.a[2].tag == 'g':
            return v.a[0].a[1]
        return None

    def back_kinds(self, outs, lid):
        """Splits the outcomes of one pass through a loop: back at its head, the next part of a chain, and the rest."""
        backs, parts, rest = [], [], []
        for o in outs:
            if o[0] == 'back':
                backs.append(o)
            elif o[0] == 'skip' and o[2][0] == lid:
                backs.append(o)
            elif o[0] == 'part' and o[2][0] == lid:
                parts.append(o)
            else:
                rest.append(o)
        return backs, parts, rest

    def passed_over(self, st, s):
        """The running loop which a pass through an inner one, doing nothing else, has moved on by one item."""
        los = set()
        for p in self.diffs(st, s):
            v, w = self.rp(st, p), self.rp(s, p)
            if not (v.tag == w.tag == 'it' and v.a[0] is w.a[0] and v.a[1] == w.a[1] and v.a[2].tag == w.a[2].tag == 'g'):
                return None
            (tok, n), (tok2, m) = v.a[2].a, w.a[2].a
            if tok != tok2 or n != 0 or m != 1:
                return None
            los.add(tok[0])
        return los.pop() if len(los) == 1 and los <= set(self.running) else None

    def idle_skips(self, hs, outs, lid, prune):
        """Elements passed over inside of a pass stand for passes which do nothing: the pass must have done nothing before."""
        for o in outs:
            if o[0] == 'skip' and o[2][0] == lid:
                if o[1].ev != hs.ev or any(self.rp(hs, p).tag != 'it' for p in self.diffs(hs, prune(o[1]))):
                    raise Unproven('a loop passes over elements after changes')

    def run_loop(self, st, runner, lid, prune=lambda s: s):
        st = prune(st)
        nseg = len(self.segments)
        outs = runner(st)
        backs, parts, rest = self.back_kinds(outs, lid)
        if any(o[1].reads != st.reads for o in outs) or len(self.segments) > nseg:
            return self.read_loop(st, outs, runner, lid, prune)
        if not backs:
            self.loops.setdefault(lid, 'at most one pass')
            return outs
        outer = None if parts else {self.passed_over(st, prune(o[1])) for o in backs}
        if outer and len(outer) == 1 and None not in outer:
            # looks for an item among those left to a loop around
            lo, = outer
            return rest + [('skip', o[1], (lo,)) for o in backs]
        ch = set()
        for o in backs:
            ch |= self.diffs(st, prune(o[1]))
        eaten = {}
        for p in ch:
            v = self.eaten(self.rp(st, p), [self.rp(o[1], p) for o in backs])
            if v is not None:
                eaten[p] = v
        if eaten:
            # collections of which each pass takes the first element
            st = st.copy()
            for p, v in eaten.items():
                self.wp(st, p, v)
            return self.run_loop(st, runner, lid, prune)
        its = [p for p in ch if self.rp(st, p).tag == 'it']
        unroll = bool(its) and all(self.it_const(self.rp(st, p)) for p in its) and not any(
            self.rp(st, p).a[2].tag == 'g' for p in its)
        if not its and len(backs) == 1 and not any(o[0] == 'goto' for o in rest):
            cs = [self.rp(backs[0][1], p).tag == 'c' for p in ch]
            unroll = all(cs) or any(cs) and backs[0][1].facts == st.facts
        if unroll:
            res, work, n = list(rest), [prune(o[1]) for o in backs], 0
            while work and n < 300:
                s = work.pop()
                n += 1
                b2, p2, r2 = self.back_kinds(runner(s), lid)
                res += r2
                work += [prune(o[1]) for o in b2]
            if not work:
                self.loops[lid] = 'unrolled'
                return res
        W = self.minimal(ch)
        for _ in range(12):
            hs, toks = self.widen(st, W, lid)
            srcs = [self.driver_src(self.rp(hs, p)) for p in W]
            srcs = [s for s in srcs if s is not None]
            self.active += srcs
            self.running.append(lid)
            try:
                outs = runner(hs)
            finally:
                self.running.pop()
                if srcs:
                    del self.active[-len(srcs):]
            self.idle_skips(hs, outs, lid, prune)
            backs, parts, rest = self.back_kinds(outs, lid)
            if len(self.segments) > nseg or any(o[1].reads != st.reads for o in outs):
                raise Unproven('a loop reads the stream in some passes only')
            new = set()
            for o in backs:
                for (k, p) in self.diffs(hs, prune(o[1])):
                    if not any(k == k2 and p[:len(p2)] == p2 for k2, p2 in W):
                        new.add((k, p))
            if not new:
                break
            W = self.minimal(W | new)
        else:
            raise Unproven('a loop does not stabilise')
        return self.summarise(st, hs, sorted(W, key=repr), toks, backs, parts, rest, lid, runner, prune)

    def eaten(self, v, after):
        """The iterator which stands for a collection that has lost its first element after a pass through a loop."""
        if v.tag in ('it', 'uninit', 'mref'):
            return None
        if all(x is slice_(v, c(1), length(v)) for x in after):
            w = self.coll_it(v, 'seq')
            return w if ahead(w)[0] is not None else None
        x = after[0]
        if all(y is x for y in after) and x.tag == 'it' and x.a[0].tag == 'B' and is_c(x.a[2], 1):
            w = self.coll_it(v, x.a[0].a[0])
            if w.tag == 'it' and w.a[0] is x.a[0] and w.a[1] == x.a[1]:
                return w
        return None

    def minimal(self, W):
        return {(k, p) for k, p in W if not any(k == k2 and p2 != p and p[:len(p2)] == p2 for k2, p2 in W)}

    def rp(self, st, p):
        return self.readp(st, p[0], p[1]) if p[0] in st.env else mk('uninit')

    def wp(self, st, p, v):
        if p[0] in st.env or not p[1]:
            st.env[p[0]] = self.write(st, self.get(st, *p[0]), p[1], v)

    def widen(self, st, W, lid):
        hs = st.copy()
        hs.marks = {t: v for t, v in st.marks.items() if t[0] != lid}
        toks = {}
        for p in sorted(W, key=repr):
            v = self.rp(st, p)
            tok = (lid, repr(p))
            w = self.widen_it(v, tok)
            if w is not None:
                toks[p] = tok
                if w is not v:
                    self.wp(hs, p, w)
            elif v.tag != 'uninit':
                self.wp(hs, p, self.lv(lid, p))
            else:
                hs.env.pop(p[0], None)
        return hs, toks

    def summarise(self, st, hs, W, toks, backs, parts, rest, lid, runner, prune):
        driver = None
        n = st.lids.get(lid, 0)
        tag = lid + "'%d" % n if n else lid
        for p in W:
            if p in toks and self.driver_src(self.rp(hs, p)) is not None and \
                    all(o[1].marks.get(toks[p]) == 1 and taken(self.rp(o[1], p)) for o in backs) and \
                    not any(f not in hs.facts and any_sub(f, lambda x: x.tag == 'it') for o in backs for f in o[1].facts):
                driver = p
                break
        lvs = {p: self.lv(lid, p) for p in W}
        exh = lambda s: False
        presub, exsub, src = {}, {}, None
        if driver is not None:
            src = self.driver_src(self.rp(hs, driver))
            exh = lambda s: s.marks.get(toks[driver]) == 'exh'
        else:
            # a counter running up to the length of a collection
            for p in W:
                l = lvs[p]
                if self.rp(st, p) is not c(0) or not all(self.rp(o[1], p) is mk('add', l, c(1)) for o in backs):
                    continue
                cands = None
                for o in backs:
                    vs = set()
                    for f, pol in o[1].facts.items():
                        if f.tag == 'lt' and f.a[0] is l and pol and hs.facts.get(f) is None:
                            vs.add((f, True, f.a[1]))
                        if f.tag == 'eq' and l in f.a and not pol and hs.facts.get(f) is None:
                            vs.add((f, False, f.a[0] if f.a[1] is l else f.a[1]))
                    cands = vs if cands is None else cands & vs
                cands = [(f, pol, x) for f, pol, x in cands or () if x.tag == 'len' and not contains(x, l)
                         and not any(contains(x, lvs[q]) for q in W)]
                if cands:
                    f, pol, x = min(cands, key=lambda y: y[2].n)
                    src = x.a[0]
                    driver = p
                    presub = {l: mk('ix', src)}
                    exsub = {l: x}
                    exh = lambda s, f=f, pol=pol: s.facts.get(f) == (not pol)
                    break
        if driver is None:
            self.loops[lid] = 'unproven'
            self.open_loops[lid] = (hs, [o[1] for o in backs], lvs)
            self.unproven.append('a loop is not shown to end: ' + self.where())
            res = []
            for o in rest + parts:
                m = {lvs[p]: mk('run', tag, lvs[p]) for p in W}
                for s in self.substate(o[1].copy(), m):
                    s.note('loop', lid)
                    res.append((o[0] if o[0] != 'part' else 'goto', s, o[2]))
            return res
        self.loops[lid] = 'summarised'
        # what a pass does
        variants, pres = [], []
        cur = {lvs[p]: mk('cur', self.rp(st, p)) for p in W if p != driver and self.rp(st, p).tag != 'it'}
        for o in backs:
            ss = self.substate(o[1].copy(), presub) if presub else [o[1]]
            for s in [y for x in ss for y in self.chosen(hs, x, src)]:
                for s2, pre in self.split(s, W, lvs):
                    if self.feasible(st, src, s2, hs):
                        variants.append((o[0], s2))
                        pres.append(pre)
        # a collection which starts empty and gets entries under a key of its own for each element has none under it before
        for p in W:
            if p == driver or p in toks or self.rp(st, p).tag != 'empty':
                continue
            l = lvs[p]
            ks = set()
            for _, s in variants:
                v = self.rp(s, p)
                ops = coll_ops(v)[1] if v.tag == 'cop' and coll_ops(v)[0] is l else () if v is l else (('?',),)
                ks |= {o[1] if o[0] == 'ins' else None for o in ops}
            k = next(iter(ks)) if len(ks) == 1 else None
            if k is None or not distinct(k, src):
                continue
            none_yet = [mk('is', app('mget', l, k), 'Some'), app('contains', l, k)]
            keep = [i for i, (_, s) in enumerate(variants) if not any(s.facts.get(f) for f in none_yet)]
            variants, pres = [variants[i] for i in keep], [pres[i] for i in keep]
            for _, s in variants:
                for f in none_yet:
                    s.facts.pop(f, None)
        h0 = hs.facts
        fdelta = []
        for kind, s in variants:
            fs = frozenset((f, p) for f, p in s.facts.items() if h0.get(f) is not p)
            fs = frozenset((f, p) for f, p in fs if f is not f_empty(src))
            fdelta.append(subst(fs, cur))
        evs = [s.ev[len(hs.ev):] for _, s in variants]
        # the effect on each widened variable
        final, flags, counters = {}, [], {}
        for p in W:
            if p == driver or p in toks:
                continue
            l, init = lvs[p], self.rp(st, p)
            vals = [self.rp(s, p) for _, s in variants]
            if all(v is l for v in vals):
                final[p] = init
            elif any(v.tag == 'cop' for v in vals) and all(v.tag == 'cop' and coll_ops(v)[0] is l or v is l for v in vals):
                vs = []
                okk = True
                for v, fs in zip(vals, fdelta):
                    ops = tuple(subst(op, cur) for op in coll_ops(v)[1])
                    vs.append((fs, ops))
                final[p] = cop(init, 'each', src, tuple(vs))
            elif all(v is mk('add', l, c(1)) for v in vals):
                final[p] = binop('Add', init, length(src), 'usize')
                counters[p] = init
            elif all(v is mk('add', l, c(1)) or v is l for v in vals):
                vs = tuple((fs, (('n',),) if v is not l else ()) for v, fs in zip(vals, fdelta))
                final[p] = binop('Add', init, mk('count', src, vs), 'usize')
            elif all(v is l or not contains(v, l) for v in vals) and not any(
                    contains(v, lvs[q]) for v in vals if v is not l for q in W if q != driver):
                flags.append(p)
            else:
                final[p] = mk('run', tag, l, init)
        # states after the last element
        cases = []
        unchanged = [i for i, (_, s) in enumerate(variants) if all(self.rp(s, p) is lvs[p] for p in flags)]
        # (as long as nothing changes, each pass finds the initial values)
        allf = self.all_fact(src, [fdelta[i] for i in unchanged if not any(
            is_c(self.rp(st, p)) and bool(self.rp(st, p).a[0]) != b for p, b in pres[i].items())])
        cases.append((dict((p, self.rp(st, p)) for p in flags), [(allf, True)], {}))
        for i, (_, s) in enumerate(variants):
            if i in unchanged:
                continue
            w = self.witness(tag, src)
            vals = {}
            for p in flags:
                v = self.rp(s, p)
                if v is lvs[p]:
                    if any(self.rp(s2, p) is not lvs[p] for _, s2 in variants):
                        v = mk('run', tag, lvs[p])
                    else:
                        v = self.rp(st, p)
                vals[p] = subst(subst(v, cur), w)
            ff = [(subst(f, w), pol) for f, pol in fdelta[i]] + [(f_empty(src), False), (self.all_fact(src, fdelta), True)]
            if flags:
                cases.append((vals, ff, {}))
        if not flags:
            cases = [({}, [(allf, True)], {})]
        hasev = any(evs)
        res = []
        marks0 = st.marks
        # those that leave after the last element
        for o in rest + parts:
            s0 = o[1]
            last = exh(s0) or o[0] == 'part'
            if last:
                for vals, ff, _ in cases:
                    m = {}
                    for p in W:
                        if p == driver:
                            continue
                        if p in vals:
                            m[lvs[p]] = vals[p]
                        elif p in final:
                            m[lvs[p]] = final[p]
                    m.update(exsub)
                    for s in self.substate(s0.copy(), m):
                        ss = [s]
                        for f, pol in ff:
                            ss = [s3 for s2 in ss for s3 in self.assume(s2, f, pol)]
                        for s2 in ss:
                            if hasev:
                                s2.ev = s2.ev[:len(hs.ev)] + (('loop', src, tuple(
                                    (fd, subst(e, cur)) for fd, e in zip(fdelta, evs))),) + s2.ev[len(hs.ev):]
                                s2.ver = s2.ver + 1 if s2.ver != st.ver or any(
                                    v.ver != hs.ver for _, v in variants) else s2.ver
                            if o[0] == 'part':
                                res += self.run_loop(s2, runner, lid, prune)
                            else:
                                res.append((o[0], s2, o[2]))
            else:
                w = self.witness(tag, src)
                m = {}
                for p in W:
                    if p == driver:
                        continue
                    init = self.rp(st, p)
                    if p in final:
                        f = final[p]
                        if f is init:
                            m[lvs[p]] = init
                        elif p in counters:
                            m[lvs[p]] = binop('Add', init, mk('wit', tag, mk('ix', src)), 'usize')
                        elif f.tag == 'cop':
                            m[lvs[p]] = mk('part', tag, init, f)
                        else:
                            m[lvs[p]] = mk('run', tag, lvs[p])
                    elif p in flags:
                        m[lvs[p]] = mk('run', tag, lvs[p])
                m.update({k: subst(v, w) for k, v in presub.items()})
                m.update(w)
                # flags that no completed pass changes keep their value
                if flags and not [i for i in range(len(variants)) if i not in unchanged]:
                    for p in flags:
                        m[lvs[p]] = self.rp(st, p)
                flagcases = [({}, ())]
                if flags:
                    flagcases = [({lvs[p]: self.rp(st, p) for p in flags}, ())]
                    w2 = self.witness(tag + '^', src)   # an element of an earlier pass
                    for i, (_, s) in enumerate(variants):
                        if i not in unchanged:
                            vv = [subst(subst(self.rp(st, p) if self.rp(s, p) is lvs[p] else self.rp(s, p), cur), w2)
                                  for p in flags]
                            fc = ({lvs[p]: v for p, v in zip(flags, vv)},
                                  tuple((subst(f, w2), pol) for f, pol in sorted(fdelta[i], key=lambda x: x[0].n)))
                            if fc not in flagcases:
                                flagcases.append(fc)
                for fc, ff in flagcases:
                    m2 = dict(m)
                    m2.update(fc)
                    for s in self.substate(s0.copy(), m2):
                        ss = self.assume(s, f_empty(src), False)
                        for f, pol in ff:
                            ss = [s3 for s2 in ss for s3 in self.assume(s2, f, pol)]
                        for s2 in ss:
                            if hasev:
                                s2.ev = s2.ev[:len(hs.ev)] + (('loop', src, tuple(
                                    (fd, subst(e, cur)) for fd, e in zip(fdelta, evs))),) + s2.ev[len(hs.ev):]
                            res.append((o[0], s2, o[2]))
        for o in res:
            o[1].lids = dict(o[1].lids)
            o[1].lids[lid] = max(n + 1, o[1].lids.get(lid, 0))
        return res

    def chosen(self, hs, s, src):
        """What a pass takes from another collection depends on the element of the pass."""
        old = set()
        for f in hs.facts:
            old |= wits(f)
        for v in hs.env.values():
            old |= wits(v)
        new, vals = set(), list(s.facts) + list(s.env.values())
        for f in vals:
            new |= wits(f)
        for e in s.ev:
            new |= wits(e)
        new = {(w.a[0], w.a[1].a[0]) for w in new - old}
        if not new:
            return [s]
        m = {}
        for tag, other in new:
            ix = mk('wit', tag, mk('ix', other))
            same = [f.a[0] if f.a[1] is ix else f.a[1] for f, p in s.facts.items() if p and f.tag == 'eq' and ix in f.a]
            same = [x for x in same if not wits(x)]
            if same:
                x = min(same, key=lambda x: x.n)
                m.update({ix: x, mk('wit', tag, mk('el', other)): at(other, x)})
                new = new - {(tag, other)}
        if m:
            s.facts = {f: p for f, p in s.facts.items() if not (p and f.tag == 'eq' and any(x in m for x in f.a))}
        for tag, other in new:
            for b in bound(other):
                m[mk('wit', tag, b)] = app('chosen', mk('str', tag), mk('ix', src), mk('key', src), b)
        return self.substate(s.copy(), m)

    def split(self, s, W, lvs):
        """Boolean variables updated with a formula over their old value: one state per outcome, with the old values assumed."""
        states = [(s, {})]
        for p in W:
            l = lvs[p]
            nxt = []
            for x, pre in states:
                v = self.rp(x, p)
                if v.tag == 'c' and x.facts.get(l) is bool(v.a[0]):
                    # (the value it has had)
                    x, pre = x.copy(), dict(pre)
                    pre[p] = x.facts.pop(l)
                    self.wp(x, p, l)
                    nxt.append((x, pre))
                elif v is not l and (is_bool(v) or v.tag == 'ite') and v.tag != 'c':
                    for y, t in self.branch(x.copy(), v):
                        # and(l, cond) holding means that nothing has changed
                        z, pr = y.copy(), pre
                        if (contains(v, l) or l in z.facts) and (self.holds(z, l) if t else z.facts.get(l) is False):
                            z.facts.pop(l, None)
                            pr = dict(pre)
                            pr[p] = t
                            self.wp(z, p, l)
                        else:
                            if l in z.facts:
                                z.facts.pop(l)
                            self.wp(z, p, c(1 if t else 0))
                        nxt.append((z, pr))
                else:
                    nxt.append((x, pre))
            states = nxt
        return states

    def all_fact(self, src, fds):
        return f_all(src, fds)

    def feasible(self, st, src, s, hs):
        """Whether a pass is consistent with what is known about all the elements."""
        for f, pol in st.facts.items():
            if f.tag == 'all' and pol and f.a[0] is src:
                okk = False
                for fs in f.a[1]:
                    if not any(s.facts.get(g) is (not p) for g, p in fs):
                        okk = True
                        break
                if not okk:
                    return False
        return True

    def witness(self, lid, src):
        tag = lid
        m = {}
        for e in (mk('el', src), mk('ix', src), mk('key', src), mk('val', src)):
            m[e] = mk('wit', tag, e)
        return m

    def where(self):
        for k, sp in reversed(self.cur):
            if not sp.startswith('/'):
                return '%s (%s)' % (k.split('[')[0], sp)
        return '?'

    # ------------------------------------------------------------ the stream of operations
    def read_loop(self, st, outs, runner, lid, prune):
        """A loop that takes operations from the stream: all the states its head is reached in, one by one."""
        self.loops[lid] = 'one read per pass'
        seen, res, queue = {self.head_key(st)}, [], [(st, outs)]
        while queue:
            h, outs = queue.pop()
            backs, parts, rest = self.back_kinds(outs, lid)
            res += rest + [('goto', o[1], o[2]) for o in parts]
            for o in backs:
                if o[1].reads == h.reads:
                    self.unproven.append('a loop over the stream has a pass that reads nothing: ' + self.where())
                s = prune(o[1])
                k = self.head_key(s)
                if k not in seen:
                    seen.add(k)
                    if len(seen) > 4000:
                        raise Unproven('too many states at a loop')
                    queue.append((s, runner(s)))
        return res

    def head_key(self, s):
        return (frozenset(s.env.items()), frozenset(s.facts.items()), s.ev, s.k, s.ver, s.rd)

    def cut(self, st):
        """Ends the handling of an operation at the next read: forgets all that depends on it.  The states that result."""
        # only what is used later matters
        keep = set()
        for key, frame, (target, dest) in self.stack:
            b = self.body(key)
            if target is not None:
                live = b.live[target] - {dest}
                keep |= {(frame, l) for l in live}
        frames = {fr for _, fr, _ in self.stack}
        roots = [k for k in st.env if k in keep or k[0] not in frames]
        keep = self.reach(st, roots)
        s = st.copy()
        s.env = {k: v for k, v in s.env.items() if k in keep}

        def old(x):
            return x is BLOCK or x.tag in ('wit', 'hv', 'pos', 'lv', 'cur')

        def dep(t):
            return any_sub(t, old)
        states = [s]
        out = []
        while states:
            s = states.pop()
            again = False
            for k, v in list(s.env.items()):
                for p, x in leaves(v):
                    if dep(x) and (is_bool(x)) and x.tag != 'c':
                        for s2, tv in self.branch(s.copy(), x):
                            s2.env[k] = self.write(s2, s2.env[k], p, c(1 if tv else 0))
                            states.append(s2)
                        again = True
                        break
                if again:
                    break
            if again:
                continue
            for k, v in list(s.env.items()):
                s.env[k] = self.age(v, k, (), dep, (st.prev or {}).get(k))
                if st.k:
                    for p, x in leaves(s.env[k]):
                        if x.tag in ('hv', 'empty'):
                            (self.hvs if x.tag == 'hv' else self.empties).add((k[0], k[1], tuple(n[2] for n in p)))
            s.facts = {f: p for f, p in s.facts.items() if not dep(f)}
            s.ev, s.ver = (), 0
            s.k = min(st.k + 1, 2)
            s.reads = st.reads + 1
            s.marks, s.lids = {}, {}
            s.prev = s.env
            s.start = dict(s.env)
            out.append(s)
        return out

    def age(self, v, cell, path, dep, prev):
        if v.tag == 'agg' and v.a[2]:
            pv = {}
            if prev is not None and prev.tag == 'agg' and prev.a[1] == v.a[1]:
                pv = dict(prev.a[2])
            return mk('agg', v.a[0], v.a[1], tuple(
                (n, self.age(x, cell, path + (n,), dep, pv.get(n))) for n, x in v.a[2]))
        if v.tag == 'empty' and (cell[0], cell[1], path) in self.force and prev is not None:
            return mk('hv', cell[0], cell[1], path)
        if v.tag == 'it':
            base, stages, pos = v.a
            if pos.tag == 'c' and pos.a[0] > 0 or pos.tag == 'pos':
                pos = mk('pos', cell[0], cell[1], path)
            if not dep(base) and not any(dep(x) for x in stages):
                return mk('it', base, stages, pos)
        if v.tag == 'clos' and dep(v):
            return mk('clos', v.a[0], tuple(self.age(x, cell, path + (str(i),), dep, None) for i, x in enumerate(v.a[1])))
        if v.tag == 'pos' or v.tag == 'add' and any(x.tag == 'pos' for x in v.a):
            return mk('pos', cell[0], cell[1], path)
        if dep(v) or v.tag == 'app' and prev is not None and prev is not v and contains(v, prev):
            return mk('hv', cell[0], cell[1], path)
        if v.tag == 'c' and v.a[0] > 1 or (v.tag == 'c' and v.a[0] == 1 and prev is c(0) and cell in self.intcells):
            if prev is not None and prev is not v:
                return mk('pos', cell[0], cell[1], path)
        if v.tag == 'add':
            return mk('hv', cell[0], cell[1], path)
        return v

    def is_int_cell(self, cell):
        for key, frame, _ in self.stack:
            if frame == cell[0] and isinstance(cell[1], int):
                ty = self.body(key).locals[cell[1]][0]
                return ty in INTW and ty != 'bool'
        return False

    @property
    def intcells(self):
        return _IntCells(self)

    def read_operation(self, st, site, args):
        """The next operation of the stream."""
        ok_reader = self.load(st, args[0]) is READER
        self.record(st, 'next', None)
        res = []
        for s in self.cut(st):
            if not ok_reader:
                s.note('reader', site)
            key = (tuple((k, f, t) for k, f, t in self.stack), site, frozenset(s.env.items()),
                   frozenset(s.facts.items()), s.k)
            if key in self.seen:
                continue
            self.seen.add(key)
            a, b, d = s.copy(), s.copy(), s
            a.rd, b.rd, d.rd = 'err', 'end', 'op'
            res.append(('ret', a, err(app('stream_error'))))
            res.append(('ret', b, ok(none())))
            res.append(('ret', d, ok(some(BLOCK))))
        return res

    def record(self, st, how, val):
        self.segments.append({'k': st.k, 'rd': st.rd, 'facts': st.facts, 'ev': st.ev, 'start': st.start, 'env': dict(st.env),
                              'how': how, 'val': val, 'notes': st.notes, 'at': st.loc})


class _IntCells:
    def __init__(self, it):
        self.it = it

    def __contains__(self, cell):
        return self.it.is_int_cell(cell)


def leaves(v, path=()):
    if v.tag == 'agg' and v.a[2]:
        for n, x in v.a[2]:
            yield from leaves(x, path + (('f', v.a[1] or None, n),))
    else:
        yield path, v


CMP = {'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'}


def binop(op, a, b, ty):
    if op in CMP:
        if a.tag == 'discr' and b.tag == 'c':
            nm = dict(a.a[1])
            if b.a[0] in nm and op in ('Eq', 'Ne'):
                f = f_is(a.a[0], nm[b.a[0]])
                return f if op == 'Eq' else f_not(f)
        if op == 'Eq':
            return f_eq(a, b)
        if op == 'Ne':
            return f_not(f_eq(a, b))
        if op == 'Lt':
            return f_lt(a, b)
        if op == 'Gt':
            return f_lt(b, a)
        if op == 'Le':
            return f_not(f_lt(b, a))
        return f_not(f_lt(a, b))
    if ty == 'bool':
        if op == 'BitAnd':
            return f_and(a, b)
        if op == 'BitOr':
            return f_or(a, b)
        if op == 'BitXor':
            return f_not(f_eq(a, b))
    if op.endswith('WithOverflow'):
        o = op[:-len('WithOverflow')]
        return tup(binop(o, a, b, ty), ovf(o, a, b, ty))
    if a.tag == 'c' and b.tag == 'c':
        x, y = a.a[0], b.a[0]
        try:
            n = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Div': lambda: x // y,
                 'Rem': lambda: x % y, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                 'Shl': lambda: x << y, 'Shr': lambda: x >> y}[op.replace('Unchecked', '')]()
            w = INTW.get(ty)
            if w and ty[0] == 'u':
                n &= (1 << w) - 1
            return c(n)
        except (KeyError, ZeroDivisionError):
            pass
    if op in ('Add', 'AddUnchecked'):
        if is_c(a, 0):
            return b
        if is_c(b, 0):
            return a
        if a.tag == 'c':
            a, b = b, a
        if a.tag == 'pos' and b.tag == 'c' and b.a[0] > 0:
            return a
        if a.tag == 'app' and a.a[0] == 'op:Sub' and a.a[1][1] is b:
            return a.a[1][0]
        return mk('add', a, b)
    if op in ('Sub',) and is_c(b, 0):
        return a
    if op == 'Sub' and a.tag == 'add' and a.a[1] is b:
        return a.a[0]
    return app('op:' + op, a, b)


def ovf(op, a, b, ty):
    """Whether an operation overflows."""
    if a.tag == 'c' and b.tag == 'c':
        w = INTW.get(ty)
        x, y = a.a[0], b.a[0]
        n = {'Add': x + y, 'Sub': x - y, 'Mul': x * y}.get(op)
        if n is None or not w:
            return mk('ovf', op, a, b, ty)
        lo, hi = (0, (1 << w) - 1) if ty[0] == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        return c(not lo <= n <= hi)
    if op == 'Add':
        for x, y in ((a, b), (b, a)):
            # positions and counts of elements of collections, which fit 16 bits
            if eltop(x) and y.tag == 'c' and y.a[0] <= 1 and (ty in ('usize', 'u64', 'u128', 'u32') or (
                    ty == 'u16' and (x.tag == 'ix' or x.tag == 'wit'))):
                return FALSE
            if x.tag in ('pos', 'lv') and y.tag == 'c' and y.a[0] <= 1 and ty in ('usize', 'u64', 'u128'):
                return FALSE
        if ty in ('usize', 'u64', 'u128') and (eltop(a) or a.tag == 'c') and (eltop(b) or b.tag == 'c'):
            return FALSE
    return mk('ovf', op, a, b, ty)


def _rebuild(tag, a, old=TM.rebuild):
    if tag == 'ovf':
        return ovf(*a)
    if tag == 'add':
        return binop('Add', a[0], a[1], '')
    return old(tag, a)


TM.rebuild = _rebuild
TM.BOOLTAGS.add('ovf')
