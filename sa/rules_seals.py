"""The rules about seals (C14, C15), copies (C20) and encodings (C19) of operations with their seals."""
import re
from terms import *
from interp import Interp, St, Unproven
from rules import Report, short, refuted, entails, panicky, possible_panic

AUTH = 'rgbcore::seals::RgbSealDef::auth_token'
RESOLVE = 'rgbcore::seals::RgbSealDef::resolve'
TOSRC = 'rgbcore::seals::RgbSealDef::to_src'
WTXO = 'seals::wtxout::WTxoSeal'
OPSEALS = 'rgbcore::verify::OperationSeals'
A0, A1 = sym('a0'), sym('a1')
FORMATTER = ('Z', 'f')
PARTS = (('operation', 'operation'), ('defined_seals', 'definedSeals'), ('witness', 'witness'))


class Run:
    """A function of the crate, analysed for arbitrary arguments."""

    def __init__(self, facts, r, rep, props, fmt=False):
        self.f, self.r, self.rep, self.props = facts, r, rep, props
        self.I = Interp(facts)
        self.outs = None
        self.name = '%s for %s (%s)' % (r['cn'].split('::')[-1], str(r.get('self') or '').split('::')[-1], r['span'])
        b = facts['bodies'].get(r['key'])
        if b is None:
            self.fail(props, 'no-body', 'has no body to analyse')
            return
        try:
            st, args = St(), [sym('a%d' % i) for i in range(b['argc'])]
            if fmt:  # a formatter, which remembers what is written to it
                st.env[FORMATTER] = A1
                args[1] = mk('mref', FORMATTER[0], FORMATTER[1], ())
            outs = self.I.exec_body(r['key'], 'E', st, args)
        except (Unproven, RecursionError) as e:
            self.fail(props, 'undecided', 'has a form the analysis cannot follow: %s' % e)
            return
        self.outs = [(k, s, self.I.deep(s, v) if isinstance(v, T) else v) for k, s, v in outs
                     if not s.facts or not refuted(self.I, s.facts)]
        rep.paths += len(self.outs)

    def fail(self, props, code, text):
        self.rep.fail(props, '%s-%s' % (self.r['cn'].split('::')[-1], code), '%s %s' % (self.name, text))

    def rets(self):
        return [(s, v) for k, s, v in self.outs or () if k == 'ret']

    def cond(self, s):
        return '; '.join(('' if p else 'not ') + short(f, 80) for f, p in list(s.facts.items())[:8])


def root(facts, cn, self_):
    return [r for r in facts['roots'] if r['cn'] == cn and r.get('self') == self_ and r.get('trait')]


def the_root(facts, cn, self_, rep, props):
    rs = root(facts, cn, self_)
    if len(rs) != 1:
        rep.fail(props, 'no-' + cn.split('::')[-1], '%s for %s was not found' % (cn, self_))
        return None
    return rs[0]


def cases(I, s, v):
    """A value under the facts of a state: its conditional parts resolved by cases."""
    work, out = [(s, v)], []
    while work:
        s, v = work.pop()
        if not isinstance(v, T):
            out.append((s, v))
            continue
        g = next((x for x in sorted(subterms(v), key=lambda x: x.n) if x.tag == 'ite'), None)
        if g is None or len(out) + len(work) > 200:
            out.append((s, v))
            continue
        for s2, b in I.branch(s.copy(), g.a[0]):
            if not refuted(I, s2.facts):
                work.append((s2, subst(v, {g: g.a[1] if b else g.a[2]})))
    return out


def has_bitcoin(facts):
    return any(x in facts['features'] for x in ('feature=bitcoin', 'feature=liquid'))


def seals(facts, rep):
    if not has_bitcoin(facts):
        return
    r = the_root(facts, AUTH, WTXO, rep, ('C14',))
    if r:
        auth_token(Run(facts, r, rep, ('C14',)))
    r = the_root(facts, RESOLVE, WTXO, rep, ('C15',))
    if r:
        resolve(Run(facts, r, rep, ('C15',)))
    r = the_root(facts, TOSRC, WTXO, rep, ('C15',))
    if r:
        to_src(Run(facts, r, rep, ('C15',)))


def no_panic(x, props):
    for k, s, v in x.outs or ():
        if k == 'panic':
            x.fail(props, 'panic', 'gives no result but panics (%s at %s) under [%s]' % (v[0], v[1], x.cond(s)))


def auth_token(x):
    want = slice_(app('commit_id', A0), c(0), c(30))
    no_panic(x, ('C14',))
    n = 0
    for s, v in x.rets():
        for s2, w in cases(x.I, s, v):
            n += 1
            x.rep.ob('C14', sample='%s: under [%s] returns %s' % (x.name, x.cond(s2), short(w, 200)))
            if w is not want:
                x.fail(('C14',), 'value', 'is, under [%s], %s instead of the first 30 bytes of the commitment id of the whole '
                       'definition' % (x.cond(s2), short(w, 300)))
    if x.outs is not None and not n:
        x.fail(('C14',), 'none', 'returns nothing')


PRIM, SEC = fld(A0, None, 'primary'), fld(A0, None, 'secondary')
IS_EXT = f_is(PRIM, 'Extern')
TWO = [f_is(PRIM, 'Extern'), f_is(PRIM, 'Wout')]


def kinds(x, s, v):
    """The value for self-contained and for witness-relative definitions."""
    for ext in (True, False):
        for s1 in x.I.assume(s.copy(), TWO[0], ext):
            for s2 in x.I.assume(s1, TWO[1], not ext):
                if refuted(x.I, s2.facts):
                    continue
                for s3, w in cases(x.I, s2, v):
                    yield ext, s3, w


def seal_is(x, s, w, ext, txid):
    """What is wrong with a seal, if anything."""
    if fld(w, None, 'secondary') is not SEC:
        return 'the fallback part is %s, not that of the definition' % short(fld(w, None, 'secondary'), 160)
    p = fld(w, None, 'primary')
    if ext:
        if p is not fld(PRIM, 'Extern', '0'):
            return 'the primary outpoint of a self-contained definition is %s' % short(p, 160)
    else:
        if fld(p, None, 'txid') is not txid:
            return 'the transaction of a witness-relative definition is %s, not the given one' % short(fld(p, None, 'txid'), 160)
        if fld(p, None, 'vout') is not fld(PRIM, 'Wout', '0'):
            return 'the output of a witness-relative definition is %s' % short(fld(p, None, 'vout'), 160)


def resolve(x):
    no_panic(x, ('C15',))
    seen = set()
    for s, v in x.rets():
        for ext, s2, w in kinds(x, s, v):
            seen.add(ext)
            x.rep.ob('C15', sample='%s: %s definition gives %s' % (x.name, 'self-contained' if ext else 'witness-relative', short(w, 200)))
            bad = seal_is(x, s2, w, ext, A1)
            if bad:
                x.fail(('C15',), 'ext' if ext else 'wout', 'is not faithful: %s (under [%s])' % (bad, x.cond(s2)))
    if x.outs is not None and len(seen) != 2:
        x.fail(('C15',), 'cases', 'does not resolve every definition')


def to_src(x):
    no_panic(x, ('C15',))
    seen = set()
    for s, v in x.rets():
        for ext, s2, w in kinds(x, s, v):
            seen.add(ext)
            x.rep.ob('C15', sample='%s: %s definition gives %s' % (x.name, 'self-contained' if ext else 'witness-relative', short(w, 200)))
            want = f_is(w, 'Some')
            if not entails(x.I, s2.facts, want, ext):
                x.fail(('C15',), 'when-ext' if ext else 'when-wout', 'gives %s for a %s definition, under [%s]' % (
                    short(w, 160), 'self-contained' if ext else 'witness-relative', x.cond(s2)))
            elif ext:
                bad = seal_is(x, s2, fld(w, 'Some', '0'), True, None)
                if bad:
                    x.fail(('C15',), 'ext', 'is not faithful: %s (under [%s])' % (bad, x.cond(s2)))
    if x.outs is not None and len(seen) != 2:
        x.fail(('C15',), 'cases', 'does not cover every definition')


# ---------------------------------------------------------------- copies

def copies(facts, rep):
    adt = [a for a in facts['adts'] if a['path'] == OPSEALS]
    r = the_root(facts, 'core::clone::Clone::clone', OPSEALS, rep, ('C20',))
    if len(adt) != 1 or len(adt[0]['variants']) != 1:
        rep.fail(('C20', 'C19'), 'no-type', 'the structure %s was not found' % OPSEALS)
        return
    names = [f[0] for f in adt[0]['variants'][0]['fields']]
    for n, _ in PARTS:
        if n not in names:
            rep.fail(('C20', 'C19'), 'no-field-' + n, '%s has no field %s' % (OPSEALS, n))
    if not r:
        return
    x = Run(facts, r, rep, ('C20',))
    no_panic(x, ('C20',))
    k = 0
    for s, v in x.rets():
        for s2, w in cases(x.I, s, v):
            for n in names:
                k += 1
                x.rep.ob('C20', sample='%s: %s is %s' % (x.name, n, short(fld(w, None, n), 100)))
                if not same(x.I, s2, fld(w, None, n), fld(A0, None, n)):
                    x.fail(('C20',), n, 'gives, under [%s], for %s %s' % (x.cond(s2), n, short(fld(w, None, n), 200)))
    if x.outs is not None and not k:
        x.fail(('C20',), 'none', 'returns nothing')
    # clone_from, if given, must leave such a copy as well
    for r in root(facts, 'core::clone::Clone::clone_from', OPSEALS):
        clone_from(facts, r, rep, names)


def clone_from(facts, r, rep, names):
    I = Interp(facts)
    st = St()
    st.env[('Z', 'd')] = A0
    try:
        outs = I.exec_body(r['key'], 'E', st, [mk('mref', 'Z', 'd', ()), A1])
    except (Unproven, RecursionError) as e:
        rep.fail(('C20',), 'clone_from-undecided', 'clone_from (%s) has a form the analysis cannot follow: %s' % (r['span'], e))
        return
    for k, s, v in outs:
        if s.facts and refuted(I, s.facts):
            continue
        w = s.env.get(('Z', 'd'))
        for n in names:
            rep.ob('C20')
            if k == 'panic' or not same(I, s, fld(w, None, n), fld(A1, None, n)):
                rep.fail(('C20',), 'clone_from-' + n, 'clone_from (%s) leaves %s for %s' % (r['span'], short(fld(w, None, n), 200), n))


def same(I, s, v, want):
    """Whether a value is another one, under the facts of a state."""
    if v is want:
        return True
    if v.tag == 'agg' and v.a[1] in ('Some', 'None'):
        # an option taken apart
        if v.a[1] == 'None':
            return entails(I, s.facts, f_is(want, 'Some'), False)
        return entails(I, s.facts, f_is(want, 'Some')) and same(I, s, v.a[2][0][1], fld(want, 'Some', '0'))
    if v.tag == 'agg' and v.a[1] == '':
        return all(same(I, s, x, fld(want, None, n)) for n, x in v.a[2])
    return False


# ---------------------------------------------------------------- encodings

def encodings(facts, rep):
    r = the_root(facts, 'strict_encoding::traits::StrictEncode::strict_encode', OPSEALS, rep, ('C19',))
    if r:
        strict_encode(Run(facts, r, rep, ('C19',)))
    r = the_root(facts, 'strict_encoding::traits::StrictDecode::strict_decode', OPSEALS, rep, ('C19',))
    if r:
        strict_decode(Run(facts, r, rep, ('C19',)))
    declared(facts, rep)
    if 'feature=serde' in facts['features']:
        r = the_root(facts, 'serde::ser::Serialize::serialize', OPSEALS, rep, ('C19',))
        names, written_as = serialize(Run(facts, r, rep, ('C19',))) if r else (None, None)
        r = the_root(facts, 'serde::de::Deserialize::deserialize', OPSEALS, rep, ('C19',))
        if r:
            deserialize(facts, r, rep, names, written_as)


def declared(facts, rep):
    """What the type is declared as: names of the library, of the type and of its fields (the reader compares them with those read)."""
    for tr, want in (('StrictType', {'STRICT_LIB_NAME': ['RGB']}), ('StrictStruct', {'ALL_FIELDS': [n for _, n in PARTS]})):
        impls = [i for i in facts['impls'] if i.get('trait') == 'strict_encoding::types::' + tr and i['self'] == OPSEALS]
        if len(impls) != 1:
            rep.fail(('C19',), 'no-' + tr, '%s has %d implementations of %s' % (OPSEALS, len(impls), tr))
            continue
        i = impls[0]
        for name, names in want.items():
            rep.ob('C19', sample='%s is %s' % (name, ', '.join(names)))
            got = dict((k, strings(v)) for k, v in i['consts']).get(name)
            if got != names:
                rep.fail(('C19',), name.lower(), '%s of %s (%s) is %s in place of %s' % (name, OPSEALS, i['span'], got, names))
        rep.ob('C19')
        if 'strict_name' in i['items']:
            r = the_root(facts, 'strict_encoding::types::StrictType::strict_name', OPSEALS, rep, ('C19',))
            x = Run(facts, r, rep, ('C19',)) if r else None
            for s, v in x.rets() if x else ():
                if not any_sub(v, lambda y: y.tag == 'str' and y.a[0] == 'OperationSeals'):
                    x.fail(('C19',), 'strict-name', 'does not name the type OperationSeals, but %s' % short(v, 200))


def strings(v):
    """The strings of a constant."""
    v = v or {}
    if 'ref' in v:
        return strings(v['ref'])
    return [v['str']] if 'str' in v else [y for x in v.get('vals', ()) for y in strings(x)]


def closure_of(x, name, what):
    """The closure handed by a function to the reader or writer, with the states it is handed over in."""
    out = []
    for s, v in x.rets():
        ok_ = v.tag == 'app' and v.a[0].endswith('::' + name) and len(v.a[1]) == 2
        if not ok_:
            x.fail(('C19',), 'form', '%s: under [%s] it gives %s' % (what, x.cond(s), short(v, 200)))
            continue
        out.append((s, v.a[1][1]))
    if x.outs is not None and not x.rets():
        x.fail(('C19',), 'none', 'returns nothing')
    return out


def strict_encode(x):
    no_panic(x, ('C19',))
    for s, clos in closure_of(x, 'write_struct', 'does not write a structure'):
        good = 0
        try:
            outs = x.I.call_value(s.copy(), clos, [sym('w')], 'X')
        except (Unproven, RecursionError) as e:
            x.fail(('C19',), 'undecided', 'has a form the analysis cannot follow: %s' % e)
            return
        w = sym('w')
        want = []
        for f, n in PARTS:
            t = app('strict_encoding::traits::WriteStruct::write_field', w, None, fld(A0, None, f))
            want.append((t, f))
            w = None
        for k, s2, v in outs:
            if s2.facts and refuted(x.I, s2.facts):
                continue
            x.rep.ob('C19', sample='%s: %s' % (x.name, short(v, 200) if isinstance(v, T) else k))
            if k == 'panic':
                x.fail(('C19',), 'panic', 'panics (%s at %s)' % (v[0], v[1]))
                continue
            v = x.I.deep(s2, v)
            # what was written by the time of the return
            if v.tag == 'agg' and v.a[1] == 'Ok' or v.tag == 'app' and v.a[0].endswith('::complete'):
                t = fld(v, 'Ok', '0') if v.tag == 'agg' else v
                parts = chain_of(t, 'complete', 'write_field')
                if parts is None or [p[1] for p in parts] != [fld(A0, None, f) for f, _ in PARTS]:
                    x.fail(('C19',), 'parts', 'writes %s instead of the operation, the defined seals and the witness, under [%s]' % (
                        [short(p[1], 80) for p in parts] if parts is not None else short(t, 200), x.cond(s2)))
                else:
                    good += 1
                    if not field_names(parts):
                        x.fail(('C19',), 'names', 'writes the fields under the names %s' % [short(p[0], 60) for p in parts])
            elif not failed_io(x.I, s2, v):
                x.fail(('C19',), 'refused', 'gives up under [%s]: %s' % (x.cond(s2), short(v, 160)))
        if not good:
            x.fail(('C19',), 'never', 'never writes the complete structure')


def names_in(t):
    return [y.a[0] for y in sorted(subterms(t), key=lambda y: y.n) if y.tag == 'str']


def field_names(parts):
    """Whether the name of each part is that of the field."""
    want = [n for _, n in PARTS]
    return all(n in names_in(p[0]) for n, p in zip(want, parts))


def chain_of(t, last, step):
    """The (name, value) pairs written one after another to a writer."""
    if last is not None:
        if not (t.tag == 'app' and t.a[0].endswith('::' + last)):
            return None
        t = t.a[1][0]
    parts = []
    while True:
        if t.tag == 'fld' and t.a[1] == 'Ok' and t.a[2] == '0':
            t = t.a[0]
        elif t.tag == 'app' and t.a[0].endswith('::' + step) and len(t.a[1]) == 3:
            parts.append((t.a[1][1], t.a[1][2]))
            t = t.a[1][0]
        elif t is sym('w') or t.tag == 'sym':
            return parts[::-1]
        else:
            return None


def failed_io(I, s, v):
    """Whether a returned error is one that a reader or writer has reported."""
    if v.tag == 'agg' and v.a[1] == 'Err':
        e = v.a[2][0][1]
        for y in subterms(e):
            if y.tag == 'app' and y.a[0].startswith(('strict_encoding::', 'serde::')) and s.facts.get(f_is(y, 'Ok')) is False:
                return True
        return False
    return v.tag == 'app' and v.a[0].startswith(('strict_encoding::', 'serde::')) and s.facts.get(f_is(v, 'Ok')) is False


def strict_decode(x):
    no_panic(x, ('C19',))
    for s, clos in closure_of(x, 'read_struct', 'does not read a structure'):
        try:
            outs = x.I.call_value(s.copy(), clos, [sym('w')], 'X')
        except (Unproven, RecursionError) as e:
            x.fail(('C19',), 'undecided', 'has a form the analysis cannot follow: %s' % e)
            return
        good = 0
        for k, s2, v in outs:
            if s2.facts and refuted(x.I, s2.facts):
                continue
            x.rep.ob('C19', sample='%s: %s' % (x.name, short(v, 200) if isinstance(v, T) else k))
            if k == 'panic':
                x.fail(('C19',), 'panic', 'panics (%s at %s)' % (v[0], v[1]))
                continue
            v = x.I.deep(s2, v)
            if v.tag == 'agg' and v.a[1] == 'Ok':
                bad = None
                w = sym('w')
                for f, n in PARTS:
                    y = fld(v.a[2][0][1], None, f)
                    if not (y.tag == 'fld' and y.a[1] == 'Ok' and y.a[0].tag == 'app' and y.a[0].a[0].endswith('::read_field')):
                        bad = bad or '%s is %s' % (f, short(y, 160))
                        continue
                    r_, nm = y.a[0].a[1][0], y.a[0].a[1][1]
                    if r_ is not w:
                        bad = bad or '%s is not read in its place' % f
                    if n not in names_in(nm):
                        bad = bad or '%s is read under the name %s' % (f, short(nm, 60))
                    w = after(y.a[0])
                if bad:
                    x.fail(('C19',), 'parts', 'does not read what is written: %s, under [%s]' % (bad, x.cond(s2)))
                else:
                    good += 1
            elif not failed_io(x.I, s2, v):
                x.fail(('C19',), 'refused', 'refuses data under [%s]: %s' % (x.cond(s2), short(v, 160)))
        if not good:
            x.fail(('C19',), 'never', 'never yields the structure read')


def after(y):
    """The reader after a read."""
    return app('after:' + y.a[0], *y.a[1])


def serialize(x):
    no_panic(x, ('C19',))
    good, names = 0, None
    x.written_as = None
    for s, v in x.rets():
        x.rep.ob('C19', sample='%s: %s' % (x.name, short(v, 200)))
        t = fld(v, 'Ok', '0').a[0] if v.tag == 'agg' and v.a[1] == 'Ok' and fld(v, 'Ok', '0').tag == 'fld' else v
        if t.tag == 'app' and t.a[0].endswith('::end'):
            parts = chain_end(t.a[1][0])
            if parts is None or sorted(show(p[1]) for p in parts) != sorted(show(fld(A0, None, f)) for f, _ in PARTS) or \
                    len(parts) != len(PARTS):
                x.fail(('C19',), 'parts', 'writes %s instead of the operation, the defined seals and the witness, under [%s]' % (
                    [short(p[1], 80) for p in parts] if parts is not None else short(t, 200), x.cond(s)))
            else:
                good += 1
                for y in subterms(t):
                    if y.tag == 'app' and y.a[0].endswith('::serialize_struct') and len(y.a[1]) == 3:
                        x.written_as = y.a[1][1]
                        if y.a[1][2] is not c(len(PARTS)):
                            x.fail(('C19',), 'count', 'announces %s parts' % short(y.a[1][2], 40))
                    if y.tag == 'app' and y.a[0].endswith(('::serialize_field', '::serialize_struct')) and not entails(
                            x.I, s.facts, f_is(app(y.a[0].split('after:')[-1], *y.a[1]), 'Ok')):
                        x.fail(('C19',), 'unchecked', 'goes on although a part (%s) was not written' % short(y.a[1][-1], 60))
                order = {fld(A0, None, f): f for f, _ in PARTS}
                ns = [(order[p[1]], p[0].a[0] if p[0].tag == 'str' else None) for p in parts]
                if names is None:
                    names = ns
                if len(set(n for _, n in ns)) != len(PARTS) or None in [n for _, n in ns]:
                    x.fail(('C19',), 'names', 'writes the fields under the names %s' % [n for _, n in ns])
        elif not failed_io(x.I, s, v):
            x.fail(('C19',), 'refused', 'gives up under [%s]: %s' % (x.cond(s), short(v, 160)))
    if x.outs is not None and not good:
        x.fail(('C19',), 'never', 'never writes the complete structure')
    return names, x.written_as


def chain_end(t):
    """The fields written to a serialiser."""
    parts = []
    while True:
        if t.tag == 'fld' and t.a[1] == 'Ok' and t.a[2] == '0':
            t = t.a[0]
        elif t.tag == 'app' and t.a[0].endswith('::serialize_field') and len(t.a[1]) == 3:
            parts.append((t.a[1][1], t.a[1][2]))
            t = t.a[1][0]
        elif t.tag == 'app' and t.a[0].endswith('::serialize_struct'):
            return parts[::-1]
        else:
            return None


def visitors(facts, r):
    """The functions generated for a Deserialize implementation, by the type they belong to."""
    out = {}
    for q in facts['roots']:
        if q.get('trait') == 'serde::de::Visitor' and q.get('self'):
            out.setdefault(q['self'], {})[q['cn'].split('::')[-1]] = q
    return out


def deserialize(facts, r, rep, names, written_as):
    """names: (part, name it is written under), in the order of writing."""
    props = ('C19',)
    groups = visitors(facts, r)
    field = [g for g in groups.values() if 'visit_str' in g]
    struct = [g for g in groups.values() if 'visit_map' in g or 'visit_seq' in g]
    if len(field) != 1 or len(struct) != 1 or not names:
        if names:
            rep.fail(props, 'serde-form', 'the decoding of an operation with its seals (%s) has a form the analysis does not know'
                     % r['span'])
        return
    field, struct = field[0], struct[0]
    # what is read is what is returned
    x, good = Run(facts, r, rep, props), 0
    for s, v in x.rets():
        rep.ob('C19', sample='%s: %s' % (x.name, short(v, 120)))
        calls = {y for y in {v} | subterms(v) | {z for f in s.facts for z in subterms(f)}
                 if y.tag == 'app' and y.a[0].endswith('::deserialize_struct') and len(y.a[1]) == 4 and y.a[1][0] is A0}
        call = calls.pop() if len(calls) == 1 else None
        if call is None:
            x.fail(props, 'serde-read', 'does not read a structure under [%s], but gives %s' % (x.cond(s), short(v, 160)))
            continue
        listed = call.a[1][2]
        listed = [y.a[0] for y in listed.a[0] if y.tag == 'str'] if listed.tag == 'arr' else None
        if listed != [n for _, n in names]:
            x.fail(props, 'serde-listed', 'asks for the parts %s, those written are %s' % (listed, [n for _, n in names]))
        if written_as is not None and call.a[1][1] is not written_as:
            x.fail(props, 'serde-named', 'reads a structure named %s, the one written is named %s' % (short(call.a[1][1], 60), short(written_as, 60)))
        if v is call:
            good += 1
        elif v.tag == 'agg' and v.a[1] == 'Ok':
            good += 1
            for part, _ in names:
                y = fld(v.a[2][0][1], None, part)
                if y is not fld(fld(call, 'Ok', '0'), None, part):
                    x.fail(props, 'serde-alters-' + part, 'does not return the %s read under [%s], but %s' % (part, x.cond(s), short(y, 160)))
        elif not (s.facts.get(f_is(call, 'Ok')) is False and contains(v, fld(call, 'Err', '0'))):
            x.fail(props, 'serde-refused', 'refuses data under [%s]: %s' % (x.cond(s), short(v, 160)))
    if x.outs is not None and not good:
        x.fail(props, 'serde-nothing', 'never returns what is read')
    # names to fields
    ids = {}
    x = Run(facts, field['visit_str'], rep, props)
    for s, v in x.rets():
        pos = [f for f, p in s.facts.items() if p and f.tag == 'eq' and any(y.tag == 'str' for y in f.a)]
        v = fld(v, 'Ok', '0')
        if v.tag == 'agg' and pos:
            nm = next(y.a[0] for y in pos[0].a if y.tag == 'str')
            ids[nm] = v.a[1]
        elif v.tag == 'agg' and v.a[1].startswith('__field'):
            x.fail(props, 'any', 'takes any name for that of %s' % v.a[1])
        rep.ob('C19', sample='%s: %s' % (x.name, short(v, 80)))
    for part, nm in names:
        if nm not in ids or not ids[nm].startswith('__field'):
            rep.fail(props, 'serde-name-' + part, 'the part %s, written as "%s", is not recognised on reading (%s)' % (
                part, nm, field['visit_str']['span']))
    if len([v for v in ids.values() if v.startswith('__field')]) != len(set(ids[n] for _, n in names if n in ids)):
        extra = [n for n, v in ids.items() if v.startswith('__field') and n not in [m for _, m in names]]
        if [n for n in extra if ids[n] not in [ids.get(m) for _, m in names]]:
            rep.fail(props, 'serde-extra', 'the reading knows parts %s that are not written (%s)' % (extra, r['span']))
    idof = {ids[n]: p for p, n in names if n in ids}
    if 'visit_seq' in struct:
        x = Run(facts, struct['visit_seq'], rep, props)
        good = 0
        for s, v in x.rets():
            rep.ob('C19', sample='%s: %s' % (x.name, short(v, 120)))
            if v.tag == 'agg' and v.a[1] == 'Ok':
                bad, w = None, A1
                for part, _ in names:
                    y = fld(v.a[2][0][1], None, part)
                    if not (y.tag == 'fld' and y.a[1] == 'Some' and y.a[0].tag == 'fld' and y.a[0].a[1] == 'Ok'
                            and y.a[0].a[0].tag == 'app' and y.a[0].a[0].a[0].endswith('::next_element')):
                        bad = bad or '%s is %s' % (part, short(y, 120))
                        continue
                    if y.a[0].a[0].a[1][0] is not w:
                        bad = bad or '%s is not read in its place' % part
                    w = after(y.a[0].a[0])
                if bad:
                    x.fail(props, 'parts', 'does not read what is written: ' + bad)
                else:
                    good += 1
            elif not failed_io(x.I, s, v) and not missing(v, s):
                x.fail(props, 'refused', 'refuses data under [%s]: %s' % (x.cond(s), short(v, 160)))
        if x.outs is not None and not good:
            x.fail(props, 'never', 'never yields the structure read')
    if 'visit_map' in struct:
        x = Run(facts, struct['visit_map'], rep, props)
        if x.outs is not None:
            visit_map(x, idof, dict((p, n) for p, n in names))


def missing(v, s):
    """An error about data that end too early, lack a part, or have one twice."""
    return any_sub(v, lambda y: y.tag == 'app' and y.a[0].endswith(('::invalid_length', '::missing_field', '::duplicate_field')))


def visit_map(x, idof, names):
    props = ('C19',)
    if len(x.I.open_loops) != 1:
        x.fail(props, 'form', 'has a form the analysis does not know')
        return
    hs, backs, lvs = next(iter(x.I.open_loops.values()))
    var = {}
    for st in backs:
        key = None
        for f, p in st.facts.items():
            if p and f.tag == 'is' and f.a[1] in idof and any_sub(f.a[0], lambda y: y.tag == 'app' and y.a[0].endswith('::next_key')):
                key = f.a[1]
        for p, l in lvs.items():
            if p[0] not in st.env:
                continue
            v = x.I.rp(st, p)
            if v is l or not (v.tag == 'agg' and v.a[1] == 'Some'):
                continue
            y = v.a[2][0][1]
            okv = y.tag == 'fld' and y.a[1] == 'Ok' and y.a[0].tag == 'app' and y.a[0].a[0].endswith('::next_value')
            x.rep.ob('C19', sample='%s: %s is set to %s' % (x.name, idof.get(key), short(y, 100)))
            if key is None or not okv:
                x.fail(props, 'parts', 'sets a part to %s under [%s]' % (short(v, 120), x.cond(st)))
            elif var.get(l, key) != key:
                x.fail(props, 'mixed', 'puts %s and %s into the same place' % (idof[key], idof[var[l]]))
            else:
                var[l] = key
    if set(var.values()) != set(idof):
        x.fail(props, 'lost', 'does not keep %s' % sorted(idof[k] for k in set(idof) - set(var.values())))
        return
    good = 0
    for s, v in x.rets():
        if not (v.tag == 'agg' and v.a[1] == 'Ok'):
            if not failed_io(x.I, s, v) and not missing(v, s) and not any_sub(v, lambda y: y.tag == 'app' and y.a[0].endswith(
                    ('::next_key', '::next_value'))):
                x.fail(props, 'refused', 'refuses data under [%s]: %s' % (x.cond(s), short(v, 160)))
            continue
        bad = None
        for part in names:
            y = fld(v.a[2][0][1], None, part)
            ls = [z for z in subterms(y) if z in var]
            if len(ls) == 1 and idof[var[ls[0]]] == part and y.tag == 'fld' and y.a[1] == 'Some':
                continue
            if y.tag == 'fld' and y.a[1] == 'Ok' and y.a[0].tag == 'app' and y.a[0].a[0].endswith('::missing_field') and \
                    y.a[0].a[1][0] is mk('str', names[part]):
                continue
            bad = bad or '%s is %s' % (part, short(y, 120))
        x.rep.ob('C19')
        if bad:
            x.fail(props, 'parts', 'does not read what is written: ' + bad)
        else:
            good += 1
    if not good:
        x.fail(props, 'never', 'never yields the structure read')


def encodings_of(x, rep):
    """C16 for the closures that an encoder or decoder hands to a writer or reader."""
    for s, v in x.rets():
        for clos in [y for y in subterms(v) if y.tag == 'clos']:
            try:
                outs = x.I.call_value(s.copy(), clos, [sym('w')], 'X')
            except (Unproven, RecursionError):
                continue
            for k, s2, v2 in outs:
                rep.ob('C16')
                if k == 'panic' and not (s2.facts and refuted(x.I, s2.facts)):
                    x.fail(('C16',), 'panic-inner', 'can panic: %s at %s, under [%s]' % (v2[0], v2[1], x.cond(s2)))


# ---------------------------------------------------------------- texts of errors

ERROR = 'rgbcore::verify::VerificationError'


def error_texts(facts, rep):
    adt = [a for a in facts['adts'] if a['path'] == ERROR]
    if len(adt) != 1:
        rep.fail(('C26',), 'no-type', 'the error type %s was not found' % ERROR)
        return
    for cn in ('core::fmt::Display::fmt', 'core::fmt::Debug::fmt'):
        r = the_root(facts, cn, ERROR, rep, ('C26',))
        if r:
            error_text(Run(facts, r, rep, ('C26',), True), cn.split('::')[-2], adt[0])


def error_text(x, how, adt):
    """Every item of an error is handed to the formatter, on every path on which the formatter reports no failure."""
    if x.outs is None:
        return

    def fail(code, text):
        x.rep.fail(('C26',), '%s-%s' % (how, code), '%s of the error (%s) %s' % (how, x.r['span'], text))
    for k, s, v in x.outs:
        if k == 'panic':
            fail('panic', 'panics (%s at %s) under [%s]' % (v[0], v[1], x.cond(s)))
    for var in adt['variants']:
        n = 0
        fields = [f for f, t in var['fields'] if 'PhantomData' not in t]
        for s, v in x.rets():
            for s1 in x.I.assume(s.copy(), f_is(A0, var['name']), True) if len(adt['variants']) > 1 else [s.copy()]:
                if refuted(x.I, s1.facts) or reported(s1, v):
                    continue
                n += 1
                shown = pieces(v) | pieces(s1.env.get(FORMATTER, v))
                for y in shown:
                    for line, z in labels(y) if y.tag == 'app' else ():
                        for f, own, others in LABELS.get(var['name'], ()):
                            words = [w for w in re.findall(r'[a-z]+', line) if w in own + others]
                            if words and fld(A0, var['name'], f) in pieces(z) and not (words[-1] in own or own[0] in words):
                                fail('%s-%s-label' % (var['name'], f), 'shows %s of %s as: %s' % (
                                    'item ' + f if f.isdigit() else 'the ' + f, var['name'], line))
                missing_ = [] if A0 in shown else [f for f in fields if fld(A0, var['name'], f) not in shown]
                x.rep.ob('C26', sample='%s of %s shows %s' % (how, var['name'], 'all' if A0 in shown else ', '.join(fields) or 'a text'))
                for f in missing_:
                    fail('%s-%s' % (var['name'], f), 'does not show %s of %s, under [%s]' % (
                        'item ' + f if f.isdigit() else 'the ' + f, var['name'], x.cond(s1)))
                if not any(y.tag == 'str' and y.a[0] or y.tag == 'app' and y.a[0].endswith('Arguments::new') or y is A0 or y.tag == 'fld' for y in shown):
                    fail(var['name'], 'shows nothing of %s' % var['name'])
        if not n:
            fail('never-' + var['name'], 'never shows ' + var['name'])


LOSSY = r'(len|is_empty|count|first\w*|last\w*|keys|values|contains\w*|get|max\w*|min\w*|take\w*|skip\w*|filter\w*|type_name\w*|discriminant|new_pointer|lines|next|nth|chars|split\w*|rsplit\w*|find|truncate\w*|substr|index)$'
# what a text calls the parts of an error: words for the part, words for other parts
LABELS = {
    'SealsNotClosed': (('0', ('witness',), ('operation',)), ('1', ('operation',), ('witness',))),
    'SealsDefinitionMismatch': (('defined', ('assignments', 'defined', 'actual'), ('reported', 'sources')),
                                ('reported', ('reported',), ('assignments', 'actual', 'sources')),
                                ('sources', ('sources',), ('reported', 'assignments', 'defined'))),
}


def pieces(t):
    """The terms an argument of the formatter consists of; parts of the error are not taken apart."""
    out, work = set(), [t]
    while work:
        t = work.pop()
        if t in out:
            continue
        out.add(t)
        if t.tag in ('arr', 'rep', 'agg') or t.tag == 'app' and not re.search(LOSSY, t.a[0]):
            stack = [z for _, z, cut in placeholders(t) if not cut] if t.tag == 'app' and t.a[0].endswith('Arguments::new') else list(t.a)
            while stack:
                y = stack.pop()
                if isinstance(y, tuple):
                    stack += y
                elif hasattr(y, 'tag'):
                    work.append(y)
    return out


def placeholders(t):
    """What the arguments of a format string are shown as: (text before, argument, whether the text of it is cut off)."""
    args = t.a[1]
    if len(args) < 2 or args[0].tag != 'arr' or any(b.tag != 'c' for b in args[0].a[0]):
        return [('', z, False) for z in args]
    code = [b.a[0] for b in args[0].a[0]]
    given = args[1].a[0] if args[1].tag == 'arr' else [args[1].a[0]] * args[1].a[1] if args[1].tag == 'rep' and isinstance(args[1].a[1], int) else None
    if given is None:
        return [('', args[1], False)]
    out, i, nth, text = [], 0, 0, b''
    while i < len(code) and code[i]:
        n, i = code[i], i + 1
        if n <= 0x80:
            if n == 0x80:
                n, i = code[i] + 256 * code[i + 1], i + 2
            text, i = bytes(code[i:i + n]), i + n
            continue
        cut = False
        if n != 0xC0:
            i += 4 * (n & 1) + (n & 2)
            if n & 4:
                cut, i = True, i + 2
            if n & 8:
                nth, i = code[i] + 256 * code[i + 1], i + 2
        if nth >= len(given):
            return [('', args[1], False)]
        out.append((text.decode('utf8', 'replace'), given[nth], cut))
        nth, text = nth + 1, b''
    return out


def labels(t):
    """The arguments of a format string with the line of text before each of them."""
    return [(line.split('\n')[-1].lower(), z) for line, z, _ in placeholders(t)] if t.a[0].endswith('Arguments::new') else []


def reported(s, v):
    """Whether a path ends with a failure of the formatter."""
    return v.tag == 'agg' and v.a[1] == 'Err' or any(f.tag == 'is' and f.a[1] == 'Ok' and not p and v is f.a[0] for f, p in s.facts.items())
