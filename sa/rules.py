"""The rules: what the properties demand of the results of the analysis of one build configuration.

Each rule looks at the segments of the verification procedure (what happens between one read of the stream and the next,
or the return of the procedure), at what the other functions of the crate return, or at the facts about items and calls.
A rule that is not met is reported for the properties it belongs to.
"""
import json, re
from terms import *
from interp import Interp, St, Unproven, SELF, READER, BLOCK, leaves
from logic import refuted, entails, saturate, with_facts
from models import collect_into  # noqa: F401 (models are registered on import)

EVALUATE = 'rgbcore::verify::ContractVerify::evaluate'
CONTRACT = 'rgbcore::verify::ContractVerify'
API_TRAIT = 'rgbcore::verify::ContractApi'
VERR = 'VerificationError'

OP0 = fld(BLOCK, None, 'operation')
DEFS = fld(BLOCK, None, 'defined_seals')
WIT = fld(BLOCK, None, 'witness')
DIN = fld(OP0, None, 'destructible_in')
DOUT = fld(OP0, None, 'destructible_out')
CID = app('api::contract_id', SELF)
CODEX = app('api::codex', SELF)
MEMORY = app('api::memory', SELF)
REPO = app('api::repo', SELF)
EL = mk('el', DIN)
KEY, VAL = mk('key', DEFS), mk('val', DEFS)
WSOME = fld(WIT, 'Some', '0')
PUBID = app('pub_id', fld(WSOME, None, 'published'))
HAS_WIT = f_is(WIT, 'Some')
NO_INPUT = f_empty(DIN)
NO_DEFS = f_empty(DEFS)
GENESIS = f_eq(app('codex_id', CODEX), fld(OP0, None, 'contract_id'))
TO_SRC = app('to_src', VAL)
MATCH = (f_lt(KEY, length(DOUT)), f_eq(app('auth_token', VAL), fld(at(DOUT, KEY), None, 'auth')))
MATCH_ALL = f_all(DEFS, [frozenset((f, True) for f in MATCH)])
APPLY = ('apply_witness', 'apply_operation', 'apply_seals')

SEAL_PROPS = ('C14', 'C15')
FLOW_PROPS = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13')


def op_of(k):
    return upd(OP0, 'contract_id', CID) if k == 1 else OP0


def opid_of(k):
    return app('opid', op_of(k))


class Report:
    """Violations and counts of obligations, per property."""

    def __init__(self):
        self.bad = {}     # (property, code) -> text
        self.n = {}       # property -> obligations
        self.samples = {}
        self.paths = 0    # paths of functions other than the procedure

    def ob(self, *props, sample=None):
        for p in props:
            self.n[p] = self.n.get(p, 0) + 1
            if sample:
                s = self.samples.setdefault(p, [])
                if len(s) < 6 and sample not in s:
                    s.append(sample)

    def fail(self, props, code, text):
        for p in props:
            self.bad.setdefault((p, code), text)


def short(t, n=500):
    s = show(t) if isinstance(t, T) else str(t)
    return s if len(s) <= n else s[:n] + '…'


# ---------------------------------------------------------------- the verification procedure

class Seg:
    def __init__(self, i, g):
        self.i, self.g = i, g
        self.k, self.rd, self.how, self.facts, self.ev = g['k'], g['rd'], g['how'], g['facts'], g['ev']
        self.val, self.notes, self.at = g['val'], g['notes'], g['at']
        self.env, self.start = g['env'], g['start']
        self.ok = self.err = None
        self.applies = [e for e in flat_events(self.ev) if e[0] in APPLY or e[0] == 'loop:apply']
        if self.how == 'ret':
            v = self.val
            if v.tag == 'agg' and v.a[1] in ('Ok', 'Err'):
                self.ok = v.a[1] == 'Ok'
                if not self.ok:
                    self.err = fld(v, 'Err', '0')
            else:
                f = self.facts.get(f_is(v, 'Ok'))
                if f is not None:
                    self.ok = f
                    self.err = None if f else fld(v, 'Err', '0')
        self.accepted = self.rd == 'op' and (self.how == 'next' or self.ok is not False)
        self.rejected = self.rd == 'op' and not self.accepted

    def where(self):
        what = {0: 'before the first operation', 1: 'first operation', 2: 'later operation'}[self.k]
        if self.rd == 'err':
            what = 'stream error'
        if self.rd == 'end':
            what = 'end of the stream'
        end = 'goes on to the next read' if self.how == 'next' else ('returns ' + short(self.val, 160) if self.val is not None
                                                                    else 'returns')
        return '%s, path [%s] %s at %s' % (what, self.cond(), end, self.at)

    def cond(self):
        r = []
        for f, p in self.facts.items():
            if f.tag in ('is', 'isempty', 'eq', 'lt', 'all', 'contrib') or is_bool(f) or f.tag == 'app':
                s = short(f, 90)
                r.append(('' if p else 'not ') + s)
        return '; '.join(r[:8])


def flat_events(ev, loop=False):
    for e in ev:
        if not e:
            continue
        if e[0] == 'loop':
            for fd, evs in e[2]:
                for x in flat_events(evs if isinstance(evs, tuple) and evs and isinstance(evs[0], tuple) else (evs,), True):
                    yield x
        elif not isinstance(e[0], str):
            for x in flat_events(e, loop):
                yield x
        elif loop and e[0] in APPLY:
            yield ('loop:apply', e[0]) + tuple(e[1:])
        else:
            yield e


def ev_at(e):
    for x in reversed(e):
        if isinstance(x, T) and x.tag == 'at' and isinstance(x.a[0], str):
            return x.a[0]
    return '?'


def root_of(m):
    """The variable a state of a map goes back to."""
    while True:
        if m.tag in ('cop', 'cur', 'again'):
            m = m.a[0]
        elif m.tag == 'part':
            m = m.a[1]
        else:
            return m


def input_addr(k):
    """Whether a term is the address of an input of the operation: the element it is taken from."""
    if k.tag == 'fld' and k.a[1] is None and k.a[2] == 'addr':
        e = k.a[0]
        if e is EL or (e.tag == 'wit' and e.a[1] is EL) or (e.tag == 'at' and e.a[0] is DIN):
            return e
    return None


def lookups(t):
    """The look-ups of input addresses in maps within a term."""
    for x in subterms(t):
        if x.tag == 'app' and x.a[0] == 'mget' and input_addr(x.a[1][1]) is not None:
            yield x.a[1][0], x.a[1][1]


def value_at(env, cell):
    v = env.get((cell[0], cell[1]))
    if v is None:
        return None
    for n in cell[2]:
        if v.tag == 'agg':
            w = dict(v.a[2]).get(n)
            if w is None:
                return None
            v = w
        else:
            v = fld(v, None, n)
    return v


def seg_terms(s):
    ts = list(s.facts)
    for e in flat_events(s.ev):
        ts += [x for x in e if isinstance(x, T)]
    if s.val is not None:
        ts.append(s.val)
    return ts


class Flow:
    """The rules about the verification procedure."""

    def __init__(self, facts, rep):
        self.f, self.rep = facts, rep
        self.root = None
        roots = [r for r in facts['roots'] if r['cn'] == EVALUATE and r['key'] in facts['bodies']]
        # an implementation for all types takes precedence over the default
        roots = [r for r in roots if r.get('trait') and str(r.get('self')).startswith('param:')] or [
            r for r in roots if not r.get('trait')]
        if len(roots) != 1:
            rep.fail(FLOW_PROPS + ('C16', 'C23'), 'no-procedure',
                     'the verification procedure %s with its default body was not found' % EVALUATE)
            return
        self.root = roots[0]
        self.span = self.root['span']
        try:
            force = frozenset()
            for _ in range(3):
                self.I = I = Interp(facts, force)
                outs = I.exec_body(self.root['key'], 'E', St(), [SELF, READER])
                # what is left empty by some operations only is taken to be arbitrary
                if I.hvs & I.empties <= force:
                    break
                force |= I.hvs & I.empties
        except (Unproven, RecursionError) as e:
            rep.fail(FLOW_PROPS + ('C16', 'C23'), 'undecided',
                     'the verification procedure (%s) has a form the analysis cannot follow: %s' % (self.span, e))
            self.root = None
            return
        self.panics = []
        for kind, s, v in outs:
            if kind == 'ret':
                I.record(s, 'ret', v)
            elif kind == 'panic':
                self.panics.append((s, v))
        # segments that cannot happen
        self.segs = []
        for i, g in enumerate(I.segments):
            if g['facts'] and refuted(I, g['facts']):
                continue
            self.segs.append(Seg(i, g))
        self.ops = [s for s in self.segs if s.rd == 'op']
        n_acc = {k: sum(1 for s in self.ops if s.accepted and s.k == k) for k in (1, 2)}
        n_rej = sum(1 for s in self.ops if s.rejected)
        for k in (1, 2):
            if not n_acc[k]:
                rep.fail(FLOW_PROPS, 'nothing-accepted-%d' % k, 'no path of the verification procedure (%s) accepts a %s operation'
                         % (self.span, 'first' if k == 1 else 'later'))
        if not n_rej:
            rep.fail(FLOW_PROPS, 'nothing-rejected', 'no path of the verification procedure (%s) rejects an operation' % self.span)
        self.find_registry()
        self.cases()

    # ---- helpers
    def ent(self, s, f, pol=True, generic=()):
        return entails(self.I, s.facts, f, pol, generic)

    def possible(self, s, *lits):
        return not refuted(self.I, s.facts, lits)

    def fail(self, props, code, s, text):
        self.rep.fail(props, code, '%s: %s' % (text, s.where() if s is not None else self.span))

    def find_registry(self):
        cells = {}
        for s in self.segs:
            if s.k != 2:
                continue
            for t in seg_terms(s):
                for m, _ in lookups(t):
                    r = root_of(m)
                    if r.tag == 'hv':
                        cells.setdefault(r, s)
        self.reg = None
        if len(cells) == 1:
            self.reg = next(iter(cells))
            self.cell = (self.reg.a[0], self.reg.a[1], self.reg.a[2])
        else:
            self.rep.fail(('C06', 'C07', 'C08', 'C09', 'C13'), 'no-registry',
                          'the inputs of an operation are %s (%s)' % (
                              'looked up in several collections kept between operations' if cells else
                              'not looked up in a collection of seals kept between operations', self.span))

    def base(self, s):
        """The seals which can be spent before the operation of a segment."""
        if self.reg is None:
            return None
        return value_at(s.start, self.cell)

    def verify_ok(self, v, k):
        return v.tag == 'app' and v.a[0] == 'verify' and len(v.a[1]) == 6 and v.a[1][0] is CODEX and v.a[1][1] is CID \
            and v.a[1][2] is op_of(k) and v.a[1][3] is MEMORY and v.a[1][4] is REPO

    def verify_terms(self, s):
        return [e[1] for e in flat_events(s.ev) if e[0] == 'verify']

    def verified(self, s, k):
        """The result of a successful verification of the operation by the codex on the path."""
        for v in self.verify_terms(s):
            if self.verify_ok(v, k) and self.ent(s, f_is(v, 'Ok')):
                return v
        return None

    def exact_seals(self, t, s):
        """Whether a sequence holds exactly the seals looked up for the inputs."""
        if t.tag == 'arr' and not t.a[0]:
            t = empty_coll('seq')
        b, ops = coll_ops(t)
        if b.tag != 'empty':
            return 'the seals are taken from elsewhere'
        if not ops:
            return None if self.ent(s, NO_INPUT) else 'seals of inputs are missing'
        if len(ops) != 1 or ops[0][0] != 'each' or ops[0][1] is not DIN:
            return 'the seals are not one for each input'
        base = self.base(s)
        for fs, o in ops[0][2]:
            if not self.possible(s, *fs) and s.facts:
                continue
            if len(o) != 1 or o[0][0] != 'push':
                return 'not exactly one seal for each input'
            x = o[0][1]
            if not (x.tag == 'fld' and x.a[1] == 'Some' and x.a[0].tag == 'app' and x.a[0].a[0] == 'mget'):
                return 'a seal is not the one looked up: ' + short(x, 120)
            m, key = x.a[0].a[1]
            if key is not fld(EL, None, 'addr'):
                return 'a seal is looked up under something else than the address of the input: ' + short(key, 120)
            if base is None or root_of(m) is not root_of(base):
                return 'a seal is taken from something else than the seals which can be spent: ' + short(m, 120)
        return None

    def closing(self, s):
        """The verifications of the witness on the path: (term, problem or None)."""
        out = []
        for e in flat_events(s.ev):
            if e[0] != 'closes':
                continue
            w, seals, msg = e[1].a[1]
            p = None
            if w is not WSOME:
                p = 'not the witness supplied with the operation'
            elif msg is not opid_of(s.k):
                p = 'the message is not the id of the operation: ' + short(msg, 120)
            else:
                p = self.exact_seals(seals, s)
            out.append((e[1], p))
        return out

    def closed(self, s):
        """A successful verification of the witness against exactly the seals of the inputs; else the problem found."""
        problem = 'the witness is not verified'
        for c_, p in self.closing(s):
            if self.ent(s, f_is(c_, 'Ok')):
                if p is None:
                    return c_, None
                problem = p
            else:
                problem = 'a failed verification of the witness is ignored' if p is None else p
        return None, problem

    # ---- the rules
    def cases(self):
        rep = self.rep
        for s in self.segs:
            self.rule_id(s)
            self.rule_notes(s)
            if s.rd == 'op':
                if s.accepted:
                    self.accepted(s)
                else:
                    self.rejected(s)
            else:
                self.outside(s)
        self.registry()
        self.rule_panics()
        self.rule_loops()
        for p in FLOW_PROPS:
            rep.ob(p, sample='segments analysed: %d' % len(self.segs))

    def rule_notes(self, s):
        for n in s.notes:
            if n[0] == 'reader':
                self.fail(('C12',), 'other-reader', s, 'an operation is read from something else than the given stream')
            elif n[0] == 'escape':
                self.fail(('C03', 'C10', 'C11', 'C12', 'C17'), 'escape-' + n[1], s,
                          'the contract, the stream or a closure is handed to %s, which the analysis does not know' % n[1])
            elif n[0] in ('closure-state', 'iter_mut', 'loop'):
                self.fail(('C03', 'C10', 'C11'), n[0], s, 'state is changed in a way the analysis cannot follow (%s)' % n[0])
        for e in flat_events(s.ev):
            if e[0] == 'unknown':
                self.fail(('C03', 'C10', 'C11'), 'unknown-' + str(e[1]), s, 'the contract is handed to %s' % e[1])

    def rule_id(self, s):
        """C02: one id, of exactly the data received."""
        if s.rd != 'op':
            return
        rep = self.rep
        good = opid_of(s.k)
        for e in flat_events(s.ev):
            if e[0] == 'is_known':
                rep.ob('C02', sample='is_known at %s' % s.at)
                if e[2] is not good:
                    self.fail(('C02', 'C04'), 'id-known', s, 'knownness is asked for %s, not for the id of the operation'
                              % short(e[2], 160))
            elif e[0] in ('apply_witness', 'apply_seals'):
                rep.ob('C02', sample='%s at %s' % (e[0], ev_at(e)))
                if e[2] is not good:
                    self.fail(('C02', 'C11'), 'id-' + e[0], s, '%s is called with %s, not with the id of the operation'
                              % (e[0], short(e[2], 160)))
            elif e[0] == 'apply_operation':
                rep.ob('C02')
            elif e[0] in ('closes', 'closes1'):
                rep.ob('C02', sample='closing verified at %s' % s.at)
                if e[1].a[1][2] is not good:
                    self.fail(('C02', 'C06', 'C08'), 'id-message', s,
                              'the witness is verified for the message %s, not for the id of the operation'
                              % short(e[1].a[1][2], 160))
            elif e[0] == 'verify':
                rep.ob('C02', sample='codex verification at %s' % s.at)
                v = e[1].a[1]
                if v[2] is not op_of(s.k):
                    self.fail(('C02', 'C03'), 'verified-data', s, 'the codex verifies %s, which is not the operation received'
                              % short(v[2], 160))
        for t in seg_terms(s):
            for x in subterms(t):
                if x.tag == 'app' and x.a[0] == 'opid':
                    if x is not good:
                        self.fail(('C02',), 'id-other', s, 'an id is computed from %s, which is not the operation received'
                                  % short(x.a[1][0], 160))
        e = s.err
        if s.rejected and e is not None and e.tag == 'agg':
            ids = {'NoWitness': '0', 'SealsNotClosed': '1', 'SealsDefinitionMismatch': 'opid'}
            if e.a[1] in ids:
                rep.ob('C02', 'C12')
                if fld(e, e.a[1], ids[e.a[1]]) is not good:
                    self.fail(('C02', 'C12'), 'id-error-' + e.a[1], s, 'the error %s carries %s, not the id of the operation'
                              % (e.a[1], short(fld(e, e.a[1], ids[e.a[1]]), 160)))

    def outside(self, s):
        rep = self.rep
        if s.applies:
            self.fail(('C03', 'C10', 'C11'), 'apply-outside', s, 'the contract is told something when there is no operation')
        if s.rd == 'start':
            if s.how == 'ret':
                self.fail(('C12', 'C13'), 'return-unread', s, 'the procedure ends without reading the stream')
            return
        rep.ob('C12', 'C23', 'C13', 'C10', sample='%s: %s' % (s.rd, s.how))
        if s.how == 'next':
            self.fail(('C12', 'C23') + (('C10',) if s.rd == 'err' else ()), 'read-after-' + s.rd, s,
                      'the stream is read again after %s' % ('its end' if s.rd == 'end' else 'an error'))
            return
        if s.rd == 'end' and s.ok is not True:
            self.fail(('C13',), 'end-rejected', s, 'a history whose operations were all accepted is not accepted')
        if s.rd == 'err':
            if s.ok is not False:
                self.fail(('C12',), 'stream-error-ignored', s, 'an error of the stream is reported as a success')
            elif not (s.err.tag == 'agg' and s.err.a[1] == 'Stream' and contains(s.err, app('stream_error'))):
                self.fail(('C12',), 'stream-error-kind', s, 'an error of the stream is not returned as what it is')

    def causes(self, s):
        """The reasons to reject the operation that the facts of a path amount to: kind -> check of the payload."""
        k = s.k
        out = {}
        if k == 1 and self.ent(s, GENESIS, False):
            out['NoCodexCommitment'] = lambda e: None
        if refuted(self.I, s.facts, [(MATCH_ALL, True)]):
            out['SealsDefinitionMismatch'] = self.mismatch_payload(s)
        unk = self.unknown_inputs(s)
        if unk:
            def chk(e, unk=unk):
                a = fld(e, 'SealUnknown', '0')
                return None if a in unk else 'the address is not that of the input whose seal is unknown: ' + short(a, 120)
            out['SealUnknown'] = chk
        elif k == 1 and self.ent(s, NO_INPUT, False):
            def chk1(e):
                a = fld(e, 'SealUnknown', '0')
                return None if input_addr(a) is not None else 'the address is not that of an input: ' + short(a, 120)
            out['SealUnknown'] = chk1
        for v in self.verify_terms(s):
            if self.verify_ok(v, k) and self.ent(s, f_is(v, 'Ok'), False) and self.ent(s, self.known(k), False):
                out['Vm'] = lambda e, v=v: None if fld(e, 'Vm', '0') is fld(v, 'Err', '0') else 'not the error of the codex'
        for c_, p in self.closing(s):
            if p is None and self.ent(s, f_is(c_, 'Ok'), False):
                def chk2(e, c_=c_):
                    if fld(e, 'SealsNotClosed', '0') is not PUBID:
                        return 'not the id of the witness'
                    if fld(e, 'SealsNotClosed', '2') is not fld(c_, 'Err', '0'):
                        return 'not the error of the witness verification'
                out['SealsNotClosed'] = chk2
        if self.ent(s, HAS_WIT, False) and self.ent(s, NO_INPUT, False):
            out['NoWitness'] = lambda e: None
        return out

    def known(self, k, ver=0):
        return app('is_known', opid_of(k), c(ver))

    def unknown_inputs(self, s):
        """Addresses of inputs for which the path has found no seal among those which can be spent."""
        base = self.base(s)
        out = set()
        for f, p in s.facts.items():
            if f.tag == 'is' and f.a[1] == 'Some' and not p and f.a[0].tag == 'app' and f.a[0].a[0] == 'mget':
                m, key = f.a[0].a[1]
                if input_addr(key) is None or base is None:
                    continue
                if self.only_consumed(m, base):
                    out.add(key)
        return out

    def only_consumed(self, m, base):
        """Whether a state of the map is the one at the read, less seals of earlier inputs."""
        if m is base:
            return True
        if m.tag == 'cur':
            return self.only_consumed(m.a[0], base)
        if m.tag == 'part':
            return self.only_consumed(m.a[1], base) and self.only_removals(m.a[2], m.a[1])
        if m.tag == 'cop' and m.a[1][0] == 'rem' and input_addr(m.a[1][1]) is not None:
            return self.only_consumed(m.a[0], base)
        return False

    def only_removals(self, v, base):
        while v is not base and v.tag == 'cop':
            o = v.a[1]
            if o[0] == 'each':
                if o[1] is not DIN or any(x[0] != 'rem' or x[1] is not fld(EL, None, 'addr') for _, ops in o[2] for x in ops):
                    return False
            elif not (o[0] == 'rem' and input_addr(o[1]) is not None):
                return False
            v = v.a[0]
        return v is base

    def mismatch_payload(self, s):
        def one(t, kind, src, ins):
            b, ops = coll_ops(t)
            if b.tag != 'empty':
                return False
            if not ops:
                return self.ent(s, f_empty(src))
            if len(ops) != 1 or ops[0][0] != 'each' or ops[0][1] is not src:
                return False
            return all(len(o) == 1 and o[0] == ins for _, o in ops[0][2])

        def chk(e):
            g = lambda n: fld(e, 'SealsDefinitionMismatch', n)  # noqa: E731
            if not one(g('reported'), 'set', DEFS, ('ins', app('auth_token', VAL), UNIT)):
                return 'the reported tokens are not those of the reported definitions: ' + short(g('reported'), 160)
            if not one(g('defined'), 'set', DOUT, ('ins', fld(mk('el', DOUT), None, 'auth'), UNIT)):
                return 'the defined tokens are not those of the operation: ' + short(g('defined'), 160)
            t = g('sources')
            b, ops = coll_ops(t)
            if ops and not (len(ops) == 1 and ops[0][0] == 'each' and ops[0][1] is DEFS and all(
                    len(o) == 1 and o[0][0] == 'ins' and o[0][1] is KEY and contains(o[0][2], VAL) for _, o in ops[0][2])):
                return 'the sources are not the reported definitions: ' + short(t, 160)
            if not ops and not self.ent(s, NO_DEFS):
                return 'the sources are not the reported definitions: ' + short(t, 160)
        return chk

    def rejected(self, s):
        rep = self.rep
        k = s.k
        rep.ob('C10', 'C12', 'C13', sample='%s: %s' % (s.where()[:60], short(s.val, 100)))
        if s.applies:
            e = s.applies[0]
            self.fail(('C10',) + (('C01',) if k == 1 and not self.ent(s, GENESIS) else ()), 'trace-' + e[0], s,
                      'an operation is rejected after the contract was told of it by %s (%s)' % (e[0], ev_at(e)))
            for e in s.applies:
                if e[0] == 'apply_witness':
                    cl, p = self.closed(s)
                    if cl is None:
                        self.fail(('C08',), 'witness-unverified', s, 'the witness is reported to the contract although ' + p)
                if e[0] == 'apply_operation':
                    self.applied(s, e)
        for e in flat_events(s.ev):
            if e[0] == 'verify' and self.possible(s, (self.known(k), True)):
                self.fail(('C04',), 'verify-known', s, 'an operation that may be known is verified by the codex again')
        causes = self.causes(s)
        if not causes:
            self.fail(('C13',), 'rejected-%s-%s' % (s.err.a[1] if s.err.tag == 'agg' else 'unknown', k), s,
                      'an operation is rejected (%s) which breaks no rule' % short(s.err, 120))
        e = s.err
        if e.tag != 'agg' or not e.a[0].endswith(VERR):
            self.fail(('C12',), 'error-form', s, 'the error returned is not one of the procedure: ' + short(e, 120))
        elif causes:
            if e.a[1] not in causes:
                self.fail(('C12',), 'error-kind-' + e.a[1], s, 'the error %s is returned, but the cause is %s'
                          % (e.a[1], ' or '.join(sorted(causes))))
            else:
                p = causes[e.a[1]](e)
                if p:
                    self.fail(('C12',), 'error-payload-' + e.a[1], s, 'the error %s carries wrong details: %s' % (e.a[1], p))
        else:
            # an error for something that has not happened
            self.fail(('C12',), 'error-cause-' + (e.a[1] if e.tag == 'agg' else '?'), s,
                      'the error %s is returned, but that is not what has happened' % short(e, 120))

    def applied(self, s, e):
        """An operation handed over for application."""
        k = s.k
        self.rep.ob('C03', 'C04', sample='apply_operation at %s' % ev_at(e))
        if k == 1:
            self.fail(('C03', 'C04', 'C11'), 'apply-first', s, 'the first operation is handed over for application (%s)' % ev_at(e))
        arg = e[2]
        okk = arg.tag == 'fld' and arg.a[1] == 'Ok' and arg.a[2] == '0' and self.verify_ok(arg.a[0], k)
        if not okk:
            self.fail(('C03', 'C11'), 'apply-unverified', s,
                      'what is handed over for application is not the result of verifying this operation by the codex of the '
                      'contract: %s (%s)' % (short(arg, 200), ev_at(e)))
        elif not self.ent(s, f_is(arg.a[0], 'Ok')):
            self.fail(('C03',), 'apply-failed', s, 'an operation is handed over whose verification may have failed (%s)' % ev_at(e))
        if self.possible(s, (self.known(k), True)):
            self.fail(('C04', 'C11', 'C03'), 'apply-known', s,
                      'an operation that may be known is handed over for application (%s)' % ev_at(e))

    def accepted(self, s):
        rep, k = self.rep, s.k
        names = [e[0] for e in s.applies]
        good = opid_of(k)
        rep.ob(*FLOW_PROPS, sample='%s' % s.where()[:220])
        if s.how == 'ret':
            self.fail(('C12',), 'early-success', s, 'success is returned before the end of the stream')
        # C10, C12: an operation with a reason to be rejected
        for kind in self.causes(s):
            self.fail(('C10', 'C12'), 'ignored-' + kind, s, 'evaluation goes on although the operation must be rejected (%s)' % kind)
        # C01
        if k == 1:
            if not self.ent(s, GENESIS):
                self.fail(('C01',), 'first-op-codex', s, 'the first operation is accepted without committing to the codex')
            if not self.ent(s, self.known(k)) or not any(e[0] == 'is_known' and e[2] is good for e in flat_events(s.ev)):
                self.fail(('C01',), 'first-op-unknown-accepted', s,
                          'the first operation is accepted although the contract does not know it as its genesis')
        # C03, C04
        v = self.verified(s, k)
        applied = [e for e in s.applies if e[0] == 'apply_operation']
        for e in applied:
            self.applied(s, e)
        for e in flat_events(s.ev):
            if e[0] == 'verify' and self.possible(s, (self.known(k), True)):
                self.fail(('C04',), 'verify-known', s, 'an operation that may be known is verified by the codex again')
            if e[0] == 'is_known' and e[3] is not c(0):
                self.fail(('C04',), 'late-known', s, 'knownness is asked after the contract was told about the operation')
            if e[0] == 'verify' and not self.verify_ok(e[1], k):
                self.fail(('C03',), 'verify-arguments', s, 'the codex verification is not that of this operation with the contract\'s '
                          'codex, id, memory and libraries: ' + short(e[1], 300))
            if e[0] == 'verify' and self.verify_ok(e[1], k) and not self.ent(s, f_is(e[1], 'Ok')):
                self.fail(('C03',), 'verify-ignored', s, 'a failed verification by the codex does not reject the operation')
        if k == 2:
            if self.possible(s, (self.known(k), False)):
                if not v:
                    self.fail(('C03',), 'new-unverified', s,
                              'an operation that may be new is accepted without verification by the codex of the contract')
                if len(applied) != 1:
                    self.fail(('C03', 'C11'), 'new-applied-%s' % ('not' if not applied else 'twice'), s,
                              'a new operation is handed over for application %d times' % len(applied))
            if not any(e[0] == 'is_known' for e in flat_events(s.ev)):
                self.fail(('C04',), 'known-unasked', s, 'an operation is accepted without asking whether it is known')
        # C05
        for f in MATCH:
            if not self.ent(s, f, True, (DEFS,)):
                self.fail(('C05',), 'cell-match', s,
                          'an operation is accepted with a reported seal that may not be that of the cell (not shown: %s)'
                          % short(f, 120))
                break
        # C06, C07, C08
        cl, problem = self.closed(s)
        has_input = self.possible(s, (NO_INPUT, False))
        if has_input and cl is None:
            if self.possible(s, (NO_INPUT, False), (HAS_WIT, False)):
                self.fail(('C06',), 'no-witness', s, 'an operation with inputs is accepted without a witness')
            if self.possible(s, (NO_INPUT, False), (HAS_WIT, True)):
                self.fail(('C06',), 'not-closed', s, 'an operation with inputs is accepted, but %s' % problem)
        if self.possible(s, (HAS_WIT, True)) and cl is None:
            self.fail(('C08',), 'witness-unverified', s, 'an operation is accepted with a witness, but %s' % problem)
        self.inputs(s, has_input)
        # C08: before it is used
        idx = {}
        for i, e in enumerate(flat_events(s.ev)):
            idx.setdefault(e[1] if e[0] == 'closes' else e[0], i)
        if cl is not None and 'apply_witness' in idx and idx['apply_witness'] < idx[cl]:
            self.fail(('C08',), 'witness-early', s, 'the witness is reported to the contract before it is verified')
        # C11
        self.reports(s)

    def reports(self, s):
        k, good = s.k, opid_of(s.k)
        for e in s.applies:
            if e[0] == 'loop:apply':
                self.fail(('C11',), 'in-loop', s, 'the contract is told by %s any number of times' % e[1])
        got = [e for e in s.applies if e[0] != 'loop:apply']
        for w in (True, False):
            for new in ((True, False) if k == 2 else (False,)):
                for d in (True, False):
                    lits = [(HAS_WIT, w), (NO_DEFS, not d)] + ([(self.known(k), not new)] if k == 2 else [])
                    if not self.possible(s, *lits):
                        continue
                    self.rep.ob('C11')
                    exp = (['apply_witness'] if w else []) + (['apply_operation'] if new else []) + (['apply_seals'] if d else [])
                    names = [e[0] for e in got]
                    what = '%s operation with %s and %s' % (
                        'a new' if new else 'a known' if k == 2 else 'the first', 'a witness' if w else 'no witness',
                        'definitions' if d else 'no definitions')
                    if names != exp:
                        self.fail(('C11',), 'calls', s, 'for %s the contract is told [%s] instead of [%s]'
                                  % (what, ', '.join(names), ', '.join(exp)))
                        if exp and not names:
                            self.fail(('C12',), 'skipped', s, 'an operation is passed over')
        for e in got:
            if e[1] is not SELF:
                self.fail(('C11',), 'told-other', s, 'something else than the contract is told of the operation')
            want = {'apply_witness': WSOME, 'apply_seals': DEFS}.get(e[0])
            if want is not None and e[3] is not want:
                self.fail(('C11',), 'content-' + e[0], s, '%s is called with %s instead of what was received (%s)'
                          % (e[0], short(e[3], 160), ev_at(e)))

    def inputs(self, s, has_input):
        """C07 (and C06): every input consumes the seal it is looked up as."""
        if self.reg is None:
            return
        base, end = self.base(s), value_at(s.env, self.cell)
        if s.how == 'ret':
            return
        if end is None or base is None:
            self.fail(('C06', 'C07', 'C09'), 'registry-lost', s, 'the seals which can be spent are not kept for the next operation')
            return
        b, ops = coll_ops(end)
        bb, bops = coll_ops(base)
        if b is not bb or ops[:len(bops)] != bops:
            self.fail(('C06', 'C07', 'C09'), 'registry-replaced', s,
                      'the seals which can be spent are replaced by ' + short(end, 200))
            return
        ops = ops[len(bops):]
        addr = fld(EL, None, 'addr')
        rem, ins = [], []
        for o in ops:
            if o[0] == 'each' and o[1] is DIN:
                bad = [x for _, xs in o[2] for x in xs if x[0] != 'rem' or x[1] is not addr]
                if bad:
                    self.fail(('C07', 'C09', 'C13'), 'input-effect', s,
                              'an input changes the seals which can be spent otherwise than by consuming its own: '
                              + short(bad[0], 160))
                else:
                    rem.append(o)
            elif o[0] == 'each' and o[1] is DEFS:
                ins.append(o)
            elif o[0] == 'rem' and input_addr(o[1]) is not None:
                rem.append(o)
            else:
                self.fail(('C06', 'C07', 'C09', 'C13'), 'registry-other', s,
                          'the seals which can be spent are changed otherwise than by inputs and definitions of the operation: '
                          + short(o, 200))
        if has_input:
            self.rep.ob('C07', sample='inputs consumed on the path to %s' % s.at)
            # the first change is the removal of the seal of each input, together with its look-up
            cur = mk('cur', base)
            first = ops[0] if ops else None
            removes = first is not None and first[0] == 'each' and first[1] is DIN
            if removes:
                for fs, xs in first[2]:
                    if not xs and self.possible(s, (NO_INPUT, False), *fs):
                        removes = False
            if not self.ent(s, f_is(mget(cur, addr), 'Some'), True, (DIN,)):
                if self.ent(s, f_is(mget(base, addr), 'Some'), True, (DIN,)):
                    self.fail(('C07',), 'looked-up-before', s,
                              'the seals of the inputs are all looked up before any of them is consumed, so that one can be used twice')
                else:
                    self.fail(('C06', 'C07'), 'input-unknown', s, 'an input is accepted whose seal may not be known')
            if not removes:
                self.fail(('C07',), 'not-consumed', s, 'the seal of an input can still be spent after the operation')
        self.defs(s, ins)

    def defs(self, s, ins):
        """C09: what the definitions add."""
        k, good = s.k, opid_of(s.k)
        addr = agg('ultrasonic::operation::CellAddr', '', (('opid', good), ('pos', KEY)))
        for src in (True, False):
            for w in (True, False):
                lits = [(HAS_WIT, w), (f_is(TO_SRC, 'Some'), src), (NO_DEFS, False)]
                if refuted(self.I, s.facts, lits, (DEFS,)):
                    continue
                self.rep.ob('C09', sample='%s definition, %s witness: %s' % ('self-contained' if src else 'witness-relative',
                                                                             'with' if w else 'without', s.at))
                want = fld(TO_SRC, 'Some', '0') if src else (app('resolve', VAL, PUBID) if w else None)
                cases = [[]]
                for o in ins:
                    nxt = []
                    for acc in cases:
                        for fs, xs in o[2]:
                            if not refuted(self.I, s.facts, lits + list(fs), (DEFS,)):
                                nxt.append(acc + list(xs))
                    cases = nxt
                what = 'a %s definition reported %s witness' % ('self-contained' if src else 'witness-relative',
                                                                'with a' if w else 'without')
                for xs in cases:
                    last = None
                    for x in xs:
                        if x[0] == 'rem' and x[1] is addr:
                            last = None
                            continue
                        if x[0] != 'ins' or x[1] is not addr:
                            self.fail(('C09', 'C06', 'C07') + (('C02',) if x[0] == 'ins' else ()), 'address', s,
                                      'for %s the seals which can be spent are changed under another address: %s' % (what, short(x, 200)))
                            continue
                        if last is not None and last is not x[2]:
                            self.fail(('C09',), 'two-seals', s, 'for %s two seals are registered' % what)
                        last = x[2]
                    if last is None and want is not None:
                        self.fail(('C09', 'C13'), 'missing-%s' % ('src' if src else 'wit'), s,
                                  'for %s no seal is registered, so that its cell can never be spent' % what)
                    elif last is not None and last is not want:
                        self.fail(('C09', 'C06') + (('C13',) if want is not None else ('C08',)),
                                  'wrong-%s' % ('src' if src else 'wit'), s, 'for %s the seal registered is %s instead of %s'
                                  % (what, short(last, 160), short(want, 160) if want is not None else 'none'))

    def registry(self):
        if self.reg is None:
            return
        for s in self.segs:
            if s.rd == 'start' and s.how == 'next':
                v = value_at(s.env, self.cell)
                self.rep.ob('C09', 'C06')
                if v is None or v.tag != 'empty':
                    self.rep.fail(('C06', 'C09'), 'registry-not-empty', 'at the start of a history there are seals which can be '
                                  'spent: %s (%s)' % (short(v) if v is not None else 'unknown', self.span))
            if s.k == 2 and s.rd == 'op':
                v = self.base(s)
                if v is not self.reg:
                    self.fail(('C06', 'C07', 'C09'), 'registry-moved', s, 'the seals which can be spent are not those left by the '
                              'operation before: ' + (short(v) if v is not None else 'unknown'))

    def rule_panics(self):
        self.rep.ob('C16', sample='panic sites reached on paths of evaluate: %d' % len(self.panics))
        for s, v in self.panics:
            self.rep.ob('C16')
            if possible_panic(self.I, s):
                self.rep.fail(('C16', 'C13'), 'panic-' + re.sub(r'\W+', '-', str(v[0]))[:60],
                              'evaluate can panic: %s at %s, under [%s]' % (
                                  v[0], v[1], '; '.join(('' if p else 'not ') + short(f, 100) for f, p in s.facts.items())))
        for cn in panicky(self.I):
            self.rep.fail(('C16',), 'panicky-' + cn, 'the verification procedure (%s) calls %s, which panics for some arguments'
                          % (self.span, cn))

    def rule_loops(self):
        I = self.I
        for l, how in I.loops.items():
            self.rep.ob('C23', sample='loop %s: %s' % (l, how))
        for u in I.unproven:
            self.rep.fail(('C23',), 'loop-' + re.sub(r'\W+', '-', u)[:60], u)
        if not I.loops:
            self.rep.fail(('C23', 'C12'), 'no-loops', 'the verification procedure has no loops (%s)' % self.span)



def possible_panic(I, s):
    return not refuted(I, s.facts)


# Functions of the standard library that panic for some arguments, and whose conditions the analysis does not model.
PANICKY = re.compile(
    r'(Vec|VecDeque|\[\]|str|String)::(remove|swap_remove|insert|insert_str|split_at|split_at_mut|split_off|drain|swap|rotate_left|'
    r'rotate_right|chunks|chunks_mut|chunks_exact|rchunks|windows|copy_within|splice|truncate_front|copy_from_slice|clone_from_slice|'
    r'swap_with_slice|as_chunks|select_nth_unstable|split_inclusive_at|replace_range|range|step_by)$'
    r'|BTreeMap::range(_mut)?$|BTreeSet::range$|RefCell::(borrow|borrow_mut|replace|swap|take)$|Index(Mut)?::index(_mut)?$'
    r'|(Option|Result)::(unwrap|expect|unwrap_err|expect_err)$|Iterator::step_by$'
    r'|::(pow|ilog|ilog2|ilog10|isqrt|div_ceil|next_multiple_of|next_power_of_two|abs|rem_euclid|div_euclid|strict_(add|sub|mul|div|rem|neg|shl|shr|pow|abs)\w*)$'
    r'|ops::arith::(Add|Sub|Mul|Div|Rem|Neg)(Assign)?::\w+$|ops::bit::(Shl|Shr)(Assign)?::\w+$|Duration::|panicking::|process::'
    r'|Confined::(\w+_unsafe|as_mut_checked|len_u24|unwrap\w*|remove|swap_remove|insert|split_off)$|Iterator::(sum|product)$'
    r'|RangeInclusive::|rc::Rc::unwrap|char::from_digit$')


def panicky(I):
    return sorted(cn for cn in I.opaque if PANICKY.search(cn))
