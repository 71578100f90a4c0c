"""Runs the rules over all build configurations and puts the results together for one property."""
import re
import sys
from concurrent.futures import ProcessPoolExecutor
import facts as F
import logic
from rules import Flow, Report, FLOW_PROPS
import rules_seals as RS
import rules_crate as RC

# the properties whose guarantees have to be the same in all configurations (C18)
SAME = FLOW_PROPS + ('C14', 'C15', 'C16', 'C17', 'C19', 'C20', 'C21', 'C22', 'C23', 'C26')
BITCOIN = ('C14', 'C15')


def one(facts):
    """The rules applied to one configuration."""
    sys.setrecursionlimit(20000)
    logic.spent[0] = 0
    rep = Report()
    flow = Flow(facts, rep)
    RS.seals(facts, rep)
    RS.copies(facts, rep)
    RS.encodings(facts, rep)
    RS.error_texts(facts, rep)
    RC.hidden_inputs(facts, rep)
    RC.closed(facts, rep, flow)
    RC.unsafe_code(facts, rep)
    RC.others(facts, rep, flow)
    stats = {'segments': len(flow.segs) if flow.root is not None else 0, 'used': sorted(flow.I.used) if flow.root is not None else [],
             'calls': flow.I.calls if flow.root is not None else 0, 'bodies': len(facts['bodies']),
             'local': sorted(k for k, b in facts['bodies'].items() if b['local']), 'bitcoin': RS.has_bitcoin(facts),
             'serde': 'feature=serde' in facts['features'], 'roots': len(facts['roots']), 'items': facts['items_seen'],
             'loops': len(flow.I.loops) if flow.root is not None else 0, 'runs': rep.paths}
    return rep.bad, rep.n, rep.samples, stats


WHAT = {
    'flow': 'The compiler\'s intermediate representation (MIR) of the verification procedure and of everything it calls in the crate '
            'was extracted from the current source in every build configuration and interpreted abstractly: all paths between two '
            'reads of the stream, for the first and for an arbitrary later operation, with loops replaced by what they do to an '
            'arbitrary element.  The rule of the property was applied to every path (obligations).',
    'seal': 'The MIR of the seal functions was extracted in every build configuration offering bitcoin seals and interpreted '
            'abstractly over arbitrary arguments; the value returned on every path was compared with the one demanded.',
    'crate': 'All functions, items and implementations of the crate were extracted from the type-checked program in every build '
             'configuration, and the rule was applied to each of them.',
}
KIND = {'C14': 'seal', 'C15': 'seal', 'C20': 'seal', 'C19': 'seal', 'C26': 'seal', 'C16': 'flow', 'C17': 'crate', 'C21': 'crate', 'C22': 'crate',
        'C23': 'flow'}
ASSUME = {
    'flow': ['functions of the standard library, of the seal and contract crates and of the client behave as documented (their '
             'effects are modelled, not analysed)', 'an operation holds at most 65535 items in each of its collections',
             'the compiler\'s MIR is what is compiled'],
    'seal': ['commitments, conversions and clones of types of other crates behave as documented', 'the compiler\'s MIR is what is compiled'],
    'crate': ['functions of other crates do what their names say', 'the compiler reports items and types truthfully'],
}


def run(pid, tier):
    if tier == 'thorough':
        logic.LIMIT = 60000
    facts, skipped = F.collect()
    keys = list(facts)
    with ProcessPoolExecutor(8) as ex:
        res = dict(zip(keys, ex.map(one, [facts[k] for k in keys])))
    bad = {}
    if pid == 'C18':
        bad, n, samples = same(res)
        broken = {k: m for k, m in ((k, re.search(F.COMPILER_ERROR, text, re.M)) for k, text in skipped.items()) if m}
        n += len(skipped)
        if broken:
            k, m = next(iter(broken.items()))
            bad['not-building'] = 'the crate offers nothing where it does not build: %s  [in %s]' % (
                ' '.join(m.group(0).split()), where(list(broken), list(res) + list(broken)))
    else:
        n, samples = 0, []
        for k in keys:
            b, nn, ss, _ = res[k]
            n += nn.get(pid, 0)
            for x in ss.get(pid, ()):
                if x not in samples and len(samples) < 12:
                    samples.append(x)
            for (p, code), text in b.items():
                if p == pid:
                    bad.setdefault(code, []).append((k, text))
        bad = {code: '%s  [in %s]' % (ts[0][1], where([k for k, _ in ts], keys)) for code, ts in bad.items()}
        if not n and not bad:
            bad['nothing'] = 'nothing was found to which the rule applies'
    extra = {}
    if pid == 'C21' and tier == 'thorough':
        import witness
        w, b = witness.run()
        extra['compile_fail_witnesses'] = w
        bad.update(b)
    kind = KIND.get(pid, 'flow')
    used, local, paths = set(), set(), 0
    for k in keys:
        st = res[k][3]
        used |= set(st['used'])
        local |= set(st['local'])
        paths += st['segments'] + st['runs'] if kind == 'flow' else st['runs']
    cov = {'explanation': WHAT[kind] if pid != 'C18' else 'The rules of all the other properties were applied in every combination of '
           'the features, in debug and in release builds; what is violated must not differ between them.',
           'configurations': len(keys), 'configurations_not_building': [F.name(*k) for k in skipped],
           'functions_analysed': len(local), 'functions_of_the_procedure': len(used), 'paths': paths, 'obligations': n,
           'call_sites_evaluated': sum(res[k][3]['calls'] for k in keys), 'rule': pid, 'samples': samples, 'exhaustive': True}
    cov.update(extra)
    return {'bad': bad, 'coverage': cov, 'assumptions': ASSUME[kind]}


def where(ks, keys):
    if len(ks) == len(keys):
        return 'all configurations'
    return '%d of %d configurations: %s%s' % (len(ks), len(keys), ', '.join(F.name(*k) for k in ks[:4]), ' …' if len(ks) > 4 else '')


def same(res):
    bad, n, samples = {}, 0, []
    for grp, props in ((list(res), [p for p in SAME if p not in BITCOIN]),
                       ([k for k in res if any(f in ('bitcoin', 'liquid') for f in k[0])], BITCOIN)):
        if not grp:
            bad['no-bitcoin'] = 'no configuration offers bitcoin seals'
            continue
        codes = {}
        for k in grp:
            n += sum(1 for p in props if res[k][1].get(p))
            for (p, code), text in res[k][0].items():
                if p in props:
                    codes.setdefault((p, code), []).append((k, text))
            if grp is not list(res) and props is BITCOIN and not res[k][3]['bitcoin']:
                bad['no-seals'] = 'the configuration %s offers no bitcoin seals' % F.name(*k)
        for (p, code), ts in codes.items():
            # the serde encoding is there in some configurations only
            if p in ('C16', 'C17', 'C19', 'C23') and code.split('-')[0] in ('visit_map', 'visit_seq', 'visit_str', 'visit_bytes', 'visit_u64',
                                                                            'serialize', 'deserialize', 'expecting', 'serde'):
                continue
            if len(ts) < len(grp):
                bad['%s-%s' % (p, code)] = '%s does not hold in every configuration: %s  [in %s]' % (
                    p, ts[0][1], where([k for k, _ in ts], grp))
        samples += ['%s: %s' % (F.name(*k), ', '.join('%s %d' % (p, res[k][1].get(p, 0)) for p in props)) for k in grp[:4]]
    return bad, n, samples
