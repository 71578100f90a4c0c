"""The rules about the crate as a whole: panics (C16), hidden inputs (C17), the closed procedure (C21), unsafe code (C22),
repetition (C23)."""
import re
from terms import *
from interp import Unproven
from rules import CONTRACT, EVALUATE, short, panicky
from rules_seals import Run, encodings_of

# what the crate may read that is neither an argument nor given by the contract
HIDDEN = [
    (r'^std::time::|::Instant::|::SystemTime::|^chrono::|UNIX_EPOCH', 'the clock'),
    (r'^std::env::|::env::(var|vars|args|current_dir)', 'the environment'),
    (r'^std::(fs|os)::|^std::path::Path::(exists|is_file|is_dir|read_dir|metadata|canonicalize|try_exists)', 'files'),
    (r'^std::net::', 'the network'),
    (r'^std::process::', 'the process'),
    (r'^std::thread::|::LocalKey::|::thread_local|::available_parallelism', 'the thread'),
    (r'::io::stdio::(stdin|Stdin\w*::\w+)|^std::io::(stdin|read_to_string)', 'the standard input'),
    (r'^(std|core|alloc)::sync::(atomic|poison|mutex|once|lazy_lock|once_lock|rwlock|mpsc|barrier|condvar)|^core::sync::atomic|'
     r'::(Mutex|RwLock|OnceLock|LazyLock|Once|OnceCell|Condvar)::|^once_cell::|^lazy_static::|::Atomic\w+::', 'shared state'),
    (r'^rand::|^rand_core::|^getrandom::|^fastrand::|::RngCore::|::thread_rng|::OsRng|^amplify::.*rand', 'randomness'),
    (r'::RandomState::|::BuildHasher::|::DefaultHasher::', 'a randomly seeded hash'),
    (r'::type_name(_of_val)?$|::TypeId::of$|::Location::caller$', 'details of the build'),
    (r'::fmt::Pointer::fmt$|::Argument::new_pointer$|::ptr::.*::addr$|::expose_provenance$|\[\*\w+\]::addr', 'the place in memory'),
    (r'^core::arch::|^std::arch::|is_x86_feature_detected', 'the processor'),
    (r'^std::alloc::|^alloc::alloc::', 'the allocator'),
    (r'^std::backtrace::|^std::panic::|::panicking::panicking$', 'the state of the thread'),
]
HIDDEN = [(re.compile(a), b) for a, b in HIDDEN]
HASHED = re.compile(r'(^|::)(HashMap|HashSet|hash_map|hash_set)($|::|<)')
ORDERED_OPS = re.compile(r'::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if|into_iter|union|'
                         r'intersection|difference|symmetric_difference)$')
DOCUMENTED = {
    'rgbcore::verify::ContractApi': {'contract_id', 'codex', 'repo', 'memory', 'is_known', 'apply_operation', 'apply_seals',
                                     'apply_witness'},
    'rgbcore::verify::ReadOperation': {'read_operation'},
    'rgbcore::seals::RgbSealDef': {'auth_token', 'resolve', 'to_src'},
    'rgbcore::seals::RgbSeal': set(),
}
DERIVED = ('serde::', 'strict_encoding::')


def const_items(o):
    """The associated constants without a value of their own named within (part of) a body."""
    if isinstance(o, dict):
        if 'item' in o and 'constbody' not in o and 'ty' in o and 'int' not in o:
            yield o['item']
        for v in o.values():
            yield from const_items(v)
    elif isinstance(o, list):
        for v in o:
            yield from const_items(v)


def callees(o):
    """The functions named within (part of) a body."""
    if isinstance(o, dict):
        if 'cn' in o:
            yield o
        for v in o.values():
            yield from callees(v)
    elif isinstance(o, list):
        for v in o:
            yield from callees(v)


def local_bodies(facts):
    return [(k, b) for k, b in facts['bodies'].items() if b['local']]


def label(b):
    return '%s (%s)' % (b['path'], b['span'])


def statements(b):
    for bl in b['blocks']:
        if bl is not None:
            for s in bl['s']:
                yield s
            yield bl['t']


def hidden_inputs(facts, rep):
    for st in facts['statics']:
        rep.ob('C17', sample='static %s' % st['path'])
        if st['mutable'] or not st['freeze']:
            rep.fail(('C17',), 'static-' + st['path'], 'the static %s (%s) can change: %s' % (st['path'], st['span'], st['ty']))
    for v in facts['env_read']:
        rep.ob('C17', sample='variable %s read by the compiler' % v)
        if not v.startswith(('CARGO', 'RUSTC')):
            rep.fail(('C17',), 'built-with-' + v, 'the code depends on the environment variable %s at the time of the build (env! or option_env!)' % v)
    for k, b in local_bodies(facts):
        n = 0
        for cal in callees(b['blocks']):
            n += 1
            for cn in {cal['cn'], cal.get('res') or '', cal.get('path') or ''}:
                for rx, what in HIDDEN:
                    if cn and rx.search(cn):
                        rep.fail(('C17',), 'reads-%s-%s' % (b['path'], cn), '%s calls %s and so depends on %s' % (label(b), cn, what))
            name = cal['cn']
            tys = (cal.get('selfty') or '', ' '.join(cal.get('targs') or ())) if name.endswith(
                ('::into_iter', '::next', '::fmt', '::collect', '::extend', '::from_iter')) else ('', '')
            if HASHED.search(name) and ORDERED_OPS.search(name):
                rep.fail(('C17',), 'hashed-%s' % b['path'], '%s goes through a collection in random order (%s)' % (label(b), name))
            elif name.endswith(('IntoIterator::into_iter', 'Iterator::next')) and HASHED.search(tys[0]):
                rep.fail(('C17',), 'hashed-%s' % b['path'], '%s goes through a collection in random order (%s)' % (label(b), tys[0]))
            elif name.endswith('Extend::extend') and len(cal.get('targs') or ()) > 2 and HASHED.search(cal['targs'][2]):
                rep.fail(('C17',), 'hashed-%s' % b['path'], '%s goes through a collection in random order (%s)' % (
                    label(b), cal['targs'][2]))
        rep.ob('C17', sample='%s: %d functions named' % (label(b), n))
        for s in statements(b):
            if s[0] != '=':
                continue
            r = s[2]
            if r[0] == 'tls':
                rep.fail(('C17',), 'tls-' + b['path'], '%s uses the thread-local variable %s' % (label(b), r[1]))
            elif r[0] == 'cast' and ('Expose' in str(r[1]) or str(r[1]).startswith('Transmute') and re.match(
                    r'^(usize|u64|isize|i64)$', str(r[3])) and re.match(r'^[&*]', str(r[4]))):
                rep.fail(('C17',), 'address-' + b['path'], '%s turns an address into a number' % label(b))
    if len(local_bodies(facts)) < 10:
        rep.fail(('C17', 'C16', 'C22', 'C23'), 'too-little', 'only %d functions of the crate were found' % len(local_bodies(facts)))


def closed(facts, rep, flow):
    props = ('C21',)
    ts = {t['path']: t for t in facts['traits']}
    t = ts.get(CONTRACT)
    if t is None or not any(i['name'] == 'evaluate' for i in t['items']):
        rep.fail(props, 'no-trait', 'the trait %s with its method evaluate was not found' % CONTRACT)
        return
    if not any('<Self as verify::ContractApi<' in p for p in t['preds']):
        rep.fail(props, 'no-super', '%s (%s) does not demand ContractApi' % (CONTRACT, t['span']))
    for i in t['items']:
        if i['name'] == 'evaluate':
            rep.ob('C21', sample='clauses of evaluate which do not follow from the interface: %s' % i['demands'])
            for p in i['demands']:
                rep.fail(props, 'asks-' + re.sub(r'\W+', '-', p)[:80], 'the verification procedure (%s) is not there for all types '
                         'implementing the contract interface: it demands %s' % (t['span'], p))
    impls = [i for i in facts['impls'] if i.get('trait') == CONTRACT]
    rep.ob('C21', sample='implementations of ContractVerify: %s' % [i['self'] + ' ' + i['span'] for i in impls])
    blanket = [i for i in impls if re.match(r'^param:\w+$', str(i['self']))]
    for i in impls:
        if i not in blanket:
            rep.fail(props, 'impl-' + str(i['self']), 'the verification procedure is implemented for %s by itself (%s), and so can be '
                     'for other types' % (i['self'], i['span']))
    if len(blanket) != 1:
        rep.fail(props, 'no-blanket', 'there is no implementation of %s for every type that implements the contract interface, so '
                 'that clients can give their own' % CONTRACT)
    for i in blanket:
        rep.ob('C21', sample='clauses of the implementation which do not follow from the interface: %s' % i['demands'])
        for q in i['demands']:
            rep.fail(props, 'bound-' + re.sub(r'\W+', '-', q)[:80], 'the implementation of the verification procedure for all types '
                     '(%s) holds only under %s, so that clients can give their own for other types' % (i['span'], q))
    # what the procedure asks of types of the client
    if flow is None or flow.root is None:
        return
    for k in sorted(flow.I.used):
        b = facts['bodies'][k]
        for it in const_items(b['blocks']):
            if it.rsplit('::', 1)[0] in ts:
                rep.fail(props, 'steer-' + it, '%s depends on the constant %s, by which clients can steer verification' % (label(b), it))
        for cal in callees(b['blocks']):
            tr = cal.get('trait')
            if tr not in ts or cal.get('key') or flow.I.blanket(cal):
                continue
            rep.ob('C21', sample='%s calls %s' % (label(b), cal['cn']))
            if cal['cn'].split('::')[-1] not in DOCUMENTED.get(tr, ()):
                rep.fail(props, 'steer-' + cal['cn'], '%s calls %s, which clients can implement as they like and by which they can '
                         'steer verification' % (label(b), cal['cn']))


def unsafe_code(facts, rep):
    rep.ob('C22', sample='items looked at: %d' % facts['items_seen'])
    for u in facts['unsafe']:
        rep.fail(('C22',), 'unsafe-%s-%s' % (u['kind'], u['in']), 'unsafe code (%s) in %s at %s' % (u['kind'], u['in'], u['span']))
    for g in facts['global_asm']:
        rep.fail(('C22',), 'asm', 'assembly code at %s' % (g.get('span') if isinstance(g, dict) else g))
    for a in facts['adts'] + facts['traits'] + facts['impls']:
        rep.ob('C22')
    if facts['items_seen'] < 30 or facts['skipped']:
        rep.fail(('C22',), 'too-little', 'only %d items of the crate were looked at, %d were not' % (
            facts['items_seen'], facts['skipped']))


def others(facts, rep, flow):
    """C16 and C23 for the functions other than the procedure: those that can be called from outside the crate.  The private
    ones are analysed where they are called."""
    local = {t['path'] for t in facts['traits']}
    roots = [r for r in facts['roots'] if r['cn'] != EVALUATE and r['key'] in facts['bodies']]
    first = [r for r in roots if r.get('trait') and (r['trait'] not in local or r['cn'].rsplit('::', 1)[0] in DOCUMENTED)]
    used = set(flow.I.used) if flow is not None and flow.root is not None else set()
    private = {a['path'] for a in facts['adts'] if a.get('vis') == 'priv'}
    for r in first:
        if r.get('self') not in private:
            used |= other(facts, r, rep)
    for r in first:
        # an implementation for a type of no one else, by what the analysed functions call
        if r.get('self') in private and not any(k.split('[')[0] == r['key'].split('[')[0] for k in used):
            used |= other(facts, r, rep)
    for r in roots:
        if r not in first and r['key'] not in used and not r.get('trait') and not r.get('intrait') and r.get('vis') == 'pub':
            other(facts, r, rep)


def other(facts, r, rep):
    enc = bool(r.get('trait')) and r['trait'].startswith(DERIVED)
    x = Run(facts, r, rep, () if r.get('derived') or not r.get('trait') else ('C16', 'C23'))
    if x.outs is None:
        return set()
    rep.ob('C16', 'C23', sample='%s: %d paths, %d functions outside the crate called' % (x.name, len(x.outs), len(x.I.opaque)))
    for k, s, v in x.outs:
        if k == 'panic':
            x.fail(('C16',), 'panic-' + re.sub(r'\W+', '-', str(v[0]))[:60], 'can panic: %s at %s, under [%s]' % (
                v[0], v[1], x.cond(s)))
    for cn in panicky(x.I):
        x.fail(('C16',), 'panicky-' + cn, 'calls %s, which panics for some arguments' % cn)
    if not enc:
        for u in x.I.unproven:
            x.fail(('C23',), 'loop-' + re.sub(r'\W+', '-', u)[:60], u)
    if r['cn'].endswith(('strict_encode', 'strict_decode')):
        encodings_of(x, rep)
    return x.I.used
