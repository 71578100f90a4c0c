"""Development aid: generates changed versions of the verification procedure (conditions added, statements made conditional or
left out, early exits, iterators cut short or reordered), runs the rules on each that compiles, and lists those on which no rule
reports anything - which are either without effect or missed.   mutate.py [part of names...] [-n workers]"""
import os, re, subprocess, sys, time
from concurrent.futures import ProcessPoolExecutor
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
V = open('/repo/src/verify.rs').read()
i = V.index('        while let Some(mut block) = reader')
j = V.index('impl<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized>')
HEAD, BODY, TAIL = V[:i], V[i:j], V[j:]

PRED = {
    'gen': 'is_genesis', 'ngen': '!is_genesis', 'wit': 'block.witness.is_some()', 'nwit': 'block.witness.is_none()',
    'nodefs': 'block.defined_seals.is_empty()', 'defs': '!block.defined_seals.is_empty()',
    'noin': 'block.operation.destructible_in.is_empty()', 'in': '!block.operation.destructible_in.is_empty()',
    'noout': 'block.operation.destructible_out.is_empty()', 'imin': '!block.operation.immutable_in.is_empty()',
    'imout': 'block.operation.immutable_out.len() > 1', 'known': 'self.is_known(opid)', 'unknown': '!self.is_known(opid)',
    'noseals': 'seals.is_empty()', 'noclosed': 'closed_seals.is_empty()', 'closed': '!closed_seals.is_empty()',
    'closed2': 'closed_seals.len() > 1', 'defs2': 'block.defined_seals.len() > 1', 'defs1': 'block.defined_seals.len() == 1',
    'hash': 'opid.to_byte_array()[0] == 0xff', 'call': 'block.operation.call_id > 0', 'opnone': 'operation.is_none()',
    'opsome': 'operation.is_some()', 'cid': 'block.operation.contract_id != contract_id', 'nosrc': 'seal_sources.is_empty()',
    'wout': 'block.defined_seals.values().any(|s| s.to_src().is_none())',
    'extern': 'block.defined_seals.values().all(|s| s.to_src().is_some())', 'seals2': 'seals.len() > 1',
    'nonce': 'block.operation.nonce == ultrasonic::fe256::ZERO',
    'partial': 'block.defined_seals.len() < block.operation.destructible_out.len()',
    'dup': 'defined.len() < block.operation.destructible_out.len()',
}
# statements of the loop, in order, with their indentation
STM = re.findall(r'(?m)^            (?=\S)(?!//|\}|\.)[^\n]*?;\n|^            (?=\S)(?!//|\.)[^\n]*\n(?:             [^\n]*\n|\n)*(?:            [\}\.][^\n]*\n(?:             [^\n]*\n)*)*', BODY)


def mutants():
    # early exits before each statement
    for n, s in enumerate(STM):
        if n == 0:
            continue
        for p, c in PRED.items():
            for q, act in (('continue', 'continue;'), ('ok', 'return Ok(());'), ('break', 'break;')):
                yield 'exit-%02d-%s-%s' % (n, p, q), BODY.replace(s, '            if %s { %s }\n' % (c, act) + s, 1)
    # statements with an effect, or inner blocks, made conditional
    eff = ['                block.operation.contract_id = contract_id;\n', '                self.apply_witness(opid, witness);\n',
           '                self.apply_operation(operation);\n', '                self.apply_seals(opid, block.defined_seals);\n',
           '            seals.extend(seal_sources);\n', '                seal_sources.extend(iter);\n',
           '                closed_seals.push(seal);\n', '                is_genesis = false\n',
           BODY[BODY.index('                witness\n                    .verify_seals'):BODY.index('                //  Each witness')]]
    for n, s in enumerate(eff):
        assert BODY.count(s) == 1, s
        yield 'drop-%d' % n, BODY.replace(s, '')
        yield 'twice-%d' % n, BODY.replace(s, s.rstrip('\n') + ';\n' + s) if n == 7 else BODY.replace(s, s + s)
        for p, c in PRED.items():
            yield 'when-%d-%s' % (n, p), BODY.replace(s, 'if %s {\n%s}\n' % (c, s))
            yield 'unless-%d-%s' % (n, p), BODY.replace(s, 'if !(%s) {\n%s}\n' % (c, s))
    conds = ['if is_genesis {\n                if', 'block.operation.contract_id.to_byte_array() != codex_id.to_byte_array()', '!matching',
             'self.is_known(opid)', '!closed_seals.is_empty()', 'if is_genesis {\n                is', '!block.defined_seals.is_empty()',
             'seal.to_src().is_none()', 'cell.auth == seal.auth_token()']
    for n, s in enumerate(conds):
        assert BODY.count(s) == 1, s
        core = s[3:s.index(' {')] if s.startswith('if ') else s
        yield 'not-%d' % n, BODY.replace(s, s.replace(core, '!(%s)' % core))
        for p, c in list(PRED.items()) + [('true', 'true'), ('false', 'false')]:
            for o in ('&&', '||'):
                for neg in ('', '!'):
                    if c in ('true', 'false') and neg:
                        continue
                    yield 'cond-%d-%s%s%s' % (n, 'and' if o == '&&' else 'or', neg, p), BODY.replace(
                        s, s.replace(core, '(%s) %s %s(%s)' % (core, o, neg, c)))
    # iterators
    its = [m for m in re.finditer(r'\.iter\(\)|\.values\(\)|(?<=in )&block\.operation\.destructible_in|\.filter_map\(', BODY)]
    for n, m in enumerate(its):
        t = m.group(0)
        for k, a in (('skip', '.skip(1)'), ('take', '.take(1)'), ('take255', '.take(255)'), ('step', '.step_by(2)'), ('rev', '.rev()'),
                     ('skipg', '.skip(usize::from(is_genesis))'), ('dedup', '.filter(|_| block.defined_seals.len() < 2)'),
                     ('fuse', '.filter(|_| !is_genesis)'), ('tw', '.take_while(|_| !block.defined_seals.is_empty())'),
                     ('takeout', '.take(block.operation.destructible_out.len())'),
                     ('takein', '.take(block.operation.destructible_in.len())')):
            if t.startswith('&'):
                r = 'block.operation.destructible_in.iter()' + a
            elif t.startswith('.filter_map'):
                r = a + t
            else:
                r = t + a
            yield 'iter-%d-%s' % (n, k), BODY[:m.start()] + r + BODY[m.end():]
    # names
    reps = [('CellAddr::new(opid, *pos), seal))', 'CellAddr::new(opid, 0), seal))'), ('CellAddr::new(opid, *pos), seal))', 'CellAddr::new(opid, *pos as u8 as u16), seal))'),
            ('.get(*pos as usize)', '.get(*pos as u8 as usize)'), ('.get(*pos as usize)', '.first()'), ('.get(*pos as usize)', '.last()'),
            ('.remove(&input.addr)', '.get(&input.addr).cloned()'),
            ('.ok_or(VerificationError::SealUnknown(input.addr))?', '.ok_or(VerificationError::NoWitness(opid))?'),
            ('VerificationError::SealUnknown(input.addr)', 'VerificationError::SealUnknown(CellAddr::new(opid, 0))'),
            ('.verify(contract_id, block.operation, ', '.verify(contract_id, block.operation.clone(), '),
            ('seal.resolve(pub_id)', 'seal.to_src().unwrap_or_else(|| seal.resolve(pub_id))'),
            ('{ opid, reported, defined, sources }', '{ opid, reported: defined, defined: reported, sources }'),
            ('seals.extend(seal_sources);', 'for (a, s) in seal_sources { seals.entry(a).or_insert(s); }'),
            ('seals.extend(seal_sources);', 'seals = seal_sources.into_iter().collect();'),
            ('&closed_seals, msg', '&closed_seals[..closed_seals.len().min(1)], msg'),
            ('&closed_seals, msg', '&closed_seals[1.min(closed_seals.len())..], msg'),
            ('let msg = opid.to_byte_array();', 'let msg = contract_id.to_byte_array();'),
            ('let msg = opid.to_byte_array();', 'let mut msg = opid.to_byte_array(); if is_genesis { msg = contract_id.to_byte_array(); }'),
            ('let msg = opid.to_byte_array();', 'let mut msg = opid.to_byte_array(); msg[31] &= 0x7f;'),
            ('self.apply_seals(opid,', 'self.apply_seals(Opid::from(contract_id.to_byte_array()),'),
            ('let mut closed_seals = Vec::<Seal>::new();', 'let mut closed_seals = Vec::<Seal>::new(); seals.retain(|a, _| a.opid != opid);'),
            ('            let opid = block.operation.opid();\n', '            let opid = block.operation.opid();\n            seals.retain(|_, _| !is_genesis);\n'),
            ]
    for n, (a, b) in enumerate(reps):
        assert BODY.count(a) == 1, a
        yield 'rep-%d' % n, BODY.replace(a, b)
    # orders of adjacent statements
    for n in range(len(STM) - 1):
        a, b = STM[n], STM[n + 1]
        x = BODY.index(a)
        y = BODY.index(b)
        yield 'swap-%d' % n, BODY[:x] + b + BODY[x + len(a):y] + a + BODY[y + len(b):]


def work(job):
    wid, items = job
    W = '/tmp/rgbm_%d' % wid
    os.environ['RGB_REPO'] = W
    sys.path[:0] = [os.path.join(HERE, '../sa')]
    subprocess.check_call(['rm', '-rf', W])
    subprocess.check_call(['cp', '-a', '/repo', W])
    import facts as F, analyse
    res = []
    sel = lambda c, d: d and set(c) >= {'bitcoin', 'serde', 'std'} and len(c) >= 4
    for name, body in items:
        open(W + '/src/verify.rs', 'w').write(HEAD + body + TAIL)
        try:
            facts, _ = F.collect(sel)
        except F.AnalysisError:
            res.append((name, 'no build'))
            continue
        try:
            bad = {}
            for f in facts.values():
                bad.update(analyse.one(f)[0])
            bad.pop(('C01', 'first-op-unknown-accepted'), None)
            res.append((name, ','.join(sorted({p for p, _ in bad}))))
        except Exception as e:
            res.append((name, 'CRASH %r' % e))
        with open('/tmp/mut_%d.txt' % wid, 'a') as o:
            o.write('%s %s\n' % res[-1])
    subprocess.check_call(['rm', '-rf', W])
    return res


def main():
    pats = [a for a in sys.argv[1:] if not a.startswith('-')]
    n = 8
    ms = {}
    for name, b in mutants():
        if b != BODY and (not pats or any(p in name for p in pats)):
            ms.setdefault(name, b)
    if '-l' in sys.argv:
        for k, s in enumerate(STM):
            print(k, repr(s[:60]))
        print(len(ms))
        return
    if '-p' in sys.argv:
        for k, b in ms.items():
            open('/tmp/m.rs', 'w').write(HEAD + b + TAIL)
            subprocess.run(['diff', '/repo/src/verify.rs', '/tmp/m.rs'])
        return
    items = list(ms.items())
    with ProcessPoolExecutor(n) as ex:
        out = [x for r in ex.map(work, [(k, items[k::n]) for k in range(n)]) for x in r]
    built = [x for x in out if x[1] != 'no build']
    print('%d generated, %d build, %d reported' % (len(out), len(built), sum(1 for x in built if x[1])))
    for a, b in sorted(built):
        if not b or b.startswith('CRASH'):
            print(a, b)


if __name__ == '__main__':
    main()
