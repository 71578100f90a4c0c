"""Development aid: token-level mutants of the lines which the variants of ok*.py change, to see whether the rules still notice
changes of behaviour in code of another form; lists the mutants which compile and are not reported.  mutok.py [per variant] [seed] [names...]"""
import difflib, os, random, re, subprocess, sys, time
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, '../../sa'), HERE]
from concurrent.futures import ProcessPoolExecutor
import base

RULES = [
    (r'\bif (?!let\b)([^{}]+?) \{', r'if !(\1) {'), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
    (r'\.iter\(\)', '.iter().skip(1)'), (r'\.iter\(\)', '.iter().take(1)'), (r'\.values\(\)', '.values().skip(1)'), (r'\.into_iter\(\)', '.into_iter().skip(1)'),
    (r'\.all\(', '.any('), (r'\.any\(', '.all('), (r'\.is_none\(\)', '.is_some()'), (r'\.is_some\(\)', '.is_none()'),
    (r'(\w[\w.]*)\.is_empty\(\)', r'(\1.len() < 2)'), (r'\?;', '.ok();'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r'^(\s+)return Err\(.*\);$', r'\1return Ok(());'), (r'^(\s+)(?!let |return|use |pub |//|#|type |break|continue)(\S.*;)$', r'\1'),
    (r'^(\s+)(?!let |return|use |pub |//|#|type |break|continue)(\S.*;)$', r'\1if opid.to_byte_array()[3] != 7 { \2 }'),
    (r'^(\s+)(?!let |return|use |pub |//|#|type |break|continue)(\S.*;)$', r'\1if block.witness.is_some() { \2 }'),
    (r'\.remove\(', '.get('), (r'\bopid\b', 'Opid::from(contract_id.to_byte_array())'), (r'\*pos\b', '(*pos / 2)'), (r' \+ 1', ' + 2'),
    (r'\bcontinue;', 'break;'), (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'return Ok(());'), (r'\bbreak;', 'return Ok(());'),
    (r'\bOk\(\(\)\)', 'Err(VerificationError::NoCodexCommitment)'), (r'\.unwrap_or\((\w+)\)', r'.unwrap_or(!\1)'),
    (r'\.filter\(', '.skip(1).filter('), (r'\.map\(', '.skip(1).map('), (r'\.filter_map\(', '.take(1).filter_map('),
    (r'\.extend\((\w+)\)', r'.extend(\1.into_iter().take(1))'), (r'\.insert\(', '.entry('), (r'\bNone =>', 'None if false =>'),
    (r'\.ok_or\((.*)\)\?', r'.ok_or(\1).or(Err(VerificationError::NoWitness(opid)))?'),
]


def mutants(text, orig):
    """(rule, line, text) for the lines of text which orig does not have."""
    a, b = orig.splitlines(), text.splitlines()
    new = [k for tag, _, _, j1, j2 in difflib.SequenceMatcher(None, a, b, False).get_opcodes() if tag != 'equal' for k in range(j1, j2)]
    end = next((k for k, l in enumerate(b) if l.startswith('#[cfg(test)]')), len(b))
    for k in new:
        if k >= end or b[k].strip().startswith('//'):
            continue
        for r, (p, q) in enumerate(RULES):
            for m in re.finditer(p, b[k]):
                l = b[k][:m.start()] + m.expand(q) + b[k][m.end():]
                if l != b[k]:
                    yield r, k, '\n'.join(b[:k] + [l] + b[k + 1:]) + '\n', b[k].strip(), l.strip()


def work(job):
    wid, items = job
    W = '/tmp/rgbk_%d' % wid
    os.environ['RGB_REPO'] = W
    subprocess.check_call(['rm', '-rf', W])
    subprocess.check_call(['cp', '-a', '/repo', W])
    import facts as F, analyse
    res = []
    sel = lambda c, d: d and set(c) >= {'bitcoin', 'serde', 'std'} and len(c) >= 4
    for name, files, old, new in items:
        for d, _, fs in os.walk(os.path.join(W, 'src')):
            for f in fs:
                if os.path.relpath(os.path.join(d, f), W) not in files:
                    os.unlink(os.path.join(d, f))
        for p, t in files.items():
            os.makedirs(os.path.dirname(os.path.join(W, p)), exist_ok=True)
            open(os.path.join(W, p), 'w').write(t)
        try:
            facts, _ = F.collect(sel)
        except F.AnalysisError:
            res.append((name, 'no build', old, new))
            continue
        bad = {}
        try:
            for f in facts.values():
                bad.update(analyse.one(f)[0])
            bad.pop(('C01', 'first-op-unknown-accepted'), None)
            r = ','.join(sorted({p for p, _ in bad}))
        except Exception as e:
            r = 'CRASH %r' % e
        res.append((name, r, old, new))
    subprocess.check_call(['rm', '-rf', W])
    return res


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 6
    random.seed(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
    orig = {p: open(os.path.join('/repo', p)).read() for p in ('src/verify.rs', 'src/seals.rs', 'src/lib.rs')}
    items = []
    for m in ('ok', 'ok2', 'ok3', 'ok4', 'ok5', 'ok6', 'ok7', 'ok8', 'ok9', 'ok10', 'ok11', 'ok12', 'ok13', 'ok14'):
        for name, v in __import__(m).VARIANTS.items():
            if len(sys.argv) > 3 and name not in sys.argv[3:]:
                continue
            files = base.apply(v)
            ms = [(name, dict(files, **{p: t}), o, l) for p in files for _, _, t, o, l in mutants(files[p], orig.get(p, orig['src/verify.rs']))]
            random.shuffle(ms)
            items += ms[:n]
    random.shuffle(items)
    print(len(items), 'mutants', flush=True)
    with ProcessPoolExecutor(7) as ex:
        out = [x for r in ex.map(work, [(k, items[k::7]) for k in range(7)]) for x in r]
    built = [x for x in out if x[1] != 'no build']
    print('%d build, %d not reported' % (len(built), sum(1 for x in built if not x[1])))
    for name, r, o, l in sorted(built):
        if not r or r.startswith('CRASH'):
            print('%-24s %s\n      %s\n      %s' % (name, r, o, l))


if __name__ == '__main__':
    main()
