"""Development aid: random combinations of the variants of ok*.py that replace different blocks.  combine.py [count] [seed] [-b]
With -b each starts with a variant of bug*.py, whose properties have to be reported."""
import os, random, subprocess, sys, time
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, '../../sa'), HERE]
from concurrent.futures import ProcessPoolExecutor
import base


def pool(ms):
    vs = []
    for m in ms:
        if os.path.exists(os.path.join(HERE, m + '.py')):
            vs += [(n, dict(v)) for n, v in __import__(m).VARIANTS.items() if 'EVAL' not in v and 'FILES' not in v and v]
    return vs


def merge(vs):
    out, names = {}, []
    for n, v in vs:
        keys = {k for k in v if k not in ('USE', 'ITEMS', 'SITEMS', 'SUB', 'SSUB', 'LSUB', 'WANT')}
        if keys & set(out):
            continue
        if any(k in out for k in ('SUB', 'SSUB', 'LSUB') if k in v):
            continue
        for k, t in v.items():
            out[k] = out[k] + t if k in out else t
        names.append(n)
    return names, out


def work(job):
    wid, items = job
    W = '/tmp/rgbc_%d' % wid
    os.environ['RGB_REPO'] = W
    subprocess.check_call(['rm', '-rf', W])
    subprocess.check_call(['cp', '-a', '/repo', W])
    import facts as F, analyse
    res = []
    sel = lambda c, d: d and set(c) >= {'bitcoin', 'serde', 'std'} and len(c) >= 4
    for names, var in items:
        want = set(var.pop('WANT', ()))
        try:
            files = base.apply(var)
        except AssertionError:
            continue
        for p, t in files.items():
            open(os.path.join(W, p), 'w').write(t)
        t0 = time.time()
        try:
            facts, _ = F.collect(sel)
        except F.AnalysisError as e:
            r = 'no build'
        else:
            try:
                bad = {}
                for f in facts.values():
                    bad.update(analyse.one(f)[0])
                bad.pop(('C01', 'first-op-unknown-accepted'), None)
                if want:
                    got = {p for p, _ in bad}
                    bad = {} if want <= got else {('want', x): '' for x in want} | {('got', x): '' for x in got}
                r = ','.join(sorted({p for p, _ in bad})) + ' ' + ' '.join(sorted({k for _, k in bad}))[:200] if bad else ''
            except Exception as e:
                r = 'CRASH %r' % e
        res.append((names, r, time.time() - t0))
        with open('/tmp/comb_%d.txt' % wid, 'a') as o:
            o.write('%s | %s | %.1f\n' % (' '.join(names), r, res[-1][2]))
    subprocess.check_call(['rm', '-rf', W])
    return res


def main():
    args = [a for a in sys.argv[1:] if a != '-b']
    n = int(args[0]) if args else 200
    random.seed(int(args[1]) if len(args) > 1 else 1)
    vs = pool(('ok', 'ok2', 'ok3', 'ok4', 'ok5', 'ok6', 'ok7', 'ok8', 'ok9', 'ok10', 'ok11', 'ok12', 'ok13', 'ok14', 'ok15'))
    bugs = [b for b in pool(('bug', 'bug2', 'bug3', 'bug4', 'bug5', 'bug6', 'bug7', 'bug8', 'bug9', 'bug10', 'bug11', 'bug12', 'bug14', 'bug15')) if 'C18' not in b[1]['WANT']] if '-b' in sys.argv else []
    items = []
    for _ in range(n):
        random.shuffle(vs)
        items.append(merge(([random.choice(bugs)] if bugs else []) + vs[:random.choice((3, 4, 6, 9, 14))]))
    with ProcessPoolExecutor(8) as ex:
        out = [x for r in ex.map(work, [(k, items[k::8]) for k in range(8)]) for x in r]
    built = [x for x in out if x[1] != 'no build']
    print('%d combined, %d build, %d reported, slowest %.0f s' % (len(out), len(built), sum(1 for x in built if x[1]), max(x[2] for x in built)))
    for a, b, t in built:
        if b:
            print(' '.join(a), '|', b)


if __name__ == '__main__':
    main()
