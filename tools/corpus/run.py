"""Development aid: applies the variants of the source in ok.py (same behaviour) and bug.py to a scratch copy, and runs the
rules on it.   run.py ok|bug [names...] [-t] [-a]     -t also runs the tests of the copy, -a all configurations"""
import os, subprocess, sys, time
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
W = os.environ.get('SCRATCH', '/tmp/rgbw')
os.environ['RGB_REPO'] = W
sys.path[:0] = [os.path.join(HERE, '../../sa'), HERE]
sys.dont_write_bytecode = True
import base, facts as F, analyse   # noqa: E402
from concurrent.futures import ProcessPoolExecutor


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    which = args.pop(0)
    mod = __import__(which)
    if not os.path.exists(W):
        subprocess.check_call(['cp', '-a', '/repo', W])
    names = [n for n in mod.VARIANTS if not args or any(n.startswith(a) for a in args)]
    rc = 0
    for n in names:
        var = dict(mod.VARIANTS[n])
        want = var.pop('WANT', None)
        files = base.apply(var)
        for d, _, fs in os.walk(os.path.join(W, 'src')):
            for f in fs:
                if os.path.relpath(os.path.join(d, f), W) not in files:
                    os.unlink(os.path.join(d, f))
        for p, t in files.items():
            p = os.path.join(W, p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.exists(p) or open(p).read() != t:
                open(p, 'w').write(t)
        tests = ''
        if '-t' in sys.argv:
            e = F.env(); e['RUSTUP_TOOLCHAIN'] = 'stable'
            r, out = F.run(['cargo', 'test', '--all-features', '--locked', '--offline', '-q'], cwd=W, env=e)
            tests = 'tests ok' if not r else 'TESTS FAIL ' + ' '.join(l.strip() for l in out.splitlines() if l.startswith('test ') and 'FAILED' in l or l.startswith('    verify::'))[:200] + '\n'.join(out.splitlines()[-1:])
        t0 = time.time()
        try:
            sel = None if '-a' in sys.argv else (lambda c, d: d and set(c) >= {'bitcoin', 'serde', 'std'} and len(c) >= 4)
            facts, skipped = F.collect(sel)
        except F.AnalysisError as e:
            print('%-28s DOES NOT BUILD %s' % (n, str(e)[:1500]))
            rc = 1
            continue
        bad = {}
        try:
            with ProcessPoolExecutor(8) as ex:
                res = dict(zip(facts, ex.map(analyse.one, facts.values())))
            for b, nn, ss, st in res.values():
                bad.update(b)
            if '-a' in sys.argv:
                bad.update({('C18', k): t for k, t in analyse.same(res)[0].items()})
        except Exception as e:
            import traceback; traceback.print_exc()
            print('%-28s CRASH %r' % (n, e)); rc = 1
            continue
        bad.pop(('C01', 'first-op-unknown-accepted'), None)
        ps = sorted({p for p, _ in bad})
        ok = not bad if which.startswith('ok') else (set(want or ()) <= set(ps) and bool(ps))
        print('%-28s %s %s  %s %s %.1fs' % (n, 'OK ' if ok else 'BAD', ','.join(ps), ('want ' + ','.join(want)) if want else '', tests, time.time() - t0), flush=True)
        if not ok or '-v' in sys.argv:
            rc = 1 if not ok else rc
            for (p, c), t in sorted(bad.items()):
                print('      %s %s :: %s' % (p, c, t[:700 if '-v' in sys.argv else 330]))
    return rc


if __name__ == '__main__':
    sys.exit(main())
