"""Which checks catch which planted bugs:  matrix.py [ids...]"""
import json, os, subprocess, sys
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
W = '/tmp/rgbm'
os.environ['RGB_REPO'] = W
sys.path[:0] = [os.path.join(HERE, '../sa')]
sys.dont_write_bytecode = True
import facts as F, analyse   # noqa: E402
from concurrent.futures import ProcessPoolExecutor


def everything():
    facts, _ = F.collect()
    keys = list(facts)
    with ProcessPoolExecutor(8) as ex:
        res = dict(zip(keys, ex.map(analyse.one, [facts[k] for k in keys])))
    bad = {}
    for k in keys:
        for pc, t in res[k][0].items():
            bad.setdefault(pc, t)
    bad.pop(('C01', 'first-op-unknown-accepted'), None)
    for c, t in analyse.same(res)[0].items():
        bad[('C18', c)] = t
    return bad


if __name__ == '__main__':
    S = os.path.join(HERE, '../seeded')
    for sid in sys.argv[1:] or sorted(os.listdir(S)):
        d = os.path.join(S, sid)
        if not os.path.exists(W):
            subprocess.check_call(['cp', '-a', '/repo', W])
        subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=W)
        subprocess.check_call(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=W)
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        bad = everything()
        ps = sorted({p for p, _ in bad})
        print('%-26s %s %s: %s' % (sid, prop, 'caught' if prop in ps else 'MISSED', ' '.join(ps)), flush=True)
