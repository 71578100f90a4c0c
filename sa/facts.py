"""Builds the fact extractor and runs it on the current source of the analysed crate in every build configuration."""
import fcntl, hashlib, itertools, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')
REPO = os.environ.get('RGB_REPO', '/repo')
CRATE = 'rgbcore'


class AnalysisError(Exception):
    pass


def env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(('CARGO_', 'RUSTC', 'RUSTFLAGS', 'RUSTDOC'))}
    e.pop('MAKEFLAGS', None)
    e.setdefault('HOME', '/root')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['RUSTUP_TOOLCHAIN'] = 'nightly'
    e['CARGO_TERM_COLOR'] = 'never'
    return e


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        rc, out = run(['rustc', '--print', 'sysroot'], env=env())
        if rc:
            raise AnalysisError('no nightly compiler: ' + out)
        _sysroot = out.strip().splitlines()[-1]
    return _sysroot


def driver():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'driver', 'main.rs')
    tag = hashlib.sha256(open(src, 'rb').read() + sysroot().encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'rgbfacts-' + tag)
    if not os.path.exists(exe):
        with open(os.path.join(BUILD, 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(exe):
                rc, out = run(['rustc', '--edition', '2021', '-O', '--cap-lints', 'allow', src, '-o', exe + '.tmp'], env=env())
                if rc:
                    raise AnalysisError('the extractor does not build: ' + out[-3000:])
                os.rename(exe + '.tmp', exe)
    return exe


def features():
    rc, out = run(['cargo', 'metadata', '--no-deps', '--offline', '--format-version', '1',
                   '--manifest-path', os.path.join(REPO, 'Cargo.toml')], env=env())
    if rc:
        raise AnalysisError('cargo metadata: ' + out[-2000:])
    meta = json.loads(out[out.index('{'):])
    pkg = meta['packages'][0]
    feats = pkg['features']
    optional = {d['rename'] or d['name'] for d in pkg['dependencies'] if d['optional'] and not d.get('target')}
    return feats, optional


def closure(fs, feats):
    done, todo = set(), list(fs)
    while todo:
        f = todo.pop()
        if f in done:
            continue
        done.add(f)
        todo.extend(feats.get(f, []) if f in feats else [])
    return done


def configs():
    """All combinations of the own features of the crate, each in a debug and a release build."""
    feats, optional = features()
    plain = sorted(f for f in feats if f not in ('default', 'all') and feats[f] != ['dep:' + f])
    if len(plain) > 7:
        raise AnalysisError('too many features to enumerate: %s' % plain)
    out = {}
    for k in range(len(plain) + 1):
        for c in itertools.combinations(plain, k):
            cl = closure(c, feats)
            cfgs = tuple(sorted(f for f in cl if f in feats))
            deps = tuple(sorted(f for f in cl if f not in feats or f in optional or '/' in f or f.startswith('dep:')))
            out[cfgs] = deps
    return out, plain


def record(fs, deps):
    """Builds the dependencies for a set of features, and returns the compiler command for the crate itself."""
    exe = driver()
    tag = hashlib.sha256(repr(deps).encode()).hexdigest()[:8]
    tgt = os.path.join(BUILD, 'target-' + tag)
    os.makedirs(tgt, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock-' + tag), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        for sub in ('.fingerprint', 'build'):  # cargo must not take the crate for fresh, and skip the wrapper
            fp = os.path.join(tgt, 'debug', sub)
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d == 'rgb-core' or d.startswith('rgb-core-'):
                        shutil.rmtree(os.path.join(fp, d))
        rec = os.path.join(tgt, 'record.%d.json' % os.getpid())
        e = env()
        e.update(RUSTC_WORKSPACE_WRAPPER=exe, LD_LIBRARY_PATH=sysroot() + '/lib', RGBFACTS_RECORD=rec,
                 RGBFACTS_CRATE=CRATE, CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL='0')
        cmd = ['cargo', 'check', '--offline', '--locked', '--lib', '--no-default-features', '-q', '--manifest-path',
               os.path.join(REPO, 'Cargo.toml')]
        if fs:
            cmd += ['--features', ','.join(fs)]
        rc, out = run(cmd, env=e, cwd=REPO)
        if not os.path.exists(rec):
            raise AnalysisError('the crate does not build with features %s: %s' % (','.join(fs), out[-3000:]))
        r = json.load(open(rec))
        os.unlink(rec)
        return r, rc, out
    finally:
        lock.close()


def command(rec, cfgs, debug, outdir):
    """The recorded compiler command changed for another configuration with the same dependencies."""
    a, i = rec['args'], 0
    args = []
    while i < len(a):
        x = a[i]
        if x == '--cfg' and a[i + 1].startswith('feature='):
            i += 2
            continue
        if x == '--out-dir':
            args += ['--out-dir', outdir]
            i += 2
            continue
        if x in ('-C', '--codegen') and a[i + 1].startswith(('incremental', 'debug-assertions', 'overflow-checks', 'opt-level')):
            i += 2
            continue
        if x.startswith(('-Cincremental', '--error-format', '--json', '--diagnostic-width')):
            i += 1
            continue
        args.append(x)
        i += 1
    for f in cfgs:
        args += ['--cfg', 'feature="%s"' % f]
    on = 'on' if debug else 'off'
    args += ['-C', 'debug-assertions=' + on, '-C', 'overflow-checks=' + on, '-Zmir-opt-level=0', '-Zalways-encode-mir=no', '-Zub-checks=no',
             '--cap-lints', 'allow']
    return args


def extract(rec, cfgs, debug):
    out = tempfile.mkdtemp(prefix='rgbfacts.')
    try:
        f = os.path.join(out, 'facts.json')
        e = env()
        e.update({k: v for k, v in rec['env'].items() if k not in ('CARGO_MAKEFLAGS',)})
        e.update(LD_LIBRARY_PATH=sysroot() + '/lib', RGBFACTS_OUT=f)
        e.pop('RUSTC_WORKSPACE_WRAPPER', None)
        rc, msg = run([driver()] + command(rec, cfgs, debug, out), env=e, cwd=rec['cwd'])
        if rc or not os.path.exists(f):
            raise AnalysisError('configuration %s: %s' % (name(cfgs, debug), msg[-3000:]))
        return canonical(open(f).read())
    finally:
        shutil.rmtree(out)


# the items of the public interface, under the modules the rules name them by: where the source keeps them does not matter
HOMES = {'OperationSeals': 'verify', 'ReadOperation': 'verify', 'ContractApi': 'verify', 'ContractVerify': 'verify',
         'VerificationError': 'verify', 'RgbSealDef': 'seals', 'RgbSeal': 'seals'}


def canonical(text):
    facts = json.loads(text)
    moved = []
    for x in facts['traits'] + facts['adts']:
        p = x['path'].split('::')
        home = HOMES.get(p[-1])
        if p[0] == CRATE and home and p[1:-1] != [home]:
            if any(y['path'] == '%s::%s::%s' % (CRATE, home, p[-1]) for y in facts['traits'] + facts['adts']):
                continue  # another item by that name
            moved.append(('::'.join(p[1:-1]), p[-1], home))
    if not moved:
        return facts
    for mod, nm, home in moved:
        if mod:
            text = re.sub(r'(?<![\w:])(%s(?:\[\w+\])?::|)%s::%s\b' % (CRATE, re.escape(mod), nm), r'\1%s::%s' % (home, nm), text)
        else:
            text = re.sub(r'(%s(?:\[\w+\])?::)%s\b' % (CRATE, nm), r'\1%s::%s' % (home, nm), text)
            text = re.sub(r'(?<![\w:"])%s\b(?=[<>,\]\)]|::)' % nm, '%s::%s' % (home, nm), text)
    return json.loads(text)


def name(cfgs, debug):
    return '+'.join(c for c in cfgs) + ('' if cfgs else 'none') + ('/debug' if debug else '/release')


def default_config():
    feats, _ = features()
    return tuple(sorted(f for f in closure(['default'], feats) if f in feats))


COMPILER_ERROR = r'^ *(configuration \S+: )?error(\[E\d+\])?: .*(\n *--> .*)?'


def collect(select=None):
    """Facts of all the selected configurations, {(cfgs, debug): facts}, and the configurations that do not build."""
    driver()
    cfgs, _ = configs()
    todo = [(c, d) for c in cfgs for d in (True, False) if select is None or select(c, d)]
    recs = {}
    for c, _ in todo:
        recs.setdefault(cfgs[c], c)

    def rec(dc):
        try:
            return record(dc[1], dc[0])[0]
        except AnalysisError as e:
            return e

    def ext(t):
        r = done[cfgs[t[0]]]
        if isinstance(r, AnalysisError):
            return r
        try:
            return extract(r, t[0], t[1])
        except AnalysisError as e:
            return e
    with ThreadPoolExecutor(8) as ex:
        done = dict(zip(recs, ex.map(rec, recs.items())))
        facts = dict(zip(todo, ex.map(ext, todo)))
    bad = [k for k, f in facts.items() if isinstance(f, AnalysisError)]
    d = default_config()
    for k in bad:
        if k[0] == d or len(bad) == len(todo) or not re.search(COMPILER_ERROR, str(facts[k]), re.M):
            raise facts[k]
    return {k: f for k, f in facts.items() if k not in bad}, {k: str(facts[k]) for k in bad}


if __name__ == '__main__':
    import time
    t = time.time()
    r, bad = collect()
    print(time.time() - t)
    for k, f in r.items():
        print(name(*k), len(f['roots']), len(f['bodies']), f['skipped'])
    json.dump(r[max(r, key=lambda k: (len(k[0]), k[1]))], open('/tmp/facts.json', 'w'))
