#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

  check.py ID [quick|thorough]      decide the property, rewrite evidence/ID.json
  check.py --replay FILE            run one recorded case again
  check.py --setup                  tool sanity check (a check builds everything it needs itself)

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: the check could not be run.
"""
import hashlib, json, os, queue, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
IMPL = REPO + '/capi/src/implementation'
CODE = IMPL + '/visibility_graphs/code'
LIBS = REPO + '/capi/cpp_libs'
NPROC = 8
PYPY = '/opt/capi/pypy/bin/python'

INC = ['-I' + CODE, '-I' + LIBS + '/fmt/include', '-I' + LIBS + '/indicators/include', '-I' + LIBS + '/mio']
BASE = ['-std=c++17', '-w', '-pthread']
VARIANTS = {
    # name: (compiler, flags)
    'plain': (['g++'], ['-O2', '-fopenmp', '-D_GLIBCXX_ASSERTIONS']),
    'asan': (['g++'], ['-O1', '-g', '-fopenmp', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined', '-fno-sanitize=signed-integer-overflow', '-fno-sanitize-recover=all']),
    # instrumented memory accesses call our own runtime, see src/sched
    'sched': (['g++'], ['-O1', '-fopenmp', '-fsanitize=thread', '-fno-builtin-memcpy']),
}
from checks import CHECKS  # noqa: E402  (bin/checks.py)


def log(*a):
    print(*a, flush=True)


def sources(root, exts):
    out = []
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if os.path.splitext(f)[1] in exts:
                out.append(os.path.join(d, f))
    return out


def digest(paths, *extra):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:16]


def digest_contents(paths, root):
    h = hashlib.sha256()
    for p in paths:
        h.update(os.path.relpath(p, root).encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]


def prune(prefix, keep):
    """Keep the cache small: at most three builds per variant."""
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(prefix) and d != keep]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-2]:
        shutil.rmtree(d, ignore_errors=True)


def compile_kept(cache, src, obj, cmd, hkey):
    """Compiles one file; objects are kept by the contents they depend on. None or the failed compiler run."""
    d = os.path.join(BUILD, cache)
    os.makedirs(d, exist_ok=True)
    kept = '%s/%s.o' % (d, digest_contents([src], os.path.dirname(src)) + digest([], hkey, [re.sub('/py-[0-9a-f]*.tmp[0-9]*/', '/py/', a) for a in cmd]))
    try:
        shutil.copyfile(kept, obj)
        os.utime(kept)
        return None
    except OSError:
        pass
    r = subprocess.run(cmd + ['-c', src, '-o', obj], capture_output=True, text=True)
    if r.returncode:
        return r
    shutil.copyfile(obj, kept + '.tmp%d' % os.getpid())
    os.replace(kept + '.tmp%d' % os.getpid(), kept)
    return None


def tidy(cache):
    try:
        for e in sorted(os.scandir(os.path.join(BUILD, cache)), key=lambda e: -e.stat().st_mtime)[150:]:
            os.unlink(e.path)
    except OSError:
        pass  # another check is tidying up


def build_lib(variant):
    cc, flags = VARIANTS[variant]
    srcs = sources(CODE, {'.cpp', '.cc'}) + sources(LIBS + '/fmt', {'.cc'})
    heads = sources(CODE, {'.hpp', '.h', '.tpp'}) + sources(LIBS, {'.h', '.hpp', '.ipp'})
    key = digest(srcs + heads, cc, flags, BASE)
    name = 'lib-%s-%s' % (variant, key)
    d = os.path.join(BUILD, name)
    lib = d + '/lib.a'
    if os.path.exists(lib):
        os.utime(d)
        return lib
    tmp = d + '.tmp%d' % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)

    hkey = digest(heads)

    def comp(i_s):
        i, s = i_s
        o = '%s/%d.o' % (tmp, i)
        return o, compile_kept('obj-' + variant, s, o, cc + BASE + flags + INC, hkey)
    # largest first
    order = sorted(enumerate(srcs), key=lambda x: -os.path.getsize(x[1]))
    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(comp, order))
    tidy('obj-' + variant)
    bad = [r for _, r in res if r and r.returncode]
    if bad:
        sys.stderr.write(bad[0].stderr[-3000:])
        shutil.rmtree(tmp, ignore_errors=True)
        raise SystemExit('cannot compile /repo')
    subprocess.run(['ar', 'rcs', tmp + '/lib.a'] + [o for o, _ in res], check=True)
    for o, _ in res:
        os.unlink(o)
    shutil.rmtree(d, ignore_errors=True)
    os.rename(tmp, d)
    prune('lib-%s-' % variant, name)
    return lib


def build_harness(c):
    variant = c.get('variant', 'plain')
    cc, flags = VARIANTS[variant]
    flags = flags + c.get('flags', [])
    with ThreadPoolExecutor(1) as ex:
        src = os.path.join(VERIF, 'src', c['src'] + '.cpp')
        allsrc = sources(os.path.join(VERIF, 'src'), {'.cpp', '.hpp', '.h'})
        heads = sources(CODE, {'.hpp', '.h', '.tpp'}) + sources(LIBS, {'.h', '.hpp', '.ipp'})
        hkey = digest(allsrc + heads, cc, flags, BASE, c.get('extra'))
        hname = 'har-%s-%s-%s' % (c['src'], variant, hkey)
        hd = os.path.join(BUILD, hname)
        objs = [os.path.join(hd, c['src'] + '.o')] + [os.path.join(hd, e + '.o') for e in c.get('extra', [])]

        def comp():
            if all(os.path.exists(o) for o in objs):
                os.utime(hd)
                return None
            tmp = hd + '.tmp%d' % os.getpid()
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            hflags = [f for f in flags if not (variant == 'sched' and f.startswith('-fsanitize'))]
            for s, o in [(src, c['src'] + '.o')] + [(os.path.join(VERIF, 'src', e + '.cpp'), e + '.o') for e in c.get('extra', [])]:
                os.makedirs(os.path.dirname(os.path.join(tmp, o)), exist_ok=True)
                r = subprocess.run(cc + BASE + hflags + INC + ['-I' + os.path.join(VERIF, 'src'), '-c', s, '-o', os.path.join(tmp, o)],
                                   capture_output=True, text=True)
                if r.returncode:
                    return r.stderr[-3000:] or 'the compiler was ended'
            shutil.rmtree(hd, ignore_errors=True)
            os.rename(tmp, hd)
            prune('har-%s-%s-' % (c['src'], variant), hname)
            return None
        fut = ex.submit(comp)
        lib = build_lib(variant)
        err = fut.result()
    if err:
        sys.stderr.write(err)
        raise SystemExit('cannot compile the harness against /repo')
    exe = os.path.join(hd, c['src'].replace('/', '_') + '-' + os.path.basename(os.path.dirname(lib))[-16:])
    if not os.path.exists(exe):
        t = exe + '.tmp%d' % os.getpid()
        lflags = [f for f in flags if not (variant == 'sched' and f.startswith('-f'))]
        ld = subprocess.run(cc + lflags + ['-pthread'] + objs + [lib] + ['-o', t] + c.get('ld', []) + ['-Wl,--copy-dt-needed-entries', '-ls2', '-labsl_base', '-lpthread', '-ldl'],
                            capture_output=True, text=True)
        if ld.returncode:
            sys.stderr.write(ld.stderr[-3000:])
            raise SystemExit('cannot link the harness')
        os.rename(t, exe)
    return [exe]


def build_python(c):
    """Scratch copy of the repository's Python tree with the extension module built in it."""
    srcs = sources(IMPL, {'.cpp', '.cc', '.hpp', '.h', '.py', '.tpp'}) + sources(LIBS, {'.h', '.hpp', '.cc', '.ipp'}) + \
        sources(os.path.join(REPO, 'capi', 'src'), {'.py'})
    key = digest(srcs, 'py1')
    name = 'py-' + key
    d = os.path.join(BUILD, name)
    if not os.path.exists(d + '/ok'):
        tmp = d + '.tmp%d' % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(REPO, tmp, ignore=shutil.ignore_patterns('.git', 'build', '*.so', 'node_modules', 'capi/test', '__pycache__'), symlinks=True)
        lib = build_pylib(tmp)
        if lib:
            sys.stderr.write(lib)
            shutil.rmtree(tmp, ignore_errors=True)
            raise SystemExit('cannot build the Python module')
        open(tmp + '/ok', 'w').close()
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
        prune('py-', name)
    os.utime(d)
    return d


def build_pylib(tree):
    code = tree + '/capi/src/implementation/visibility_graphs/code'
    libs = tree + '/capi/cpp_libs'
    inc = ['-I' + code, '-I' + libs + '/fmt/include', '-I' + libs + '/indicators/include', '-I' + libs + '/mio']
    q = subprocess.run([PYPY, '-c', 'import pybind11,sysconfig;print(pybind11.get_include());print(sysconfig.get_paths()["include"]);'
                        'print(sysconfig.get_config_var("EXT_SUFFIX"))'], capture_output=True, text=True)
    if q.returncode:
        return q.stderr
    pinc, pyinc, ext = q.stdout.split()
    inc += ['-I' + pinc, '-I' + pyinc, '-I' + tree + '/capi/src/implementation/visibility_graphs']
    srcs = sources(code, {'.cpp', '.cc'}) + sources(libs + '/fmt', {'.cc'}) + [tree + '/capi/src/implementation/visibility_graphs/bindings.cpp']
    objd = tree + '/.obj'
    os.makedirs(objd)
    hkey = digest_contents(sources(code, {'.hpp', '.h', '.tpp'}) + sources(libs, {'.h', '.hpp', '.ipp'}), tree)

    def comp(i_s):
        i, s = i_s
        extra = ['-include', '/opt/capi/include/pypy_compat.h'] if s.endswith('bindings.cpp') else []
        cmd = ['g++', '-std=c++17', '-w', '-O1', '-fPIC', '-fopenmp', '-fvisibility=hidden', '-D_GLIBCXX_ASSERTIONS'] + extra + inc
        return compile_kept('obj-py', s, '%s/%d.o' % (objd, i), cmd, hkey)
    order = sorted(enumerate(srcs), key=lambda x: (not x[1].endswith('bindings.cpp'), -os.path.getsize(x[1])))
    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(comp, order))
    tidy('obj-py')
    for r in res:
        if r:
            return r.stderr[-3000:]
    r = subprocess.run(['g++', '-shared', '-fopenmp'] + ['%s/%d.o' % (objd, i) for i in range(len(srcs))] +
                       ['-o', tree + '/capi/src/implementation/visibility_graphs/_vis_graph' + ext, '-ls2', '-labsl_base', '-lpthread'],
                       capture_output=True, text=True)
    shutil.rmtree(objd, ignore_errors=True)
    return r.stderr if r.returncode else None


# ---------------------------------------------------------------------------------------------------------------------
def env_for(c):
    e = dict(os.environ)
    e['OMP_NUM_THREADS'] = str(c.get('omp', 1))
    e['OMP_WAIT_POLICY'] = 'passive'  # threads that wait do not spin
    e['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=512:abort_on_error=0:exitcode=77'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0'
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONHASHSEED'] = '0'
    e.pop('VERIF_REPO', None)
    return e


class Runner:
    def __init__(self, pid, tier, argv0):
        self.pid, self.tier, self.c = pid, tier, CHECKS[pid]
        self.argv0 = argv0
        self.work = os.path.join(BUILD, 'work-%s-%d' % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.shm = tempfile.mkdtemp(prefix='verif-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else self.work)
        self.procs, self.end = self.c.get('procs', NPROC), None
        self.slots = queue.Queue()
        for k in range(self.procs):
            self.slots.put(k)
        self.deadline = self.c.get('deadline', {}).get(tier, 420 if tier == 'quick' else 3000)

    def exec(self, tag, args, limit, slot=0):
        w = os.path.join(self.work, tag)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        out, mark = os.path.join(w, 'out.json'), os.path.join(w, 'mark')
        cmd = self.argv0 + ['--prop', self.pid, '--tier', self.tier, '--out', out, '--mark', mark, '--work', w,
                            '--seed', os.environ.get('VERIF_SEED', '1')] + args
        with open(os.path.join(w, 'err'), 'wb') as ef:
            p = subprocess.Popen(cmd, stdout=ef, stderr=ef, env=dict(env_for(self.c), VERIF_SHM=self.shm, VERIF_SLOT=str(slot)), cwd=w, start_new_session=True)
            try:
                rc = p.wait(limit)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 98
        with open(os.path.join(w, 'err'), 'rb') as f:
            err = f.read()[-4000:].decode('utf8', 'replace')
        res = None
        if rc == 0 and os.path.exists(out):
            with open(out) as f:
                res = json.load(f)
            if os.path.exists(out + '.h'):
                with open(out + '.h', 'rb') as f:
                    b = f.read()
                res['distinct'] = set(struct.unpack('<%dQ' % (len(b) // 8), b))
        cur = None
        if os.path.exists(mark) and os.path.getsize(mark) >= 8:
            with open(mark, 'rb') as f:
                cur = struct.unpack('<Q', f.read(8))[0]
        return rc, res, cur, err

    def shard(self, i, n):
        """Runs one shard; a crash or hang becomes a failure of the case it happened in and the shard goes on after it."""
        slot = self.slots.get()
        try:
            return self.shard_in(i, n, slot)
        finally:
            self.slots.put(slot)

    def shard_in(self, i, n, slot):
        parts, fails, start, died = [], [], 0, 0
        t0 = time.time()
        # a fair share of the time that is left
        share = max(10, (self.end - t0) * min(1, self.procs / max(1, n - i))) if self.end else self.deadline
        while True:
            left = share - (time.time() - t0)
            args = ['--shard', str(i), '--nshards', str(n), '--deadline', str(max(5, left)), '--from', str(start)]
            rc, res, cur, err = self.exec('s%d' % i, args, self.deadline + self.c.get('grace', 240), slot)
            if res is not None:
                parts.append(res)
                break
            if rc == 3 or cur is None:
                raise SystemExit('harness of %s could not run (exit %s): %s' % (self.pid, rc, err[-800:]))
            what = 'hang' if rc in (97, 98) else 'crash'
            m = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|Assertion[^\n]*|terminate called[^\n]*\n?[^\n]*)', err)
            fails.append({'idx': cur, 'key': what, 'msg': '%s (exit %s) %s' % (what, rc, (m.group(1) if m else err[-200:]).replace('\n', ' '))})
            died += 1
            if died >= (3 if what == 'hang' else 6):
                break
            start = cur + 1
        return parts, fails

    def clean(self):
        shutil.rmtree(self.work, ignore_errors=True)
        shutil.rmtree(self.shm, ignore_errors=True)

    def one(self, idx, seconds=120):
        """One case on its own, with a generous time limit."""
        rc, res, cur, err = self.exec('o%d' % idx, ['--only', str(idx), '--case-seconds', str(seconds)], seconds * 2 + 60)
        return rc, res, err


def known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return {k['key']: k for k in json.load(f)['findings'] if k['property'] == pid and k['status'] == 'known'}


def prepare(c):
    os.makedirs(BUILD, exist_ok=True)
    if c.get('kind') == 'py':
        tree = build_python(c)
        args = [PYPY, os.path.join(VERIF, 'py', c['src'] + '.py'), '--tree', tree]
        if c.get('engine'):
            args += ['--engine', build_harness({'src': c['engine']})[0]]
        return args
    return build_harness(c)


def run(pid, tier):
    c = CHECKS[pid]
    t0 = time.time()
    argv0 = prepare(c)
    tb = time.time() - t0
    r = Runner(pid, tier, argv0)
    n = c.get('shards', 16)
    try:
        r.end = time.time() + r.deadline
        with ThreadPoolExecutor(r.procs) as ex:
            results = list(ex.map(lambda i: r.shard(i, n), range(n)))
        parts = [p for ps, _ in results for p in ps]
        fails = [f for _, fs in results for f in fs] + [f for p in parts for f in p['fails']]
        ks = known(pid)
        count = {}
        for p in parts:
            for k, v in p['failcount'].items():
                count[k] = count.get(k, 0) + v
        new = sorted((f for f in fails if f['key'] not in ks), key=lambda f: f['idx'])
        seen_known = {f['key'] for f in fails if f['key'] in ks}
        for k in sorted(ks):
            if k in seen_known:
                log('KNOWN-FINDING: property=%s %s (%d times in this run)' % (pid, ks[k]['description'], count.get(k, 1)))
            elif tier == 'quick' or not any(p['capped'] for p in parts):
                log('note: listed finding %s did not occur in this run' % k)
        confirmed, unconfirmed = [], []
        tried = set()
        for f in new:
            if f['idx'] in tried or len(tried) >= 4 or confirmed:
                continue
            tried.add(f['idx'])
            rc, res, err = r.one(f['idx'])
            again = [g for g in res['fails'] if g['key'] not in ks] if res else None
            if res is None and rc == 3:
                raise SystemExit('harness of %s could not replay case %d: %s' % (pid, f['idx'], err[-500:]))
            if res is None:
                confirmed.append((f, f['msg'] if f['key'] in ('crash', 'hang') else 'exit %s' % rc))
            elif again:
                confirmed.append((f, again[0]['msg']))
            else:
                unconfirmed.append(f)
        if new and not confirmed:
            # not reproducible alone: the state left by earlier cases matters, or memory is misused; believe a second full run of the shard
            f = unconfirmed[0]
            for i, (ps, fs) in enumerate(results):
                if any(f in p['fails'] for p in ps) or f in fs:
                    r.end, r.deadline = None, min(r.deadline, 240)
                    ps2, fs2 = r.shard(i, n)
                    again = [g for p in ps2 for g in p['fails'] if g['key'] not in ks] + fs2
                    if again:
                        confirmed.append((again[0], again[0]['msg'] + ' (only in sequence with the cases before it)'))
                    else:
                        log('note: %s could not be reproduced: %s' % (pid, f['msg'][:300]))
                    break
        ev = evidence(pid, tier, c, parts, confirmed, new, tb, time.time() - t0)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', pid + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(path + '.tmp', path)
        cov = ev['coverage']
        log('%s %s: %s in %.0f s (build %.0f s)%s' % (
            pid, tier, ', '.join('%s %s' % (k, cov[k]) for k in ('evaluations', 'distinct_nontrivial', 'states', 'transitions') if k in cov),
            ev['wall_s'], tb, '' if not any(p['capped'] for p in parts) else ' (bounded space not finished)'))
        if confirmed:
            rp = os.path.join(VERIF, 'build', 'replay')
            os.makedirs(rp, exist_ok=True)
            rp = os.path.join(rp, '%s-%d.json' % (pid, confirmed[0][0]['idx']))
            with open(rp, 'w') as f:
                json.dump({'property': pid, 'tier': tier, 'case': confirmed[0][0]['idx'], 'message': confirmed[0][1],
                           'all': [g['msg'] for g in new[:50]]}, f, indent=1)
            log('  ' + confirmed[0][1][:1500])
            log('VIOLATION property=%s replay=%s' % (pid, rp))
            return 1
        return 0
    finally:
        r.clean()


def evidence(pid, tier, c, parts, confirmed, new, tb, wall):
    stats, distinct, outcomes, samples = {}, set(), set(), []
    for p in parts:
        for k, v in p['stats'].items():
            stats[k] = max(stats.get(k, 0), v) if k.startswith('max_') else stats.get(k, 0) + v
        distinct |= p.get('distinct', set())
        outcomes |= set(p['outcomes'])
        samples += p['samples'][:1]
    evals = sum(p['evaluations'] for p in parts)
    capped = any(p['capped'] for p in parts)
    rule = parts[0]['rule'] if parts else ''
    cov = {'evaluations': evals, 'distinct_nontrivial': len(distinct), 'rule': rule, 'samples': samples[:4],
           'exhaustive': bool(parts) and not capped and not confirmed, 'counters': stats}
    if outcomes:
        cov['distinct_outcomes'] = len(outcomes)
    if c['level'] == 'model_checking':
        for k in ('states', 'transitions', 'traces_validated_against_impl'):
            cov[k] = stats.get(k, 0)
    return {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': c['level'], 'coverage': cov,
            'assumptions': c.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(new) if confirmed else 0}


def replay(path):
    with open(path) as f:
        d = json.load(f)
    c = CHECKS[d['property']]
    r = Runner(d['property'], d['tier'], prepare(c))
    try:
        rc, res, err = r.one(d['case'])
        if res is None:
            log('case %d: exit %s\n%s' % (d['case'], rc, err))
            return 1
        for s in res['samples']:
            log('case:', s)
        for g in res['fails']:
            log('fails:', g['msg'])
        return 1 if res['fails'] else 0
    finally:
        r.clean()


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == '--setup':
        for t in ('g++', 'ar', PYPY):
            if not (shutil.which(t) or os.path.exists(t)):
                log('missing tool', t)
                return 2
        os.makedirs(BUILD, exist_ok=True)
        log('ready: %d checks' % len(CHECKS))
        return 0
    if a[0] == '--replay':
        return replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return run(a[0], tier)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit as e:
        if isinstance(e.code, str):
            log('check error:', e.code)
            sys.exit(2)
        raise
