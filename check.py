#!/usr/bin/env python3
"""Build /repo's working tree and decide one property by generated-input search.

  check.py CNN                 run the check (VERIF_SEED, VERIF_TIER from the environment)
  check.py CNN --replay FILE   run one saved case again: exit 1 if it still fails
  check.py --setup             build everything once
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
JOBS = os.cpu_count() or 4
BUILD, REPLAYS, EVID = (os.path.join(VERIF, d) for d in ('build', 'replays', 'evidence'))
REL = ['-O2', '-DNDEBUG', '-fPIC', '-ffast-math', '-fno-finite-math-only', '-w']
SAN = ['-g1', '-O1', '-fPIC', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-w']
SANENV = {'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=1', 'UBSAN_OPTIONS': 'print_stacktrace=1'}
UNITS = ['engine', 'gen', 'models_a', 'models_b', 'models_c', 'props_values', 'props_api', 'props_meta', 'props_oom', 'props_rel', 'inject']


class Broken(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if r.returncode:
        raise Broken('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def python_yaml():
    for p in ('/opt/vp/venv/bin/python', 'python3-vt', sys.executable):
        try:
            if subprocess.run([p, '-c', 'import yaml'], stderr=subprocess.DEVNULL).returncode == 0:
                return p
        except OSError:
            pass
    raise Broken('no python with yaml')


def python_vt():
    for p in ('python3-vt', '/opt/veriftools/pyvenv/bin/python'):
        if shutil.which(p):
            return p
    raise Broken('no python3-vt')


def repo_files():
    """What the library is made of: everything but tests, documentation and ignored files."""
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', '_build', '__pycache__', 'node_modules', '.pytest_cache'))
        for f in sorted(files):
            p = os.path.join(root, f)
            rel = os.path.relpath(p, REPO)
            if rel in ('indicators.h', 'indicators_index.c') or f.endswith(('.so', '.pyc', '.o')) or os.path.islink(p):
                continue
            out.append(rel)
    return out


def tree_key():
    h = hashlib.sha256()
    for rel in repo_files():
        with open(os.path.join(REPO, rel), 'rb') as f:
            h.update(rel.encode() + b'\0' + hashlib.sha256(f.read()).digest())
    for p in sorted(glob.glob(VERIF + '/harness/*') + glob.glob(VERIF + '/harness/py/*.py') + glob.glob(VERIF + '/harness/c24/*')) + [os.path.abspath(__file__)]:
        if os.path.isfile(p):
            with open(p, 'rb') as f:
                h.update(p.encode() + hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]


class Build:
    """A private copy of the tree with what is compiled from it; each part is made once."""

    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = os.path.join(BUILD, tree_key())
        self.src = self.dir + '/src'
        os.makedirs(self.dir, exist_ok=True)
        os.utime(self.dir)
        olds = sorted((d for d in glob.glob(BUILD + '/*') if os.path.isdir(d) and d != self.dir), key=os.path.getmtime)
        for d in olds[:-5]:
            shutil.rmtree(d, ignore_errors=True)
        self.lock = open(self.dir + '/lock', 'w')
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        if not os.path.exists(self.dir + '/src.ok'):
            shutil.rmtree(self.src, ignore_errors=True)
            for rel in repo_files():
                os.makedirs(os.path.dirname(os.path.join(self.src, rel)), exist_ok=True)
                shutil.copyfile(os.path.join(REPO, rel), os.path.join(self.src, rel))
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', GIT_DIR='/nonexistent', GIT_CEILING_DIRECTORIES='/')
            run([python_yaml(), 'codegen.py'], cwd=self.src, env=env)
            for f in ('indicators.h', 'indicators_index.c'):
                if not os.path.getsize(os.path.join(self.src, f)):
                    raise Broken('codegen.py did not write ' + f)
            open(self.dir + '/src.ok', 'w').close()

    def done(self):
        fcntl.flock(self.lock, fcntl.LOCK_UN)

    def compile(self, tasks):
        with ThreadPoolExecutor(JOBS) as ex:
            for f in [ex.submit(run, t) for t in tasks]:
                f.result()

    def lib_sources(self):
        names = sorted(os.listdir(self.src + '/indicators')) + []
        src = ['indicators/' + n for n in names] + ['utils/' + n for n in sorted(os.listdir(self.src + '/utils'))] + ['indicators_index.c']
        return [s for s in src if s.endswith(('.c', '.cc', '.cpp', '.cxx'))]

    def lib_tasks(self, kind, flags):
        odir = self.dir + '/obj-' + kind
        shutil.rmtree(odir, ignore_errors=True)
        os.makedirs(odir)
        tasks, objs = [], []
        big = sorted(self.lib_sources(), key=lambda s: -os.path.getsize(os.path.join(self.src, s)))
        for s in big:
            o = odir + '/' + s.replace('/', '_') + '.o'
            cc = ['gcc', '-std=c99'] if s.endswith('.c') else ['g++', '-std=c++17']
            tasks.append(cc + flags + ['-c', os.path.join(self.src, s), '-o', o])
            objs.append(o)
        return tasks, objs

    def drv_tasks(self):
        odir = self.dir + '/obj-drv'
        os.makedirs(odir, exist_ok=True)
        return ([['g++', '-std=c++17', '-O2', '-g1', '-w', '-I', VERIF + '/harness', '-I', self.src, '-c', '%s/harness/%s.cc' % (VERIF, u), '-o', '%s/%s.o' % (odir, u)] for u in UNITS],
                ['%s/%s.o' % (odir, u) for u in UNITS])

    def need(self, kinds):
        """kinds of 'rel', 'san' (library and driver for it)"""
        todo = [k for k in kinds if not os.path.exists('%s/%s.ok' % (self.dir, k))]
        if not todo:
            return
        tasks, drvobjs = [], []
        dt, drvobjs = self.drv_tasks()
        if not all(os.path.exists(o) for o in drvobjs):
            tasks += dt
        libs = {}
        for k in todo:
            t, libs[k] = self.lib_tasks(k, REL if k == 'rel' else SAN)
            tasks += t
        self.compile(tasks)
        for k in todo:
            extra = ['-fsanitize=address,undefined'] if k == 'san' else []
            run(['g++', '-shared'] + extra + libs[k] + ['-o', '%s/lib%s.so' % (self.dir, k)])
            objs = [o for o in drvobjs if k == 'rel' or not o.endswith('/inject.o')]   # fault injection replaces malloc
            run(['g++', '-rdynamic'] + extra + objs + ['-ldl', '-lpthread', '-o', '%s/drv%s' % (self.dir, k)])
            shutil.rmtree(self.dir + '/obj-' + k, ignore_errors=True)
            open('%s/%s.ok' % (self.dir, k), 'w').close()

    def drv(self, kind):
        env = dict(os.environ, **(SANENV if kind == 'san' else {'MALLOC_PERTURB_': '165'}))
        env.pop('LD_PRELOAD', None)
        return '%s/drv%s' % (self.dir, kind), '%s/lib%s.so' % (self.dir, kind), env


# ---------------------------------------------------------------- known findings
def known(prop):
    out = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) where=(\S+) match=/(.*)/ -- (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def report(prop, violations):
    """violations: dicts with indicator, message, replay, brief. Prints; returns how many are new."""
    new, kn = 0, known(prop)
    for v in violations:
        hit = [k for k in kn if k[0] == v['indicator'] and k[1].search(v['message'])]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][2]))
            continue
        new += 1
        if new == 13:
            print('... and more')
        if new > 12:
            continue
        print('%s: %s\n   %s' % (v['indicator'], v['message'], v.get('brief', '')))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(v['replay'], VERIF)))
    sys.stdout.flush()
    return new


def evidence(prop, level, coverage, wall, violations, assumptions=()):
    os.makedirs(EVID, exist_ok=True)
    d = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': coverage, 'assumptions': list(assumptions),
         'wall_s': round(wall, 2), 'violations': violations}
    tmp = '%s/.%s.tmp' % (EVID, prop)
    with open(tmp, 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')
    os.replace(tmp, '%s/%s.json' % (EVID, prop))


# ---------------------------------------------------------------- driver properties
KIND = {'C01': 'san'}
ASSUME = ['market data finite (C01, C02 also NaN and infinity), options finite', 'the models and acceptance tables in /verif/harness state the intended definitions',
          'release library built with the flags of CMakeLists.txt by gcc on x86-64']


def driver(prop, t0):
    kind = KIND.get(prop, 'rel')
    b = Build()
    try:
        b.need([kind])
    finally:
        b.done()
    drv, lib, env = b.drv(kind)
    os.makedirs(REPLAYS, exist_ok=True)
    for f in glob.glob('%s/%s-*' % (REPLAYS, prop)):
        os.unlink(f)
    out = '%s/out-%s-%d.json' % (b.dir, prop, os.getpid())
    cmd = [drv, 'run', '--prop', prop, '--lib', lib, '--replays', REPLAYS, '--out', out, '--seed', str(SEED), '--tier', TIER,
           '--jobs', str(min(JOBS, 64)), '--deadline', '500' if TIER == 'quick' else '3000'] + (['--san'] if kind == 'san' else []) + sys.argv[2:]
    built = time.time() - t0
    r = subprocess.run(cmd, env=env, cwd=b.dir)
    if not os.path.exists(out):
        raise Broken('driver exited with %d' % r.returncode)
    d = json.load(open(out))
    os.unlink(out)
    if d['broken'] or r.returncode not in (0, 1):
        raise Broken('driver exited with %d' % r.returncode)
    viol = d['violations']
    for m in d['missing']:                            # an indicator the models know and the library does not have
        path = '%s/%s-%s.case' % (REPLAYS, prop, m)
        with open(path, 'w') as f:
            f.write('# lookup of %s finds nothing\nproperty C21\nindicator %s\nbars 0\naux%s\n' % (m, m, ''.join(' %d' % ord(c) for c in m)))
        if prop == 'C21':
            viol.append({'indicator': m, 'message': 'the indicator cannot be found', 'replay': path})
    cov = {k: d[k] for k in ('evaluations', 'nontrivial', 'distinct_nontrivial', 'discarded', 'values_decided', 'values_seen', 'indicators',
                             'cases_per_indicator', 'least_nontrivial_per_indicator', 'unreproduced', 'blocks_past_deadline', 'never_nontrivial', 'rule', 'samples')}
    cov['build_s'] = round(built, 2)
    new = report(prop, viol)
    evidence(prop, 'exploration', cov, time.time() - t0, new, ASSUME)
    print('%s %s: %d cases, %d distinct non-trivial, %d indicators, %.1f s (build %.1f s)' % (prop, TIER, d['evaluations'], d['distinct_nontrivial'], d['indicators'], time.time() - t0, built))
    if d['unreproduced'] and not new:
        print('note: %d failing case(s) could not be reproduced' % d['unreproduced'])
    return 1 if new else 0


# ---------------------------------------------------------------- properties decided by hypothesis
PY = {'C22': ('c22', 250, 2500, True, 'per indicator: options around their domain, 0 to start+14 bars, inputs as lists, tuples, float, int, float32, strided, reversed or read-only arrays, arguments positional and by keyword; look-ups of near-miss names; non-trivial: at least two finite values compared with the C function, or an error both report, or a look-up')}
PY['C23'] = ('c23', 20, 400, False, '1 to 9 index entries with every type, 1-5 inputs, 0-10 options, 1-10 outputs, names that are prefixes of one another, with or without reference and stream, implemented, half implemented or new; non-trivial: at least two entries')
PYENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', GIT_DIR='/nonexistent')


def py_args(prop):
    b = Build()
    try:
        if PY[prop][3]:
            b.need(['rel'])
            d = b.dir + '/py/tindicators'
            if not os.path.exists(d + '/libindicators.so'):
                shutil.rmtree(b.dir + '/py', ignore_errors=True)
                shutil.copytree(b.src + '/bindings/python/tindicators', d)
                shutil.copyfile(b.dir + '/librel.so', d + '/libindicators.so')
    finally:
        b.done()
    return b, [python_vt(), '%s/harness/py/%s.py' % (VERIF, PY[prop][0])], ['--build', b.dir, '--src', b.src]


def py_replay(prop, path):
    b, exe, args = py_args(prop)
    r = subprocess.run(exe + ['replay', os.path.abspath(path)] + args, env=PYENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
    sys.stdout.write(r.stdout)
    if r.returncode < 0:
        print('the process died of signal %d' % -r.returncode)
        return 1
    if r.returncode not in (0, 1) or (r.returncode == 1 and not r.stdout):
        raise Broken(r.stderr[-3000:])
    return r.returncode


def py_driver(prop, t0):
    b, exe, args = py_args(prop)
    built = time.time() - t0
    mod, quick, thorough, _, rule = PY[prop]
    os.makedirs(REPLAYS, exist_ok=True)
    for f in glob.glob('%s/%s-*' % (REPLAYS, prop)):
        os.unlink(f)
    n, procs = JOBS, []
    for i in range(n):
        out = '%s/out-%s-%d-%d.json' % (b.dir, prop, os.getpid(), i)
        cmd = exe + ['worker'] + args + ['--seed', str(SEED), '--part', '%d/%d' % (i, n), '--examples', str(thorough if TIER == 'thorough' else quick),
                                         '--seconds', '3000' if TIER == 'thorough' else '400', '--out', out, '--replays', REPLAYS] + sys.argv[2:]
        procs.append((out, subprocess.Popen(cmd, env=PYENV, stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'), cwd=b.dir)))
    tot = {'evaluations': 0, 'nontrivial': 0, 'distinct_nontrivial': 0, 'samples': [], 'per': {}, 'groups_past_deadline': 0}
    viol, broken = [], ''
    for out, p in procs:
        rc = p.wait()
        if os.path.exists(out):
            d = json.load(open(out))
            tot['evaluations'] += d['evaluations']; tot['nontrivial'] += d['nontrivial']; tot['distinct_nontrivial'] += d['distinct']
            tot['samples'] += d['samples'][:1]; tot['per'].update(d['per']); tot['groups_past_deadline'] += d['cut']
            viol += d['violations']
        if rc:
            case = out + '.case'
            err = open(out + '.err').read()[-3000:]
            path = ''
            if os.path.exists(case):
                try:
                    d = json.load(open(case))
                    path = '%s/%s-%s.json' % (REPLAYS, prop, d['where'])
                    shutil.copyfile(case, path)
                    r = subprocess.run(exe + ['replay', path] + args, env=PYENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
                    if r.returncode < 0:
                        viol.append({'indicator': d['where'], 'message': 'the process dies of signal %d' % -r.returncode, 'replay': path, 'brief': json.dumps(d)[:300]})
                        continue
                except (ValueError, subprocess.TimeoutExpired):
                    pass
            broken = 'worker exited with %d: %s' % (rc, err)
        for f in glob.glob(out + '*'):
            os.unlink(f)
    viol.sort(key=lambda v: v['indicator'])
    if broken and not viol:
        raise Broken(broken)
    per = tot.pop('per')
    cov = dict(tot, groups=len(per), least_nontrivial_per_group=min([v[0] for v in per.values()] or [0]), never_nontrivial=sorted(k for k, v in per.items() if not v[0]), rule=rule, build_s=round(built, 2))
    new = report(prop, viol)
    evidence(prop, 'exploration', cov, time.time() - t0, new, ASSUME + ['CPython 3.12, numpy 2, ctypes'])
    print('%s %s: %d cases, %d distinct non-trivial, %d groups, %.1f s (build %.1f s)' % (prop, TIER, tot['evaluations'], tot['distinct_nontrivial'], len(per), time.time() - t0, built))
    return 1 if new else 0


# ---------------------------------------------------------------- C24: containers, one program per family
FAMILIES = {'ring': ('fixed', 'heap', 'several'), 'buffer': ('sum', 'quick'), 'local': ('three', 'one'), 'order': ('order',)}
FAMRULE = 'operation sequences on one container against a list; non-trivial: more values stored than the container holds (and, for ring buffers, an extremum asked for; for the ordering, three values or more)'


def families():
    """Programs for the families that compile. One whose interface is no longer there is not judged."""
    b = Build()
    skipped = []
    try:
        def make(f):
            exe = '%s/c24-%s' % (b.dir, f)
            if os.path.exists(exe) or os.path.exists(exe + '.not'):
                return
            src = [VERIF + '/harness/c24/%s.cc' % f] + (['-x', 'c++', b.src + '/utils/buffer.c'] if f == 'buffer' else [])
            try:
                run(['g++', '-std=c++17', '-I', b.src] + SAN + src + ['-o', exe])
            except Broken as e:
                with open(exe + '.not', 'w') as o:
                    o.write(str(e))
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(make, FAMILIES))
        for f in FAMILIES:
            if not os.path.exists('%s/c24-%s' % (b.dir, f)):
                skipped.append(f)
    finally:
        b.done()
    return b, skipped


def container_driver(prop, t0):
    b, skipped = families()
    built = time.time() - t0
    os.makedirs(REPLAYS, exist_ok=True)
    for f in glob.glob('%s/%s-*' % (REPLAYS, prop)):
        os.unlink(f)
    tot = {'evaluations': 0, 'nontrivial': 0, 'distinct_nontrivial': 0, 'samples': [], 'families': len(FAMILIES) - len(skipped), 'not_judged': skipped}
    viol = []
    jobs = []
    for f in FAMILIES:
        for i in range(2):
            if f not in skipped:
                out = '%s/out-%s-%s-%d-%d.json' % (b.dir, prop, f, i, os.getpid())
                n = {'ring': 40000}.get(f, 20000) * (60 if TIER == 'thorough' else 1)
                jobs.append((out, subprocess.Popen(['%s/c24-%s' % (b.dir, f), str(SEED * 2 + i), str(n), out, '%s/%s-%d-' % (REPLAYS, prop, i)], env=dict(os.environ, **SANENV), cwd=b.dir)))
    for out, p in jobs:
        if p.wait() or not os.path.exists(out):
            raise Broken('%s exited with %d' % (out, p.returncode))
        d = json.load(open(out))
        os.unlink(out)
        tot['evaluations'] += d['evaluations']; tot['nontrivial'] += d['nontrivial']; tot['distinct_nontrivial'] += d['distinct']; tot['samples'] += d['samples'][:1]
        viol += [v for v in d['violations'] if v['indicator'] not in [w['indicator'] for w in viol]]
    new = report(prop, viol)
    evidence(prop, 'exploration', dict(tot, rule=FAMRULE, build_s=round(built, 2)), time.time() - t0, new, ['the containers keep their present interface; a family whose program no longer compiles is not judged', 'g++ 13 with AddressSanitizer, UndefinedBehaviorSanitizer and assertions'])
    print('%s %s: %d cases, %d distinct non-trivial, %d families%s, %.1f s (build %.1f s)' % (prop, TIER, tot['evaluations'], tot['distinct_nontrivial'], tot['families'], ' (not judged: %s)' % ' '.join(skipped) if skipped else '', time.time() - t0, built))
    return 1 if new else 0


def replay(prop, path):
    if prop == 'C24':
        b, skipped = families()
        kind = open(path).readline().split()[0]
        f = next(f for f in FAMILIES if kind in FAMILIES[f])
        return 0 if f in skipped else subprocess.run(['%s/c24-%s' % (b.dir, f), 'replay', os.path.abspath(path)], env=dict(os.environ, **SANENV)).returncode
    if prop in PY:
        return py_replay(prop, path)
    kind = KIND.get(prop, 'rel')
    b = Build()
    try:
        b.need([kind])
    finally:
        b.done()
    drv, lib, env = b.drv(kind)
    return subprocess.run([drv, 'replay', '--file', os.path.abspath(path), '--lib', lib] + (['--san'] if kind == 'san' else []), env=env).returncode


def main():
    t0 = time.time()
    try:
        if sys.argv[1:] == ['--setup']:
            b = Build()
            try:
                b.need(['rel', 'san'])
            finally:
                b.done()
            families()
            print('built in %.1f s' % (time.time() - t0))
            return 0
        prop = sys.argv[1]
        if sys.argv[2:3] == ['--replay']:
            return replay(prop, sys.argv[3])
        return container_driver(prop, t0) if prop == 'C24' else py_driver(prop, t0) if prop in PY else driver(prop, t0)
    except Broken as e:
        print('check broken: %s' % e, file=sys.stderr)
        return 2


if __name__ == '__main__':
    sys.exit(main())
