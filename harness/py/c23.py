"""C23: what codegen.py and docsgen.py generate says what the index says.

A random index (and a random state of the implementation directory) is generated in a scratch directory; the generated header
and table are compiled with stub implementations and the compiled table is read back and compared with the index."""
import glob, hashlib, os, re, shutil, subprocess, sys, tempfile
import yaml
from hypothesis import strategies as st
import pbt
from pbt import Bad

TYPES = ['overlay', 'indicator', 'math', 'simple', 'comparative']
RESERVED = re.compile(r'^(stream|indicator|indicators|indicator_count|find_indicator|indicator_info|version|build|real|indicator_.*|stream_.*)$')
SUFFIX = re.compile(r'_(start|ref|stream|stream_new|stream_run|stream_free)$')


class Ctx:
    pass


def setup(a):
    c = Ctx()
    c.src, c.python = a.src, sys.executable
    c.root = tempfile.mkdtemp(prefix='c23-', dir=a.build)
    import atexit
    atexit.register(shutil.rmtree, c.root, True)
    os.mkdir(c.root + '/bin')
    with open(c.root + '/bin/git', 'w') as f:           # stand-in: moves files, records nothing
        f.write('#!/bin/sh\nif [ "$1" = mv ]; then mv "$2" "$3"; fi\nexit 0\n')
    os.chmod(c.root + '/bin/git', 0o755)
    c.env = dict(os.environ, PATH=c.root + '/bin:' + os.environ['PATH'], PYTHONDONTWRITEBYTECODE='1')
    return c


def groups(ctx):
    return ['index%02d' % i for i in range(16)]


name = st.one_of(st.text('abcdefghmnorstuxyz', min_size=1, max_size=4), st.builds(lambda a, b: a + b, st.sampled_from(['a', 'ab', 'sma', 'x', 'on', 'no', 'y', 'int', 'for']), st.text('abcx_0129', max_size=3)),
    st.builds(lambda s, k, e: s[:k] + e, st.sampled_from(['averagedirectionalmovementratingofvolume', 'sma_x_weighted_by_volume_and_turnover_z']), st.integers(1, 40), st.text('ax0_', max_size=2)))
name = name.filter(lambda s: not RESERVED.match(s) and not SUFFIX.search(s))
label = st.text('abcdefghijklmnopqrstuvwxyz_', min_size=1, max_size=8)
full = st.text(' !#$&()*+,-./0123456789:;<=>@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_abcdefghijklmnopqrstuvwxyz{|}~\'', min_size=1, max_size=30).filter(lambda s: s.strip() == s)


def strategy(ctx, group):
    entry = st.fixed_dictionaries({
        'name': name, 'full': full, 'type': st.sampled_from(TYPES),
        'inputs': st.one_of(st.just(['series']), st.lists(st.sampled_from(['open', 'high', 'low', 'close', 'volume']), min_size=1, max_size=5, unique=True)),
        'options': st.lists(label, max_size=10, unique=True), 'outputs': st.lists(label, min_size=1, max_size=10, unique=True),
        'features': st.lists(st.sampled_from(['ref', 'stream']), unique=True, max_size=2), 'source': full,
        'heads': st.lists(st.sampled_from(['"../utils/log.h"', '"../utils/minmax.h"', '<new>', '<math.h>']), unique=True, max_size=3),
        'have': st.sampled_from(['cc', 'cc', 'c', 'no', 'cc-', 'c-'])})
    return st.lists(entry, min_size=1, max_size=9, unique_by=lambda e: e['name']).map(lambda es: {'index': es})


def declared(e):
    n = e['name']
    r = ['ti_%s_start' % n, 'ti_%s' % n]
    if 'ref' in e['features']: r.append('ti_%s_ref' % n)
    if 'stream' in e['features']: r += ['ti_%s_stream_new' % n, 'ti_%s_stream_run' % n, 'ti_%s_stream_free' % n]
    return r


def implementation(e, feats):
    n = e['name']; s = '/* %s, by hand */\n#include "../indicators.h"\n%s\nint ti_%s_start(TI_REAL const *options) { return 0; }\nint ti_%s(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) { return TI_OKAY; }\n' % (e['full'].replace('*/', ''), ''.join('#include %s\n' % h for h in e.get('heads', [])), n, n)
    if 'ref' in feats: s += 'int ti_%s_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) { return TI_OKAY; }\n' % n
    if 'stream' in feats: s += 'int ti_%s_stream_new(TI_REAL const *options, ti_stream **stream) { return 0; }\nint ti_%s_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) { return 0; }\nvoid ti_%s_stream_free(ti_stream *stream) {}\n' % (n, n, n)
    return s


SIG = {'_start': ('int', 'const double*'), '': ('int', 'int, const double* const*, const double*, double* const*'), '_ref': ('int', 'int, const double* const*, const double*, double* const*'),
       '_stream_new': ('int', 'const double*, ti_stream**'), '_stream_run': ('int', 'ti_stream*, int, const double* const*, double* const*'), '_stream_free': ('void', 'ti_stream*')}


def q(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def program(es, names, misses):
    o = ['#include <cstdio>', '#include "indicators.h"', 'extern "C" {']
    for e in es:
        for f in declared(e):
            ret, args = SIG[f[len('ti_' + e['name']):]]
            o.append('%s %s(%s) { %s }' % (ret, f, args, 'return 0;' if ret == 'int' else ''))
    o += ['}', 'int bad = 0;', 'static void no(const char* what, const char* where) { if (bad++ < 3) printf("%s: %s\\n", where, what); }',
          'static bool eq(const char* a, const char* b) { return a && b ? !strcmp(a, b) : a == b; }', 'int main() {',
          'if (ti_indicator_count() != %d || TI_INDICATOR_COUNT != %d) no("wrong count", "table");' % (len(es), len(es))]
    for i, n in enumerate(names):
        e = next(x for x in es if x['name'] == n)
        p = lambda f: f if f in declared(e) else '0'
        o.append('{ ti_indicator_info* t = ti_indicators + %d; const char* w = "%s"; if (!eq(t->name, w)) no("not at its sorted place", w); else {' % (i, n))
        o.append('if (!eq(t->full_name, %s)) no("full name differs", w);' % q(e['full']))
        o.append('if (t->type != %d) no("type differs", w); if (t->inputs != %d || t->options != %d || t->outputs != %d) no("counts differ", w);' % (TYPES.index(e['type']) + 1, len(e['inputs']), len(e['options']), len(e['outputs'])))
        for k in ('input', 'option', 'output'):
            for j, x in enumerate(e[k + 's']): o.append('if (!eq(t->%s_names[%d], %s)) no("%s name %d differs", w);' % (k, j, q(x), k, j))
            for j in range(len(e[k + 's']), 10): o.append('if (t->%s_names[%d]) no("%s names not terminated", w);' % (k, j, k))
        o.append('if ((void*)t->start != (void*)%s || (void*)t->indicator != (void*)%s || (void*)t->indicator_ref != (void*)%s) no("batch functions differ", w);' % tuple(p('ti_%s%s' % (n, x)) for x in ('_start', '', '_ref')))
        o.append('if ((void*)t->stream_new != (void*)%s || (void*)t->stream_run != (void*)%s || (void*)t->stream_free != (void*)%s) no("stream functions differ", w);' % tuple(p('ti_%s_stream_%s' % (n, x)) for x in ('new', 'run', 'free')))
        o.append('if (TI_INDICATOR_%s_INDEX != %d) no("index constant is not its place", w); if (ti_find_indicator(w) != t) no("not found by its name", w);' % (n.upper(), i))
        o.append('ti_stream s; s.index = %d; s.progress = -7; if (ti_stream_get_info(&s) != t || ti_stream_get_progress(&s) != -7) no("stream accessors differ", w); } }' % i)
    o.append('if (ti_indicators[%d].name || ti_indicators[%d].indicator) no("table not terminated", "table");' % (len(es), len(es)))
    for m in misses: o.append('if (ti_find_indicator(%s)) no("finds what is not there", %s);' % (q(m), q(m)))
    o += ['if (!eq(ti_version(), VER)) no("version differs", "library"); if (ti_build() <= 0) no("no build time", "library");', 'return bad ? 9 : 0; }']
    return '\n'.join(o) + '\n'


def sh(cmd, d, env=None):
    r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=120)
    return r.returncode, r.stdout


def snapshot(d):
    return {os.path.basename(p): open(p).read() for p in glob.glob(d + '/indicators/*')}


def check(ctx, case):
    es = case['index']
    if len({e['name'] for e in es}) != len(es): return False
    d = tempfile.mkdtemp(dir=ctx.root)
    try:
        return check_in(ctx, es, d)
    finally:
        shutil.rmtree(d, True)


def check_in(ctx, es, d):
    for f in ('codegen.py', 'docsgen.py', 'version.py'): shutil.copyfile(ctx.src + '/' + f, d + '/' + f)
    os.mkdir(d + '/indicators')
    with open(d + '/indicators.yaml', 'w') as f:
        yaml.safe_dump({e['name']: [e['full'], e['type'], e['inputs'], e['options'], e['outputs'], e['features'], e['source']] for e in es}, f, sort_keys=False, width=10000)
    before = {}
    for e in es:
        if e['have'] == 'no': continue
        feats = e['features'][1:] if e['have'].endswith('-') else e['features']
        before['%s.%s' % (e['name'], e['have'].rstrip('-'))] = implementation(e, feats)
    for f, s in before.items():
        with open(d + '/indicators/' + f, 'w') as h: h.write(s)
    rc, out = sh([ctx.python, 'codegen.py'], d, ctx.env)
    if rc: raise Bad('codegen.py fails: %s' % out.strip().splitlines()[-1:])
    # the implementation directory
    after = snapshot(d); want = set()
    for e in es:
        n = e['name']; lacking = e['have'].endswith('-') and e['features']
        if e['have'] == 'no' or lacking: want.add(n + '.cc')
        else: want.add('%s.%s' % (n, e['have'].rstrip('-')))
    if set(after) != want: raise Bad('implementation files are %s, want %s' % (sorted(after), sorted(want)))
    for e in es:
        n = e['name']
        if e['have'] == 'no':
            s = after[n + '.cc']
            for f in declared(e):
                k = len(re.findall(r'\b%s\(' % f, s)); body = len(re.findall(r'^(?:DONTOPTIMIZE)?(?:int|void) %s\(' % f, s, re.M))
                if body != 1: raise Bad('the template of %s defines %s %d times' % (n, f, body))
            for f in re.findall(r'^(?:DONTOPTIMIZE)?(?:int|void) (ti_\w+)\(', s, re.M):
                if f not in declared(e): raise Bad('the template of %s defines %s' % (n, f))
            if '#error' not in s: raise Bad('the template of %s has nothing left to do' % n)
            for k in ('inputs', 'options', 'outputs'):
                for j, x in enumerate(e[k]):
                    if not re.search(r'\b%s = %s\[%d\];' % (x, k, j), s): raise Bad('the template of %s does not unpack %s %s' % (n, k, x))
        else:
            ext = e['have'].rstrip('-'); old = before['%s.%s' % (n, ext)]
            if not (e['have'].endswith('-') and e['features']):
                if after['%s.%s' % (n, ext)] != old: raise Bad('the implementation of %s was changed' % n)
                continue
            new = after[n + '.cc']; missing = e['features'][0]
            it = iter(new.splitlines())
            if not all(l in it for l in old.splitlines()): raise Bad('lines of the implementation of %s were lost' % n)
            first = re.search(r'^(?:DONTOPTIMIZE)?(?:int|void) ti_', new, re.M).start()
            if ext == 'c':
                for h in ('"../utils/log.h"', '"../utils/minmax.h"', '"../utils/ringbuf.hh"', '<new>', '<algorithm>'):
                    at = [m.start() for m in re.finditer(r'^#include %s$' % re.escape(h), new, re.M)]
                    if len(at) != 1 or at[0] > first: raise Bad('after %s was renamed to C++, %s is included %d times, %s' % (n, h, len(at), 'after the code' if at else 'nowhere'))
            for f in declared(e):
                c = len(re.findall(r'^(?:DONTOPTIMIZE)?(?:int|void) %s\(' % f, new, re.M))
                if c != 1: raise Bad('after the %s template was added, %s is defined %d times' % (missing, f, c))
    # the compiled table
    ver = {}; exec(open(ctx.src + '/version.py').read(), ver)
    names = sorted(e['name'] for e in es)
    misses = sorted({m for n in names for m in (n[:-1], n + 'a', n.upper(), n + ' ', '_' + n, n[1:])} - set(names)) + ['', 'zzzzz']
    with open(d + '/main.cc', 'w') as f: f.write(program(es, names, [m for m in misses if m not in names]))
    for cmd in (['gcc', '-std=c99', '-w', '-c', 'indicators_index.c', '-o', 'i.o'], ['g++', '-std=c++17', '-w', '-DVER="%s"' % ver['version'], 'main.cc', 'i.o', '-o', 'm']):
        rc, out = sh(cmd, d)
        if rc: raise Bad('the generated code does not compile: %s' % next((l for l in out.splitlines() if 'error' in l), out[:200]))
    rc, out = sh([d + '/m'], d)
    if rc: raise Bad('the compiled table disagrees with the index (%d): %s' % (rc, out.strip()[:300]))
    # once more: nothing new to do
    h, i = open(d + '/indicators.h').read(), open(d + '/indicators_index.c').read()
    rc, out = sh([ctx.python, 'codegen.py'], d, ctx.env)
    if rc: raise Bad('a second run of codegen.py fails: %s' % out.strip().splitlines()[-1:])
    cut = lambda s: re.sub(r'TI_BUILD \d+', '', s)
    if snapshot(d) != after or cut(open(d + '/indicators.h').read()) != cut(h) or open(d + '/indicators_index.c').read() != i: raise Bad('a second run of codegen.py changes files')
    # the documentation
    rc, out = sh([ctx.python, 'docsgen.py', 'out.md'], d, ctx.env)
    if rc: raise Bad('docsgen.py fails: %s' % out.strip().splitlines()[-1:])
    t = open(d + '/out.md').read(); secs = re.split(r'\n#### ', t)
    if len(secs) != len(es) + 1 or str(len(es)) not in secs[0] or ver['version'] not in secs[0]: raise Bad('the documentation has %d sections for %d indicators' % (len(secs) - 1, len(es)))
    for e, s in zip(es, secs[1:]):
        f = [x for x in after if x.rsplit('.', 1)[0] == e['name']][0]
        if not s.startswith(e['full'] + '\n') or e['source'] not in s or '/indicators/' + f not in s: raise Bad('the documentation of %s lacks its title, source or file' % e['name'])
        sig = s[s.index('ti.%s(' % e['name']):]; a, b = sig.split(') -> ', 1)
        if [x.split(':')[0].strip() for x in a.split('(', 1)[1].split(',') if x.strip()] != e['inputs'] + e['options']: raise Bad('the documented parameters of %s differ' % e['name'])
        if re.findall(r'(\w+) = np', b) != e['outputs']: raise Bad('the documented outputs of %s differ' % e['name'])
    return len(es) >= 2


if __name__ == '__main__':
    sys.exit(pbt.main('C23', groups, strategy, check, setup))
