"""C22: the Python binding returns what the C functions compute.

The reference calls the same library through its own ctypes prototypes, with names taken from indicators.yaml."""
import ctypes, importlib, os, sys
import numpy as np, yaml
from hypothesis import strategies as st
import pbt
from pbt import Bad

D, I = ctypes.c_double, ctypes.c_int
PD, PPD = ctypes.POINTER(D), ctypes.POINTER(ctypes.POINTER(D))
LOOKUP, OWN = '~lookup', '~index'


class Ctx:
    pass


def clean(s):
    return s.replace(' ', '_').replace('%', '')


def setup(a):
    c = Ctx()
    c.yaml = yaml.safe_load(open(a.src + '/indicators.yaml', encoding='utf8'))
    c.lib = ctypes.CDLL(a.build + '/py/tindicators/libindicators.so')
    sys.path.insert(0, a.build + '/py')
    c.mod = importlib.import_module('tindicators')
    c.ti = c.mod.ti
    v = {}
    exec(open(a.src + '/version.py').read(), v)
    c.version = v['version']
    return c


def raw(ctx, name, ins, opts):
    """-> (code, start, outputs)"""
    f = getattr(ctx.lib, 'ti_' + name); f.restype = I; f.argtypes = [I, PPD, PD, PPD]
    s = getattr(ctx.lib, 'ti_%s_start' % name); s.restype = I; s.argtypes = [PD]
    o = (D * max(1, len(opts)))(*opts)
    start, n = s(o), len(ins[0])
    m = max(0, n - start) if start >= 0 else n + 64
    ia = [np.array(x, dtype=np.float64) if len(x) else np.zeros(1) for x in ins]
    oa = [np.full(m + 1, 12345.678) for _ in ctx.yaml[name][4]]
    ip = (PD * len(ia))(*[x.ctypes.data_as(PD) for x in ia]); op = (PD * len(oa))(*[x.ctypes.data_as(PD) for x in oa])
    code = f(n, ip, o, op)
    return code, start, [x[:m].copy() for x in oa]


FORMS = ['list', 'tuple', 'f64', 'strided', 'reversed', 'f32', 'i64', 'intlist', 'readonly']


def make(vals, form):
    if form == 'list': return list(vals)
    if form == 'tuple': return tuple(vals)
    if form == 'f64': return np.array(vals, dtype=np.float64)
    if form == 'strided': a = np.zeros(3 * len(vals)); a[::3] = vals; return a[::3]
    if form == 'reversed': return np.array(vals[::-1], dtype=np.float64)[::-1]
    if form == 'f32': return np.array(vals, dtype=np.float32)
    if form == 'i64': return np.array([int(v) for v in vals], dtype=np.int64)
    if form == 'intlist': return [int(v) for v in vals]
    a = np.array(vals, dtype=np.float64); a.flags.writeable = False
    return a


def effective(vals, form):
    if form in ('i64', 'intlist'): return [float(int(v)) for v in vals]
    if form == 'f32': return [float(np.float32(v)) for v in vals]
    return list(vals)


def opt(v, form):
    if form == 'int' and float(v).is_integer(): return int(v)
    if form == 'np': return np.float64(v)
    if form == 'npint' and float(v).is_integer() and abs(v) < 2 ** 62: return np.int64(v)
    return float(v)


def groups(ctx):
    return sorted(ctx.yaml) + [LOOKUP, OWN]


def strategy(ctx, name):
    if name == LOOKUP:
        names = sorted(ctx.yaml)
        def ok(s):
            return s and '\0' not in s and s not in ctx.yaml and not s.startswith('_') and not hasattr(type(ctx.ti), s) and s not in vars(ctx.ti)
        near = st.builds(lambda n, k, c: n[:k] + c + n[k + 1:], st.sampled_from(names), st.integers(0, 9), st.text('abcdefgrsmxyz_0129AZ ', max_size=2))
        return st.one_of(near, st.text(max_size=8), st.sampled_from(names).map(str.upper), st.sampled_from(names).map(lambda n: n + ' ')).filter(ok).map(lambda s: {'name': s})
    if name == OWN:
        return st.sampled_from(sorted(ctx.yaml)).map(lambda n: {'info': n})
    full, typ, inputs, options, outputs = ctx.yaml[name][:5]
    per = st.one_of(st.integers(1, 4), st.integers(1, 14), st.integers(1, 14), st.integers(-2, 30)).map(float)
    real = st.one_of(st.sampled_from([.02, .2, .5, .7, .9, 1., 1.5, 2., 3., .05]), st.floats(0, 4, width=32), st.sampled_from([0., -1., 1e-7, 1e16, 12345678.5]))

    @st.composite
    def case(draw):
        o = [draw(real if any(k in n for k in ('thresh', 'gamma', 'limit', 'lambda', 'alpha', 'beta', 'power', 'exponent', 'stddev', 'multiple', 'factor', 'cycpart', 'coef')) and 'period' not in n or n == 'v' else per) for n in options]
        if len(o) > 1 and draw(st.booleans()):
            o = sorted(o) if 'short' in options[0] or 'roc' in ' '.join(options) or draw(st.booleans()) else o
        s = getattr(ctx.lib, 'ti_%s_start' % name); s.restype = I; s.argtypes = [PD]
        start = min(150, max(0, s((D * max(1, len(o)))(*o))))
        n = draw(st.one_of(st.integers(start + 1, start + 14), st.integers(start + 1, start + 14), st.integers(0, start + 2)))
        scale = draw(st.sampled_from([1., 1., 1., .25, .1, 1e-3, 1e6]))
        def series():
            if draw(st.integers(0, 9)) < 7:
                v = draw(st.lists(st.integers(1, 200), min_size=n, max_size=n)); return [x * scale for x in v]
            return draw(st.lists(st.floats(.5, 1e4, width=32), min_size=n, max_size=n))
        ins = [series() for _ in inputs]
        if 'high' in inputs and 'low' in inputs and draw(st.booleans()):
            h, l = inputs.index('high'), inputs.index('low'); ins[h], ins[l] = [max(a, b) for a, b in zip(ins[h], ins[l])], [min(a, b) for a, b in zip(ins[h], ins[l])]
        return {'ind': name, 'o': o, 'in': ins, 'forms': [draw(st.sampled_from(FORMS)) for _ in inputs], 'oforms': [draw(st.sampled_from(['int', 'int', 'float', 'np', 'npint'])) for _ in o],
                'positional': draw(st.integers(0, len(inputs) + len(o))), 'pad': draw(st.sampled_from([None, True, False])), 'again': draw(st.sampled_from([0, 0, 1, 2, 2]))}
    return case()


def same(a, b):
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def look(ctx, case):
    if 'name' in case:
        try:
            r = getattr(ctx.ti, case['name'])
        except ctx.mod.NoSuchIndicator:
            return True
        except Exception as e:
            raise Bad('looking up %r raises %s: %s instead of NoSuchIndicator' % (case['name'], type(e).__name__, e))
        raise Bad('looking up %r finds %r' % (case['name'], r))
    n = case['info']; full, typ, inputs, options, outputs = ctx.yaml[n][:5]; i = getattr(ctx.ti, n).info
    want = (n, full, typ, tuple(map(clean, inputs)), tuple(map(clean, options)), tuple(map(clean, outputs)))
    got = (i.name, i.full_name, i.type, i.inputs, i.options, i.outputs)
    if want != got: raise Bad('info of %s is %r, the index says %r' % (n, got, want))
    if ctx.ti.available_indicators != sorted(ctx.yaml): raise Bad('available_indicators is not the sorted index')
    if ctx.ti.version != ctx.version: raise Bad('version is %r, want %r' % (ctx.ti.version, ctx.version))
    r, g = repr(getattr(ctx.ti, n)), repr(ctx.ti)
    for w in (n, full) + want[3] + want[4] + want[5]:
        if w not in r: raise Bad('repr of %s lacks %r' % (n, w))
    if n not in g.split() or str(len(ctx.yaml)) not in g or ctx.version not in g: raise Bad('repr of the library lacks %s, its count or its version' % n)
    return True


def check(ctx, case):
    if 'ind' not in case: return look(ctx, case)
    name = case['ind']
    if name not in ctx.yaml: return False
    inputs, options, outputs = ctx.yaml[name][2:5]
    if len(case['in']) != len(inputs) or len(case['o']) != len(options): return False
    vals = [effective(v, f) for v, f in zip(case['in'], case['forms'])]; n = len(vals[0])
    o = [opt(v, f) for v, f in zip(case['o'], case['oforms'])]
    code, start, want = raw(ctx, name, vals, [float(x) for x in o])
    args = [make(v, f) for v, f in zip(case['in'], case['forms'])]; copies = [list(map(float, x)) for x in args]
    names = [clean(x) for x in list(inputs) + list(options)]; allargs = args + o; k = min(case['positional'], len(allargs))
    k = max([k] + [i + 1 for i in range(len(names)) if names.count(names[i]) > 1])      # add, div, ... have two inputs of one name
    kw = dict(zip(names[k:], allargs[k:]))
    if case['pad'] is not None: kw['pad'] = case['pad']
    pad = case['pad'] is not False
    try:
        fun = getattr(ctx.ti, name)
        got = fun(*allargs[:k], **kw)
    except ctx.mod.InvalidOption as e:
        if code == 1: return len(o) > 0
        raise Bad('raises InvalidOption, the C function returns %d' % code)
    except ctx.mod.OutOfMemory:
        if code == 2: return False
        raise Bad('raises OutOfMemory, the C function returns %d' % code)
    except Exception as e:
        raise Bad('raises %s: %s where the C function returns %d (start %d, %d bars)' % (type(e).__name__, e, code, start, n))
    if code != 0: raise Bad('returns a result, the C function returns %d' % code)

    def judge(got, when):
        fields = [clean(x) for x in outputs]
        if len(outputs) > 1:
            if not isinstance(got, tuple) or list(getattr(got, '_fields', [])) != fields: raise Bad('%sresult is %r, want a tuple of %s' % (when, type(got), fields))
            arr = list(got)
            if all(isinstance(x, int) and x >= 0 for x in o) and type(got).__name__ != '_'.join([name] + [str(x) for x in o]): raise Bad('result type is named %s' % type(got).__name__)
            for f, x in zip(fields, arr):
                if getattr(got, f) is not x: raise Bad('field %s is not the element at its place' % f)
        else: arr = [got]
        for f, x, w in zip(fields, arr, want):
            if not isinstance(x, np.ndarray) or x.dtype != np.float64 or x.ndim != 1: raise Bad('%s%s is %r' % (when, f, type(x)))
            e = np.concatenate([np.full(min(start, n), np.nan), w]) if pad else w
            if len(x) != len(e): raise Bad('%s%s has %d elements, want %d (%d bars, start %d, pad=%s)' % (when, f, len(x), len(e), n, start, case['pad']))
            if not same(x, e):
                j = int(np.nonzero(~((x == e) | ((x != x) & (e != e))))[0][0]); raise Bad('%s%s[%d] is %r, the C function gives %r' % (when, f, j, float(x[j]), float(e[j])))
    judge(got, '')
    if [list(map(float, x)) for x in args] != copies: raise Bad('the inputs were modified')
    if case['again']:
        fun = fun if case['again'] == 2 else getattr(ctx.ti, name)
        other = fun(*[[x + 1 for x in v[::-1]] for v in vals], *o, pad=pad)
        junk = [np.full(max(1, n - start), 7.) for _ in range(4)]
        judge(got, 'after another call ')
        judge(fun(*allargs[:k], **kw), 'called again ')
        del other, junk
    return n - start >= 2 and any(np.isfinite(w).sum() >= 2 for w in want)


if __name__ == '__main__':
    sys.exit(pbt.main('C22', groups, strategy, check, setup))
