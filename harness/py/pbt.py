"""Worker side of the Python checks: hypothesis draws plain-data cases, one check() decides each, failures shrink to a replay file.

usage: MODULE worker --build DIR --src DIR --seed N --part I/N --examples N --out FILE --replays DIR
       MODULE replay --build DIR --src DIR FILE
"""
import argparse, hashlib, json, os, sys, time, traceback
from hypothesis import given, settings, seed, HealthCheck, Phase


class Bad(Exception):
    pass


def main(prop, groups, strategy, check, setup):
    """groups(ctx) -> names; strategy(ctx, name) -> cases (json-able dicts); check(ctx, case) -> nontrivial, or raises Bad."""
    ap = argparse.ArgumentParser()
    ap.add_argument('mode'); ap.add_argument('file', nargs='?')
    for a in ('build', 'src', 'part', 'out', 'replays'):
        ap.add_argument('--' + a)
    ap.add_argument('--seed', type=int, default=1); ap.add_argument('--examples', type=int, default=100); ap.add_argument('--seconds', type=float, default=1e9)
    a = ap.parse_args()
    ctx = setup(a)
    if a.mode == 'replay':
        case = json.load(open(a.file))
        try:
            check(ctx, case['case'])
        except Bad as e:
            print('%s: %s' % (case['where'], e))
            return 1
        print('held')
        return 0
    i, n = map(int, a.part.split('/'))
    names = groups(ctx)[i::n]
    res = {'evaluations': 0, 'nontrivial': 0, 'distinct': 0, 'samples': [], 'violations': [], 'per': {}, 'cut': 0}
    seen, cur, t0 = set(), a.out + '.case', time.time()

    def flush():
        res['distinct'] = len(seen)
        with open(a.out, 'w') as f:
            json.dump(res, f)

    for name in names:
        last, nt = {}, [0, 0]

        def body(case):
            res['evaluations'] += 1; nt[1] += 1
            text = json.dumps({'property': prop, 'where': name, 'case': case})
            if last and text != last['text'] and time.time() - last['t0'] > 40:      # enough shrinking
                return
            with open(cur, 'w') as f:
                f.write(text)
            try:
                good = check(ctx, case)
            except Bad as e:
                last.update(text=text, msg=str(e), t0=last.get('t0', time.time()))
                raise
            if good:
                res['nontrivial'] += 1; nt[0] += 1
                h = hashlib.sha1(text.encode()).digest()[:8]
                if h not in seen:
                    seen.add(h)
                    if len(res['samples']) < 3 and len(text) < 1500:
                        res['samples'].append(text)

        if time.time() - t0 > a.seconds:
            res['cut'] += 1
            continue
        test = seed(a.seed * 7919 + int(hashlib.sha1(name.encode()).hexdigest()[:6], 16))(settings(max_examples=a.examples, database=None, deadline=None, phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False)(given(strategy(ctx, name))(body)))
        try:
            test()
        except Bad:
            path = '%s/%s-%s.json' % (a.replays, prop, name)
            with open(path, 'w') as f:
                f.write(last['text'] + '\n')
            res['violations'].append({'indicator': name, 'message': last['msg'], 'replay': path, 'brief': last['text'][:300]})
        res['per'][name] = nt
        flush()
    flush()
    if os.path.exists(cur):
        os.unlink(cur)
    return 0
