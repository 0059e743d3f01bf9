#!/usr/bin/env python3
"""Orchestrator of the deterministic simulation checks.

  vp.py build                 build every harness against /repo/src
  vp.py check ID [--tier T]   run the check of one property (exit 0 / exit 1 + VIOLATION line)
  vp.py replay FILE           run one replay file again, with its event trace
  vp.py determinism [N]       large determinism sweep over all the properties
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, struct, subprocess, sys, tempfile, time, shutil

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
SIM = os.path.join(ROOT, 'sim')
WORKERS = 8
sys.path.insert(0, ROOT)
from props import PROPS  # noqa: E402

BASE = ['-std=c++17', '-g1', '-fpermissive', '-w', '-I' + SIM, '-I' + os.path.join(REPO, 'src')]
VARIANTS = {
    'plain': ['-O1'],
    'o0': ['-O0', '-ftrivial-auto-var-init=pattern'],  # what is read before it is written differs from the other builds
    'asan': ['-O1', '-fsanitize=address,bounds', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
}


# harnesses of several translation units (every Mondrian header needs one of its own)
PARTS = {'mondrian': ['mondrian_'], 'models': ['model_'], 'tasks': ['model_']}


class Broken(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for d in (os.path.join(REPO, 'src'), SIM):
        for base, dirs, files in sorted(os.walk(d)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.hpp', '.h', '.cpp', '.c')):
                    p = os.path.join(base, f)
                    h.update(os.path.relpath(p, d).encode() + b'\0' + open(p, 'rb').read() + b'\0')
    h.update(repr((BASE, sorted(VARIANTS.items()))).encode())
    h.update(open(__file__, 'rb').read())
    return h.hexdigest()[:16]


def build_dir():
    d = os.path.join(ROOT, 'build', tree_hash())
    os.makedirs(d, exist_ok=True)
    return d


def compile_one(d, harness, variant):
    out = os.path.join(d, harness + '.' + variant)
    lock = open(out + '.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(out):
            return out
        flags = BASE + (['-O1', '-fsanitize=thread', '-DTASKS_LIBRARY'] if harness == 'tasks' else VARIANTS[variant])
        parts = [os.path.join(SIM, harness + '.cpp')] + [os.path.join(SIM, f) for f in sorted(os.listdir(SIM)) if any(f.startswith(x) and f.endswith('.cpp') for x in PARTS.get(harness, []))]
        objs = ['%s.%d.tmp%d.o' % (out, i, os.getpid()) for i in range(len(parts))]

        def obj(i):
            # the runtime of the task scheduler itself is not instrumented
            fl = BASE + ['-O2'] if harness == 'tasks' and i == 0 else flags
            run(['g++'] + fl + ['-c', parts[i], '-o', objs[i]])
        tmp = out + '.tmp%d' % os.getpid()
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            list(ex.map(obj, range(len(parts))))
        # metrics.hpp defines a static data member in a header: several units that include it only link this way
        run(['g++'] + ([] if harness == 'tasks' else VARIANTS[variant]) + ['-Wl,--allow-multiple-definition'] + objs + ['-o', tmp])
        for o in objs:
            os.unlink(o)
        os.rename(tmp, out)
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Broken('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-6000:]))


def prune_builds(keep):
    top = os.path.join(ROOT, 'build')
    ds = sorted((os.path.getmtime(os.path.join(top, x)), x) for x in os.listdir(top) if os.path.isdir(os.path.join(top, x)))
    for _, x in ds[:-12]:
        if os.path.join(top, x) != keep:
            shutil.rmtree(os.path.join(top, x), ignore_errors=True)


def build(pairs):
    d = build_dir()
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        res = list(ex.map(lambda hv: compile_one(d, *hv), pairs))
    os.utime(d)
    prune_builds(d)
    return dict(zip(pairs, res))


def all_pairs():
    return sorted({(g['harness'], g['variant']) for p in PROPS.values() for g in p['groups']})


def read64(path):
    b = open(path, 'rb').read()
    return struct.unpack('<%dQ' % (len(b) // 8), b)


def batch(binary, prop, base, start, stride, count, tier, out, deadline):
    env = dict(os.environ, LC_ALL='C')
    r = subprocess.run([binary, '--batch', prop, str(base), str(start), str(stride), str(count), tier, out, str(deadline)],
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=env)
    if r.returncode not in (0, 1):
        raise Broken('batch of %s ended with %d: %s' % (binary, r.returncode, r.stderr[-2000:]))
    res = {'faults': {}, 'fail': None}
    for line in open(out + '.txt'):
        w = line.rstrip('\n').split(' ', 3)
        if w[0] == 'fault':
            res['faults'][w[1]] = res['faults'].get(w[1], 0) + int(w[2])
        elif w[0] == 'fail':
            res['fail'] = (int(w[1]), w[2], w[3] if len(w) > 3 else '')
        else:
            res[w[0]] = float(w[1]) if '.' in w[1] else int(w[1])
    h = read64(out + '.hashes')
    res['hashes'] = dict(zip(h[0::2], h[1::2]))
    res['states'] = set(read64(out + '.states'))
    res['nontriv'] = set(read64(out + '.nontriv'))
    return res


def exec_plan(binary, path, trace=False):
    """-> (ok, class, hash, message)"""
    r = subprocess.run([binary, '--exec', path] + (['trace'] if trace else []), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    if trace:
        sys.stdout.write(r.stdout)
    for line in reversed(r.stdout.splitlines()):
        if line.startswith('OK '):
            return True, '', re.search(r'hash=(\w+)', line).group(1), ''
        m = re.match(r'FAIL class=(\S+) hash=(\w+) step=\S+ msg=(.*)', line)
        if m:
            return False, m.group(1), m.group(2), m.group(3)
    raise Broken('no result from %s --exec %s (exit %d)' % (binary, path, r.returncode))


# ------------------------------------------------------------------ minimisation
class Shrinker:
    def __init__(self, binary, tmp, text, cls, budget):
        self.bin, self.tmp, self.cls = binary, tmp, cls
        self.end = time.time() + budget
        lines = [x for x in text.splitlines() if x and not x.startswith('#')]
        self.head = [x for x in lines if not x.startswith('s ')]
        self.steps = [x for x in lines if x.startswith('s ')]
        self.n = 0
        self.pool = cf.ThreadPoolExecutor(WORKERS)

    def text(self, steps):
        return '\n'.join(self.head + steps) + '\n'

    def fails(self, steps):
        if time.time() > self.end:
            return False
        self.n += 1
        path = os.path.join(self.tmp, 'c%d.%d.plan' % (self.n, id(steps)))
        with open(path, 'w') as f:
            f.write(self.text(steps))
        try:
            ok, cls, _, _ = exec_plan(self.bin, path)
        except Broken:
            return False
        finally:
            os.unlink(path)
        return not ok and cls == self.cls

    def first(self, cands):
        """the first candidate (in order) that still fails"""
        for i in range(0, len(cands), WORKERS):
            if time.time() > self.end:
                return None
            part = cands[i:i + WORKERS]
            for c, r in zip(part, self.pool.map(self.fails, part)):
                if r:
                    return c
        return None

    def shrink(self):
        # shortest failing prefix first, then delta debugging over the steps
        lo, hi = 0, len(self.steps)
        while lo < hi and time.time() < self.end:
            mid = (lo + hi) // 2
            if self.fails(self.steps[:mid]):
                hi = mid
            else:
                lo = mid + 1
        if hi < len(self.steps) and self.fails(self.steps[:hi]):
            self.steps = self.steps[:hi]
        chunk = max(1, len(self.steps) // 2)
        while time.time() < self.end:
            cands = [self.steps[:i] + self.steps[i + chunk:] for i in range(0, len(self.steps), chunk)]
            c = self.first(cands)
            if c is not None:
                self.steps = c
                chunk = max(1, min(chunk, len(self.steps) // 2 or 1))
            elif chunk == 1:
                break
            else:
                chunk //= 2
        # then simpler arguments and random sources
        changed = True
        while changed and time.time() < self.end:
            changed = False
            for i in range(len(self.steps)):
                w = self.steps[i].split()
                for j in range(2, len(w)):
                    v = int(w[j])
                    if v == 0:
                        continue
                    tries = [0] if j < 4 else [0, 1, v // 2 if v > 0 else -(-v // 2), v - 1 if v > 0 else v + 1]
                    cands = []
                    for t in tries:
                        if abs(t) < abs(v):
                            x = list(w)
                            x[j] = str(t)
                            cands.append(self.steps[:i] + [' '.join(x)] + self.steps[i + 1:])
                    c = self.first(cands)
                    if c is not None:
                        self.steps = c
                        w = c[i].split()
                        changed = True
                    if time.time() > self.end:
                        break
        self.pool.shutdown()
        return self.text(self.steps)


def confirm(binary, text, tmp, cls):
    path = os.path.join(tmp, 'confirm.plan')
    with open(path, 'w') as f:
        f.write(text)
    a, b = exec_plan(binary, path), exec_plan(binary, path)
    return (not a[0] and not b[0] and a[1] == b[1] == cls and a[2] == b[2]), a


def report(prop, g, binary, fail, base, tier, tmp):
    idx, cls, msg = fail
    text = subprocess.run([binary, '--gen', prop, str(base), str(idx), tier], stdout=subprocess.PIPE, text=True, check=True).stdout
    good, res = confirm(binary, text, tmp, cls)
    if not good:
        print('note: index %d (%s) did not reproduce in a fresh process: %s' % (idx, cls, res), flush=True)
        return None
    sh = Shrinker(binary, tmp, text, cls, 20 if cls == 'hang' else 60)
    n0 = len(sh.steps)
    small = sh.shrink()
    good2, res2 = confirm(binary, small, tmp, cls)
    if not good2:
        small, res2 = text, res
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    path = os.path.join(ROOT, 'replays', '%s-%s-%d.plan' % (prop, base, idx))
    with open(path, 'w') as f:
        f.write('# property %s: %s\n# class=%s hash=%s\n# %s\n# VERIF_SEED=%s run index %d tier %s; %d of %d steps kept\n# binary %s.%s\n# replay: python3 vp.py replay %s\n'
                % (prop, PROPS[prop]['title'], cls, res2[2], res2[3], base, idx, tier, len([x for x in small.splitlines() if x.startswith('s ')]), n0, g['harness'], g['variant'], path))
        f.write(small)
    print('%s: %s' % (cls, res2[3]))
    print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
    return path


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    P = PROPS[prop]
    bins = build(sorted({(g['harness'], g['variant']) for g in P['groups']}))
    tbuild = time.time() - t0
    tmp = tempfile.mkdtemp(prefix='vp.%s.' % prop)
    try:
        agg = dict(done=0, events=0, steps=0, simtime=0.0)
        faults, states, nontriv, hashes = {}, set(), set(), {}
        fails, per_group, samples = [], [], []
        det_checked = det_bad = 0
        cap = 200 if tier == 'quick' else 3000
        t1 = time.time()
        for gi, g in enumerate(P['groups']):
            binary = bins[(g['harness'], g['variant'])]
            total = g[tier]
            share = cap * g.get('share', 1.0 / len(P['groups']))
            base = seed * 1000 + gi
            gt = time.time()

            def work(w):
                n = (total - w + WORKERS - 1) // WORKERS
                return batch(binary, prop, base, w, WORKERS, n, tier, os.path.join(tmp, 'g%d.w%d' % (gi, w)), share)
            with cf.ThreadPoolExecutor(WORKERS) as ex:
                rs = list(ex.map(work, range(WORKERS)))
            gh = {}
            for r in rs:
                for k in agg:
                    agg[k] += r[k]
                for k, v in r['faults'].items():
                    faults[k] = faults.get(k, 0) + v
                states |= r['states']
                nontriv |= r['nontriv']
                gh.update(r['hashes'])
                if r['fail']:
                    fails.append((r['fail'], g, binary, base))
            per_group.append({'harness': g['harness'], 'build': g['variant'], 'runs': sum(r['done'] for r in rs), 'planned': total, 'wall_s': round(time.time() - gt, 2)})
            if fails:
                break
            # determinism: the same seeds again, other processes, other partition, other order
            nd = min(total, g.get('det', 64))
            def again(w):
                n = (nd - w + 2) // 3
                return batch(binary, prop, base, w, 3, n, tier, os.path.join(tmp, 'd%d.w%d' % (gi, w)), share)
            with cf.ThreadPoolExecutor(3) as ex:
                for r in ex.map(again, range(3)):
                    for i, h in r['hashes'].items():
                        if i in gh:
                            det_checked += 1
                            if gh[i] != h:
                                det_bad += 1
                                print('note: run %d of %s.%s is not deterministic: %016x / %016x' % (i, g['harness'], g['variant'], gh[i], h))
            s = subprocess.run([binary, '--gen', prop, str(base), '0', tier], stdout=subprocess.PIPE, text=True).stdout.splitlines()
            samples.append('\n'.join(s[:30]) + ('\n... %d more steps' % (len(s) - 30) if len(s) > 30 else ''))
        wall_sim = max(1e-6, time.time() - t1)
        replay = None
        nonrepro = 0
        for f, g, binary, base in sorted(fails, key=lambda x: x[0][0]):
            replay = report(prop, g, binary, f, base, tier, tmp)
            if replay:
                break
            nonrepro += 1
        probes = {k: v for k, v in faults.items() if k.startswith('probe_')}
        cov = {
            'evaluations': agg['done'] + len(fails),
            'distinct_nontrivial': len(nontriv),
            'rule': P['rule'],
            'samples': samples or ['(stopped before a sample was written)'],
            'groups': per_group,
            'seeds': agg['done'],
            'runs_per_hour': int(agg['done'] / wall_sim * 3600),
            'steps_executed': agg['steps'],
            'events_logged': agg['events'],
            'simulated_time': agg['simtime'],
            'simulated_time_unit': P.get('time_unit', 'samples offered to the object (one sample period each)'),
            'fault_kinds_fired': {k: v for k, v in sorted(faults.items()) if not k.startswith('probe_')},
            'probes_hit': dict(sorted(probes.items())),
            'distinct_states': len(states),
            'state_measure': P.get('state_measure', 'distinct hashes of the observable state after a step'),
            'determinism_reruns': det_checked,
            'determinism_mismatches': det_bad,
            'real_components': P['real'],
            'stubbed_components': P['stub'],
        }
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': 1 if replay else 0}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if replay:
            return 1
        if nonrepro:
            print('ERROR: %d failing runs did not reproduce' % nonrepro)
            return 2
        if det_bad:
            print('ERROR: %d runs were not deterministic' % det_bad)
            return 2
        print('OK property=%s: %d runs, %d distinct non-trivial, %d states, build %.1f s, total %.1f s' % (prop, agg['done'], len(nontriv), len(states), tbuild, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    m = re.search(r'^# binary (\w+)\.(\w+)$', open(path).read(), re.M)
    if not m:
        raise Broken('no "# binary" line in ' + path)
    hv = (m.group(1), m.group(2))
    res = exec_plan(build([hv])[hv], path, trace=True)
    return 0 if res[0] else 1


def determinism(n):
    bins = build(all_pairs())
    bad = tot = 0
    tmp = tempfile.mkdtemp(prefix='vp.det.')
    try:
        for prop, P in PROPS.items():
            for gi, g in enumerate(P['groups']):
                b = bins[(g['harness'], g['variant'])]
                for seed in (1, 2, 3):
                    base = seed * 1000 + gi
                    seen = {}
                    for stride in (8, 5, 1):
                        def w(k):
                            return batch(b, prop, base, k, stride, (n - k + stride - 1) // stride, 'quick', '%s/%d.%d.%d' % (tmp, seed, stride, k), 600)
                        with cf.ThreadPoolExecutor(8) as ex:
                            for r in ex.map(w, range(stride)):
                                for i, h in r['hashes'].items():
                                    if i in seen:
                                        tot += 1
                                        bad += seen[i] != h
                                    seen[i] = h
                print(prop, g, 'compared', tot, 'mismatches', bad, flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    try:
        if a[0] == 'build':
            build(all_pairs())
            return 0
        if a[0] == 'check':
            tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
            return check(a[1], tier if tier in ('quick', 'thorough') else 'quick')
        if a[0] == 'replay':
            return replay(a[1])
        if a[0] == 'determinism':
            return determinism(int(a[1]) if len(a) > 1 else 200)
    except Broken as e:
        print('ERROR:', e)
        return 2
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
