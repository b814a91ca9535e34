"""batch.py - runs many seeded simulations, classifies, minimises, reports.

Every run executes in a freshly forked child of a warmed-up process, so that a run is a pure
function of its choices (no state leaks from run to run, whatever the worker count).
"""
import collections
import hashlib
import json
import os
import pickle
import resource
import select
import signal
import struct
import sys
import time
import traceback

from . import core, kernel

REAL_TIME = kernel.REAL['time']
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def dhparser_frames(tb):
    base = kernel.repo_dir().rstrip('/') + '/DHParser'
    return [f for f in traceback.extract_tb(tb) if f.filename.startswith(base)]


def exc_site(e):
    fr = dhparser_frames(e.__traceback__)
    return ('%s:%s' % (os.path.basename(fr[-1].filename), fr[-1].name)) if fr else ''


def run_one(fn, choices, tier, verbose=False):
    """Executes one simulated run in this process. -> outcome dict"""
    ctx = core.Ctx(choices, tier, verbose)
    try:
        fn(ctx)
    except core.Violation as v:
        if not any(k == v.kind and m == str(v.msg) for k, m in ctx.violations):
            ctx.violations.append((v.kind, str(v.msg)))
    except (kernel.Deadlock, kernel.StepLimit) as e:
        ctx.violations.append(('stuck', type(e).__name__ + ': ' + str(e)))
    except BaseException as e:
        tbtxt = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
        if dhparser_frames(e.__traceback__):
            ctx.violations.append(('exception:' + type(e).__name__, exc_site(e) + ' ' + str(e)[:300]
                                   + '\n' + tbtxt[-3000:]))
        else:
            out = ctx.outcome()
            out['harness_error'] = tbtxt
            return out
    return ctx.outcome()


CPU_LIMIT = 60              # seconds of CPU time, independent of the load of the machine


def fork_run(fn, seed, replay, tier, verbose=False, wall=180.0):
    """Runs in a forked child. -> outcome dict (with 'hang': True if it needs too much time)"""
    t0 = REAL_TIME()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT))
            os.close(r)
            devnull = os.open(os.devnull, os.O_RDWR)
            if not os.environ.get('DST_DEBUG'):
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
            os.dup2(devnull, 0)
            if replay is None:
                ch = core.Choices(seed=seed)
            else:
                ch = core.Choices(replay=list(replay))
            try:
                out = run_one(fn, ch, tier, verbose)
            except BaseException:
                out = {'harness_error': traceback.format_exc(), 'violations': [],
                       'choices': ch.log, 'faults': {}, 'probes': {}, 'simtime': 0,
                       'hash': '', 'nontrivial': False, 'case': '', 'switches': 0,
                       'trace': []}
            data = pickle.dumps(out)
            data = struct.pack('!Q', len(data)) + data
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        finally:
            os._exit(0)
    os.close(w)
    buf = bytearray()
    deadline = REAL_TIME() + wall
    hang = False
    while True:
        rest = deadline - REAL_TIME()
        if rest <= 0:
            hang = True
            break
        rl, _, _ = select.select([r], [], [], rest)
        if not rl:
            hang = True
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
        if len(buf) >= 8 and len(buf) >= 8 + struct.unpack('!Q', buf[:8])[0]:
            break
    os.close(r)
    try:
        os.kill(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    _, status = os.waitpid(pid, 0)
    killed = os.WIFSIGNALED(status) and REAL_TIME() - t0 >= CPU_LIMIT and len(buf) < 8
    empty = {'violations': [], 'choices': list(replay or []), 'faults': {}, 'probes': {},
             'simtime': 0, 'hash': '', 'nontrivial': False, 'case': '', 'switches': 0, 'trace': []}
    if hang or killed:
        empty['hang'] = True
        empty['violations'] = [('hang', 'run did not finish within %i s (CPU time) or %i s'
                                % (CPU_LIMIT, wall))]
        return empty
    if len(buf) < 8:
        empty['harness_error'] = 'child died without a result'
        return empty
    return pickle.loads(bytes(buf[8:]))


def seed_for(base, prop, scen, i):
    h = hashlib.blake2b(('%s/%s/%s/%s' % (base, prop, scen, i)).encode(), digest_size=8)
    return int.from_bytes(h.digest(), 'big')


# ---- minimisation -----------------------------------------------------------------------

def minimise(fn, choices, kind, tier, budget_s=25.0, max_evals=400, wall=180.0, known=()):
    """Shrinks a choice list while a violation of the same kind persists."""
    t_end = REAL_TIME() + budget_s
    evals = 0
    best = list(choices)

    def fails(c):
        nonlocal evals
        evals += 1
        out = fork_run(fn, None, c, tier, wall=wall)
        if out.get('harness_error'):
            return None
        if any(k == kind and is_known(known, k, m) is None for k, m in out['violations']):
            return out['choices']
        return None

    def ok():
        return REAL_TIME() < t_end and evals < max_evals

    def size(c):
        return (len(c), sum(c))

    def attempt(c):
        nonlocal best
        if not ok():
            return False
        got = fails(c)
        if got is None:
            return False
        while got and got[-1] == 0:
            got.pop()
        if size(got) < size(best):
            best = list(got)
            return True
        return False

    while best and best[-1] == 0:
        best.pop()
    # truncate
    lo = 0
    n = len(best)
    step = n // 2
    while step >= 1 and ok():
        if not attempt(best[:max(0, len(best) - step)]):
            step //= 2
        else:
            step = min(step, max(1, len(best) // 2))
    improved = True
    while improved and ok():
        improved = False
        for op in ('delete', 'zero'):
            k = max(1, len(best) // 2)
            while k >= 1 and ok():
                i = 0
                while i < len(best) and ok():
                    if op == 'delete':
                        cand = best[:i] + best[i + k:]
                    else:
                        if not any(best[i:i + k]):
                            i += k
                            continue
                        cand = best[:i] + [0] * len(best[i:i + k]) + best[i + k:]
                    if attempt(cand):
                        improved = True
                    else:
                        i += k
                k //= 2
        for i in range(len(best)):
            if not ok() or i >= len(best):
                break
            if best[i] > 1:
                for v in (1, best[i] // 2, best[i] - 1):
                    if 0 < v < best[i] and attempt(best[:i] + [v] + best[i + 1:]):
                        improved = True
                        break
    return best, evals


# ---- known findings ------------------------------------------------------------------------

def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path, encoding='utf-8') as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in data if e['property'] == prop and e.get('status') == 'known']


def is_known(known, kind, msg):
    for e in known:
        m = e['match']
        if m['kind'] == kind and all(s in msg for s in m.get('contains', [])):
            return e
    return None


# ---- the batch -------------------------------------------------------------------------------

def worker_loop(wid, nworkers, spec, tier, base_seed, jobs, out_fd, stop_fd, t_end):
    """Runs its share of the jobs; streams pickled summaries to out_fd."""
    known = load_known(spec.prop)

    def send(obj):
        data = pickle.dumps(obj)
        data = struct.pack('!Q', len(data)) + data
        off = 0
        while off < len(data):
            off += os.write(out_fd, data[off:off + 65536])

    agg = collections.Counter()
    faults = collections.Counter()
    probes = collections.Counter()
    hashes = set()
    all_hashes = set()
    scen_runs = collections.Counter()
    simtime = 0.0
    samples = []
    switches = 0
    known_hits = collections.Counter()
    n = 0
    slowest = 0.0
    timeout_hit = False
    for j in range(wid, len(jobs), nworkers):
        if REAL_TIME() > t_end:
            timeout_hit = True
            break
        if select.select([stop_fd], [], [], 0)[0]:
            break
        sname, i = jobs[j]
        fn = spec.scenarios[sname]
        seed = seed_for(base_seed, spec.prop, sname, i)
        t0 = REAL_TIME()
        out = fork_run(fn, seed, None, tier, wall=spec.wall)
        slowest = max(slowest, REAL_TIME() - t0)
        n += 1
        scen_runs[sname] += 1
        faults.update(out['faults'])
        probes.update(out['probes'])
        simtime += out['simtime']
        switches += out['switches']
        all_hashes.add(out['hash'])
        if out['nontrivial']:
            hashes.add((sname, out['hash']))
        if out.get('harness_error'):
            send(('harness', sname, i, seed, out['harness_error']))
            continue
        if len(samples) < 2 and out['nontrivial'] and wid < 2:
            samples.append({'scenario': sname, 'seed': seed, 'case': out['case'],
                            'trace': out['trace'][:25]})
        bad = []
        for kind, msg in out['violations']:
            e = is_known(known, kind, msg)
            if e is not None:
                known_hits[e['id']] += 1
            else:
                bad.append((kind, msg))
        if bad:
            send(('violation', sname, i, seed, bad, out['choices'], out['trace'], out['case'],
                  bool(out.get('hang'))))
    send(('done', wid, n, dict(faults), dict(probes), simtime, hashes, all_hashes, samples,
          dict(scen_runs), switches, dict(known_hits), timeout_hit, slowest))


class Spec:
    def __init__(self, prop, module):
        self.prop = prop
        self.module = module
        self.scenarios = {name: fn for name, fn, _ in module.SCENARIOS}
        self.weights = {name: w for name, _, w in module.SCENARIOS}
        self.runs = dict(module.RUNS)
        self.wall = getattr(module, 'WALL', 180.0)
        self.level = getattr(module, 'LEVEL', 'exploration')


def make_jobs(spec, total):
    names = list(spec.scenarios)
    tw = sum(spec.weights.values())
    per = {n: max(1, int(total * spec.weights[n] / tw)) for n in names}
    jobs = []
    idx = {n: 0 for n in names}
    while any(idx[n] < per[n] for n in names):
        for n in names:
            k = spec.weights[n]
            for _ in range(k):
                if idx[n] < per[n]:
                    jobs.append((n, idx[n]))
                    idx[n] += 1
    return jobs


def run_batch(spec, tier, base_seed, total=None, workers=None, time_cap=None):
    workers = workers or min(8, os.cpu_count() or 1)
    total = total or spec.runs[tier]
    time_cap = time_cap or (420 if tier == 'quick' else 780)
    jobs = make_jobs(spec, total)
    t0 = REAL_TIME()
    t_end = t0 + time_cap
    stop_r, stop_w = os.pipe()
    fds = {}
    pids = []
    for wid in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                worker_loop(wid, workers, spec, tier, base_seed, jobs, w, stop_r, t_end)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(w)
        fds[r] = bytearray()
        pids.append(pid)
    violations, harness, dones = [], [], []
    open_fds = dict(fds)
    stopped = False
    while open_fds:
        rl, _, _ = select.select(list(open_fds), [], [], 5.0)
        if not rl and REAL_TIME() > t_end + spec.wall * 2 + 30:
            break
        for r in rl:
            chunk = os.read(r, 1 << 16)
            if not chunk:
                del open_fds[r]
                os.close(r)
                continue
            buf = fds[r]
            buf += chunk
            while len(buf) >= 8:
                n = struct.unpack('!Q', buf[:8])[0]
                if len(buf) < 8 + n:
                    break
                obj = pickle.loads(bytes(buf[8:8 + n]))
                del buf[:8 + n]
                if obj[0] == 'violation':
                    violations.append(obj[1:])
                elif obj[0] == 'harness':
                    harness.append(obj[1:])
                else:
                    dones.append(obj[1:])
        if (len(violations) >= 8 or len(harness) >= 500) and not stopped:
            stopped = True
            os.write(stop_w, b'x')
    for p in pids:
        try:
            os.kill(p, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(p, 0)
    os.close(stop_r)
    os.close(stop_w)
    res = {'violations': violations, 'harness': harness, 'wall': REAL_TIME() - t0,
           'planned': len(jobs), 'workers': workers}
    res['runs'] = sum(d[1] for d in dones)
    res['faults'] = collections.Counter()
    res['probes'] = collections.Counter()
    res['simtime'] = 0.0
    res['hashes'] = set()
    res['all_hashes'] = set()
    res['samples'] = []
    res['scen_runs'] = collections.Counter()
    res['switches'] = 0
    res['known_hits'] = collections.Counter()
    res['timeout_hit'] = any(d[11] for d in dones) or len(dones) < workers
    res['slowest'] = max([d[12] for d in dones] or [0.0])
    for d in dones:
        res['faults'].update(d[2])
        res['probes'].update(d[3])
        res['simtime'] += d[4]
        res['hashes'] |= d[5]
        res['all_hashes'] |= d[6]
        res['samples'].extend(d[7])
        res['scen_runs'].update(d[8])
        res['switches'] += d[9]
        res['known_hits'].update(d[10])
    return res
