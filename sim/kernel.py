"""Simulation kernel: seeds, worker pool, event log, shrinking, replay, evidence.

One integer (VERIF_SEED) decides everything: run i of property P uses the PRNG
seeded with sha256(VERIF_SEED, P, i).  `gen` turns the PRNG into a *plan*, a JSON
value that holds every scheduled event and every fault; `execute` is a pure
function of the plan and of the code under test.  A replay file is just the plan.
"""
import argparse
import hashlib
import importlib
import json
import mmap
import os
import random
import resource
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))

PROPS = ['C01', 'C04', 'C06', 'C09', 'C13', 'C14', 'C15', 'C16', 'C17', 'C20']


class Violation(Exception):
    """The property is broken.  `cls` is a stable class name used by the shrinker."""
    def __init__(self, cls, msg='', sig=''):
        Exception.__init__(self, '%s: %s' % (cls, msg))
        self.cls = cls
        self.msg = msg
        self.sig = sig


class Sim:
    """Per-run event log and counters."""
    def __init__(self):
        self.log = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.simtime = 0.0
        self.steps = 0
        self.nontrivial = False
        self.scratch = None

    def ev(self, *what):
        self.steps += 1
        self.log.append(what)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, obj):
        self.states.add(digest(obj)[:16])

    def check(self, cond, cls, msg='', sig=''):
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg, sig)

    def code(self, cls, fn, *args, allow=(), **kw):
        """Run code under test; anything it raises is a violation of class `cls`."""
        try:
            return fn(*args, **kw)
        except Violation:
            raise
        except allow:
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, GeneratorExit)):
                raise
            raise Violation(cls, short_tb(e))


def short_tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    frames = ['%s:%d %s' % (os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO) else
                            os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:]]
    return '%s: %s [%s]' % (type(e).__name__, str(e)[:300], ' < '.join(reversed(frames)))


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str,
                                     ensure_ascii=True).encode()).hexdigest()


def run_rng(seed, prop, i):
    h = hashlib.sha256(('%d/%s/%d' % (seed, prop, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


def run_one(mod, plan):
    """Execute one plan in this process; returns a JSON-able result."""
    sim = Sim()
    res = {'status': 'ok'}
    scratch = tempfile.mkdtemp(prefix='vsim-', dir=scratch_root())
    sim.scratch = scratch
    cwd = os.getcwd()
    try:
        os.chdir(scratch)
        mod.execute(plan, sim)
    except Violation as v:
        res.update(status='violation', cls=v.cls, msg=v.msg[:4000], sig=v.sig)
    except MemoryError as e:
        res.update(status='violation', cls='memory', msg=short_tb(e), sig='')
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = bool(tb) and tb[-1].filename.startswith(REPO + os.sep)
        if inrepo:
            res.update(status='violation', cls='exception', msg=short_tb(e), sig='')
        else:
            res.update(status='harness', cls='harness',
                       msg=''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    res.update(trace=digest(sim.log), faults=sim.faults, probes=sim.probes,
               states=sorted(sim.states), simtime=sim.simtime, steps=sim.steps,
               nontrivial=bool(sim.nontrivial))
    return res


_SR = None


def scratch_root():
    return _SR or tempfile.gettempdir()


def setup_scratch():
    """One scratch directory per check; removed at the end."""
    global _SR
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
    try:
        if base == '/dev/shm' and shutil.disk_usage(base).free < 256 << 20:
            base = tempfile.gettempdir()
    except OSError:
        base = tempfile.gettempdir()
    _SR = tempfile.mkdtemp(prefix='verif-', dir=base)
    return _SR


# --------------------------------------------------------------------------
# child batches

def _limit():
    lim = 3 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _write_all(fd, data):
    while data:
        n = os.write(fd, data)
        data = data[n:]


def fork_batch(mod, jobs, timeout, on_result):
    """Execute jobs [(key, plan)] in forked children, one child per mod.BATCH jobs.

    on_result(key, result) -> False to stop.  A job that makes no progress for
    `timeout` seconds is killed and reported as status 'hang'; a child that dies
    is reported as status 'died'.
    """
    jobs = list(jobs)
    pos = 0
    while pos < len(jobs):
        chunk = jobs[pos:pos + mod.BATCH]
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                os.close(r)
                _limit()
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 0)
                os.dup2(devnull, 1)
                if not os.environ.get('VERIF_DEBUG'):
                    os.dup2(devnull, 2)
                for key, plan in chunk:
                    res = run_one(mod, plan)
                    data = json.dumps(res).encode()
                    _write_all(w, struct.pack('>I', len(data)) + data)
            except BaseException:
                code = 3
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        buf = b''
        done = 0
        hang = False
        stop = False
        while True:
            ready, _, _ = select.select([r], [], [], timeout)
            if not ready:
                hang = True
                break
            data = os.read(r, 1 << 16)
            if not data:
                break
            buf += data
            while len(buf) >= 4:
                n = struct.unpack('>I', buf[:4])[0]
                if len(buf) < 4 + n:
                    break
                res = json.loads(buf[4:4 + n])
                buf = buf[4 + n:]
                key = chunk[done][0]
                done += 1
                if on_result(key, res) is False:
                    stop = True
                    break
            if stop:
                break
        os.close(r)
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        _, st = os.waitpid(pid, 0)
        if stop:
            return
        if done < len(chunk):
            key = chunk[done][0]
            blank = dict(trace='', faults={}, probes={}, states=[], simtime=0, steps=0,
                         nontrivial=False)
            if hang:
                res = dict(blank, status='hang', cls='hang',
                           msg='no result within %ss' % timeout, sig='')
            else:
                res = dict(blank, status='died', cls='died',
                           msg='process died, wait status %d' % st, sig='')
            done += 1
            if on_result(key, res) is False:
                return
        pos += done


def run_forked(mod, plan, timeout=None):
    """One run in a process of its own; a hang or a death is believed if it happens here."""
    timeout = timeout or 2 * mod.TIMEOUT
    out = []
    fork_batch(mod, [(0, plan)], timeout, lambda k, r: out.append(r))
    r = out[0]
    if r['status'] == 'died':
        out = []
        fork_batch(mod, [(0, plan)], timeout, lambda k, r: out.append(r))
        r = out[0]
    if r['status'] in ('hang', 'died'):
        r = dict(r, status='violation')
    return r


# --------------------------------------------------------------------------
# shrinking

def shrink(mod, plan, cls, budget_s=90, max_tries=600, known=()):
    t0 = time.time()
    tries = 0
    best = plan
    seen = {digest(plan)}

    def fails(p):
        nonlocal tries
        d = digest(p)
        if d in seen:
            return False
        seen.add(d)
        tries += 1
        r = run_forked(mod, p, 12 if cls == 'hang' else None)
        return r['status'] == 'violation' and r['cls'] == cls and not is_known(known, r)

    progress = True
    while progress and time.time() - t0 < budget_s and tries < max_tries:
        progress = False
        for cand in mod.shrink(best):
            if time.time() - t0 > budget_s or tries >= max_tries:
                break
            if fails(cand):
                best = cand
                progress = True
                break
    return best, tries


def shrink_lists(plan, paths):
    """Generic candidates: drop chunks of the list found at each path."""
    for path in paths:
        obj = plan
        ok = True
        for p in path:
            try:
                obj = obj[p]
            except (KeyError, IndexError, TypeError):
                ok = False
                break
        if not ok or not isinstance(obj, list):
            continue
        n = len(obj)
        size = n // 2
        while size >= 1:
            for start in range(0, n, size):
                new = obj[:start] + obj[start + size:]
                if len(new) != n:
                    yield replace_at(plan, path, new)
            size //= 2


def replace_at(plan, path, value):
    if not path:
        return value
    if isinstance(plan, list):
        new = list(plan)
    else:
        new = dict(plan)
    new[path[0]] = replace_at(plan[path[0]], path[1:], value)
    return new


# --------------------------------------------------------------------------

def load_known(prop):
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        data = json.load(fh)
    return [f for f in data.get('findings', []) if f['property'] == prop]


def is_known(known, res):
    for f in known:
        if f.get('cls') == res.get('cls') and f.get('sig') and f['sig'] == res.get('sig'):
            return f
    return None


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('VERIF_WORKERS', '0')) or None)
    ap.add_argument('--digest')
    ap.add_argument('--plan', type=int)
    ap.add_argument('--no-shrink', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--start', type=int, default=0)
    args = ap.parse_args(argv)
    prop = args.prop
    if prop not in PROPS:
        print('unknown property %s' % prop, file=sys.stderr)
        return 2
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    scratch = setup_scratch()
    try:
        return _main(args, prop, tier, seed)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _import(prop):
    try:
        import plasTeX
    except BaseException as e:
        print('cannot import plasTeX: %s' % short_tb(e), file=sys.stderr)
        raise SystemExit(2)
    f = os.path.abspath(plasTeX.__file__)
    if not f.startswith(REPO + os.sep):
        print('harness error: plasTeX imported from %s, not %s' % (f, REPO), file=sys.stderr)
        raise SystemExit(2)
    return importlib.import_module('sim.' + prop.lower())


def _main(args, prop, tier, seed):
    t0 = time.time()
    mod = _import(prop)
    known = load_known(prop)

    if args.replay:
        with open(args.replay) as fh:
            rep = json.load(fh)
        res = run_forked(mod, rep['plan'])
        print(json.dumps({k: res[k] for k in ('status', 'cls', 'msg', 'trace') if k in res}, indent=1))
        if res['status'] == 'violation':
            same = (res['cls'] == rep.get('cls') and res['trace'] == rep.get('trace'))
            print('reproduced exactly' if same else 'reproduced with a different trace')
            print('VIOLATION property=%s replay=%s' % (prop, args.replay))
            return 1
        return 0 if res['status'] == 'ok' else 2

    if args.plan is not None:
        plan = mod.gen(run_rng(seed, prop, args.plan), tier, args.plan)
        print(json.dumps(plan, indent=1))
        print(json.dumps(run_forked(mod, plan), indent=1))
        return 0

    nruns = args.runs or (mod.RUNS_THOROUGH if tier == 'thorough' else mod.RUNS_QUICK)
    nproc = args.workers or min(8, os.cpu_count() or 1)
    wall_cap = 660 if tier == 'quick' else 6 * 3600
    print('%s tier=%s seed=%d runs=%d workers=%d' % (prop, tier, seed, nruns, nproc), flush=True)

    # shared by the workers: lowest failing run index so far; number of hangs and deaths
    shared = mmap.mmap(-1, 16)
    shared[:8] = struct.pack('>Q', 1 << 62)
    results, bad = search(mod, prop, seed, tier, args.start, nruns, nproc, shared, known, t0 + wall_cap, {}, SUSPECTS)
    confirmed = None
    tried = set()
    for phase in range(2):
        # hangs/deaths in a batch are confirmed alone, in a fresh process
        if any(r['status'] == 'violation' and not is_known(known, r) for r in results.values()):
            break
        for i, r in [(i, r) for i, r in sorted(results.items()) if r['status'] in ('hang', 'died') and i not in tried][:3]:
            tried.add(i)
            r2 = run_forked(mod, mod.gen(run_rng(seed, prop, i), tier, i))
            if r2['status'] == 'violation' and not is_known(known, r2):
                confirmed = (i, r2)
                break
            results[i] = r2
        if confirmed or phase or struct.unpack('>Q', shared[8:])[0] < SUSPECTS:
            break
        # none was: the search goes on where it stopped
        results, b2 = search(mod, prop, seed, tier, args.start, nruns, nproc, shared, known, t0 + wall_cap, results, 1 << 30)
        bad += b2
    search_wall = time.time() - t0

    agg = Aggregate(results, seed, prop, mod, tier)
    violations = [(i, r) for i, r in sorted(results.items()) if r['status'] == 'violation']
    fresh = [(i, r) for i, r in violations if not is_known(known, r)]
    harness = [(i, r) for i, r in sorted(results.items()) if r['status'] == 'harness']

    if args.digest:
        with open(args.digest, 'w') as fh:
            for i, r in sorted(results.items()):
                fh.write('%d %s %s %s\n' % (i, r['status'], r.get('cls', ''), r['trace']))

    if confirmed and not fresh:
        fresh.append(confirmed)

    # known findings: re-demonstrate each listed one on this tree
    for f in known:
        if f.get('plan') is not None:
            r = run_forked(mod, f['plan'])
            if r['status'] == 'violation' and is_known([f], r):
                print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
            elif r['status'] == 'violation' and not fresh:
                fresh.append((-1, r))
                results[-1] = r

    rc = 0
    replay = None
    if fresh:
        i, r = fresh[0]
        if i >= 0:
            plan = mod.gen(run_rng(seed, prop, i), tier, i)
        else:
            plan = [f['plan'] for f in known if f.get('plan') is not None][0]
        replay, rr = report(mod, prop, seed, tier, i, plan, r, args.no_shrink)
        print('violation class=%s run=%d seed=%d\n%s' % (rr['cls'], i, seed, rr['msg']))
        print('VIOLATION property=%s replay=%s' % (prop, replay), flush=True)
        rc = 1
    elif harness or bad:
        for i, r in harness[:3]:
            print('HARNESS ERROR run=%d\n%s' % (i, r['msg']), file=sys.stderr)
        if bad:
            print('HARNESS ERROR: %d worker(s) failed' % bad, file=sys.stderr)
        rc = 2
    if not args.no_evidence:
        agg.write(t0, search_wall, len(fresh), nproc, replay, len(known), nruns)
    print('%s: %d runs, %d distinct non-trivial, %.1fs, exit %d' %
          (prop, len(results), agg.distinct, time.time() - t0, rc))
    return rc


SUSPECTS = 3


def search(mod, prop, seed, tier, start, nruns, nproc, shared, known, deadline, results, limit):
    """Runs start..start+nruns-1 except those in results, by nproc workers.  Stops early after
    `limit` hangs and deaths.  Returns results by index and the number of failed workers."""
    files = []
    pids = []
    done = set(results)
    for w in range(nproc):
        path = os.path.join(scratch_root(), 'res-%d' % w)
        files.append(path)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                idx = [i for i in range(start + w, start + nruns, nproc) if i not in done]
                _worker(mod, prop, seed, tier, idx, path, shared, known, deadline, limit)
            except BaseException:
                traceback.print_exc()
                code = 4
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids.append(pid)
    bad = 0
    for pid in pids:
        _, st = os.waitpid(pid, 0)
        if st:
            bad += 1
    results = dict(results)
    for path in files:
        if os.path.exists(path):
            with open(path) as fh:
                for line in fh:
                    i, r = json.loads(line)
                    results[i] = r
    return results, bad


def _worker(mod, prop, seed, tier, idx, path, shared, known, deadline, limit):
    out = open(path, 'w')
    if hasattr(mod, 'prepare'):
        mod.prepare(tier)
    step = max(mod.BATCH, 1)
    for p in range(0, len(idx), step):
        lowest, suspects = struct.unpack('>QQ', shared[:16])
        if time.time() > deadline or suspects >= limit:
            break
        chunk = [i for i in idx[p:p + step] if i < lowest]
        if not chunk:
            break
        plans = [(i, mod.gen(run_rng(seed, prop, i), tier, i)) for i in chunk]
        # a plan must survive JSON (that is what a replay file holds)
        plans = [(i, json.loads(json.dumps(pl))) for i, pl in plans]

        def on(key, res):
            low, n = struct.unpack('>QQ', shared[:16])
            if res['status'] == 'violation' and not is_known(known, res):
                if key < low:
                    shared[:8] = struct.pack('>Q', key)
            elif res['status'] in ('hang', 'died'):
                shared[8:16] = struct.pack('>Q', n + 1)
            out.write(json.dumps([key, res]) + '\n')
            out.flush()
            return res['status'] not in ('hang', 'died') or n + 1 < limit
        fork_batch(mod, plans, mod.TIMEOUT, on)
    out.close()


def report(mod, prop, seed, tier, i, plan, res, no_shrink):
    plan = json.loads(json.dumps(plan))
    best, tries = plan, 0
    if not no_shrink:
        best, tries = shrink(mod, plan, res['cls'], known=load_known(prop))
    rr = run_forked(mod, best)
    if rr['status'] != 'violation':
        best = plan
        rr = run_forked(mod, best)
    if rr['status'] != 'violation':
        rr = res
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-seed%d-run%d.json' % (prop, seed, i))
    with open(path, 'w') as fh:
        json.dump({'property': prop, 'seed': seed, 'tier': tier, 'run': i, 'cls': rr['cls'],
                   'msg': rr['msg'], 'trace': rr['trace'], 'shrink_tries': tries,
                   'plan': best}, fh, indent=1)
    return path, rr


class Aggregate:
    def __init__(self, results, seed, prop, mod, tier):
        self.results, self.seed, self.prop, self.mod, self.tier = results, seed, prop, mod, tier
        self.faults, self.probes = {}, {}
        states = set()
        traces = set()
        nontriv = set()
        self.simtime = 0.0
        self.steps = 0
        for i, r in results.items():
            for k, v in r['faults'].items():
                self.faults[k] = self.faults.get(k, 0) + v
            for k, v in r['probes'].items():
                self.probes[k] = self.probes.get(k, 0) + v
            states.update(r['states'])
            traces.add(r['trace'])
            if r['nontrivial']:
                nontriv.add(r['trace'])
            self.simtime += r['simtime']
            self.steps += r['steps']
        self.nstates, self.ntraces, self.distinct = len(states), len(traces), len(nontriv)

    def write(self, t0, search_wall, nviol, nproc, replay, nknown, nruns):
        mod = self.mod
        samples = []
        for i in sorted(self.results)[:3]:
            if i < 0:
                continue
            plan = mod.gen(run_rng(self.seed, self.prop, i), self.tier, i)
            s = json.dumps(plan)
            samples.append({'run': i, 'trace': self.results[i]['trace'][:16],
                            'plan': plan if len(s) < 6000 else s[:6000] + '...'})
        wall = time.time() - t0
        cov = {
            'evaluations': len(self.results),
            'distinct_nontrivial': self.distinct,
            'rule': mod.RULE,
            'samples': samples,
            'runs_requested': nruns,
            'runs_per_hour': int(len(self.results) / max(search_wall, 1e-6) * 3600),
            'seeds': 'run i uses PRNG sha256(VERIF_SEED/property/i), i = 0..%d' % (nruns - 1),
            'events_executed': self.steps,
            'simulated_time_s': round(self.simtime, 3),
            'simulated_time_note': getattr(mod, 'TIME_NOTE',
                                           'the code under test reads no clock on this path; '
                                           'time is counted in events'),
            'faults_fired': dict(sorted(self.faults.items())),
            'probes_hit': dict(sorted(self.probes.items())),
            'distinct_interleavings': self.ntraces,
            'distinct_states': self.nstates,
            'state_measure': mod.STATE_MEASURE,
            'components_real': mod.REAL,
            'components_stubbed': mod.STUB,
            'workers': nproc,
        }
        if replay:
            cov['replay'] = replay
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': mod.LEVEL,
              'coverage': cov, 'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall, 2),
              'violations': nviol}
        d = os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.%s.tmp' % self.prop)
        with open(tmp, 'w') as fh:
            json.dump(ev, fh, indent=1)
        os.replace(tmp, os.path.join(d, '%s.json' % self.prop))
