"""Check runner: cases, workers, verdicts, evidence, replay.

A check module defines
    PROPERTY   id
    RULE       text for the evidence file
    SCENARIOS  [Scenario(fn, quick=<cases>, thorough=<cases>)]
    REQUIRED   {counter: minimum}   below it, the run is inconclusive (exit 3)
A scenario function is called as fn(ctx, rng, tier) once per case. It reports
through ctx; ctx.violation() ends the case.
"""
import argparse
import collections
import contextlib
import faulthandler
import hashlib
import importlib
import json
import os
import pickle
import random
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
CASE_CPU_SECONDS = 90
CASE_WALL_SECONDS = 150         # a case that waits for something that never comes
FAIL_MAX = 1 if os.environ.get('VF_FAILFAST') else 8


class Violation(Exception):
    def __init__(self, key, msg, details=None):
        super().__init__(msg)
        self.key, self.msg, self.details = key, msg, details or {}


class Inconclusive(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class CaseHang(CaseTimeout):
    pass


class Scenario:
    def __init__(self, fn, quick, thorough, name=None, required=None):
        self.fn, self.quick, self.thorough = fn, quick, thorough
        self.name = name or fn.__name__
        self.required = required or {}

    def cases(self, tier):
        return self.thorough if tier == 'thorough' else self.quick


class Ctx:
    def __init__(self, prop, tier, scratch):
        self.prop, self.tier, self.root = prop, tier, scratch
        self.counters = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.scenario = None
        self.index = None
        self._n = 0

    # --- observation
    def count(self, name, n=1):
        self.counters[name] += n

    def nontrivial(self, *key):
        """Record the signature of a non-trivial case"""
        h = hashlib.blake2b(repr((self.scenario,) + key).encode('utf-8', 'surrogatepass'), digest_size=8).digest()
        self.distinct.add(h)
        if len(self.samples) < 2:
            self.sample({'signature': key})

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append({'scenario': self.scenario, 'case': self.index, 'data': _jsonable(obj)})

    # --- verdicts
    def violation(self, key, msg, **details):
        raise Violation(key, msg, details)

    def check(self, cond, key, msg, **details):
        if not cond:
            raise Violation(key, msg, details)

    def equal(self, got, exp, key, msg, **details):
        if got != exp:
            details.update(got=_clip(got), expected=_clip(exp))
            raise Violation(key, f"{msg}: got {_clip(got, 300)}, expected {_clip(exp, 300)}", details)

    @contextlib.contextmanager
    def raises(self, exc, key, msg):
        """The code inside must end with one of the given exceptions"""
        try:
            yield
        except exc:
            return
        raise Violation(key, msg, {})

    # --- scratch
    def dir(self, name='d'):
        self._n += 1
        p = os.path.join(self.case_dir, f"{name}{self._n}")
        os.makedirs(p)
        return p

    @property
    def case_dir(self):
        p = os.path.join(self.root, 'case')
        os.makedirs(p, exist_ok=True)
        return p

    def clean(self):
        p = os.path.join(self.root, 'case')
        if os.path.lexists(p):
            shutil.rmtree(p, ignore_errors=True)
        self._n = 0


def _clip(o, n=2000):
    s = o if isinstance(o, str) else repr(o)
    return s if len(s) <= n else s[:n] + f'... ({len(s)} chars)'


def _jsonable(o, depth=0):
    if isinstance(o, (str, int, float, bool)) or o is None:
        if isinstance(o, str):
            return _clip(o, 1500).encode('utf-8', 'replace').decode()
        return o
    if isinstance(o, bytes):
        return o[:120].hex() + ('...' if len(o) > 120 else '')
    if depth > 5:
        return _clip(o, 300)
    if isinstance(o, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in list(o.items())[:40]}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [_jsonable(v, depth + 1) for v in list(o)[:40]]
    return _clip(repr(o), 300)


def case_rng(seed, prop, scenario, index):
    h = hashlib.sha256(f"{seed}/{prop}/{scenario}/{index}".encode()).digest()
    return random.Random(int.from_bytes(h, 'big'))


def in_repo(tb):
    """Does the traceback end in, or go through, the code under test?"""
    base = os.path.realpath(os.path.join(REPO, 'cdtb')) + os.sep
    hit = False
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(base):
            hit = True
        tb = tb.tb_next
    return hit


def exc_site(e):
    """Mechanism key of an exception raised by the code under test"""
    base = os.path.realpath(os.path.join(REPO, 'cdtb')) + os.sep
    name = '?'
    for fs, _ in traceback.walk_tb(e.__traceback__):
        f = os.path.realpath(fs.f_code.co_filename)
        if f.startswith(base):
            name = f"{os.path.basename(f)}:{fs.f_code.co_name}"
    return f"{type(e).__name__}@{name}"


def _on_cpu_limit(signum, frame):
    raise CaseTimeout(f"case used more than {CASE_CPU_SECONDS} CPU seconds (normal: below 5)")


def _on_wall_limit(signum, frame):
    faulthandler.dump_traceback(all_threads=True)
    raise CaseHang(f"case did not end within {CASE_WALL_SECONDS} seconds (normal: below 5), using {time.process_time() - _case_start[0]:.1f} CPU seconds")


_case_start = [0]


def run_case(ctx, scen, seed, index):
    """Returns None, or a dict describing a violation / error"""
    r = _run_case(ctx, scen, seed, index)
    if r is not None and r.get('hang'):
        # waiting for something that never comes: report it only when it happens again (the machine may have stalled)
        print("HANG, retrying", r['msg'], r.get('trace'), file=sys.stderr, flush=True)
        ctx.counters['hang_retries'] += 1
        r = _run_case(ctx, scen, seed, index)
    return r


def _run_case(ctx, scen, seed, index):
    ctx.scenario, ctx.index = scen.name, index
    rng = case_rng(seed, ctx.prop, scen.name, index)
    rec = {'property': ctx.prop, 'scenario': scen.name, 'case': index, 'seed': seed, 'tier': ctx.tier}
    ctx.counters['cases:' + scen.name] += 1
    signal.signal(signal.SIGPROF, _on_cpu_limit)
    signal.signal(signal.SIGALRM, _on_wall_limit)
    _case_start[0] = time.process_time()
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
    signal.alarm(CASE_WALL_SECONDS)
    try:
        scen.fn(ctx, rng, ctx.tier)
        return None
    except Violation as v:
        return {**rec, 'status': 'violation', 'key': v.key, 'msg': v.msg, 'details': _jsonable(v.details), 'trace': traceback.format_exc(limit=8)}
    except CaseTimeout as e:
        return {**rec, 'status': 'violation', 'key': 'no-termination', 'msg': str(e), 'details': {}, 'hang': isinstance(e, CaseHang), 'trace': traceback.format_exc(limit=12)}
    except Inconclusive as e:
        return {**rec, 'status': 'inconclusive', 'key': 'inconclusive', 'msg': str(e), 'details': {}}
    except BaseException as e:
        if in_repo(e.__traceback__):
            return {**rec, 'status': 'violation', 'key': 'unexpected-' + exc_site(e), 'msg': f"unexpected {type(e).__name__}: {_clip(str(e), 300)}", 'details': {}, 'trace': traceback.format_exc(limit=-14)}
        if type(e).__name__ == 'Refused':
            return {**rec, 'status': 'violation', 'key': 'refused', 'msg': f"a valid command line is refused: {_clip(str(e), 300)}", 'details': {}, 'trace': traceback.format_exc(limit=-8)}
        if isinstance(e, AttributeError) and str(e).startswith("'NoneType'") or isinstance(e, (FileNotFoundError, NotADirectoryError, IsADirectoryError)) and str(e.filename or '').startswith(ctx.root):
            # a result or an output file that is not there
            return {**rec, 'status': 'violation', 'key': 'missing-result', 'msg': f"the result is not there: {type(e).__name__}: {_clip(str(e), 300)}", 'details': {}, 'trace': traceback.format_exc(limit=-8)}
        if isinstance(e, (TypeError, KeyError, IndexError, ValueError, struct.error)):
            # the oracle could not even read what the code under test produced
            return {**rec, 'status': 'violation', 'key': 'malformed-result', 'msg': f"the result cannot be interpreted: {type(e).__name__}: {_clip(str(e), 300)}", 'details': {}, 'trace': traceback.format_exc(limit=-8)}
        return {**rec, 'status': 'error', 'key': 'harness', 'msg': f"{type(e).__name__}: {e}", 'details': {}, 'trace': traceback.format_exc()}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        try:
            ctx.clean()
        except CaseTimeout:
            pass


class Coverage:
    """Lines of the code under test reached by this run (sys.monitoring)"""
    TOOL = 3

    def __init__(self):
        self.lines = set()

    def start(self):
        mon = sys.monitoring
        base = os.path.realpath(os.path.join(REPO, 'cdtb')) + os.sep
        known = {}
        try:
            mon.use_tool_id(self.TOOL, 'vf')
        except ValueError:
            return
        def line(code, lineno):
            fn = code.co_filename
            if fn not in known:
                r = os.path.realpath(fn)
                known[fn] = r[len(base):] if r.startswith(base) else None
            if known[fn]:
                self.lines.add((known[fn], lineno))
            return mon.DISABLE
        mon.register_callback(self.TOOL, mon.events.LINE, line)
        mon.set_events(self.TOOL, mon.events.LINE)


def make_scratch():
    for base in ('/dev/shm', None):
        try:
            return os.path.realpath(tempfile.mkdtemp(prefix='vf-', dir=base))
        except OSError:
            continue
    raise RuntimeError("no scratch directory")


def _worker(prop, tier, seed, module, jobs, root, wid, out, want_cov, t_end):
    from . import fsguard, env
    os.makedirs(root, exist_ok=True)
    os.chdir(root)
    os.environ['TMPDIR'] = root
    tempfile.tempdir = root
    fsguard.install([root])
    env.setup(root)
    mod = importlib.import_module(module)
    scens = {s.name: s for s in mod.SCENARIOS}
    ctx = Ctx(prop, tier, root)
    if hasattr(mod, 'worker_init'):
        mod.worker_init(ctx)
    cov = Coverage()
    if want_cov:
        cov.start()
    results, done = [], 0
    stopped = False
    for name, index in jobs:
        if time.monotonic() > t_end:
            stopped = True
            break
        r = run_case(ctx, scens[name], seed, index)
        done += 1
        if r is not None:
            results.append(r)
            if r.get('hang') or sum(1 for x in results if x['status'] == 'violation') >= FAIL_MAX:
                break
    with open(out + '.tmp', 'wb') as f:
        pickle.dump({'results': results, 'done': done, 'stopped': stopped, 'counters': ctx.counters,
                     'distinct': ctx.distinct, 'samples': ctx.samples, 'lines': cov.lines}, f)
    os.replace(out + '.tmp', out)


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get('findings', []) if k['property'] == prop and k.get('status', 'open') == 'open']


# quick runs explore this many times the number of cases of the scenarios, so that they take about 10 s on 8 cores
# (the thresholds of REQUIRED are for a single time)
QUICK_SCALE = dict(C03=5, C05=6, C07=4, C09=6, C10=2.5, C12=1.6, C13=1.5, C19=2.5, C20=5, C21=2, C30=4, C31=2, C32=4, C33=6, C38=1.3, C40=5)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--scenario')
    ap.add_argument('--case', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=int(os.environ.get('VF_WORKERS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--scale', type=float, default=1.0)
    args = ap.parse_args(argv)
    faulthandler.enable()
    t0 = time.monotonic()
    prop = args.property
    module = f"checks.{prop.lower()}"
    sys.path.insert(0, VERIF)
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        args.scenario, args.case, args.seed, tier = rep['scenario'], rep['case'], rep['seed'], rep['tier']
    wall = 14 * 60 if tier == 'quick' else 50 * 60
    wall = float(os.environ.get('VF_WALL', wall - 60))

    scratch = make_scratch()
    code = 2
    try:
        code = _run(args, prop, module, tier, scratch, t0, wall)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def _run(args, prop, module, tier, scratch, t0, wall):
    from . import env
    env.setup(os.path.join(scratch, 'main'))
    mod = importlib.import_module(module)
    scens = mod.SCENARIOS
    jobs = []
    for s in scens:
        if args.scenario and s.name != args.scenario:
            continue
        scale = args.scale * (QUICK_SCALE.get(prop, 8) if tier == 'quick' else 1)
        n = max(1, int(s.cases(tier) * scale)) if s.cases(tier) else 0
        idx = [args.case] if args.case is not None else range(n)
        jobs += [(s.name, i) for i in idx]
    # interleave so that each worker sees every scenario
    random.Random(0).shuffle(jobs)
    nw = max(1, min(args.workers, len(jobs)))
    t_end = time.monotonic() + wall
    pids, outs = {}, []
    for w in range(nw):
        out = os.path.join(scratch, f'out{w}')
        outs.append(out)
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                os.setpgid(0, 0)
                log = os.open(os.path.join(scratch, f'log{w}'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                if args.case is None:
                    os.dup2(log, 1); os.dup2(log, 2)
                faulthandler.enable(file=sys.stderr)
                # `out` must be writable for the guard
                root = os.path.join(scratch, f'w{w}')
                _worker(prop, tier, args.seed, module, jobs[w::nw], root, w, os.path.join(root, 'out.pickle'), True, t_end)
                rc = 0
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
            finally:
                try:
                    sys.stdout.flush(); sys.stderr.flush()
                except Exception:
                    pass
                os._exit(rc)
        pids[pid] = w
        outs[w] = os.path.join(scratch, f'w{w}', 'out.pickle')
    status = {}
    hard_end = t_end + 45
    while pids:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.monotonic() > hard_end:
                for p in list(pids):
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        pass
                hard_end += 3600
            time.sleep(0.02)
            continue
        if pid in pids:
            status[pids.pop(pid)] = st
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass

    counters, distinct, samples, results, lines = collections.Counter(), set(), [], [], set()
    done, dead, stopped = 0, [], False
    for w in range(nw):
        try:
            with open(outs[w], 'rb') as f:
                d = pickle.load(f)
        except (OSError, EOFError, pickle.UnpicklingError):
            try:
                with open(os.path.join(scratch, f'log{w}')) as f:
                    tail = f.read()[-3000:]
            except OSError:
                tail = ''
            dead.append((w, status.get(w), tail))
            continue
        counters += d['counters']; distinct |= d['distinct']; samples += d['samples']
        results += d['results']; lines |= d['lines']; done += d['done']; stopped |= d['stopped']

    violations = [r for r in results if r['status'] == 'violation']
    errors = [r for r in results if r['status'] == 'error']
    inconcl = [r for r in results if r['status'] == 'inconclusive']

    known = known_findings(prop)
    known_hit, fresh = {}, []
    for v in violations:
        for k in known:
            if v['key'] == k['key']:
                known_hit.setdefault(k['key'], []).append(v)
                break
        else:
            fresh.append(v)
    for k in known:
        # every listed finding is reported, observed again on this run or not
        n = len(known_hit.get(k['key'], []))
        print(f"KNOWN-FINDING: property={prop} {k['what']} (observed {n} times in this run)")

    code = 0
    if fresh:
        code = 1
        seen = {}
        for v in sorted(fresh, key=lambda v: (v['key'], v['scenario'], v['case'])):
            seen.setdefault(v['key'], v)
        rdir = os.path.join(os.environ.get('VF_OUT', VERIF), 'replays')
        os.makedirs(rdir, exist_ok=True)
        for key, v in list(seen.items())[:10]:
            tag = hashlib.sha1(f"{key}/{v['scenario']}/{v['case']}/{v['seed']}".encode()).hexdigest()[:10]
            path = os.path.join(rdir, f"{prop}-{tag}.json")
            v['how_to_replay'] = f"cd /verif && ./check {prop} --replay {path}"
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  [{v['scenario']}#{v['case']}] {key}: {_clip(v['msg'], 600)}")
            if args.case is not None:
                print(v.get('trace', ''))
    else:
        missing = {}
        if args.scenario is None and args.case is None:
            req = dict(getattr(mod, 'REQUIRED', {}))
            for name, minimum in req.items():
                if counters[name] < minimum:
                    missing[name] = (counters[name], minimum)
        if errors or dead:
            code = 2
            for e in errors[:3]:
                print(f"HARNESS-ERROR [{e['scenario']}#{e['case']}] {e['msg']}\n{e.get('trace','')}")
            for w, st, tail in dead[:2]:
                print(f"WORKER-DIED {w} status={st}\n{tail}")
        elif inconcl or missing:
            code = 3
            for e in inconcl[:3]:
                print(f"INCONCLUSIVE [{e['scenario']}#{e['case']}] {e['msg']}")
            for name, (got, exp) in missing.items():
                print(f"INCONCLUSIVE monitor under-exercised: {name} = {got} < {exp}")

    wall_s = time.monotonic() - t0
    per_file = collections.Counter(f for f, _ in lines)
    ev = {
        'property': prop, 'tier': tier, 'seed': args.seed,
        'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': done,
            'distinct_nontrivial': len(distinct),
            'rule': mod.RULE,
            'samples': samples[:6] or [{'note': 'no sample recorded'}],
            'observed': {k: v for k, v in sorted(counters.items())},
            'code_lines_reached': dict(sorted(per_file.items())),
            'stopped_early': stopped,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall_s, 2),
        'violations': len(fresh),
    }
    if args.case is None and args.scenario is None:
        edir = os.path.join(os.environ.get('VF_OUT', VERIF), 'evidence')
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{prop} {tier} seed={args.seed}: {done} cases, {len(distinct)} distinct non-trivial, {len(fresh)} violations, exit {code}, {wall_s:.1f}s")
    if os.environ.get('VF_DUMP_LINES'):
        with open(os.environ['VF_DUMP_LINES'], 'wb') as f:
            pickle.dump(lines, f)
    return code
