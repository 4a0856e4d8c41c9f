"""Exhaustive-exploration engine shared by all checks.

A check module (mc/props/cNN.py) provides
    ID, LEVEL, RULE, ASSUMPTIONS
    cases(tier)      -> generator of JSON-able cases, a deterministic and finite enumeration
    run(case, st)    -> executes the real code on one case, compares it with the reference
                        model, raises Fail(message) when the property does not hold
The engine enumerates every case (sharded over processes by index), never samples, measures
coverage, matches failures against known_findings.json and writes evidence and replay files.
"""
from __future__ import print_function
import hashlib
import importlib
import itertools
import json
import os
import resource
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CASE_TIMEOUT = 40.0
BUDGET = {'quick': 300.0, 'thorough': 840.0}
MEM_LIMIT = 3 << 30


class Fail(Exception):
    """the property does not hold on this case"""


class CaseTimeout(BaseException):
    pass


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(',', ':'), default=repr)


def digest(x):
    if not isinstance(x, str):
        x = canon(x)
    return hashlib.blake2b(x.encode('utf-8', 'surrogatepass'), digest_size=8).digest()


def short(x, n=600):
    s = x if isinstance(x, str) else canon(x)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


class Stats(object):
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.outcomes = set()
        self.extra = {}
        self.known = {}         # id -> entry of known_findings.json
        self.findings = set()

    def finding(self, fid, detail):
        """the observed behaviour is exactly the defect recorded under this id; anything not recorded is a violation"""
        if fid not in self.known:
            raise Fail(detail)
        self.findings.add(fid)
        self.count('known_finding_hits')

    def state(self, x):
        d = digest(x)
        new = d not in self.states
        self.states.add(d)
        return new

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, x):
        self.outcomes.add(digest(x))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n


def expect(cond, msg, *a):
    if not cond:
        raise Fail(msg % a if a else msg)


def expect_eq(got, want, what):
    """type-strict equality on JSON-like values"""
    if not same(got, want):
        raise Fail('%s:\n  expected %s\n  got      %s\n  at %s' %
                   (what, short(want), short(got), first_diff(got, want)))


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, dict):
        return isinstance(b, dict) and len(a) == len(b) and all(
            k in b and same(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def first_diff(a, b, at=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return '%s/%s missing' % (at, k)
            if k not in b:
                return '%s/%s unexpected' % (at, k)
            if not same(a[k], b[k]):
                return first_diff(a[k], b[k], '%s/%s' % (at, k))
    elif isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s length %d, expected %d' % (at, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return first_diff(x, y, '%s/%d' % (at, i))
    return '%s: %s, expected %s' % (at, short(a, 120), short(b, 120))


# --------------------------------------------------------------------------- running

def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case, st, tier='thorough'):
    """returns None or a failure message"""
    # processor time, so that a busy machine is no alarm; and a generous time on the clock for what waits
    limit = CASE_TIMEOUT * (1 if tier == 'quick' else 6)
    for sig, timer, seconds in ((signal.SIGPROF, signal.ITIMER_PROF, limit), (signal.SIGALRM, signal.ITIMER_REAL, 10 * limit)):
        signal.signal(sig, _alarm)
        signal.setitimer(timer, seconds)
    try:
        mod.run(case, st)
        return None
    except Fail as e:
        return str(e)
    except CaseTimeout:
        return 'did not terminate within %g s of processor time\n%s' % (limit, ''.join(traceback.format_exc(limit=-6)))
    except RecursionError:
        return 'unbounded recursion: ' + traceback.format_exc(limit=-4)
    except MemoryError:
        return 'out of memory (unbounded growth)'
    except Exception:
        return 'unexpected exception:\n' + traceback.format_exc(limit=-8)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def load_module(pid):
    return importlib.import_module('props.%s' % pid.lower())


def known_findings(pid):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid]


def open_findings(pid):
    return dict((k['id'], k) for k in known_findings(pid) if 'id' in k and k.get('status') != 'fixed')


def _worker(mod, tier, idx, n, deadline, shared_stop, known, out):
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    st = Stats()
    st.known = open_findings(mod.ID)
    fails, hits, samples = [], [], []
    capped = False
    i = -1
    try:
        for i, case in enumerate(mod.cases(tier)):
            if i % n != idx:
                continue
            if i > shared_stop.value:
                break
            if st.evaluations % 16 == 0 and time.time() > deadline:
                capped = True
                break
            st.evaluations += 1
            msg = run_case(mod, case, st, tier)
            if msg is not None:
                c = canon(case)
                if c in known:
                    hits.append(c)
                else:
                    fails.append((i, case, msg))
                    with shared_stop.get_lock():
                        if i < shared_stop.value:
                            shared_stop.value = i
            elif len(samples) < 1 and st.evaluations >= 3:
                samples.append(case)
        res = dict(states=list(st.states), transitions=st.transitions, traces=st.traces,
                   evaluations=st.evaluations, outcomes=list(st.outcomes), extra=st.extra,
                   fails=fails, hits=hits, findings=sorted(st.findings), samples=samples, capped=capped, error=None)
    except BaseException:
        res = dict(error=traceback.format_exc())
    import pickle
    with open(out, 'wb') as f:
        pickle.dump(res, f)


def execute(pid, tier, jobs):
    import multiprocessing as mp
    import pickle
    mod = load_module(pid)
    t0 = time.time()
    deadline = t0 + BUDGET[tier]
    known = dict((canon(k['case']), k) for k in known_findings(pid) if k.get('status') != 'fixed' and 'case' in k)
    ctx = mp.get_context('fork')
    stop = ctx.Value('q', 1 << 62)
    tmp = tempfile.mkdtemp(prefix='mc-')
    procs = []
    for i in range(jobs):
        out = os.path.join(tmp, 'w%d' % i)
        pr = ctx.Process(target=_worker, args=(mod, tier, i, jobs, deadline, stop, known, out))
        pr.start()
        procs.append((pr, out))
    total = Stats()
    fails, hits, samples, capped, errors = [], [], [], False, []
    for pr, out in procs:
        pr.join()
        try:
            with open(out, 'rb') as f:
                r = pickle.load(f)
        except Exception:
            errors.append('worker died with exit code %s' % pr.exitcode)
            continue
        finally:
            if os.path.exists(out):
                os.unlink(out)
        if r['error']:
            errors.append(r['error'])
            continue
        total.states.update(r['states'])
        total.outcomes.update(r['outcomes'])
        total.transitions += r['transitions']
        total.traces += r['traces']
        total.evaluations += r['evaluations']
        for k, v in r['extra'].items():
            total.count(k, v)
        fails += r['fails']
        hits += r['hits']
        total.findings.update(r['findings'])
        samples += r['samples']
        capped = capped or r['capped']
    os.rmdir(tmp)
    fails.sort(key=lambda f: f[0])
    return mod, total, fails, hits, samples, capped, errors, known, time.time() - t0


def write_evidence(pid, tier, mod, total, nfails, samples, capped, wall):
    cov = {'exhaustive': not capped and not nfails,
           'distinct_outcomes': len(total.outcomes),
           'samples': [json.loads(canon(s)) for s in samples[:5]] or ['(none)'],
           'bounds': getattr(mod, 'BOUNDS', {}).get(tier, '')}
    if mod.LEVEL == 'model_checking':
        cov.update(states=len(total.states), transitions=total.transitions,
                   traces_validated_against_impl=total.traces)
        cov['cases'] = total.evaluations
    else:
        cov.update(evaluations=total.evaluations, distinct_nontrivial=len(total.states))
    cov['rule'] = mod.RULE
    cov.update(total.extra)
    if capped:
        cov['note'] = 'time budget reached: enumeration is a prefix of the bounded space'
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': mod.LEVEL, 'coverage': cov, 'wall_s': round(wall, 3), 'violations': nfails,
          'assumptions': getattr(mod, 'ASSUMPTIONS', [])}
    d = os.path.join(HERE, 'evidence')
    if not os.path.isdir(d):
        os.makedirs(d)
    tmp = os.path.join(d, '.%s.tmp%d' % (pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    os.rename(tmp, os.path.join(d, '%s.json' % pid))
    return ev


def main(argv):
    for f in (sys.stdout, sys.stderr):
        f.reconfigure(errors='backslashreplace')
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--all', action='store_true', help='list every failing case instead of stopping')
    a = ap.parse_args(argv)
    pid = a.property
    if a.replay:
        with open(a.replay) as f:
            case = json.load(f)['case']
        mod = load_module(pid)
        st = Stats()
        st.known = open_findings(pid)
        msg = run_case(mod, case, st)
        print('case: %s' % short(case, 4000))
        if msg is None:
            print('property %s holds on this case' % pid)
            return 0
        print('property %s is violated on this case:\n%s' % (pid, msg))
        return 1
    if a.all:
        mod = load_module(pid)
        st, n, bad = Stats(), 0, 0
        st.known = open_findings(pid)
        for case in mod.cases(a.tier):
            n += 1
            msg = run_case(mod, case, st, a.tier)
            if msg:
                bad += 1
                print('--- %s\n%s' % (short(case, 1000), msg))
        print('%d cases, %d failing' % (n, bad))
        return 0
    mod, total, fails, hits, samples, capped, errors, known, wall = execute(pid, a.tier, a.jobs)
    write_evidence(pid, a.tier, mod, total, len(fails), samples, capped, wall)
    for c in sorted(set(hits)):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[c]['what']))
    for k in known_findings(pid):
        if k.get('id') in total.findings:
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, k['id'], k['what']))
    if errors and not fails:
        print('check error:\n' + '\n'.join(errors[:3]), file=sys.stderr)
        return 2
    print('%s %s: cases=%d states=%d transitions=%d traces=%d outcomes=%d %s wall=%.1fs%s' %
          (pid, a.tier, total.evaluations, len(total.states), total.transitions, total.traces,
           len(total.outcomes), canon(total.extra), wall, ' (time budget reached)' if capped else ''))
    if fails:
        i, case, msg = fails[0]
        d = os.path.join(HERE, 'replays')
        if not os.path.isdir(d):
            os.makedirs(d)
        path = os.path.join(d, '%s.json' % pid)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'case': case, 'message': msg,
                       'how': 'python mc/run.py %s --replay %s' % (pid, path)}, f, indent=1)
        print('case #%d: %s' % (i, short(case, 2000)))
        print(msg)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if not total.evaluations:
        print('check error: nothing was explored', file=sys.stderr)
        return 2
    return 0
