"""Shared engine: bounded-exhaustive exploration of the real galgebra code.

A check is a list of *jobs*.  A job enumerates completely one slice of the
bounded space (for example: one metric x all pairs of operands x all
operators), drives the real code in /repo, and compares every step with a
reference model.  Each job runs in its own forked process, so no job sees
global state left by another one and every run is deterministic.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
REPLAY_DIR = os.path.join(VERIF, 'replay')
EVID_DIR = os.path.join(VERIF, 'evidence')

MAX_FAILS_PER_JOB = 6
MAX_FAILS_TOTAL = 40


def h64(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), 'big')


class StopJob(Exception):
    pass


class Ctx:
    """What a job sees: counters, the state set and the failure channel."""

    def __init__(self, prop, tier, known):
        self.prop, self.tier = prop, tier
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.fails = []          # (key, message)
        self.known_hits = []
        self._known = known
        self.where = ''

    # -- coverage
    def state(self, key):
        self.states.add(h64(key))

    def outcome(self, key):
        self.outcomes.add(h64(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(str(text)[:400])

    # -- verdicts
    def fail(self, key, msg):
        key = str(key)
        if key in self._known:
            if key not in self.known_hits:
                self.known_hits.append(key)
            return
        self.fails.append((key, str(msg)[:3000]))
        if len(self.fails) >= MAX_FAILS_PER_JOB:
            raise StopJob()

    def check(self, cond, key, msg=''):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def guard(self, key, fn, *a, **k):
        """Run fn; an exception is a failure under `key`. Returns (ok, value)."""
        try:
            return True, fn(*a, **k)
        except StopJob:
            raise
        except Exception as e:      # the code under test must not raise here
            tb = traceback.extract_tb(e.__traceback__)
            loc = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-3:][::-1])
            self.fail(key, 'raised %s: %s  at %s' % (type(e).__name__, e, loc))
            return False, None

    def raises(self, key, exc, fn, what):
        try:
            r = fn()
        except exc:
            return True
        except StopJob:
            raise
        except Exception as e:
            self.fail(key, '%s: expected %s, got %s: %s' % (what, getattr(exc, '__name__', exc), type(e).__name__, e))
            return False
        self.fail(key, '%s: expected %s, but it returned %r' % (what, getattr(exc, '__name__', exc), r))
        return False


def load_known(prop):
    """{key: text} of the findings recorded (not repaired) for this property.

    Line format:  known: property=<id> key=<key> :: <what fails>
    Lines starting with `fixed:` suppress nothing.
    """
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.rstrip('\n')
            if line.startswith('known: property=%s key=' % prop):
                rest = line.split('key=', 1)[1]
                key, _, text = rest.partition(' :: ')
                out[key.strip()] = text.strip()
    return out


def _child(conn, prop, tier, known, job):
    try:
        # anything the code under test prints must not reach our stdout
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get('VF_STDERR'):
            os.dup2(devnull, 2)
        ctx = Ctx(prop, tier, known)
        mod = importlib.import_module('vf.checks.' + job['mod'])
        err = None
        try:
            getattr(mod, job['fn'])(ctx, **job['kw'])
        except StopJob:
            pass
        except Exception as e:
            # The harness only calls the code under test with inputs on which the
            # property requires an answer, so an escaped exception is a failure.
            tb = traceback.format_exc(limit=-6)
            try:
                ctx.fail('exception:%s:%s' % (job['fn'], type(e).__name__), ctx.where + ' ' + tb)
            except StopJob:
                pass
        conn.send(dict(states=ctx.states, outcomes=ctx.outcomes, transitions=ctx.transitions,
                       traces=ctx.traces, samples=ctx.samples, fails=ctx.fails,
                       known_hits=ctx.known_hits, err=err))
        conn.close()
    except BaseException:
        traceback.print_exc()
        os._exit(17)
    os._exit(0)


def run_jobs(prop, tier, jobs, known, nproc=8, job_timeout=400, verbose=False):
    mpc = mp.get_context('fork')
    pending = list(enumerate(jobs))
    pending.reverse()
    running = {}
    results = [None] * len(jobs)
    nfail = 0
    t0 = time.time()
    retried = set()
    while pending or running:
        while pending and len(running) < nproc and nfail < MAX_FAILS_TOTAL:
            i, job = pending.pop()
            r, w = mpc.Pipe(duplex=False)
            p = mpc.Process(target=_child, args=(w, prop, tier, known, job))
            p.start()
            w.close()
            running[i] = (p, r, time.time())
        if nfail >= MAX_FAILS_TOTAL:
            for p, r, _ in running.values():
                p.kill()
                p.join()
            break
        done = mp.connection.wait([r for _, r, _ in running.values()], timeout=1.0)
        for i in list(running):
            p, r, ts = running[i]
            if r in done:
                try:
                    res = r.recv()
                except EOFError:
                    p.join()
                    if i not in retried:       # e.g. ended for memory: once more
                        retried.add(i)
                        pending.append((i, jobs[i]))
                        del running[i]
                        continue
                    res = dict(states=set(), outcomes=set(), transitions=0, traces=0, samples=[],
                               fails=[('died:%s' % jobs[i]['fn'], 'worker process died twice (exit %s)' % p.exitcode)],
                               known_hits=[], err=None)
                p.join()
                res['wall'] = time.time() - ts
                results[i] = res
                nfail += len(res['fails'])
                del running[i]
                if verbose:
                    print('  job %d %s %s: %.1fs trans=%d states=%d fails=%d' % (
                        i, jobs[i]['fn'], json.dumps(jobs[i]['kw'])[:90], res['wall'],
                        res['transitions'], len(res['states']), len(res['fails'])), file=sys.stderr, flush=True)
                    for k, m in res['fails']:
                        print('     FAIL', k, '|', m[:700], file=sys.stderr, flush=True)
            elif time.time() - ts > job_timeout:
                p.kill()
                p.join()
                del running[i]
                results[i] = dict(states=set(), outcomes=set(), transitions=0, traces=0, samples=[],
                                  fails=[('timeout:%s' % jobs[i]['fn'],
                                          'no answer within %d s; the unchanged tree needs a small fraction of it' % job_timeout)],
                                  known_hits=[], err=None, wall=job_timeout)
                nfail += MAX_FAILS_TOTAL      # no point in waiting for more of these
    return results, time.time() - t0


def main(prop, tier, replay=None, verbose=False, only=None):
    known = load_known(prop)
    mod = importlib.import_module('vf.checks.' + prop.lower())
    if replay:
        rep = json.load(open(replay))
        jobs = [rep['job']]
        print('replaying', json.dumps(jobs[0]))
        verbose = True
    else:
        jobs = mod.jobs(tier)
        for j in jobs:
            j.setdefault('mod', prop.lower())
    if only:
        jobs = [j for j in jobs if only in json.dumps(j)]
    timeout = 420 if tier == 'quick' else 3600
    # one execution is replayed twice before anything is believed: the first job
    # runs again at the end and must visit the same states and outcomes
    results, wall = run_jobs(prop, tier, jobs, known, job_timeout=timeout, verbose=verbose)
    again, _ = ([None], 0)
    if not replay and jobs and results[0] is not None:
        again, _ = run_jobs(prop, tier, jobs[:1], known, job_timeout=timeout)
    states, outcomes = set(), set()
    transitions = traces = 0
    samples, fails, hits = [], [], []
    for job, res in zip(jobs, results):
        if res is None:
            continue
        states |= res['states']
        outcomes |= res['outcomes']
        transitions += res['transitions']
        traces += res['traces']
        if len(samples) < 12:
            samples += res['samples'][:1]
        for k, m in res['fails']:
            fails.append((job, k, m))
        for k in res['known_hits']:
            if k not in hits:
                hits.append(k)
    deterministic = True
    if again[0] is not None and results[0] is not None and not results[0]['fails']:
        deterministic = (again[0]['states'] == results[0]['states'] and again[0]['outcomes'] == results[0]['outcomes']
                         and again[0]['transitions'] == results[0]['transitions'])
        if not deterministic:
            print('note: replaying the first job visited different states')
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
              coverage=dict(states=len(states), transitions=transitions, traces_validated_against_impl=traces,
                            distinct_outcomes=len(outcomes), jobs=len(jobs), jobs_completed=sum(r is not None for r in results),
                            samples=samples or ['(none)'],
                            exhaustive=all(r is not None and not r['fails'] for r in results) and not only and not replay,
                            replay_of_first_job_identical=deterministic,
                            bounds=getattr(mod, 'BOUNDS', '')),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', ['sympy is trusted as the coefficient arithmetic substrate'])),
              wall_s=round(wall, 2), violations=len(fails))
    if not replay and not only:
        os.makedirs(EVID_DIR, exist_ok=True)
        tmp = os.path.join(EVID_DIR, '.%s.tmp' % prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID_DIR, prop + '.json'))
    for k in hits:
        print('KNOWN-FINDING: property=%s %s :: %s' % (prop, k, known[k]))
    print('%s tier=%s jobs=%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs' % (
        prop, tier, len(jobs), len(states), transitions, traces, len(outcomes), wall))
    if fails:
        os.makedirs(REPLAY_DIR, exist_ok=True)
        seen = set()
        for n, (job, k, m) in enumerate(fails[:20]):
            if k in seen:
                continue
            seen.add(k)
            path = os.path.join(REPLAY_DIR, '%s-%d.json' % (prop, n))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, key=k, message=m, job=job,
                               how='bash /verif/check.sh %s --replay %s' % (prop, path)), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('   ', k, '|', m[:1500].replace('\n', '\n    '))
        return 1
    if not replay and transitions == 0:
        print('VIOLATION property=%s replay=%s' % (prop, 'nothing-was-explored'))
        return 1
    return 0
