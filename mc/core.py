"""Runner for bounded-exhaustive explicit-state checks.

A check module (mc/checks/cNN.py) offers

    PROPERTY = 'C02'
    LEVEL    = 'model_checking'
    BOUNDS   = {'quick': '...', 'thorough': '...'}      text for the evidence file
    FAMILIES = [Family(...), ...]

A family enumerates *cases* (small tuples built from literals and terms, see mc/terms.py) in a fixed
order, simplest first, and runs each of them on the real code, comparing every step with the
reference model.  The runner forks workers, worker k takes the cases with index % workers == k, so
every case is executed exactly once per run: nothing is sampled.  A deviation becomes a replayable
artefact (JSON: family + case) and a VIOLATION line.
"""
import array
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# One case takes milliseconds, the slowest a few seconds; one that takes this long does not terminate. It is the
# processor time that counts, so that a busy machine is not mistaken for one; the wall time is for a case that blocks.
CASE_CPU = 150
CASE_WALL = 500
MAX_FAILS_PER_WORKER = 3


class CaseTimeout(BaseException):
    pass


class Family:
    """One enumerated family of cases.

    gen(tier) yields cases; run(case, ctx) executes one case and calls ctx.fail(...) on a deviation.
    """
    def __init__(self, name, gen, run, setup=None, block=1, isolate=False, doc=''):
        self.name, self.gen, self.run, self.setup = name, gen, run, setup
        self.block, self.isolate, self.doc = block, isolate, doc


class Ctx:
    """Collects what a worker covered."""
    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.slowest = 0.0      # seconds of processor time
        self.outcomes = {}
        self.fails = []
        self.samples = []
        self._case = None
        self._family = None
        self.stuck = False      # a case did not terminate

    def state(self, key):
        """Count the state ``key`` (anything hashable or a str) as visited."""
        self.states.add(hash(key))

    def step(self, n=1):
        """Count ``n`` transitions, each executed on the implementation and judged."""
        self.transitions += n

    def trace(self, n=1):
        """Count ``n`` complete model traces replayed on the implementation."""
        self.traces += n

    def outcome(self, key):
        """Count a distinct observed outcome (guards against vacuous exploration)."""
        self.outcomes[key] = self.outcomes.get(key, 0) + 1

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def fail(self, message, **info):
        """Record a violation of the property in the current case."""
        if len(self.fails) < MAX_FAILS_PER_WORKER:
            self.fails.append({'family': self._family, 'case': self._case, 'message': str(message)[:4000],
                               'info': {k: str(v)[:4000] for k, v in info.items()}})
        raise Violation(message)


class Violation(Exception):
    """Ends the current case after its deviation has been recorded."""


def _on_alarm(_sig, _frame):
    raise CaseTimeout()


def run_one(family, case, ctx, index=None):
    ctx._family, ctx._case = family.name, (index, case)
    ctx.cases += 1
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
    signal.alarm(CASE_WALL)
    t0 = time.process_time()
    try:
        family.run(case, ctx)
    except Violation:
        pass
    except CaseTimeout:
        try:
            ctx.fail('the operation did not terminate within {} s'.format(CASE_CPU))
        except Violation:
            pass
        ctx.stuck = True
    except Exception:  # an exception nobody expected: the code under test raised it.
        text = traceback.format_exc()
        try:
            ctx.fail('unexpected exception: ' + text.strip().splitlines()[-1], traceback=text)
        except Violation:
            pass
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        ctx.slowest = max(ctx.slowest, time.process_time() - t0)


def _worker(module, families, k, n, tier, seed, conn, enough):
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGPROF, _on_alarm)
    ctx = Ctx(tier, seed)
    try:
        per_family = {}
        for fam in families:
            t0, c0 = time.time(), ctx.cases
            ctx.slowest = 0.0
            if fam.setup:
                fam.setup(tier)
            for index, case in enumerate(fam.gen(tier)):
                if (index // fam.block) % n != k:
                    continue
                run_one(fam, case, ctx, index)
                if ctx.stuck or len(ctx.fails) >= MAX_FAILS_PER_WORKER:
                    enough.value = 1        # the others need not go on
                if enough.value:
                    break
            per_family[fam.name] = (ctx.cases - c0, round(time.time() - t0, 2), round(ctx.slowest, 2))
            if enough.value:
                break
        arr = array.array('q', list(ctx.states))
        conn.send({'ok': True, 'states': arr.tobytes(), 'transitions': ctx.transitions,
                   'traces': ctx.traces, 'cases': ctx.cases, 'outcomes': list(ctx.outcomes.items())[:20000],
                   'fails': [(f['family'], f['case'][0], repr(f['case'][1]), f['message'], f['info'])
                             for f in ctx.fails],
                   'samples': [repr(s)[:600] for s in ctx.samples], 'families': per_family})
    except BaseException:
        conn.send({'ok': False, 'error': traceback.format_exc()})
    finally:
        conn.close()


def run_check(module, tier, seed, only_family=None):
    t0 = time.time()
    families = [f for f in module.FAMILIES if only_family in (None, f.name)]
    n = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    mp = multiprocessing.get_context('fork')
    enough = mp.Value('b', 0, lock=False)
    procs = []
    for k in range(n):
        recv, send = mp.Pipe(False)
        p = mp.Process(target=_worker, args=(module, families, k, n, tier, seed, send, enough))
        p.start()
        send.close()
        procs.append((p, recv))
    results = []
    for p, recv in procs:
        try:
            results.append(recv.recv())
        except EOFError:
            results.append({'ok': False, 'error': 'worker died'})
        p.join()
    errors = [r['error'] for r in results if not r['ok']]
    if errors:
        sys.stdout.write('CHECK ERROR\n' + errors[0] + '\n')
        return 2
    states = set()
    outcomes = {}
    fam_counts = {}
    for r in results:
        arr = array.array('q')
        arr.frombytes(r['states'])
        states.update(arr)
        for key, cnt in r['outcomes']:
            outcomes[key] = outcomes.get(key, 0) + cnt
        for name, (cnt, secs, slow) in r['families'].items():
            c, s, w = fam_counts.get(name, (0, 0, 0))
            fam_counts[name] = (c + cnt, max(s, secs), max(w, slow))
    fails = sorted((f for r in results for f in r['fails']),
                   key=lambda f: (str(f[0]), -1 if f[1] is None else f[1]))
    known = load_known(module.PROPERTY)
    violations, known_hits = [], []
    for fam, index, case, message, info in fails:
        ident = fam + ' ' + case
        hit = [k for k in known if k in ident]
        if hit:
            known_hits.append((hit[0], fam, case, message))
        else:
            violations.append((fam, index, case, message, info))
    samples = [s for r in results for s in r['samples']][:6]
    transitions = sum(r['transitions'] for r in results)
    traces = sum(r['traces'] for r in results)
    cases = sum(r['cases'] for r in results)
    evidence = {
        'property': module.PROPERTY, 'tier': tier, 'seed': seed, 'level': module.LEVEL,
        'coverage': {
            'states': len(states), 'transitions': transitions,
            'traces_validated_against_impl': traces or cases,
            'distinct_outcomes': len(outcomes), 'samples': samples or ['(none)'],
            'exhaustive': not violations,
            'bounds': module.BOUNDS.get(tier) or module.BOUNDS['quick'],
            'families': {name: {'cases': c, 'slowest_worker_s': s, 'slowest_case_cpu_s': w} for name, (c, s, w) in fam_counts.items()},
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'violations': len(violations),
        'wall_s': round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', module.PROPERTY + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    for ident, fam, case, message in known_hits:
        print('KNOWN-FINDING: property={} {}: {}'.format(module.PROPERTY, ident, message))
    print('{} {}: cases={} states={} transitions={} traces={} outcomes={} wall={:.1f}s'.format(
        module.PROPERTY, tier, cases, len(states), transitions, traces or cases, len(outcomes),
        time.time() - t0))
    for name, (c, s, w) in fam_counts.items():
        print('   {:<34} cases={:<9} {:.1f}s (slowest case {:.1f}s)'.format(name, c, s, w))
    if not cases:
        print('CHECK ERROR: no case was run')
        return 2
    if violations:
        for fam, index, case, message, info in violations[:5]:
            path = write_artefact(module, tier, seed, fam, index, case, message, info)
            print('  {} [{}] {}'.format(fam, index, message[:600]))
            print('     case {}'.format(case[:600]))
            print('VIOLATION property={} replay={}'.format(module.PROPERTY, path))
        return 1
    return 0


def write_artefact(module, tier, seed, fam, index, case, message, info):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    digest = hashlib.sha1((fam + case).encode('utf-8', 'replace')).hexdigest()[:10]
    path = os.path.join(d, '{}-{}-{}.json'.format(module.PROPERTY, fam, digest))
    with open(path, 'w') as f:
        json.dump({'property': module.PROPERTY, 'family': fam, 'tier': tier, 'seed': seed,
                   'index': index, 'case': case, 'message': message, 'info': info,
                   'replay': 'bash run.sh {} --replay {}'.format(module.PROPERTY, path)}, f, indent=1)
    return path


def replay(module, path):
    """Run the one case of a replay artefact twice; both runs must agree."""
    with open(path) as f:
        art = json.load(f)
    fam = [f for f in module.FAMILIES if f.name == art['family']][0]
    from . import terms
    case = terms.parse_case(art['case'])
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGPROF, _on_alarm)
    messages = []
    for _ in range(2):
        ctx = Ctx(art['tier'], art['seed'])
        if fam.setup:
            fam.setup(art['tier'])
        run_one(fam, case, ctx)
        messages.append([f['message'] for f in ctx.fails])
    print('replayed twice:', messages)
    if messages[0]:
        print('VIOLATION property={} replay={}'.format(module.PROPERTY, path))
        return 1
    return 0


def load_known(prop):
    """Identifiers (substrings of 'family case') of the listed known findings of ``prop``."""
    idents = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property={} '.format(prop)):
                    idents.append(line.split(' ', 2)[2].split(' :: ')[0])
    return idents
