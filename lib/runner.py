# -*- coding: utf-8 -*-
"""Drives a check: generated cases on several worker processes, shrinking,
replay files, evidence.  Outcomes: exit 0 (held), 1 (VIOLATION), 2 (harness error)."""
import hashlib
import importlib
import json
import mmap
import multiprocessing
import multiprocessing.connection
import os
import resource
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from core import Stats, Violation


class Test:
    """one generated search.

    strategy: () -> hypothesis strategy of JSON-able cases
    execute:  (case, stats) -> bool (non-trivial?); raises Violation
    quick/thorough: number of cases over all workers
    """

    def __init__(self, name, strategy, execute, quick, thorough=None, enum=None):
        self.name = name
        self.strategy = strategy
        self.execute = execute
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        # optional: list of cases enumerated completely instead of generated
        self.enum = enum


def _seed(base, test, worker):
    return int.from_bytes(hashlib.sha256(f'{base}|{test}|{worker}'.encode()).digest()[:6], 'big')


def _plain_generation():
    """hypothesis duplicates parts of earlier cases to provoke collisions; for
    long histories that clumps the distribution, so cases are drawn independently.
    It also takes constants from the modules of the working directory, so that any edit
    of the code under test would change every case: gen.constants() takes their place"""
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner
        ConjectureRunner.generate_mutations_from = lambda self, data: None
    except (ImportError, AttributeError):
        pass
    try:
        from hypothesis.internal.conjecture import providers
        providers.is_local_module_file = lambda path: False
    except (ImportError, AttributeError):
        pass


# a case takes milliseconds, seldom more than a second; one that computes for this long does not end
CASE_CPU_SECONDS = float(os.environ.get('VERIF_CASE_CPU_S', '120'))
BOARD_BYTES = 1 << 20


class Board:
    """where a worker notes the case it is working on and the CPU time it had used when it began"""

    def __init__(self):
        self.memory = mmap.mmap(-1, BOARD_BYTES)

    def begin(self, test, case):
        text = json.dumps([test, case]).encode()[:BOARD_BYTES - 16]
        self.memory[8:16] = struct.pack('q', 0)
        self.memory[16:16 + len(text)] = text
        self.memory[0:8] = struct.pack('d', time.process_time())
        self.memory[8:16] = struct.pack('q', len(text))

    def end(self):
        self.memory[8:16] = struct.pack('q', 0)

    def stuck(self, pid):
        """-> (test, case) when the worker has been computing on it for too long"""
        size = struct.unpack('q', self.memory[8:16])[0]
        if not size:
            return None
        began = struct.unpack('d', self.memory[0:8])[0]
        try:
            with open(f'/proc/{pid}/stat') as f:
                fields = f.read().rsplit(')', 1)[1].split()
        except (OSError, IndexError):
            return None
        used = (int(fields[11]) + int(fields[12])) / os.sysconf('SC_CLK_TCK')
        if used - began < CASE_CPU_SECONDS:
            return None
        try:
            return json.loads(self.memory[16:16 + size])
        except ValueError:
            return None


BOARD = None


def attempt(test, case, stats):
    """runs one case; an exception out of the code under test is a violation, any other one the harness's own"""
    if BOARD is not None:
        BOARD.begin(test.name, case)
    try:
        return test.execute(case, stats)
    except Exception as e:
        if isinstance(e, Violation) or type(e).__module__.startswith('hypothesis'):
            raise
        from chain import REPO
        frames = traceback.extract_tb(e.__traceback__)
        if frames and os.path.realpath(frames[-1].filename).startswith(os.path.realpath(REPO) + os.sep):
            f = frames[-1]
            raise Violation(f'{type(e).__name__}: {e} (raised at {os.path.relpath(f.filename, REPO)}:{f.lineno})')
        raise
    finally:
        if BOARD is not None:
            BOARD.end()


SHRINK_SECONDS = float(os.environ.get('VERIF_SHRINK_S', '20'))


def _run_generated(test, n, seed, stats):
    """-> None or (case, message)"""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    found = {'best': None, 'msg': None, 'first': None, 'harness': None}

    def body(case):
        if found['harness'] is not None:
            return
        if found['first'] is not None and time.time() - found['first'] > SHRINK_SECONDS:
            return
        try:
            nontrivial = attempt(test, case, stats)
        except Violation as e:
            size = len(json.dumps(case))
            if found['best'] is None or size <= len(json.dumps(found['best'])):
                found['best'], found['msg'] = case, str(e)
            if found['first'] is None:
                found['first'] = time.time()
                stats.counting = False
            raise
        except hypothesis.errors.HypothesisException:
            raise
        except Exception:
            found['harness'] = f'case {json.dumps(case)[:3000]}\n' + traceback.format_exc()
            return
        stats.case(test.name, case, nontrivial)

    fn = given(case=test.strategy())(lambda case: body(case))
    fn = hypothesis.seed(seed)(fn)
    fn = settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                  print_blob=False, phases=(Phase.generate, Phase.shrink), verbosity=hypothesis.Verbosity.quiet,
                  suppress_health_check=list(HealthCheck))(fn)
    try:
        fn()
    except Violation:
        pass
    except BaseException:
        if found['best'] is None and found['harness'] is None:
            raise
    if found['best'] is not None:
        return found['best'], found['msg']
    if found['harness'] is not None:
        raise RuntimeError(found['harness'])
    return None


def _run_enum(test, cases, stats):
    for case in cases:
        try:
            nontrivial = attempt(test, case, stats)
        except Violation as e:
            return case, str(e)
        stats.case(test.name, case, nontrivial)
    return None


def _worker(module_name, tier, base_seed, worker, workers, conn, only=None, board=None):
    global BOARD
    BOARD = board
    result = {'violation': None, 'error': None}
    stats = Stats()
    stats.timing = {}
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))
        sys.setrecursionlimit(20000)
        _plain_generation()
        import gen
        gen.POOL_SEED = base_seed * 1000 + worker
        module = importlib.import_module(module_name)
        for test in module.TESTS:
            if only and test.name != only:
                continue
            t0 = time.time()
            if test.enum is not None:
                cases = test.enum(tier)[worker::workers]
                failure = _run_enum(test, cases, stats)
            else:
                total = test.quick if tier == 'quick' else test.thorough
                scale = float(os.environ.get('VERIF_SCALE', '1'))
                n = max(1, int(-(-total // workers) * scale))
                failure = _run_generated(test, n, _seed(base_seed, test.name, worker), stats)
            stats.timing[test.name] = round(time.time() - t0, 2)
            if failure is not None:
                result['violation'] = {'test': test.name, 'case': failure[0], 'message': failure[1]}
                break
    except BaseException:
        result['error'] = traceback.format_exc()
    result['evaluations'] = stats.evaluations
    result['keys'] = list(stats.nontrivial_keys)
    result['labels'] = stats.labels
    result['samples'] = stats.samples
    result['timing'] = stats.timing
    conn.send(result)
    conn.close()


def known_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def replay(pid, path):
    with open(path) as f:
        data = json.load(f)
    module = importlib.import_module('checks.' + pid.lower())
    test = {t.name: t for t in module.TESTS}[data['test']]
    try:
        attempt(test, data['case'], Stats())
    except Violation as e:
        print(f'replayed: {e}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    print('replayed: the property held on this case')
    return 0


def main(pid, tier, only=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    module_name = 'checks.' + pid.lower()
    module = importlib.import_module(module_name)
    workers = int(os.environ.get('VERIF_WORKERS', '8'))
    budget = 840 if tier == 'quick' else 4 * 3600
    ctx = multiprocessing.get_context('fork')
    procs = []
    for w in range(workers):
        parent, child = ctx.Pipe(False)
        board = Board()
        p = ctx.Process(target=_worker, args=(module_name, tier, seed, w, workers, child, only, board))
        p.start()
        child.close()
        procs.append((p, parent, board))
    results = []
    hung = 0
    violated_at = None
    open_procs = {parent: (p, board) for p, parent, board in procs}

    def empty(**kw):
        return dict({'violation': None, 'error': None, 'evaluations': 0, 'keys': [], 'labels': {}, 'samples': [], 'timing': {}},
                    **kw)
    while open_procs:
        now = time.time()
        # a violation is decided: do not wait long for the others
        if now - t0 > budget or violated_at is not None and now > violated_at + SHRINK_SECONDS + 15:
            break
        for parent in multiprocessing.connection.wait(list(open_procs), timeout=2):
            p, board = open_procs.pop(parent)
            try:
                r = parent.recv()
            except EOFError:
                r = empty(error='worker died (memory?)')
            results.append(r)
            p.join(5)
        for parent, (p, board) in list(open_procs.items()):
            stuck = board.stuck(p.pid)
            if stuck is not None and not parent.poll(0):
                p.kill()
                p.join(5)
                del open_procs[parent]
                results.append(empty(violation={
                    'test': stuck[0], 'case': stuck[1],
                    'message': f'no end after {CASE_CPU_SECONDS:.0f} s of computing'}))
        if violated_at is None and any(r['violation'] for r in results):
            violated_at = time.time()
    for parent, (p, board) in open_procs.items():
        hung += 1
        p.kill()
        p.join(5)
    violations = [r['violation'] for r in results if r['violation']]
    errors = [r['error'] for r in results if r['error']]
    keys = set()
    labels, samples, timing = {}, [], {}
    evaluations = 0
    for r in results:
        keys.update(r['keys'])
        evaluations += r['evaluations']
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r['timing'].items():
            timing[k] = max(timing.get(k, 0), v)
        for s in r['samples']:
            if sum(1 for x in samples if x['test'] == s['test']) < 2:
                samples.append(s)
    wall = time.time() - t0
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': module.LEVEL,
        'coverage': {
            'evaluations': evaluations, 'distinct_nontrivial': len(keys), 'rule': module.RULE,
            'samples': samples[:12], 'classes': dict(sorted(labels.items())),
            'searches': [t.name for t in module.TESTS], 'seconds_per_search': timing, 'workers': workers,
        },
        'assumptions': list(module.ASSUMPTIONS),
        'wall_s': round(wall, 2), 'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    if violations:
        v = min(violations, key=lambda x: len(json.dumps(x['case'])))
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        digest = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, 'replay', f'{pid}-{v["test"].replace(" ", "-")}-{digest}.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'test': v['test'], 'case': v['case'], 'message': v['message'],
                       'seed': seed}, f, indent=1)
        print(f'{pid}/{v["test"]}: {v["message"]}')
        print(f'minimal case: {json.dumps(v["case"])[:2000]}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if errors or hung:
        for e in errors[:2]:
            print(e, file=sys.stderr)
        if hung:
            print(f'{hung} workers did not finish within {budget} s: inconclusive', file=sys.stderr)
        return 2
    print(f'{pid} held: {evaluations} cases, {len(keys)} distinct non-trivial, {wall:.1f} s')
    if os.environ.get('VERIF_SHOW'):
        print(json.dumps({'classes': evidence['coverage']['classes'], 'timing': timing}, indent=1))
    return 0
