"""
Small property-based testing engine.

A *case* is produced by ``check.gen(src)`` where every random decision is taken through ``src`` (a list of bounded
integers).  The list is what gets shrunk on failure; the case itself (plain JSON data) is what gets stored for replay.
A run is a pure function of the code under test and VERIF_SEED.
"""

import collections
import hashlib
import json
import multiprocessing
import os
import pathlib
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('VERIF_REPO', '/repo'))


class Violation(Exception):
    """The property does not hold for the case."""


class Inconclusive(Exception):
    """The case can't be decided (used for the CPU limit inside the harness itself)."""


class _Alarm(BaseException):
    pass


# -- random choices ---------------------------------------------------------------------------------------------

class Src:
    """Source of bounded random integers; small values are 'simple'."""

    def __init__(self, rng=None, replay=()):
        self.rng = rng
        self.replay = replay
        self.log = []

    def n(self, bound):
        """Integer in [0, bound)."""
        if bound <= 1:
            return 0
        pos = len(self.log)
        if pos < len(self.replay):
            val = self.replay[pos]
            if val >= bound:
                val = bound - 1
        elif self.rng is not None:
            val = self.rng.randrange(bound)
        else:
            val = 0
        self.log.append(val)
        return val

    def rng_int(self, low, high):
        """Integer in [low, high]."""
        return low + self.n(high - low + 1)

    def one_in(self, k):
        """True with probability 1/k (False is 'simple')."""
        return self.n(k) == k - 1 if k > 1 else True

    def coin(self):
        return self.n(2) == 1

    def pct(self, percent):
        """True with the given probability in percent."""
        return self.n(100) >= 100 - percent

    def pick(self, seq):
        return seq[self.n(len(seq))]

    def weighted(self, pairs):
        """pairs: (weight, value)."""
        total = sum(w for w, _ in pairs)
        val = self.n(total)
        for weight, value in pairs:
            if val < weight:
                return value
            val -= weight
        return pairs[-1][1]

    def subset(self, seq, percent=50):
        return [item for item in seq if self.pct(percent)]

    def sample(self, seq, k):
        rest = list(seq)
        res = []
        for _ in range(min(k, len(rest))):
            res.append(rest.pop(self.n(len(rest))))
        return res

    def shuffled(self, seq):
        return self.sample(seq, len(seq))

    def word(self, alphabet, low, high):
        return ''.join(self.pick(alphabet) for _ in range(self.rng_int(low, high)))

    def length(self, low, high, decay=60):
        """Geometric-ish length: each further item has the given probability."""
        res = low
        while res < high and self.pct(decay):
            res += 1
        return res


# -- running one case ---------------------------------------------------------------------------------------------

CASE_CPU_LIMIT = 100.0       # seconds of CPU for one call of the code under test before it counts as never answering


class Ctx:
    """What a check sees while running a case."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.counters = collections.Counter()
        self.keys = set()
        self.case_nontrivial = False
        self.in_sut = 0
        self.serial = 0

    def count(self, name, num=1):
        self.counters[name] += num

    def nontrivial(self, key):
        """Registers a distinct non-trivial evaluation."""
        self.case_nontrivial = True
        self.keys.add(hashlib.blake2b(repr(key).encode('utf-8', 'surrogatepass'), digest_size=8).digest())

    def sut(self, what, func, *args, **kwargs):
        """Calls the code under test; anything raised is a violation: all generated inputs are valid."""
        self.in_sut += 1
        try:
            return func(*args, **kwargs)
        except Violation:
            raise
        except Exception as exc:  # pylint: disable=broad-except
            last = traceback.extract_tb(exc.__traceback__)[-1]
            raise Violation(f'{what} raised {type(exc).__name__}: {exc} '
                            f'(at {os.path.basename(last.filename)}:{last.name})') from None
        finally:
            self.in_sut -= 1

    def fresh_dir(self):
        self.serial += 1
        path = os.path.join(self.scratch, str(self.serial))
        os.mkdir(path)
        return path


def _run_case(check, case, ctx):
    """Runs one case with the CPU limit. Raises Violation."""

    def on_alarm(*_):
        raise _Alarm()

    ctx.case_nontrivial = False
    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        check.run(case, ctx)
    except _Alarm:
        if ctx.in_sut:
            ctx.in_sut = 0
            raise Violation(f'no answer within {CASE_CPU_LIMIT:.0f} s of CPU time') from None
        ctx.count('inconclusive: harness CPU limit')
    except Inconclusive:
        ctx.count('inconclusive')
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def _clean(scratch):
    for name in os.listdir(scratch):
        shutil.rmtree(os.path.join(scratch, name), ignore_errors=True)


def _shrink(check, choices, message, ctx, *, evals=1200, seconds=60):
    """Classic choice-sequence reduction: delete blocks, zero, lower."""
    deadline = time.monotonic() + seconds
    best = list(choices)
    best_msg = message
    used = 0
    seen = set()

    def fails(cand):
        nonlocal used, best, best_msg
        key = tuple(cand)
        if key in seen or used >= evals or time.monotonic() > deadline:
            return False
        seen.add(key)
        used += 1
        src = Src(replay=cand)
        try:
            case = check.gen(src)
            _run_case(check, case, ctx)
        except Violation as vio:
            if len(src.log) <= len(best):
                best = list(src.log)
                best_msg = str(vio)
                return True
            return False
        except Exception:   # pylint: disable=broad-except
            return False
        finally:
            _clean(ctx.scratch)
        return False

    improved = True
    while improved and used < evals and time.monotonic() < deadline:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            pos = 0
            while pos < len(best):
                if fails(best[:pos] + best[pos + size:]):
                    improved = True
                else:
                    pos += size
            size //= 2
        pos = 0
        while pos < len(best):
            if best[pos]:
                for val in (0, best[pos] // 2, best[pos] - 1):
                    if pos < len(best) and val < best[pos] and fails(best[:pos] + [val] + best[pos + 1:]):
                        improved = True
                        break
            pos += 1
    return best, best_msg


def _make_scratch(base=None):
    if base is None:
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix='spyllspbt-', dir=base)


def _shard(args):
    check_id, seed, tier, shard, num, top, deadline = args
    from vlib import registry   # pylint: disable=import-outside-toplevel
    res = {'shard': shard, 'evaluations': 0, 'nontrivial_cases': 0, 'samples': [], 'violation': None, 'error': None,
           'max_case_s': 0.0}
    scratch = _make_scratch(top)
    try:
        check = registry.load(check_id)
        check.tier = tier
        ctx = Ctx(scratch)
        check.start_shard(shard, seed)
        digest = hashlib.sha256(f'{check_id}:{seed}:{shard}'.encode()).digest()
        rng = random.Random(int.from_bytes(digest[:8], 'big'))
        for idx in range(num):
            if time.monotonic() > deadline:
                ctx.count('shards cut short by the time limit')
                break
            src = Src(rng=rng)
            case = check.gen(src)
            started = time.process_time()
            try:
                _run_case(check, case, ctx)
            except Violation as vio:
                choices, msg = list(src.log), str(vio)
                _clean(scratch)
                if 'no answer within' not in msg:
                    choices, msg = _shrink(check, choices, msg, ctx)
                    case = check.gen(Src(replay=choices))
                res['violation'] = {'message': msg, 'case': case, 'shard': shard, 'index': idx}
            res['evaluations'] += 1
            res['nontrivial_cases'] += ctx.case_nontrivial
            res['max_case_s'] = max(res['max_case_s'], time.process_time() - started)
            if ctx.case_nontrivial and len(res['samples']) < 2 and idx % 7 == 3:
                res['samples'].append(check.describe(case))
            _clean(scratch)
            if res['violation']:
                break
        res['counters'] = dict(ctx.counters)
        res['keys'] = ctx.keys
    except Exception:   # pylint: disable=broad-except
        res['error'] = traceback.format_exc()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res


# -- known findings -----------------------------------------------------------------------------------------------

def known_findings(prop):
    """Lines ``known: property=<id> case=<file in known/> <text>``: their cases are run and reported, not failed."""
    res = []
    path = VERIF / 'KNOWN_FINDINGS.txt'
    if path.exists():
        for line in path.read_text(encoding='utf-8').splitlines():
            if line.startswith(f'known: property={prop} '):
                rest = line.split(' ', 2)[2]
                case, _, text = rest.partition(' ')
                res.append((case.partition('=')[2], text))
    return res


# -- main -----------------------------------------------------------------------------------------------------------

SHARDS = 16
RUN_LIMIT = 700.0       # seconds after which no further cases are started: the run then holds on fewer cases


def replay_file(path):
    from vlib import registry   # pylint: disable=import-outside-toplevel
    data = json.loads(pathlib.Path(path).read_text(encoding='utf-8'))
    check = registry.load(data['property'])
    check.tier = 'quick'
    check.start_shard(0, 0)
    scratch = _make_scratch()
    try:
        _run_case(check, data['case'], Ctx(scratch))
    except Violation as vio:
        print(f'replayed: {vio}')
        print(f"VIOLATION property={data['property']} replay={path}")
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print('replayed: holds')
    return 0


def _fixed_cases(check):
    """Committed regression cases (corpus/<id>/*.json)."""
    folder = VERIF / 'corpus' / check.id
    if not folder.is_dir():
        return []
    return sorted(folder.glob('*.json'))


def run_check(check_id, tier, seed):    # pylint: disable=too-many-locals
    from vlib import registry   # pylint: disable=import-outside-toplevel
    started = time.monotonic()
    check = registry.load(check_id)
    check.tier = tier
    num = check.quick_n if tier == 'quick' else check.thorough_n

    violation = None
    errors = []
    corpus_run = 0
    known_out = []

    # 1. committed regression cases and known findings, in this process
    scratch = _make_scratch()
    try:
        check.start_shard(-1, seed)
        ctx0 = Ctx(scratch)
        known = dict(known_findings(check_id))
        for path in _fixed_cases(check):
            data = json.loads(path.read_text(encoding='utf-8'))
            try:
                _run_case(check, data['case'], ctx0)
                corpus_run += 1
            except Violation as vio:
                if path.name in known:
                    known_out.append(f'KNOWN-FINDING: property={check_id} {known[path.name]}')
                elif violation is None:
                    violation = {'message': f'{path.name}: {vio}', 'case': data['case'], 'shard': -1, 'index': 0}
            _clean(scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for line in known_out:
        print(line)

    # 2. generated cases
    results = []
    if violation is None:
        top = _make_scratch()
        jobs = [(check_id, seed, tier, shard, num, top, started + RUN_LIMIT) for shard in range(SHARDS)]
        procs = max(1, min(SHARDS, os.cpu_count() or 1))
        ctx = multiprocessing.get_context('fork')
        try:
            with ctx.Pool(procs, maxtasksperchild=1) as pool:
                for res in pool.imap(_shard, jobs, chunksize=1):
                    results.append(res)
                    if res['error']:
                        errors.append(res['error'])
                    if res['violation']:
                        violation = res['violation']
                        pool.terminate()
                        break
        finally:
            shutil.rmtree(top, ignore_errors=True)

    counters = collections.Counter(ctx0.counters)
    keys = set(ctx0.keys)
    evals = corpus_run
    samples = []
    nontriv = 0
    max_case = 0.0
    for res in results:
        evals += res['evaluations']
        nontriv += res['nontrivial_cases']
        max_case = max(max_case, res['max_case_s'])
        counters.update(res.get('counters', {}))
        keys |= res.get('keys', set())
        samples.extend(res['samples'])
    coverage = {
        'evaluations': evals,
        'distinct_nontrivial': len(keys),
        'rule': check.rule,
        'samples': samples[:5],
        'nontrivial_cases': nontriv,
        'corpus_cases': corpus_run,
        'counters': dict(sorted(counters.items())),
        'max_case_cpu_s': round(max_case, 3),
    }
    evidence = {
        'property': check_id, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': coverage,
        'wall_s': round(time.monotonic() - started, 2),
        'assumptions': check.assumptions,
        'violations': 1 if violation else 0,
    }
    (VERIF / 'evidence').mkdir(exist_ok=True)
    with open(VERIF / 'evidence' / f'{check_id}.json', 'w', encoding='utf-8') as out:
        json.dump(evidence, out, ensure_ascii=True, indent=1)

    if violation:
        folder = VERIF / 'replays'
        folder.mkdir(exist_ok=True)
        path = folder / f'{check_id}-{seed}.json'
        with open(path, 'w', encoding='utf-8') as out:
            json.dump({'property': check_id, 'seed': seed, **violation}, out, ensure_ascii=True, indent=1)
        print(f"{check_id}: {violation['message']}")
        print(check.describe(violation['case']))
        print(f'VIOLATION property={check_id} replay={path}')
        return 1
    if errors:
        sys.stderr.write(errors[0])
        print(f'{check_id}: error in the check itself')
        return 2
    if len(keys) < check.min_nontrivial:
        print(f'{check_id}: only {len(keys)} distinct non-trivial evaluations, expected {check.min_nontrivial}')
        return 3
    print(f"{check_id}: held on {evals} cases, {len(keys)} distinct non-trivial evaluations, "
          f"{evidence['wall_s']} s")
    return 0


class Check:
    """Base class of checks."""
    id = ''
    rule = ''
    assumptions = []
    quick_n = 100
    thorough_n = 1000
    min_nontrivial = 2
    tier = 'quick'

    def start_shard(self, shard, seed):
        pass

    def gen(self, src):
        raise NotImplementedError

    def run(self, case, ctx):
        raise NotImplementedError

    def describe(self, case):
        text = json.dumps(case, ensure_ascii=True)
        return text if len(text) < 3000 else text[:3000] + '...'
