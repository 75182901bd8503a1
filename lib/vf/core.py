"""Harness core: generated-input search with Hypothesis, sharded over processes, shrinking, replay files, evidence.

A check module (checks/cXX.py) defines
    PROPERTY, RULE, ASSUMPTIONS, SUBS = [Sub(...), ...]
Each Sub has a Hypothesis strategy that produces a JSON-able *case* and a pure function check(case) that raises
Violation if the property does not hold for that case and otherwise returns (nontrivial, labels).
The replay file is the (shrunk) case; replaying bypasses Hypothesis.
"""
import contextlib
import hashlib
import importlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')
CPU_LIMIT = float(os.environ.get('VERIF_CASE_CPU', '40'))
EVENT_LIMIT = 25_000_000


class Violation(Exception):
    def __init__(self, msg, **info):
        super().__init__(msg)
        self.msg = msg
        self.info = info


class HarnessError(Exception):
    """the harness itself (not the code under test) is at fault -> error exit"""


class CpuLimit(BaseException):
    pass


class StopShrink(BaseException):
    pass


def expect(cond, msg, **info):
    if not cond:
        raise Violation(msg, **info)


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, shard=None, examples=(), min_nontrivial=0.05, slow_ok=False):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick = 2 * quick  # the checks name their cases in units of two
        self.thorough = thorough if thorough is not None else quick * 20
        self.shard = shard
        self.examples = list(examples)
        self.min_nontrivial = min_nontrivial
        self.slow_ok = slow_ok  # the property promises no termination: a slow case is given up after 10 s, without a verdict


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def h64(*parts):
    return int.from_bytes(hashlib.blake2b('|'.join(map(str, parts)).encode(), digest_size=8).digest(), 'big')


# ---------------------------------------------------------------- running one case

@contextlib.contextmanager
def cpu_limit(seconds):
    def handler(signum, frame):
        raise CpuLimit()

    old = signal.signal(signal.SIGPROF, handler)
    signal.setitimer(signal.ITIMER_PROF, seconds, 2.0)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)

    def writable(self):
        return True


def _touches_repo(tb):
    root = os.path.realpath(REPO) + os.sep
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(root):
            return True
    return False


def _last_frame_text(tb):
    frames = traceback.extract_tb(tb)
    root = os.path.realpath(REPO) + os.sep
    rep = [f for f in frames if os.path.realpath(f.filename).startswith(root)]
    f = (rep or frames)[-1]
    return f'{os.path.relpath(f.filename, REPO) if rep else os.path.basename(f.filename)}:{f.name}'


def run_case(check, case):
    """Returns (nontrivial, labels); raises Violation; HarnessError for faults that cannot come from the tree."""
    random.seed(h64('global', canon(case)))
    case = json.loads(canon(case))
    try:
        with contextlib.redirect_stdout(_Null()), contextlib.redirect_stderr(_Null()):
            r = check(case)
    except (Violation, HarnessError):
        raise
    except (MemoryError, ImportError):
        raise HarnessError(traceback.format_exc())
    except SystemExit as e:
        raise Violation(f'learning aborted: {str(e)[:300]}')
    except Exception as e:
        import hypothesis.errors as he
        if isinstance(e, he.HypothesisException):
            raise
        where = _last_frame_text(e.__traceback__)
        if isinstance(e, TypeError) and 'argument' in str(e) and not _touches_repo(e.__traceback__):
            raise HarnessError(traceback.format_exc())
        what = 'unexpected error in the code under test' if _touches_repo(e.__traceback__) else 'malformed result'
        raise Violation(f'{what}: {type(e).__name__}: {str(e)[:200]} at {where}', kind='exception')
    if r is None:
        return True, []
    if isinstance(r, bool):
        return r, []
    nt, labels = r
    return bool(nt), list(labels)


def count_events(check, case, limit):
    """re-run a case that hit the CPU limit with a deterministic counter of executed jumps and calls"""
    mon = sys.monitoring
    tool = mon.DEBUGGER_ID
    n = [0]
    ev = mon.events.PY_START | mon.events.JUMP | mon.events.BRANCH

    def cb(*a):
        # raising from a monitoring callback can crash the interpreter; a signal is delivered between two instructions
        n[0] += 1
        if n[0] > limit and n[0] % 100_000 == 0:
            signal.raise_signal(signal.SIGUSR1)

    def handler(signum, frame):
        raise CpuLimit()

    old = signal.signal(signal.SIGUSR1, handler)

    mon.use_tool_id(tool, 'vf')
    try:
        for e in (mon.events.PY_START, mon.events.JUMP, mon.events.BRANCH):
            mon.register_callback(tool, e, cb)
        mon.set_events(tool, ev)
        try:
            run_case(check, case)
        except Violation:
            pass
        except CpuLimit:
            return True
        finally:
            mon.set_events(tool, 0)
    finally:
        mon.free_tool_id(tool)
        signal.signal(signal.SIGUSR1, old)
    return n[0] > limit


# ---------------------------------------------------------------- one shard (own process)

def run_shard(modname, subname, shard, n, seed, shrink_s):
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
    import hypothesis.errors as he
    mod = importlib.import_module(modname)
    sub = next(s for s in mod.SUBS if s.name == subname)
    st = {'evals': 0, 'labels': {}, 'hashes': set(), 'samples': [], 'fail': None, 'first_fail_t': None, 'maxcpu': 0.0,
          'harness': None}

    def body(case):
        text = canon(case)
        if st['first_fail_t'] and time.time() - st['first_fail_t'] > shrink_s:
            raise StopShrink()
        if not st['first_fail_t']:
            st['evals'] += 1
        t0 = time.process_time()
        try:
            with cpu_limit(10 if sub.slow_ok else CPU_LIMIT):
                nt, labels = run_case(sub.check, case)
        except CpuLimit:
            if sub.slow_ok:
                st['labels']['given_up'] = st['labels'].get('given_up', 0) + 1
                return
            try:
                with cpu_limit(CPU_LIMIT * 10):
                    hung = count_events(sub.check, case, EVENT_LIMIT)
            except CpuLimit:
                hung = True
            if hung:
                if st['fail'] is None:
                    st['fail'] = (text, f'no result within {EVENT_LIMIT} executed branches and calls (does not terminate)')
                raise StopShrink()
            return
        except Violation as v:
            if st['first_fail_t'] is None:
                st['first_fail_t'] = time.time()
            if st['fail'] is None or len(text) <= len(st['fail'][0]):
                st['fail'] = (text, v.msg + (f' {json.dumps(v.info, default=repr)[:600]}' if v.info else ''))
            raise
        if st['first_fail_t']:
            return
        st['maxcpu'] = max(st['maxcpu'], time.process_time() - t0)
        for lb in labels:
            st['labels'][lb] = st['labels'].get(lb, 0) + 1
        if nt:
            hsh = h64(text)
            if hsh not in st['hashes']:
                st['hashes'].add(hsh)
                if len(st['samples']) < 6:
                    st['samples'].append(text)
                elif len(text) > min(map(len, st['samples'])) and len(text) < 1500:
                    st['samples'][1 + h64(text) % 5] = text

    try:
        if shard == 0:
            for ex in sub.examples:
                body(ex)
        if n > 0:
            test = given(sub.strategy)(body)
            test = settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                            phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                            print_blob=False)(test)
            test = hseed(h64(seed, modname, subname, shard))(test)
            with contextlib.redirect_stdout(_Null()), contextlib.redirect_stderr(_Null()):
                test()
    except StopShrink:
        pass
    except Violation:
        pass
    except HarnessError as e:
        st['harness'] = str(e)
    except BaseException as e:
        if st['fail'] is None:
            st['harness'] = traceback.format_exc()
    if st['evals'] == 0 and st['fail'] is None and st['harness'] is None and n > 0:
        st['harness'] = 'no case generated'
    st['hashes'] = list(st['hashes'])
    st['sub'] = subname
    return st


# ---------------------------------------------------------------- known findings

def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith('#'):
                d = json.loads(line)
                if d.get('property') == prop:
                    out.append(d)
    return out


def case_matches_known(known, subname, text):
    for k in known:
        if k.get('status') == 'known' and k.get('sub') == subname and canon(k.get('case')) == text:
            return k
    return None


# ---------------------------------------------------------------- main

def replay(modname, path):
    d = json.load(open(path))
    mod = importlib.import_module(modname)
    sub = next(s for s in mod.SUBS if s.name == d['sub'])
    try:
        with cpu_limit(CPU_LIMIT):
            nt, labels = run_case(sub.check, d['case'])
    except CpuLimit:
        print('VIOLATION property=%s replay=%s' % (mod.PROPERTY, path))
        print('  does not terminate')
        return 1
    except Violation as v:
        print('VIOLATION property=%s replay=%s' % (mod.PROPERTY, path))
        print('  ', v.msg, json.dumps(v.info, default=repr))
        return 1
    print('replay passes', 'nontrivial' if nt else 'trivial', labels)
    return 0


def main(argv):
    prop = argv[0].upper()
    modname = prop.lower()
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    for extra in ('/opt/venv/lib/python3.12/site-packages',):  # pydot, pyparsing
        if extra not in sys.path:
            sys.path.append(extra)
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    args = argv[1:]
    while args:
        a = args.pop(0)
        if a == '--thorough':
            tier = 'thorough'
        elif a == '--quick':
            tier = 'quick'
        elif a == '--replay':
            return replay(modname, args.pop(0))
        elif a == '--sub':
            only = args.pop(0)
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    try:
        import aalpy
        base = os.path.realpath(os.path.dirname(aalpy.__file__))
        if not base.startswith(os.path.realpath(REPO) + os.sep):
            print(f'HARNESS-ERROR: aalpy imported from {base}, not from {REPO}')
            return 2
        mod = importlib.import_module(modname)
    except Exception:
        # the tree does not even import: that is not a verdict about the property
        traceback.print_exc()
        print('HARNESS-ERROR: import failed')
        return 2
    subs = [s for s in mod.SUBS if only is None or s.name == only]
    ncpu = min(int(os.environ.get('VERIF_JOBS', '8')), os.cpu_count() or 1)
    tasks = []
    for s in subs:
        n = max(1, int((s.quick if tier == 'quick' else s.thorough) * scale))
        size = s.shard or max(20, -(-n // ncpu))
        if tier == 'thorough':
            size = min(n, max(size, 400))
        k = max(1, -(-n // size))
        for i in range(k):
            tasks.append((s.name, i, min(size, n - i * size)))
    tasks.sort(key=lambda t: t[1])
    import concurrent.futures as cf
    import multiprocessing as mp
    res = []
    shrink_s = float(os.environ.get('VERIF_SHRINK', 45 if tier == 'quick' else 180))
    with cf.ProcessPoolExecutor(max_workers=ncpu, mp_context=mp.get_context('fork')) as ex:
        futs = {ex.submit(run_shard, modname, a, b, c, seed, shrink_s): (a, b) for a, b, c in tasks}
        failed = False
        for f in cf.as_completed(futs):
            try:
                r = f.result()
            except cf.CancelledError:
                continue
            except Exception:
                print('HARNESS-ERROR: worker died', futs[f], traceback.format_exc(limit=2))
                for g in futs:
                    g.cancel()
                return 2
            res.append(r)
            if (r['fail'] or r['harness']) and not failed:
                failed = True
                for g in futs:
                    g.cancel()
    known = load_known(prop)
    code = 0
    nviol = 0
    seen = set()
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for r in res:
        if r['fail']:
            text, msg = r['fail']
            if (r['sub'], text) in seen:
                continue
            seen.add((r['sub'], text))
            path = os.path.join('replays', f'{prop}-{r["sub"]}-{h64(text):016x}.json')
            with open(os.path.join(VERIF, path), 'w') as fh:
                json.dump({'property': prop, 'sub': r['sub'], 'case': json.loads(text), 'message': msg}, fh, indent=1)
            nviol += 1
            print(f'VIOLATION property={prop} replay={path}')
            print(f'  sub-check {r["sub"]}: {msg[:1200]}')
            print(f'  case: {text[:1500]}')
            code = 1
    for r in res:
        if r['harness'] and code == 0:
            print(f'HARNESS-ERROR in sub-check {r["sub"]}:\n{r["harness"]}')
            code = 2
    # listed, unrepaired findings: replay each and report it while it still fails
    for k in known:
        if k.get('status') != 'known':
            continue
        sub = next((s for s in mod.SUBS if s.name == k['sub']), None)
        if sub is None:
            sub = next(s for s in getattr(mod, 'FINDING_SUBS', []) if s.name == k['sub'])
        try:
            with cpu_limit(CPU_LIMIT):
                run_case(sub.check, k['case'])
        except (Violation, CpuLimit) as v:
            print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    per = {}
    hashes = set()
    labels = {}
    samples = []
    maxcpu = 0
    for r in res:
        d = per.setdefault(r['sub'], {'evaluations': 0, 'distinct_nontrivial': set()})
        d['evaluations'] += r['evals']
        d['distinct_nontrivial'].update(r['hashes'])
        hashes.update((r['sub'], x) for x in r['hashes'])
        maxcpu = max(maxcpu, r['maxcpu'])
        for k2, v in r['labels'].items():
            labels[f'{r["sub"]}:{k2}'] = labels.get(f'{r["sub"]}:{k2}', 0) + v
    for s in subs:
        c = [x for r in res if r['sub'] == s.name for x in r['samples']]
        c.sort(key=len)
        for x in ([c[0], c[len(c) // 2]] if len(c) > 1 else c):
            samples.append({'sub': s.name, 'case': json.loads(x)})
    for d in per.values():
        d['distinct_nontrivial'] = len(d['distinct_nontrivial'])
    if code == 0:
        for s in subs:
            d = per.get(s.name)
            if d and d['evaluations'] >= 20 and d['distinct_nontrivial'] < s.min_nontrivial * d['evaluations']:
                print(f'HARNESS-ERROR: sub-check {s.name} is nearly vacuous: {d}')
                code = 2
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': sum(d['evaluations'] for d in per.values()),
                       'distinct_nontrivial': len(hashes), 'rule': mod.RULE, 'samples': samples,
                       'sub_checks': per, 'classes': dict(sorted(labels.items())), 'max_case_cpu_s': round(maxcpu, 3)},
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print(f'{prop} {tier} seed={seed}: {ev["coverage"]["evaluations"]} cases, {len(hashes)} distinct non-trivial, '
          f'{nviol} violations, {ev["wall_s"]} s, max case cpu {maxcpu:.2f}s')
    if os.environ.get('VERIF_VERBOSE'):
        print(json.dumps(ev['coverage']['classes'], indent=1))
        print(json.dumps(per, indent=1))
    return code


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
