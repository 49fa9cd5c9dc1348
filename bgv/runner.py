"""Runs one check: shards of generated cases in worker processes, merged into evidence and a verdict."""
import argparse
import errno
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import time
import traceback
from collections import Counter

from bgv import boot

TARGET_DIR = os.path.join(os.path.realpath(boot.REPO), 'bathygrid') + os.sep


class Violation(Exception):
    """the property does not hold for this case"""


HANG = 60   # seconds of processor time for one case; cases take well below 5


class Hang(BaseException):
    """a case that does not end"""


def hang(*args):
    raise Hang()


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


class Ctx:
    """what one case can use: fresh folders, counters"""

    def __init__(self, scratch):
        self.scratch = scratch
        self.events = Counter()
        self.nontrivial = False
        self._n = 0
        self.case_dir = None

    def start(self):
        self._n += 1
        self.nontrivial = False
        self.case_events = set()
        self.case_dir = os.path.join(self.scratch, 'c{}'.format(self._n))
        os.makedirs(self.case_dir)
        self._d = 0
        os.chdir(self.case_dir)

    def finish(self):
        os.chdir(self.scratch)
        boot.cleanup(self.case_dir)
        for e in self.case_events:
            self.events[e] += 1

    def newdir(self, make=False):
        """path of a folder that does not exist yet"""
        self._d += 1
        p = os.path.join(self.case_dir, 'd{}'.format(self._d))
        if make:
            os.makedirs(p)
        return p

    def event(self, name):
        self.case_events.add(name)


def load_check(pid):
    return importlib.import_module('bgv.checks.{}'.format(pid.lower()))


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def target_frame(tb):
    """the innermost frame of the code under test in this traceback"""
    found = None
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(TARGET_DIR):
            found = '{}:{} {}'.format(os.path.basename(fr.filename), fr.lineno, fr.name)
    return found


def execute(mod, case, ctx):
    """run one case; returns None or the violation text"""
    import matplotlib.pyplot as plt
    import dask
    ctx.start()
    signal.signal(signal.SIGPROF, hang)
    signal.setitimer(signal.ITIMER_PROF, HANG)
    chunk = case['cfg'].get('chunk') if isinstance(case.get('cfg'), dict) else None
    try:
        with dask.config.set({'array.chunk-size': '{}B'.format(chunk)} if chunk else {}):
            mod.run_case(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except boot.HarnessError:
        raise
    except Hang:
        return 'no end after {} s of processor time'.format(HANG)
    except boot.Escape as e:
        return 'containment: {}'.format(e)
    except Exception as e:
        where = target_frame(sys.exc_info()[2])
        if where:
            return 'unexpected {}: {} (at {})'.format(type(e).__name__, e, where)
        if isinstance(e, (MemoryError, ImportError)) or getattr(e, 'errno', None) in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EIO):
            raise
        # what the code under test gave back has not the form that the check reads
        fr = traceback.extract_tb(sys.exc_info()[2])[-1]
        return 'the result could not be read: {}: {} (at {}:{} {})'.format(type(e).__name__, e, os.path.basename(fr.filename), fr.lineno, fr.name)
    finally:
        used = HANG - signal.setitimer(signal.ITIMER_PROF, 0)[0]
        if used > 8:     # to keep an eye on the cost of the cases
            ctx.event('more than {} s of processor time'.format(int(used / 8) * 8))
        ctx.finish()
        if plt.get_fignums():
            plt.close('all')


class Found(Exception):
    pass


def quiet():
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    import warnings
    warnings.filterwarnings('ignore')


def setup_worker():
    import dask
    dask.config.set(scheduler='synchronous')
    import numpy as np
    np.seterr(all='ignore')
    try:
        from osgeo import gdal
        gdal.UseExceptions()
    except Exception:
        pass


def shard_main(pid, shard, nshards, tier, seed, examples, deadline, scratch, outfile, corpus):
    signal.signal(signal.SIGTERM, lambda *a: os._exit(3))
    quiet()
    result = {'shard': shard, 'evaluations': 0, 'distinct': [], 'events': {}, 'samples': [], 'violation': None,
              'error': None, 'corpus': 0, 'cut': 0}
    try:
        _shard(pid, shard, nshards, tier, seed, examples, deadline, scratch, corpus, result)
    except BaseException:
        result['error'] = traceback.format_exc()
    result['distinct'] = sorted(result['distinct'])
    tmp = outfile + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(result, f)
    os.replace(tmp, outfile)
    os._exit(0)


def _shard(pid, shard, nshards, tier, seed, examples, deadline, scratch, corpus, result):
    work = os.path.join(scratch, 's{}'.format(shard))
    os.makedirs(work, exist_ok=True)
    os.chdir(work)
    os.environ['TMPDIR'] = work
    import tempfile
    tempfile.tempdir = work
    boot.contain(scratch)
    setup_worker()
    mod = load_check(pid)
    ctx = Ctx(work)
    if hasattr(mod, 'setup'):
        mod.setup(ctx, tier, shard)
    distinct = set()
    stop_at = time.time() + deadline

    def account(case):
        result['evaluations'] += 1
        if ctx.nontrivial:
            distinct.add(case_key(case))
            n = len(distinct)
            if n in (1, 8, 25) and len(json.dumps(case)) < 4000:
                if n == 8:   # the first ones are the simplest
                    result['samples'].clear()
                result['samples'].append(case)

    try:
        for path in corpus[shard::nshards]:
            with open(path) as f:
                rec = json.load(f)
            err = execute(mod, rec['case'], ctx)
            account(rec['case'])
            result['corpus'] += 1
            if err:
                result['violation'] = {'case': rec['case'], 'message': err, 'source': os.path.basename(path)}
                return
        if hasattr(mod, 'exhaustive'):
            # small finite parts of the space are enumerated completely
            for i, case in enumerate(mod.exhaustive(tier)):
                if i % nshards != shard:
                    continue
                err = execute(mod, case, ctx)
                account(case)
                ctx.events['enumerated'] += 1
                if err:
                    result['violation'] = {'case': case, 'message': err, 'source': 'enumeration'}
                    return
        _hypothesis(mod, ctx, seed * 1000 + shard, examples, tier, stop_at, account, result)
    finally:
        result['distinct'] = distinct
        result['events'] = dict(ctx.events)
        if hasattr(mod, 'teardown'):
            try:
                mod.teardown(ctx)
            except Exception:
                pass


def _hypothesis(mod, ctx, seed, examples, tier, stop_at, account, result):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 40
    # repeating parts of a case inside itself gives mostly large copies of cases already run; fresh cases cover more per second
    engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    if examples <= 0:
        return
    last = {}
    order = []

    @hypothesis.seed(seed)
    @settings(max_examples=examples, database=None, deadline=None, suppress_health_check=list(HealthCheck),
              phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False,
              verbosity=hypothesis.Verbosity.quiet)
    @given(mod.strategy(tier))
    def run(case):
        if not last and time.time() > stop_at:
            result['cut'] += 1
            return
        case = json.loads(json.dumps(case))
        err = execute(mod, case, ctx)
        if not last:
            account(case)
            order.append(case_key(case))
        if err:
            last['case'] = case
            last['message'] = err
            raise Found(err)

    try:
        run()
    except Found:
        pass
    except hypothesis.errors.Flaky:
        if not last:
            raise
    if last:
        result['violation'] = {'case': last['case'], 'message': last['message'], 'source': 'generated',
                               'seed': seed, 'nth': len(order)}


def replay_once(pid, case, scratch):
    """run the case in a fresh process, returns (ok, message, error)"""
    q = mp.get_context('fork').SimpleQueue()

    def body():
        quiet()
        try:
            work = os.path.join(scratch, 'replay{}'.format(os.getpid()))
            os.makedirs(work)
            os.chdir(work)
            os.environ['TMPDIR'] = work
            import tempfile
            tempfile.tempdir = work
            boot.contain(scratch)
            setup_worker()
            mod = load_check(pid)
            ctx = Ctx(work)
            if hasattr(mod, 'setup'):
                mod.setup(ctx, 'quick', 0)
            try:
                err = execute(mod, case, ctx)
            finally:
                if hasattr(mod, 'teardown'):
                    mod.teardown(ctx)
            q.put((err, None))
        except BaseException:
            q.put((None, traceback.format_exc()))
        os._exit(0)

    p = mp.get_context('fork').Process(target=body)
    p.start()
    t0 = time.time()
    while q.empty() and p.is_alive() and time.time() - t0 < 120:
        time.sleep(0.02)
    if q.empty():
        if p.is_alive():
            p.kill()
        p.join()
        if q.empty():
            return None, 'replay gave no answer'
    res = q.get()
    p.join(5)
    return res


def load_findings():
    """known-findings file: one JSON object per line"""
    out = []
    path = os.path.join(boot.VERIF, 'known_findings.jsonl')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    out.append(json.loads(line))
    return out


def write_json(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(data, f, indent=1)
    os.replace(tmp, path)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--shards', type=int)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    pid = a.pid.upper()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = boot.make_scratch()
    boot.register_cleanup(scratch)
    signal.signal(signal.SIGTERM, lambda *x: sys.exit(3))
    os.environ['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    os.makedirs(os.environ['MPLCONFIGDIR'])
    for src in glob.glob('/opt/vp/cache/mpl/fontlist*.json') + glob.glob(os.path.expanduser('~/.cache/matplotlib/fontlist*.json')):
        try:  # only saves the time of scanning the fonts again
            shutil.copy(src, os.environ['MPLCONFIGDIR'])
        except OSError:
            pass
    try:
        boot.provide_hypothesis(scratch)
        boot.import_target()
        import hypothesis.strategies  # noqa: F401  before the workers are forked
        mod = load_check(pid)
    except Exception:
        # a tree whose package cannot be imported gives no answer about the property
        traceback.print_exc()
        print('check {}: cannot start'.format(pid))
        return 2

    replays = os.path.join(boot.VERIF, 'evidence', 'replays')
    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        if 'shard' in rec:
            return rerun_shard(pid, rec, scratch, a.replay)
        err, bad = replay_once(pid, rec['case'], scratch)
        if bad:
            print(bad)
            return 2
        if err:
            print('  {}'.format(err))
            print('VIOLATION property={} replay={}'.format(pid, a.replay))
            return 1
        print('{}: no violation for {}'.format(pid, a.replay))
        return 0

    nshards = a.shards or getattr(mod, 'SHARDS', 8)
    examples = int(mod.EXAMPLES[tier] * a.scale)
    per_shard = max(1, examples // nshards)
    deadline = {'quick': 300, 'thorough': 3000}[tier]
    corpus = sorted(glob.glob(os.path.join(boot.VERIF, 'corpus', pid, '*.json')))
    ctxm = mp.get_context('fork')
    procs = {}
    results = {}
    for s in range(nshards):
        out = os.path.join(scratch, 'r{}.json'.format(s))
        p = ctxm.Process(target=shard_main, args=(pid, s, nshards, tier, seed, per_shard, deadline, scratch, out, corpus))
        p.start()
        procs[s] = (p, out)
    stop = False
    hard = time.time() + deadline + 200
    while len(results) < nshards:
        for s, (p, out) in procs.items():
            if s in results:
                continue
            if os.path.exists(out):
                with open(out) as f:
                    results[s] = json.load(f)
                if results[s]['violation']:
                    stop = True
            elif not p.is_alive() and not os.path.exists(out):
                results[s] = {'shard': s, 'evaluations': 0, 'distinct': [], 'events': {}, 'samples': [], 'violation': None,
                              'error': 'worker ended with code {}'.format(p.exitcode), 'corpus': 0, 'cut': 0}
        if stop or time.time() > hard:
            break
        time.sleep(0.05)
    for s, (p, out) in procs.items():
        if p.is_alive() and s not in results:
            p.terminate()
    for s, (p, out) in procs.items():
        p.join(10)
        if p.is_alive():
            p.kill()
            p.join()

    if not stop:
        for s in range(nshards):
            if s not in results:
                results[s] = {'shard': s, 'evaluations': 0, 'distinct': [], 'events': {}, 'samples': [], 'violation': None,
                              'error': 'worker gave no answer in time', 'corpus': 0, 'cut': 0}
    evaluations = sum(r['evaluations'] for r in results.values())
    distinct = set()
    events = Counter()
    samples = []
    for s in sorted(results):
        r = results[s]
        distinct.update(r['distinct'])
        events.update(r['events'])
        if len(samples) < 3:
            samples.extend(r['samples'][:1])
    errors = [r['error'] for r in results.values() if r['error']]
    found = [results[s]['violation'] | {'shard': s} for s in sorted(results) if results[s]['violation']]

    verdict = []
    unconfirmed = []
    known = [k for k in load_findings() if k.get('property') == pid and k.get('status') == 'open']
    for v in found:
        if any(k.get('case') == v['case'] for k in known):
            continue
        name = os.path.join(replays, '{}_{}.json'.format(pid, case_key(v['case'])))
        rec = {'property': pid, 'case': v['case'], 'message': v['message'], 'found': v['source']}
        err, bad = replay_once(pid, v['case'], scratch)
        if err is None and v['source'] == 'generated' and not bad:
            # only fails after the cases before it: keep the whole shard as the replay
            rec.update({'shard': v['shard'], 'nshards': nshards, 'tier': tier, 'seed': seed, 'examples': per_shard})
            unconfirmed.append(v)
        if bad:
            errors.append(bad)
            continue
        write_json(name, rec)
        verdict.append((name, err or v['message']))
    for k in known:
        if 'case' in k and not replay_once(pid, k['case'], scratch)[0]:
            continue    # it does not fail any more
        print('KNOWN-FINDING: property={} {}'.format(pid, k['what']))

    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(distinct),
            'rule': mod.RULE,
            'samples': samples,
            'classes': dict(sorted(events.items())),
            'corpus_cases_replayed': sum(r['corpus'] for r in results.values()),
            'shards': nshards,
            'cases_cut_by_time': sum(r['cut'] for r in results.values()),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(verdict),
    }
    if not a.no_evidence:
        write_json(os.path.join(boot.VERIF, 'evidence', '{}.json'.format(pid)), evidence)
    print('{} {} seed={}: {} cases, {} distinct non-trivial, {:.1f}s'.format(pid, tier, seed, evaluations, len(distinct), time.time() - t0))
    if verdict:
        for name, msg in verdict[:1]:
            print('  {}'.format(msg))
            print('VIOLATION property={} replay={}'.format(pid, name))
        return 1
    if errors:
        print(errors[0])
        print('check {}: error of the check'.format(pid))
        return 2
    return 0


def rerun_shard(pid, rec, scratch, path):
    out = os.path.join(scratch, 'r.json')
    p = mp.get_context('fork').Process(target=shard_main, args=(pid, rec['shard'], rec['nshards'], rec['tier'], rec['seed'],
                                                                rec['examples'], 3000, scratch, out, []))
    p.start()
    p.join()
    with open(out) as f:
        r = json.load(f)
    if r['violation']:
        print('  {}'.format(r['violation']['message']))
        print('VIOLATION property={} replay={}'.format(pid, path))
        return 1
    if r['error']:
        print(r['error'])
        return 2
    return 0
