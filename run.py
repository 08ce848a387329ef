#!/usr/bin/env python3
"""
Runs one check:  run.py --property C01 [--tier quick|thorough] [--replay FILE]
Setup:           run.py --setup       (nothing to build: checks that interpreter, libraries and scratch space are there)
Determinism:     run.py --selftest    (every check: the same cases in other processes and order give the same executions)

Every case is generated from (property, VERIF_SEED, index) and executed in a process of its own, forked from one
that has everything loaded, so that a case is a pure function of its trace.  Exit 0: held on everything explored;
exit 1: VIOLATION property=<id> replay=<file>; anything else: the machinery is broken.
"""
import argparse
import copy
import json
import os
import pickle
import random
import re
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def reexec(hashseed):
    """The interpreter of the repository, with the hash seed of this run and without byte code in /repo."""
    want = {'PYTHONHASHSEED': str(hashseed), 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
            'MKL_NUM_THREADS': '1', 'NUMBA_NUM_THREADS': '1', 'GDAL_NUM_THREADS': '1', 'GDAL_PAM_ENABLED': 'NO', 'TZ': 'UTC',
            'MALLOC_ARENA_MAX': '2'}
    exe = PY if os.path.exists(PY) else sys.executable
    if all(os.environ.get(k) == v for k, v in want.items()) and os.environ.get('VERIF_CHILD') == exe:
        return
    os.environ.update(want)
    os.environ['VERIF_CHILD'] = exe
    os.execv(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:])


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return '/tmp'


class Machine:
    def __init__(self, prop):
        sys.path.insert(0, HERE)
        from sim import seams
        seams.install(REPO)
        from sim import checks, hist, world
        self.seams, self.checks, self.hist, self.world = seams, checks, hist, world
        self.prop = prop
        self.check_cls = checks.ALL[prop]
        self.known = load_known(prop)
        self.tmp = os.path.join(scratch_base(), 'bgsim.%d' % os.getpid())
        os.mkdir(self.tmp)

    def close(self):
        self.world.real_rmtree(self.tmp)

    def gen(self, seed, i, tier):
        rng = random.Random('%s-%s-%s' % (self.prop, seed, i))
        return json.loads(json.dumps(self.check_cls().gen(rng, tier)))

    # in the child
    def execute(self, trace, tag):
        """Runs one trace.  Returns a plain dictionary."""
        base = os.path.join(self.tmp, tag)
        seams, hist, world = self.seams, self.hist, self.world
        os.makedirs(base)
        ctx = hist.Ctx(trace, base)
        out = {'violation': None, 'error': None}
        chk = self.check_cls()
        try:
            with hist.settings(trace['cfg']):
                try:
                    chk.run(ctx)
                except world.Violation as e:
                    out['violation'] = (e.code, e.msg)
                    out['fault'] = getattr(e, 'fault', None)
                except seams.SimStuck as e:
                    out['violation'] = ('stuck', str(e))
                except seams.HarnessError as e:
                    out['error'] = 'HarnessError: %s\n%s' % (e, traceback.format_exc())
                except seams.SimCrash:
                    out['error'] = 'crash outside of the operation under test\n' + traceback.format_exc()
                except Exception as e:
                    if self.checks.where_repo(e):
                        out['violation'] = ('exception', hist.describe(e) + ' | ' + traceback.format_exc()[-1500:])
                    else:
                        out['error'] = traceback.format_exc()
        finally:
            seams.set_current(None)
            out.update(ctx.summary())
            out['nontrivial'] = bool(ctx.nontrivial)
            world.real_rmtree(base)
        return out

    # in the parent
    def spawn(self, trace, tag, cpu):
        r, w = os.pipe()
        pid = os.fork()
        if pid:
            os.close(w)
            return pid, r
        code = 3
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            import resource
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            signal.signal(signal.SIGXCPU, self._cpu)
            res = self.execute(trace, tag)
            data = pickle.dumps(res)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        except BaseException:
            try:
                sys.stderr.write(traceback.format_exc())
                sys.stderr.flush()
            except BaseException:
                pass
        finally:
            os._exit(code)

    def _cpu(self, *a):
        raise self.seams.SimStuck('the case used up its processor time without coming to an end')

    def run_many(self, jobs, nproc, cpu=120, deadline=None, stop=None):
        """jobs: iterable of (key, trace).  Yields (key, trace, result) as they complete."""
        jobs = iter(jobs)
        live = {}
        done = False
        n = 0
        try:
            while True:
                while not done and len(live) < nproc:
                    if deadline is not None and time.time() > deadline:
                        done = True
                        break
                    try:
                        key, trace = next(jobs)
                    except StopIteration:
                        done = True
                        break
                    n += 1
                    tag = 'c%d' % n
                    pid, fd = self.spawn(trace, tag, cpu)
                    live[fd] = [pid, key, trace, bytearray(), tag, time.time()]
                if not live:
                    return
                rs, _, _ = select.select(list(live), [], [], 5.0)
                for fd in list(live):
                    if fd not in rs and time.time() - live[fd][5] > cpu * 3:
                        try:
                            os.kill(live[fd][0], signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                for fd in rs:
                    b = os.read(fd, 1 << 20)
                    if b:
                        live[fd][3] += b
                        continue
                    os.close(fd)
                    pid, key, trace, buf, tag, t0 = live.pop(fd)
                    _, status = os.waitpid(pid, 0)
                    if status == 0 and buf:
                        res = pickle.loads(bytes(buf))
                    else:
                        self.world.real_rmtree(os.path.join(self.tmp, tag))
                        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGXCPU) or \
                                time.time() - t0 > cpu * 3:
                            what = 'processor time used up' if time.time() - t0 > cpu * 3 or os.WTERMSIG(status) == signal.SIGXCPU else \
                                'the process died with signal %d' % os.WTERMSIG(status)
                            res = {'violation': ('stuck', what), 'error': None}
                        else:
                            res = {'violation': None, 'error': 'case process ended with status %d' % status}
                    yield key, trace, res
                    if stop is not None and stop():
                        done = True
        finally:
            for fd, l in live.items():
                try:
                    os.kill(l[0], signal.SIGKILL)
                    os.waitpid(l[0], 0)
                except (ProcessLookupError, ChildProcessError):
                    pass
                os.close(fd)
                self.world.real_rmtree(os.path.join(self.tmp, l[4]))

    def run_one(self, trace, cpu=120):
        for _, _, r in self.run_many([(0, trace)], 1, cpu):
            return r

    # minimisation
    def shrink(self, trace, code, nproc, budget):
        """Smaller traces with a violation of the same code.  Deterministic up to the time allowed."""
        end = time.time() + budget
        best = trace
        best_res = None
        improved = True
        rounds = 0
        tried = 0
        while improved and time.time() < end:
            improved = False
            rounds += 1
            cands = list(self.simpler(best))
            base = best
            i = 0
            while i < len(cands) and time.time() < end:
                batch = cands[i:i + nproc]
                i += len(batch)
                got = {}
                tried += len(batch)
                for k, t, r in self.run_many(list(enumerate(batch)), nproc):
                    if r['violation'] and r['violation'][0] == code:
                        got[k] = (t, r)
                if got:
                    k = min(got)
                    best, best_res = got[k]
                    improved = True
                    break
        return best, best_res, tried

    def simpler(self, t):
        ops = t['ops']
        n = len(ops)

        def with_ops(o, **kw):
            c = copy.deepcopy(t)
            c['ops'] = o
            c.update(kw)
            return c

        def without(a, b):
            o = copy.deepcopy(ops[:a] + ops[b:])
            kw = {}
            if 'split' in t:
                kw['split'] = t['split'] - max(0, min(b, t['split']) - a)
            if 'at' in t:
                kw['at'] = sorted({max(1, x - max(0, min(b, x) - a)) for x in t['at']})
            return with_ops(o, **kw)
        if n:
            size = n
            while size >= 1:
                for a in range(0, n, size):
                    if size < n or 'victim' in t or 'last' in t:
                        yield without(a, min(n, a + size))
                size //= 2
        for lst in ('variants', 'scheds', 'formats'):
            if lst in t and len(t[lst]) > (2 if lst == 'variants' else 1):
                for i in range(len(t[lst])):
                    c = copy.deepcopy(t)
                    del c[lst][i]
                    yield c
        if t.get('faults') and len(t['faults']) == 1:
            f = t['faults'][0]
            for k in ('again', 'peek', 'fresh'):
                if f.get(k):
                    c = copy.deepcopy(t)
                    c['faults'][0].pop(k)
                    yield c
            if f['spec'].get('torn') is not None:
                c = copy.deepcopy(t)
                c['faults'][0]['spec'].pop('torn')
                yield c
            if f['spec'].get('scope') not in (None, 'once'):
                c = copy.deepcopy(t)
                c['faults'][0]['spec']['scope'] = 'once'
                yield c
        for i, op in enumerate(ops + ([t['victim']] if 'victim' in t else []) + ([t['last']] if 'last' in t else [])):
            def put(new):
                c = copy.deepcopy(t)
                if i < n:
                    c['ops'][i] = new
                elif 'victim' in t:
                    c['victim'] = new
                else:
                    c['last'] = new
                return c
            if op['op'] == 'add':
                for m in {1, 2, op['n'] // 2}:
                    if 0 < m < op['n']:
                        yield put(dict(op, n=m))
                for k in ('form', 'files', 'mint', 'maxt', 'epsg', 'clusters', 'zmid'):
                    if op.get(k):
                        o = {a: b for a, b in op.items() if a != k}
                        if k == 'mint':
                            o.pop('maxt', None)
                        yield put(o)
                b = op['box']
                w, h = b[2] - b[0], b[3] - b[1]
                if max(w, h) > t['cfg'].get('tile', 16) / 4:
                    yield put(dict(op, box=[b[0], b[1], b[0] + w / 2, b[1] + h / 2]))
            if op['op'] == 'grid':
                if op.get('dask') and self.prop != 'C05':
                    yield put(dict(op, dask=False))
                if op.get('clear'):
                    yield put(dict(op, clear=False))
                if op.get('option') == 'update' and not ('last' in t and i >= n):
                    yield put(dict(op, option='full'))
                if op.get('mode') == 'density':
                    yield put(dict(op, mode='depth'))
            if op.get('appear'):
                yield put({k: v for k, v in op.items() if k != 'appear'})
        if t.get('calls', 0) > 1:
            yield dict(copy.deepcopy(t), calls=t['calls'] // 2)
        for k, v in (('p_switch', 0.0), ('p_lost', 0.0), ('p_dup', 0.0), ('clock', 'run'), ('workers', 1), ('existing_client', False)):
            if t.get('knobs', {}).get(k, v) != v:
                c = copy.deepcopy(t)
                c['knobs'][k] = v
                yield c
        for k, v in (('bs', False), ('fields', ''), ('chunk', 0), ('origin', None), ('zdt', 'f8')):
            if t['cfg'].get(k, v) != v:
                c = copy.deepcopy(t)
                if v is None:
                    c['cfg'].pop(k)
                else:
                    c['cfg'][k] = v
                yield c


def load_known(prop):
    """finding: property=<id> code=<code> match=/<regular expression over the message>/ <what fails>"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            m = re.match(r'finding: property=(\S+) code=(\S+) match=/(.*?)/ (.*)$', line.strip())
            if m and m.group(1) == prop:
                out.append({'code': m.group(2), 're': re.compile(m.group(3)), 'what': m.group(4)})
    return out


def is_known(known, v):
    for k in known:
        if k['code'] == v[0] and k['re'].search(v[1]):
            return k
    return None


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1)
    os.replace(tmp, path)


def code_id():
    try:
        return subprocess.run(['git', '-C', REPO, 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
    except OSError:
        return ''


def brief(trace):
    def op(o):
        s = {k: v for k, v in o.items() if k in ('op', 'name', 'n', 'alg', 'res', 'mode', 'option', 'clear', 'dask', 'form', 'to', 'kind')}
        return s
    b = {'cfg': trace['cfg'], 'ops': [op(o) for o in trace['ops']]}
    for k in ('victim', 'last', 'split', 'at'):
        if k in trace:
            b[k] = op(trace[k]) if isinstance(trace[k], dict) else trace[k]
    b['knobs'] = trace.get('knobs')
    b['sched'] = trace.get('sched')
    return b


REAL_COMPONENTS = ['bathygrid from the working tree of /repo, unmodified (grids, tiles, backends, algorithms, journal, conversion)',
                   'zarr, numcodecs, numpy, xarray, dask graphs, json, shutil', 'GDAL and h5py (exports only, outside the simulated storage)']
STUB_COMPONENTS = ['storage: open/mkdir/rename/replace/unlink/rmdir/listdir/scandir of the interpreter go through the simulator to a tmpfs folder',
                   'clock: time.time/monotonic/sleep and datetime.now/utcnow', 'dask.distributed client and workers', 'dask threaded scheduler',
                   'uuid4, order of directory listings']


def run_check(m, args, seed, nproc):
    cls = m.check_cls
    tier = args.tier
    total = args.cases or (cls.quick if tier == 'quick' else cls.thorough)
    t0 = time.time()
    deadline = t0 + (args.time or (240 if tier == 'quick' else 6 * 3600))
    agg = {'cases': 0, 'nontrivial': set(), 'sims': 0, 'steps': 0, 'simulated_s': 0.0, 'fired': {}, 'kinds': {}, 'executions': set(),
           'interleavings': set(), 'switches': 0, 'stats': {}, 'points': {}, 'states': set(), 'hits': 0}
    bad = []
    errors = []
    seen_known = {}
    logs = {}
    samples = []

    def jobs():
        for i in range(total):
            yield i, m.gen(seed, i, tier)

    for i, trace, r in m.run_many(jobs(), nproc, deadline=deadline, stop=lambda: bool(bad) or len(errors) > 3):
        agg['cases'] += 1
        if r['error']:
            errors.append((i, r['error']))
            continue
        if 'sims' in r:
            merge(agg, r, i, trace)
            logs[i] = r['log']
            if r['nontrivial'] and len(samples) < 3:
                samples.append({'index': i, **brief(trace), 'did': {k: v for k, v in r['stats'].items()}})
        if r['violation']:
            k = is_known(m.known, r['violation'])
            if k:
                seen_known.setdefault(k['what'], []).append(i)
            else:
                bad.append((i, trace, r))
    explore = time.time() - t0
    for e in errors[:3]:
        print('ERROR in case %s: %s' % e, file=sys.stderr)
    for k in m.known:
        print('KNOWN-FINDING: property=%s %s' % (m.prop, k['what']))
    code = 0
    if bad:
        bad.sort(key=lambda b: b[0])
        path = report(m, bad[0], seed, nproc, args)
        if path:
            print('VIOLATION property=%s replay=%s' % (m.prop, path))
            code = 1
        else:
            code = 2
    elif errors:
        code = 2
    if not args.no_evidence:
        write_evidence(m, cls, args, seed, agg, samples, explore, time.time() - t0, len(bad), logs, nproc)
    if args.loghash:
        print('LOGHASH %s' % ' '.join('%d:%d' % (k, logs[k]) for k in sorted(logs)))
    if code == 0:
        print('OK property=%s cases=%d nontrivial=%d simulations=%d steps=%d in %.1f s' % (
            m.prop, agg['cases'], len(agg['nontrivial']), agg['sims'], agg['steps'], time.time() - t0))
    return code


def merge(agg, r, i, trace):
    for k in ('sims', 'steps', 'simulated_s', 'switches'):
        agg[k] += r[k]
    for k in ('fired', 'kinds', 'stats'):
        for a, b in r[k].items():
            agg[k][a] = agg[k].get(a, 0) + b
    agg['executions'] |= r['executions']
    agg['interleavings'] |= r['interleavings']
    agg['states'] |= r['states']
    for p in r['points']:
        agg['points'][p] = agg['points'].get(p, 0) + 1
    if r['nontrivial']:
        agg['hits'] += 1
        agg['nontrivial'].add(hash(json.dumps({k: v for k, v in trace.items() if k != 'sched'}, sort_keys=True)))


def report(m, bad, seed, nproc, args):
    i, trace, r = bad
    vcode, msg = r['violation']
    print('case %d of seed %s: %s: %s' % (i, seed, vcode, msg))
    # the same again, to be sure, with the fault pinned
    best = trace
    if r.get('fault') is not None:
        c = copy.deepcopy(trace)
        c['faults'] = [r['fault']]
        r2 = m.run_one(c)
        if r2['violation'] and r2['violation'][0] == vcode:
            best, r = c, r2
    original = best
    tried = 0
    if args.shrink:
        pinned = best.get('faults') is not None
        if pinned:
            # first with all fault points open, so that the history can become shorter, then with the fault fixed
            free = copy.deepcopy(best)
            free['faults'] = None
            s, sr, n1 = m.shrink(free, vcode, nproc, args.shrink * 0.6)
            tried += n1
            if sr is not None and sr.get('fault') is not None:
                c = copy.deepcopy(s)
                c['faults'] = [sr['fault']]
                r2 = m.run_one(c)
                if r2['violation'] and r2['violation'][0] == vcode:
                    best, r = c, r2
        s, sr, n2 = m.shrink(best, vcode, nproc, args.shrink * (0.4 if pinned else 1.0))
        tried += n2
        if sr is not None:
            best, r = s, sr
    path = os.path.join(HERE, 'replays', '%s-%s-%d.json' % (m.prop, seed, i))
    for t in (best, original):
        rr = m.run_one(t)
        if not rr['violation'] or rr['violation'][0] != vcode:
            continue
        write_json(path, {'property': m.prop, 'violation': {'code': rr['violation'][0], 'message': rr['violation'][1]}, 'verif_seed': seed,
                          'case': i, 'hashseed': os.environ.get('PYTHONHASHSEED'), 'shrunk_from': {'ops': len(trace['ops']), 'candidates_tried': tried},
                          'ops': len(t['ops']), 'log': rr.get('log'), 'repo_head': code_id(), 'trace': t})
        p = subprocess.run([sys.executable, os.path.abspath(__file__), '--property', m.prop, '--replay', path], capture_output=True, text=True)
        if p.returncode == 1 and 'VIOLATION property=%s' % m.prop in p.stdout:
            print('minimised from %d to %d operations; %s: %s' % (len(trace['ops']), len(t['ops']), rr['violation'][0], rr['violation'][1]))
            return path
        print('replay in a fresh process ended with %s: %s %s' % (p.returncode, p.stdout[-500:], p.stderr[-500:]))
    return None


def replay(m, path):
    with open(path) as f:
        d = json.load(f)
    r = m.run_one(d['trace'])
    if r['error']:
        print('ERROR: ' + r['error'], file=sys.stderr)
        return 2
    if r['violation']:
        print('%s: %s' % r['violation'])
        if d.get('log') is not None and r.get('log') != d['log']:
            print('note: the event log differs from the recorded one (%s, %s)' % (r.get('log'), d['log']))
        print('VIOLATION property=%s replay=%s' % (m.prop, path))
        return 1
    print('the replay does not violate %s on this tree' % m.prop)
    return 0


def write_evidence(m, cls, args, seed, agg, samples, explore, wall, violations, logs, nproc):
    hours = max(explore, 1e-6) / 3600.0
    level = cls.level
    cov = {
        'evaluations': agg['sims'],
        'distinct_nontrivial': len(agg['nontrivial']) if level == 'exploration' else len(agg['points']),
        'rule': cls.rule + (' Evaluations counts simulated executions; distinct_nontrivial counts '
                            + ('distinct non-trivial histories.' if level == 'exploration' else
                               'distinct kinds of fault points hit (operation, fault, kind of step, kind of file).')),
        'samples': samples or [{'note': 'no non-trivial case'}],
        'histories': agg['cases'], 'histories_nontrivial': agg['hits'],
        'runs_per_hour': int(agg['sims'] / hours), 'seeds_per_hour': int(agg['cases'] / hours), 'workers': nproc,
        'simulated_seconds': round(agg['simulated_s'], 3), 'storage_steps': agg['steps'], 'steps_by_kind': dict(sorted(agg['kinds'].items())),
        'faults_injected': dict(sorted(agg['fired'].items())),
        'distinct_executions_by_event_log': len(agg['executions']),
        'distinct_task_interleavings': len(agg['interleavings']), 'task_switches': agg['switches'],
        'distinct_abstract_states': len(agg['states']),
        'counts': dict(sorted(agg['stats'].items())),
        'components_real': REAL_COMPONENTS, 'components_simulated': STUB_COMPONENTS,
        'hashseed': os.environ.get('PYTHONHASHSEED'), 'repo_head': code_id(),
    }
    if level == 'fault_enumeration':
        cov['fault_points'] = sum(agg['points'].values())
        top = sorted(agg['points'].items(), key=lambda x: -x[1])
        cov['fault_points_by_place'] = dict(top[:60])
    write_json(os.path.join(HERE, 'evidence', m.prop + '.json'), {
        'property': m.prop, 'tier': args.tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(wall, 2), 'violations': violations,
        'assumptions': ['a crash is the death of the process: what had been handed to the file system survives, in order',
                        'the storage, clock and cluster simulators behave like the real ones within the modelled faults']})


def setup():
    exe = PY if os.path.exists(PY) else sys.executable
    r = subprocess.run([exe, '-c', 'import numpy, dask.array, zarr, xarray, h5py; from osgeo import gdal; print(numpy.__version__, zarr.__version__, gdal.__version__)'],
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True)
    print(exe, r.stdout.strip(), r.stderr.strip()[-500:])
    base = scratch_base()
    print('scratch space in', base)
    return r.returncode


def selftest(args):
    """The same cases twice, with other worker counts (and so other processes and order): the logs must be identical."""
    with open(os.path.join(HERE, 'MANIFEST.json')) as f:
        props = [args.property] if args.property else [c['property'] for c in json.load(f)['checks']]
    bad = 0
    for p in props:
        out = []
        for jobs in (8, 3):
            r = subprocess.run([sys.executable, os.path.abspath(__file__), '--property', p, '--cases', str(args.cases or 10), '--loghash', '--no-evidence',
                                '--shrink', '1', '--jobs', str(jobs)], capture_output=True, text=True)
            out.append([l for l in r.stdout.split('\n') if l.startswith('LOGHASH')])
        same = out[0] == out[1] and out[0] and len(out[0][0]) > 10
        bad += not same
        print('%s %s' % (p, 'same' if same else 'DIFFERENT: %s' % out), flush=True)
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--time', type=float)
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--shrink', type=float, default=60.0)
    ap.add_argument('--loghash', action='store_true')
    ap.add_argument('--case', type=int, help='one case, with its trace')
    ap.add_argument('--hashseed')
    args = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    if args.setup:
        return setup()
    if args.selftest:
        return selftest(args)
    if not args.property:
        ap.error('--property is missing')
    hs = args.hashseed
    if args.replay:
        with open(args.replay) as f:
            hs = json.load(f).get('hashseed', 0)
    reexec(hs if hs is not None else seed % 4096)
    nproc = args.jobs or min(8, os.cpu_count() or 1)
    m = Machine(args.property)
    try:
        m.check_cls.warm(m)
        if args.replay:
            return replay(m, args.replay)
        if args.case is not None:
            t = m.gen(seed, args.case, args.tier)
            print(json.dumps(t, indent=1))
            r = m.run_one(t)
            print(r['violation'], r['error'], r.get('stats'), r.get('nontrivial'), r.get('log'))
            return 0
        return run_check(m, args, seed, nproc)
    finally:
        m.close()


if __name__ == '__main__':
    sys.exit(main())
