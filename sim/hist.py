"""
Running one history: context of a case (simulations, statistics) and the grid plus model under test.
"""
import contextlib
import copy
import hashlib
import os
import traceback
from collections import Counter

import dask

from . import seams
from . import world as W
from .faults import Plan
from .model import Model
from .seams import SimCrash, WorkerLost, HarnessError
from .world import Violation, SkipRun

from bathygrid.convenience import load_grid


class Ctx:
    """One case: scratch directories, the simulations made for it and what they did."""

    def __init__(self, trace, base):
        self.trace = trace
        self.base = base
        self.root = os.path.join(base, 'r')
        self.snapdir = os.path.join(base, 's')
        for p in (base, self.root, self.snapdir):
            os.makedirs(p, exist_ok=True)
        self.sims = []
        self.plans = []
        self.stats = Counter()
        self.points = []             # fault points tried: (op, type, kind, pattern)
        self.nontrivial = False
        self.states = set()          # abstract states of the grid reached (hashes)

    def sim(self, tag, knobs=None, fault=None):
        s = seams.Sim('%s/%s' % (self.trace['sched'], tag), self.root, {**self.trace.get('knobs', {}), **(knobs or {})})
        if fault is not None:
            s.fault = fault if isinstance(fault, Plan) else Plan(fault)
            self.plans.append(s.fault)
        seams.set_current(s)
        self.sims.append(s)
        return s

    def path(self, name):
        return os.path.join(self.root, name)

    def count(self, name, n=1):
        self.stats[name] += n

    def summary(self):
        out = {'sims': len(self.sims), 'steps': 0, 'simulated_s': 0.0, 'fired': Counter(), 'kinds': Counter(),
               'executions': set(), 'interleavings': set(), 'switches': 0, 'stats': self.stats, 'points': self.points,
               'log': 0, 'states': self.states}
        for s in self.sims:
            out['steps'] += s.steps
            out['simulated_s'] += max(0.0, s.mono - 1000.0)
            out['fired'].update(s.fired)
            out['kinds'].update(s.kind_counts)
            out['executions'].add(s.loghash)
            for i in s.interleavings:
                if len(i) > 1:
                    out['interleavings'].add(hashlib.md5(repr(i).encode()).hexdigest()[:12])
            out['switches'] += s.switches
            out['log'] = seams.hash_str(out['log'], '%d' % s.loghash)
        return out


@contextlib.contextmanager
def settings(cfg):
    """Output silenced, chunk size of this case."""
    ch = cfg.get('chunk') or 0
    cm = dask.config.set({'array.chunk-size': '%dB' % ch}) if ch else contextlib.nullcontext()
    with W.quiet(), cm:
        yield


def where(e):
    tb = [f for f in traceback.extract_tb(e.__traceback__) if 'bathygrid' in f.filename]
    return ' in %s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else ''


def describe(e):
    return '%s: %s%s' % (type(e).__name__, str(e)[:200], where(e))


class Hist:
    """A grid and its model, going through a history."""

    def __init__(self, ctx, cfg, name='grid', backend=None, disk=None, light=False):
        self.ctx = ctx
        self.cfg = dict(cfg)
        if disk is not None:
            self.cfg['disk'] = disk
        if backend is not None:
            self.cfg['backend'] = backend
        self.prefix = name
        self.folder = ctx.path(name) if self.cfg['disk'] else ''
        self.m = Model(self.cfg, light=light)
        self.g = W.new_grid(self.cfg, self.folder)
        self.applied = []

    def apply(self, op, what='exception'):
        """False when the operation makes no sense here; an error of a sensible operation is a violation."""
        if not W.applicable(self.m, op):
            return False
        folder = self.folder
        try:
            if op['op'] == 'reload' and not self.on_disk():
                return False
            if op['op'] == 'save':
                if op.get('to'):
                    folder = self.ctx.path('%s_%s' % (self.prefix, op['to']))
                elif not self.on_disk():
                    return False
                if op.get('bar'):
                    with W.silent():
                        self.g.save(folder, progress_bar=True)
                else:
                    self.g.save(folder, progress_bar=False)
                self.folder = folder
            else:
                self.g = W.apply_op(self.g, op, self.cfg, self.folder)
        except (SimCrash, WorkerLost, HarnessError, Violation, SkipRun):
            raise
        except Exception as e:
            raise Violation(what, '%s failed without any fault: %s' % (show_op(op), describe(e)))
        W.model_apply(self.m, op)
        self.ctx.states.add(abstract(self.m))
        self.applied.append(op)
        self.ctx.count('op_' + op['op'])
        return True

    def on_disk(self):
        return bool(self.folder) and os.path.isdir(os.path.join(self.folder, self.g.name))

    def load(self, what='exception'):
        try:
            return load_grid(self.folder)
        except (SimCrash, HarnessError):
            raise
        except Exception as e:
            raise Violation(what, 'loading the grid failed without any fault: %s' % describe(e))


def abstract(m):
    """Hash of what a grid looks like without its numbers: tiles, their containers, resolutions and pending flags."""
    lp = m.leaf_points()
    if not lp:
        return 0
    x, y = min(k[0] for k in lp), min(k[1] for k in lp)
    names = {c: i for i, c in enumerate(sorted(m.containers))}
    s = sorted((k[0] - x, k[1] - y, tuple(sorted(names[c] for c in v)), tuple(sorted(m.leaves[k].cells)), m.leaves[k].changed) for k, v in lp.items())
    return seams.hash_str(0, repr((m.kind, m.cfg['backend'], m.cfg['disk'], m.algorithm, s)))


def show_op(op):
    k = op['op']
    if k == 'add':
        return 'add(%s, %d points)' % (op['name'], op['n'])
    if k == 'remove':
        return 'remove(%s)' % op['name']
    if k == 'grid':
        return 'grid(%s, %s%s%s%s)' % (op['alg'], op['res'] if op['res'] is not None else 'auto ' + op['mode'],
                                      ', update' if op['option'] == 'update' else '', ', clear' if op['clear'] else '',
                                      ', dask' if op.get('dask') else '')
    return k + ('(%s)' % op['to'] if op.get('to') else '')


def clone_grid(g):
    return copy.deepcopy(g)
