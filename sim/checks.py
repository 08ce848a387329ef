"""
One class per property: gen(rng, tier) makes a trace (plain data), run(ctx) executes it and raises Violation.
"""
import calendar
import copy
import math
import os
import random
import re

import numpy as np

from . import cube
from . import seams
from . import views
from . import world as W
from .faults import Plan
from .hist import Ctx, Hist, settings, describe, show_op, clone_grid
from .model import Model, close, origin_of
from .seams import SimCrash, WorkerLost, HarnessError, REAL
from .world import Violation, SkipRun

from bathygrid.convenience import load_grid, create_grid, is_bathygrid


def gen_knobs(rng, dask=False):
    k = {'workers': rng.choice([1, 2, 3, 5, 8]), 'p_switch': rng.choice([0.0, 0.1, 0.5, 0.9]),
         'defer': rng.choice([0.0, 0.5, 1.0]), 'clock': rng.choice(['run', 'run', 'stall', 'jump']),
         'tz': rng.choice(['UTC', 'UTC', 'AAA5', 'BBB-9:30'])}
    if dask:
        k['p_lost'] = rng.choice([0.0, 0.1, 0.4])
        k['p_dup'] = rng.choice([0.0, 0.0, 0.3])
        k['existing_client'] = rng.random() < 0.3
    return k


def trace_of(rng, cfg, ops, **kw):
    t = {'cfg': cfg, 'ops': ops, 'knobs': gen_knobs(rng, kw.pop('dask', False)), 'sched': rng.getrandbits(40)}
    t.update(kw)
    return t


class Check:
    @staticmethod
    def warm(machine):
        """Everything that is built on first use, before the cases are forked."""
        from .hist import Ctx as C
        base = os.path.join(machine.tmp, 'warm')
        os.makedirs(base)
        for kind, backend in (('sr', 'numpy'), ('vr', 'zarr')):
            rng = random.Random('warm')
            cfg = W.gen_cfg(rng, kind=kind, backend=backend, disk=True, bs=False)
            t = trace_of(rng, cfg, [])
            with settings(cfg):
                ctx = C(t, os.path.join(base, kind))
                ctx.sim('warm')
                h = Hist(ctx, cfg, light=False)
                g = W.HistoryGen(rng, cfg, auto=0.5, dask=0.5, forms=True)
                for op in [g.add_op(), {'op': 'grid', 'alg': 'mean', 'res': None, 'mode': 'depth', 'option': 'full', 'clear': False, 'dask': True},
                           {'op': 'reload'}]:
                    try:
                        h.apply(op)
                        W.snapshot(h.g)
                    except Exception:
                        pass
        seams.set_current(None)
        W.real_rmtree(base)

    level = 'exploration'
    technique = 'deterministic simulation: seeded histories on the real library under simulated storage, clock and workers, checked against a reference model'
    quick, thorough = 400, 8000
    rule = ''

    def gen(self, rng, tier):
        raise NotImplementedError

    def run(self, ctx):
        raise NotImplementedError


# -- C01, C03, C13, C14, C17: histories against the model -------------------------------------------------------------

class ModelCheck(Check):
    n_ops = (6, 12)
    light = True
    profile = {}
    hist = {}
    cfgkw = {}

    def gen(self, rng, tier):
        cfg = W.gen_cfg(rng, **self.cfg_args(rng))
        gen = W.HistoryGen(rng, cfg, profile=self.profile, **self.hist_args(rng))
        n = rng.randint(*self.n_ops) + (4 if tier == 'thorough' else 0)
        return trace_of(rng, cfg, gen.history(n), dask=True)

    def cfg_args(self, rng):
        return dict(origin=True)

    def hist_args(self, rng):
        return dict(forms=True)

    def start(self, ctx, h):
        pass

    def before(self, ctx, h, op):
        pass

    def after(self, ctx, h, op):
        raise NotImplementedError

    def finish(self, ctx, h):
        pass

    def run(self, ctx):
        t = ctx.trace
        sim = ctx.sim('main')
        h = Hist(ctx, t['cfg'], light=self.light)
        self.start(ctx, h)
        done = 0
        for op in t['ops']:
            self.before(ctx, h, op)
            if h.apply(op):
                done += 1
                self.after(ctx, h, op)
        if h.on_disk():
            h.g = h.load()
            self.after(ctx, h, {'op': 'reload'})
        self.finish(ctx, h)
        ctx.nontrivial = done >= 3 and len(h.m.files) + sum(o['op'] == 'remove' for o in h.applied) >= 2


class C01(ModelCheck):
    profile = {'add': 5, 'remove': 3, 'grid': 1.5, 'save': 0.5}
    rule = 'random history of adds, removals, griddings, saves, restarts; after each operation the points, their attribution and the counts of every tile are compared with the model. Non-trivial: at least three operations took effect and at least two containers were involved.'

    def after(self, ctx, h, op):
        if op['op'] != 'grid':
            W.check_points(h.g, h.m)
            ctx.count('compared')


class C03(ModelCheck):
    light = False
    profile = {'add': 3, 'remove': 1.5, 'grid': 4, 'save': 0.4}
    rule = 'random history rich in griddings (resolutions, automatic modes, algorithms, update/full, clear, dask); after each gridding and restart every layer of every tile is compared with plain loops over the points the model says are there. Non-trivial as for C01 and at least one gridding compared.'

    def hist_args(self, rng):
        return dict(forms=False, dask=0.25, leaf_cap=24, max_n=rng.choice([30, 60]), auto=0.4)

    def after(self, ctx, h, op):
        if op['op'] in ('grid', 'reload', 'save'):
            ctx.stats['tiles_compared'] += W.check_layers(h.g, h.m)
            ctx.count('compared')


class C13(ModelCheck):
    profile = {'add': 6, 'remove': 2, 'grid': 0.5, 'save': 0.4, 'reload': 2}
    rule = 'random history rich in growth in all directions, with other origins; after each operation extents, edges, origins, shapes and the place, name and bounds of every tile are recomputed. Non-trivial as for C01.'

    def hist_args(self, rng):
        return dict(max_n=8, span=rng.choice([2.2, 4.5]), max_cont=9, leaf_cap=60)

    def start(self, ctx, h):
        self.prev = None
        self.tiles = {}

    def after(self, ctx, h, op):
        if h.m.leaves and h.g.tiles is None:
            raise Violation('layout', 'no tiles')
        if not h.m.leaves:
            self.prev = None         # a grid that was emptied starts anew
            return
        self.prev = W.check_layout(h.g, h.m, self.prev)
        # growing moves no data: points are where they were
        want = h.m.leaf_points()
        have = {h.m.key_of(t.min_x, t.min_y): t for _, _, t in W.leaf_iter(h.g)}
        if set(want) != set(have):
            raise Violation('layout', 'tiles at %s, expected %s' % (sorted(have), sorted(want)))
        for k, t in have.items():
            n = sum(len(p) for p in want[k].values())
            if t.points_count != n:
                raise Violation('layout', 'tile %s has %s points, %d belong there' % (t.name, t.points_count, n))
        ctx.count('compared')


class C14(ModelCheck):
    profile = {'add': 3, 'remove': 2, 'grid': 4, 'save': 0.3}
    rule = 'random history with automatic resolution in nearly every gridding, with mean depths around and exactly on the bounds of the depth bands; after each gridding and restart the resolutions of every tile and those reported are compared with the rule applied to the points. Non-trivial as for C01 and at least one automatic gridding.'

    def cfg_args(self, rng):
        return dict(kind=rng.choice(['vr', 'vr', 'vr', 'sr']))

    def gen(self, rng, tier):
        dense = rng.random() < 0.35
        cfg = W.gen_cfg(rng, **self.cfg_args(rng))
        hist = self.hist_args(rng)
        if dense:
            # several of the coarse cells of the density rule in a tile
            cfg['tile'] = rng.choice([32, 64])
            cfg['sub'] = rng.choice([32, cfg['tile']]) if cfg['kind'] == 'vr' else 0
            hist.update(density=0.85)
        gen = W.HistoryGen(rng, cfg, profile=self.profile, **hist)
        t = trace_of(rng, cfg, gen.history(rng.randint(*self.n_ops) + (4 if tier == 'thorough' else 0)), dask=True)
        if dense:
            # all of a tile covered, with very different numbers of points
            for op in t['ops']:
                if op['op'] == 'add' and rng.random() < 0.6:
                    x, y = [math.floor((op['box'][i] - o) / t['cfg']['tile']) * t['cfg']['tile'] + o for i, o in enumerate(origin_of(t['cfg']))]
                    op.update(box=[x, y, x + t['cfg']['tile'], y + t['cfg']['tile']], n=rng.choice([30, 60, 120]), edge=0.0)
                    op.pop('clusters', None)
                elif op['op'] == 'add' and rng.random() < 0.6:
                    op.update(clusters=1, n=rng.choice([60, 250]), snap=2.0, edge=0.0)
        # batches centred exactly on a bound of the lookup
        for op in t['ops']:
            if op['op'] == 'add' and rng.random() < 0.35:
                op['zmid'] = rng.choice([20, 40, 60, 80, 160, 19.75, 60.25] + ([0, 10] if t['cfg']['tile'] <= 32 else []))
        return t

    def hist_args(self, rng):
        return dict(auto=0.92, density=rng.choice([0.1, 0.5]), max_n=rng.choice([30, 30, 120]), dask=0.2, leaf_cap=24,
                    option_update=0.4)

    def after(self, ctx, h, op):
        if op['op'] not in ('grid', 'reload'):
            return
        for _, _, t in W.leaf_iter(h.g):
            lf = h.m.leaves.get(h.m.key_of(t.min_x, t.min_y))
            if lf is not None and sorted(float(r) for r in t.cells) != sorted(lf.cells):
                raise Violation('resolution', 'tile %s has resolutions %s, the rule gives %s (%d points, mean depth %s)'
                                % (t.name, sorted(t.cells), sorted(lf.cells), t.points_count, t.mean_depth))
            ctx.count('tiles_compared')
        W.check_resolutions(h.g, h.m)
        ctx.count('compared')


class C17(ModelCheck):
    profile = {'add': 4, 'remove': 2, 'grid': 1.5, 'reject': 1.0, 'save': 0.5, 'reload': 1.5}
    rule = 'random history with refused calls under running, stalled and jumping clocks; after each operation times, containers with their lines and time stamps, coordinate system, references, algorithm and the attribution are compared with the model. Non-trivial as for C01.'

    def hist_args(self, rng):
        return dict(max_n=6, max_cont=8)

    def start(self, ctx, h):
        self.stamps = {}

    def before(self, ctx, h, op):
        seams.CUR.clock_reads = []

    def after(self, ctx, h, op):
        g = h.g
        if op['op'] == 'reject':
            do_reject(h, op)
        if op['op'] == 'add':
            ok = {W.fmt_stamp(t) for t in seams.CUR.clock_reads}
            s = g.container_timestamp.get(op['name'])
            if s not in ok:
                raise Violation('metadata', 'container %s has the time stamp %s, it was added at %s' % (op['name'], s, sorted(ok)))
            self.stamps[op['name']] = s
        self.stamps = {k: v for k, v in self.stamps.items() if k in h.m.containers}
        W.check_metadata(g, h.m, stamps=self.stamps)
        a = g.return_attribution()
        want = {'epsg': h.m.epsg, 'vertical_reference': h.m.vref, 'grid_algorithm': h.m.algorithm,
                'grid_resolution': h.m.grid_resolution, 'minimum_time_utc': W.fmt_time(h.m.min_time),
                'maximum_time_utc': W.fmt_time(h.m.max_time), 'tile_count': h.m.tile_count(), 'name': g.name,
                'storage_type': h.cfg['backend'], 'tile_size': h.cfg['tile'], 'subtile_size': h.cfg['sub'],
                'grid_folder': h.folder}
        for k, v in want.items():
            if W.norm(a.get(k)) != W.norm(v) and not (k == 'tile_count' and not a.get(k) and not v):
                raise Violation('attribution', 'attribution: %s is %r, expected %r' % (k, a.get(k), v))
        src = {k[7:]: v for k, v in a.items() if k.startswith('source_')}
        wsrc = {c: {'time': self.stamps[c], 'multibeam_lines': h.m.files[c]} for c in h.m.containers}
        if src != wsrc:
            raise Violation('attribution', 'attribution lists %s, expected %s' % (W._short(src), W._short(wsrc)))
        ctx.count('compared')


class C20(ModelCheck):
    quick = 260
    technique = 'deterministic simulation: slope layers asked for at seeded points of a history, compared with planes fitted by the reference model'
    profile = {'add': 3, 'remove': 1.5, 'grid': 3, 'save': 0.3, 'reload': 1}
    rule = 'random history with slope layers asked for in between, of single tiles or the whole grid; each is compared with the plane through the points that are in the cell now, for all cells whose points determine one. Non-trivial as for C01 and at least one cell compared.'

    def hist_args(self, rng):
        return dict(dask=0.1, leaf_cap=24, max_n=rng.choice([60, 400, 400]), auto=0.3, span=rng.choice([0.5, 2.2]))

    def gen(self, rng, tier):
        t = super().gen(rng, tier)
        for op in t['ops']:
            if op['op'] == 'add' and rng.random() < 0.5:
                op['n'] = max(op['n'], rng.choice([50, 400]))
                op['clusters'] = rng.choice([1, 2])
                op['snap'] = rng.choice([0.5, 1.0, 4.0])
                op['edge'] = 0.0
        t['ask'] = rng.choice([0.4, 0.8])
        return t

    def after(self, ctx, h, op):
        rng = random.Random('slopes-%s-%d' % (ctx.trace['sched'], len(h.applied)))
        if rng.random() > ctx.trace['ask'] or h.g.no_grid:
            return
        lp = h.m.leaf_points()
        whole = rng.random() < 0.4
        layers = ['x_slope', 'y_slope']
        rng.shuffle(layers)
        for rez in sorted({r for lf in h.m.leaves.values() for r in lf.cells}):
            if whole:
                got = h.g.get_layers_by_name(list(layers), rez)
            for _, _, t in W.leaf_iter(h.g):
                k = h.m.key_of(t.min_x, t.min_y)
                if rez not in h.m.leaves[k].cells:
                    continue
                n = int(round(h.m.leaf / rez))
                if whole:
                    i, j = int(round((t.min_y - h.g.min_y) / rez)), int(round((t.min_x - h.g.min_x) / rez))
                    s = {l: None if got is None else a[i:i + n, j:j + n] for l, a in zip(layers, got or layers)}
                elif rng.random() < 0.3:
                    continue
                else:
                    s = {l: t.get_layers_by_name(l, rez) for l in layers}
                ctx.stats['cells_compared'] += W.check_slopes(s, lp[k], h.m.origin_of(k), h.m.leaf, rez, t.name)
                ctx.count('compared')

    def finish(self, ctx, h):
        for a in ('layer_names', 'return_layer_names'):
            v = getattr(h.g, a)
            v = v() if callable(v) else v
            if set(v) & {'x_slope', 'y_slope'}:
                raise Violation('slopes', '%s lists the temporary slope layers: %s' % (a, v))


# -- C02: live and loaded ------------------------------------------------------------------------------------------------

class C02(Check):
    quick = 300
    rule = 'random history on a disk-backed grid; after each operation a fresh load is compared with the live grid (everything a grid can answer), then the rest of the history runs on the live grid and on a loaded copy, which must end the same, and neither may touch the folder of the other. Non-trivial: at least three operations took effect and one continuation was compared.'

    def gen(self, rng, tier):
        cfg = W.gen_cfg(rng, disk=True, origin=True)
        gen = W.HistoryGen(rng, cfg, profile={'save': 0.5, 'reload': 0.5}, leaf_cap=30, dask=0.1)
        ops = gen.history(rng.randint(4, 8) + (3 if tier == 'thorough' else 0))
        return trace_of(rng, cfg, ops, split=rng.randrange(1, len(ops)), dask=True)

    def run(self, ctx):
        t = ctx.trace
        ctx.sim('main')
        h = Hist(ctx, t['cfg'], light=True)
        twin = None
        done = 0
        for i, op in enumerate(t['ops']):
            if i == t['split'] and h.on_disk():
                twin = self.fork(ctx, h)
            if not h.apply(op):
                continue
            done += 1
            if twin is not None:
                live, copied = W.dir_digest(h.folder), twin.digest
                d = W.diff_digest(copied, W.dir_digest(twin.folder))
                if d:
                    raise Violation('separate', 'an operation on the grid (%s) changed the folder of its copy: %s' % (op['op'], d))
                twin.apply(op, what='continue')
                twin.digest = W.dir_digest(twin.folder)
                d = W.diff_digest(live, W.dir_digest(h.folder))
                if d:
                    raise Violation('separate', 'an operation on a loaded copy (%s) changed the folder it was copied from: %s' % (op['op'], d))
                ctx.count('separate')
            if h.on_disk() and (op['op'] != 'reload'):
                g2 = h.load(what='load')
                compare_live(ctx, h.g, g2, h.cfg)
                for what in ('return_unique_containers', 'return_attribution', 'return_layer_names'):
                    if what == 'return_layer_names' and h.g.no_grid:
                        continue
                    x, y = list(getattr(h.g, what)()), list(getattr(g2, what)())
                    if x != y:
                        raise Violation('load', 'the loaded grid differs from the live one: %s gives %s / %s' % (what, x, y))
        if twin is not None:
            a, b = W.snapshot(h.g), W.snapshot(twin.g)
            d = W.diff_snap(a, b, ignore_meta=('container_timestamp',))
            if d:
                raise Violation('continue', 'continuing on the loaded grid differs from continuing on the live one (live / loaded): ' + d)
            ctx.count('continued')
        ctx.nontrivial = done >= 3

    def fork(self, ctx, h):
        tw = copy.copy(h)
        tw.m = h.m.clone()
        tw.applied = []
        tw.prefix = 'twin'
        tw.folder = ctx.path('twin')
        W.copy_tree(h.folder, tw.folder)
        tw.digest = W.dir_digest(tw.folder)
        tw.g = tw.load(what='load')
        return tw


def compare_live(ctx, live, loaded, cfg, code='load', exact=True):
    a, b = W.snapshot(live), W.snapshot(loaded)
    d = W.diff_snap(a, b, exact=exact)
    if d:
        raise Violation(code, 'the loaded grid differs from the live one (live / loaded): ' + d)
    for k in ('points_count', 'is_empty', 'no_grid', 'point_count_changed', 'has_vertical_uncertainty',
              'has_horizontal_uncertainty', 'positive_up', 'depth_key', 'output_folder', 'cell_count'):
        x, y = getattr(live, k), getattr(loaded, k)
        if k == 'output_folder':
            x, y = os.path.abspath(x), os.path.abspath(y)
        if k.startswith('has_'):
            x, y = bool(x), bool(y)
        if x != y:
            raise Violation(code, 'the loaded grid differs from the live one: %s is %s / %s' % (k, x, y))
    if sorted(live.layer_names) != sorted(loaded.layer_names):
        raise Violation(code, 'the loaded grid differs from the live one: layers %s / %s' % (live.layer_names, loaded.layer_names))
    ctx.count('compared')
    return a, b


# -- C04: update equals full ---------------------------------------------------------------------------------------------

class C04(Check):
    rule = 'random history of adds, removals, griddings with one set of settings, restarts, ending with a gridding in update mode; compared cell for cell with a new grid of the same points gridded at once; tiles without changes must keep their layers. Non-trivial: at least one gridding happened before the last change.'
    quick = 300

    def gen(self, rng, tier):
        kind = rng.choice(['sr', 'vr', 'vr'])
        cfg = W.gen_cfg(rng, kind=kind, origin=True)
        gen = W.HistoryGen(rng, cfg, profile={'grid': 3, 'reload': 1.5, 'remove': 3, 'save': 0.5}, same_settings=True, one_alg=True,
                           auto=0.0 if kind == 'sr' else 0.5, clear=0.05, option_update=0.85, dask=0.2, leaf_cap=36)
        ops = gen.history(rng.randint(4, 10) + (4 if tier == 'thorough' else 0))
        return trace_of(rng, cfg, ops, last=gen.upto_grid(), dask=True)

    def run(self, ctx):
        t = ctx.trace
        ctx.sim('main')
        h = Hist(ctx, t['cfg'], light=True)
        grids = 0
        for op in t['ops'] + [t['last']]:
            kept = {}
            if op['op'] == 'grid' and op['option'] == 'update' and not op['clear'] and W.applicable(h.m, op):
                for _, _, tl in W.leaf_iter(h.g):
                    k = h.m.key_of(tl.min_x, tl.min_y)
                    if k in h.m.leaves and not h.m.leaves[k].changed:
                        kept[k] = W.snap_leaf(tl)
            if not h.apply(op):
                continue
            if op['op'] == 'grid':
                grids += 1
                have = {h.m.key_of(tl.min_x, tl.min_y): tl for _, _, tl in W.leaf_iter(h.g)}
                for k, s in kept.items():
                    d = W.diff_leaf(s, W.snap_leaf(have[k]) if k in have else None, exact=True)
                    if d:
                        raise Violation('kept', 'update changed tile %s, whose points had not changed (before / after): %s' % (s['name'], d))
                    ctx.count('tiles_kept')
                W.check_changed(h.g, h.m)
        if not h.m.leaves or not h.applied or h.applied[-1]['op'] != 'grid':
            return
        # the same from nothing
        ref = Hist(ctx, t['cfg'], name='ref', disk=False, light=True)
        for name, pts in h.m.containers.items():
            ref.g.add_points(pts.copy(), name, None, h.m.epsg, h.m.vref, progress_bar=False)
        op = t['last']
        ref.g.grid(op['alg'], op['res'], auto_resolution_mode=op['mode'], progress_bar=False)
        a = {k: v for k, v in W.snapshot(h.g)['leaves'].items()}
        b = {k: v for k, v in W.snapshot(ref.g)['leaves'].items()}
        if sorted(a) != sorted(b):
            raise Violation('update', 'tiles %s, from nothing %s' % (sorted(a), sorted(b)))
        for k in a:
            lf = h.m.leaves[h.m.key_of(*a[k]['bounds'][:2])]
            if sorted(a[k]['cells']) != sorted(lf.cells):
                raise Violation('update', 'tile %s has resolutions %s, expected %s' % (k, sorted(a[k]['cells']), sorted(lf.cells)))
            # a full gridding without clearing keeps what the tile has at other resolutions
            d = W.diff_cells({lf.last: a[k]['cells'][lf.last]}, b[k]['cells'])
            if d:
                raise Violation('update', 'tile %s differs from gridding everything from nothing (update / from nothing): %s' % (k, d))
            ctx.count('tiles_compared')
        r = sorted({x for l in a.values() for x in l['cells']})
        if sorted(h.g.resolutions) != r:
            raise Violation('update', 'resolutions %s, the tiles have %s' % (h.g.resolutions, r))
        ctx.nontrivial = grids >= 2


# -- C05: parallel equals sequential ------------------------------------------------------------------------------------

class C05(Check):
    technique = 'deterministic simulation: real gridding tasks on a simulated dask cluster (seeded order, interleaving, worker loss, re-execution, failing tasks) compared with a sequential run'
    quick = 220
    rule = 'random history, then one gridding run sequentially and under several schedules of the simulated cluster (workers, order, interleaving at storage steps, lost workers, repeated tasks, failing tasks) from the same state; grids, loads from disk and the set of files must be the same. Non-trivial: a schedule ran at least two tasks.'

    def gen(self, rng, tier):
        cfg = W.gen_cfg(rng, origin=True)
        gen = W.HistoryGen(rng, cfg, leaf_cap=36, dask=0.3, forms=False)
        ops = gen.history(rng.randint(1, 5))
        while not gen.m.leaves:
            ops.append(gen.next())
        last = gen.grid_op()
        W.model_apply(gen.m, last)
        last['dask'] = True
        scheds = []
        for _ in range(3 if tier == 'quick' else 8):
            k = {'workers': rng.choice([1, 2, 3, 4, 8]), 'p_switch': rng.choice([0.0, 0.2, 0.6, 1.0]), 'defer': rng.choice([0.0, 0.5, 1.0]),
                 'p_lost': rng.choice([0.0, 0.2, 0.6]), 'p_dup': rng.choice([0.0, 0.3, 0.6]), 'existing_client': rng.random() < 0.3}
            if rng.random() < 0.2:
                k['p_fail'] = rng.choice([0.1, 0.5, 1.0])
            scheds.append([rng.getrandbits(32), k])
        return trace_of(rng, cfg, ops, last=last, scheds=scheds, loaded=rng.random() < 0.4)

    def run(self, ctx):
        t = ctx.trace
        ctx.sim('build')
        h = Hist(ctx, t['cfg'], light=True)
        for op in t['ops']:
            h.apply(op)
        last = t['last']
        if not W.applicable(h.m, last):
            return
        st = State(ctx, h)
        seq = dict(last, dask=False)
        g, _ = st.restore(t['loaded'], 'seq')
        self.grid(h, g, seq)
        ref = W.snapshot(g)
        disk = st.loaded_snapshot('seqload') if h.folder else None
        files = sorted(W.dir_digest(ctx.root)) if h.folder else None
        for i, (seed, knobs) in enumerate(t['scheds']):
            g, sim = st.restore(t['loaded'], 'par%d' % seed, knobs)
            try:
                self.grid(h, g, last)
            except Violation:
                if sim.fired.get('task_memory_error'):
                    ctx.count('task_failures_reported')
                    # a later attempt without failures completes it
                    sim.knobs['p_fail'] = 0.0
                    self.grid(h, g, last)
                    d = W.diff_snap(ref, W.snapshot(g), exact=True)
                    if d:
                        raise Violation('retry', 'repeating a gridding in which a task had failed (sequential / parallel): ' + d)
                    continue
                raise
            if sim.fired.get('task_memory_error'):
                ctx.count('task_failures_absorbed')
            snap = W.snapshot(g)
            d = W.diff_snap(ref, snap, exact=True)
            if d:
                raise Violation('parallel', 'parallel gridding differs (sequential / parallel): ' + d)
            if h.folder:
                snap = st.loaded_snapshot('parload%d' % seed)
                d = W.diff_snap(disk, snap, exact=True)
                if d:
                    raise Violation('parallel_disk', 'after parallel gridding the files differ (sequential / parallel): ' + d)
                f = sorted(W.dir_digest(ctx.root))
                if f != files:
                    raise Violation('parallel_disk', 'files on disk differ: %s' % sorted(set(f) ^ set(files))[:6])
            ctx.count('schedules')
            if any(len(s) > 1 for s in sim.interleavings):
                ctx.nontrivial = True

    def grid(self, h, g, op):
        try:
            return W.apply_op(g, op, h.cfg, h.folder)
        except (SimCrash, HarnessError, Violation):
            raise
        except Exception as e:
            raise Violation('exception', '%s failed: %s' % (show_op(op), describe(e)))


class State:
    """A point of a history from which runs can be started again and again."""

    def __init__(self, ctx, h):
        self.ctx = ctx
        self.h = h
        self.n = 0
        h.g.client = None
        self.g0 = clone_grid(h.g)
        self.snap = os.path.join(ctx.snapdir, 'st')
        W.real_rmtree(self.snap)
        W.copy_tree(ctx.root, self.snap)
        self.on_disk = h.on_disk()

    def restore(self, loaded, tag, knobs=None, fault=None):
        """Fresh copy of the folder and the grid (the live object or loaded); the simulation for what follows."""
        W.real_rmtree(self.ctx.root)
        W.copy_tree(self.snap, self.ctx.root)
        if loaded and self.on_disk:
            self.ctx.sim('load-' + tag)
            g = self.h.load()
        else:
            g = clone_grid(self.g0)
        return g, self.ctx.sim(tag, knobs, fault)

    def loaded_snapshot(self, tag, folder=None):
        prev = seams.CUR
        self.ctx.sim(tag)
        try:
            s = W.snapshot(load_grid(folder or self.h.folder))
        finally:
            seams.set_current(prev)
        return s


# -- C06: backends, forms, chunking ------------------------------------------------------------------------------------

class C06(Check):
    quick = 220
    rule = 'one random history run on a grid in memory, in numpy storage, in zarr storage and in memory until saved midway, with the points given in different forms and different chunk sizes; all must be observably the same after each gridding and at the end. Non-trivial: at least three operations took effect.'

    def gen(self, rng, tier):
        cfg = W.gen_cfg(rng, origin=True)
        gen = W.HistoryGen(rng, cfg, profile={'save': 0, 'reload': 0.7}, leaf_cap=30, dask=0.15)
        gen.cfg = dict(cfg, disk=True)
        gen.m.cfg = gen.cfg
        ops = gen.history(rng.randint(3, 7) + (3 if tier == 'thorough' else 0))
        forms = ['numpy', 'dask', 'xarray', 'xdask']
        variants = []
        for be, disk in (('numpy', False), ('numpy', True), ('zarr', True), (rng.choice(['numpy', 'zarr']), 'midway')):
            variants.append({'backend': be, 'disk': disk, 'chunk': rng.choice([0, 100, 300, 1000, 5000] if cfg['tile'] < 256 else [0, 5000]),
                             'forms': [rng.choice(forms) for _ in range(8)], 'at': rng.randrange(1, len(ops) + 1)})
        return trace_of(rng, cfg, ops, variants=variants, dask=True)

    def run(self, ctx):
        t = ctx.trace
        ref = None
        for vi, v in enumerate(t['variants']):
            cfg = dict(t['cfg'], backend=v['backend'], chunk=v['chunk'], disk=v['disk'] is True)
            with settings(cfg):
                ctx.sim('v%d' % vi)
                h = Hist(ctx, cfg, name='v%d' % vi, light=True)
                snaps = []
                k = 0
                done = 0
                for i, op in enumerate(t['ops']):
                    if v['disk'] == 'midway' and i == v['at'] and h.m.leaves:
                        h.apply({'op': 'save', 'to': 'mid'})
                    if op['op'] == 'add':
                        op = dict(op, form=v['forms'][k % 8])
                        k += 1
                    if op['op'] == 'reload' and not h.on_disk():
                        continue
                    if h.apply(op):
                        done += 1
                        if op['op'] == 'grid':
                            snaps.append((i, W.snapshot(h.g)))
                snaps.append((len(t['ops']), W.snapshot(h.g)))
                if h.on_disk():
                    snaps.append((len(t['ops']), W.snapshot(h.load())))
            if ref is None:
                ref = dict((i, s) for i, s in snaps)
                ctx.nontrivial = done >= 3
                continue
            for i, s in snaps:
                d = W.diff_snap(ref[i], s, ignore_meta=('name', 'storage_type', 'container_timestamp'))
                if d:
                    raise Violation('backends', 'after %d operations %s with %s chunks of %s bytes differs from memory (memory / other): %s'
                                    % (i, v['backend'], v['disk'], v['chunk'], d))
                ctx.count('compared')


# -- faults: C07 - C10 ------------------------------------------------------------------------------------------------------

def pattern(rel):
    return re.sub(r'[-\d.]+', '#', rel)


def gen_victim(rng, gen, kinds):
    """The operation that faults hit."""
    for _ in range(50):
        k = rng.choice(kinds)
        if k == 'add':
            return gen.add_op()
        if k == 'remove' and gen.m.containers:
            return {'op': 'remove', 'name': rng.choice(sorted(gen.m.containers))}
        if k == 'grid' and gen.m.leaves:
            return gen.grid_op()
        if k == 'save' and gen.m.leaves:
            return {'op': 'save', 'to': 'new'}
        if k == 'resave' and gen.m.leaves and gen.cfg['disk']:
            return {'op': 'save'}
        if k in ('load', 'query') and gen.m.leaves and gen.cfg['disk']:
            return {'op': k, 'seed': rng.getrandbits(30)}
    return gen.add_op()


class FaultCheck(Check):
    level = 'fault_enumeration'
    quick = 130
    thorough = 4000
    per_case = (8, 24)
    victims = ['add', 'add', 'remove', 'grid', 'grid', 'save', 'resave']
    kinds = WRITE = seams.WRITE_KINDS + seams.DELETE_KINDS
    memory = 0.15
    actor = None                 # only steps taken by this code

    def gen(self, rng, tier):
        disk = rng.random() >= self.memory
        cfg = W.gen_cfg(rng, disk=disk, origin=rng.random() < 0.3)
        if not cfg['chunk'] or cfg['chunk'] < 1000:
            cfg['chunk'] = rng.choice([0, 1000, 300] if cfg['tile'] < 256 else [0, 8000])
        gen = W.HistoryGen(rng, cfg, profile={'save': 0.2}, max_n=12, leaf_cap=10, span=1.3, dask=0.05, max_cont=3, density=0.1)
        n = rng.choice([0, 1, 1, 2, 3, 4, 5])
        ops = gen.history(n)
        victim = gen_victim(rng, gen, self.victims if disk or not ops else ['save', 'save', 'add'])
        if not disk and not gen.m.saved:
            while not gen.m.leaves:
                op = gen.add_op()
                W.model_apply(gen.m, op)
                ops.append(op)
            victim = {'op': 'save', 'to': 'new'}
        return trace_of(rng, cfg, ops, victim=victim, faults=None, tier=tier)

    def run(self, ctx):
        t = ctx.trace
        ctx.sim('build')
        h = Hist(ctx, t['cfg'], light=True)
        for op in t['ops']:
            h.apply(op)
        if h.g.output_folder == '' and t['victim']['op'] != 'save':
            return
        v = t['victim']
        if v['op'] in ('load', 'query') and not h.on_disk():
            return
        if v['op'] not in ('load', 'query') and not W.applicable(h.m, v):
            return
        if v['op'] == 'save' and not v.get('to') and not h.on_disk():
            return
        self.st = State(ctx, h)
        self.h = h
        self.pre = W.snapshot(self.st.restore(False, 'pre')[0])
        self.dry = {}
        faults = t.get('faults')
        if faults is None:
            rng = random.Random('faults-%s' % t['sched'])
            faults = self.sample(ctx, rng, self.per_case[0 if t.get('tier', 'quick') == 'quick' else 1])
        for i, f in enumerate(faults):
            try:
                self.variant(ctx, f)
            except Violation as e:
                e.fault = f
                raise

    # the operation under test
    def target(self):
        v = self.ctx_victim
        return v

    def do(self, g, v):
        h = self.h
        if v['op'] == 'save':
            g.save(self.save_folder(v), progress_bar=False)
            return g
        if v['op'] == 'load':
            return load_grid(h.folder)
        if v['op'] == 'query':
            return self.query(g, v)
        return W.apply_op(g, v, h.cfg, h.folder)

    def save_folder(self, v):
        return self.h.ctx.path('%s_%s' % (self.h.prefix, v['to'])) if v.get('to') else self.h.folder

    def folder(self, v):
        return self.save_folder(v) if v['op'] == 'save' else self.h.folder

    def query(self, g, v):
        rng = random.Random(v['seed'])
        out = [W.snapshot(g)]
        if g.resolutions and not g.no_grid and W.Model:
            lyrs = views.layer_list(self.h.cfg)
            for r in g.resolutions:
                out.append(g.get_layers_by_name(rng.choice(lyrs), r))
        return out

    def dry_run(self, ctx, live):
        """The undisturbed run: its steps and its result."""
        if live not in self.dry:
            v = ctx.trace['victim']
            g, sim = self.st.restore(not live, 'victim')
            if self.actor:
                sim.actors = []
            try:
                r = self.do(g, v)
            except (SimCrash, HarnessError, Violation):
                raise
            except Exception as e:
                raise Violation('exception', '%s failed without any fault: %s' % (show_op(v), describe(e)))
            log = []
            for e in sim.log:
                kind, _, rel = e.partition(' ')
                if kind in seams.ALL_KINDS:
                    log.append((kind, rel))
            if len(log) != sim.steps:
                raise HarnessError('step log does not match the steps')
            d = {'log': log, 'actors': sim.actors, 'result': r if v['op'] == 'query' else None,
                 'post': W.snapshot(r if v['op'] == 'load' else g) if v['op'] != 'query' else self.pre}
            if v['op'] not in ('query',) and (self.h.folder or v['op'] == 'save'):
                d['disk'] = self.st.loaded_snapshot('dryload', self.folder(v))
            self.dry[live] = d
        return self.dry[live]

    def sample(self, ctx, rng, k):
        out = []
        modes = [True, False] if self.st.on_disk else [True]
        if ctx.trace['victim']['op'] in ('load', 'query'):
            modes = [False]
        live = rng.choice(modes)
        groups = {}
        for lv in [live]:
            for n, (kind, rel) in enumerate(self.dry_run(ctx, lv)['log']):
                if kind in self.kinds and (self.actor is None or self.dry_run(ctx, lv)['actors'][n] == self.actor):
                    groups.setdefault((kind, pattern(rel)), []).append((lv, n, kind, rel))
        keys = sorted(groups)
        rng.shuffle(keys)
        while len(out) < k and keys:
            for key in keys:
                if len(out) >= k:
                    break
                lv, n, kind, rel = rng.choice(groups[key])
                f = self.fault(rng, n, kind, rel)
                if f is not None:
                    out.append({'live': lv, 'at': '%s %s' % (kind, rel), **f})
            if rng.random() < 0.02:
                break
        return out

    def fault(self, rng, n, kind, rel):
        raise NotImplementedError

    def variant(self, ctx, f):
        raise NotImplementedError

    def note(self, ctx, plan, what):
        if plan.hit:
            v = ctx.trace['victim']
            ctx.points.append('%s|%s|%s|%s' % (v['op'], what, plan.hit[0], pattern(plan.hit[1])))
            ctx.nontrivial = True
            ctx.count('fault_points')


def ids(f):
    return '%s %s at step %s (%s)' % (f['spec']['t'], f['spec'].get('errno', ''), f['spec']['step'], f['at'])


class C07(FaultCheck):
    quick = 240
    technique = 'deterministic simulation with crash injection: crash before sampled storage steps and inside writes, restart from the files left, recovery compared with before/after states of an undisturbed run'
    kinds = tuple(k for k in seams.WRITE_KINDS + seams.DELETE_KINDS if k not in ('close', 'fsync'))
    rule = 'random history, one operation, a crash before a sampled storage step of it (or in the middle of a write), restart; also a second crash during recovery. Steps are sampled evenly over kinds of step and of file. Every tile must be as before or as after, nothing acknowledged lost, and repeating the operation must complete it. Non-trivial: the crash happened.'
    victims = ['add', 'add', 'add', 'remove', 'remove', 'grid', 'grid', 'grid', 'save', 'resave']

    def fault(self, rng, n, kind, rel):
        s = {'t': 'crash', 'step': n}
        if kind == 'write' and rng.random() < 0.6:
            s['torn'] = rng.choice([0.01, 0.3, 0.5, 0.9, 1.0])
        f = {'spec': s}
        if rng.random() < 0.3:
            f['again'] = rng.randrange(0, 12)
        return f

    def variant(self, ctx, f):
        v = ctx.trace['victim']
        dry = self.dry_run(ctx, f['live'])
        pre, post = self.pre, dry['post']
        plan = Plan(f['spec'])
        g, sim = self.st.restore(not f['live'], 'victim')
        sim.fault = plan
        ctx.plans.append(plan)
        try:
            self.do(g, v)
        except SimCrash:
            pass
        except (HarnessError, Violation):
            raise
        except Exception as e:
            if not sim.crashed:
                raise Violation('exception', '%s failed without any fault: %s' % (show_op(v), describe(e)))
        if not sim.crashed:
            if plan.hit is None:
                return
            raise Violation('crash', 'the crash was swallowed')
        self.note(ctx, plan, 'crash')
        folder = self.folder(v)
        code = 'recovery'
        # restart, possibly dying once more while loading
        if 'again' in f:
            s2 = ctx.sim('again', fault={'t': 'crash', 'step': f['again'], 'torn': 0.5})
            try:
                load_grid(folder)
            except SimCrash:
                ctx.count('double_crash')
            except Exception:
                pass
        ctx.sim('recover')
        had = self.st.on_disk and not (v['op'] == 'save' and v.get('to'))
        if v['op'] == 'save' and v.get('to') and self.st.on_disk:
            # the folder the grid came from
            d = W.diff_snap(self.pre, self.load_snap(self.h.folder, ids(f)))
            if d:
                raise Violation(code, '%s, %s: the grid in the original folder changed (before / after): %s' % (show_op(v), ids(f), d))
        try:
            g2 = load_grid(folder)
        except Exception as e:
            if had:
                raise Violation('refused', '%s, %s: the grid can not be loaded any more: %s' % (show_op(v), ids(f), describe(e)))
            ctx.count('refused_first_write')
            return
        try:
            s = W.snapshot(g2)
        except Exception as e:
            raise Violation(code, '%s, %s: the loaded grid can not be read: %s' % (show_op(v), ids(f), describe(e)))
        what = '%s, %s, after restart: ' % (show_op(v), ids(f))
        if v['op'] == 'save' and v.get('to'):
            d = W.diff_snap(dry['disk'], s)
            if d:
                raise Violation(code, what + 'a partly saved grid was loaded (complete / loaded): ' + d)
            return
        self.check_either(pre, post, s, what, code)
        self.redo(ctx, g2, v, s, dry, what)

    def load_snap(self, folder, what):
        try:
            return W.snapshot(load_grid(folder))
        except Exception as e:
            raise Violation('refused', '%s: %s can not be loaded: %s' % (what, os.path.basename(folder), describe(e)))

    def check_either(self, pre, post, s, what, code):
        empty = {'leaves': {}, 'subs': {}, 'meta': {}}
        for k in sorted(set(pre['leaves']) | set(post['leaves']) | set(s['leaves'])):
            a, b, c = pre['leaves'].get(k), post['leaves'].get(k), s['leaves'].get(k)
            da, db = W.diff_leaf(a, c, ignore=('changed',)), W.diff_leaf(b, c, ignore=('changed',))
            if da and db:
                raise Violation(code, what + 'tile %s is neither as before (before / found: %s) nor as after (after / found: %s)' % (k, da, db))
            if c is not None:
                # a tile whose layers are not up to date must know it
                fl = {bool(x['changed']) for x, d in ((a, da), (b, db)) if not d and x is not None}
                if c['changed'] not in fl:
                    raise Violation(code, what + 'tile %s: pending update flag is %s' % (k, c['changed']))
                lost = set(c['cont']) - set(s['meta']['container'])
                if lost:
                    raise Violation(code, what + 'tile %s has points of %s, which the grid does not list' % (k, sorted(lost)))
        for k, m in s['subs'].items():
            held = {c for kk, l in s['leaves'].items() if k[0] <= kk[0] < k[0] + self.h.cfg['tile'] and k[1] <= kk[1] < k[1] + self.h.cfg['tile'] for c in l['cont']}
            if held - set(m['container']):
                raise Violation(code, what + 'subgrid %s has points of %s, which it does not list' % (k, sorted(held - set(m['container']))))
        for name in ('epsg', 'vertical_reference', 'min_time', 'max_time', 'grid_algorithm', 'grid_resolution', 'is_backscatter',
                     'tile_size', 'subtile_size', 'name', 'storage_type', 'origin_x', 'origin_y') + W.EXTENT + ('container',):
            x = s['meta'][name]
            if not self.eq(x, pre['meta'].get(name)) and not self.eq(x, post['meta'].get(name)):
                raise Violation(code, what + '%s is %s, before %s, after %s' % (name, W._short(x), W._short(pre['meta'].get(name)), W._short(post['meta'].get(name))))

    def eq(self, a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return a is not None and b is not None and np.array_equal(a, b)
        return a == b

    def redo(self, ctx, g, v, s, dry, what):
        try:
            if v['op'] == 'add' and v['name'] in g.container:
                g.remove_points(v['name'], progress_bar=False)
            g = self.do(g, v)
            r = W.snapshot(g)
        except (SimCrash, HarnessError):
            raise
        except Exception as e:
            raise Violation('redo', what + 'repeating the operation failed: ' + describe(e))
        d = W.diff_snap(dry['post'], r, ignore_meta=W.EXTENT + ('container_timestamp',))
        if d:
            raise Violation('redo', what + 'repeating the operation does not complete it (undisturbed / repeated): ' + d)
        d = W.diff_snap(r, self.load_snap(self.folder(v), what + 'after repeating'), exact=True)
        if d:
            raise Violation('redo', what + 'after repeating the operation the files differ (live / loaded): ' + d)
        ctx.count('redone')


class C08(FaultCheck):
    quick = 390
    technique = 'deterministic simulation with storage error injection at sampled steps; a normal return is checked to be complete in memory and on disk'
    kinds = seams.ALL_KINDS
    victims = ['add', 'add', 'remove', 'grid', 'grid', 'save', 'resave', 'load', 'load', 'query']
    rule = 'random history, one operation (add, remove, grid, save, load, reading a loaded grid) with storage errors from a sampled step on (once, a burst, a bad file, full or read-only disk; short writes); when the call returns normally memory and disk must be complete. Non-trivial: an error was injected.'

    def fault(self, rng, n, kind, rel):
        if kind in ('unlink', 'rmdir', 'rename'):
            e = rng.choice(['EIO', 'EROFS', 'EACCES', 'EPERM', 'ENOSPC'])
        elif kind in ('open_r', 'list'):
            e = rng.choice(['EIO', 'EACCES', 'EMFILE'])
        else:
            e = rng.choice(['ENOSPC', 'EIO', 'EACCES', 'EROFS', 'EDQUOT'])
        s = {'t': 'error', 'step': n, 'errno': e}
        if kind == 'write':
            s['torn'] = rng.choice([None, 0.0, 0.5, 0.99])
        s['scope'] = rng.choice(['once', 'once', 'once', 'burst', 'path']) if kind in ('open_r', 'list') else \
            rng.choice(['once', 'once', 'once', 'burst', 'path', 'disk', 'ro'])
        if s['scope'] == 'burst':
            s['len'] = rng.choice([2, 5, 20])
        return {'spec': s}

    def variant(self, ctx, f):
        v = ctx.trace['victim']
        dry = self.dry_run(ctx, f['live'])
        plan = Plan(f['spec'])
        g, sim = self.st.restore(not f['live'], 'victim')
        sim.fault = plan
        ctx.plans.append(plan)
        err = None
        try:
            r = self.do(g, v)
        except HarnessError:
            raise
        except Exception as e:
            err = e
        sim.fault = None
        if plan.hit is None:
            return
        self.note(ctx, plan, f['spec']['errno'])
        what = '%s, %s: ' % (show_op(v), ids(f))
        self.outcome(ctx, f, v, dry, g, None if err else r, err, what)

    def outcome(self, ctx, f, v, dry, g, r, err, what):
        if err is not None:
            ctx.count('raised')
            return
        ctx.count('returned')
        ctx.sim('check')
        if v['op'] == 'query':
            if not self.same_query(dry['result'], r):
                raise Violation('swallowed', what + 'returned normally with wrong data')
            return
        if v['op'] == 'load':
            g = r
        try:
            s = W.snapshot(g)
        except Exception as e:
            raise Violation('swallowed', what + 'returned normally, but the grid can not be read: ' + describe(e))
        d = W.diff_snap(dry['post'], s, ignore_meta=('container_timestamp',))
        if d:
            raise Violation('swallowed', what + 'returned normally, but the grid is not complete (complete / found): ' + d)
        try:
            s = W.snapshot(load_grid(self.folder(v)))
        except Exception as e:
            raise Violation('swallowed_disk', what + 'returned normally, but the folder can not be loaded: ' + describe(e))
        d = W.diff_snap(dry['disk'], s, ignore_meta=('container_timestamp',))
        if d:
            raise Violation('swallowed_disk', what + 'returned normally, but the files are not complete (complete / found): ' + d)

    def same_query(self, a, b):
        if W.diff_snap(a[0], b[0]):
            return False
        for x, y in zip(a[1:], b[1:]):
            if (x is None) != (y is None):
                return False
            if x is not None and not all(close(p, q) for p, q in zip(x, y)):
                return False
        return len(a) == len(b)


class C09(C08):
    quick = 200
    technique = 'deterministic simulation with storage error injection at sampled steps; after the failure faults stop and one more attempt must give exactly the undisturbed result'
    kinds = seams.ALL_KINDS
    victims = ['add', 'add', 'remove', 'remove', 'grid', 'grid', 'grid', 'save', 'resave']
    rule = 'random history, one operation with storage errors from a sampled step on; when it raised, the errors stop and it is attempted once more on the same object or on a freshly loaded one (for an add: remove, then add): the result in memory and on disk must be that of an undisturbed run, and points of other containers must be intact in between. Non-trivial: the operation raised and was attempted again.'

    def fault(self, rng, n, kind, rel):
        f = super().fault(rng, n, kind, rel)
        f['fresh'] = rng.random() < 0.4
        f['peek'] = rng.random() < 0.3
        return f

    def outcome(self, ctx, f, v, dry, g, r, err, what):
        if err is None:
            ctx.count('returned')
            return
        ctx.count('raised')
        ctx.nontrivial = True
        ctx.sim('retry')
        toucheddir = self.folder(v)
        fresh = f.get('fresh') and self.st.on_disk and not (v['op'] == 'save' and v.get('to'))
        what += 'raised %s; ' % type(err).__name__
        if fresh:
            what += 'then on a loaded grid: '
            try:
                g = load_grid(self.h.folder)
            except Exception as e:
                raise Violation('wedged', what + 'loading failed: ' + describe(e))
        else:
            what += 'then on the same grid: '
        try:
            s = W.snapshot(g)
        except Exception as e:
            raise Violation('wedged', what + 'the grid can not be read: ' + describe(e))
        self.others_intact(v, s, what)
        if f.get('peek'):
            try:
                repr(g), g.points_count, g.layer_names
            except Exception as e:
                raise Violation('wedged', what + 'looking at the grid failed: ' + describe(e))
        try:
            if v['op'] == 'add' and v['name'] in g.container:
                g.remove_points(v['name'], progress_bar=False)
            g = self.do(g, v)
            s = W.snapshot(g)
        except (SimCrash, HarnessError):
            raise
        except Exception as e:
            raise Violation('wedged', what + 'one more attempt failed: ' + describe(e))
        ig = W.EXTENT + ('container_timestamp',)
        d = W.diff_snap(dry['post'], s, ignore_meta=ig)
        if d:
            raise Violation('retry', what + 'one more attempt gives another result (undisturbed / found): ' + d)
        try:
            s2 = W.snapshot(load_grid(toucheddir))
        except Exception as e:
            raise Violation('retry_disk', what + 'after one more attempt the folder can not be loaded: ' + describe(e))
        d = W.diff_snap(s, s2, exact=True, ignore_meta=('container_timestamp',) if v['op'] == 'save' else ())
        if d:
            raise Violation('retry_disk', what + 'after one more attempt memory and disk differ (live / loaded): ' + d)
        ctx.count('retried')

    def others_intact(self, v, s, what):
        name = v.get('name')
        for src in (self.pre,):
            for k, l in src['leaves'].items():
                want = {c: p for c, p in W.leaf_points(l).items() if c != name}
                got = s['leaves'].get(k)
                have = {c: p for c, p in W.leaf_points(got).items() if c != name} if got else {}
                if want != have:
                    raise Violation('others', what + 'tile %s: points of containers that were not part of the operation changed: %s / %s'
                                    % (k, {c: len(p) for c, p in want.items()}, {c: len(p) for c, p in have.items()}))


class C10(FaultCheck):
    quick = 260
    technique = 'deterministic simulation: deletes and replacements denied for a while on the simulated clock'
    kinds = seams.DELETE_KINDS + ('rename',)
    actor = 'bathygrid'          # not the renames that zarr does within a new folder
    per_case = (8, 20)
    rule = 'random history, one operation during which deleting or replacing old data is denied (permission error) for some simulated seconds or for ever, or fails with another error. Temporarily: must complete as undisturbed, waiting on the simulated clock; for ever: must give up with that error after a bounded simulated time; other errors: raised without waiting. Non-trivial: a delete was denied.'
    victims = ['add', 'add', 'remove', 'remove', 'grid', 'grid', 'resave', 'save']

    def fault(self, rng, n, kind, rel):
        k = rng.random()
        if k < 0.55:
            s = {'secs': rng.choice([0.05, 0.5, 2.0, 6.0, 10.0]), 'errno': rng.choice(['EACCES', 'EPERM'])}
        elif k < 0.75:
            s = {'secs': None, 'errno': rng.choice(['EACCES', 'EPERM'])}
        else:
            s = {'secs': None, 'errno': rng.choice(['EIO', 'EROFS', 'EBUSY'])}
        return {'spec': {'t': 'deny', 'step': n, 'wide': rng.random() < 0.4, **s}}

    def variant(self, ctx, f):
        v = ctx.trace['victim']
        dry = self.dry_run(ctx, f['live'])
        plan = Plan(f['spec'])
        g, sim = self.st.restore(not f['live'], 'victim')
        sim.fault = plan
        ctx.plans.append(plan)
        err = None
        m0 = sim.mono
        try:
            self.do(g, v)
        except HarnessError:
            raise
        except Exception as e:
            err = e
        sim.fault = None
        if plan.hit is None or not plan.denied:
            return
        s = f['spec']
        perm = s['errno'] in ('EACCES', 'EPERM')
        self.note(ctx, plan, '%s %s' % (s['errno'], 'temporary' if s['secs'] else 'lasting'))
        slept = sim.slept - plan.slept0
        what = '%s, deleting or replacing %s denied with %s for %s s: ' % (show_op(v), plan.hit[1], s['errno'], s['secs'])
        if sim.mono - m0 > 300:
            raise Violation('unbounded', what + 'took %.0f simulated seconds' % (sim.mono - m0))
        if perm and s['secs'] is not None:
            if err is not None:
                raise Violation('gave_up', what + 'gave up after %.1f s of waiting: %s' % (slept, describe(err)))
            ctx.count('waited_out')
            ctx.stats['slept_s'] += int(slept)
        elif perm:
            if err is not None and not isinstance(err, PermissionError):
                raise Violation('other_error', what + 'raised ' + describe(err))
            ctx.count('gave_up' if err is not None else 'completed_otherwise')
        else:
            if slept > 0 and err is not None:
                raise Violation('waited', what + 'waited %.1f s for an error that is not a denied access' % slept)
            ctx.count('passed_on' if err is not None else 'completed_otherwise')
        if err is None:
            ctx.sim('check')
            for kind, want in (('post', lambda: W.snapshot(g)), ('disk', lambda: W.snapshot(load_grid(self.folder(v))))):
                try:
                    got = want()
                except Exception as e:
                    raise Violation('incomplete', what + 'returned, but the grid can not be read: ' + describe(e))
                d = W.diff_snap(dry[kind], got, ignore_meta=('container_timestamp',))
                if d:
                    raise Violation('incomplete', what + 'returned, but differs from an undisturbed run (undisturbed / found, %s): %s' % (kind, d))


# -- C11: folders -----------------------------------------------------------------------------------------------------------

ROOTS = ('SRGrid_Root', 'VRGridTile_Root', 'SRGridZarr_Root', 'VRGridTileZarr_Root')
FOREIGN = ('foreign.txt', 'SRGrid_Root.txt', 'Data_Root', 'SRGrid_Root_old', 'SRGrid', 'srgridzarr_root', os.path.join('survey', 'SRGrid_Root'), 'Root')


def real_makedirs(p):
    if not os.path.isdir(p):
        real_makedirs(os.path.dirname(p))
        REAL['mkdir'](p)


BAD_CREATIONS = [{'grid_type': 'triangles'}, {'grid_backend': 'xml'}, {'tile_size': 1000.0}, {'tile_size': 48},
                 {'grid_type': 'variable_resolution_tile', 'subtile_size': 100}, {'grid_type': 'variable_resolution_tile', 'tile_size': 3},
                 {'grid_type': 'variable_resolution', 'grid_backend': 'numpy'}]


class C11(Check):
    quick = 600
    technique = 'deterministic simulation: creations, saves and loads under stalled and jumping clocks with folders appearing concurrently'
    rule = 'random sequence of creations under few names, adds, foreign files and folders appearing (also between check and creation), with a running, stalled or jumping clock; every creation must give a folder of its own and leave what exists alone, a refused one (arguments) leaves nothing; loading and recognising is checked for every folder. Non-trivial: at least two creations under one name.'

    def gen(self, rng, tier):
        ops = []
        names = ['a', 'b'] if rng.random() < 0.4 else ['a']
        for _ in range(rng.randint(3, 9) + (6 if tier == 'thorough' else 0)):
            k = rng.random()
            nm = rng.choice(names)
            if k < 0.6:
                op = {'op': 'create', 'name': nm, 'kind': rng.choice(['sr', 'vr']), 'backend': rng.choice(['numpy', 'zarr']),
                      'data': rng.random() < 0.8, 'grid': rng.random() < 0.3}
                if rng.random() < 0.3:
                    op['appear'] = {'n': rng.randrange(0, 3), 'foreign': rng.random() < 0.6}
                ops.append(op)
            elif k < 0.7:
                ops.append({'op': 'foreign', 'name': nm, 'what': rng.choice(FOREIGN)})
            elif k < 0.78:
                ops.append({'op': 'mkdir', 'name': nm})
            elif k < 0.83:
                ops.append({'op': 'mkfile', 'name': nm})
            elif k < 0.87:
                ops.append({'op': 'bad', 'name': nm if rng.random() < 0.5 else 'c', 'what': rng.randrange(len(BAD_CREATIONS))})
            elif k < 0.93:
                ops.append({'op': 'wait', 's': rng.choice([0.3, 1.0, 2.5])})
            else:
                ops.append({'op': 'deep', 'name': nm})
        t = trace_of(rng, {'chunk': 0}, ops)
        t['knobs']['clock'] = rng.choice(['run', 'stall', 'stall', 'jump'])
        t['two'] = True
        return t

    def run(self, ctx):
        t = ctx.trace
        sim = ctx.sim('main')
        used = {}          # folder -> (class name, digest)
        counts = {}
        i = 0
        for op in t['ops']:
            i += 1
            target = ctx.path(op['name']) if 'name' in op else None
            if op['op'] == 'wait':
                sim.sleep(op['s'])
                continue
            if op['op'] == 'mkdir':
                if not os.path.exists(target):
                    REAL['mkdir'](target)
                continue
            if op['op'] == 'mkfile':
                if not os.path.exists(target):
                    with REAL['open'](target, 'w') as f:
                        f.write('x')
                continue
            if op['op'] == 'foreign':
                if not os.path.exists(target):
                    REAL['mkdir'](target)
                if os.path.isdir(target):
                    what = op.get('what') or 'foreign.txt'
                    p = os.path.join(target, what)
                    if not os.path.exists(p):
                        if what.endswith('.txt'):
                            with REAL['open'](p, 'w') as f:
                                f.write('x')
                        else:
                            real_makedirs(p)
                    if target in used:
                        used[target] = used[target][:2] + (W.dir_digest(target),)
                continue
            if op['op'] == 'bad':
                before = W.dir_digest(ctx.root)
                try:
                    create_grid(target, **BAD_CREATIONS[op['what']])
                except (HarnessError, SimCrash):
                    raise
                except Exception as e:
                    d = W.diff_digest(before, W.dir_digest(ctx.root))
                    if d:
                        raise Violation('refused', 'a creation that was refused (%s) changed the disk: %s' % (describe(e), d))
                    ctx.count('refused')
                    continue
                raise Violation('refused', 'a grid was created with %s' % BAD_CREATIONS[op['what']])
            if op['op'] == 'deep':
                target = os.path.join(ctx.path('deep%d' % i), 'x', op['name'])
                op = {'op': 'create', 'kind': 'sr', 'backend': 'numpy', 'data': True, 'grid': False, 'name': op['name']}
            before = W.dir_digest(ctx.root)
            empty = os.path.isdir(target) and not REAL['listdir'](target)
            new = not os.path.exists(target)
            plan = None
            if op.get('appear'):
                plan = Appear(op['appear'])
                sim.fault = plan
                ctx.plans.append(plan)
            try:
                g = create_grid(target, W.GT[op['kind']], op['backend'], 16, 8)
            except (HarnessError, SimCrash):
                raise
            except Exception as e:
                raise Violation('create', 'creating a grid at %s failed: %s' % (op['name'], describe(e)))
            finally:
                sim.fault = None
            f = os.path.abspath(g.output_folder)
            raced = bool(plan and plan.made)
            if not os.path.isdir(f) or os.path.dirname(f) != os.path.dirname(target):
                raise Violation('create', 'created at %s, which is not a folder beside %s' % (f, target))
            if (new or empty) and not raced and f != target:
                raise Violation('create', '%s was %s, but the grid was created at %s' % (op['name'], 'new' if new else 'empty', os.path.basename(f)))
            made = {os.path.relpath(p, ctx.root) for p in (plan.made if plan else [])}
            inside = REAL['listdir'](f)
            if inside:
                raise Violation('create', 'the grid was given the folder %s, which has %s in it' % (os.path.basename(f), inside[:3]))
            after = W.dir_digest(ctx.root)
            for k, d in before.items():
                if after.get(k) != d:
                    raise Violation('create', 'creating a grid at %s changed %s' % (op['name'], k))
            counts[op['name']] = counts.get(op['name'], 0) + 1
            cls = type(g).__name__
            if is_bathygrid(f):
                raise Violation('recognise', 'an empty folder is recognised as a grid')
            self.expect_no_load(f, 'an empty folder')
            if op['data']:
                pts = np.array([(1.0 + i, 2.0, 12.0 + i), (3.0, 20.0 + i, 15.0)], dtype=[('x', 'f8'), ('y', 'f8'), ('z', 'f8')])
                try:
                    g.add_points(pts, 'c%d' % i, progress_bar=False)
                    if op['grid']:
                        g.grid('mean', 4.0, progress_bar=False)
                except (HarnessError, SimCrash):
                    raise
                except Exception as e:
                    raise Violation('create', 'the grid created at %s does not work: %s' % (os.path.basename(f), describe(e)))
                used[f] = (cls, 'c%d' % i, W.dir_digest(f))
            for u, (c, cont, dig) in used.items():
                d = W.diff_digest(dig, W.dir_digest(u))
                if d:
                    raise Violation('takeover', 'creating and filling a grid at %s changed the grid in %s: %s' % (os.path.basename(f), os.path.basename(u), d))
            ctx.count('created')
        for u, (c, cont, dig) in used.items():
            if not is_bathygrid(u):
                raise Violation('recognise', '%s holds a grid but is not recognised' % os.path.basename(u))
            try:
                g = load_grid(u)
            except Exception as e:
                raise Violation('load', 'the grid in %s can not be loaded: %s' % (os.path.basename(u), describe(e)))
            if type(g).__name__ != c or list(g.container) != [cont]:
                raise Violation('load', 'the grid in %s loads as %s with %s, it was created as %s with %s' % (os.path.basename(u), type(g).__name__, list(g.container), c, cont))
            ctx.count('loaded')
        kinds = {c: u for u, (c, cont, dig) in used.items()}
        if len(kinds) > 1 and t.get('two'):
            (_, u), (_, v) = sorted(kinds.items())[:2]
            p = ctx.path('two')
            W.copy_tree(u, p)
            for name in REAL['listdir'](v):
                if name.endswith('_Root') and not os.path.exists(os.path.join(p, name)):
                    W.copy_tree(os.path.join(v, name), os.path.join(p, name))
            if sum(name in ROOTS for name in REAL['listdir'](p)) > 1:
                self.expect_no_load(p, 'a folder that holds the roots of two grids')
                ctx.count('two_roots')
            W.real_rmtree(p)
        for name in REAL['listdir'](ctx.root):
            p = ctx.path(name)
            if p in used:
                continue
            if is_bathygrid(p):
                raise Violation('recognise', '%s is recognised as a grid' % name)
            self.expect_no_load(p, name)
        self.expect_no_load(ctx.path('nothing_here'), 'a path that does not exist')
        ctx.nontrivial = any(n >= 2 for n in counts.values())

    def expect_no_load(self, p, what):
        try:
            load_grid(p)
        except Exception:
            return
        raise Violation('load', '%s was loaded as a grid' % what)


class Appear:
    """Somebody else makes the folder just before the first few mkdirs."""

    def __init__(self, spec):
        self.n = spec['n']
        self.foreign = spec['foreign']
        self.made = []
        self.hit = None

    def at_step(self, sim, n, kind, rel, data):
        if kind == 'mkdir' and self.n >= 0:
            self.n -= 1
            p = os.path.join(sim.root, rel)
            if not os.path.exists(p) and os.path.isdir(os.path.dirname(p)):
                REAL['mkdir'](p)
                self.made.append(p)
                sim.fire('folder_appears')
                if self.foreign:
                    with REAL['open'](os.path.join(p, 'foreign.txt'), 'w') as f:
                        f.write('x')


# -- C12: refused calls ---------------------------------------------------------------------------------------------------

REJECTS = ['dup', 'epsg', 'vref', 'novref', 'nonames', 'missing', 'empty', 'nanx', 'infy', 'twod', 'list', 'none', 'xrmissing', 'time', 'fields',
           'unknown', 'alg', 'res3', 'res0', 'resneg', 'resstr', 'mode', 'fmt', 'bsbag', 'savenone', 'emptygrid', 'layer', 'gridempty', 'epsgstr',
           'resbig']


def do_reject(h, op, must_raise=None):
    """A call that should be refused.  Returns (name, error or None), None if it makes no sense in this state."""
    rng = random.Random(op['seed'])
    g, m, cfg = h.g, h.m, h.cfg
    kinds = [op['kind']] if 'kind' in op else REJECTS
    k = rng.choice(kinds)
    n = rng.choice([1, 3, 8])
    spec = {'seed': rng.getrandbits(30), 'n': n, 'box': [cfg['base'][0] - 40, cfg['base'][1] - 40, cfg['base'][0] + 50, cfg['base'][1] + 60],
            'zone': [12, 90]}
    pts = W.make_points(cfg, spec)
    vref = m.vref or cfg['vref']
    name = 'refused'
    a = dict(crs=m.epsg, vertical_reference=vref, progress_bar=False)

    def add(data, nm=name, **kw):
        g.add_points(data, nm, ['r.all'], **{**a, 'min_time': 1000000000, 'max_time': 2000000000, **kw})

    def strip(*drop):
        out = np.empty(len(pts), dtype=[(f, pts.dtype[f]) for f in pts.dtype.names if f not in drop])
        for f in out.dtype.names:
            out[f] = pts[f]
        return out

    def bad(f, v):
        p = pts.copy()
        p[f][rng.randrange(len(p))] = v
        return p
    has = bool(m.containers)
    other = next(e for e in (26910, 26917, 32617, 32618) if e != m.epsg)
    import xarray as xr
    calls = {
        'dup': (has, lambda: add(pts, sorted(m.containers)[0])),
        'epsg': (m.epsg, lambda: add(pts, crs=other)), 'epsgstr': (True, lambda: add(pts, crs='abc')),
        'vref': (m.vref, lambda: add(pts, vertical_reference='other datum')),
        'novref': (m.vref, lambda: add(pts, vertical_reference=None)),
        'nonames': (True, lambda: add(np.column_stack([pts['x'], pts['y'], pts['z']]))),
        'missing': (True, lambda: add(strip(rng.choice(['x', 'y', 'z'])))),
        'empty': (True, lambda: add(pts[:0])), 'nanx': (True, lambda: add(bad('x', np.nan))), 'infy': (True, lambda: add(bad('y', np.inf))),
        'twod': (True, lambda: add(np.stack([pts, pts]))), 'list': (True, lambda: add([1.0, 2.0, 3.0])), 'none': (True, lambda: add(None)),
        'xrmissing': (True, lambda: add(xr.Dataset({'x': (('s',), pts['x']), 'y': (('s',), pts['y'])}))),
        'time': (True, lambda: add(pts, min_time='yesterday')),
        'fields': (has, lambda: g.add_points(_other_fields(m, cfg), name, None, m.epsg, vref, progress_bar=False)),
        'unknown': (True, lambda: g.remove_points('no such container', progress_bar=False)),
        'alg': (m.algorithm and m.leaves, lambda: g.grid('mean' if m.algorithm == 'shoalest' else 'shoalest', rng.choice([None, 4.0]), progress_bar=False,
                                            regrid_option=rng.choice(['full', 'update']))),
        'res3': (m.leaves, lambda: g.grid(m.algorithm or 'mean', rng.choice([3.0, 0.3, 12]), progress_bar=False)),
        'res0': (m.leaves, lambda: g.grid(m.algorithm or 'mean', 0.0, progress_bar=False)),
        'resneg': (m.leaves, lambda: g.grid(m.algorithm or 'mean', -2.0, clear_existing=True, progress_bar=False)),
        'resbig': (m.leaves, lambda: g.grid(m.algorithm or 'mean', (g.subtile_size if g.sub_type == 'grid' else g.tile_size) * rng.choice([2.0, 8.0]),
                                            clear_existing=rng.random() < 0.3, progress_bar=False)),
        'resstr': (m.leaves, lambda: g.grid(m.algorithm or 'mean', 'fine', progress_bar=False)),
        'mode': (m.leaves, lambda: g.grid(m.algorithm or 'mean', None, auto_resolution_mode='sideways', clear_existing=rng.random() < 0.5, progress_bar=False)),
        'fmt': (m.leaves, lambda: g.export(h.ctx.path('x.out'), 'docx')),
        'bsbag': (cfg['bs'] and m.leaves, lambda: g.export(h.ctx.path('x.bag'), 'bag')),
        'savenone': (not g.output_folder, lambda: g.save(progress_bar=False)),
        'emptygrid': (not m.leaves, lambda: g.grid('mean', 4.0, progress_bar=False)),
        'gridempty': (not m.leaves, lambda: g.grid('shoalest', None, progress_bar=False, clear_existing=True)),
        'layer': (m.fully_gridded(), lambda: g.get_layers_by_name('depth', 12345.0)),
    }
    if not calls[k][0]:
        return None
    try:
        calls[k][1]()
    except (SimCrash, HarnessError, Violation):
        raise
    except Exception as e:
        return k, e
    return k, None


def _other_fields(m, cfg):
    """Points in an existing tile with other variables than those there."""
    name = sorted(m.containers)[0]
    p = m.containers[name]
    names = [n for n in p.dtype.names if n in ('x', 'y', 'z')]
    if len(names) == len(p.dtype.names):
        dt = [(n, 'f8') for n in names] + [('tvu', 'f8')]
    else:
        dt = [(n, 'f8') for n in names]
    out = np.zeros(min(3, len(p)), dtype=dt)
    for n in names:
        out[n] = p[n][:len(out)]
    return out


class C12(Check):
    quick = 260
    rule = 'random history into which refused calls are inserted (30 kinds: containers present, other coordinate systems and references, malformed points, unknown containers, empty grids, algorithms, resolutions, modes, formats); every refused call must leave grid and files exactly as they were, and the history must then end like one without them. Non-trivial: at least two calls were refused.'

    def gen(self, rng, tier):
        cfg = W.gen_cfg(rng, origin=rng.random() < 0.3)
        gen = W.HistoryGen(rng, cfg, profile={'save': 0.3, 'reload': 0.7}, leaf_cap=20, dask=0.05, max_n=10)
        ops = []
        if rng.random() < 0.4:
            ops.append({'op': 'reject', 'seed': rng.getrandbits(32), 'kind': rng.choice(REJECTS)})
        for op in gen.history(rng.randint(3, 6)):
            ops.append(op)
            for _ in range(rng.choice([0, 1, 2, 3])):
                ops.append({'op': 'reject', 'seed': rng.getrandbits(32), 'kind': rng.choice(REJECTS)})
        return trace_of(rng, cfg, ops)

    def run(self, ctx):
        t = ctx.trace
        ctx.sim('main')
        h = Hist(ctx, t['cfg'], light=True)
        refused = 0
        for op in t['ops']:
            if op['op'] != 'reject':
                h.apply(op)
                continue
            a, da = W.snapshot(h.g), W.dir_digest(ctx.root)
            fa = self.extra(h.g)
            r = do_reject(h, op)
            if r is None:
                continue
            k, err = r
            b, db = W.snapshot(h.g), W.dir_digest(ctx.root)
            how = 'refused call (%s, %s)' % (k, type(err).__name__ if err is not None else 'returned normally')
            d = W.diff_snap(a, b, exact=True)
            if d:
                raise Violation('refused_' + k, how + ' changed the grid (before / after): ' + d)
            d = W.diff_digest(da, db)
            if d:
                raise Violation('refused_disk_' + k, how + ' changed the disk: ' + d)
            fb = self.extra(h.g)
            if fa != fb:
                raise Violation('refused_' + k, how + ' changed the grid (before / after): %s / %s' % (fa, fb))
            refused += err is not None
            ctx.count('refused' if err is not None else 'returned')
            ctx.count('kind_' + k)
        # the same without the refused calls
        ctx.sim('twin')
        tw = Hist(ctx, t['cfg'], name='twin', light=True)
        for op in t['ops']:
            if op['op'] != 'reject':
                tw.apply(op)
        d = W.diff_snap(W.snapshot(tw.g), W.snapshot(h.g), ignore_meta=('container_timestamp',))
        if d:
            raise Violation('history', 'the history ends differently because of refused calls (without / with): ' + d)
        if h.on_disk():
            d = W.diff_snap(W.snapshot(h.g), W.snapshot(h.load()), exact=True)
            if d:
                raise Violation('history', 'after refused calls the files differ (live / loaded): ' + d)
        ctx.nontrivial = refused >= 2

    def extra(self, g):
        return (g.data is None, g.is_empty, g.points_count, g.point_count_changed, sorted(g.layer_names), g.no_grid, repr(sorted(map(str, g.resolutions))))


# -- C15, C16, C18: exports and views ------------------------------------------------------------------------------------------

def gridded_history(rng, tier, disk=None, bs=None, n=(2, 7), multi=0.4, pending=0.0, **kw):
    """A history that ends with an up to date grid, or with tiles that changed after that."""
    cfg = W.gen_cfg(rng, disk=disk, bs=bs, origin=rng.random() < 0.3)
    same = rng.random() > multi
    gen = W.HistoryGen(rng, cfg, same_settings=same, one_alg=True, clear=0.1, leaf_cap=20, dask=0.1, span=rng.choice([1.3, 2.2, 3.5]),
                       max_n=rng.choice([10, 30, 60]), profile={'grid': 2, 'save': 0.3}, **kw)
    ops = gen.history(rng.randint(*n) + (2 if tier == 'thorough' else 0))
    while not gen.m.leaves:
        ops.append(gen.next())
    ops.append(gen.upto_grid())
    if rng.random() < pending:
        gen.profile = {'add': 2, 'remove': 1}
        ops += gen.history(rng.choice([1, 1, 2]))
    if (cfg['disk'] or gen.m.saved) and rng.random() < 0.5:
        ops.append({'op': 'reload'})
    return cfg, ops


class ViewCheck(Check):
    def build(self, ctx):
        t = ctx.trace
        ctx.sim('main')
        h = Hist(ctx, t['cfg'], light=True)
        for op in t['ops']:
            h.apply(op)
        if not any(lf.cells for lf in h.m.leaves.values()):
            return None
        ctx.count('pending' if not h.m.up_to_date() else 'up_to_date')
        return h


class C15(ViewCheck):
    quick = 240
    technique = 'deterministic simulation: random histories with restarts; exports read back and compared with the tiles'
    rule = 'random history ending up to date (also several resolutions per tile, restarts); csv, geotiff and bag exports with random chunk sizes, resolutions and sign are read back: every populated cell exactly once with value and position, nothing else, coordinate system and times. Non-trivial: at least two tiles exported.'

    def gen(self, rng, tier):
        cfg, ops = gridded_history(rng, tier, pending=0.25)
        fm = ['csv', 'geotiff', 'geotiff'] + ([] if cfg['bs'] else ['bag'])
        return trace_of(rng, cfg, ops, formats=[rng.choice(fm) for _ in range(2 if tier == 'quick' else 4)])

    def run(self, ctx):
        h = self.build(ctx)
        if h is None:
            return
        t = ctx.trace
        truth = views.Truth(W.snapshot(h.g), h.cfg)
        rng = random.Random('export-%s' % t['sched'])
        if not h.m.epsg:
            return
        for i, fmt in enumerate(t['formats']):
            out = os.path.join(ctx.base, 'out%d' % i)
            REAL['mkdir'](out)
            n = views.check_export(h.g, h.cfg, h.m, rng, out, fmt, truth)
            ctx.stats['files_' + fmt] += n
            ctx.count('exports')
        ctx.nontrivial = len(truth.leaves) >= 2


class C18(ViewCheck):
    quick = 240
    rule = 'random history ending up to date (also several resolutions per tile, restarts); every view (assembled, trimmed, coordinates, tiles, chunks, positions incl. edges, containers, counts, densities, areas, values, plots, outlines) is compared with the layers of the tiles. Non-trivial: at least two tiles.'

    def gen(self, rng, tier):
        cfg, ops = gridded_history(rng, tier, pending=0.25)
        return trace_of(rng, cfg, ops)

    def run(self, ctx):
        h = self.build(ctx)
        if h is None:
            return
        truth = views.Truth(W.snapshot(h.g), h.cfg)
        rng = random.Random('views-%s' % ctx.trace['sched'])
        try:
            ctx.stats['views'] += views.check_views(h.g, h.cfg, rng, truth)
        except (Violation, HarnessError, SimCrash):
            raise
        except Exception as e:
            if not where_repo(e):
                raise
            raise Violation('view_exception', 'a view failed: ' + describe(e))
        ctx.nontrivial = len(truth.leaves) >= 2


def where_repo(e):
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        if 'bathygrid' in last:
            return True
        tb = tb.tb_next
    return False


class C16(ViewCheck):
    quick = 240
    technique = 'deterministic simulation: read-only calls in seeded order, with read errors, between operations; observables and bytes on disk compared before and after'
    rule = 'random history with random sequences of read-only calls (over 40 kinds, some failing, some hit by read errors, arrays handed out overwritten); after them everything the grid answers and every byte on disk is unchanged, and continuing gives the same as without. Non-trivial: at least ten calls succeeded.'

    def gen(self, rng, tier):
        cfg, ops = gridded_history(rng, tier, n=(2, 6), pending=0.25)
        if rng.random() < 0.3:
            ops = ops[:-1]          # not up to date
        at = sorted(rng.sample(range(1, len(ops) + 1), min(len(ops), 3)))
        return trace_of(rng, cfg, ops, at=at, calls=rng.randint(5, 12), errors=rng.random() < 0.35)

    def run(self, ctx):
        t = ctx.trace
        sim = ctx.sim('main')
        h = Hist(ctx, t['cfg'], light=True)
        ok = 0
        for i, op in enumerate(t['ops']):
            if h.apply(op) and i + 1 in t['at'] and h.m.leaves:
                ok += self.look(ctx, h, sim, random.Random('look-%s-%d' % (t['sched'], i)))
        ctx.nontrivial = ok >= 6
        if min(t['at']) < len(h.applied):
            # what comes after looking is the same as if nobody had looked
            ctx.sim('twin')
            w = Hist(ctx, t['cfg'], name='twin', light=True)
            for op in t['ops']:
                w.apply(op)
            for a, b, when in ((h.g, w.g, 'at the end'), (h, w, 'after loading it again')):
                if a is h:
                    if not h.on_disk():
                        break
                    a, b = h.load(), w.load()
                d = W.diff_snap(W.snapshot(b), W.snapshot(a), ignore_meta=('container_timestamp',))
                if d:
                    raise Violation('looking_later', 'the grid that was looked at differs %s from one that was not (not looked at / looked at): %s' % (when, d))
            ctx.count('twins')

    def look(self, ctx, h, sim, rng):
        t = ctx.trace
        out = os.path.join(ctx.base, 'o')
        if not os.path.isdir(out):
            REAL['mkdir'](out)
        a, da, ca = W.snapshot(h.g), W.dir_digest(ctx.root), self.calls_state(h.g)
        ok = 0
        made = []
        for _ in range(t['calls']):
            cs = views.read_calls(h.g, h.cfg, rng, out)
            name, f = cs[rng.randrange(len(cs))]
            plan = None
            if t.get('errors') and rng.random() < 0.5:
                plan = Plan({'t': 'error', 'step': sim.steps + rng.choice([0, 0, 1, 2, 5]), 'errno': 'EIO', 'scope': rng.choice(['once', 'burst', 'path'])})
                sim.fault = plan
                ctx.plans.append(plan)
            try:
                r = f()
                sim.fault = None
                ok += 1
                if rng.random() < 0.7:
                    ctx.stats['arrays_overwritten'] += views.scribble(r)
            except (SimCrash, HarnessError):
                raise
            except Exception:
                ctx.count('calls_failed')
            finally:
                sim.fault = None
            made.append(name)
            ctx.count('calls')
        try:
            b, db, cb = W.snapshot(h.g), W.dir_digest(ctx.root), self.calls_state(h.g)
        except Exception as e:
            raise Violation('looking', 'after looking at the grid (%s) it can not be read: %s' % (made, describe(e)))
        d = W.diff_snap(a, b, exact=True)
        if d is None and ca != cb:
            d = '%s / %s' % (ca, cb)
        if d:
            raise Violation('looking', 'looking at the grid (%s) changed it (before / after): %s' % (', '.join(made), d))
        d = W.diff_digest(da, db)
        if d:
            raise Violation('looking_disk', 'looking at the grid (%s) changed the disk: %s' % (', '.join(made), d))
        W.real_rmtree(out)
        return ok

    def calls_state(self, g):
        cells = [(t.name, sorted((float(r), sorted(l for l in ls if l not in W.LAYER_SKIP)) for r, ls in t.cells.items())) for _, _, t in W.leaf_iter(g)]
        return (g.points_count, g.no_grid, g.point_count_changed, sorted(g.layer_names), sorted(g.return_layer_names()), g.output_folder, g.data is None, cells,
                {k: repr(v) for k, v in g.container.items()})


# -- C19: CUBE ------------------------------------------------------------------------------------------------------------

class C19(Check):
    quick = 300
    technique = 'deterministic simulation: seeded histories of CUBE griddings (sequential, parallel, update, restarts) with a local stand-in for the CUBE package; layers checked against a model that knows all points'
    rule = 'random history of adds, removals, restarts and CUBE griddings (settings, resolutions, update, simulated cluster); every node whose surroundings are in the tile or in tiles next to it must be what the points there give, no matter which tile holds them. Non-trivial: at least ten nodes depend on points of another tile.'

    def gen(self, rng, tier):
        cfg = W.gen_cfg(rng, bs=False, origin=rng.random() < 0.2)
        cfg['fields'] = 'vh'
        cfg['chunk'] = rng.choice([0, 0, 2000, 8000])
        gen = W.HistoryGen(rng, cfg, profile={'add': 3, 'remove': 1.5, 'grid': 4, 'save': 0.4}, dask=0.35, leaf_cap=20, max_n=rng.choice([30, 60, 120]),
                           auto=0.3, one_alg=True, span=rng.choice([1.3, 2.2, 2.2]))
        gen.alg = 'cube'
        ops = gen.history(rng.randint(3, 8) + (3 if tier == 'thorough' else 0))
        while not gen.m.leaves:
            ops.append(gen.next())
        ops.append(gen.upto_grid())
        for op in ops:
            if op['op'] == 'grid':
                op['alg'] = 'cube'
                gp = {'method': rng.choice(cube.METHODS), 'iho_order': rng.choice(cube.ORDERS), 'variance_selection': rng.choice(cube.VARIANCES)}
                for k in list(gp):
                    if rng.random() < 0.15:
                        del gp[k]
                if rng.random() < 0.8:
                    op['gp'] = gp
        return trace_of(rng, cfg, ops, dask=True)

    def run(self, ctx):
        t = ctx.trace
        ctx.sim('main')
        h = Hist(ctx, {**t['cfg'], 'fields': 'vh', 'bs': False}, light=True)
        self.want = {}              # {tile: {resolution: (layers, nodes that are certain, settings)}}
        self.shared = 0
        for op in t['ops']:
            if not h.apply(op):
                continue
            if op['op'] == 'grid':
                self.expect(h.m, op)
            elif op['op'] in ('add', 'remove'):
                self.want = {k: v for k, v in self.want.items() if k in h.m.leaves}
            self.compare(ctx, h)
        if h.on_disk():
            h.g = h.load()
            self.compare(ctx, h)
        self.look(ctx, h)
        ctx.stats['nodes_with_points_of_others'] += self.shared
        ctx.nontrivial = self.shared >= 10

    def expect(self, m, op):
        gp = op.get('gp') or {}
        how = gp.get('method', 'local'), gp.get('iho_order', 'order1a'), gp.get('variance_selection', 'cube')
        lp = {k: list(v.values()) for k, v in m.leaf_points().items()}
        names = ('x', 'y', 'z', 'tvu', 'thu')
        pts = {n: np.concatenate([p[n].astype(float) for v in lp.values() for p in v]) for n in names}
        kx, ky = m.keys_of(pts)
        for k in lp:
            lf = m.leaves[k]
            if lf.kept:
                continue
            x0, y0 = m.origin_of(k)
            rez, size = lf.last, m.leaf
            n = max(int(round(size / rez)), 1)
            near = (np.abs(kx - k[0]) <= 1) & (np.abs(ky - k[1]) <= 1)
            p = {f: pts[f][near] for f in names}
            corner = (kx[near] != k[0]) & (ky[near] != k[1])
            mine = (kx[near] == k[0]) & (ky[near] == k[1])
            dep, unc, rat, cnt = cube.surface(p['z'], p['thu'], p['tvu'], p['x'], p['y'], n, n, x0, y0 + size, *how[:2], rez, rez, how[2])
            d = cube.reach(size, rez)
            sure = np.ones((n, n), dtype=bool)
            for f, x, y in zip(range(len(p['x'])), p['x'], p['y']):
                if mine[f]:
                    continue
                cols = np.abs(x - (x0 + (np.arange(n) + 0.5) * rez)) <= d
                rows = np.abs(y - (y0 + (np.arange(n) + 0.5) * rez)) <= d
                if corner[f]:
                    sure[np.ix_(rows, cols)] = False
                else:
                    self.shared += int(rows.sum() * cols.sum())
            den = np.zeros((n, n), dtype=int)
            np.add.at(den, (np.floor((p['y'][mine] - y0) / rez).astype(int), np.floor((p['x'][mine] - x0) / rez).astype(int)), 1)
            old = self.want.get(k, {}) if op['option'] != 'update' and not op['clear'] else {}
            self.want[k] = {**old, rez: ({'depth': dep[::-1], 'total_uncertainty': unc[::-1], 'hypothesis_ratio': rat[::-1],
                                          'hypothesis_count': cnt[::-1], 'density': den}, sure, how)}

    def compare(self, ctx, h):
        m = h.m
        for par, i, t in W.leaf_iter(h.g):
            k = m.key_of(t.min_x, t.min_y)
            want = self.want.get(k, {})
            have = {float(r): {l: W.arr_of(a) for l, a in v.items()} for r, v in t.cells.items()}
            if set(have) != set(want):
                raise Violation('cube', 'tile %s has resolutions %s, expected %s' % (t.name, sorted(have), sorted(want)))
            for rez, (lyrs, sure, how) in want.items():
                if set(have[rez]) - (set(m.containers) | {c + '_density' for c in m.containers}) - set(lyrs) or set(lyrs) - set(have[rez]):
                    raise Violation('cube', 'tile %s has layers %s, expected %s' % (t.name, sorted(have[rez]), sorted(lyrs)))
                for l, w in lyrs.items():
                    g = have[rez][l]
                    ok = sure if l != 'density' else np.ones_like(sure)
                    if g.shape != w.shape:
                        raise Violation('cube', 'tile %s %s %s has shape %s, expected %s' % (t.name, rez, l, g.shape, w.shape))
                    bad = ok & (np.isnan(g) != np.isnan(w))
                    bad |= ok & ~np.isnan(w) & ~np.isnan(g) & (np.abs(g - w) > 2e-3 + 1e-5 * np.abs(w))
                    if bad.any():
                        r, c = [int(v) for v in np.argwhere(bad)[0]]
                        raise Violation('cube', 'tile %s at %s: %s of node %d,%d is %s, the points around it give %s (node count %s, settings %s)'
                                        % (t.name, rez, l, r, c, g[r, c], w[r, c], lyrs['hypothesis_count'][r, c], how))
                    ctx.stats['nodes'] += int(ok.sum())

    def look(self, ctx, h):
        """The layers of the grid are those of the tiles; the surface of one container is that of its points."""
        if not self.want:
            return
        t = views.Truth(W.snapshot(h.g), h.cfg)
        t.layers = ['depth', 'density', 'total_uncertainty', 'hypothesis_ratio', 'hypothesis_count']
        rng = random.Random('cube-%s' % ctx.trace['sched'])
        try:
            if sorted(h.g.layer_names) != sorted(t.layers):
                raise Violation('views', 'layer names %s, the tiles have %s' % (h.g.layer_names, t.layers))
            for rez in t.resolutions:
                for l in t.layers:
                    w = t.full(l, rez)
                    zero = l in ('density', 'hypothesis_count')
                    if zero:
                        w = np.where(w > 0, w, np.nan)
                    got = h.g.get_layers_by_name(l, rez)
                    views.same(got[0], w * views.sign_of(h.g, l, False), 'get_layers_by_name(%s, %s)' % (l, rez), density=zero)
                named = sorted(set(h.g.container) - {'depth', 'density'})   # these names mean the layers of the grid
                for c in rng.sample(named, min(2, len(named))):
                    w = self.container_full(t, h, c, rez)
                    got = h.g.get_layers_by_name(c, rez)
                    if got is None:
                        if (~np.isnan(w)).any():
                            raise Violation('views', 'container %s has no layer at %s' % (c, rez))
                    else:
                        views.same(got[0], w, 'container layer %s at %s' % (c, rez))
            for l in ('total_uncertainty', 'hypothesis_ratio'):
                got = sorted(float(v) for v in h.g.return_layer_values(l))
                w = sorted(v for r in t.resolutions for v in t.populated(l, r).values())
                if len(got) != len(w) or not np.allclose(got, w, atol=2e-3):
                    raise Violation('views', 'return_layer_values(%s) does not match the tiles' % l)
            self.neighbours(ctx, h, rng)
        except (Violation, HarnessError, SimCrash):
            raise
        except Exception as e:
            if not where_repo(e):
                raise
            raise Violation('view_exception', 'a view failed: ' + describe(e))
        ctx.count('looked')

    def neighbours(self, ctx, h, rng):
        """The points handed out as those of the neighbours of a tile or subgrid."""
        m, g = h.m, h.g
        if g.tiles is None or not m.containers:
            return
        ts = m.tile
        pts = {f: np.concatenate([p[f].astype(float) for p in m.containers.values()]) for f in ('x', 'y', 'z', 'tvu', 'thu')}
        kx, ky = np.floor((pts['x'] - m.ox) / ts).astype(int), np.floor((pts['y'] - m.oy) / ts).astype(int)
        tiles = [t for t in g.tiles.flat if t is not None]
        for t in rng.sample(tiles, min(4, len(tiles))):
            buf = rng.choice([0.05, 0.1, 0.3, 0.6, 1.5]) * ts * rng.uniform(0.9, 1.1)
            cx, cy = int(round((t.min_x - m.ox) / ts)), int(round((t.min_y - m.oy) / ts))
            x0, y0 = m.ox + cx * ts, m.oy + cy * ts
            near = ((kx == cx) & (np.abs(ky - cy) == 1) & (pts['y'] >= y0 - buf) & (pts['y'] <= y0 + ts + buf)) | \
                   ((ky == cy) & (np.abs(kx - cx) == 1) & (pts['x'] >= x0 - buf) & (pts['x'] <= x0 + ts + buf))
            want = sorted(zip(*[pts[f][near].tolist() for f in ('x', 'y', 'z', 'tvu', 'thu')]))
            got = g.get_tile_neighbor_points(t, buf)
            got = [] if got is None else sorted(zip(*[np.asarray(got[f]).astype(float).tolist() for f in ('x', 'y', 'z', 'tvu', 'thu')]))
            if got != want:
                raise Violation('neighbours', 'get_tile_neighbor_points of %s with %s gives %d points, the tiles next to it have %d there' % (t.name, buf, len(got), len(want)))
            ctx.stats['neighbour_points'] += len(got)

    def container_full(self, t, h, cont, rez):
        a = np.full((int(round((t.y1 - t.y0) / rez)), int(round((t.x1 - t.x0) / rez))), np.nan)
        n = int(round(t.leafsize / rez))
        for l in t.leaves.values():
            if rez in l['cells'] and cont in l['cont']:
                s, e = l['cont'][cont]
                p = l['pts'][s:e]
                x0, y0 = l['bounds'][:2]
                k = h.m.key_of(x0, y0)
                how = self.want[k][h.m.leaves[k].last][2]     # those of the last gridding of the tile
                v = cube.surface(p['z'], p['thu'], p['tvu'], p['x'], p['y'], n, n, x0, y0 + t.leafsize, *how[:2], rez, rez, how[2])[0][::-1]
                r, q = int(round((y0 - t.y0) / rez)), int(round((x0 - t.x0) / rez))
                a[r:r + n, q:q + n] = v
        return a


ALL = {c.__name__: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19, C20)}
