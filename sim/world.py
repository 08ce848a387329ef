"""
Histories of operations on real grids: generation, execution, observation, comparison.
Imported after seams.install().
"""
import io
import json
import os
import random
import shutil
import contextlib
import hashlib
import math

import numpy as np
import dask
import dask.array as da
import xarray as xr

from . import seams
from .model import Model, points_key, close, origin_of

from bathygrid.convenience import create_grid, load_grid
from bathygrid.bgrid import BathyGrid
import bathygrid.maingrid as maingrid

UTM = (402304.0, 4543232.0)     # multiples of 1024


class Violation(Exception):
    def __init__(self, code, msg):
        super().__init__('%s: %s' % (code, msg))
        self.code = code
        self.msg = msg


class SkipRun(Exception):
    """The trace became meaningless (only while shrinking)."""


# -- configuration and points ----------------------------------------------------------------------------

UP = 'VERTCRS["WGS84 ellipsoid",VDATUM["WGS84"],CS[vertical,1],AXIS["ellipsoid height (h)",up],LENGTHUNIT["metre",1]]'
VREFS = ['waterline', 'ellipse', 'MLLW', 'NOAA MLLW', UP]


def gen_cfg(rng, kind=None, backend=None, disk=None, bs=None, big=False, origin=False):
    kind = kind or rng.choice(['sr', 'vr', 'vr'])
    backend = backend or rng.choice(['numpy', 'zarr'])
    if disk is None:
        disk = rng.random() < 0.8
    tile = rng.choice([16, 16, 16, 32, 32, 32, 32, 64, 64, 64, 2, 4, 256] if not big else [64, 128])
    sub = tile // rng.choice([1, 2, 2, 4]) if kind == 'vr' else 0
    if kind == 'vr':
        sub = max(sub, min(8, tile))
    base = rng.choice([(0.0, 0.0), (0.0, 0.0), UTM, (-1024.0, -2048.0), (-float(tile), float(tile) / 2)])
    cfg = {'kind': kind, 'backend': backend, 'disk': bool(disk), 'tile': tile, 'sub': sub, 'base': list(base),
           'fields': rng.choice(['', '', 'vh', 'vh', 'v', 'h']), 'zdt': rng.choice(['f8', 'f8', 'f4']),
           'bs': (rng.random() < 0.12) if bs is None else bs,
           'chunk': rng.choice([0, 0, 200, 1000, 4000] if tile < 256 else [0, 4000]),
           'vref': rng.choice(VREFS), 'epsg': rng.choice([26910, 26917, 32617])}
    if origin and rng.random() < 0.4:
        cfg['origin'] = [rng.choice([0.0, 4.0, 100.0, 3.5, 0.125, 0.1, 123.456]), rng.choice([0.0, 8.0, 50.0, -7.0, 5.0625, -0.3])]
    return cfg


def dtype_of(cfg, op=None):
    z, u = (op or {}).get('dts') or (cfg.get('zdt', 'f8'), 'f8')
    dt = [('x', 'f8'), ('y', 'f8'), ('z', z)]
    if 'v' in cfg['fields']:
        dt.append(('tvu', u))
    if 'h' in cfg['fields']:
        dt.append(('thu', u))
    return np.dtype(dt)


def make_points(cfg, spec):
    """Points of one batch, a pure function of the configuration and the spec."""
    rng = random.Random('pts-%s' % spec['seed'])
    n = spec['n']
    ox, oy = origin_of(cfg)
    x0, y0, x1, y1 = spec['box']
    z0, z1 = spec['zone']
    dt = dtype_of(cfg, spec)
    arr = np.empty(n, dtype=dt)
    snap = spec.get('snap', 1.0)
    nl = max(1, int(spec.get('clusters', 0)))
    centers = [(rng.uniform(x0, x1), rng.uniform(y0, y1)) for _ in range(nl)]
    used = set()
    mid = spec.get('zmid')
    for i in range(n):
        if spec.get('clusters'):
            cx, cy = centers[rng.randrange(nl)]
            x = min(max(cx + rng.gauss(0, snap * 2), x0), x1)
            y = min(max(cy + rng.gauss(0, snap * 2), y0), y1)
        else:
            x = rng.uniform(x0, x1)
            y = rng.uniform(y0, y1)
        if rng.random() < spec.get('edge', 0.2):
            x = math.floor((x - ox) / snap) * snap + ox
        if rng.random() < spec.get('edge', 0.2):
            y = math.floor((y - oy) / snap) * snap + oy
        x = min(max(x, x0), x1)
        y = min(max(y, y0), y1)
        if mid is not None:         # symmetric about mid: the mean is exactly that
            z = mid + ((i + 1) // 2 if n % 2 else i // 2 + 1) / 64.0 * (1 if i % 2 else -1)
        while mid is None:
            z = float(np.dtype(dt['z']).type(rng.uniform(z0, z1)))
            if z not in used:
                used.add(z)
                break
        arr['x'][i], arr['y'][i], arr['z'][i] = x, y, z
        t, h = rng.uniform(0.1, 2.0), rng.uniform(0.1, 3.0)
        if 'tvu' in dt.names:
            arr['tvu'][i] = t
        if 'thu' in dt.names:
            arr['thu'][i] = h
    return arr


def in_form(arr, how):
    if how == 'dask':
        return da.from_array(arr.copy(), chunks=max(1, len(arr) // 3))
    if how == 'xarray':
        return xr.Dataset({n: (('sounding',), arr[n].copy()) for n in arr.dtype.names})
    if how == 'xdask':
        return xr.Dataset({n: (('sounding',), da.from_array(arr[n].copy(), chunks=max(1, len(arr) // 2)))
                           for n in arr.dtype.names})
    return arr.copy()


# -- generation of histories ---------------------------------------------------------------------------------

PROFILE = {'add': 4, 'remove': 2, 'grid': 3, 'reload': 1.2, 'save': 0.3, 'view': 0.0, 'reject': 0.0}


class HistoryGen:
    """Generates operations; keeps a light model to know what makes sense."""

    def __init__(self, rng, cfg, profile=None, max_n=30, dask=0.2, auto=0.5, one_alg=False, same_settings=False,
                 zones=None, density=0.2, forms=False, times=True, max_cont=6, leaf_cap=48, span=2.2,
                 option_update=0.5, clear=0.2):
        self.rng = rng
        self.cfg = cfg
        self.profile = dict(PROFILE)
        self.profile.update(profile or {})
        self.m = Model(cfg, light=True)
        self.max_n = max_n
        self.dask = dask
        self.auto = auto
        self.one_alg = one_alg
        self.alg = rng.choice(['mean', 'shoalest'])
        self.n_names = 0
        self.n_folders = 0
        self.zones = zones
        self.density = density
        self.forms = forms
        self.times = times
        self.last_times = []
        self.max_cont = max_cont
        self.leaf_cap = leaf_cap
        self.span = span
        self.option_update = option_update
        self.clear = clear
        self.fixed = self.pick_res()
        self.same = None
        if same_settings:
            self.same = self.grid_settings()
        self.names = rng.sample(['em2040', 'line_a', 'line_b', 'tj_patch', 'n1', 'n2', 'day__1', 'day__2', 'q_0', 'q_1', 'q',
                                 'w 5', 'é', 'linear', 'z.99', 'a/b', '{0}', 'None', '%d', "it's", 'depth', 'density', 'z'], 10)

    def pick_res(self):
        leaf = self.m.leaf
        c = [r for r in (0.25, 0.5, 1.0, 2.0, 4.0, 8.0, 16.0, 32.0) if leaf / 64 <= r <= leaf]
        return self.rng.choice(c[:4] + c)

    def zone(self):
        if self.zones:
            return list(self.rng.choice(self.zones))
        leaf = self.m.leaf
        zs = [(12, 19), (21, 39), (41, 59), (61, 79), (81, 150), (22, 70), (15, 150)]
        if leaf <= 16:
            zs += [(1, 9), (170, 300), (700, 1200)]
        if leaf >= 32:
            zs = zs[1:]
        else:
            zs += [(-9, 5)]
        return list(self.rng.choice(zs))

    def box(self):
        rng, t = self.rng, self.cfg['tile']
        bx, by = self.cfg['base']
        ox, oy = origin_of(self.cfg)
        w = rng.choice([0.3, 0.9, 1.3, self.span]) * t
        h = rng.choice([0.3, 0.9, 1.3, self.span]) * t
        x0 = bx + ox + rng.uniform(-1.5, 1.5) * t
        y0 = by + oy + rng.uniform(-1.5, 1.5) * t
        if rng.random() < 0.3:
            x0 = math.floor((x0 - ox) / t) * t + ox
            y0 = math.floor((y0 - oy) / t) * t + oy
        return [x0, y0, x0 + w, y0 + h]

    def add_op(self, reuse=None):
        rng = self.rng
        self.n_names += 1
        name = reuse or ('%s%s' % (self.names[self.n_names % len(self.names)],
                                   '' if self.n_names < 10 else self.n_names))
        if name in self.m.containers:
            name += 'x%d' % self.n_names
        n = rng.choice([1, 2, 5, self.max_n // 2, self.max_n])
        # respect the number of leaves: shrink the box if it would create too many
        box = self.box()
        op = {'op': 'add', 'name': name, 'seed': rng.getrandbits(40), 'n': n, 'box': box, 'zone': self.zone(),
              'edge': rng.choice([0.0, 0.2, 0.5]), 'snap': rng.choice([self.m.leaf, self.fixed, self.cfg['tile']])}
        if op['zone'][0] < 0 and rng.random() < 0.3:
            op['zmid'] = 0.0
        if rng.random() < 0.3:
            op['clusters'] = rng.choice([1, 2, 3])
        if self.forms:
            op['form'] = rng.choice(['numpy', 'numpy', 'dask', 'xarray', 'xdask'])
        if rng.random() < 0.7:
            op['files'] = ['%s_%d.all' % (name, i) for i in range(rng.randrange(1, 4))]
            rng.shuffle(op['files'])
        if rng.random() < 0.15:
            op['dts'] = [rng.choice(['f4', 'f8']), rng.choice(['f4', 'f8'])]
        if 'MLLW' in self.cfg['vref'] and rng.random() < 0.4:
            op['vref'] = rng.choice(['MLLW', 'NOAA MLLW', 'MLLW depth'])
        if self.times and rng.random() < 0.8:
            a = rng.randrange(1500000000, 1600000000)
            if self.last_times and rng.random() < 0.4:
                # next to, within or exactly at times given before
                a = rng.choice(self.last_times) + rng.choice([-1, 0, 0, 1, 1000])
            op['mint'], op['maxt'] = a, a + rng.choice([0, 0, 1, 59, 3600, rng.randrange(1, 100000), rng.randrange(1, 10 ** 8)])
            if rng.random() < 0.15:
                op['mint'], op['maxt'] = op['mint'] + 0.75, op['maxt'] + 0.8
            self.last_times += [int(op['mint']), int(op['maxt'])]
            if rng.random() < 0.1:
                del op[rng.choice(['mint', 'maxt'])]
        if not self.m.containers or rng.random() < 0.7:
            op['epsg'] = self.cfg['epsg']
        return op

    def grid_settings(self):
        rng = self.rng
        auto = rng.random() < self.auto
        mode = 'depth'
        res = None
        if auto:
            mode = 'density' if rng.random() < self.density else 'depth'
        else:
            res = self.fixed if rng.random() < 0.7 else self.pick_res()
        return {'alg': self.alg, 'res': res, 'mode': mode}

    def grid_op(self, option=None):
        rng = self.rng
        st = dict(self.same) if self.same else self.grid_settings()
        op = {'op': 'grid', **st, 'option': option or ('update' if rng.random() < self.option_update else 'full'),
              'clear': rng.random() < self.clear}
        if not self.one_alg and rng.random() < 0.25:
            self.alg = 'shoalest' if self.alg == 'mean' else 'mean'
            op['alg'] = self.alg
            if self.same:
                self.same['alg'] = self.alg
        if self.m.algorithm and self.m.algorithm != op['alg']:
            op['clear'] = True
        if rng.random() < self.dask:
            op['dask'] = True
        if op['clear'] and op['option'] == 'update' and rng.random() < 0.5:
            op['option'] = 'full'
        return op

    def next(self):
        rng = self.rng
        if not self.m.containers:
            op = self.add_op()
            if self.profile.get('save') and rng.random() < 0.06:
                self.n_folders += 1
                op = {'op': 'save', 'to': 'grid%d' % self.n_folders}
        else:
            ks = [k for k, w in self.profile.items() if w > 0]
            for _ in range(20):
                k = rng.choices(ks, [self.profile[k] for k in ks])[0]
                if k == 'add' and (len(self.m.containers) >= self.max_cont or len(self.m.leaves) > self.leaf_cap):
                    continue
                if k == 'reload' and not (self.cfg['disk'] or self.m.saved):
                    continue
                break
            if k == 'add':
                op = self.add_op(reuse=rng.choice(self.removed) if getattr(self, 'removed', None) and rng.random() < 0.3 else None)
            elif k == 'remove':
                name = rng.choice(sorted(self.m.containers))
                self.removed = getattr(self, 'removed', []) + [name]
                op = {'op': 'remove', 'name': name}
            elif k == 'grid':
                op = self.grid_op()
            elif k == 'view':
                op = {'op': 'view', 'seed': rng.getrandbits(32)}
            elif k == 'reject':
                op = {'op': 'reject', 'seed': rng.getrandbits(32)}
            else:
                op = {'op': k}
                if k == 'save' and (self.m.leaves or rng.random() < 0.4) and (not (self.cfg['disk'] or self.m.saved) or rng.random() < 0.4):
                    self.n_folders += 1
                    op['to'] = 'grid%d' % self.n_folders
        if op['op'] in ('add', 'remove', 'grid', 'save') and rng.random() < (0.3 if op['op'] == 'save' else 0.08):
            op['bar'] = True
        model_apply(self.m, op)
        return op

    def history(self, n):
        return [self.next() for _ in range(n)]

    def upto_grid(self):
        """An operation that brings the grid up to date (or nothing)."""
        op = self.grid_op(option='update')
        op['clear'] = bool(self.m.algorithm and self.m.algorithm != op['alg'])
        model_apply(self.m, op)
        return op


_pts_cache = {}


def points_of(cfg, op):
    k = json.dumps([op[f] for f in ('seed', 'n', 'box', 'zone')] + [op.get('edge'), op.get('snap'), op.get('clusters'),
                                                                   cfg['fields'], cfg.get('zdt'), op.get('zmid'), op.get('dts')])
    if k not in _pts_cache:
        if len(_pts_cache) > 64:
            _pts_cache.clear()
        _pts_cache[k] = make_points(cfg, op)
    return _pts_cache[k]


def applicable(m, op):
    k = op['op']
    if k == 'add':
        return op['name'] not in m.containers and op['n'] > 0
    if k == 'remove':
        return op['name'] in m.containers
    if k == 'grid':
        if not m.leaves:
            return False
        if m.algorithm and m.algorithm != op['alg'] and not op['clear']:
            return False
        return True
    if k == 'reload':
        return m.cfg['disk'] or m.saved
    if k == 'save':
        return bool(op.get('to') or m.cfg['disk'] or m.saved)
    return True


def model_apply(m, op):
    """False if the operation makes no sense here and is to be skipped."""
    if not applicable(m, op):
        return False
    k = op['op']
    if k == 'add':
        m.add(op['name'], points_of(m.cfg, op), op.get('files'), op.get('epsg'), op.get('vref', m.cfg['vref']),
              op.get('mint'), op.get('maxt'))
    elif k == 'remove':
        m.remove(op['name'])
    elif k == 'grid':
        m.grid(op['alg'], op['res'], op['mode'], op['clear'], op['option'])
    elif k == 'save' and op.get('to'):
        m.saved = True
    return True


# -- execution on the real code ---------------------------------------------------------------------------------

GT = {'sr': 'single_resolution', 'vr': 'variable_resolution_tile'}
CLS = {('sr', 'numpy'): 'SRGrid', ('vr', 'numpy'): 'VRGridTile', ('sr', 'zarr'): 'SRGridZarr', ('vr', 'zarr'): 'VRGridTileZarr'}


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        yield


@contextlib.contextmanager
def simulation(sim, cfg=None):
    prev = seams.CUR
    seams.set_current(sim)
    ch = (cfg or {}).get('chunk') or 0
    cm = dask.config.set({'array.chunk-size': '%dB' % ch}) if ch else contextlib.nullcontext()
    try:
        with quiet(), cm:
            yield sim
    finally:
        seams.set_current(prev)


def new_grid(cfg, folder, backend=None):
    backend = backend or cfg['backend']
    if 'origin' in cfg:
        cls = getattr(maingrid, CLS[(cfg['kind'], backend)])
        kw = dict(min_x=cfg['origin'][0], min_y=cfg['origin'][1], tile_size=cfg['tile'], output_folder=folder or '',
                  is_backscatter=cfg['bs'])
        if cfg['kind'] == 'vr':
            kw['subtile_size'] = cfg['sub']
        return cls(**kw)
    return create_grid(folder or '', GT[cfg['kind']], backend, cfg['tile'], cfg['sub'] or 128, cfg['bs'])


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def apply_op(g, op, cfg, folder):
    """Runs one operation; returns the grid to continue with."""
    if op.get('bar'):
        with silent():
            return _apply_op(g, op, cfg, folder, True)
    return _apply_op(g, op, cfg, folder, False)


def _apply_op(g, op, cfg, folder, bar):
    k = op['op']
    if k == 'add':
        pts = in_form(points_of(cfg, op), op.get('form'))
        files = list(op['files']) if op.get('files') else op.get('files')
        g.add_points(pts, op['name'], files, op.get('epsg'), op.get('vref', cfg['vref']), op.get('mint'), op.get('maxt'), progress_bar=bar)
        # what was given is the caller's again
        if isinstance(pts, np.ndarray):
            for f in pts.dtype.names:
                pts[f] = 3
        if files:
            files.reverse()
            files.append('of another container')
    elif k == 'remove':
        g.remove_points(op['name'], progress_bar=bar)
    elif k == 'grid':
        gp = dict(op['gp']) if op.get('gp') else None
        g.grid(op['alg'], op['res'], clear_existing=op['clear'], auto_resolution_mode=op['mode'],
               regrid_option=op['option'], use_dask=bool(op.get('dask')), progress_bar=bar,
               **({'grid_parameters': gp} if gp else {}))
        if gp:
            gp.update({k: 'of another gridding' for k in gp})
    elif k == 'save':
        if folder and g.tiles is not None:
            g.save(folder, progress_bar=bar)
    elif k == 'reload':
        if folder and os.path.exists(folder):
            g = load_grid(folder)
    return g


# -- observation -----------------------------------------------------------------------------------------------

def arr_of(a):
    if a is None:
        return None
    if not isinstance(a, np.ndarray):
        a = direct(a)
    return np.array(a)


def direct(a):
    """Value of a dask array, computed in a fixed order without drawing from the schedule."""
    if not isinstance(a, da.Array):
        return a.compute()
    vals = seams.sim_get(a.__dask_graph__(), a.__dask_keys__(), fixed=True)
    f, args = a.__dask_postcompute__()
    return f(vals, *args)


LAYER_SKIP = ('x_slope', 'y_slope')


def leaf_iter(g):
    """(parent or None, flat index, tile) of all leaf tiles."""
    if g.tiles is None:
        return
    for i, t in enumerate(g.tiles.flat):
        if t is None:
            continue
        if isinstance(t, BathyGrid):
            if t.tiles is None:
                continue
            for j, s in enumerate(t.tiles.flat):
                if s is not None:
                    yield t, j, s
        else:
            yield None, i, t


def snap_leaf(t):
    d = {'name': t.name, 'bounds': tuple(float(v) for v in (t.min_x, t.min_y, t.max_x, t.max_y)),
         'size': (float(t.width), float(t.height)),
         'cont': {k: [int(v[0]), int(v[1])] for k, v in t.container.items()},
         'pts': arr_of(t.data), 'changed': bool(t.point_count_changed), 'alg': t.algorithm,
         'bs': bool(t.is_backscatter), 'cells': {}, 'edges': {}}
    for rez, lyrs in t.cells.items():
        d['cells'][float(rez)] = {l: arr_of(a) for l, a in lyrs.items() if l not in LAYER_SKIP}
        d['edges'][float(rez)] = (arr_of(t.cell_edges_x[rez]), arr_of(t.cell_edges_y[rez]))
    return d


META = ['name', 'epsg', 'vertical_reference', 'min_time', 'max_time', 'resolutions', 'grid_algorithm', 'grid_resolution',
        'grid_parameters', 'is_backscatter', 'tile_size', 'subtile_size', 'min_x', 'min_y', 'max_x', 'max_y', 'width',
        'height', 'origin_x', 'origin_y', 'number_of_tiles', 'maximum_tiles', 'mean_depth', 'can_grow', 'sub_type',
        'storage_type', 'version', 'container', 'container_timestamp']


def norm(v):
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return float(v)
    return v


def snap_meta(g):
    d = {k: norm(getattr(g, k)) for k in META}
    for k in ('tile_x_origin', 'tile_y_origin', 'tile_edges_x', 'tile_edges_y'):
        d[k] = arr_of(getattr(g, k))
    if d['number_of_tiles'] is None:
        d['number_of_tiles'] = 0.0
    if g.tiles is None or not g.tiles.size:     # never had points: no extents, however that is written
        for k in ('min_x', 'min_y', 'max_x', 'max_y', 'width', 'height', 'maximum_tiles'):
            d[k] = 0.0 if d[k] is None else d[k]
        for k in ('tile_x_origin', 'tile_y_origin', 'tile_edges_x', 'tile_edges_y'):
            d[k] = None if d[k] is not None and not len(d[k]) else d[k]
    return d


def snapshot(g):
    s = {'meta': snap_meta(g), 'leaves': {}, 'subs': {}, 'shape': None}
    if g.tiles is not None:
        s['shape'] = tuple(g.tiles.shape)
        for i, t in enumerate(g.tiles.flat):
            if isinstance(t, BathyGrid) and not t.is_empty:
                s['subs'][(float(t.min_x), float(t.min_y))] = snap_meta(t)
    for par, i, t in leaf_iter(g):
        s['leaves'][(float(t.min_x), float(t.min_y))] = snap_leaf(t)
    return s


def leaf_points(l):
    """{container: sorted points} of a leaf, by the leaf's own container ranges."""
    return {c: points_key(l['pts'][a:b]) for c, (a, b) in l['cont'].items()}


def diff_cells(a, b, exact=False):
    if sorted(a) != sorted(b):
        return 'resolutions %s / %s' % (sorted(a), sorted(b))
    for rez in a:
        if sorted(a[rez]) != sorted(b[rez]):
            return 'layers at %s: %s / %s' % (rez, sorted(a[rez]), sorted(b[rez]))
        for l in a[rez]:
            x, y = a[rez][l], b[rez][l]
            if x.shape != y.shape:
                return 'layer %s at %s shape %s / %s' % (l, rez, x.shape, y.shape)
            if exact or l == 'density':
                same = np.array_equal(np.asarray(x, float), np.asarray(y, float), equal_nan=True)
            else:
                same = close(x, y)
            if not same:
                w = np.argwhere(~((x == y) | (np.isnan(x.astype(float)) & np.isnan(y.astype(float)))))
                p = tuple(int(v) for v in w[0])
                return 'layer %s at %s m differs at cell %s: %s / %s (%d cells)' % (l, rez, p, x[p], y[p], len(w))
    return None


def diff_leaf(a, b, exact=False, ignore=()):
    if a is None or b is None:
        return None if a is b else 'tile present / absent'
    for k in ('name', 'bounds', 'size', 'changed', 'alg', 'bs'):
        if k in ignore:
            continue
        if a[k] != b[k]:
            return '%s: %s / %s' % (k, a[k], b[k])
    if sorted(a['cont']) != sorted(b['cont']):
        return 'containers %s / %s' % (sorted(a['cont']), sorted(b['cont']))
    if a['pts'].dtype != b['pts'].dtype:
        return 'point dtype %s / %s' % (a['pts'].dtype, b['pts'].dtype)
    if len(a['pts']) != len(b['pts']):
        return 'number of points %d / %d' % (len(a['pts']), len(b['pts']))
    if leaf_points(a) != leaf_points(b):
        return 'points differ'
    if 'cells' not in ignore:
        d = diff_cells(a['cells'], b['cells'], exact)
        if d:
            return d
        for rez in a['edges']:
            for x, y in zip(a['edges'][rez], b['edges'][rez]):
                if not np.array_equal(x, y):
                    return 'cell edges at %s differ' % rez
    return None


EXTENT = ('min_x', 'min_y', 'max_x', 'max_y', 'width', 'height', 'maximum_tiles', 'tile_x_origin', 'tile_y_origin',
          'tile_edges_x', 'tile_edges_y')


def diff_meta(a, b, ignore=()):
    for k in a:
        if k in ignore:
            continue
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if x is None or y is None or not np.array_equal(np.asarray(x), np.asarray(y)):
                return '%s: %s / %s' % (k, _short(x), _short(y))
        elif k == 'mean_depth':
            if abs((x or 0) - (y or 0)) > 2e-3:
                return '%s: %s / %s' % (k, x, y)
        elif x != y:
            return '%s: %s / %s' % (k, _short(x), _short(y))
    return None


def _short(x):
    s = repr(x).replace('\n', ' ')
    return s if len(s) < 160 else s[:160] + '...'


def diff_snap(a, b, exact=False, ignore_meta=(), ignore_leaf=(), subs=True):
    d = diff_meta(a['meta'], b['meta'], ignore_meta)
    if d:
        return 'grid ' + d
    if 'shape' not in ignore_meta and 'maximum_tiles' not in ignore_meta and a['shape'] != b['shape'] and a['leaves']:
        return 'tiles array shape %s / %s' % (a['shape'], b['shape'])
    ks = sorted(set(a['leaves']) | set(b['leaves']))
    for k in ks:
        d = diff_leaf(a['leaves'].get(k), b['leaves'].get(k), exact, ignore_leaf)
        if d:
            return 'tile %s: %s' % (k, d)
    if subs:
        for k in sorted(set(a['subs']) | set(b['subs'])):
            if k not in a['subs'] or k not in b['subs']:
                return 'subgrid %s present / absent' % (k,)
            d = diff_meta(a['subs'][k], b['subs'][k], ignore_meta)
            if d:
                return 'subgrid %s %s' % (k, d)
    return None


# -- checks of a live grid against the model ---------------------------------------------------------------------

def check_points(g, m, code='points'):
    """C01: conservation, placement, attribution, counts."""
    want = m.leaf_points()
    seen = set()
    for par, i, t in leaf_iter(g):
        s = snap_leaf(t)
        key = m.key_of(s['bounds'][0], s['bounds'][1])
        if key in seen:
            raise Violation(code, 'two tiles cover %s' % (s['bounds'],))
        seen.add(key)
        if key not in want:
            raise Violation(code, 'tile %s holds %d points, none belong there' % (s['name'], len(s['pts'])))
        n = len(s['pts'])
        cov = sorted([v, c] for c, v in s['cont'].items())
        pos = 0
        for (a, b), c in cov:
            if a != pos or b <= a:
                raise Violation(code, 'tile %s: container ranges %s do not partition its %d points' % (s['name'], s['cont'], n))
            pos = b
        if pos != n:
            raise Violation(code, 'tile %s: container ranges %s do not cover its %d points' % (s['name'], s['cont'], n))
        if sorted(s['cont']) != sorted(want[key]):
            raise Violation(code, 'tile %s has containers %s, expected %s' % (s['name'], sorted(s['cont']), sorted(want[key])))
        lp = leaf_points(s)
        for c, p in want[key].items():
            if set(s['pts'].dtype.names) != set(p.dtype.names):
                raise Violation(code, 'tile %s: fields %s, expected %s' % (s['name'], s['pts'].dtype.names, p.dtype.names))
            if lp[c] != points_key(p):
                raise Violation(code, 'tile %s container %s: points are not those added (%d / %d)' % (s['name'], c, len(lp[c]), len(p)))
        x, y = s['pts']['x'], s['pts']['y']
        b = s['bounds']
        if not ((x >= b[0]) & (x < b[2]) & (y >= b[1]) & (y < b[3])).all():
            raise Violation(code, 'tile %s holds points outside its square' % s['name'])
        if t.points_count != n or t.is_empty:
            raise Violation(code, 'tile %s: points_count %s for %d points' % (s['name'], t.points_count, n))
    missing = set(want) - seen
    if missing:
        raise Violation(code, 'points of tiles at %s are gone' % sorted(m.origin_of(k) for k in missing))
    if g.points_count != m.points_count():
        raise Violation(code, 'points_count %s, expected %s' % (g.points_count, m.points_count()))
    if sorted(g.container) != sorted(m.containers):
        raise Violation(code, 'containers %s, expected %s' % (sorted(g.container), sorted(m.containers)))
    if (g.number_of_tiles or 0) != m.tile_count():
        raise Violation(code, 'number_of_tiles %s, expected %s' % (g.number_of_tiles, m.tile_count()))
    if bool(g.is_empty) != (not m.leaves):
        raise Violation(code, 'is_empty %s with %d tiles' % (g.is_empty, len(m.leaves)))
    if g.tiles is not None:
        for t in g.tiles.flat:
            if isinstance(t, BathyGrid):
                cs = set()
                nl = 0
                for s in (t.tiles.flat if t.tiles is not None else []):
                    if s is not None:
                        cs |= set(s.container)
                        nl += 1
                if nl == 0:
                    raise Violation(code, 'empty subgrid %s kept' % t.name)
                if sorted(cs) != sorted(t.container):
                    raise Violation(code, 'subgrid %s lists containers %s, its tiles hold %s' % (t.name, sorted(t.container), sorted(cs)))
                if t.number_of_tiles != nl:
                    raise Violation(code, 'subgrid %s number_of_tiles %s, has %d' % (t.name, t.number_of_tiles, nl))


def check_layers(g, m, code='layers', keys=None, only_kept=None):
    """C03: every leaf's layers are what the model computes."""
    n = 0
    for par, i, t in leaf_iter(g):
        key = m.key_of(t.min_x, t.min_y)
        lf = m.leaves.get(key)
        if lf is None:
            continue
        n += 1
        s = snap_leaf(t)
        if sorted(s['cells']) != sorted(lf.cells):
            raise Violation(code, 'tile %s has resolutions %s, expected %s' % (s['name'], sorted(s['cells']), sorted(lf.cells)))
        for rez, lyrs in lf.cells.items():
            got = s['cells'][rez]
            d = diff_cells({rez: got}, {rez: lyrs})
            if d:
                raise Violation(code, 'tile %s (found / expected): %s' % (s['name'], d))
            ex, ey = s['edges'][rez]
            wx = s['bounds'][0] + rez * np.arange(int(round(m.leaf / rez)) + 1)
            wy = s['bounds'][1] + rez * np.arange(int(round(m.leaf / rez)) + 1)
            if not (np.array_equal(ex, wx) and np.array_equal(ey, wy)):
                raise Violation(code, 'tile %s: cell edges at %s are wrong' % (s['name'], rez))
    return n


def check_slopes(got, conts, origin, size, rez, name, code='slopes'):
    """C20: slopes of all cells whose points determine a plane; the number of cells compared."""
    pts = np.concatenate(list(conts.values()))
    n = int(round(size / rez))
    row = np.floor((pts['y'] - origin[1]) / rez).astype(int)
    col = np.floor((pts['x'] - origin[0]) / rez).astype(int)
    cells = 0
    for r, c in sorted(set(zip(row.tolist(), col.tolist()))):
        p = pts[(row == r) & (col == c)]
        a = np.column_stack([p['x'] - p['x'].mean(), p['y'] - p['y'].mean()])
        for l in ('x_slope', 'y_slope'):
            if got[l] is None or not np.isfinite(got[l][r, c]):
                raise Violation(code, 'tile %s at %s: no %s for cell %d,%d, which has %d points' % (name, rez, l, r, c, len(p)))
        z = p['z'].astype(float)
        mid = max(abs(p['x'].mean()), abs(p['y'].mean()), 1.0)
        s = np.linalg.svd(a, compute_uv=False)
        if len(p) < 3 or s[-1] < 0.02 * rez or s[-1] < mid ** 2 * 1e-13:
            continue
        fit = np.linalg.lstsq(a, z - z.mean(), rcond=None)[0]
        # the coordinates are only known to a number of digits, and a steep fit amplifies that
        tol = 1e-3 * (np.abs(fit).max() + 1) + 1e-7 * np.abs(z - z.mean()).max() / s[-1] * max(1.0, s[0] / s[-1])
        for l, w in (('x_slope', fit[0]), ('y_slope', fit[1])):
            if abs(float(got[l][r, c]) - w) > tol:
                raise Violation(code, 'tile %s at %s: %s of cell %d,%d is %s, the plane through its %d points gives %s' % (name, rez, l, r, c, got[l][r, c], len(p), w))
        cells += 1
    if all(v is not None for v in got.values()):
        empty = np.ones((n, n), dtype=bool)
        empty[row, col] = False
        for l, v in got.items():
            if v.shape != (n, n) or np.isfinite(v[empty]).any():
                raise Violation(code, 'tile %s at %s: %s has values where there are no points' % (name, rez, l))
    return cells


def check_resolutions(g, m, code='resolutions'):
    r = norm(g.resolutions)
    if r != sorted(set(r)) or not set(m.res_must) <= set(r) <= set(m.resolutions):
        raise Violation(code, 'resolutions %s, expected %s' % (g.resolutions, m.resolutions))


def check_changed(g, m, code='pending'):
    for par, i, t in leaf_iter(g):
        lf = m.leaves.get(m.key_of(t.min_x, t.min_y))
        if lf is not None and bool(t.point_count_changed) != lf.changed:
            raise Violation(code, 'tile %s: point_count_changed %s, expected %s' % (t.name, t.point_count_changed, lf.changed))
    if bool(g.point_count_changed) != any(lf.changed for lf in m.leaves.values()):
        raise Violation(code, 'point_count_changed %s' % g.point_count_changed)


def fmt_time(t):
    import calendar
    return '' if t is None else seams.REAL['datetime'].utcfromtimestamp(t).strftime('%Y-%m-%dT%H:%M:%S')


def fmt_stamp(t):
    return seams.REAL['datetime'].utcfromtimestamp(t).strftime('%Y%m%d_%H%M%S')


def check_metadata(g, m, code='metadata', stamps=None):
    w = {'min_time': fmt_time(m.min_time), 'max_time': fmt_time(m.max_time), 'epsg': m.epsg,
         'vertical_reference': m.vref, 'grid_algorithm': m.algorithm, 'is_backscatter': bool(m.cfg['bs']),
         'name': CLS[(m.kind, m.cfg['backend'])] + '_Root', 'container': m.files,
         'tile_size': m.cfg['tile'], 'subtile_size': m.cfg['sub'], 'storage_type': m.cfg['backend'],
         'grid_resolution': m.grid_resolution}
    for k, v in w.items():
        if norm(getattr(g, k)) != norm(v):
            raise Violation(code, '%s is %s, expected %s' % (k, _short(getattr(g, k)), _short(v)))
    if sorted(g.container_timestamp) != sorted(m.containers):
        raise Violation(code, 'container_timestamp lists %s, expected %s' % (sorted(g.container_timestamp), sorted(m.containers)))
    if stamps is not None and dict(g.container_timestamp) != stamps:
        raise Violation(code, 'container_timestamp %s, expected %s' % (g.container_timestamp, stamps))


def check_layout(g, m, prev=None, code='layout'):
    """C13: extents and layout."""
    if g.tiles is None:
        return None
    ts = float(g.tile_size)
    e = tuple(float(v) for v in (g.min_x, g.min_y, g.max_x, g.max_y))
    ox, oy = m.ox, m.oy
    for v, o, nm in ((e[0], ox, 'min_x'), (e[2], ox, 'max_x'), (e[1], oy, 'min_y'), (e[3], oy, 'max_y')):
        if (v - o) / ts != math.floor((v - o) / ts):
            raise Violation(code, '%s %s is not aligned to whole tiles of %s from origin %s' % (nm, v, ts, o))
    if e[2] - e[0] != g.width or e[3] - e[1] != g.height:
        raise Violation(code, 'width/height %s/%s do not match extents %s' % (g.width, g.height, e))
    nx, ny = int(round((e[2] - e[0]) / ts)), int(round((e[3] - e[1]) / ts))
    if tuple(g.tiles.shape) != (ny, nx) or tuple(g.tile_x_origin.shape) != (ny, nx) or tuple(g.tile_y_origin.shape) != (ny, nx):
        raise Violation(code, 'shapes: tiles %s origins %s/%s, expected %s' % (g.tiles.shape, g.tile_x_origin.shape, g.tile_y_origin.shape, (ny, nx)))
    if g.maximum_tiles != nx * ny:
        raise Violation(code, 'maximum_tiles %s, expected %s' % (g.maximum_tiles, nx * ny))
    ex, ey = e[0] + ts * np.arange(nx + 1), e[1] + ts * np.arange(ny + 1)
    if not np.array_equal(arr_of(g.tile_edges_x), ex) or not np.array_equal(arr_of(g.tile_edges_y), ey):
        raise Violation(code, 'tile edges do not match the extents')
    if not np.array_equal(arr_of(g.tile_x_origin), np.tile(ex[:-1], (ny, 1))) or \
            not np.array_equal(arr_of(g.tile_y_origin), np.tile(ey[:-1].reshape(-1, 1), (1, nx))):
        raise Violation(code, 'tile origins do not match the extents')
    if m.extent_pts is not None:
        b = m.extent_pts
        lp = [p for p in m.containers.values()]
        if lp:
            b = (min(p['x'].min() for p in lp), min(p['y'].min() for p in lp), max(p['x'].max() for p in lp), max(p['y'].max() for p in lp))
            if not (e[0] <= b[0] and e[1] <= b[1] and b[2] < e[2] and b[3] < e[3]):
                raise Violation(code, 'points %s outside the extents %s' % (b, e))
    if prev is not None and not (e[0] <= prev[0] and e[1] <= prev[1] and e[2] >= prev[2] and e[3] >= prev[3]):
        raise Violation(code, 'extents shrank from %s to %s' % (prev, e))
    if norm(g.return_extents()) != norm([[e[0], e[1]], [e[2], e[3]]]):
        raise Violation(code, 'return_extents %s' % (g.return_extents(),))
    for i, t in enumerate(g.tiles.flat):
        if t is None:
            continue
        r, c = divmod(i, nx)
        x, y = ex[c], ey[r]
        _check_tile_place(t, x, y, ts, code)
        if isinstance(t, BathyGrid):
            ss = float(t.tile_size)
            n = int(round(ts / ss))
            if ss != m.leaf or tuple(t.tiles.shape) != (n, n) or t.maximum_tiles != n * n or t.width != ts or t.height != ts:
                raise Violation(code, 'subgrid %s: %s subtiles of %s do not cover its square' % (t.name, t.tiles.shape, ss))
            if not np.array_equal(arr_of(t.tile_edges_x), x + ss * np.arange(n + 1)) or \
                    not np.array_equal(arr_of(t.tile_edges_y), y + ss * np.arange(n + 1)):
                raise Violation(code, 'subgrid %s edges are wrong' % t.name)
            for j, s in enumerate(t.tiles.flat):
                if s is not None:
                    _check_tile_place(s, x + (j % n) * ss, y + (j // n) * ss, ss, code)
    return e


def _check_tile_place(t, x, y, size, code):
    b = tuple(float(v) for v in (t.min_x, t.min_y, t.max_x, t.max_y))
    if b != (x, y, x + size, y + size):
        raise Violation(code, 'tile %s has bounds %s at the place of %s' % (t.name, b, (x, y, x + size, y + size)))
    if t.name != '%s_%s' % (float(x), float(y)):
        raise Violation(code, 'tile at %s is named %s' % ((x, y), t.name))


# -- files ----------------------------------------------------------------------------------------------------------

def dir_digest(root):
    """{relative path: digest} of a directory tree, with the real functions."""
    out = {}
    stack = [root]
    while stack:
        d = stack.pop()
        with seams.REAL['scandir'](d) as it:
            for e in sorted(it, key=lambda e: e.name):
                r = os.path.relpath(e.path, root)
                if e.is_dir(follow_symlinks=False):
                    out[r + '/'] = ''
                    stack.append(e.path)
                else:
                    with seams.REAL['open'](e.path, 'rb') as f:
                        out[r] = hashlib.md5(f.read()).hexdigest()
    return out


def diff_digest(a, b):
    for k in sorted(set(a) | set(b)):
        if k not in b:
            return '%s is gone' % k
        if k not in a:
            return '%s is new' % k
        if a[k] != b[k]:
            return '%s was changed' % k
    return None


def copy_tree(src, dst):
    """Plain recursive copy with the real functions."""
    seams.REAL['mkdir'](dst)
    with seams.REAL['scandir'](src) as it:
        for e in it:
            d = os.path.join(dst, e.name)
            if e.is_dir(follow_symlinks=False):
                copy_tree(e.path, d)
            else:
                with seams.REAL['open'](e.path, 'rb') as f:
                    data = f.read()
                with seams.REAL['open'](d, 'wb') as f:
                    f.write(data)


def real_rmtree(path):
    """Removes a scratch tree of this simulation, whatever Sim is current."""
    if not os.path.isdir(path):
        return
    with seams.REAL['scandir'](path) as it:
        es = list(it)
    for e in es:
        if e.is_dir(follow_symlinks=False):
            real_rmtree(e.path)
        else:
            seams.REAL['unlink'](e.path)
    seams.REAL['rmdir'](path)
