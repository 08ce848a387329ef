"""
Reference model of a bathygrid: containers of points, and per leaf tile the layers last computed.
Deliberately naive: dictionaries and plain loops, no sharing with the implementation.
"""
import math
import numpy as np

LOOKUP = [(10, 0.25), (20, 0.5), (40, 1.0), (60, 2.0), (80, 4.0), (160, 8.0), (320, 16.0), (640, 32.0),
          (1280, 64.0), (2560, 128.0), (5120, 256.0), (10240, 512.0), (20480, 1024.0)]


def lookup_resolution(mean, limit):
    """Depth band of the mean depth: the first band whose upper bound exceeds it, limited by the tile size."""
    for bound, rez in LOOKUP:
        if mean < bound:
            return float(min(rez, limit))
    return float(min(LOOKUP[0][1], limit))


def lookup_resolution_density(mean, limit):
    for bound, rez in LOOKUP:
        if mean <= bound:
            return float(min(rez, limit))
    return float(min(LOOKUP[-1][1], limit))


def density_resolution(pts, min_x, min_y, size):
    """The density rule: coarse cells of 16 m (at most the tile), weighted mean of the resolutions that would
    give five points (times 1.75) per cell; depth lookup when at most 75% of the coarse cells are filled."""
    start = min(size, 16.0)
    counts = {}
    for x, y in zip(pts['x'], pts['y']):
        k = (int(math.floor((x - min_x) / start)), int(math.floor((y - min_y) / start)))
        counts[k] = counts.get(k, 0) + 1
    total = int((size / start) ** 2)
    if len(counts) / total <= 0.75:
        return lookup_resolution_density(float(np.mean(pts['z'])), size)
    num = 0.0
    den = 0.0
    for c in counts.values():
        num += math.sqrt(2 * 5 * 1.75 / (c / start ** 2)) * c
        den += c
    est = num / den
    rez = [r for _, r in LOOKUP]
    for r in sorted(rez):
        if r >= est - 1e-12:
            return float(min(r, size))
    return float(min(max(rez), size))


def cells_of(pts, min_x, min_y, size, rez, algorithm, depth_key):
    """Layers of one tile by plain loops.  {layer: 2d array [y, x]}"""
    n = max(int(round(size / rez)), 1)
    out = {depth_key: np.full((n, n), np.nan), 'density': np.zeros((n, n), dtype=int)}
    names = pts.dtype.names
    hasv, hash_ = 'tvu' in names, 'thu' in names
    if hasv:
        out['vertical_uncertainty'] = np.full((n, n), np.nan)
    if hash_:
        out['horizontal_uncertainty'] = np.full((n, n), np.nan)
    cells = {}
    for i in range(len(pts)):
        r = int(math.floor((float(pts['y'][i]) - min_y) / rez))
        c = int(math.floor((float(pts['x'][i]) - min_x) / rez))
        cells.setdefault((r, c), []).append(i)
    for (r, c), idx in cells.items():
        out['density'][r, c] = len(idx)
        if algorithm == 'mean':
            out[depth_key][r, c] = math.fsum(float(pts['z'][i]) for i in idx) / len(idx)
            if hasv:
                out['vertical_uncertainty'][r, c] = math.fsum(float(pts['tvu'][i]) for i in idx) / len(idx)
            if hash_:
                out['horizontal_uncertainty'][r, c] = math.fsum(float(pts['thu'][i]) for i in idx) / len(idx)
        else:
            best = min(idx, key=lambda i: float(pts['z'][i]))
            out[depth_key][r, c] = float(pts['z'][best])
            if hasv:
                out['vertical_uncertainty'][r, c] = float(pts['tvu'][best])
            if hash_:
                out['horizontal_uncertainty'][r, c] = float(pts['thu'][best])
    return out


class Leaf:
    __slots__ = ('cells', 'changed', 'algorithm', 'kept', 'last')

    def __init__(self):
        self.cells = {}
        self.changed = False
        self.algorithm = None
        self.kept = False
        self.last = None           # resolution of the last gridding


def origin_of(cfg):
    """Origin of the tiles: the one given, to the nearest 1/1024, where all edges are exact."""
    return [round(v * 1024.0) / 1024.0 for v in cfg.get('origin', (0, 0))]


class Model:
    def __init__(self, cfg, light=False):
        self.cfg = cfg
        self.light = light
        self.kind = cfg['kind']
        self.tile = float(cfg['tile'])
        self.leaf = float(cfg['tile'] if cfg['kind'] == 'sr' else cfg['sub'])
        self.ox, self.oy = origin_of(cfg)
        self.depth_key = 'intensity' if cfg.get('bs') else 'depth'
        self.containers = {}       # name -> points
        self.files = {}
        self.leaves = {}           # (ix, iy) -> Leaf, only those with points
        self.epsg = None
        self.vref = None
        self.min_time = None
        self.max_time = None
        self.algorithm = ''
        self.grid_resolution = ''
        self.resolutions = []
        self.res_must = set()
        self.saved = False
        self.last_mean = 0.0
        self.extent_pts = None     # bounding box of all points ever

    def clone(self):
        import copy
        m = Model(self.cfg)
        for k, v in self.__dict__.items():
            if k == 'leaves':
                m.leaves = {}
                for kk, lf in v.items():
                    n = Leaf()
                    n.cells, n.changed, n.algorithm, n.kept, n.last = dict(lf.cells), lf.changed, lf.algorithm, lf.kept, lf.last
                    m.leaves[kk] = n
            elif isinstance(v, (dict, list)):
                setattr(m, k, copy.copy(v))
            else:
                setattr(m, k, v)
        return m

    # -- keys
    def key_of(self, x, y):
        return int(math.floor((float(x) - self.ox) / self.leaf)), int(math.floor((float(y) - self.oy) / self.leaf))

    def origin_of(self, k):
        return self.ox + k[0] * self.leaf, self.oy + k[1] * self.leaf

    def keys_of(self, pts):
        kx = np.floor((pts['x'].astype(float) - self.ox) / self.leaf).astype(int)
        ky = np.floor((pts['y'].astype(float) - self.oy) / self.leaf).astype(int)
        return kx, ky

    def leaf_points(self):
        """{key: {container: points}} of the current containers."""
        out = {}
        for name, pts in self.containers.items():
            kx, ky = self.keys_of(pts)
            for k in set(zip(kx.tolist(), ky.tolist())):
                m = (kx == k[0]) & (ky == k[1])
                out.setdefault(k, {})[name] = pts[m]
        return out

    # -- operations
    def add(self, name, pts, files=None, epsg=None, vref=None, mint=None, maxt=None):
        self.containers[name] = pts
        self.files[name] = list(files) if files else ['Unknown']
        kx, ky = self.keys_of(pts)
        for k in set(zip(kx.tolist(), ky.tolist())):
            lf = self.leaves.get(k)
            if lf is None:
                lf = self.leaves[k] = Leaf()
            lf.changed = True
        if epsg:
            self.epsg = int(epsg)
        self.vref = vref
        if mint:
            self.min_time = int(mint) if self.min_time is None else min(self.min_time, int(mint))
        if maxt:
            self.max_time = int(maxt) if self.max_time is None else max(self.max_time, int(maxt))
        self.last_mean = float(np.mean(pts['z']))
        b = (pts['x'].min(), pts['y'].min(), pts['x'].max(), pts['y'].max())
        e = self.extent_pts
        self.extent_pts = b if e is None else (min(e[0], b[0]), min(e[1], b[1]), max(e[2], b[2]), max(e[3], b[3]))

    def remove(self, name):
        pts = self.containers.pop(name)
        self.files.pop(name)
        kx, ky = self.keys_of(pts)
        left = self.leaf_points()
        for k in set(zip(kx.tolist(), ky.tolist())):
            if k not in left:
                self.leaves.pop(k, None)
            else:
                self.leaves[k].changed = True
        have = {r for lf in self.leaves.values() for r in lf.cells}
        self.resolutions = [r for r in self.resolutions if r in have]
        self.res_must &= {lf.last for lf in self.leaves.values()}     # a layer of an earlier gridding may or may not be listed

    def auto_resolution(self, key, pts, mode):
        if mode == 'depth':
            return lookup_resolution(float(np.mean(pts['z'])), self.leaf)
        return density_resolution(pts, *self.origin_of(key), self.leaf)

    def grid(self, algorithm, res=None, mode='depth', clear=False, option='full'):
        lp = {k: _cat(v) for k, v in self.leaf_points().items()}
        fixed = float(res) if res is not None else None
        if res is None and self.kind == 'sr':
            if mode == 'depth':
                fixed = lookup_resolution(round(self.last_mean, 3), self.leaf)
            else:
                fixed = max(self.auto_resolution(k, p, mode) for k, p in lp.items())
        used = []
        must = set()
        for k, pts in lp.items():
            lf = self.leaves[k]
            lf.kept = False
            if option == 'update' and not clear and not lf.changed:
                lf.kept = True
                used.extend(lf.cells.keys())
                must.add(lf.last)
                continue
            rz = fixed if fixed is not None else self.auto_resolution(k, pts, mode)
            if clear or option == 'update':
                lf.cells = {}
            lf.cells = dict(lf.cells)
            lf.cells[rz] = True if self.light else cells_of(pts, *self.origin_of(k), self.leaf, rz, algorithm, self.depth_key)
            lf.changed = False
            lf.algorithm = algorithm
            lf.last = rz
            used.append(rz)
            must.add(rz)
        self.algorithm = algorithm
        self.grid_resolution = res if res is not None else 'AUTO_' + mode.upper()
        self.resolutions = sorted(set(used))
        self.res_must = must

    # -- derived
    def points_count(self):
        return sum(len(p) for p in self.containers.values())

    def tile_count(self):
        if self.kind == 'sr':
            return len(self.leaves)
        f = int(round(self.tile / self.leaf))
        return len({(k[0] // f, k[1] // f) for k in self.leaves})

    def up_to_date(self):
        return bool(self.leaves) and all(lf.cells and not lf.changed for lf in self.leaves.values())

    def fully_gridded(self):
        return bool(self.leaves) and all(lf.cells for lf in self.leaves.values())

    def single_res_each(self):
        return all(len(lf.cells) == 1 for lf in self.leaves.values())


def _cat(d):
    ks = list(d)
    return d[ks[0]] if len(ks) == 1 else np.concatenate([d[k] for k in ks])


def points_key(arr):
    """Canonical sorted list of tuples of a structured array."""
    return sorted(tuple(float(arr[n][i]) for n in arr.dtype.names) for i in range(len(arr)))


def close(a, b, tol=2e-3):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    na, nb = np.isnan(a), np.isnan(b)
    if not (na == nb).all():
        return False
    m = ~na
    return bool((np.abs(a[m] - b[m]) <= tol + 1e-5 * np.abs(b[m])).all())
