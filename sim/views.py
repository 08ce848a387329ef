"""
The ways to look at a grid: list of read-only calls (C16), comparison of the views with the tiles (C18), exports read back (C15).
"""
import os
import random
import xml.etree.ElementTree as et

import matplotlib.pyplot as plt
import numpy as np
from osgeo import gdal

from . import seams
from . import world as W
from .model import cells_of
from .world import Violation

gdal.UseExceptions()

DEPTHS = ('depth', 'intensity')


def layer_list(cfg):
    l = ['intensity' if cfg['bs'] else 'depth', 'density']
    if 'v' in cfg['fields']:
        l.append('vertical_uncertainty')
    if 'h' in cfg['fields']:
        l.append('horizontal_uncertainty')
    return l


# -- what the tiles say ---------------------------------------------------------------------------------------

class Truth:
    """The surface according to the tiles themselves."""

    def __init__(self, snap, cfg):
        self.cfg = cfg
        self.leaves = snap['leaves']
        m = snap['meta']
        self.x0, self.y0, self.x1, self.y1 = m['min_x'], m['min_y'], m['max_x'], m['max_y']
        self.resolutions = sorted({r for l in self.leaves.values() for r in l['cells']})
        self.leafsize = float(cfg['tile'] if cfg['kind'] == 'sr' else cfg['sub'])
        self.layers = layer_list(cfg)

    def full(self, layer, rez):
        ny, nx = int(round((self.y1 - self.y0) / rez)), int(round((self.x1 - self.x0) / rez))
        a = np.full((ny, nx), np.nan)
        n = int(round(self.leafsize / rez))
        for l in self.leaves.values():
            if rez in l['cells'] and layer in l['cells'][rez]:
                r, c = int(round((l['bounds'][1] - self.y0) / rez)), int(round((l['bounds'][0] - self.x0) / rez))
                v = l['cells'][rez][layer].astype(float)
                if layer == 'density':
                    v = np.where(v > 0, v, np.nan)
                a[r:r + n, c:c + n] = v
        return a

    def at(self, layer, x, y, rez=None, listed=None):
        """Value of the cell containing the position at the finest resolution that has one."""
        for r in ([rez] if rez else listed or self.resolutions):
            for l in self.leaves.values():
                b = l['bounds']
                if b[0] <= x < b[2] and b[1] <= y < b[3] and r in l['cells']:
                    i, j = int((y - b[1]) // r), int((x - b[0]) // r)
                    v = float(l['cells'][r][layer][i, j])
                    if layer == 'density' and v == 0:
                        v = np.nan
                    if not np.isnan(v):
                        return v
        return np.nan

    def populated(self, layer, rez):
        """{(x, y) of the cell centre: value} of all populated cells at this resolution."""
        out = {}
        for l in self.leaves.values():
            if rez in l['cells'] and layer in l['cells'][rez]:
                v = l['cells'][rez][layer].astype(float)
                for i, j in np.argwhere(~np.isnan(v) if layer != 'density' else v > 0):
                    out[(l['bounds'][0] + (j + 0.5) * rez, l['bounds'][1] + (i + 0.5) * rez)] = float(v[i, j])
        return out

    def container_full(self, cont, rez):
        ny, nx = int(round((self.y1 - self.y0) / rez)), int(round((self.x1 - self.x0) / rez))
        a = np.full((ny, nx), np.nan)
        n = int(round(self.leafsize / rez))
        for l in self.leaves.values():
            if rez in l['cells'] and cont in l['cont']:
                s, e = l['cont'][cont]
                c = cells_of(l['pts'][s:e], l['bounds'][0], l['bounds'][1], self.leafsize, rez, l['alg'], 'depth')['depth']
                r, q = int(round((l['bounds'][1] - self.y0) / rez)), int(round((l['bounds'][0] - self.x0) / rez))
                a[r:r + n, q:q + n] = c
        return a


def same(a, b, what, nodata=None, density=False, tol=2e-3):
    """a: from the code, b: expected with NaN for empty."""
    a = np.asarray(a)
    if a.shape != b.shape:
        raise Violation('views', '%s has shape %s, expected %s' % (what, a.shape, b.shape))
    a = a.astype(float)
    has = ~np.isnan(b)
    if has.any():
        d = ~(np.abs(a[has] - b[has]) <= tol + 1e-5 * np.abs(b[has]))
        if d.any():
            p = tuple(int(v) for v in np.argwhere(has)[np.argwhere(d)[0][0]])
            raise Violation('views', '%s: %s at %s, the tile has %s' % (what, a[p], p, b[p]))
    rest = a[~has]
    if nodata is None or np.isnan(nodata):
        bad = ~(np.isnan(rest) | (density & (rest == 0)))
    else:
        bad = ~((np.abs(rest - float(np.float32(nodata))) < 1e-6 * max(1.0, abs(nodata))) | (density & (rest == 0)))
    if bad.any():
        p = tuple(int(v) for v in np.argwhere(~has)[np.argwhere(bad)[0][0]])
        raise Violation('views', '%s: %s at %s, where no tile has a value' % (what, a[p], p))


def sign_of(g, layer, zpos):
    if layer != 'depth':
        return 1.0
    up = 'height (h)",up' in (g.vertical_reference or '')
    return -1.0 if bool(zpos) != up else 1.0


def check_views(g, cfg, rng, truth=None, full=True):
    """C18.  The tiles have been gridded, perhaps not all of them since their points changed."""
    t = truth or Truth(W.snapshot(g), cfg)
    n = 0
    if sorted(g.layer_names) != sorted(t.layers) or g.no_grid:
        raise Violation('views', 'layer names %s, the tiles have %s' % (g.layer_names, t.layers))
    if sorted(g.return_layer_names()) != sorted(t.layers):
        raise Violation('views', 'return_layer_names %s, the tiles have %s' % (g.return_layer_names(), t.layers))
    if bool(g.has_vertical_uncertainty) != ('vertical_uncertainty' in t.layers) or \
            bool(g.has_horizontal_uncertainty) != ('horizontal_uncertainty' in t.layers):
        raise Violation('views', 'has_uncertainty %s %s' % (g.has_vertical_uncertainty, g.has_horizontal_uncertainty))
    conts = sorted(g.container)
    for rez in t.resolutions:
        fulls = {l: t.full(l, rez) for l in t.layers}
        for layers in [[l] for l in t.layers] + [rng.sample(t.layers, len(t.layers))]:
            nod = rng.choice([np.nan, np.nan, -9999.0, 1000000.0])
            zpos = rng.random() < 0.3
            q = layers[0] if len(layers) == 1 and rng.random() < 0.5 else layers
            got = g.get_layers_by_name(q, rez, nodatavalue=np.float32(nod), z_positive_up=zpos)
            if got is None or len(got) != len(layers):
                raise Violation('views', 'get_layers_by_name(%s, %s) gives %s layers' % (q, rez, None if got is None else len(got)))
            for l, a in zip(layers, got):
                same(a, fulls[l] * sign_of(g, l, zpos), 'get_layers_by_name(%s, %s)[%s]' % (q, rez, l), nod, l == 'density')
            n += 1
        # trimmed
        lyr = rng.choice([l for l in t.layers if l != 'density'])
        nod = rng.choice([np.nan, np.nan, -9999.0])
        zpos = rng.random() < 0.3
        data, mn, mx = g.get_layers_trimmed([lyr, 'density'], rez, nod, zpos)
        f = fulls[lyr]
        rows, cols = np.where((~np.isnan(f)).any(axis=1))[0], np.where((~np.isnan(f)).any(axis=0))[0]
        if [int(v) for v in mn] != [rows[0], cols[0]] or [int(v) for v in mx] != [rows[-1] + 1, cols[-1] + 1]:
            raise Violation('views', 'get_layers_trimmed bounds %s %s, populated are rows %d-%d, columns %d-%d'
                            % (mn, mx, rows[0], rows[-1], cols[0], cols[-1]))
        sl = (slice(rows[0], rows[-1] + 1), slice(cols[0], cols[-1] + 1))
        same(data[0], f[sl] * sign_of(g, lyr, zpos), 'get_layers_trimmed(%s, %s)' % (lyr, rez), nod)
        same(data[1], fulls['density'][sl], 'get_layers_trimmed(density, %s)' % rez, nod, density=True)
        # coordinates
        for cb in (True, False):
            nod = rng.choice([np.nan, np.nan, -9999.0])
            x, y, surf, mn, mx = g.return_surf_xyz(lyr, rez, cb, nod)
            same(surf[0], f[sl] * sign_of(g, lyr, False), 'return_surf_xyz(%s, %s)' % (lyr, rez), nod)
            off = 0.0 if cb else 0.5
            wx = t.x0 + (np.arange(cols[0], cols[-1] + (2 if cb else 1)) + off) * rez
            wy = t.y0 + (np.arange(rows[0], rows[-1] + (2 if cb else 1)) + off) * rez
            if not np.array_equal(x, wx) or not np.array_equal(y, wy):
                raise Violation('views', 'return_surf_xyz(%s, %s, cell_boundaries=%s): coordinates do not match the cells' % (lyr, rez, cb))
        n += 3
        # per tile
        layers = rng.sample(t.layers, rng.randrange(1, len(t.layers) + 1))
        nod = rng.choice([np.nan, -9999.0])
        acc = {l: np.full_like(fulls[l], np.nan) for l in layers}
        only = rng.random() < 0.5 and W.norm(g.resolutions) == [rez]
        zpos = rng.random() < 0.3
        q = layers[0] if len(layers) == 1 and rng.random() < 0.5 else list(layers)
        for geo, dc, dr, cnt, data in g.get_tiles_by_resolution(None if only else rez, q, nodatavalue=np.float32(nod), z_positive_up=zpos):
            for l in data:
                acc[l][dc:dc + cnt, dr:dr + cnt] = blank(data[l], nod, l)
            if data and (float(geo[0]), float(geo[3])) != (t.x0 + dr * rez, t.y0 + (dc + cnt) * rez):
                raise Violation('views', 'get_tiles_by_resolution: georeference %s of the tile at %s' % (geo, (dc, dr)))
        for l in layers:
            same(acc[l], fulls[l] * sign_of(g, l, zpos), 'get_tiles_by_resolution(%s, %s)' % (l, rez))
        # chunks
        layers = rng.sample(t.layers, rng.randrange(1, len(t.layers) + 1))
        nod = rng.choice([np.nan, -9999.0])
        gd = rng.random() < 0.5
        dim = rng.choice([None, cfg['tile'], cfg['tile'] * 2, cfg['tile'] * 3])
        zpos = rng.random() < 0.5
        acc = {l: np.full_like(fulls[l], np.nan) for l in layers}
        shp = acc[layers[0]].shape
        q = layers[0] if len(layers) == 1 and rng.random() < 0.5 else list(layers)
        for geo, mxd, data in g.get_chunks_of_tiles(None if only else rez, q, np.float32(nod), zpos, dim, gd):
            for l in data:
                a = np.asarray(data[l])
                a = a.T[::-1] if gd else a
                h, w = a.shape
                if max(h, w) * rez > max(dim or 32768, cfg['tile']) or mxd != max(h, w) * rez:
                    raise Violation('views', 'get_chunks_of_tiles(%s, dim=%s): a chunk of %s cells, maximum dimension %s' % (rez, dim, (h, w), mxd))
                c = int(round((float(geo[0]) - t.x0) / rez))
                r = int(round((float(geo[3]) - t.y0) / rez)) - h
                v = blank(a, nod, l)
                if r < 0 or c < 0 or r + h > shp[0] or c + w > shp[1]:
                    raise Violation('views', 'get_chunks_of_tiles(%s): chunk of %s at %s is outside the grid' % (rez, (h, w), (r, c)))
                dst = acc[l][r:r + h, c:c + w]
                if (~np.isnan(dst) & ~np.isnan(v)).any():
                    raise Violation('views', 'get_chunks_of_tiles(%s): the same cells twice' % rez)
                acc[l][r:r + h, c:c + w] = np.where(np.isnan(v), dst, v)
        for l in layers:
            same(acc[l], fulls[l] * sign_of(g, l, zpos), 'get_chunks_of_tiles(%s, %s, gdal=%s, dim=%s)' % (l, rez, gd, dim))
        n += 2
        # containers
        named = [c for c in conts if c not in ('depth', 'density')]   # these names mean the layers of the grid
        for cont in rng.sample(named, min(2, len(named))):
            want = t.container_full(cont, rez)
            got = g.get_layers_by_name(cont, rez)
            if got is None:
                if (~np.isnan(want)).any():
                    raise Violation('views', 'container %s has no layer at %s' % (cont, rez))
            else:
                same(got[0], want, 'container layer %s at %s' % (cont, rez))
            n += 1
    check_left_out(g, t, rng)
    # values at positions
    xs, ys = positions(t, rng, 24)
    listed = sorted(float(r) for r in g.resolutions)   # of the last gridding, that is what None means
    for lyr in t.layers:
        rez = rng.choice([None, None] + t.resolutions)
        nod = rng.choice([np.nan, np.nan, -9999.0])
        fx, fy = rng.choice([np.array, np.array, list, tuple]), rng.choice([np.array, np.array, list, tuple])
        got = np.asarray(g.layer_values_at_xy(fx(xs), fy(ys), lyr, rez, nod)).astype(float)
        if got.shape != (len(xs),):
            raise Violation('values', 'layer_values_at_xy: %s values for %d positions' % (got.shape, len(xs)))
        for x, y, v in zip(xs, ys, got):
            v = np.nan if v == nod else v
            w = t.at(lyr, x, y, rez, listed) * sign_of(g, lyr, False)
            if lyr == 'density' and v == 0:
                v = np.nan
            if np.isnan(v) != np.isnan(w) or (not np.isnan(v) and abs(v - w) > 2e-3 + 1e-5 * abs(w)):
                raise Violation('values', 'layer_values_at_xy(%r, %r, %s, %s) is %s, the cell there has %s (resolutions %s)'
                                % (x, y, lyr, rez, v, w, t.resolutions))
        k = rng.randrange(len(xs))
        v = float(np.asarray(g.layer_values_at_xy(float(xs[k]), float(ys[k]), lyr, rez)).astype(float))
        w = t.at(lyr, xs[k], ys[k], rez, listed) * sign_of(g, lyr, False)
        if lyr == 'density' and v == 0:
            v = np.nan
        if np.isnan(v) != np.isnan(w) or (not np.isnan(v) and abs(v - w) > 2e-3 + 1e-5 * abs(w)):
            raise Violation('values', 'layer_values_at_xy(%r, %r, %s, %s) is %s, the cell there has %s' % (xs[k], ys[k], lyr, rez, v, w))
        n += 2
    # counts
    cc = {float(k): int(v) for k, v in g.cell_count.items()}
    want = {r: len(t.populated(t.layers[0], r)) for r in t.resolutions}
    if cc != want:
        raise Violation('counts', 'cell_count %s, the tiles have %s' % (cc, want))
    den = sorted(v for r in t.resolutions for v in t.populated('density', r).values())
    if sorted(float(v) for v in g.density_count) != den:
        raise Violation('counts', 'density_count does not list the populated cells of the tiles')
    dsq = sorted(v / r ** 2 for r in t.resolutions for v in t.populated('density', r).values())
    if not np.allclose(sorted(float(v) for v in g.density_per_square_meter), dsq):
        raise Violation('counts', 'density_per_square_meter does not match the tiles')
    area = sum(len(t.populated('density', r)) * r ** 2 for r in t.resolutions)
    if abs(g.coverage_area_square_meters - area) > 1e-2 * max(1, len(t.leaves)):
        raise Violation('counts', 'coverage area %s, the populated cells cover %s' % (g.coverage_area_square_meters, area))
    if not cfg['bs']:
        a, b = g.density_count_vs_depth
        w = sorted((v, round(t.populated('depth', r)[k], 3)) for r in t.resolutions for k, v in t.populated('density', r).items())
        got = sorted((float(p), round(float(q), 3)) for p, q in zip(a, b))
        if len(a) != len(b) or not np.allclose(np.array(got), np.array(w), atol=3e-3):
            raise Violation('counts', 'density_count_vs_depth does not match the tiles')
        a, b = g.density_per_square_meter_vs_depth
        w = sorted((v / r ** 2, round(t.populated('depth', r)[k], 3)) for r in t.resolutions for k, v in t.populated('density', r).items())
        got = sorted((float(p), round(float(q), 3)) for p, q in zip(a, b))
        if len(a) != len(b) or not np.allclose(np.array(got), np.array(w), atol=3e-3):
            raise Violation('counts', 'density_per_square_meter_vs_depth does not match the tiles')
    for l in t.layers:
        got = sorted(float(v) for v in g.return_layer_values(l))
        w = sorted(v for r in t.resolutions for v in t.populated(l, r).values())
        if len(got) != len(w) or not np.allclose(got, w, atol=2e-3):
            raise Violation('counts', 'return_layer_values(%s) does not match the tiles' % l)
    check_boundaries(g, t)
    check_plots(g, cfg, rng, t, listed)
    return n + 12


def check_left_out(g, t, rng):
    """Views of one resolution without saying which: that of the last gridding, an error if there were several."""
    lyr = rng.choice([l for l in t.layers if l != 'density'])
    calls = {'get_layers_by_name': lambda *r: g.get_layers_by_name(lyr, *r)[0],
             'get_layers_trimmed': lambda *r: g.get_layers_trimmed(lyr, *r)[0][0],
             'return_surf_xyz': lambda *r: np.concatenate([np.ravel(v) for v in g.return_surf_xyz(lyr, *r)[:3]]),
             'get_chunks_of_tiles': lambda *r: np.concatenate([d[lyr].ravel() for _, _, d in g.get_chunks_of_tiles(*(r or (None,)), lyr)]),
             'get_tiles_by_resolution': lambda *r: np.concatenate([d[lyr].ravel() for _, _, _, _, d in g.get_tiles_by_resolution(*(r or (None,)), lyr) if d])}
    for what, f in calls.items():
        try:
            got = f()
        except ValueError as e:
            if len(g.resolutions) == 1:
                raise Violation('views', '%s without a resolution failed for a grid with the resolution %s: %s' % (what, g.resolutions, e))
            continue
        if len(g.resolutions) != 1:
            raise Violation('views', '%s without a resolution was answered for a grid with the resolutions %s' % (what, g.resolutions))
        if not np.array_equal(got, f(float(g.resolutions[0])), equal_nan=True):
            raise Violation('views', '%s without a resolution is not that of %s' % (what, g.resolutions))


def check_boundaries(g, t):
    """The line to draw: along the edges of the tiles, all four of each."""
    x, y = [np.asarray(v, dtype=float) for v in g.get_tile_boundaries()]
    ts = float(g.tile_size)
    ex, ey = [np.arange(int(round((b - a) / ts)) + 1) * ts + a for a, b in ((t.x0, t.x1), (t.y0, t.y1))]
    ix, iy = np.round((x - t.x0) / ts).astype(int), np.round((y - t.y0) / ts).astype(int)
    if x.shape != y.shape or ix.min() < 0 or iy.min() < 0 or ix.max() >= len(ex) or iy.max() >= len(ey) or \
            np.abs(x - ex[ix]).max() > 1e-6 or np.abs(y - ey[iy]).max() > 1e-6:
        raise Violation('boundaries', 'get_tile_boundaries: not the corners of the tiles')
    drawn = set()
    for (a, b), (c, d) in zip(zip(ix, iy), zip(ix[1:], iy[1:])):
        if a != c and b != d:
            raise Violation('boundaries', 'get_tile_boundaries: diagonal line from %s to %s' % ((a, b), (c, d)))
        for k in range(min(a, c), max(a, c)):
            drawn.add(('h', k, b))
        for k in range(min(b, d), max(b, d)):
            drawn.add(('v', a, k))
    want = {('h', i, j) for i in range(len(ex) - 1) for j in range(len(ey))} | {('v', i, j) for i in range(len(ex)) for j in range(len(ey) - 1)}
    if drawn != want:
        raise Violation('boundaries', 'get_tile_boundaries: %d edges drawn, %d expected' % (len(drawn), len(want)))


def figure_of(f):
    plt.close('all')
    plt.figure()
    f()
    return plt.gca()


def check_hist(ax, vals, bins, what):
    h = np.array([p.get_height() for p in ax.patches])
    vals = np.asarray(vals, dtype=float)
    if len(h) != bins or h.sum() != len(vals):
        raise Violation('plots', '%s: %d bars with %s values, the tiles have %d values' % (what, len(h), h.sum(), len(vals)))
    tol = 1e-6 * (1 + np.abs(vals).max()) + 1e-3
    for p, c in zip(ax.patches, h.cumsum()):
        e = p.get_x() + p.get_width()
        if not (vals < e - tol).sum() <= c <= (vals <= e + tol).sum():
            raise Violation('plots', '%s: %s values up to %s, the tiles have %d' % (what, c, e, (vals <= e).sum()))


def check_means(ax, pairs, bins, what):
    den, dep = np.array([p[0] for p in pairs]), np.array([p[1] for p in pairs])
    edges = np.linspace(dep.min() - 0.001, dep.max() + 0.001, bins + 1)
    if bins > 1 and np.abs(dep[:, None] - edges[None, 1:-1]).min() < 1e-3 + 1e-6 * np.abs(dep).max():
        return
    k = np.searchsorted(edges[1:-1], dep)
    used = sorted(set(k.tolist()))
    x, y = ax.lines[0].get_data()
    want = [den[k == i].mean() for i in used]
    if len(y) != len(want) or not np.allclose(y, want, rtol=1e-4, atol=1e-6):
        raise Violation('plots', '%s: %s, expected %s' % (what, W._short(list(y)), W._short(want)))
    pad = 2e-3 + 1e-6 * np.abs(dep).max()
    if not all(edges[i] - pad <= v <= edges[i + 1] + pad for v, i in zip(x, used)):
        raise Violation('plots', '%s: drawn at %s, the bins are %s' % (what, W._short(list(x)), W._short(list(edges))))


def check_mesh(ax, t, lyr, rezs, sign, what):
    meshes = [c for c in ax.collections if hasattr(c, 'get_coordinates')]
    if len(meshes) != len(rezs):
        raise Violation('plots', '%s: %d surfaces drawn for the resolutions %s' % (what, len(meshes), rezs))
    for c, rez in zip(meshes, rezs):
        xy = np.asarray(c.get_coordinates())
        v = np.ma.masked_invalid(np.ma.asarray(c.get_array()).reshape(xy.shape[0] - 1, xy.shape[1] - 1))
        mid = (xy[:-1, :-1] + xy[1:, 1:]) / 2
        got = {(round(float(mid[i, j, 0]), 4), round(float(mid[i, j, 1]), 4)): float(v[i, j]) for i, j in np.argwhere(~np.ma.getmaskarray(v))}
        want = {(round(a, 4), round(b, 4)): s * sign for (a, b), s in t.populated(lyr, rez).items()}
        if lyr == 'density':
            got = {k: s for k, s in got.items() if s}
        if set(got) != set(want):
            raise Violation('plots', '%s: %d cells drawn at %s, the tiles have %d' % (what, len(got), rez, len(want)))
        for k in want:
            if abs(got[k] - want[k]) > 2e-3 + 1e-5 * abs(want[k]):
                raise Violation('plots', '%s: %s drawn at %s, the cell there has %s' % (what, got[k], k, want[k]))


def check_plots(g, cfg, rng, t, listed):
    try:
        bins = rng.choice([1, 5, 50])
        every = lambda l, f=lambda v, r: v: [f(v, r) for r in t.resolutions for v in t.populated(l, r).values()]   # noqa
        z = t.layers[0]
        for n, l, f in [('density', 'density', lambda v, r: v), ('density_per_square_meter', 'density', lambda v, r: v / r ** 2), ('z', z, lambda v, r: v)] + \
                [(l, l, lambda v, r: v) for l in ('vertical_uncertainty', 'horizontal_uncertainty') if l in t.layers]:
            if rng.random() < 0.4:
                what = 'plot_%s_histogram' % n
                check_hist(figure_of(lambda: getattr(g, what)(bins)), every(l, f), bins, what)
        if not cfg['bs'] and rng.random() < 0.5:
            for what, p in (('plot_density_vs_depth', 0), ('plot_density_per_square_meter_vs_depth', 2)):
                pairs = [(v / r ** p, t.populated(z, r)[k]) for r in t.resolutions for k, v in t.populated('density', r).items()]
                check_means(figure_of(lambda: getattr(g, what)(bins)), pairs, bins, what)
        if rng.random() < 0.5:
            lyr = rng.choice(t.layers)
            rez = rng.choice([None] + t.resolutions) if listed == t.resolutions else rng.choice(t.resolutions)
            rezs = [rez] if rez else [r for r in listed]
            check_mesh(figure_of(lambda: g.plot(lyr, rez)), t, lyr, rezs, sign_of(g, lyr, False), 'plot(%s, %s)' % (lyr, rez))
    finally:
        plt.close('all')


def blank(a, nodata, layer):
    a = np.asarray(a).astype(float)
    if not np.isnan(nodata):
        a = np.where(a == float(np.float32(nodata)), np.nan, a)
    if layer == 'density':
        a = np.where(a == 0, np.nan, a)
    return a


def positions(t, rng, n):
    xs, ys = [], []
    leaves = list(t.leaves.values())
    for _ in range(n):
        k = rng.random()
        l = leaves[rng.randrange(len(leaves))]
        if k < 0.5:          # at one of the points
            p = l['pts'][rng.randrange(len(l['pts']))]
            x, y = float(p['x']), float(p['y'])
        elif k < 0.75:
            r = rng.choice(sorted(l['cells']) or [1.0])
            p = l['pts'][rng.randrange(len(l['pts']))]
            x = l['bounds'][0] + (float(p['x']) - l['bounds'][0]) // r * r
            y = l['bounds'][1] + (float(p['y']) - l['bounds'][1]) // r * r
            if rng.random() < 0.3:
                x += r
        elif k < 0.9:
            x, y = rng.uniform(t.x0, t.x1), rng.uniform(t.y0, t.y1)
        else:
            x, y = rng.choice([t.x0, t.x1, t.x0 - 1, t.x1 + 3]), rng.choice([t.y0, t.y1, t.y0 - 2, t.y1 + 1, (t.y0 + t.y1) / 2])
        xs.append(x)
        ys.append(y)
    return xs, ys


# -- exports ----------------------------------------------------------------------------------------------------

def export(g, fmt, out, zpos, rez, dim):
    kw = {}
    g.export(out, fmt, z_positive_up=zpos, resolution=rez, override_maximum_chunk_dimension=dim, **kw)


def new_files(folder, before):
    return sorted(set(seams.REAL['listdir'](folder)) - set(before))


def check_export(g, cfg, m, rng, folder, fmt, truth=None):
    """C15.  Exports to `folder` and reads everything back."""
    t = truth or Truth(W.snapshot(g), cfg)
    zpos = rng.random() < 0.7
    rez = rng.choice([None, None] + t.resolutions)
    dim = rng.choice([None, cfg['tile'], cfg['tile'] * 2, cfg['tile'] * 3, cfg['tile'] * 1.5])
    out = os.path.join(folder, 'out.' + {'csv': 'csv', 'geotiff': 'tif', 'bag': 'bag'}[fmt])
    before = seams.REAL['listdir'](folder)
    try:
        export(g, fmt, out, zpos, rez, dim)
    except Exception as e:
        from .hist import describe
        raise Violation('export_exception', 'export to %s (resolution %s, chunks of %s) failed: %s' % (fmt, rez, dim, describe(e)))
    files = new_files(folder, before)
    want_rez = [rez] if rez else sorted(float(r) for r in g.resolutions)
    if not set(want_rez) <= set(t.resolutions):
        raise Violation('resolutions', 'the grid lists resolutions %s, the tiles have %s' % (g.resolutions, t.resolutions))
    if fmt == 'csv':
        return read_csv(t, folder, files, want_rez, zpos, g)
    if fmt == 'geotiff':
        return read_tif(t, folder, files, want_rez, zpos, cfg, g, m)
    return read_bag(t, folder, files, want_rez, g, m)


def read_csv(t, folder, files, want_rez, zpos, g):
    csvs = [f for f in files if f.endswith('.csv')]
    left = list(csvs)
    for rez in want_rez:
        mine = [f for f in left if f.endswith('_%s.csv' % rez)]
        if len(mine) != 1:
            raise Violation('export', 'csv files %s, expected one for resolution %s' % (csvs, rez))
        left.remove(mine[0])
        with seams.REAL['open'](os.path.join(folder, mine[0])) as f:
            lines = f.read().split('\n')
        head = lines[0].split(' ')
        cols = ['elevation' if (l == 'depth' and zpos) else l for l in t.layers]
        if sorted(head) != sorted(['x', 'y'] + cols):
            raise Violation('export', 'csv columns %s, expected %s' % (head, ['x', 'y'] + cols))
        rows = [r.split(' ') for r in lines[1:] if r]
        ix, iy = head.index('x'), head.index('y')
        for l in t.layers:
            want = t.populated(l, rez)
            col = 'elevation' if (l == 'depth' and zpos) else l
            sg = sign_of(g, l, zpos)
            ic = head.index(col)
            got = {}
            for r in rows:
                v = float(r[ic])
                if np.isnan(v) or (l == 'density' and v == 0):
                    continue
                k = (round(float(r[ix]), 3), round(float(r[iy]), 3))
                if k in got:
                    raise Violation('export', 'csv %s: cell %s twice' % (rez, k))
                got[k] = v
            compare_cells(got, {(round(a, 3), round(b, 3)): v * sg for (a, b), v in want.items()}, 'csv %s %s' % (rez, col))
    if left:
        raise Violation('export', 'csv files %s that no resolution explains' % left)
    return len(csvs)


def compare_cells(got, want, what):
    for k in want:
        if k not in got:
            raise Violation('export', '%s: populated cell at %s is missing' % (what, k))
        if abs(got[k] - want[k]) > 2e-3 + 1e-5 * abs(want[k]):
            raise Violation('export', '%s: cell at %s is %s, the grid has %s' % (what, k, got[k], want[k]))
    for k in got:
        if k not in want:
            raise Violation('export', '%s: cell at %s has the value %s, the grid has none' % (what, k, got[k]))


def collect(ds, band, nodata, got, what, geo=None):
    a = ds.GetRasterBand(band).ReadAsArray().astype(float)
    geo = geo or ds.GetGeoTransform()
    for i, j in np.argwhere(np.abs(a - nodata) > 1):
        v = a[i, j]
        if np.isnan(v):
            raise Violation('export', '%s: NaN in the raster' % what)
        k = (round(geo[0] + (j + 0.5) * geo[1], 3), round(geo[3] + (i + 0.5) * geo[5], 3))
        if k in got:
            raise Violation('export', '%s: cell %s is in two files' % (what, k))
        got[k] = float(v)


def check_srs(ds, m, what):
    p = ds.GetSpatialRef()
    code = None
    if p is not None:
        q = p.Clone()
        if q.IsCompound():
            q.StripVertical()
        q.AutoIdentifyEPSG() if not q.GetAuthorityCode(None) else None
        code = q.GetAuthorityCode(None) or q.GetAuthorityCode('PROJCS')
    if str(code) != str(m.epsg):
        raise Violation('export', '%s: coordinate system %s, the grid has EPSG %s' % (what, code, m.epsg))


def read_tif(t, folder, files, want_rez, zpos, cfg, g, m):
    tifs = [f for f in files if f.endswith('.tif')]
    left = set(tifs)
    lyrs = ['intensity'] if cfg['bs'] else [l for l in t.layers if l in ('depth', 'vertical_uncertainty')]
    names = {'intensity': 'Intensity', 'depth': 'Elevation' if zpos else 'Depth', 'vertical_uncertainty': 'Vertical Uncertainty'}
    for rez in want_rez:
        mine = [f for f in tifs if ('_%s_' % rez) in f]
        if not mine:
            raise Violation('export', 'no geotiff for resolution %s: %s' % (rez, tifs))
        left -= set(mine)
        got = {l: {} for l in lyrs}
        for f in mine:
            ds = gdal.Open(os.path.join(folder, f))
            check_srs(ds, m, f)
            desc = [ds.GetRasterBand(i + 1).GetDescription() for i in range(ds.RasterCount)]
            if sorted(desc) != sorted(names[l] for l in lyrs):
                raise Violation('export', '%s: bands %s, expected %s' % (f, desc, [names[l] for l in lyrs]))
            if abs(ds.GetGeoTransform()[1]) != rez or abs(ds.GetGeoTransform()[5]) != rez:
                raise Violation('export', '%s: resolution %s' % (f, ds.GetGeoTransform()))
            for l in lyrs:
                b = desc.index(names[l]) + 1
                collect(ds, b, ds.GetRasterBand(b).GetNoDataValue(), got[l], f)
            ds = None
        for l in lyrs:
            sg = sign_of(g, l, zpos)
            compare_cells(got[l], {(round(a, 3), round(b, 3)): v * sg for (a, b), v in t.populated(l, rez).items()},
                          'geotiff %s %s' % (rez, l))
    if left:
        raise Violation('export', 'geotiff files %s that no resolution explains' % sorted(left))
    return len(tifs)


def bag_corner(path, nx, ny, rez):
    """Upper left corner of a BAG as its XML metadata has it."""
    import h5py
    with h5py.File(path, 'r') as h:
        x = h['BAG_root/metadata'][:].tobytes().replace(b'\x00', b'').decode('utf-8')
    for e in et.fromstring(x).iter():
        if e.tag.split('}')[-1] == 'coordinates':
            a, b = [[float(v) for v in q.split(',')] for q in e.text.split()]
            if b[0] - a[0] == (nx - 1) * rez and b[1] - a[1] == (ny - 1) * rez:
                return a[0] - rez / 2, b[1] + rez / 2
    return None


def read_bag(t, folder, files, want_rez, g, m):
    import h5py
    bags = [f for f in files if f.endswith('.bag')]
    left = set(bags)
    lyrs = [l for l in t.layers if l in ('depth', 'vertical_uncertainty')]
    for rez in want_rez:
        mine = [f for f in bags if ('_%s_' % rez) in f]
        if not mine:
            raise Violation('export', 'no bag for resolution %s: %s' % (rez, bags))
        left -= set(mine)
        got = {l: {} for l in lyrs}
        for f in mine:
            ds = gdal.Open(os.path.join(folder, f))
            check_srs(ds, m, f)
            geo = None
            if tuple(ds.GetGeoTransform()) == (0.0, 1.0, 0.0, 0.0, 0.0, 1.0):
                # gdal can not read the geotransform of a BAG whose upper left corner is exactly at 0, 0
                geo = (0.0, rez, 0.0, 0.0, 0.0, -rez)
                if bag_corner(os.path.join(folder, f), ds.RasterXSize, ds.RasterYSize, rez) != (0.0, 0.0):
                    raise Violation('export', '%s: no georeference' % f)
            for i, l in enumerate(lyrs):
                collect(ds, i + 1, ds.GetRasterBand(i + 1).GetNoDataValue(), got[l], f, geo)
            ds = None
            with h5py.File(os.path.join(folder, f), 'r') as h:
                x = h['BAG_root/metadata'][:].tobytes().replace(b'\x00', b'').decode('utf-8')
                for nm, l in (('elevation', 'depth'), ('uncertainty', 'vertical_uncertainty')):
                    if l in lyrs:
                        d = h['BAG_root/' + nm]
                        a = d[:]
                        a = a[np.abs(a - 1e6) > 1]
                        if a.size:
                            k = [k for k in d.attrs if k.lower().startswith('minimum')], [k for k in d.attrs if k.lower().startswith('maximum')]
                            lo = min(float(d.attrs[q]) for q in k[0])
                            hi = max(float(d.attrs[q]) for q in k[1])
                            if abs(lo - a.min()) > 1e-3 or abs(hi - a.max()) > 1e-3:
                                raise Violation('export', '%s: %s range %s to %s, the data has %s to %s' % (f, nm, lo, hi, a.min(), a.max()))
            root = et.fromstring(x)
            pos = {}
            for e in root.iter():
                tag = e.tag.split('}')[-1]
                if tag in ('beginPosition', 'endPosition'):
                    pos[tag] = (e.text or '').strip()
            w = {'beginPosition': W.fmt_time(m.min_time), 'endPosition': W.fmt_time(m.max_time)}
            if m.min_time is not None and m.max_time is not None and pos != w:
                raise Violation('export', '%s: time extents %s, the grid has %s' % (f, pos, w))
        for l in lyrs:
            sg = sign_of(g, l, True)
            compare_cells(got[l], {(round(a, 3), round(b, 3)): v * sg for (a, b), v in t.populated(l, rez).items()},
                          'bag %s %s' % (rez, l))
    if left:
        raise Violation('export', 'bag files %s that no resolution explains' % sorted(left))
    return len(bags)


# -- read-only calls (C16) ------------------------------------------------------------------------------------------

def read_calls(g, cfg, rng, outdir):
    """Names and thunks of read-only calls, some of which are expected to fail."""
    lyrs = layer_list(cfg)
    conts = sorted(g.container)
    rezs = [float(r) for r in (g.resolutions or [])] or [1.0]
    rez = rng.choice(rezs)
    anyrez = rng.choice([None, rez, rez, 0.125, 4096.0])
    lyr = rng.choice(lyrs + ['vertical_uncertainty', 'nonsense'])
    cont = rng.choice(conts) if conts else 'none'
    e = (g.min_x, g.min_y, g.max_x, g.max_y)
    xs = np.array([rng.uniform(e[0] - 5, e[2] + 5) for _ in range(5)])
    ys = np.array([rng.uniform(e[1] - 5, e[3] + 5) for _ in range(5)])
    leaf = None
    ls = [t for _, _, t in W.leaf_iter(g)]
    if ls:
        leaf = rng.choice(ls)
    top = [t for t in g.tiles.flat if t] if g.tiles is not None else []
    zp = rng.random() < 0.5
    nod = np.float32(rng.choice([np.nan, -9999.0]))
    calls = [
        ('layer_names', lambda: g.layer_names), ('no_grid', lambda: g.no_grid), ('has', lambda: (g.has_tiles, g.has_vertical_uncertainty, g.has_horizontal_uncertainty)),
        ('cell_count', lambda: g.cell_count), ('density_count', lambda: g.density_count),
        ('density_psm', lambda: g.density_per_square_meter), ('dvd', lambda: g.density_count_vs_depth),
        ('dpsmvd', lambda: g.density_per_square_meter_vs_depth), ('area', lambda: (g.coverage_area_square_meters, g.coverage_area_square_nm)),
        ('changed', lambda: (g.point_count_changed, g.positive_up, g.points_count, g.is_empty, g.depth_key)),
        ('repr', lambda: repr(g)), ('attribution', lambda: g.return_attribution()),
        ('unique', lambda: (g.return_unique_containers(), g.unique_container_entries)),
        ('layers %s %s' % (lyr, anyrez), lambda: g.get_layers_by_name(lyr, anyrez, nod, zp)),
        ('layers all', lambda: g.get_layers_by_name(list(lyrs), rez, nod, zp)),
        ('container layer %s' % cont, lambda: g.get_layers_by_name(cont, rez)),
        ('trimmed', lambda: g.get_layers_trimmed(lyr, anyrez, nod, zp)),
        ('surf_xyz', lambda: g.return_surf_xyz(lyr, rez, rng.random() < 0.5)),
        ('values', lambda: g.layer_values_at_xy(xs, ys, lyr, anyrez)),
        ('value', lambda: g.layer_values_at_xy(float(xs[0]), float(ys[0]), lyrs[0], None)),
        ('tiles', lambda: list(g.get_tiles_by_resolution(rez, lyr, nod, zp))),
        ('chunks', lambda: list(g.get_chunks_of_tiles(rez, list(lyrs), nod, zp, cfg['tile']))),
        ('chunks half', lambda: next(g.get_chunks_of_tiles(rez, list(lyrs), nod, zp, cfg['tile']))),
        ('return_layer_values', lambda: g.return_layer_values(lyr)),
        ('boundaries', lambda: g.get_tile_boundaries()), ('extents', lambda: g.return_extents() and None),
        ('names', lambda: g.return_layer_names()), ('geotransform', lambda: g.get_geotransform(rez)),
        ('neighbors', lambda: [x is not None for x in g.get_tile_neighbors(rng.choice(top))] if top else None),
        ('lookup', lambda: g.resolution_by_density() if g.tiles is not None else None),
    ]
    bins = rng.choice([1, 5, 50])
    for n in ('density_histogram', 'density_per_square_meter_histogram', 'z_histogram', 'vertical_uncertainty_histogram',
              'total_uncertainty_histogram', 'horizontal_uncertainty_histogram', 'density_vs_depth', 'density_per_square_meter_vs_depth'):
        calls.append(('plot_' + n, lambda n=n: plotted(lambda: getattr(g, 'plot_' + n)(bins))))
    calls += [('plot', lambda: plotted(lambda: g.plot(lyr, rng.choice([None, rez])))),
              ('slopes', lambda: g.get_layers_by_name(rng.choice(['x_slope', 'y_slope', ['y_slope', 'depth']]), rez, nod))]
    if leaf is not None:
        calls += [('leaf slopes', lambda: leaf.get_layers_by_name(rng.choice(['x_slope', 'y_slope']), None, nod)),
                  ('leaf layers', lambda: leaf.get_layers_by_name(lyr, anyrez, nod, zp)),
                  ('leaf container', lambda: leaf.get_layers_by_name(rng.choice(sorted(leaf.container)), None)),
                  ('leaf counts', lambda: (leaf.cell_count, leaf.density_count, leaf.mean_depth, leaf.layer_names, leaf.resolutions)),
                  ('leaf resolution', lambda: leaf.resolution_by_density()),
                  ('leaf geotransform', lambda: leaf.get_geotransform(rez))]
    for fmt in ('csv', 'geotiff', 'bag', 'nonsense'):
        calls.append(('export ' + fmt, lambda fmt=fmt: export(g, fmt, os.path.join(outdir, 'o.' + fmt), zp, rng.choice([None, rez]), cfg['tile'])))
    if cfg['kind'] == 'sr':
        calls.append(('neighbor points', lambda: g.get_tile_neighbor_points(rng.choice(top), 2.0) if top else None))
    return calls


def plotted(f):
    plt.close('all')
    plt.figure()
    try:
        f()
    finally:
        plt.close('all')


def scribble(x, depth=0):
    """Writes into every array, list and dictionary that was handed out."""
    n = 0
    if isinstance(x, np.ndarray) and x.dtype != object:
        if x.flags.writeable and x.size:
            if x.dtype.names:
                for f in x.dtype.names:
                    x[f] = 77
            else:
                x[...] = -777
            n = 1
    elif isinstance(x, (list, tuple)) and depth < 4:
        for y in x:
            n += scribble(y, depth + 1)
        if isinstance(x, list):
            x.reverse()
            x.append('scribbled')
            n += 1
    elif isinstance(x, dict) and depth < 4:
        for y in list(x.values()):
            n += scribble(y, depth + 1)
        x['scribbled'] = 1
        n += 1
    return n
