"""
Stand-in for the optional package bathycube (CUBE), which is not installed.  It has the same interface and is local in the
way CUBE is: a node takes the points close to it, wherever they come from, and nothing else matters.  What it computes is so
simple that every point that is missing, given twice, moved or given the wrong uncertainty shows in the layers.
"""
import sys
import types

import numpy as np

METHODS = ['local', 'prior', 'posterior', 'predict']
ORDERS = ['exclusive', 'special', 'order1a', 'order1b', 'order2']
VARIANCES = ['cube', 'input', 'max']


def reach(width, rez):
    """Distance (in x and in y) up to which points count for a node.  Reaches over the border of a tile by at most a tenth
    of the tile and less than three cells, which is what neighbouring tiles are asked for."""
    return min(1.75 * rez, 0.5 * rez + 0.1 * width)


def surface(z, thu, tvu, x, y, ncols, nrows, west, north, method, order, rx, ry, variance):
    out = [np.full((nrows, ncols), np.nan) for _ in range(3)] + [np.zeros((nrows, ncols))]
    d = reach(ncols * rx, rx)
    fm, fo, fv = 1.0 + METHODS.index(method) / 8.0, 1.0 + ORDERS.index(order) / 16.0, 1.0 + VARIANCES.index(variance) / 4.0
    for r in range(nrows):
        cy = north - (r + 0.5) * ry
        inrow = np.abs(y - cy) <= d
        if not inrow.any():
            continue
        for c in range(ncols):
            cx = west + (c + 0.5) * rx
            i = inrow & (np.abs(x - cx) <= d)
            n = int(i.sum())
            if n:
                out[0][r, c] = z[i].astype(float).mean() + fm + fo + fv
                out[1][r, c] = tvu[i].astype(float).mean() * fo * fv
                out[2][r, c] = thu[i].astype(float).mean() * fm
                out[3][r, c] = n
    return out


def run_cube_gridding(z, thu, tvu, x, y, numcols, numrows, min_easting, max_northing, method, iho_order, grid_resolution_x,
                      grid_resolution_y, variance_selection='cube', **kwargs):
    arrs = [z, thu, tvu, x, y]
    for a in arrs:
        if not isinstance(a, np.ndarray) or a.ndim != 1 or a.size != arrs[0].size:
            raise ValueError('run_cube_gridding: the point arrays do not belong together: %s' % [getattr(b, 'shape', type(b)) for b in arrs])
    if method not in METHODS or iho_order not in ORDERS or variance_selection not in VARIANCES or kwargs:
        raise ValueError('run_cube_gridding: unknown setting %s %s %s %s' % (method, iho_order, variance_selection, kwargs))
    return tuple(surface(z, thu, tvu, x, y, int(numcols), int(numrows), float(min_easting), float(max_northing), method, iho_order,
                         float(grid_resolution_x), float(grid_resolution_y), variance_selection))


def install():
    pkg, mod = types.ModuleType('bathycube'), types.ModuleType('bathycube.numba_cube')
    mod.run_cube_gridding = run_cube_gridding
    pkg.numba_cube = mod
    pkg.__path__ = []
    sys.modules['bathycube'], sys.modules['bathycube.numba_cube'] = pkg, mod
