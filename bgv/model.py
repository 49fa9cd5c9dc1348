"""Reference model: soundings by source and the surface they must give, computed cell by cell from the definition."""
import math
from collections import OrderedDict

import numpy as np

UNIT = 0.125
DEPTH_TABLE = [(10, 0.25), (20, 0.5), (40, 1.0), (60, 2.0), (80, 4.0), (160, 8.0), (320, 16.0), (640, 32.0), (1280, 64.0),
               (2560, 128.0), (5120, 256.0), (10240, 512.0), (20480, 1024.0)]


def floor_to(v, size):
    return math.floor(v / size) * size


def just_below(edge):
    # the largest double below the edge, away from denormals
    return -1e-9 if edge == 0 else float(np.nextafter(edge, -np.inf))


def dtype_of(cfg):
    d = [('x', 'f8'), ('y', 'f8'), ('z', cfg['zdt'])]
    if 't' in cfg['fields']:
        d.append(('tvu', cfg.get('udt', 'f4')))
    if 'h' in cfg['fields']:
        d.append(('thu', cfg.get('udt', 'f4')))
    return np.dtype(d)


def zvalue(cfg, k):
    if cfg['zs'] == 'e':
        return k / 8.0
    return k * 0.0137 + 0.003


def decode(cfg, pts):
    """pts: list of [ux, uy, z, flags]  (units of 1/8 m)  ->  structured array of soundings

    flags: bits 0-1 x, bits 2-3 y (0 as is, 1 on a cell edge, 2 on a tile edge, 3 just below a tile edge), 16 same place as
    the point before, 32 off the 1/8 m raster
    cfg['udt'] is the type of the uncertainties, with cfg['nanu'] some have none (both optional)
    A block ["blk", seed, n, ux, uy, w, h, z0, zr] stands for n pseudo random soundings in that box.
    """
    bx, by = cfg['base']
    tile, res = cfg['sub'] if cfg['kind'] == 'vr' else cfg['tile'], cfg['res']
    rows = []
    px = py = None
    for i, p in enumerate(pts):
        if p[0] == 'blk':
            _, seed, n, ux, uy, w, h, z0, zr = p
            rs = np.random.RandomState(seed)
            xs = rs.randint(0, max(w, 1), n)
            ys = rs.randint(0, max(h, 1), n)
            zs = rs.randint(0, max(zr, 1), n)
            for a, b, c in zip(xs.tolist(), ys.tolist(), zs.tolist()):
                rows.append((bx + (ux + a) * UNIT, by + (uy + b) * UNIT, z0 + c, a, b, 0))
            continue
        ux, uy, z, f = p
        x, y = bx + ux * UNIT, by + uy * UNIT
        if f & 32:
            x += ((ux * 7919 + uy * 104729 + z * 31) % 997) / 997.0 * UNIT
            y += ((ux * 15485863 + uy * 32452843 + z * 17) % 991) / 991.0 * UNIT
        fx, fy = f & 3, (f >> 2) & 3
        if fx == 1:
            x = floor_to(x, res)
        elif fx == 2:
            x = floor_to(x, tile)
        elif fx == 3:
            x = just_below(floor_to(x, tile))
        if fy == 1:
            y = floor_to(y, res)
        elif fy == 2:
            y = floor_to(y, tile)
        elif fy == 3:
            y = just_below(floor_to(y, tile))
        if f & 16 and px is not None:
            x, y = px, py
        px, py = x, y
        rows.append((x, y, z, ux, uy, f))
    out = np.zeros(len(rows), dtype=dtype_of(cfg))
    for i, (x, y, z, ux, uy, f) in enumerate(rows):
        out['x'][i] = x
        out['y'][i] = y
        out['z'][i] = zvalue(cfg, z)
        if 't' in cfg['fields']:
            out['tvu'][i] = ((ux * 31 + uy * 17 + z * 7 + f + i) % 61) / 16.0
        if 'h' in cfg['fields']:
            out['thu'][i] = ((ux * 13 + uy * 29 + z * 5 + f + 3 * i) % 53) / 16.0
    for k in ('tvu', 'thu'):
        if k not in out.dtype.names:
            continue
        if out.dtype[k] == np.float64:
            out[k] += np.arange(out.size) % 7 / 1000.0     # not a number of single precision
        if cfg.get('nanu'):
            # soundings without an uncertainty: single ones, or all of this batch
            out[k][(np.arange(out.size) % 3 == 0) if len(rows) % 2 else slice(None)] = np.nan
    return out


class Model:
    """what the grid must hold"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.sources = OrderedDict()
        self.files = {}

    def add(self, name, arr, files=None):
        self.sources[name] = arr
        self.files[name] = files if files else ['Unknown']

    def remove(self, name):
        self.sources.pop(name)
        self.files.pop(name)

    def all(self):
        if not self.sources:
            return np.zeros(0, dtype=dtype_of(self.cfg))
        return np.concatenate(list(self.sources.values()))

    @property
    def n(self):
        return sum(a.size for a in self.sources.values())


def group_cells(arr, res):
    """{(ix, iy): [row numbers]} for the half open cells of this size"""
    cells = {}
    xs, ys = arr['x'].tolist(), arr['y'].tolist()
    for i in range(len(xs)):
        k = (math.floor(xs[i] / res), math.floor(ys[i] / res))
        cells.setdefault(k, []).append(i)
    return cells


class Cell:
    __slots__ = ('z', 'n', 'tvu', 'thu', 'pairs', 'zmax')


def surface(arr, res, alg):
    """{(ix, iy): Cell}: the surface of these soundings"""
    out = {}
    z = arr['z'].astype('f8').tolist()
    tvu = arr['tvu'].astype('f8').tolist() if 'tvu' in arr.dtype.names else None
    thu = arr['thu'].astype('f8').tolist() if 'thu' in arr.dtype.names else None
    for k, idx in group_cells(arr, res).items():
        c = Cell()
        c.n = len(idx)
        c.pairs = None
        c.tvu = c.thu = None
        c.zmax = max(abs(z[i]) for i in idx)
        if alg == 'mean':
            c.z = math.fsum(z[i] for i in idx) / c.n
            if tvu:
                c.tvu = math.fsum(tvu[i] for i in idx) / c.n
            if thu:
                c.thu = math.fsum(thu[i] for i in idx) / c.n
        else:
            c.z = min(z[i] for i in idx)
            c.pairs = {(tvu[i] if tvu else None, thu[i] if thu else None) for i in idx if z[i] == c.z}
        out[k] = c
    return out


def tolerance(value_scale, n=1, zdt='f8'):
    """largest difference that rounding to millimetres in single precision (and a single precision sum) explains"""
    eps = 1.2e-7
    tol = 0.000501 + 4 * eps * abs(value_scale)
    if zdt == 'f4':
        tol += 2 * eps * n * abs(value_scale)
    return tol


def band_resolution(mean, tile):
    """resolution by the depth table"""
    for limit, res in DEPTH_TABLE:
        if limit > mean:
            return float(min(tile, res))
    return None


def near_band(mean, tol):
    return any(abs(mean - limit) <= tol for limit, _ in DEPTH_TABLE)
