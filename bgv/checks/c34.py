"""CUBE surfaces are returned, looked up, counted and exported like every other surface."""
import math
import os

import numpy as np
from hypothesis import strategies as st

from bgv import obs, raster, scene
from bgv.checks import c33
from bgv.checks.c17 import BASES, HEIGHTS
from bgv.runner import check

EXAMPLES = {'quick': 420, 'thorough': 8000}
RULE = ('random gridded scenes of CUBE surfaces (single and variable resolution, several resolutions, late additions, removals, in memory and on disk, reloaded; the CUBE library is '
        'replaced by the stand-in of C33); all five layers are asked for through every retrieval path, lookups, statistics and one of the exports, and compared with the contents '
        'of the tiles placed by their origin. Non-trivial: more than two cells with a depth.')
ASSUMPTIONS = ['the CUBE library itself is replaced by a stand-in with the same call', 'soundings have both uncertainties', 'numeric no-data values are asked for layers of decimals']
LAYERS = c33.LAYERS
ZERO = ('density', 'hypothesis_count')
VALUES = [x for x in LAYERS if x not in ZERO]


@st.composite
def cases(draw, tier):
    case = scene.scenes(draw, fields=('th',), algs=('cube',), tiles=(4, 8, 16, 32), max_cells=16, bases=BASES, auto=False, storages=('mem', 'memz'), max_points=30)
    if case['second'] is not None and case['cfg']['tile'] / case['second'] > 16:
        case['second'] = case['cfg']['sub']
        if case['second'] == case['cfg']['res']:
            case['second'] = None
    case['par'] = draw(st.sampled_from([None, {'method': 'posterior'}, {'method': 'local', 'iho_order': 'special', 'variance_selection': 'max'}]))
    case['pick'] = draw(st.lists(st.integers(0, 4), min_size=1, max_size=4, unique=True))
    case['nodata'] = draw(st.sampled_from([None, None, -9999.0, -9999.9, 1000000.0]))
    case['dim'] = draw(st.sampled_from([None, None, 0.5, 1, 1.5, 2, 3]))
    case['heights'] = draw(st.integers(0, 2)) == 2
    case['fmt'] = draw(st.sampled_from(['csv', 'geotiff', 'bag']))
    case['up'] = draw(st.sampled_from([None, True, False]))
    case['only'] = draw(st.sampled_from([None, None, 0, 1]))
    n = draw(st.integers(1, 12))
    raw = draw(st.binary(min_size=4 * n, max_size=4 * n))
    case['q'] = [list(raw[i:i + 4]) for i in range(0, len(raw), 4)]
    return case


def strategy(tier):
    return cases(tier)


def empty(lyr):
    return (lambda v: v == 0) if lyr in ZERO else np.isnan


def truth(grid):
    """{resolution: {layer: {(ix, iy): value}}} from the tiles"""
    out = {}
    for t in obs.leaves(grid):
        for res, layers in t.cells.items():
            check(set(layers) == set(LAYERS), 'tile {} at {} has the layers {}', t.name, res, sorted(layers))
            n = int(round((t.max_x - t.min_x) / res))
            for lyr in LAYERS:
                a = obs.arr(layers[lyr])
                check(a.shape == (n, n), 'tile {}: layer {} at {} has the shape {}, expected {}', t.name, lyr, res, a.shape, (n, n))
                out.setdefault(float(res), {x: {} for x in LAYERS})[lyr].update(obs.cells_of_array(a, t.min_x, t.min_y, res, empty(lyr)))
    return out


def run_case(case, ctx):
    p = scene.build(case, ctx, vref=HEIGHTS if case['heights'] else 'waterline')
    if not p.model.n:
        return
    grid = p.grid
    if case['par']:
        p.regrid(res=grid.resolutions[-1], grid_parameters=case['par'])
        ctx.event('parameters')
    surf = truth(grid)
    sign = -1 if case['heights'] else 1     # what is returned by default is depths, positive down
    for layers in surf.values():
        layers['depth'] = {k: v if not case['heights'] else sign * v for k, v in layers['depth'].items()}
    n = sum(len(s['depth']) for s in surf.values())
    ctx.nontrivial = n > 2
    ctx.event('heights' if case['heights'] else 'depths')
    check(sorted(grid.return_layer_names()) == sorted(LAYERS), 'return_layer_names gives {}', grid.return_layer_names())
    check(sorted(grid.layer_names) == sorted(LAYERS), 'layer_names gives {}', grid.layer_names)
    for res, layers in surf.items():
        if layers['depth']:
            retrieval(case, grid, res, layers)
    lookups(case, grid, surf)
    statistics(grid, surf, sign)
    if all(s['depth'] for s in surf.values()):
        ctx.event('export ' + case['fmt'])
        exports(case, ctx, grid, surf, p.cfg)


def cells(a, x0, y0, res, lyr, nodata, what):
    if nodata is not None and lyr not in ZERO:
        check(not np.isnan(a).any(), '{}: not-a-number in {} with a no-data value', what, lyr)
        return obs.cells_of_array(a, x0, y0, res, lambda v: v == np.float32(nodata))
    return obs.cells_of_array(a, x0, y0, res, empty(lyr))


def same(got, want, what, *args):
    if got != want:
        missing = sorted(set(want) - set(got))[:3]
        extra = sorted(set(got) - set(want))[:3]
        other = [(k, got[k], want[k]) for k in want if k in got and got[k] != want[k]][:3]
        check(False, what + ' is not the surface; missing {}, extra {}, other values {}', *args, missing, extra, other)


def retrieval(case, grid, res, layers):
    ask = [LAYERS[i] for i in case['pick']]
    h, w = int((grid.max_y - grid.min_y) / res), int((grid.max_x - grid.min_x) / res)
    for lyr in LAYERS:
        a = grid.get_layers_by_name(lyr, res)
        check(len(a) == 1 and a[0].shape == (h, w), 'layer {} at {}: shape {}, expected {}', lyr, res, a[0].shape, (h, w))
        same(cells(a[0], grid.min_x, grid.min_y, res, lyr, None, lyr), layers[lyr], 'layer {} at {}', lyr, res)
    for lyr, a in zip(ask, grid.get_layers_by_name(ask, res)):
        same(cells(a, grid.min_x, grid.min_y, res, lyr, None, lyr), layers[lyr], 'layer {} requested with {} at {}', lyr, ask, res)
    nodata = case['nodata']
    kw = {} if nodata is None else {'nodatavalue': nodata}
    part = [x for x in ask if x not in ZERO] or ['depth'] if nodata is not None else ask
    for lyr, a in zip(part, grid.get_layers_by_name(part, res, **kw)):
        same(cells(a, grid.min_x, grid.min_y, res, lyr, nodata, lyr), layers[lyr], 'layer {} with no-data {} at {}', lyr, nodata, res)
    # trimmed to the first layer
    first = ['depth'] + [x for x in ask if x != 'depth']
    keys = layers['depth']
    ox, oy = int(grid.min_x / res), int(grid.min_y / res)
    xs, ys = [k[0] - ox for k in keys], [k[1] - oy for k in keys]
    lo, hi = [min(ys), min(xs)], [max(ys) + 1, max(xs) + 1]

    def window(lyr):
        return {k: v for k, v in layers[lyr].items() if lo[1] <= k[0] - ox < hi[1] and lo[0] <= k[1] - oy < hi[0]}
    data, mins, maxs = grid.get_layers_trimmed(first, res)
    check([int(v) for v in mins] == lo and [int(v) for v in maxs] == hi, 'trimmed at {}: indices {} {}, expected {} {}', res, mins, maxs, lo, hi)
    for lyr, a in zip(first, data):
        check(a.shape == (hi[0] - lo[0], hi[1] - lo[1]), 'trimmed layer {} at {} has the shape {}', lyr, res, a.shape)
        same(cells(a, grid.min_x + lo[1] * res, grid.min_y + lo[0] * res, res, lyr, None, lyr), window(lyr), 'trimmed layer {} at {}', lyr, res)
    for bounds in (True, False):
        x, y, data, mins, maxs = grid.return_surf_xyz(first, res, cell_boundaries=bounds)
        ix, iy = np.arange(lo[1], hi[1] + bounds), np.arange(lo[0], hi[0] + bounds)
        half = 0 if bounds else res / 2
        check(np.array_equal(x, grid.min_x + res * ix + half) and np.array_equal(y, grid.min_y + res * iy + half), 'return_surf_xyz at {} (boundaries {}): x {} y {}', res, bounds, x[:3], y[:3])
        for lyr, a in zip(first, data):
            same(cells(a, grid.min_x + lo[1] * res, grid.min_y + lo[0] * res, res, lyr, None, lyr), window(lyr), 'return_surf_xyz layer {} at {}', lyr, res)
    for up in (False, True):
        ukw = dict(kw, z_positive_up=True) if up else kw
        want = {lyr: {k: -v for k, v in layers[lyr].items()} if up and lyr == 'depth' else layers[lyr] for lyr in part}
        what = 'at {}{}'.format(res, ' positive up' if up else '')
        got = {lyr: {} for lyr in part}
        for geo, col, row, count, data in grid.get_tiles_by_resolution(res, part, **ukw):
            if geo is None:
                continue
            for lyr, a in data.items():
                check(a.shape == (count, count), 'tile layer {} has the shape {}', lyr, a.shape)
                raster.merge(got[lyr], cells(a, float(geo[0]), float(geo[3]) - count * res, res, lyr, nodata, lyr), 'tiles')
        for lyr in part:
            same(got[lyr], want[lyr], 'tile by tile retrieval of {} {}', lyr, what)
        dim = None if case['dim'] is None else case['dim'] * grid.tile_size
        for gdal in (True, False):
            got = {lyr: {} for lyr in part}
            for geo, maxdim, data in grid.get_chunks_of_tiles(res, part, override_maximum_chunk_dimension=dim, for_gdal=gdal, **ukw):
                check(list(data) == part, 'chunk has the layers {}, asked for {}', list(data), part)
                for lyr, a in data.items():
                    if gdal:
                        a = np.fliplr(a).T
                    limit = max(dim if dim is not None else 32768.0, grid.tile_size)
                    check(max(a.shape) * res == maxdim and maxdim <= limit, 'chunk of {} cells at {}, reported {} m', a.shape, res, maxdim)
                    raster.merge(got[lyr], cells(a, float(geo[0]), float(geo[3]) - a.shape[0] * res, res, lyr, nodata, lyr), 'chunks')
            for lyr in part:
                same(got[lyr], want[lyr], 'chunks of {} {}', lyr, what)


def lookups(case, grid, surf):
    loc = []
    all_res = sorted(surf)
    for a, b, c, d in case['q']:
        r = all_res[a % len(all_res)]
        keys = sorted(surf[r]['depth'])
        if a & 64 or not keys:
            x, y = grid.min_x + (b / 255 * 1.3 - 0.15) * (grid.max_x - grid.min_x), grid.min_y + (c / 255 * 1.3 - 0.15) * (grid.max_y - grid.min_y)
        else:
            k = keys[(b * 256 + c) % len(keys)]
            x, y = (k[0] + (d & 7) / 8) * r, (k[1] + ((d >> 3) & 7) / 8) * r
        loc.append((float(x), float(y)))
    xs, ys = np.array([q[0] for q in loc]), np.array([q[1] for q in loc])
    kw = {} if case['nodata'] is None else {'nodatavalue': case['nodata']}
    for lyr in LAYERS:
        # the no-data value of the layers of whole numbers is a whole number
        none = np.float32(np.nan if case['nodata'] is None else int(case['nodata']) if lyr in ZERO else case['nodata'])
        for res in [None] + all_res:
            order = sorted(grid.resolutions) if res is None else [res]
            if not all(surf[r]['depth'] for r in order):
                continue
            # the lookup covers the part of the surface that has depths (where this layer is asked for alone: the layer's part)
            want = []
            for x, y in loc:
                v = None
                for r in order:
                    v = surf[r][lyr].get((math.floor(x / r), math.floor(y / r)))
                    if v is not None:
                        break
                want.append(none if v is None else np.float32(v))
            got = grid.layer_values_at_xy(xs.copy(), ys.copy(), lyr, res, **kw)
            check(np.shape(got) == xs.shape, 'values have the shape {}, locations {}', np.shape(got), xs.shape)
            for q, g, v in zip(loc, np.asarray(got).tolist(), want):
                check((np.isnan(v) and np.isnan(g)) or g == v, 'layer {} resolution {} at {}, {}: {}, the cell holds {}', lyr, res, q[0], q[1], g, v)
            one = grid.layer_values_at_xy(loc[0][0], loc[0][1], lyr, res, **kw)
            check(np.size(one) == 1 and obs.same(np.float32(one), want[0]), 'layer {} resolution {}: single location {} gives {}, expected {}', lyr, res, loc[0], one, want[0])


def statistics(grid, surf, sign):
    for lyr in LAYERS:
        got = sorted(np.asarray(grid.return_layer_values(lyr), dtype='f8').tolist())
        want = sorted((sign if lyr == 'depth' else 1) * v for s in surf.values() for v in s[lyr].values())
        if lyr in ZERO:
            got = [v for v in got if v]
        check(got == want, 'return_layer_values({}) gives {} values, the surface has {}', lyr, len(got), len(want))
    got = {float(k): int(v) for k, v in grid.cell_count.items() if v}
    want = {res: len(s['depth']) for res, s in surf.items() if s['depth']}
    check(got == want, 'cell_count is {}, expected {}', got, want)
    got = sorted(int(v) for v in grid.density_count)
    want = sorted(int(v) for s in surf.values() for v in s['density'].values())
    check(got == want, 'density_count gives {} values, expected {}', len(got), len(want))


def exports(case, ctx, grid, surf, cfg):
    out = ctx.newdir(make=True)
    fmt = case['fmt']
    kw = {}
    wanted = [float(r) for r in grid.resolutions]
    if case['only'] is not None:
        wanted = [sorted(surf)[case['only'] % len(surf)]]
        kw['resolution'] = wanted[0]
    if case['up'] is not None and fmt != 'bag':
        kw['z_positive_up'] = case['up']
    if case['dim'] is not None and fmt != 'csv':
        kw['override_maximum_chunk_dimension'] = case['dim'] * cfg['tile']
    up = case['up'] is not False or fmt == 'bag'
    ext = {'csv': '.csv', 'geotiff': '.tif', 'bag': '.bag'}[fmt]
    grid.export(os.path.join(out, 'out' + ext), fmt, **kw)
    if fmt == 'csv':
        names = sorted(os.listdir(out))
        check(names == sorted('out_{}.csv'.format(r) for r in wanted), 'files {} for resolutions {}', names, wanted)
        for res in wanted:
            table(os.path.join(out, 'out_{}.csv'.format(res)), surf[res], res, up)
        return
    if fmt == 'geotiff':
        bands = ['Elevation' if up else 'Depth', 'Total Uncertainty']
    else:
        bands = ['elevation', 'uncertainty']
    got = {}
    for f in raster.files(out, ext):
        geo, names, arrays, ds = raster.read(os.path.join(out, f), f)
        if fmt == 'bag':
            names = [n.lower() for n in names]
        check(names == bands, '{}: bands {}, expected {}', f, names, bands)
        check(raster.same_crs(ds, 26910), '{}: coordinate system {}', f, ds.GetProjection()[:100])
        raster.limits(geo, arrays[0], kw.get('override_maximum_chunk_dimension'), cfg['tile'], f)
        for band, a in zip(bands, arrays):
            raster.merge(got.setdefault(float(geo[1]), {}).setdefault(band, {}), raster.cells(geo, a, f), f)
        ds = None
    check(sorted(got) == sorted(wanted), 'files for resolutions {}, expected {}', sorted(got), sorted(wanted))
    for res in wanted:
        depth = {k: -v if up else v for k, v in surf[res]['depth'].items()}
        raster.compare(got[res][bands[0]], depth, '{} at {}'.format(bands[0], res))
        raster.compare(got[res][bands[1]], surf[res]['total_uncertainty'], '{} at {}'.format(bands[1], res))


def table(path, layers, res, up):
    f = os.path.basename(path)
    with open(path) as h:
        lines = h.read().splitlines()
    head = lines[0].split(' ')
    names = {('elevation' if lyr == 'depth' and up else lyr): lyr for lyr in LAYERS}
    check(head[:2] == ['x', 'y'] and sorted(head[2:]) == sorted(names), '{}: columns {}', f, head)
    seen = {}
    for line in lines[1:]:
        v = line.split(' ')
        check(len(v) == len(head), '{}: row {}', f, line)
        x, y = float(v[0]), float(v[1])
        k = (math.floor(x / res), math.floor(y / res))
        check(abs((k[0] + 0.5) * res - x) < 0.00051 and abs((k[1] + 0.5) * res - y) < 0.00051, '{}: {}, {} is not the centre of a cell of {}', f, v[0], v[1], res)
        check(k not in seen, '{}: two rows for the cell at {}, {}', f, v[0], v[1])
        seen[k] = dict(zip(head[2:], v[2:]))
    missing = set(layers['depth']) - set(seen)
    check(not missing, '{}: no rows for the cells {}', f, sorted(missing)[:3])
    for k, row in seen.items():
        for name, text in row.items():
            want = layers[names[name]].get(k)
            got = float(text)
            if want is None:
                check(math.isnan(got) or (names[name] in ZERO and got == 0), '{}: {} of the cell {} is {}, it has none', f, name, k, text)
                continue
            if name == 'elevation':
                want = -want
            check(abs(got - want) <= 0.00051, '{}: {} of the cell {} is {}, it is {}', f, name, k, text, want)
