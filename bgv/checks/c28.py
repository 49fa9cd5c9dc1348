"""Sign of depths: positive up asked for or not, on grids of depths and of heights, through every retrieval path."""
import os

import numpy as np
from hypothesis import strategies as st

from bgv import obs, raster, scene
from bgv.runner import check

EXAMPLES = {'quick': 500, 'thorough': 9000}
RULE = ('random gridded scenes with depths (or heights) of either sign, half of them with a vertical reference of heights; layers, trimmed layers, surfaces, tiles, chunks, '
        'lookups and exports (BAG: C17) are asked for with and without positive up and compared with the stored surface times the sign that the convention gives. Non-trivial: the '
        'surface has more than two cells and a non-zero value.')
ASSUMPTIONS = ['a vertical reference is heights when its axis is written as height (h), up']
WKT = 'VERTCRS["{}",VDATUM["{}"],CS[vertical,1],AXIS["{}",{},LENGTHUNIT["metre",1]]]'
DEPTHS = ['waterline', 'ellipse', WKT.format('MLLW depth', 'MLLW', 'depth (D)', 'down'), 'height']
HEIGHTS = [WKT.format('WGS84 height', 'WGS84', 'ellipsoidal height (h)', 'up'), WKT.format('some height', 'local', 'height (h)', 'up'), 'height (h)",up']


@st.composite
def cases(draw, tier):
    case = scene.scenes(draw, nanu=True, bs=False)
    if draw(st.integers(0, 9)) == 9:
        case['cfg']['bs'] = True
    case['heights'] = draw(st.booleans())
    case['vref'] = draw(st.integers(0, 3))
    case['nodata'] = draw(st.sampled_from([None, None, -9999.0, -9999.9, 1000000.0]))
    case['dim'] = draw(st.sampled_from([None, 0.5, 1, 2, 3]))
    case['q'] = [[draw(st.integers(0, 255)), draw(st.integers(0, 255))] for _ in range(5)]
    case['fmt'] = draw(st.sampled_from(['csv', 'geotiff']))
    return case


def strategy(tier):
    return cases(tier)


def run_case(case, ctx):
    vref = (HEIGHTS[case['vref'] % len(HEIGHTS)] if case['heights'] else DEPTHS[case['vref'] % len(DEPTHS)])
    p = scene.build(case, ctx, vref=vref)
    if not p.model.n:
        return
    grid = p.grid
    check(bool(grid.positive_up) == case['heights'], 'positive_up is {} for {}', grid.positive_up, vref)
    surf = scene.surfaces(grid)
    n = scene.stats(ctx, surf)
    ctx.event('heights' if case['heights'] else 'depths')
    zkey = p.zkey
    values = [v for s in surf.values() for v in s[zkey].values()]
    ctx.nontrivial = n > 2 and any(values)
    if any(v < 0 for v in values) and any(v > 0 for v in values):
        ctx.event('values of both signs')
    if case['cfg']['bs']:
        ctx.event('backscatter')
    # by path: default request gives depths, positive up gives heights
    want = {}
    for res, layers in surf.items():
        for up in (False, True):
            sgn = 1 if case['cfg']['bs'] or up == case['heights'] else -1
            want[(res, up)] = {lyr: ({k: sgn * v for k, v in cells.items()} if lyr == zkey else cells) for lyr, cells in layers.items()}
    for (res, up), layers in want.items():
        paths(case, grid, res, up, layers, zkey)
    single(case, grid, surf, want, zkey)
    exported(case, ctx, grid, surf, want, zkey, p.cfg)


def as_cells(grid, a, x0, y0, res, lyr, nodata, what):
    if nodata is not None and lyr != 'density':
        check(not np.isnan(a).any(), '{}: not-a-number in {} with a no-data value', what, lyr)
        empty = lambda v: v == np.float32(nodata)
    else:
        empty = (lambda v: v == 0) if lyr == 'density' else np.isnan
    return obs.cells_of_array(a, x0, y0, res, empty)


def paths(case, grid, res, up, layers, zkey):
    names = [zkey] + sorted(x for x in layers if x != zkey)
    what = 'at {}{}'.format(res, ' positive up' if up else '')
    kw = {'z_positive_up': True} if up else {}
    for nodata in dict.fromkeys([None, case['nodata']]):
        ask = names if nodata is None else [x for x in names if x != 'density']
        nkw = dict(kw) if nodata is None else dict(kw, nodatavalue=nodata)
        got = grid.get_layers_by_name(ask, res, **nkw)
        for lyr, a in zip(ask, got):
            check(as_cells(grid, a, grid.min_x, grid.min_y, res, lyr, nodata, what) == layers[lyr], 'layer {} {} (no-data {})', lyr, what, nodata)
        dim = None if case['dim'] is None else case['dim'] * grid.tile_size
        for source in ('tiles', 'chunks'):
            merged = {lyr: {} for lyr in ask}
            if source == 'tiles':
                items = []
                for geo, col, row, count, data in grid.get_tiles_by_resolution(res, ask, **nkw):
                    if geo is not None:
                        items.append((geo, data))
            else:
                items = [(geo, data) for geo, _, data in grid.get_chunks_of_tiles(res, ask, override_maximum_chunk_dimension=dim, for_gdal=False, **nkw)]
            for geo, data in items:
                for lyr, a in data.items():
                    merged[lyr].update(as_cells(grid, a, float(geo[0]), float(geo[3]) - a.shape[0] * res, res, lyr, nodata, what))
            for lyr in ask:
                check(merged[lyr] == layers[lyr], '{} {} {} (no-data {})', source, lyr, what, nodata)
    data, mins, maxs = grid.get_layers_trimmed(names, res, **kw)
    for lyr, a in zip(names, data):
        check(as_cells(grid, a, grid.min_x + float(mins[1]) * res, grid.min_y + float(mins[0]) * res, res, lyr, None, what) == layers[lyr], 'trimmed {} {}', lyr, what)
    for r in range(grid.tiles.shape[0]):
        for c in range(grid.tiles.shape[1]):
            if grid.tiles[r, c] is None:
                continue
            tile, data, geo, col, row, count = grid.get_tile_data(r, c, res, names, **kw)
            x0, y0 = grid.min_x + c * grid.tile_size, grid.min_y + r * grid.tile_size
            for lyr, a in data.items():
                part = as_cells(grid, a, x0, y0, res, lyr, None, what)
                check(all(layers[lyr].get(k) == v for k, v in part.items()), 'get_tile_data {} {} of the tile at {}, {}', lyr, what, x0, y0)


def single(case, grid, surf, want, zkey):
    """paths without a choice of the sign return what is returned by default"""
    for res in surf:
        layers = want[(res, False)]
        x, y, data, mins, maxs = grid.return_surf_xyz(zkey, res)
        check(obs.cells_of_array(data[0], float(x[0]), float(y[0]), res, np.isnan) == layers[zkey], 'return_surf_xyz at {}', res)
        keys = sorted(layers[zkey])
        for a, b in case['q']:
            k = keys[(a * 256 + b) % len(keys)]
            got = grid.layer_values_at_xy((k[0] + 0.5) * res, (k[1] + 0.5) * res, zkey, res)
            check(float(got) == layers[zkey][k], 'lookup of {} at {}: {}, the surface is {}', k, res, got, layers[zkey][k])


def exported(case, ctx, grid, surf, want, zkey, cfg):
    fmt = case['fmt']
    ctx.event('export ' + fmt)
    for up in (True, False):
        out = ctx.newdir(make=True)
        grid.export(os.path.join(out, 'e.x'), fmt, z_positive_up=up)
        for res in grid.resolutions:
            target = want[(res, up)][zkey]
            if fmt == 'csv':
                with open(os.path.join(out, 'e_{}.csv'.format(res))) as h:
                    lines = h.read().splitlines()
                name = zkey if cfg['bs'] else ('elevation' if up else 'depth')
                head = lines[0].split(' ')
                check(name in head, 'columns of the CSV {} are {}', 'positive up' if up else '', head)
                i = head.index(name)
                got = {}
                for line in lines[1:]:
                    v = line.split(' ')
                    if v[i] != 'nan':
                        got[(int(np.floor(float(v[0]) / res)), int(np.floor(float(v[1]) / res)))] = float(v[i])
                check(got.keys() == target.keys(), 'cells of the CSV at {} differ', res)
                bad = [(k, got[k], target[k]) for k in got if abs(got[k] - target[k]) > 0.00051]
                check(not bad, 'CSV at {}{}: {}', res, ' positive up' if up else '', bad[:3])
            else:
                total = {}
                for f in raster.files(out, '.tif'):
                    geo, names, arrays, ds = raster.read(os.path.join(out, f), f)
                    if geo[1] == res:
                        check(names[0] == ('Intensity' if cfg['bs'] else ('Elevation' if up else 'Depth')), 'first band of {} is {}', f, names)
                        raster.merge(total, raster.cells(geo, arrays[0], f), f)
                    ds = None
                raster.compare(total, target, 'GeoTIFF at {}{}'.format(res, ' positive up' if up else ''))
