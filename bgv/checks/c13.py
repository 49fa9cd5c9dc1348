"""Returned layers are georeferenced correctly and hold every cell of the surface."""
import numpy as np
from hypothesis import strategies as st

from bgv import obs, scene
from bgv.runner import check

EXAMPLES = {'quick': 700, 'thorough': 12000}
RULE = ('random gridded scenes (single and variable resolution, several resolutions, late additions, removals, reload); every retrieval method is asked for random '
        'lists of layers and no-data values and compared cell by cell with the contents of the tiles placed by their origin. Non-trivial: the surface has more '
        'than two cells.')
ASSUMPTIONS = ['the trimmed form is asked for a first layer that marks empty cells with not-a-number', 'numeric no-data values are asked for layers other than density']


@st.composite
def cases(draw, tier):
    case = scene.scenes(draw, nanu=True, bs=True, pending=True, big=40)
    case['pick'] = draw(st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True))
    case['nodata'] = draw(st.sampled_from([None, None, -9999.0, -9999.9, 1000000.0]))
    return case


def strategy(tier):
    return cases(tier)


def full_layer(grid, cells, res, fill, dtype='f8'):
    """the 2D array the definition asks for"""
    h, w = int((grid.max_y - grid.min_y) / res), int((grid.max_x - grid.min_x) / res)
    out = np.full((h, w), fill, dtype=dtype)
    ox, oy = int(grid.min_x / res), int(grid.min_y / res)
    for (ix, iy), v in cells.items():
        out[iy - oy, ix - ox] = v
    return out


def run_case(case, ctx):
    p = scene.build(case, ctx)
    if not p.model.n:
        return
    grid = p.grid
    surf = scene.surfaces(grid)
    scene.stats(ctx, surf)
    check(sorted(grid.return_layer_names()) == sorted(next(iter(surf.values()))), 'return_layer_names gives {}', grid.return_layer_names())
    check(grid.return_extents() == [[grid.min_x, grid.min_y], [grid.max_x, grid.max_y]], 'return_extents gives {}', grid.return_extents())
    for res, layers in surf.items():
        one_resolution(grid, res, layers, case, ctx, p.zkey)
    if len(surf) == 1 and len(grid.resolutions) == 1:
        a, b = grid.get_layers_by_name(p.zkey), grid.get_layers_by_name(p.zkey, next(iter(surf)))
        check(obs.same(a[0], b[0]), 'without a resolution another layer is returned')
        res = next(iter(surf))
        a, b = grid.get_layers_trimmed(p.zkey), grid.get_layers_trimmed(p.zkey, res)
        check(obs.same(a[0][0], b[0][0]) and a[1] == b[1] and a[2] == b[2], 'without a resolution another trimmed layer is returned')
        a, b = grid.return_surf_xyz(p.zkey), grid.return_surf_xyz(p.zkey, res)
        check(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) and obs.same(a[2][0], b[2][0]), 'without a resolution another surface is returned')
        a, b = list(grid.get_tiles_by_resolution(layer=p.zkey)), list(grid.get_tiles_by_resolution(res, p.zkey))
        check(len(a) == len(b) and all(x[:4] == y[:4] and x[4].keys() == y[4].keys() and all(obs.same(x[4][k], y[4][k]) for k in x[4]) for x, y in zip(a, b)),
              'without a resolution other tiles are returned')


def one_resolution(grid, res, layers, case, ctx, zkey):
    layers = {lyr: cells for lyr, cells in layers.items() if cells}     # there is nothing of a layer that has no value at all
    names = sorted(layers)
    single = {}
    for lyr in names:
        got = grid.get_layers_by_name(lyr, res)
        want = full_layer(grid, layers[lyr], res, 0 if lyr == 'density' else np.nan)
        check(isinstance(got, list) and len(got) == 1, 'layer {} at {}: {} returned', lyr, res, type(got))
        check(obs.same(got[0], want.astype(got[0].dtype)), 'layer {} at {}: the array is not the surface', lyr, res)
        check(got[0].shape == want.shape, 'layer {} at {}: shape {}', lyr, res, got[0].shape)
        single[lyr] = got[0]
    ask = [names[i % len(names)] for i in case['pick']]
    ask = list(dict.fromkeys(ask))
    multi = grid.get_layers_by_name(ask, res)
    check(len(multi) == len(ask), '{} layers for {}', len(multi), ask)
    for lyr, a in zip(ask, multi):
        check(obs.same(a, single[lyr]), 'layer {} requested with {} differs from the one requested alone', lyr, ask)
    if len(ask) > 1:
        ctx.event('several layers')
    if case['nodata'] is not None:
        for lyr in [x for x in ask if x != 'density']:
            a = grid.get_layers_by_name(lyr, res, nodatavalue=case['nodata'])[0]
            want = np.where(np.isnan(single[lyr]), np.float32(case['nodata']), single[lyr])
            check(obs.same(a, want.astype(a.dtype)), 'layer {} at {} with no-data {}', lyr, res, case['nodata'])
        ctx.event('numeric no-data')
    # trimmed, a layer with not-a-number first
    order = [zkey] + [x for x in ask if x != zkey]
    data, mins, maxs = grid.get_layers_trimmed(order, res)
    keys = list(layers[zkey])
    ox, oy = int(grid.min_x / res), int(grid.min_y / res)
    xs, ys = [k[0] - ox for k in keys], [k[1] - oy for k in keys]
    check([int(v) for v in mins] == [min(ys), min(xs)] and [int(v) for v in maxs] == [max(ys) + 1, max(xs) + 1],
          'trimmed at {}: indices {} {}, expected {} {}', res, mins, maxs, [min(ys), min(xs)], [max(ys) + 1, max(xs) + 1])
    for lyr, a in zip(order, data):
        check(obs.same(a, single[lyr][min(ys):max(ys) + 1, min(xs):max(xs) + 1]), 'trimmed layer {} at {} is not the part of the layer', lyr, res)
    for bounds in (True, False):
        x, y, data, mins, maxs = grid.return_surf_xyz(order, res, cell_boundaries=bounds)
        ix, iy = np.arange(min(xs), max(xs) + 1), np.arange(min(ys), max(ys) + 1)
        if bounds:
            wx, wy = grid.min_x + res * np.append(ix, ix[-1] + 1), grid.min_y + res * np.append(iy, iy[-1] + 1)
        else:
            wx, wy = grid.min_x + res * ix + res / 2, grid.min_y + res * iy + res / 2
        check(np.array_equal(x, wx) and np.array_equal(y, wy), 'return_surf_xyz at {} (boundaries {}): x {} y {}, expected {} {}', res, bounds, x[:3], y[:3], wx[:3], wy[:3])
        check([int(v) for v in mins] == [min(ys), min(xs)] and [int(v) for v in maxs] == [max(ys) + 1, max(xs) + 1], 'return_surf_xyz at {}: indices {} {}', res, mins, maxs)
        for lyr, a in zip(order, data):
            check(obs.same(a, single[lyr][min(ys):max(ys) + 1, min(xs):max(xs) + 1]), 'return_surf_xyz layer {} at {}', lyr, res)
    # tile by tile
    got = {lyr: {} for lyr in ask}
    for geo, data_col, data_row, count, data in grid.get_tiles_by_resolution(res, ask):
        check(count == grid.tile_size / res, 'tile of {} cells', count)
        if geo is None:
            check(not data, 'tile without the resolution returns data')
            continue
        check(geo[1] == res and geo[5] == -res and geo[2] == 0 and geo[4] == 0, 'geotransform {}', geo)
        x0, y0 = grid.min_x + data_row * res, grid.min_y + data_col * res
        check(float(geo[0]) == x0 and float(geo[3]) == y0 + grid.tile_size, 'geotransform {} of the tile at {}, {}', geo, x0, y0)
        for lyr, a in data.items():
            check(a.shape == (count, count), 'tile layer {} has the shape {}', lyr, a.shape)
            empty = (lambda v: v == 0) if lyr == 'density' else np.isnan
            part = obs.cells_of_array(a, x0, y0, res, empty)
            check(not set(part) & set(got[lyr]), 'cells returned by two tiles')
            got[lyr].update(part)
    for lyr in ask:
        check(got[lyr] == {k: v for k, v in layers[lyr].items()}, 'tile by tile retrieval of {} at {} differs from the surface', lyr, res)
    if len(grid.resolutions) > 1:
        ctx.event('more than one resolution')
