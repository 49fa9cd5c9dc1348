"""A grid with an origin of its own is the same grid, elsewhere."""
import os

import numpy as np
from hypothesis import strategies as st

from bgv import gen, model, obs, raster, scene
from bgv.checks.c22 import build
from bgv.play import Player
from bgv.runner import check

EXAMPLES = {'quick': 700, 'thorough': 12000}
RULE = ('the same random history (additions, removals, griddings, updates, reloads, saved copies; all grid types and backends, tiles from 1/2 m) played on a grid at the usual origin and, '
        'moved by the origin, on a grid that was made with an origin of its own; after every operation everything the one holds, returns and exports must be that of the other, '
        'moved by the origin. Non-trivial: soundings in several tiles, a gridding, and a second addition or a removal.')
ASSUMPTIONS = ['origins on the raster of 1/16 m, so that every tile corner is a number the computer can represent (coordinates of the soundings are rounded to 2^-12 m for the same reason)',
               'no slope layers (least squares of coordinates of another size)']
FAR = [0, 500000.125, 5400000.25, -16777217.0, 8388608.5, 0.0625, 300000.1875, 9999999.9375]


@st.composite
def cases(draw, tier):
    disk = draw(st.integers(0, 4)) == 4
    cfg = gen.configs(draw, kinds=('sr',), storages=('numpy', 'zarr') if disk else ('mem', 'memz'), bs=True, tiles=(8, 4, 16, 2, 1, 0.5, 32), bases=[[0, 0], [-24.0, -40.0], [64.0, -64.0]], max_cells=32)
    if draw(st.booleans()):
        subs = [s for s in (8, 4, 2, 1, 0.5, 0.25, 16, 32) if cfg['res'] <= s <= cfg['tile'] and cfg['tile'] / s <= 4]
        cfg['kind'], cfg['sub'] = 'vr', draw(st.sampled_from(subs))
    origin = [draw(st.sampled_from(FAR)) + draw(st.sampled_from([0, 0, 1])) * draw(st.integers(-800, 800)) / 16.0 for _ in range(2)]
    leaf = cfg['sub']
    kw = {'span': 3.0, 'bulk': 100}
    ops = []
    for i in range(draw(st.integers(2, 6))):
        k = draw(st.sampled_from(['add', 'add', 'grid', 'rm', 'grid', 'reload', 'saveload'] if disk else ['add', 'add', 'grid', 'rm', 'grid'])) if i else 'add'
        if k == 'add':
            ops.append(gen.add_op(draw, cfg, 20, kw, True))
        elif k == 'rm':
            ops.append(['rm', draw(st.integers(0, 5))])
        elif k == 'grid':
            res = draw(st.sampled_from([cfg['res'], cfg['res'], min(2 * cfg['res'], leaf)] + ([None] if cfg['tile'] >= 2 else [])))
            ops.append(['grid', dict(gen.grid_op(draw, cfg), res=res)])
        else:
            ops.append([k])
    if not any(op[0] == 'grid' for op in ops):
        ops.append(['grid', {'res': cfg['res']}])
    n = draw(st.integers(1, 12))
    return {'cfg': cfg, 'origin': origin, 'ops': ops, 'q': list(draw(st.binary(min_size=2 * n, max_size=2 * n))), 'dim': draw(st.sampled_from([None, 0.5, 1, 1.5, 2, 3])),
            'out': draw(st.sampled_from([None, 'csv', 'geotiff', 'geotiff', 'bag']))}


def strategy(tier):
    return cases(tier)


def run_case(case, ctx):
    cfg, (ox, oy) = case['cfg'], case['origin']
    p, q = Player(cfg, ctx), Player(cfg, ctx)
    q.grid = build(cfg, q, [ox, oy])
    ctx.event('{} {}'.format(cfg['kind'], cfg['storage']))
    ctx.event('origin of large numbers' if max(abs(ox), abs(oy)) > 1e5 else 'origin near zero')
    gridded = removed = False
    tiles = 0
    for n, op in enumerate(case['ops']):
        what = 'origin {}, {} after operation {} ({})'.format(ox, oy, n, op[0])
        if op[0] == 'add':
            name = p.new_name(op[1])
            if name is None:
                continue
            a = model.decode(cfg, op[2])
            for f in ('x', 'y'):
                a[f] = np.floor(a[f] * 4096) / 4096
            b = a.copy()
            b['x'] += ox
            b['y'] += oy
            for one, data in ((p, a), (q, b)):
                one.grid.add_points(data.copy(), name, progress_bar=cfg['bar'], crs=one.epsg, vertical_reference=one.vref, **op[3])
                one.model.add(name, data, op[3].get('file_list'))
                one.adds += 1
        else:
            k = p.play(op)
            check(q.play(op) == k, '{}: done on one only', what)
            removed = removed or k == 'rm'
            gridded = gridded or k == 'grid'
        holds(p.grid, q.grid, ox, oy, what)
        if p.model.n:
            tiles = max(tiles, p.grid.number_of_tiles)
    if p.model.n and not p.grid.no_grid:
        returns(p, q, ox, oy, case, ctx)
        if case['out']:
            exports(p, q, ox, oy, case, ctx)
    ctx.nontrivial = (ox, oy) != (0, 0) and tiles > 1 and gridded and (p.adds > 1 or removed)


def moved_records(recs, ox, oy):
    return [(r[0] + ox, r[1] + oy) + tuple(r[2:]) for r in recs]


def holds(a, b, ox, oy, what):
    sa, sb = obs.snapshot(a), obs.snapshot(b)
    shifted = {(k[0] + ox, k[1] + oy): v for k, v in sa['tiles'].items()}
    check(shifted.keys() == sb['tiles'].keys(), '{}: tiles {}, expected {}', what, sorted(sb['tiles'])[:6], sorted(shifted)[:6])
    for k, t in shifted.items():
        u = sb['tiles'][k]
        check(t['size'] == u['size'] and t['changed'] == u['changed'] and t['backscatter'] == u['backscatter'], '{}: tile {} differs in size, changed or backscatter', what, k)
        check({nm: moved_records(r, ox, oy) for nm, r in t['order'].items()} == {nm: [tuple(x) for x in r] for nm, r in u['order'].items()}, '{}: tile {} holds other soundings', what, k)
        check(t['cells'].keys() == u['cells'].keys(), '{}: tile {} has the resolutions {}, expected {}', what, k, sorted(u['cells']), sorted(t['cells']))
        for r in t['cells']:
            check(t['cells'][r].keys() == u['cells'][r].keys(), '{}: tile {} has other layers', what, k)
            for lyr in t['cells'][r]:
                check(obs.same(t['cells'][r][lyr], u['cells'][r][lyr]), '{}: layer {} of tile {} at {} differs', what, lyr, k, r)
    low = {'min_x': ox, 'max_x': ox, 'min_y': oy, 'max_y': oy}
    for k, v in sa['meta'].items():
        if k in low:
            if sa['meta']['points_count']:
                check(v + low[k] == sb['meta'][k], '{}: {} is {}, expected {}', what, k, sb['meta'][k], v + low[k])
        elif k != 'container_timestamp':
            check(v == sb['meta'][k], '{}: {} is {}, expected {}', what, k, sb['meta'][k], v)
    if sa['meta']['points_count']:
        layout(b, what)


def layout(grid, what):
    for (r, c), t in np.ndenumerate(grid.tiles):
        if t is not None:
            check(t.min_x == grid.min_x + c * grid.tile_size and t.min_y == grid.min_y + r * grid.tile_size, '{}: tile {} is at row {}, column {} of a grid from {}, {}', what, t.name, r, c,
                  grid.min_x, grid.min_y)


def geo_moved(a, b, ox, oy, what):
    if a is None or b is None:
        check(a is None and b is None, '{}: {} and {}', what, a, b)
        return
    want = [float(a[0]) + ox, a[1], a[2], float(a[3]) + oy, a[4], a[5]]
    check([float(v) for v in b] == [float(v) for v in want], '{}: geotransform {}, expected {}', what, list(b), want)


def returns(p, q, ox, oy, case, ctx):
    a, b = p.grid, q.grid
    names = [n for n in a.layer_names if n in obs.LAYERS]
    what = 'origin {}, {}'.format(ox, oy)
    check(np.array_equal(np.array(a.return_extents()) + [ox, oy], np.array(b.return_extents())), '{}: extents {}', what, b.return_extents())
    for f in ('cell_count', 'density_count', 'density_per_square_meter', 'coverage_area_square_meters', 'mean_depth'):
        if hasattr(a, f):
            va, vb = getattr(a, f), getattr(b, f)
            check(obs.norm(va) == obs.norm(vb), '{}: {} is {}, expected {}', what, f, vb, va)
    xa, xb = a.get_tile_boundaries(), b.get_tile_boundaries()
    check(np.array_equal(np.asarray(xa[0], 'f8') + ox, np.asarray(xb[0], 'f8')) and np.array_equal(np.asarray(xa[1], 'f8') + oy, np.asarray(xb[1], 'f8')),
          '{}: outline from {}, {}, expected from {}, {}', what, xb[0][:3], xb[1][:3], xa[0][:3] + ox, xa[1][:3] + oy)
    dim = None if case['dim'] is None else case['dim'] * a.tile_size
    w, h = a.max_x - a.min_x, a.max_y - a.min_y
    step = a.tile_size / 64
    locs = [(a.min_x + int((i / 255 * 1.2 - 0.1) * w / step) * step, a.min_y + int((j / 255 * 1.2 - 0.1) * h / step) * step) for i, j in zip(case['q'][::2], case['q'][1::2])]
    xs, ys = np.array([v[0] for v in locs]), np.array([v[1] for v in locs])
    for res in scene.resolutions(a):
        at = '{} at {}'.format(what, res)
        for lyr in names:
            la, lb = a.get_layers_by_name(lyr, res), b.get_layers_by_name(lyr, res)
            check(len(la) == len(lb) and all(obs.same(m, n) for m, n in zip(la, lb)), '{}: layer {} differs', at, lyr)
        la, lb = a.get_layers_trimmed(names, res), b.get_layers_trimmed(names, res)
        check(all(obs.same(m, n) for m, n in zip(la[0], lb[0])) and obs.norm(la[1:]) == obs.norm(lb[1:]), '{}: trimmed layers differ', at)
        for edges in (True, False):
            la, lb = a.return_surf_xyz(p.zkey, res, edges), b.return_surf_xyz(p.zkey, res, edges)
            check(np.array_equal(la[0] + ox, lb[0]) and np.array_equal(la[1] + oy, lb[1]), '{}: surface at {}, {}, expected {}, {}', at, lb[0][:3], lb[1][:3], la[0][:3] + ox, la[1][:3] + oy)
            check(all(obs.same(m, n) for m, n in zip(la[2], lb[2])), '{}: surface differs', at)
        la, lb = list(a.get_tiles_by_resolution(res, names)), list(b.get_tiles_by_resolution(res, names))
        check(len(la) == len(lb), '{}: {} tiles, expected {}', at, len(lb), len(la))
        for m, n in zip(la, lb):
            geo_moved(m[0], n[0], ox, oy, at + ', tile')
            check(m[1:4] == n[1:4] and m[4].keys() == n[4].keys() and all(obs.same(m[4][k], n[4][k]) for k in m[4]), '{}: tiles differ', at)
        la, lb = [list(g.get_chunks_of_tiles(res, names, override_maximum_chunk_dimension=dim)) for g in (a, b)]
        check(len(la) == len(lb), '{}: {} chunks, expected {}', at, len(lb), len(la))
        for m, n in zip(la, lb):
            geo_moved(m[0], n[0], ox, oy, at + ', chunk')
            check(m[1] == n[1] and m[2].keys() == n[2].keys() and all(obs.same(m[2][k], n[2][k]) for k in m[2]), '{}: chunks differ', at)
        for lyr in names[:2]:
            va, vb = a.layer_values_at_xy(xs.copy(), ys.copy(), lyr, res), b.layer_values_at_xy(xs + ox, ys + oy, lyr, res)
            check(obs.same(va, vb), '{}: {} at the locations {} is {}, expected {}', at, lyr, list(zip((xs + ox).tolist(), (ys + oy).tolist())), vb, va)
    for (r, c), t in np.ndenumerate(a.tiles):
        if t is None:
            continue
        u = b.tiles[r, c]
        na, nb = a.get_tile_neighbors(t), b.get_tile_neighbors(u)
        check([None if n is None else (n.min_x + ox, n.min_y + oy) for n in na] == [None if n is None else (n.min_x, n.min_y) for n in nb], '{}: neighbours of {}', what, u.name)
        if c < 3 and r < 3:
            na, nb = a.get_tile_neighbor_points(t, a.tile_size / 4), b.get_tile_neighbor_points(u, a.tile_size / 4)
            check((na is None) == (nb is None) and (na is None or moved_records(na.tolist(), ox, oy) == [tuple(v) for v in nb.tolist()]), '{}: soundings near {} differ', what, u.name)
    if len(scene.resolutions(a)) > 1:
        ctx.event('several resolutions')
    ctx.event('returned')


def exports(p, q, ox, oy, case, ctx):
    fmt = case['out']
    what = 'origin {}, {}: {}'.format(ox, oy, fmt)
    one, two = ctx.newdir(make=True), ctx.newdir(make=True)
    kw = {}
    if fmt != 'csv' and case['dim'] is not None:
        kw['override_maximum_chunk_dimension'] = case['dim'] * p.grid.tile_size
    if fmt == 'bag' and (p.cfg['bs'] or abs(ox) > 1e6 or abs(oy) > 9e6):
        return      # depths only; and where the coordinate system is not defined there is no latitude to write
    ext = {'csv': '.csv', 'geotiff': '.tif', 'bag': '.bag'}[fmt]
    # the library writes a bag at exactly zero as one without a position
    p.grid.export(os.path.join(one, 'out' + ('.tif' if fmt == 'bag' else ext)), 'geotiff' if fmt == 'bag' else fmt, **kw)
    q.grid.export(os.path.join(two, 'out' + ext), fmt, **kw)
    names = sorted(f for f in os.listdir(two) if f.endswith(ext))
    want = sorted(f for f in os.listdir(one) if f.endswith('.tif' if fmt == 'bag' else ext))
    check([os.path.splitext(f)[0] for f in names] == [os.path.splitext(f)[0] for f in want], '{}: files {}, expected {}', what, names, want)
    for f, g in zip(want, names):
        if fmt == 'csv':
            table(os.path.join(one, f), os.path.join(two, g), ox, oy, what)
            continue
        geo, bands, arrays, ds = raster.read(os.path.join(one, f), what)
        geo2, bands2, arrays2, ds2 = raster.read(os.path.join(two, g), what)
        if fmt == 'bag' and (geo[0] + ox == 0 or geo[3] + oy + geo[5] * arrays[0].shape[0] == 0):
            continue
        tol = 0 if fmt == 'geotiff' else 1e-6
        check(all(abs(m - n) <= tol for m, n in zip([geo[0] + ox, geo[1], 0, geo[3] + oy, 0, geo[5]], geo2)), '{} {}: geotransform {}, without the origin it is {}', what, g, geo2, geo)
        if fmt == 'geotiff':
            check(bands == bands2, '{}: bands {}, expected {}', what, bands2, bands)
            check(all(obs.same(m, n) for m, n in zip(arrays, arrays2)), '{} {}: values differ', what, g)
        else:
            check(obs.same(arrays[0], arrays2[0]), '{} {}: elevations differ', what, g)
    ctx.event('exported ' + fmt)


def table(f, g, ox, oy, what):
    with open(f) as h:
        a = h.read().splitlines()
    with open(g) as h:
        b = h.read().splitlines()
    check(len(a) == len(b) and a[0] == b[0], '{}: {} rows, expected {}', what, len(b), len(a))
    for m, n in zip(a[1:], b[1:]):
        m, n = m.split(' '), n.split(' ')
        check(abs(float(m[0]) + ox - float(n[0])) < 0.0011 and abs(float(m[1]) + oy - float(n[1])) < 0.0011 and m[2:] == n[2:], '{}: row {}, expected {} at {}, {} moved', what, n, m[2:], m[0], m[1])
