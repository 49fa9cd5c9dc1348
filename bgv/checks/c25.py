"""A backscatter grid is a depth grid whose depth layer is called intensity."""
import os

import numpy as np
from hypothesis import strategies as st

from bgv import obs, raster, scene
from bgv.runner import check, Violation

EXAMPLES = {'quick': 280, 'thorough': 6000}
RULE = ('random scenes are played on a depth grid and on a backscatter grid side by side (single and variable resolution, memory, disk, reload, late additions, removals); '
        'contents, layers, trimmed layers, tiles, chunks, lookups, statistics, source layers and exports of both are compared with intensity in place of depth; then BAG export is asked for. '
        'Non-trivial: the surface has more than two cells.')
ASSUMPTIONS = ['statistics over depth bins are not asked of a backscatter grid']
SKIP = ('name', 'container_timestamp', 'is_backscatter', 'layer_names')


@st.composite
def cases(draw, tier):
    case = scene.scenes(draw, disk_share=4)
    case['q'] = [[draw(st.integers(0, 255)), draw(st.integers(0, 255))] for _ in range(6)]
    case['dim'] = draw(st.sampled_from([None, 0.5, 1, 1.5, 2, 3]))
    case['vref'] = draw(st.sampled_from(['waterline', 'ellipse']))
    case['src'] = draw(st.integers(0, 2))
    case['up'] = draw(st.booleans())
    case['saved'] = draw(st.integers(0, 3)) == 3
    return case


def strategy(tier):
    return cases(tier)


def ren(x):
    return 'intensity' if x == 'depth' else x


def renamed(snap):
    """a snapshot of the depth grid as the backscatter grid should have it"""
    for t in snap['tiles'].values():
        t['backscatter'] = True
        t['cells'] = {r: {ren(k): v for k, v in c.items()} for r, c in t['cells'].items()}
    return snap


def eq(a, b, what, *args):
    check(type(a) is type(b) or (np.isscalar(a) and np.isscalar(b)) or isinstance(a, np.ndarray), '{}: {} and {}'.format(what, type(a), type(b)), *args)
    if isinstance(a, (list, tuple)):
        check(len(a) == len(b), what + ': {} and {} parts', *args, len(a), len(b))
        for x, y in zip(a, b):
            eq(x, y, what, *args)
    elif isinstance(a, dict):
        check([ren(k) for k in a] == list(b), what + ': {} and {}', *args, list(a), list(b))
        for x, y in zip(a.values(), b.values()):
            eq(x, y, what, *args)
    else:
        check(obs.same(a, b), what + ' differs: depth grid {}, backscatter grid {}', *args, a, b)


def run_case(case, ctx):
    def player(bs):
        c = dict(case, cfg=dict(case['cfg'], bs=bs))
        return scene.build(c, ctx, vref=case['vref'])
    d, b = player(False), player(True)
    if not b.model.n:
        return
    if case['saved']:
        d.saveload()
        b.saveload()
        ctx.event('saved and loaded')
    dg, bg = d.grid, b.grid
    check(bool(bg.is_backscatter), 'the grid does not say that it is backscatter')
    check(bool(dg.is_backscatter) is False, 'the depth grid says that it is backscatter')
    check(bg.depth_key == 'intensity' and dg.depth_key == 'depth', 'depth_key is {} and {}', bg.depth_key, dg.depth_key)
    for t in obs.leaves(bg):
        for r, layers in t.cells.items():
            check('intensity' in layers and 'depth' not in layers, 'tile {} at {} of the backscatter grid has the layers {}', t.name, r, list(layers))
            check(np.asarray(obs.arr(layers['intensity'])).dtype == np.float32, 'intensity is {}', obs.arr(layers['intensity']).dtype)
    sd, sb = obs.snapshot(dg), obs.snapshot(bg)
    skip = SKIP + (('storage_type',))
    obs.diff(renamed(sd), sb, 'backscatter grid against depth grid', skip=skip)
    check(sorted(bg.layer_names) == sorted(ren(n) for n in dg.layer_names), 'layer_names are {} and {}', dg.layer_names, bg.layer_names)
    check(sorted(bg.return_layer_names()) == sorted(ren(n) for n in dg.return_layer_names()), 'return_layer_names gives {} and {}', dg.return_layer_names(), bg.return_layer_names())
    surf = scene.surfaces(bg)
    scene.stats(ctx, surf)
    names = sorted(next(iter(surf.values())))
    back = {ren(n): n for n in dg.return_layer_names()}
    up = case['up']
    for res in surf:
        for lyr in names:
            eq(dg.get_layers_by_name(back[lyr], res), bg.get_layers_by_name(lyr, res), 'layer {} at {}', lyr, res)
        order = ['intensity'] + [n for n in names if n != 'intensity']
        ask = [back[n] for n in order]
        eq(dg.get_layers_trimmed(ask, res), bg.get_layers_trimmed(order, res), 'trimmed layers at {}', res)
        eq(dg.return_surf_xyz(ask, res), bg.return_surf_xyz(order, res), 'surface at {}', res)
        plain = list(bg.get_tiles_by_resolution(res, order))
        eq(list(dg.get_tiles_by_resolution(res, ask)), plain, 'tiles at {}', res)
        flip = list(bg.get_tiles_by_resolution(res, order, z_positive_up=True))
        check(len(plain) == len(flip), 'other tiles when positive up')
        for x, y in zip(plain, flip):
            for lyr in x[4]:
                check(obs.same(x[4][lyr], y[4][lyr]), '{} of a tile is changed by z_positive_up', lyr)
        dim = None if case['dim'] is None else case['dim'] * bg.tile_size
        plain = list(bg.get_chunks_of_tiles(res, order, override_maximum_chunk_dimension=dim))
        eq(list(dg.get_chunks_of_tiles(res, ask, override_maximum_chunk_dimension=dim)), plain, 'chunks at {}', res)
        flip = list(bg.get_chunks_of_tiles(res, order, override_maximum_chunk_dimension=dim, z_positive_up=True))
        eq(plain, flip, 'chunks positive up at {}', res)
        xs = np.array([bg.min_x + q[0] / 255 * (bg.max_x - bg.min_x) for q in case['q']])
        ys = np.array([bg.min_y + q[1] / 255 * (bg.max_y - bg.min_y) for q in case['q']])
        for lyr in names:
            eq(dg.layer_values_at_xy(xs, ys, back[lyr], res), bg.layer_values_at_xy(xs, ys, lyr, res), 'lookup of {} at {}', lyr, res)
    for a in ('cell_count', 'density_count', 'density_per_square_meter', 'coverage_area_square_meters', 'mean_depth', 'no_grid', 'has_vertical_uncertainty',
              'has_horizontal_uncertainty', 'number_of_tiles', 'points_count'):
        eq(getattr(dg, a), getattr(bg, a), a)
    for lyr in names:
        eq(dg.return_layer_values(back[lyr]), bg.return_layer_values(lyr), 'values of {}', lyr)
    check('Backscatter Mosaic: True' in repr(bg) and 'Backscatter Mosaic: False' in repr(dg), 'the description does not tell which grid is backscatter')
    exports(case, ctx, bg, surf, names, up)


def exports(case, ctx, bg, surf, names, up):
    out = ctx.newdir(make=True)
    bg.export(os.path.join(out, 'a.csv'), 'csv', z_positive_up=up)
    total = {}
    for f in raster.files(out, '.csv'):
        with open(os.path.join(out, f)) as h:
            lines = h.read().splitlines()
        head = lines[0].split(' ')
        check('intensity' in head and 'elevation' not in head and 'depth' not in head, '{}: columns {}', f, head)
        res = float(f[len('a_'):-len('.csv')])
        i = head.index('intensity')
        vals = sorted(float(v.split(' ')[i]) for v in lines[1:] if v.split(' ')[i] != 'nan')
        want = sorted(surf[res]['intensity'].values())
        check(len(vals) == len(want) and all(abs(x - y) <= 0.00051 for x, y in zip(vals, want)), '{}: {} intensities, the surface at {} has {}', f, len(vals), res, len(want))
    bg.export(os.path.join(out, 'b.tif'), 'geotiff', z_positive_up=up)
    for res in bg.resolutions:
        for f in raster.files(out, '.tif'):
            geo, bands, arrays, ds = raster.read(os.path.join(out, f), f)
            check(bands[0] == 'Intensity' and 'Depth' not in bands and 'Elevation' not in bands, '{}: bands {}', f, bands)
            if geo[1] == res:
                raster.merge(total.setdefault(res, {}), raster.cells(geo, arrays[0], f), f)
            ds = None
        raster.compare(total.get(res, {}), surf[res]['intensity'], 'exported intensity at {}'.format(res))
    before = obs.snapshot(bg)
    bagdir = ctx.newdir(make=True)
    try:
        bg.export(os.path.join(bagdir, 'c.bag'), 'bag', z_positive_up=up)
    except Exception as e:
        if isinstance(e, Violation):
            raise
        ctx.event('bag refused')
    else:
        check(False, 'a backscatter grid was exported to BAG')
    check(not os.listdir(bagdir), 'the refused BAG export left {}', os.listdir(bagdir))
    obs.diff(before, obs.snapshot(bg), 'after the refused BAG export')
