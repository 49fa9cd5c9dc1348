"""Exported GeoTIFFs contain exactly the surface."""
import os

from hypothesis import strategies as st

from bgv import gen, obs, raster, scene
from bgv.runner import check

EXAMPLES = {'quick': 700, 'thorough': 12000}
RULE = ('random gridded scenes (depth and backscatter, single and variable resolution, several resolutions, disk, reload) exported to GeoTIFF with random chunk size, '
        'resolution limit and sign; all files of the export are read with GDAL and put together by their geotransforms. Non-trivial: more than two cells.')
ASSUMPTIONS = ['the exported resolutions are those the grid reports']


@st.composite
def cases(draw, tier):
    case = scene.scenes(draw, nanu=True, bs=True, fields=('', 't', 'th', 'th', 'h'))
    case['dim'] = draw(st.sampled_from([None, None, 0.5, 1, 1.5, 2, 3]))
    case['up'] = draw(st.sampled_from([None, True, False]))
    case['only'] = draw(st.sampled_from([None, None, 0, 1]))
    case['taken'] = draw(st.sampled_from(raster.TAKEN))
    case['epsg'] = draw(st.sampled_from([26910, 32619, 26910, 3857]))
    if draw(st.integers(0, 11)) == 11:   # a raster that is all at the datum, without empty cells
        cfg = case['cfg']
        leaf = cfg['sub'] if cfg['kind'] == 'vr' else cfg['tile']
        cfg['res'] = float(draw(st.sampled_from([leaf, leaf / 2])))
        u = int(leaf * 8)
        case['adds'] = [['add', 0, [['blk', draw(st.integers(0, 10 ** 6)), 60, 0, 0, u, u, 0, 1]]]]
        case.update(mode='fixed', second=None, late=None, drop=None)
        cfg['base'] = [0, 0]
    return case


def strategy(tier):
    return cases(tier)


def run_case(case, ctx):
    p = scene.build(case, ctx, epsg=case['epsg'])
    if not p.model.n:
        return
    grid, cfg = p.grid, p.cfg
    surf = scene.surfaces(grid)
    scene.stats(ctx, surf)
    out = ctx.newdir(make=True)
    wanted = list(grid.resolutions)
    kw = {}
    if case['only'] is not None:
        wanted = [sorted(surf)[case['only'] % len(surf)]]
        kw['resolution'] = wanted[0]
        ctx.event('one resolution asked for')
    if case['dim'] is not None:
        kw['override_maximum_chunk_dimension'] = case['dim'] * cfg['tile']
    if case['up'] is not None:
        kw['z_positive_up'] = case['up']
    raster.export(grid, case, ctx, out, '.tif', 'geotiff' if case['dim'] is None else 'GeoTIFF', **kw)
    up = case['up'] is not False
    if cfg['bs']:
        want_names = ['Intensity']
    else:
        want_names = ['Elevation' if up else 'Depth'] + (['Vertical Uncertainty'] if 't' in cfg['fields'] else [])
    layers = {'Elevation': 'depth', 'Depth': 'depth', 'Intensity': 'intensity', 'Vertical Uncertainty': 'vertical_uncertainty'}
    got = {}
    names = raster.files(out, '.tif')
    for f in names:
        geo, bands, arrays, ds = raster.read(os.path.join(out, f), f)
        check(bands == want_names, '{}: bands {}, expected {}', f, bands, want_names)
        check(raster.same_crs(ds, case['epsg']), '{}: coordinate system {}', f, ds.GetProjection()[:100])
        raster.limits(geo, arrays[0], kw.get('override_maximum_chunk_dimension'), cfg['tile'], f)
        for band, a in zip(bands, arrays):
            raster.merge(got.setdefault(float(geo[1]), {}).setdefault(band, {}), raster.cells(geo, a, f), f)
        ds = None
    check(sorted(got) == sorted(wanted), 'files for resolutions {}, expected {}', sorted(got), sorted(wanted))
    for res in wanted:
        for band in want_names:
            want = surf[res][layers[band]]
            if band == 'Elevation':
                want = {k: -v for k, v in want.items()}
            raster.compare(got[res][band], want, 'band {} at {}'.format(band, res))
    ctx.event('backscatter' if cfg['bs'] else ('elevation' if up else 'depth'))
    if len(names) > len(wanted):
        ctx.event('several files per resolution')
    if len(wanted) > 1:
        ctx.event('several resolutions exported')
