"""Chunks partition the surface and respect the maximum size."""
import numpy as np
from hypothesis import strategies as st

from bgv import obs, scene
from bgv.runner import check

EXAMPLES = {'quick': 900, 'thorough': 16000}
RULE = ('random gridded scenes cut into chunks with random maximum dimensions (smaller than a tile, multiples, between, default), both array orientations, random '
        'layers and no-data values; the chunks are placed by their geotransform and must cover each cell of the surface exactly once. Non-trivial: more than one chunk.')
ASSUMPTIONS = ['numeric no-data values are asked for layers other than density']


@st.composite
def cases(draw, tier):
    case = scene.scenes(draw, nanu=True, bs=True, pending=True)
    case['dims'] = [draw(st.sampled_from([0.25, 0.5, 1, 1.25, 1.5, 2, 2.9, 3, 4, 7])) for _ in range(2)]
    case['nodata'] = draw(st.sampled_from([None, None, -9999.0, -9999.9, 1000000.0]))
    case['pick'] = draw(st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True))
    return case


def strategy(tier):
    return cases(tier)


def run_case(case, ctx):
    p = scene.build(case, ctx)
    if not p.model.n:
        return
    grid = p.grid
    surf = scene.surfaces(grid)
    tile = grid.tile_size
    for res, layers in surf.items():
        names = sorted(layers)
        ask = list(dict.fromkeys(names[i % len(names)] for i in case['pick']))
        if case['nodata'] is not None:
            ask = [x for x in ask if x != 'density'] or [p.zkey]
        for dim in [None] + [d * tile for d in case['dims']]:
            for gdal in (True, False):
                n = pieces(grid, res, layers, ask, dim, gdal, case['nodata'], tile)
                if n > 1:
                    ctx.nontrivial = True
                    ctx.event('several chunks')
    # a single layer may be asked for by name
    res = next(iter(surf))
    pieces(grid, res, surf[res], p.zkey, tile, True, None, tile)
    if len(surf) == 1 and list(grid.resolutions) == [res]:   # the only resolution need not be said
        pieces(grid, res, surf[res], p.zkey, tile, True, None, tile, say=False)
        ctx.event('without saying the resolution')
    if len(surf) > 1:
        ctx.event('surfaces at several resolutions')


def pieces(grid, res, layers, ask, dim, gdal, nodata, tile, say=True):
    kw = {} if nodata is None else {'nodatavalue': nodata}
    if not gdal:
        kw['for_gdal'] = False
    what = 'chunks at {} of at most {} m ({})'.format(res, dim, 'gdal' if gdal else 'array')
    one = isinstance(ask, str)
    got = {lyr: {} for lyr in ([ask] if one else ask)}
    areas = []
    count = 0
    for geo, maxdim, data in grid.get_chunks_of_tiles(res if say else None, ask, override_maximum_chunk_dimension=dim, **kw):
        count += 1
        check(geo[1] == res and geo[5] == -res and geo[2] == 0 and geo[4] == 0, '{}: geotransform {}', what, geo)
        check(list(data) == list(got), '{}: layers {}, asked for {}', what, list(data), list(got))
        shapes = {a.shape for a in data.values()}
        check(len(shapes) == 1, '{}: layers of different shapes {}', what, shapes)
        for lyr, a in data.items():
            if gdal:
                a = np.fliplr(a).T      # to rows north, columns east
            h, w = a.shape[0] * res, a.shape[1] * res
            check(max(h, w) == maxdim, '{}: reported dimension {}, it is {} x {}', what, maxdim, w, h)
            limit = max(dim if dim is not None else 32768.0, tile)
            check(w <= limit and h <= limit, '{}: a piece is {} x {}', what, w, h)
            x0, y0 = float(geo[0]), float(geo[3]) - h
            if nodata is None:
                empty = (lambda v: v == 0) if lyr == 'density' else np.isnan
            else:
                check(not np.isnan(a).any(), '{}: not-a-number in {} with a no-data value', what, lyr)
                empty = lambda v: v == np.float32(nodata)
            part = obs.cells_of_array(a, x0, y0, res, empty)
            check(not set(part) & set(got[lyr]), '{}: cells of {} are in two pieces', what, lyr)
            got[lyr].update(part)
        areas.append((x0, y0, x0 + w, y0 + h))
    for lyr in got:
        if got[lyr] != layers[lyr]:
            missing = sorted(set(layers[lyr]) - set(got[lyr]))[:3]
            extra = sorted(set(got[lyr]) - set(layers[lyr]))[:3]
            other = [k for k in layers[lyr] if k in got[lyr] and got[lyr][k] != layers[lyr][k]][:3]
            check(False, '{}: layer {} is not the surface; missing {}, extra {}, other values {}', what, lyr, missing, extra, other)
    return count
