"""Looking up a location returns the value of the cell that contains it."""
import math

import numpy as np
from hypothesis import strategies as st

from bgv import model, obs, scene
from bgv.runner import check

EXAMPLES = {'quick': 800, 'thorough': 14000}
RULE = ('random gridded scenes; random locations (inside cells, on cell, tile and extent edges, one float below edges, far outside), asked for every layer with a '
        'resolution and without, as arrays (of decimals and of whole numbers of any size), lists, tuples and single numbers (Python and numpy, whole and decimal); each answer is compared with the cell of the tiles that contains the location. '
        'Non-trivial: at least three locations hit a value and one does not.')
ASSUMPTIONS = ['numeric no-data values that are no value of the surface', 'without a resolution the resolutions the grid reports are considered']


@st.composite
def cases(draw, tier):
    case = scene.scenes(draw, nanu=True, bs=True, pending=True, big=40)
    n = draw(st.integers(1, 30))
    raw = draw(st.binary(min_size=4 * n, max_size=4 * n))
    case['q'] = [list(raw[i:i + 4]) for i in range(0, len(raw), 4)]
    case['nodata'] = draw(st.sampled_from([None, None, -9999.0, -9999.9, 0.12345, 1e6]))
    case['lyr'] = draw(st.integers(0, 3))
    return case


def strategy(tier):
    return cases(tier)


def locations(case, grid, surf, pts):
    """locations built from the bytes of the case"""
    out = []
    rmin = min(surf)
    keys = sorted(next(iter(surf[rmin].values())))
    w, h = grid.max_x - grid.min_x, grid.max_y - grid.min_y
    all_res = sorted(surf)
    for a, b, c, d in case['q']:
        mode = a % 8
        if mode < 3:    # in or at the edge of a cell with a value
            r = all_res[(a >> 3) % len(all_res)]
            ks = sorted(next(iter(surf[r].values())))
            k = ks[(b * 256 + c) % len(ks)]
            x, y = (k[0] + (d & 7) / 8) * r, (k[1] + ((d >> 3) & 7) / 8) * r
        elif mode < 5:  # anywhere, a bit beyond the extents too
            x, y = grid.min_x + (b / 255 * 1.3 - 0.15) * w, grid.min_y + (c / 255 * 1.3 - 0.15) * h
        elif mode == 5:  # a sounding
            q = pts[(b * 256 + c) % pts.size]
            x, y = float(q['x']), float(q['y'])
        elif mode == 6:  # corners and edges of tiles and extents
            x = grid.min_x + (b % (int(w / grid.tile_size) + 1)) * grid.tile_size
            y = grid.min_y + (c % (int(h / grid.tile_size) + 1)) * grid.tile_size
        else:
            x, y = math.floor(grid.min_x + b / 255 * w), math.floor(grid.min_y + c / 255 * h)
        if d & 64:
            x = model.just_below(x)
        if d & 128:
            y = model.just_below(y)
        out.append((float(x), float(y)))
    return out


def run_case(case, ctx):
    p = scene.build(case, ctx)
    if not p.model.n:
        return
    grid = p.grid
    surf = scene.surfaces(grid)
    pts = p.model.all()
    loc = locations(case, grid, surf, pts)
    xs, ys = np.array([q[0] for q in loc]), np.array([q[1] for q in loc])
    layers = sorted(next(iter(surf.values())))
    hits = misses = 0
    ask = [layers[case['lyr'] % len(layers)], p.zkey]
    size = sum((grid.max_x - grid.min_x) * (grid.max_y - grid.min_y) / r / r for r in surf)
    heavy, huge = size > 3e5, size > 1e7
    if huge:
        ask = ask[:1]
    forms = 0
    for lyr in dict.fromkeys(ask):
        if not all(surf[r][lyr] for r in surf):
            continue    # nothing is retrieved of a layer without any value
        # the no-data value of the layers of whole numbers is a whole number
        nod = np.float32(np.nan if case['nodata'] is None else int(case['nodata']) if lyr in ('density', 'hypothesis_count') else case['nodata'])
        for res in [None] + sorted(surf):
            order = sorted(grid.resolutions) if res is None else [res]
            want = []
            for x, y in loc:
                v = None
                for r in order:
                    v = surf[r][lyr].get((math.floor(x / r), math.floor(y / r)))
                    if v is not None:
                        break
                want.append(nod if v is None else np.float32(v))
                if v is None:
                    misses += 1
                else:
                    hits += 1
            kw = {} if case['nodata'] is None else {'nodatavalue': case['nodata']}
            got = grid.layer_values_at_xy(xs.copy(), ys.copy(), lyr, res, **kw)
            check(np.shape(got) == xs.shape, 'values have the shape {}, locations {}', np.shape(got), xs.shape)
            for i, (q, g, w) in enumerate(zip(loc, np.asarray(got).tolist(), want)):
                ok = (np.isnan(w) and np.isnan(g)) or g == w
                check(ok, 'layer {} resolution {} at {}, {}: {}, the cell holds {}', lyr, res, q[0], q[1], g, w)
            forms += 1
            if huge or heavy and forms > 2:
                continue    # every request builds the whole surface
            # one at a time, other forms
            for i in range(min(3, len(loc))):
                one = grid.layer_values_at_xy(loc[i][0], loc[i][1], lyr, res, **kw)
                check(np.size(one) == 1, 'single location gives {}', one)
                check(obs.same(np.float32(one), want[i]), 'layer {} resolution {}: single location {} gives {}, expected {}', lyr, res, loc[i], one, want[i])
                if loc[i][0].is_integer() and loc[i][1].is_integer():
                    one = grid.layer_values_at_xy(int(loc[i][0]), int(loc[i][1]), lyr, res, **kw)
                    check(obs.same(np.float32(one), want[i]), 'single whole number location {} gives {}, expected {}', loc[i], one, want[i])
                    ctx.event('whole numbers')
            got2 = grid.layer_values_at_xy(xs.tolist(), ys.tolist(), lyr, res, **kw)
            check(obs.same(got2, got), 'lists give other values than arrays')
            got2 = grid.layer_values_at_xy(tuple(xs.tolist()), tuple(ys.tolist()), lyr, res, **kw)
            check(obs.same(got2, got), 'tuples give other values than arrays')
            one = grid.layer_values_at_xy(xs[0], ys[0], lyr, res, **kw)
            check(np.size(one) == 1 and obs.same(np.float32(one), want[0]), 'layer {} resolution {}: single numpy location {} gives {}, expected {}', lyr, res, loc[0], one, want[0])
            for kind in (np.int64, np.float32):
                a, b = kind(xs[0]), kind(ys[0])
                one = grid.layer_values_at_xy(a, b, lyr, res, **kw)
                two = grid.layer_values_at_xy(float(a), float(b), lyr, res, **kw)
                check(np.size(one) == 1 and obs.same(np.float32(one), np.float32(two)), 'single location {}, {} of {} gives {}, as floats {}', a, b, kind.__name__, one, two)
            for kind in [(np.int8, np.int16, np.int32, np.int64, np.float16, np.float32)[(case['q'][0][3] + len(loc)) % 6]]:    # arrays of other numbers: the location is the number it holds
                lim = 60000.0 if kind is np.float16 else None if kind is np.float32 else float(np.iinfo(kind).max)
                a, b = (q if lim is None else np.clip(q, -lim, lim) if kind is not np.int64 else q for q in (xs, ys))
                a, b = a.astype(kind), b.astype(kind)
                one = grid.layer_values_at_xy(a, b, lyr, res, **kw)
                two = grid.layer_values_at_xy(a.astype(np.float64), b.astype(np.float64), lyr, res, **kw)
                check(obs.same(np.asarray(one, dtype=np.float32), np.asarray(two, dtype=np.float32)), 'layer {} resolution {}: arrays of {} {}, {} give {}, as floats {}', lyr, res,
                      kind.__name__, a.tolist(), b.tolist(), one, two)
            rev = grid.layer_values_at_xy(xs[::-1].copy(), ys[::-1].copy(), lyr, res, **kw)
            check(obs.same(np.asarray(rev)[::-1], got), 'the order of the locations changes the values')
    if len(grid.resolutions) > 1:
        ctx.event('asked over several resolutions')
    if case['nodata'] is not None:
        ctx.event('numeric no-data')
    ctx.nontrivial = hits >= 3 and misses >= 1
