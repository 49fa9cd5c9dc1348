"""Exported CSVs contain exactly the surface."""
import math
import os

from hypothesis import strategies as st

from bgv import obs, raster, scene
from bgv.runner import check

EXAMPLES = {'quick': 800, 'thorough': 14000}
RULE = ('random gridded scenes (depth and backscatter) exported to CSV with random resolution limit and sign; the files are parsed and compared row by row with the '
        'cells of the tiles. Non-trivial: more than two cells.')
ASSUMPTIONS = ['rows of cells without soundings may be in the file, without values', 'the exported resolutions are those the grid reports']


@st.composite
def cases(draw, tier):
    case = scene.scenes(draw, nanu=True, bs=True)
    case['up'] = draw(st.sampled_from([None, True, False]))
    case['taken'] = draw(st.sampled_from(raster.TAKEN))
    case['only'] = draw(st.sampled_from([None, None, 0, 1]))
    return case


def strategy(tier):
    return cases(tier)


def run_case(case, ctx):
    p = scene.build(case, ctx)
    if not p.model.n:
        return
    grid, cfg = p.grid, p.cfg
    surf = scene.surfaces(grid)
    scene.stats(ctx, surf)
    out = ctx.newdir(make=True)
    kw = {}
    wanted = list(grid.resolutions)
    if case['only'] is not None:
        wanted = [sorted(surf)[case['only'] % len(surf)]]
        kw['resolution'] = wanted[0]
    if case['up'] is not None:
        kw['z_positive_up'] = case['up']
    base = raster.export(grid, case, ctx, out, '.csv', 'csv', **kw)
    up = case['up'] is not False
    names = sorted(os.listdir(out))
    check(len(names) == len(wanted), 'files {} for resolutions {}', names, wanted)
    left = set(names)
    for res in wanted:
        f = '{}_{}.csv'.format(base, res)
        check(f in left, 'no file {} in {}', f, names)
        left.discard(f)
        one(os.path.join(out, f), surf[res], res, up, f)
    ctx.event('backscatter' if cfg['bs'] else ('elevation' if up else 'depth'))
    if len(wanted) > 1:
        ctx.event('several resolutions exported')


def one(path, layers, res, up, f):
    with open(path) as h:
        lines = h.read().splitlines()
    head = lines[0].split(' ')
    names = {}
    for lyr in layers:
        names['elevation' if lyr == 'depth' and up else lyr] = lyr
    check(head[:2] == ['x', 'y'] and sorted(head[2:]) == sorted(names), '{}: columns {}, layers {}', f, head, sorted(layers))
    seen = set()
    zcol = [i for i, n in enumerate(head) if n in ('elevation', 'depth', 'intensity')][0]
    for line in lines[1:]:
        v = line.split(' ')
        check(len(v) == len(head), '{}: row {}', f, line)
        x, y = float(v[0]), float(v[1])
        k = (math.floor(x / res), math.floor(y / res))
        check(abs((k[0] + 0.5) * res - x) < 0.00051 and abs((k[1] + 0.5) * res - y) < 0.00051, '{}: {}, {} is not the centre of a cell of {}', f, v[0], v[1], res)
        check(k not in seen, '{}: two rows for the cell at {}, {}', f, v[0], v[1])
        seen.add(k)
        populated = k in layers[names[head[zcol]]]
        for name, text in zip(head[2:], v[2:]):
            lyr = names[name]
            val = float(text)
            if not populated:
                check(math.isnan(val) or (lyr == 'density' and val == 0), '{}: row of an empty cell has {} {}', f, name, text)
                continue
            want = layers[lyr].get(k)
            if want is None:    # soundings without uncertainty
                check(math.isnan(val) and lyr.endswith('uncertainty'), '{}: {} of the cell at {}, {} is {}, it has none', f, name, v[0], v[1], text)
                continue
            if name == 'elevation':
                want = -want
            check(abs(val - want) <= 0.00051, '{}: {} of the cell at {}, {} is {}, it is {}', f, name, v[0], v[1], text, want)
            if lyr == 'density':
                check('.' not in text, '{}: density {}', f, text)
    missing = set(layers[names[head[zcol]]]) - seen
    check(not missing, '{}: no rows for the cells {}', f, sorted(missing)[:3])
