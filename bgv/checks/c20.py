"""A source's layer is the surface of that source's soundings alone."""
import numpy as np
from hypothesis import strategies as st

from bgv import model, obs, scene
from bgv.runner import Violation, check

EXAMPLES = {'quick': 800, 'thorough': 16000}
RULE = ('random gridded scenes with up to four overlapping sources; the layer of every source is compared, at every resolution, with the reference surface of the '
        'soundings of that source alone (those in tiles that have the resolution). Non-trivial: two sources share a cell and give it different values.')
ASSUMPTIONS = ['sources are not named like a layer']


@st.composite
def cases(draw, tier):
    case = scene.scenes(draw, nanu=True, bs=True, max_points=30, pending=True, dense=60)
    case['with'] = draw(st.booleans())
    # most sources lie over the first one
    first = case['adds'][0][2]
    for op in case['adds'][1:] + ([case['late']] if case['late'] else []):
        if draw(st.integers(0, 4)):
            dx, dy, dz = draw(st.integers(-4, 4)), draw(st.integers(-4, 4)), draw(st.integers(-200, 200))
            part = first[draw(st.integers(0, len(first) - 1)):] if draw(st.booleans()) else first
            op[2] = [[q[0], q[1] + 1, q[2], q[3] + dx, q[4] + dy, q[5], q[6], q[7] + dz, q[8]] if q[0] == 'blk' else [q[0] + dx, q[1] + dy, q[2] + dz, q[3]] for q in part]
    return case


def strategy(tier):
    return cases(tier)


def run_case(case, ctx):
    p = scene.build(case, ctx)
    if not p.model.n:
        return
    grid, cfg = p.grid, p.cfg
    before = scene.surfaces(grid)
    shared = set()
    seen = {}
    for res in scene.resolutions(grid):
        have = [(t.min_x, t.max_x, t.min_y, t.max_y) for t in obs.leaves(grid) if res in t.cells]
        for name, arr in p.model.sources.items():
            msk = np.zeros(arr.size, dtype=bool)
            for x0, x1, y0, y1 in have:
                msk |= (arr['x'] >= x0) & (arr['x'] < x1) & (arr['y'] >= y0) & (arr['y'] < y1)
            ref = model.surface(arr[msk], res, cfg['alg'])
            got = obs.layer_surface(grid, name, res)
            one(got, ref, cfg, '{} at {}'.format(name, res))
            for k, c in ref.items():
                if k in seen.setdefault(res, {}) and seen[res][k] != c.z:
                    shared.add((res, k))
                seen[res][k] = c.z
            if case['with']:
                a = grid.get_layers_by_name([name, p.zkey], res)
                b = grid.get_layers_by_name(p.zkey, res)
                if a is not None:
                    check(obs.same(a[1], b[0]), 'layer {} asked for with the layer of {} differs', p.zkey, name)
                    alone = grid.get_layers_by_name(name, res)
                    if alone is not None:
                        check(obs.same(a[0], alone[0]), 'layer of {} asked for with another differs', name)
            # tile by tile as well
            tiles = {}
            for t in obs.leaves(grid):
                if res in t.cells:
                    a = t.get_layers_by_name(name, res)
                    if a is not None:
                        tiles.update(obs.cells_of_array(a, t.min_x, t.min_y, res, np.isnan))
            one(tiles, ref, cfg, '{} at {} by tile'.format(name, res))
    # a source that is not there has no layer
    got = obs.layer_surface(grid, 'not a source', res)
    check(not got, 'a source that is not in the grid has values {}', sorted(got)[:3])
    check(scene.surfaces(grid) == before, 'asking for the layers of sources changed the surface')
    if shared:
        ctx.event('cells shared with other values')
    ctx.event('{} sources'.format(len(p.model.sources)))
    ctx.nontrivial = bool(shared)


def one(got, ref, cfg, what):
    if got.keys() != ref.keys():
        raise Violation('layer of {}: cells without its soundings {}, cells missing {}'.format(what, sorted(set(got) - set(ref))[:3], sorted(set(ref) - set(got))[:3]))
    for k, c in ref.items():
        tol = model.tolerance(c.zmax, c.n if cfg['alg'] == 'mean' else 1, cfg['zdt'])
        if abs(got[k] - c.z) > tol:
            raise Violation('layer of {}: cell {} is {}, its soundings give {}'.format(what, k, got[k], c.z))
