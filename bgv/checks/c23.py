"""Slope layers are the least squares plane of each cell's soundings."""
import math

import numpy as np
from hypothesis import strategies as st

from bgv import gen, model, obs, scene
from bgv.play import Player
from bgv.runner import Violation, check

EXAMPLES = {'quick': 700, 'thorough': 12000}
RULE = ('random histories of additions, removals, griddings and reloads with dense cells; slopes are requested after any gridding, and before the next one once soundings changed (full layers, tiles, chunks) and compared, cell by '
        'cell, with the normal equations of the plane through that cell\'s soundings relative to one of them. Non-trivial: cells with three or more soundings not in a line, '
        'and slopes requested again after the soundings changed.')
ASSUMPTIONS = ['soundings not in a line: the smaller spread of the cell is at least 1 cm and 1 % of the larger one', 'slopes within 1e-4 times the depth spread over the smaller spread']


@st.composite
def cases(draw, tier):
    disk = draw(st.integers(0, 5)) == 5
    cfg = gen.configs(draw, storages=('numpy', 'zarr') if disk else ('mem', 'memz'), tiles=(4, 8, 16, 32), max_cells=16, min_res=1.0)
    kw = {'span': 2.0, 'bulk': 150, 'zreg': [(0, 255), (0, 2000), (-120, 255), (70, 20)]}

    def dense():
        op = gen.add_op(draw, cfg, 40, kw)
        # most points next to each other so that cells get several
        if draw(st.integers(0, 3)):
            op[2] = [q if q[0] == 'blk' else [q[0] // 2, q[1] // 2, q[2], q[3]] for q in op[2]]
        return op
    ops = [dense()]
    grids = 0
    for _ in range(draw(st.integers(1, 4))):
        ops.append(['grid', spec(draw, cfg)])
        k = draw(st.sampled_from(['add', 'rm', 'none', 'reload', 'add']))
        if k == 'add':
            ops.append(dense())
        elif k == 'rm':
            ops.append(['rm', draw(st.integers(0, 5))])
        elif k == 'reload':
            ops.append(['reload'])
    ops.append(['grid', spec(draw, cfg)])
    return {'cfg': cfg, 'ops': ops, 'skip': draw(st.integers(0, 3)), 'pending': draw(st.booleans()), 'how': draw(st.sampled_from(['layer', 'tile', 'both', 'chunk']))}


def spec(draw, cfg):
    g = gen.grid_op(draw, cfg)
    if cfg['kind'] == 'vr' and draw(st.integers(0, 4)) == 4:
        g.update({'res': None, 'mode': 'depth', 'clear': True})
    return g


def strategy(tier):
    return cases(tier)


def planes(pts, res):
    """{cell: (x slope, y slope, tolerance) or None when the soundings do not fix a plane}"""
    out = {}
    x, y, z = (pts[k].astype('f8') for k in 'xyz')
    for k, idx in model.group_cells(pts, res).items():
        out[k] = None
        if len(idx) < 3:
            continue
        dx, dy, dz = x[idx] - x[idx[0]], y[idx] - y[idx[0]], z[idx] - z[idx[0]]
        n = len(idx)
        dx, dy, dz = dx - math.fsum(dx) / n, dy - math.fsum(dy) / n, dz - math.fsum(dz) / n
        sxx, syy, sxy = math.fsum(dx * dx), math.fsum(dy * dy), math.fsum(dx * dy)
        sxz, syz = math.fsum(dx * dz), math.fsum(dy * dz)
        det = sxx * syy - sxy * sxy
        big = (sxx + syy + math.sqrt((sxx - syy) ** 2 + 4 * sxy * sxy)) / 2
        small = det / big if big > 0 else 0.0
        if small < 1e-4 or small < 1e-4 * big:
            continue
        spread = float(np.abs(dz).max()) + 1e-6 * float(np.abs(z[idx]).max())
        out[k] = ((sxz * syy - syz * sxy) / det, (syz * sxx - sxz * sxy) / det, 1e-4 * (spread / math.sqrt(small)) + 1e-6)
    return out


def compare(got, ref, what):
    for i, axis in enumerate('xy'):
        g = got[i]
        extra = sorted(set(g) - set(ref))[:3]
        check(not extra, '{}: cells without soundings have an {} slope: {}', what, axis, extra)
        for k, r in ref.items():
            if r is None:
                continue
            if k not in g:
                raise Violation('{}: cell {} has no {} slope'.format(what, k, axis))
            if not abs(g[k] - r[i]) <= r[2]:
                raise Violation('{}: {} slope of cell {} is {}, plane through its soundings has {}'.format(what, axis, k, g[k], r[i]))


def ask(p, how, what):
    grid = p.grid
    fixed = 0
    for res in scene.resolutions(grid):
        ref = {}
        for t in obs.leaves(grid):
            if res in t.cells:
                ref.update(planes(obs.arr(t.data), res))
        fixed += sum(r is not None for r in ref.values())
        w = '{} at {}'.format(what, res)
        if how in ('layer', 'both'):
            compare([obs.layer_surface(grid, 'x_slope', res), obs.layer_surface(grid, 'y_slope', res)], ref, w)
            both = grid.get_layers_by_name(['y_slope', 'x_slope'], res)
            check(obs.same(both[0], grid.get_layers_by_name('y_slope', res)[0]) and obs.same(both[1], grid.get_layers_by_name('x_slope', res)[0]), '{}: slopes together differ', w)
        if how in ('tile', 'both'):
            got = [{}, {}]
            for t in obs.leaves(grid):
                if res in t.cells:
                    for i, n in enumerate(('x_slope', 'y_slope')):
                        got[i].update(obs.cells_of_array(t.get_layers_by_name(n, res), t.min_x, t.min_y, res, np.isnan))
            compare(got, ref, w + ' by tile')
        if how == 'chunk':
            got = [{}, {}]
            for geo, _, data in grid.get_chunks_of_tiles(res, ['x_slope', 'y_slope'], for_gdal=False):
                for i, n in enumerate(('x_slope', 'y_slope')):
                    a = data[n]
                    got[i].update(obs.cells_of_array(a, float(geo[0]), float(geo[3]) - a.shape[0] * res, res, np.isnan))
            compare(got, ref, w + ' in chunks')
    return fixed


def run_case(case, ctx):
    cfg = case['cfg']
    p = Player(cfg, ctx)
    asked = 0
    changed_after = False
    best = 0
    n = 0
    for op in case['ops']:
        if op[0] == 'grid' and p.gridded and p.gridded['res'] != op[1].get('res', cfg['res']):
            op[1]['clear'] = True    # layers of an earlier setting would stay as they are
        if p.play(op) is None or not p.model.n:
            continue
        if op[0] == 'grid':
            n += 1
            if n != case['skip']:     # one gridding without a request
                if asked and n > asked:
                    changed_after = True
                best = max(best, ask(p, case['how'], 'after gridding {}'.format(n)))
                asked = asked or n
        elif op[0] == 'reload' and p.gridded and not p.dirty:
            best = max(best, ask(p, case['how'], 'reloaded'))
            ctx.event('reloaded')
        elif op[0] in ('add', 'rm') and p.gridded and case['pending']:
            # soundings changed since the gridding: the tiles that have a surface give the slopes of the soundings they hold now
            best = max(best, ask(p, case['how'], 'after {}, not gridded yet'.format('an addition' if op[0] == 'add' else 'a removal')))
            asked = asked or n
            changed_after = True
            ctx.event('asked before gridding ' + op[0])
    ctx.event('{} {}'.format(cfg['kind'], cfg['storage']))
    ctx.event(case['how'])
    if best:
        ctx.event('cells with a plane')
    ctx.nontrivial = best > 0 and changed_after
