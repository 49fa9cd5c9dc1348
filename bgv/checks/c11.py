"""Automatic resolution by depth follows the depth table."""
import numpy as np
from hypothesis import strategies as st

from bgv import gen, model, obs
from bgv.play import Player
from bgv.runner import check

EXAMPLES = {'quick': 900, 'thorough': 16000}
RULE = ('random sources with depths around all bands of the depth table, additions and removals, gridded with automatic resolution by depth (full and update, '
        'single and variable resolution, tiles of 4 to 1024 m); the resolution of every tile is computed from the mean of its soundings. Non-trivial: some tile '
        'uses a resolution that is not limited by the tile size.')
ASSUMPTIONS = ['mean depths closer to a band limit than the rounding of the mean allow either neighbour and are left out, unless all depths are the limit itself',
               'mean depths below the last band (20480 m) are outside of the table and left out',
               'existing surfaces of other resolutions are cleared first, except for update regrids of grids that were gridded with the same setting']

LIMITS = [a for a, b in model.DEPTH_TABLE]


@st.composite
def cases(draw, tier):
    cfg = gen.configs(draw, kinds=('sr',), storages=('mem',) * 7 + ('numpy', 'zarr'), tiles=(8, 16, 32, 64, 256, 1024), res=(8.0,), max_cells=128)
    cfg['chunk'] = 4000 if cfg['chunk'] else 0      # tiles of many cells
    cfg['kind'] = draw(st.sampled_from(['sr', 'vr', 'vr']))
    if cfg['kind'] == 'vr':
        subs = [s for s in (4, 8, 16, 32, 64, 128, 256, 512, 1024) if s <= cfg['tile'] and cfg['tile'] / s <= 4]
        cfg['sub'] = draw(st.sampled_from(subs))
    leaf = cfg['sub'] if cfg['kind'] == 'vr' else cfg['tile']
    cfg['res'] = float(min(leaf, 8))
    # depths such that a tile has at most about 64 x 64 cells
    lowest = 0
    for limit, res in model.DEPTH_TABLE:
        if res * 64 < leaf:
            lowest = limit
    per_m = 8 if cfg['zs'] == 'e' else 1 / 0.0137
    regs = []
    around = [x for x in LIMITS[:12] if x > lowest]
    for _ in range(3):
        limit = draw(st.sampled_from(around))
        regs.append((int((limit - 0.4) * per_m), int(0.8 * per_m)))
        regs.append((int(limit * per_m), 0))
    regs.append((int(lowest * per_m) + 1, int(draw(st.sampled_from([10, 60, 700, 9000])) * per_m)))
    if lowest == 0:
        regs += [(int(-30 * per_m), int(40 * per_m)), (int(-1000 * per_m), 50), (0, int(90 * per_m))]
    ops = gen.history(draw, cfg, ['add', 'add', 'rm', 'grid'], max_ops=4, batch_kw={'zreg': regs, 'bulk': 120})
    if lowest == 0 and draw(st.integers(0, 7)) == 7:   # a mean depth of zero: drying heights and depths, or all at the datum
        z = draw(st.sampled_from([0, 4, 20, 100]))
        ops = [['add', draw(st.integers(0, 5)), [[i * 7, 3, z if i % 2 else -z, 0] for i in range(draw(st.sampled_from([2, 4, 6])))]]] + ops[2:]
    return {'cfg': cfg, 'ops': ops, 'lowest': lowest, 'opt': draw(st.sampled_from(['full', 'full', 'update']))}


def strategy(tier):
    return cases(tier)


def expected(z, cfg_size, tol):
    """resolution for these depths, or None when the table leaves it open"""
    z = z.astype('f8')
    mean = float(z.mean())
    if z.max() == z.min():
        tol = 0.0
        mean = float(z[0])
    elif model.near_band(mean, tol):
        return None
    return model.band_resolution(mean, cfg_size)


def run_case(case, ctx):
    cfg = case['cfg']
    p = Player(cfg, ctx)
    gridded = False
    for op in case['ops'] + [['end']]:
        last = op[0] == 'end'
        if op[0] not in ('grid', 'end'):
            p.play(op)
            continue
        if not p.model.n:
            continue
        z = p.model.all()['z']
        if float(z.mean()) <= case['lowest'] + 0.01 and case['lowest']:
            continue   # would need a huge array
        if case['lowest'] and cfg['kind'] == 'vr' and any(float(np.mean(obs.arr(t.data)['z'])) <= case['lowest'] for t in obs.leaves(p.grid)):
            continue
        opt = case['opt'] if gridded and cfg['kind'] == 'vr' else 'full'
        p.regrid(res=None, mode='depth', opt=opt, clear=gridded and opt == 'full')
        gridded = True
        ctx.event('update' if opt == 'update' else 'full')
        verify(p, cfg, ctx)
    if not p.model.n:
        ctx.event('empty at the end')


def verify(p, cfg, ctx):
    grid = p.grid
    check(grid.grid_resolution == 'AUTO_DEPTH', 'grid_resolution is {}', grid.grid_resolution)
    used = set()
    free = False
    sr = None
    if cfg['kind'] == 'sr':
        tol = 0.0006 * (p.adds + p.removes + 1) + (1e-6 * float(np.abs(p.model.all()['z']).max()) if cfg['zdt'] == 'f4' else 1e-9)
        z = p.model.all()['z']
        sr = expected(z, cfg['tile'], tol)
        if z.max() == z.min() and cfg['zs'] == 'f':   # the mean depth of the grid is kept in whole millimetres
            sr = None if model.near_band(float(z[0]), tol) else sr
    for t in obs.leaves(grid):
        res = sorted(t.cells)
        check(len(res) == 1, 'tile {} has surfaces at {}', t.name, res)
        used.add(res[0])
        pts = obs.arr(t.data)
        size = t.max_x - t.min_x
        if cfg['kind'] == 'vr':
            want = expected(pts['z'], size, 1e-6 * float(np.abs(pts['z']).max()) * (10 if cfg['zdt'] == 'f4' else 0.01) + 1e-9)
        else:
            want = sr
        if want is not None:
            check(res[0] == want, 'tile {} of {} m with the mean depth {} is gridded at {}, the depth table gives {}', t.name, size,
                  pts['z'].astype('f8').mean() if cfg['kind'] == 'vr' else p.model.all()['z'].astype('f8').mean(), res[0], want)
            if want < size:
                free = True
            ctx.event('band {}'.format(want))
        else:
            ctx.event('too close to a limit')
        obs.check_leaf(t, cfg, cfg['alg'])
    check(grid.resolutions == sorted(used), 'resolutions are {}, tiles use {}', grid.resolutions, sorted(used))
    if len(used) > 1:
        ctx.event('several resolutions')
    ctx.nontrivial = ctx.nontrivial or free
