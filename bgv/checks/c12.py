"""Automatic resolution by density follows the published estimate."""
import math

import numpy as np
from hypothesis import strategies as st

from bgv import gen, model, obs
from bgv.play import Player
from bgv.runner import check

EXAMPLES = {'quick': 900, 'thorough': 16000}
RULE = ('random fields of up to a few thousand soundings that fill a chosen part of the area (single and variable resolution, (sub)tiles of 2 to 64 m; sparse ones of 512 to 4096 m in deep water), gridded with '
        'automatic resolution by density; the resolution of every tile is computed from the definition, and that asked for with other sizes of cells and other allowances for noise. Non-trivial: at least one tile follows the estimate and '
        'is not limited by the tile size.')
ASSUMPTIONS = ['estimates that equal a resolution only to rounding and mean depths that equal a band limit (to rounding) are left out']
OPTIONS = [r for _, r in model.DEPTH_TABLE]


@st.composite
def cases(draw, tier):
    cfg = gen.configs(draw, kinds=('sr',), storages=('mem',) * 9 + ('numpy', 'zarr'), tiles=(2, 4, 8, 16, 32, 64), res=(1.0,), max_cells=256)
    cfg['chunk'] = 4000 if cfg['chunk'] else 0      # tiles of many cells
    cfg['kind'] = draw(st.sampled_from(['sr', 'vr']))
    if cfg['kind'] == 'vr':
        cfg['sub'] = draw(st.sampled_from([s for s in (2, 4, 8, 16, 32, 64) if s <= cfg['tile'] and cfg['tile'] / s <= 4]))
    deep = draw(st.integers(0, 7)) == 7
    if deep:
        # tiles for the coarse resolutions: a few soundings in deep water
        cfg['tile'] = draw(st.sampled_from([512, 1024, 2048, 2048, 4096]))
        cfg['sub'] = draw(st.sampled_from([s for s in (512, 1024, 2048) if s <= cfg['tile'] and cfg['tile'] / s <= 4])) if cfg['kind'] == 'vr' else cfg['tile']
    leaf = cfg['sub'] if cfg['kind'] == 'vr' else cfg['tile']
    tu = int(cfg['tile'] * 8)
    lu = int(leaf * 8)
    srcs = []
    for _ in range(draw(st.integers(1, 4))):
        # a box that covers a number of whole and part tiles
        nx, ny = draw(st.integers(1, 3)), draw(st.integers(1, 3))
        w = nx * lu - draw(st.sampled_from([0, 0, lu // 4, lu // 2, lu // 8]))
        h = ny * lu - draw(st.sampled_from([0, 0, lu // 4, lu // 2, lu // 8]))
        ox = draw(st.integers(-2, 3)) * lu
        oy = draw(st.integers(-2, 3)) * lu
        n = draw(st.sampled_from([3, 8, 20, 50, 120, 300, 700, 1500] + ([4000] if leaf <= 4 else [])))
        zlo, zn = draw(st.sampled_from([(0, 100), (80, 200), (8 * 55, 8 * 10), (8 * 150, 8 * 30), (-100, 50), (8 * 1000, 800), (8 * 30, 1)]))
        srcs.append([['blk', draw(st.integers(0, 10 ** 6)), n, ox, oy, max(1, w), max(1, h), zlo, zn]])
    if deep:
        at = [limit for limit, res in model.DEPTH_TABLE if cfg['tile'] / res <= 512]
        srcs = []
        for _ in range(draw(st.integers(1, 3))):
            z = draw(st.sampled_from(at)) * draw(st.sampled_from([0.55, 0.7, 0.9, 0.99]))
            srcs.append([['blk', draw(st.integers(0, 10 ** 6)), draw(st.sampled_from([1, 2, 5, 20])), draw(st.integers(-1, 1)) * lu, draw(st.integers(-1, 1)) * lu, lu, lu, int(z * 8), 1]])
    elif leaf <= 32 and draw(st.integers(0, 5)) == 0:
        # tiles with the same number of soundings in every cell, for which the estimate is one of the resolutions
        start = min(leaf, 16)
        u = int(start * 8)
        k = int(leaf / start)
        c = draw(st.sampled_from([70, 70, 280, 280, 1120] if leaf < 32 else [70, 280]))
        cells = [(i, j) for i in range(k) for j in range(k)]
        if k > 1 and draw(st.booleans()):
            cells = cells * draw(st.sampled_from([1, 4]))
        at = draw(st.integers(-3, 3)) * lu, draw(st.integers(-3, 3)) * lu
        seed, zlo = draw(st.integers(0, 10 ** 6)), draw(st.sampled_from([0, 80, 8 * 55, 8 * 1000]))
        srcs = [[['blk', seed + n, c, at[0] + i * u, at[1] + j * u, u, u, zlo, 8] for n, (i, j) in enumerate(cells)]] + srcs[:draw(st.integers(0, 1))]
    elif draw(st.integers(0, 3)) == 0:
        # cells with numbers of soundings that bring the estimate just above or below one of the resolutions, in two sources
        start = min(leaf, 16)
        u = int(start * 8)
        k = int(leaf / start)
        cells = [(i, j) for i in range(k) for j in range(k)]
        if k > 1:
            cells = cells[:len(cells) - draw(st.integers(0, len(cells) // 4 - 1 if k == 2 else 3))]
        rel = [draw(st.sampled_from([1, 1, 2, 5, 12])) for _ in cells]
        want = start / draw(st.sampled_from([1, 1, 2, 2, 4] if len(cells) < 5 else [1, 1, 2]))
        est = math.sqrt(2 * 5 * 1.75) * start * sum(math.sqrt(w) for w in rel) / sum(rel)
        scale = (est / want) ** 2 * draw(st.sampled_from([0.97, 0.99, 1.01, 1.03]))
        at = draw(st.integers(-3, 3)) * lu, draw(st.integers(-3, 3)) * lu
        seed, zlo = draw(st.integers(0, 10 ** 6)), draw(st.sampled_from([0, 80, 8 * 55, 8 * 1000]))
        new = draw(st.integers(0, len(cells) - 1))
        two = [[], []]
        for n, ((i, j), w) in enumerate(zip(cells, rel)):
            c = max(1, round(w * scale))
            box = [at[0] + i * u, at[1] + j * u, u, u, zlo, 8]
            first = 0 if n == new else draw(st.sampled_from([c, c, c // 2]))
            if first:
                two[0].append(['blk', seed + n, first] + box)
            if c - first:
                two[1].append(['blk', seed + n + 100, c - first] + box)
        srcs = [t for t in two if t]
    elif draw(st.integers(0, 3)) == 0:
        srcs.append(gen.batch(draw, cfg, 20, blocks=False))
    return {'cfg': cfg, 'start': draw(st.lists(st.sampled_from([0.5, 1.0, 2.0, 4.0, 8.0, 32.0, 64.0, 1024.0] if not deep else [16.0, 64.0, 1024.0]), max_size=2)),
            'noise': draw(st.sampled_from([0.25, 1.0, 3.0])), 'sources': srcs, 'drop': draw(st.booleans()), 'before': draw(st.sampled_from([None, 'density', 'density', 'start', 'start', 'fixed'] if not deep else [None, 'density'])), 'opt': draw(st.sampled_from(['full', 'update']))}


def strategy(tier):
    return cases(tier)


def estimate(arr, min_x, min_y, size, start=16.0, noise=0.75):
    """(resolution or None when open, follows the estimate, limited by the tile)"""
    given, start = start, min(size, start)
    n = (size / start) ** 2
    cells = {}
    for x, y in zip(arr['x'].tolist(), arr['y'].tolist()):
        k = (math.floor((x - min_x) / start), math.floor((y - min_y) / start))
        cells[k] = cells.get(k, 0) + 1
    if len(cells) / n <= 0.75:
        mean = float(arr['z'].astype('f8').mean())
        if model.near_band(mean, max(1e-4, abs(mean) * 1e-5)):
            return None, False, False
        want = model.band_resolution(mean, size)
        return want, False, want == size
    total = sum(cells.values())
    est = math.fsum(math.sqrt(2 * 5 * (1 + noise) / (c / start ** 2)) * c for c in cells.values()) / total
    if given == 16 and noise == 0.75 and len(set(cells.values())) == 1 and next(iter(cells.values())) in (70, 280, 1120, 4480):
        est = {70: start / 2, 280: start / 4, 1120: start / 8, 4480: start / 16}[next(iter(cells.values()))]   # exactly, in any order of the operations
    elif any(abs(est - o) < 1e-9 * o for o in OPTIONS):
        return None, True, False
    want = next((o for o in OPTIONS if o >= est), OPTIONS[-1])
    return float(min(want, size)), True, want >= size


def run_case(case, ctx):
    cfg = case['cfg']
    p = Player(cfg, ctx)
    for i, s in enumerate(case['sources']):
        p.play(['add', i, s])
        if i == 0 and case['before'] == 'density':
            p.regrid(res=None, mode='density')
            verify(p, cfg, ctx, case)
        elif i == 0 and case['before']:
            # the tiles are binned already: in the cells of the estimate, or in others
            leaf = cfg['sub'] if cfg['kind'] == 'vr' else cfg['tile']
            p.regrid(res=float(min(16, leaf)) if case['before'] == 'start' else cfg['res'])
            ctx.event('gridded at {} before'.format('the resolution of the estimate' if case['before'] == 'start' else 'another resolution'))
    if case['drop'] and len(p.model.sources) > 1:
        p.play(['rm', 1])
    # an update is enough where every tile chooses for itself
    opt = case['opt'] if p.gridded and cfg['kind'] == 'vr' and case['before'] == 'density' else 'full'
    p.regrid(res=None, mode='density', opt=opt, clear=p.gridded is not None and opt == 'full')
    ctx.event('update' if opt == 'update' else 'full')
    verify(p, cfg, ctx, case)


def verify(p, cfg, ctx, case):
    grid = p.grid
    check(grid.grid_resolution == 'AUTO_DENSITY', 'grid_resolution is {}', grid.grid_resolution)
    tiles = list(obs.leaves(grid))
    want = {}
    for t in tiles:
        want[t.name] = estimate(obs.arr(t.data), t.min_x, t.min_y, t.max_x - t.min_x)
    if cfg['kind'] == 'sr':
        values = [w[0] for w in want.values()]
        overall = None if None in values else max(values)
    used = set()
    for t in tiles:
        res = sorted(t.cells)
        check(len(res) == 1, 'tile {} has surfaces at {}', t.name, res)
        used.add(res[0])
        w, follows, limited = want[t.name]
        target = overall if cfg['kind'] == 'sr' else w
        if target is None:
            ctx.event('tie')
        else:
            check(res[0] == target, 'tile {} of {} m with {} soundings is gridded at {}, the density estimate gives {}{}', t.name, t.max_x - t.min_x,
                  obs.arr(t.data).size, res[0], target, '' if follows or cfg['kind'] == 'sr' else ' (by depth)')
        if follows and not limited:
            ctx.nontrivial = True
            ctx.event('estimate {}'.format(w))
        elif not follows:
            ctx.event('by depth, 75 % or less occupied')
        else:
            ctx.event('limited by the tile')
        if t.max_x - t.min_x > 16:
            ctx.event('several density cells')
        obs.check_leaf(t, cfg, cfg['alg'])
    check(grid.resolutions == sorted(used), 'resolutions are {}, tiles use {}', grid.resolutions, sorted(used))
    if len(used) > 1:
        ctx.event('several resolutions')
    # asked for with cells of another size, with another allowance for noise
    few = len(tiles) <= (40 if cfg['storage'] == 'mem' else 10) and p.model.n <= 3000
    for start in case['start'] if few else []:
        each = []
        for t in tiles:
            for noise in (0.75, case['noise']):
                w = estimate(obs.arr(t.data), t.min_x, t.min_y, t.max_x - t.min_x, start, noise)[0]
                got = t.resolution_by_density(start) if noise == 0.75 else t.resolution_by_density(start, noise)
                check(w is None or got == w, 'tile {} has the resolution {} by cells of {} m and noise {}, expected {}', t.name, got, start, noise, w)
                each.append(w if noise == 0.75 else 0)
        if None not in each:
            got = grid.resolution_by_density(start)
            check(got == max(each), 'the resolution by cells of {} m is {}, the tiles have {}', start, got, sorted(set(each)))
            ctx.event('cells of another size')
