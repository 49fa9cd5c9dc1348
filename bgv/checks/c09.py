"""Tile size, grid type and position do not change the surface."""
import numpy as np
from hypothesis import strategies as st

from bgv import gen, model, obs
from bgv.play import Player
from bgv.runner import check

EXAMPLES = {'quick': 900, 'thorough': 16000}
RULE = ('the same random sources gridded at one resolution on three tilings (single and variable resolution, all tile and subtile sizes), compared with each '
        'other and the reference; and moved by whole tiles (up to 2^20 m), where everything must move along. Non-trivial: soundings in several tiles of one of '
        'the tilings.')
ASSUMPTIONS = ['for the moved grid the coordinates are rounded to 2^-12 m so that moving is exact']


@st.composite
def cases(draw, tier):
    cfg = gen.configs(draw, kinds=('sr',), tiles=(2, 4, 4, 8, 8, 16, 32), max_cells=64)
    srcs = [gen.batch(draw, cfg, 40) for _ in range(draw(st.integers(1, 3)))]
    variants = []
    for _ in range(2):
        tile = draw(st.sampled_from([t for t in (0.5, 1, 2, 4, 8, 16, 32, 64, 128) if t >= cfg['res'] and cfg['tile'] / 8 <= t and t / cfg['res'] <= 128]))
        kind = draw(st.sampled_from(['vr', 'sr']))
        sub = draw(st.sampled_from([s for s in (0.25, 0.5, 1, 2, 4, 8, 16, 32) if cfg['res'] <= s <= tile and tile / s <= 8]))
        variants.append([kind, tile, sub])
    move = [draw(st.sampled_from([0, 1, -1, 3, -7, 1000, -4096, 16384])) for _ in range(2)]
    return {'cfg': cfg, 'sources': srcs, 'variants': variants, 'move': move, 'extra': draw(st.integers(0, 2)), 'regrid': draw(st.booleans())}


def strategy(tier):
    return cases(tier)


def make(cfg, arrays, ctx, case):
    p = Player(cfg, ctx)
    for i, a in enumerate(arrays):
        p.grid.add_points(a.copy(), gen.NAMES[i], crs=p.epsg, vertical_reference=p.vref, progress_bar=False)
        p.model.add(gen.NAMES[i], a)
        if case['regrid'] and i == 0:
            p.regrid(res=cfg['res'])
    p.regrid(res=cfg['res'], opt='update' if case['regrid'] else 'full')
    return p


def run_case(case, ctx):
    cfg = case['cfg']
    arrays = [model.decode(cfg, s) for s in case['sources']]
    res, alg = cfg['res'], cfg['alg']
    ref = model.surface(np.concatenate(arrays), res, alg)
    base = make(cfg, arrays, ctx, case)
    got = obs.full_surface(base.grid, res, cfg)
    obs.cmp_surface(got, ref, cfg, alg, what='{}: '.format(cfg['tile']))
    many = base.grid.number_of_tiles > 1
    for kind, tile, sub in case['variants']:
        c = dict(cfg, kind=kind, tile=tile, sub=sub if kind == 'vr' else tile)
        p = make(c, arrays, ctx, case)
        other = obs.full_surface(p.grid, res, c)
        what = '{} tile {} subtile {}'.format(kind, tile, sub)
        obs.cmp_surface(other, ref, c, alg, what=what + ': ')
        for lyr in ('depth', 'density'):
            check(got[lyr].keys() == other[lyr].keys(), '{}: cells of {} differ', what, lyr)
            tol = 0 if lyr == 'density' else obs.ztol(cfg)
            for k, v in got[lyr].items():
                check(abs(v - other[lyr][k]) <= tol + 5e-7 * abs(v) * (tol > 0), '{}: {} of cell {} is {}, on the other tiling {}', what, lyr, k, other[lyr][k], v)
        many = many or p.grid.number_of_tiles > 1
        ctx.event(kind)
        if tile < cfg['tile']:
            ctx.event('smaller tiles')
        # moved by whole tiles
        if kind == case['variants'][0][0]:
            moved(c, arrays, case, ctx)
    ctx.nontrivial = many


def moved(cfg, arrays, case, ctx):
    dx, dy = case['move'][0] * cfg['tile'], case['move'][1] * cfg['tile']
    if not dx and not dy:
        return
    one, two = [], []
    for a in arrays:
        a = a.copy()
        for f in ('x', 'y'):
            a[f] = np.floor(a[f] * 4096) / 4096
        b = a.copy()
        b['x'] += dx
        b['y'] += dy
        one.append(a)
        two.append(b)
    p, q = make(cfg, one, ctx, case), make(cfg, two, ctx, case)
    ctx.event('moved')
    what = 'moved by {}, {}'.format(dx, dy)
    sp, sq = obs.snapshot(p.grid), obs.snapshot(q.grid)
    shifted = {(k[0] + dx, k[1] + dy): v for k, v in sp['tiles'].items()}
    check(shifted.keys() == sq['tiles'].keys(), '{}: tiles {} and {}', what, sorted(shifted), sorted(sq['tiles']))
    for k, t in shifted.items():
        u = sq['tiles'][k]
        check(t['size'] == u['size'] and t['cells'].keys() == u['cells'].keys(), '{}: tile {} differs', what, k)
        for r in t['cells']:
            check(t['cells'][r].keys() == u['cells'][r].keys(), '{}: layers of tile {} differ', what, k)
            for lyr in t['cells'][r]:
                if cfg['alg'] == 'shoalest' and lyr.endswith('uncertainty'):
                    continue
                check(obs.close(t['cells'][r][lyr], u['cells'][r][lyr], 0 if lyr == 'density' else obs.ztol(cfg)), '{}: layer {} of tile {} differs', what, lyr, k)
    for k in ('epsg', 'resolutions', 'number_of_tiles', 'maximum_tiles', 'width', 'height', 'points_count', 'container', 'mean_depth', 'tile_size', 'layer_names'):
        check(sp['meta'][k] == sq['meta'][k], '{}: {} is {} and {}', what, k, sp['meta'][k], sq['meta'][k])
    for k, d in (('min_x', dx), ('max_x', dx), ('min_y', dy), ('max_y', dy)):
        check(sp['meta'][k] + d == sq['meta'][k], '{}: {} is {} and {}', what, k, sp['meta'][k], sq['meta'][k])
    for lyr in ('depth', 'density'):
        a, b = p.grid.get_layers_by_name(lyr, cfg['res']), q.grid.get_layers_by_name(lyr, cfg['res'])
        check(obs.close(a[0], b[0], 0 if lyr == 'density' else obs.ztol(cfg)), '{}: returned layer {} differs', what, lyr)
