"""Statistics agree with the surface."""
import numpy as np
from hypothesis import strategies as st

from bgv import gen, model, obs, scene
from bgv.play import make_grid
from bgv.runner import check

EXAMPLES = {'quick': 900, 'thorough': 16000}
RULE = ('random gridded scenes; every statistic is compared with the one counted from the reference surface of the soundings in each tile, in a third of the cases again after a source was added or removed and the grid gridded; in half of the cases slopes or the layer of a source are asked for first. Non-trivial: more than two '
        'cells, one of them with several soundings.')
ASSUMPTIONS = ['lists are compared without regard to order, pairs as pairs', 'depth pairings are asked of depth grids']


@st.composite
def cases(draw, tier):
    case = scene.scenes(draw, nanu=True, bs=True, dense=60)
    case['again'] = None
    case['before'] = draw(st.sampled_from([None, None, 'slopes', 'source']))
    if draw(st.integers(0, 2)) == 2:
        cfg = case['cfg']
        op = draw(st.sampled_from(['add', 'add', 'rm']))
        op = gen.add_op(draw, cfg, 15, {'dense': 60}) if op == 'add' else ['rm', draw(st.integers(0, 2))]
        case['again'] = [op, draw(st.sampled_from(['full', 'update']))]
    return case


def strategy(tier):
    return cases(tier)


def same_list(got, want, what):
    got, want = sorted(got), sorted(want)
    check(got == want, '{}: {} values {}..., expected {} {}...', what, len(got), got[:5], len(want), want[:5])


def run_case(case, ctx):
    nothing(make_grid(case['cfg'], '', 'mem'), 'a new grid')
    p = scene.build(case, ctx)
    if not p.model.n:
        return
    dens = compare(p, case, ctx)
    ctx.nontrivial = ctx.nontrivial and max(dens) > 1
    if case['again'] is not None:
        # the statistics are those of the surface as it is now, whatever was asked before
        op, opt = case['again']
        p.play(op)
        if not p.model.n:
            nothing(p.grid, 'a grid after everything was removed')
            ctx.event('everything was removed')
            return
        if case['mode'] == 'auto':
            p.regrid(res=None, mode='depth', opt=opt, clear=True)
        else:
            p.regrid(res=case['cfg']['res'], opt=opt, clear=case['second'] is not None)
        compare(p, case, ctx)
        ctx.event('asked again after {} and gridding'.format(op[0]))


def nothing(grid, what):
    """the statistics of a grid without soundings"""
    for k, want in [('cell_count', {}), ('density_count', []), ('density_per_square_meter', []), ('coverage_area_square_meters', 0), ('coverage_area_square_nm', 0),
                    ('density_count_vs_depth', ([], [])), ('density_per_square_meter_vs_depth', ([], [])), ('points_count', 0), ('no_grid', True), ('is_empty', True),
                    ('has_vertical_uncertainty', False), ('has_horizontal_uncertainty', False), ('has_tiles', False), ('point_count_changed', False)]:
        got = getattr(grid, k)
        got = tuple(got) if isinstance(want, tuple) else got
        check(got == want, '{} of {} is {}, expected {}', k, what, got, want)
    check(len(grid.return_layer_values('depth')) == 0 and list(grid.layer_names) == [] and list(grid.return_unique_containers()) == [], '{} has values, layers or sources', what)


def compare(p, case, ctx):
    grid, cfg = p.grid, p.cfg
    surf = scene.surfaces(grid)
    n = scene.stats(ctx, surf)
    ref = {}       # the surfaces from the soundings
    for t in obs.leaves(grid):
        for res in t.cells:
            ref.setdefault(res, {}).update(model.surface(obs.arr(t.data), res, cfg['alg']))
    # other questions that were asked before do not change the answers
    if case['before'] and len(grid.resolutions) < 3 and grid.width * grid.height / min(surf) ** 2 < 1e6:
        for res in surf:
            if case['before'] == 'slopes':
                grid.get_layers_by_name(['x_slope', 'y_slope'], res)
            else:
                grid.get_layers_by_name(next(iter(p.model.sources)), res)
        ctx.event('after asking for ' + case['before'])
    # counts come from the soundings
    count = grid.cell_count
    check({float(k): int(v) for k, v in count.items()} == {k: len(v) for k, v in ref.items()}, 'cell_count is {}, expected {}', count, {k: len(v) for k, v in ref.items()})
    area = sum(len(v) * k ** 2 for k, v in ref.items())
    tiles = grid.number_of_tiles
    check(abs(grid.coverage_area_square_meters - area) <= 0.0006 * (n + tiles), 'coverage_area_square_meters is {}, expected {}', grid.coverage_area_square_meters, area)
    nm = area / 1852.0 ** 2
    check(abs(grid.coverage_area_square_nm - nm) <= 0.002 * nm + 0.0006 * (n + tiles) / 1852.0 ** 2, 'coverage_area_square_nm is {}, expected {}', grid.coverage_area_square_nm, nm)
    dens = [c.n for v in ref.values() for c in v.values()]
    same_list(grid.density_count, dens, 'density_count')
    per = [c.n / k ** 2 for k, v in ref.items() for c in v.values()]
    same_list(grid.density_per_square_meter, per, 'density_per_square_meter')
    if len(surf) == 1:
        check(sum(grid.density_count) == grid.points_count == p.model.n, 'soundings per cell add up to {}, {} soundings', sum(grid.density_count), p.model.n)
        ctx.event('one resolution')
    # values come from the layers, which other checks compare with the soundings
    if not cfg['bs']:
        pairs = [(surf[r]['density'][k], surf[r]['depth'][k]) for r in surf for k in surf[r]['density']]
        a, b = grid.density_count_vs_depth
        same_list(list(zip(a, b)), pairs, 'density_count_vs_depth')
        pairs = [(surf[r]['density'][k] / r ** 2, surf[r]['depth'][k]) for r in surf for k in surf[r]['density']]
        a, b = grid.density_per_square_meter_vs_depth
        same_list(list(zip(a, b)), pairs, 'density_per_square_meter_vs_depth')
    for lyr in next(iter(surf.values())):
        want = [v for s in surf.values() for v in s[lyr].values()]
        got = grid.return_layer_values(lyr)
        check(isinstance(got, np.ndarray), 'return_layer_values gives {}', type(got))
        same_list(got.tolist(), want, 'return_layer_values({})'.format(lyr))
    # tiles and sub grids give the statistics of their own part
    for t in grid.tiles.flat:
        if t is not None:
            part = [c.n for res in {r for x in (obs.leaves(t) if hasattr(t, 'tiles') else [t]) for r in x.cells}
                    for x in (obs.leaves(t) if hasattr(t, 'tiles') else [t]) if res in x.cells for c in model.surface(obs.arr(x.data), res, cfg['alg']).values()]
            same_list(t.density_count, part, 'density_count of the tile {}'.format(t.name))
            check(sum(t.cell_count.values()) == len(part), 'cell_count of the tile {} is {}, expected {}', t.name, t.cell_count, len(part))
            break
    check(bool(grid.has_vertical_uncertainty) == ('t' in cfg['fields']), 'has_vertical_uncertainty is {}', grid.has_vertical_uncertainty)
    check(bool(grid.has_horizontal_uncertainty) == ('h' in cfg['fields']), 'has_horizontal_uncertainty is {}', grid.has_horizontal_uncertainty)
    check(bool(grid.has_tiles) == (cfg['kind'] == 'sr') and not grid.no_grid, 'has_tiles {} no_grid {}', grid.has_tiles, grid.no_grid)
    return dens
