"""Every added sounding is kept exactly once, in its tile, under its source."""
from hypothesis import strategies as st

from bgv import gen, obs
from bgv.play import Player

EXAMPLES = {'quick': 1000, 'thorough': 20000}
RULE = ('random histories (adds in any direction, removals, re-adds, gridding, reload, save elsewhere) on random grid type/backend/tile sizes/fields; '
        'after every operation all soundings are compared with a multiset model. Non-trivial: at least two adds and a removal, reload or save.')
ASSUMPTIONS = ['finite coordinates, the same fields in all sources of a grid, distinct source names']


@st.composite
def cases(draw, tier):
    disk = draw(st.integers(0, 3)) == 0
    cfg = gen.configs(draw, storages=('numpy', 'zarr') if disk else ('mem', 'memz'), nanu=6)
    kinds = ['add', 'add', 'add', 'rm', 'rm', 'grid'] + (['reload', 'saveload'] if disk else ['add', 'add', 'rm'] + (['saveload'] if draw(st.integers(0, 5)) == 0 else []))
    return {'cfg': cfg, 'ops': gen.history(draw, cfg, kinds, max_ops=6 if disk else 9)}


def strategy(tier):
    return cases(tier)


def run_case(case, ctx):
    p = Player(case['cfg'], ctx)
    obs.check_points(p.grid, p.model)
    done = []
    neg = False
    for op in case['ops']:
        if p.grid.min_x is not None and not p.grid.is_empty:
            before = (p.grid.min_x, p.grid.min_y)
        else:
            before = None
        kind = p.play(op)
        if kind is None:
            continue
        done.append(kind)
        obs.check_points(p.grid, p.model)
        if kind == 'add' and before and (p.grid.min_x < before[0] or p.grid.min_y < before[1]):
            neg = True
    if neg:
        ctx.event('grown to the west or south')
    if p.model.n == 0:
        ctx.event('ends empty')
    for k in set(done):
        ctx.event('op ' + k)
    if 'rm' in done and 'add' in done[done.index('rm'):]:
        ctx.event('add after remove')
    ctx.event(case['cfg']['kind'] + ' ' + case['cfg']['storage'])
    ctx.nontrivial = done.count('add') > 1 and any(k in done for k in ('rm', 'reload', 'saveload'))
