"""Mean gridding returns the average of exactly the soundings in each cell."""
from hypothesis import strategies as st

from bgv import gen, model, obs
from bgv.play import Player
from bgv.runner import check

ALG = 'mean'
EXAMPLES = {'quick': 1200, 'thorough': 20000}
RULE = ('random soundings (cell and tile edges, duplicates, up to hundreds per cell, negative, zero and large coordinates) over random adds, removals and '
        'regrids; tile layers and returned layers are compared cell by cell with a reference computed from the definition. '
        'Non-trivial: some cell holds at least two different soundings and there is more than one occupied cell.')
ASSUMPTIONS = ['resolution is a power of two not larger than the (sub)tile', 'values below 1e5']


@st.composite
def cases(draw, tier, alg):
    disk = draw(st.integers(0, 15)) == 7
    cfg = gen.configs(draw, storages=('numpy', 'zarr') if disk else ('mem', 'memz'), algs=(alg,), bs=True, big=40, nanu=6)
    kinds = ['add', 'add', 'rm', 'grid', 'grid'] + (['reload'] if disk else [])
    ops = gen.history(draw, cfg, kinds, max_ops=2 if disk else 5, max_points=50, batch_kw={'dense': 80})
    leaf = cfg['sub'] if cfg['kind'] == 'vr' else cfg['tile']
    extra = draw(st.sampled_from([None, None, 1.0, 2.0, 0.5, 4.0]))
    if extra is not None and (extra > leaf or cfg['tile'] / extra > 64):
        extra = None
    return {'cfg': cfg, 'ops': ops, 'extra': extra, 'opt': draw(st.sampled_from(['full', 'update']))}


def strategy(tier):
    return cases(tier, ALG)


def judge(p, res, alg, ctx, what):
    ref = model.surface(p.model.all(), res, alg)
    obs.cmp_surface(obs.leaf_surface(p.grid, res), ref, p.cfg, alg, p.zkey, what + ' tiles: ')
    obs.cmp_surface(obs.full_surface(p.grid, res, p.cfg, p.zkey), ref, p.cfg, alg, p.zkey, what + ' layer: ')
    return ref


def run_case(case, ctx, alg=ALG):
    p = Player(case['cfg'], ctx)
    judged = 0
    for op in case['ops']:
        kind = p.play(op)
        if kind == 'grid':
            judge(p, p.cfg['res'], alg, ctx, 'history')
            judged += 1
            ctx.event('judged in history')
    if not p.model.n:
        return
    out = p.regrid(res=p.cfg['res'], opt=case['opt'] if p.gridded else 'full')
    check(list(out) == [p.cfg['res']], 'grid returned resolutions {} for {}', out, p.cfg['res'])
    ref = judge(p, p.cfg['res'], alg, ctx, 'final')
    if case['extra'] is not None and case['extra'] != p.cfg['res']:
        p.regrid(res=case['extra'], opt='full')
        judge(p, case['extra'], alg, ctx, 'second resolution')
        # the first resolution is still there
        judge(p, p.cfg['res'], alg, ctx, 'first resolution kept')
        ctx.event('two resolutions')
    vals = p.model.all()
    multi = [c for c in ref.values() if c.n > 1]
    if multi:
        ctx.event('cell with several soundings')
    if any(c.n >= 20 for c in multi):
        ctx.event('cell with 20 soundings or more')
    if p.removes:
        ctx.event('with removals')
    if float(vals['z'].min()) < 0:
        ctx.event('negative values')
    ctx.event('fields ' + (p.cfg['fields'] or 'none'))
    ctx.event(p.cfg['kind'] + ' ' + p.cfg['storage'])
    ctx.nontrivial = bool(multi) and len(ref) > 1
