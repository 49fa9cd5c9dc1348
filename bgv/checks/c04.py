"""Regridding after any history equals gridding the current soundings from scratch."""
from hypothesis import strategies as st

from bgv import gen, model, obs
from bgv.play import Player
from bgv.runner import check

EXAMPLES = {'quick': 1000, 'thorough': 16000}
RULE = ('random histories of adds, removals and griddings (method, fixed or automatic resolution, full or update, with or without clearing), reloads; every '
        'gridding after a change is compared with a new in-memory grid built from the soundings held then, and with the reference surface. '
        'Non-trivial: soundings changed between two griddings.')
ASSUMPTIONS = ['the method is only switched with clear_existing, automatic full regrids clear, update regrids keep the settings of the griddings before '
               '(otherwise layers of other settings are kept by design)']


@st.composite
def cases(draw, tier):
    disk = draw(st.integers(0, 9)) == 9
    cfg = gen.configs(draw, storages=('numpy', 'zarr') if disk else ('mem', 'memz'), bs=True, big=60, nanu=6)
    ops = [gen.add_op(draw, cfg, 30)]
    for _ in range(draw(st.integers(2, 4 if disk else 8))):
        k = draw(st.sampled_from(['grid', 'grid', 'add', 'rm', 'add'] + (['reload'] if disk else ['grid'])))
        if k == 'grid':
            ops.append(['grid', spec(draw, cfg)])
        elif k == 'add':
            ops.append(gen.add_op(draw, cfg, 20))
        elif k == 'rm':
            ops.append(['rm', draw(st.integers(0, 5))])
        else:
            ops.append([k])
    ops.append(['grid', spec(draw, cfg)])
    return {'cfg': cfg, 'ops': ops}


def spec(draw, cfg):
    leaf = cfg['sub'] if cfg['kind'] == 'vr' else cfg['tile']
    options = [r for r in (1.0, 2.0, 0.5, 4.0) if r <= leaf and cfg['tile'] / r <= 64 and r != cfg['res']]
    res = draw(st.sampled_from([cfg['res']] * 4 + options[:2]))
    return {'alg': draw(st.sampled_from([cfg['alg']] * 3 + ['mean', 'shoalest'])), 'res': res,
            'auto': draw(st.sampled_from(['', '', '', 'depth', 'density'])),
            'opt': draw(st.sampled_from(['update', 'full'])), 'clear': draw(st.integers(0, 3)) == 3}


def strategy(tier):
    return cases(tier)


def run_case(case, ctx):
    cfg = case['cfg']
    p = Player(cfg, ctx)
    settings = set()   # of the griddings since the last clearing
    last = None
    changed_between = False
    for op in case['ops']:
        if op[0] != 'grid':
            kind = p.play(op)
            if kind in ('add', 'rm') and last:
                changed_between = True
            if kind == 'rm' and not p.model.n:
                settings = set()
            if kind:
                ctx.event('op ' + kind)
            continue
        if not p.model.n:
            continue
        g = op[1]
        auto = g['auto']
        if auto and cfg['zs'] != 'e':
            auto = ''
        leaf = cfg['sub'] if cfg['kind'] == 'vr' else cfg['tile']
        if auto and max(leaf, cfg['tile']) > 16 and len(p.model.all()) and float(p.model.all()['z'].min()) < 20:
            auto = 'depth' if auto == 'depth' and cfg['kind'] == 'vr' and cfg['sub'] <= 16 else ''
        res = None if auto else g['res']
        key = (g['alg'], res, auto)
        clear = g['clear']
        opt = g['opt']
        if last and last[0] != g['alg']:
            clear = True
        if auto:
            if cfg['kind'] == 'sr' and auto == 'depth' and model.near_band(float(p.model.all()['z'].astype('f8').mean()), 0.0006 * (p.adds + p.removes + 1)):
                continue
            if settings and (opt == 'full' or cfg['kind'] == 'sr'):
                clear = True
            if settings and any(s[1:] != key[1:] for s in settings):
                clear = True
        if opt == 'update' and not clear and settings and settings != {key}:
            opt = 'full'
        if opt == 'full' and not clear and any(s[2] for s in settings):
            clear = True
        if clear:
            settings = set()
        out = p.regrid(res=res, mode=auto or 'depth', opt=opt, clear=clear, alg=g['alg'])
        settings.add(key)
        last = key
        judge(p, cfg, key, opt, clear, settings, out, ctx)
        ctx.event('{}{} {}'.format(opt, ' clear' if clear else '', auto or 'fixed'))
        if changed_between:
            ctx.nontrivial = True
            ctx.event('changed between griddings')
    ctx.event(cfg['kind'] + ' ' + cfg['storage'])


def judge(p, cfg, key, opt, clear, settings, out, ctx):
    alg, res, auto = key
    fresh = Player(cfg, ctx, storage='mem')
    for nm, a in p.model.sources.items():
        fresh.grid.add_points(a.copy(), nm, crs=p.epsg, vertical_reference=p.vref, progress_bar=False)
    want = fresh.grid.grid(alg, res, auto_resolution_mode=auto or 'depth', progress_bar=False)
    what = '{} regrid {}'.format(opt, key)
    check([float(r) for r in out] == [float(r) for r in want], '{}: returned resolutions {}, a new grid has {}', what, out, want)
    check([float(r) for r in p.grid.resolutions] == [float(r) for r in fresh.grid.resolutions], '{}: resolutions are {}, of a new grid {}', what, p.grid.resolutions, fresh.grid.resolutions)
    a, b = obs.snapshot(p.grid), obs.snapshot(fresh.grid)
    if len(settings) > 1:   # other resolutions are kept by design
        for t in a['tiles'].values():
            t['cells'] = {r: c for r, c in t['cells'].items() if r == float(res)}
    obs.diff_cells(a, b, alg, obs.ztol(cfg), what)
    for t in obs.leaves(p.grid):
        for r in ([res] if res is not None else list(t.cells)):
            ref = model.surface(obs.arr(t.data), r, alg)
            obs.cmp_surface(obs.tile_surface(t, r), ref, cfg, alg, p.zkey, '{}: tile {} at {}: '.format(what, t.name, r))
    if res is not None:
        ref = model.surface(p.model.all(), res, alg)
        obs.cmp_surface(obs.full_surface(p.grid, res, cfg, p.zkey), ref, cfg, alg, p.zkey, what + ': layer: ')
    check(not p.grid.point_count_changed, '{}: changes are still pending', what)
