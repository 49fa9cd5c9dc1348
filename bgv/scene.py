"""A scene: a grid with one to three sources that has been gridded (several resolutions, automatic resolution, late additions,
removals, reload), for the checks of what a gridded grid returns."""
from hypothesis import strategies as st

from bgv import gen, obs
from bgv.play import Player


def scenes(draw, storages=('mem',), disk_share=6, max_points=40, late=True, auto=True, multi=True, pending=False, dense=0, nanu=False, **cfg_kw):
    if disk_share and draw(st.integers(0, disk_share - 1)) == disk_share - 1:
        storages = ('numpy', 'zarr')
    cfg = gen.configs(draw, storages=storages, **cfg_kw)
    if nanu and draw(st.integers(0, 5)) == 5:
        cfg['nanu'] = True
    leaf = cfg['sub'] if cfg['kind'] == 'vr' else cfg['tile']
    zreg = [(0, 60 * 8), (40, 160 * 8), (-120, 255), (0, 255), (70, 20), (9 * 8, 16), (-255, 180)]
    if cfg['zs'] == 'f':
        zreg = [(0, 4000), (-100, 400), (500, 9000), (-3000, 2500)]
    adds = [gen.add_op(draw, cfg, max_points, {'zreg': zreg, 'dense': dense}) for _ in range(draw(st.sampled_from([1, 2, 2, 3])))]
    choices = ['fixed', 'fixed']
    if auto and cfg['kind'] == 'vr':
        choices += ['auto', 'auto']
    if multi:
        choices += ['two']
    mode = draw(st.sampled_from(choices))
    case = {'cfg': cfg, 'adds': adds, 'mode': mode, 'second': None, 'late': None, 'drop': None, 'reload': False}
    if mode == 'two':
        options = [r for r in (0.5, 1.0, 2.0, 4.0, 8.0) if r <= leaf and r != cfg['res'] and cfg['tile'] / r <= 64]
        if options:
            case['second'] = draw(st.sampled_from(options))
    if late and mode == 'fixed' and draw(st.integers(0, 3)) == 3:
        case['late'] = gen.add_op(draw, cfg, 15, {'zreg': zreg})
    if late and draw(st.integers(0, 4)) == 4:
        case['drop'] = draw(st.integers(0, 2))
    case['reload'] = draw(st.integers(0, 3)) == 3
    case['pending'] = None
    if pending and draw(st.integers(0, 5)) == 5:
        case['pending'] = gen.add_op(draw, cfg, 10, {'zreg': zreg, 'bulk': 40}) if draw(st.booleans()) else ['rm', draw(st.integers(0, 2))]
    return case


def build(case, ctx, **player_kw):
    """play the scene; the returned player has a gridded grid, with changes that are not gridded yet only when the case asks for them"""
    p = Player(case['cfg'], ctx, **player_kw)
    for op in case['adds']:
        p.play(op)

    def grid(opt='full'):
        if case['mode'] == 'auto':
            p.regrid(res=None, mode='depth', opt='full', clear=p.gridded is not None)
        else:
            p.regrid(res=case['cfg']['res'], opt=opt)
    grid()
    if case['drop'] is not None and len(p.model.sources) > 1:
        p.play(['rm', case['drop']])
        grid('update' if p.model.n % 2 else 'full')
        ctx.event('after a removal')
    if case['second'] is not None:
        p.regrid(res=case['second'])
    if case['late'] is not None:
        p.play(case['late'])
        grid('update' if p.model.n % 3 else 'full')
        ctx.event('after a late addition')
    if case.get('pending') and (case['pending'][0] == 'add' or len(p.model.sources) > 1) and p.play(case['pending']):
        ctx.event('changes not gridded')
    if case['reload'] and p.reload():
        ctx.event('reloaded')
    ctx.event('{} {}'.format(case['cfg']['kind'], case['cfg']['storage']))
    if case['cfg'].get('nanu'):
        ctx.event('soundings without uncertainty')
    if len(p.grid.resolutions) > 1:
        ctx.event('several resolutions')
    return p


def resolutions(grid):
    """all resolutions some tile has"""
    out = set()
    for t in obs.leaves(grid):
        out.update(t.cells.keys())
    return sorted(out)


def surfaces(grid):
    """{resolution: {layer: {(ix, iy): value}}} from the tiles"""
    return {r: obs.leaf_surface(grid, r) for r in resolutions(grid)}


def stats(ctx, surf):
    """a scene counts when there are at least two tiles' worth of different cells"""
    n = sum(len(next(iter(s.values()))) for s in surf.values()) if surf else 0
    ctx.nontrivial = n > 2
    return n

