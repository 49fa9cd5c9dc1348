"""A saved grid loads back as the same grid."""
import os
import shutil

from hypothesis import strategies as st

from bgv import gen, obs
from bgv.play import Player, load
from bgv.runner import check

EXAMPLES = {'quick': 360, 'thorough': 7000}
RULE = ('random histories on grids in memory and on disk, saved to a new folder, which is loaded in place, copied or moved; original, loaded grid, the folder '
        'saved from and a grid that was never saved are compared (soundings, layers, flags, metadata), play the same further operations, are compared again, and '
        'the loaded grid is saved and loaded once more. Non-trivial: gridded before saving and operations after loading.')
ASSUMPTIONS = ['a grid that has had at least one addition, the target folder is new or empty']


@st.composite
def cases(draw, tier):
    disk = draw(st.integers(0, 3)) == 0
    cfg = gen.configs(draw, storages=('numpy', 'zarr') if disk else ('mem', 'memz'), bs=True, tiles=(4, 8, 16), max_cells=32, nanu=6)
    ops = gen.history(draw, cfg, ['add', 'grid', 'rm', 'grid', 'add'], max_ops=2 if disk else 3, max_points=16, batch_kw={'span': 2.0, 'bulk': 60}, meta=True, grid_ops=spec)
    if draw(st.integers(0, 2)):
        ops.insert(1, ['grid', spec(draw, cfg)])
    post = gen.history(draw, cfg, ['add', 'rm', 'grid', 'grid'], max_ops=3, max_points=12, first_add=False, batch_kw={'span': 2.0, 'bulk': 40}, meta=True, grid_ops=spec)
    return {'cfg': cfg, 'ops': ops, 'post': post, 'how': draw(st.sampled_from(['inplace', 'copy', 'move'])),
            'again': draw(st.booleans()), 'empty': draw(st.booleans()), 'nopath': draw(st.booleans())}


def spec(draw, cfg):
    leaf = cfg['sub'] if cfg['kind'] == 'vr' else cfg['tile']
    options = [r for r in (1.0, 2.0, 4.0) if r <= leaf and cfg['tile'] / r <= 32 and r != cfg['res']]
    return {'opt': draw(st.sampled_from(['full', 'update'])), 'clear': draw(st.integers(0, 4)) == 4,
            'res': draw(st.sampled_from([cfg['res']] * 3 + options[:1]))}


def strategy(tier):
    return cases(tier)


SKIP_TWIN = ('container_timestamp', 'name', 'storage_type')


def run_case(case, ctx):
    cfg = case['cfg']
    a = Player(cfg, ctx)
    twin = Player(cfg, ctx, storage='mem')
    for op in case['ops']:
        a.play(op)
        twin.play(op)
    old_folder = a.folder
    if not old_folder:
        try:
            a.grid.save(progress_bar=False)
        except ValueError:
            pass
        else:   # only fine when it was saved somewhere
            check(a.grid.output_folder and os.path.isdir(a.grid.output_folder), 'save without a folder of a grid that has none saved nothing, and said nothing')
    before = obs.snapshot(a.grid)
    folder = ctx.newdir(make=case['empty'])
    a.grid.save(folder, progress_bar=False)
    check(os.path.realpath(a.grid.output_folder) == os.path.realpath(folder), 'saved to {} instead of {}', a.grid.output_folder, folder)
    a.folder = folder
    after = obs.snapshot(a.grid, files=folder)
    obs.diff(before, {k: after[k] for k in ('tiles', 'meta')}, 'saving changed the grid')
    if old_folder:
        obs.diff(before, obs.snapshot(load(old_folder)), 'folder saved from')
    if case['nopath']:
        a.grid.save(progress_bar=False)
        obs.diff(before, obs.snapshot(a.grid), 'saving again changed the grid')
    where = folder
    if case['how'] == 'copy':
        where = ctx.newdir()
        shutil.copytree(folder, where)
    elif case['how'] == 'move':
        where = ctx.newdir()
        shutil.move(folder, where)
    b = Player(cfg, ctx, storage='mem')
    b.grid = load(where)
    b.folder = where
    b.model, b.gridded, b.adds = twin_copy(twin)
    obs.diff(before, obs.snapshot(b.grid), 'loaded grid')
    files = obs.file_listing(where)
    load(where)
    obs.diff_files(files, obs.file_listing(where), 'loading: ')
    check(os.path.realpath(b.grid.output_folder) == os.path.realpath(where), 'output folder of the loaded grid is {}', b.grid.output_folder)
    players = [('loaded grid', b)]
    if case['how'] == 'copy':
        players.append(('saved grid', a))
    done = 0
    for op in case['post']:
        if twin.play(op) is None:
            continue
        done += 1
        for what, p in players:
            p.play(op)
    want = obs.snapshot(twin.grid)
    for what, p in players:
        obs.diff(want, obs.snapshot(p.grid), what + ' after the same operations', tol=obs.ztol(cfg), skip=SKIP_TWIN)
        obs.check_points(p.grid, p.model)
    if case['again']:
        again = ctx.newdir()
        s1 = obs.snapshot(b.grid)
        b.grid.save(again, progress_bar=False)
        obs.diff(s1, obs.snapshot(b.grid), 'second saving changed the grid')
        obs.diff(s1, obs.snapshot(load(again)), 'grid saved a second time')
        obs.diff(s1, obs.snapshot(load(where)), 'folder saved from the second time')
        ctx.event('saved again')
    ctx.event('{} {}'.format(cfg['kind'], cfg['storage']))
    ctx.event(case['how'])
    if twin.model.n == 0:
        ctx.event('empty at the end')
    if not before['meta']['no_grid']:
        ctx.event('gridded before saving')
    if before['meta']['changed']:
        ctx.event('pending changes when saved')
    ctx.nontrivial = not before['meta']['no_grid'] and done > 0


def twin_copy(twin):
    """the loaded player plays as a copy of the twin at this point"""
    import copy
    m = copy.deepcopy(twin.model)
    return m, (dict(twin.gridded) if twin.gridded else None), twin.adds
