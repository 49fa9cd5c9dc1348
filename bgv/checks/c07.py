"""A grid with an output folder is complete on disk after every operation."""
import json
import os

from hypothesis import strategies as st

from bgv import gen, obs
from bgv.play import Player, load
from bgv.runner import check

EXAMPLES = {'quick': 260, 'thorough': 5000}
RULE = ('random histories on a grid with an output folder; after every operation the folder is loaded and must equal the object in memory in soundings, sources, '
        'layers, change flags and metadata, and the files are those of the tiles that exist; at random points the process "stops" and goes on from the folder, '
        'and every state must equal that of a grid in memory that never stopped. Non-trivial: at least three operations with a removal or gridding.')
ASSUMPTIONS = ['stops happen between operations, not inside one']
SKIP = ('container_timestamp', 'name', 'storage_type')


@st.composite
def cases(draw, tier):
    cfg = gen.configs(draw, storages=('numpy', 'zarr'), bs=True, tiles=(4, 8, 16), max_cells=32, nanu=6)
    ops = [gen.add_op(draw, cfg, 16, {'span': 2.0, 'bulk': 60}, True)]
    if draw(st.integers(0, 2)):
        ops.append(gen.add_op(draw, cfg, 12, {'span': 2.0, 'bulk': 40}, True))
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(['grid', 'rm', 'grid', 'add', 'stop', 'rm', 'save', 'add']))
        if k == 'add':
            ops.append(gen.add_op(draw, cfg, 12, {'span': 2.0, 'bulk': 40}, True))
        elif k == 'rm':
            ops.append(['rm', draw(st.integers(0, 5))])
        elif k == 'grid':
            g = gen.grid_op(draw, cfg)
            leaf = cfg['sub'] if cfg['kind'] == 'vr' else cfg['tile']
            r2 = cfg['res'] * 2
            if r2 <= leaf and draw(st.integers(0, 3)) == 3:
                g['res'] = r2
            ops.append(['grid', g])
        else:
            ops.append([k])
    return {'cfg': cfg, 'ops': ops}


def strategy(tier):
    return cases(tier)


def run_case(case, ctx):
    cfg = case['cfg']
    p = Player(cfg, ctx)
    twin = Player(cfg, ctx, storage='mem')
    done = []
    for i, op in enumerate(case['ops']):
        if op[0] == 'stop':
            p.reload()
            done.append('stop')
            continue
        if op[0] == 'save':
            p.grid.save(progress_bar=False)
            done.append('save')
        elif p.play(op) is None:
            continue
        else:
            twin.play(op)
            done.append(op[0])
        what = 'after operation {} ({})'.format(i, op[0])
        live = obs.snapshot(p.grid)
        obs.diff(obs.snapshot(twin.grid), live, what + ', never stopped against this one', tol=obs.ztol(cfg), skip=SKIP)
        obs.diff(live, obs.snapshot(load(p.folder)), what + ', memory against folder')
        folders(p, what)
        obs.check_points(p.grid, p.model)
    for d in set(done):
        ctx.event('op ' + d)
    ctx.event('{} {}'.format(cfg['kind'], cfg['storage']))
    if not p.model.n:
        ctx.event('ends empty')
    ctx.nontrivial = len(done) > 2 and ('rm' in done or 'grid' in done)


def folders(p, what):
    """nothing of a tile that is gone is left behind"""
    root = os.path.join(p.folder, p.grid.name)
    check(os.path.isdir(root), '{}: no folder {}', what, root)
    with open(os.path.join(root, 'metadata.json')) as f:
        meta = json.load(f)
    check(sorted(meta['container']) == sorted(p.model.sources), '{}: metadata file has sources {}', what, sorted(meta['container']))
    if p.grid.sub_type != 'srtile':
        return
    have = {d for d in os.listdir(root) if os.path.isdir(os.path.join(root, d)) and os.path.exists(os.path.join(root, d, 'metadata.json'))}
    n = sum(1 for t in obs.leaves(p.grid))
    check(len(have) == n, '{}: folders of tiles {}, {} tiles', what, sorted(have), n)
