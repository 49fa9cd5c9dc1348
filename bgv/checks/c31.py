"""Update gridding touches the tiles whose soundings changed and no others."""
import os

import numpy as np
from hypothesis import strategies as st

from bgv import gen, obs
from bgv.play import Player
from bgv.runner import check

EXAMPLES = {'quick': 600, 'thorough': 10000}
RULE = ('random histories of additions, removals, reloads and griddings at random resolutions (fixed or automatic); before each gridding the change flags are compared with '
        'the tiles that gained or lost soundings, after an update the changed tiles must have exactly one surface, that of their soundings at the new resolution, and all '
        'others must be equal in memory and on disk to what they were. Non-trivial: an update with changed and unchanged tiles.')
ASSUMPTIONS = ['gridding in this process (parallel gridding: C10)', 'a tile that lost all its soundings is gone and flags nothing']


@st.composite
def cases(draw, tier):
    disk = draw(st.integers(0, 2)) == 2
    cfg = gen.configs(draw, storages=('numpy', 'zarr') if disk else ('mem', 'memz'), tiles=(2, 4, 8, 16), max_cells=32, bs=True, nanu=6)
    leaf = cfg['sub'] if cfg['kind'] == 'vr' else cfg['tile']
    options = [r for r in (0.25, 0.5, 1.0, 2.0, 4.0, 8.0, 16.0) if r <= leaf and cfg['tile'] / r <= 32]
    kw = {'span': 3.0, 'bulk': 60}
    ops = [gen.add_op(draw, cfg, 15, kw), ['grid', first(draw, cfg, options)]]
    for _ in range(draw(st.integers(1, 4))):
        for _ in range(draw(st.sampled_from([1, 1, 2, 0]))):
            k = draw(st.sampled_from(['add', 'add', 'rm', 'undo']))
            ops.append(gen.add_op(draw, cfg, 6, dict(kw, span=1.0)) if k != 'rm' else ['rm', draw(st.integers(0, 5))])
            if k == 'undo':
                ops.append(['undo'])
        if draw(st.integers(0, 3)) == 3:
            ops.append([draw(st.sampled_from(['reload', 'saveload']))])
        g = first(draw, cfg, options)
        if draw(st.integers(0, 4)):
            g['opt'], g['clear'] = 'update', draw(st.integers(0, 9)) == 9
        ops.append(['grid', g])
        if draw(st.integers(0, 4)) == 4:
            ops.append(['reload'])
    return {'cfg': cfg, 'ops': ops}


def first(draw, cfg, options):
    g = {'opt': 'full', 'clear': draw(st.integers(0, 4)) == 4, 'res': draw(st.sampled_from(options))}
    if cfg['kind'] == 'vr' and cfg['sub'] <= 16 and draw(st.integers(0, 4)) == 4:
        g['res'] = None
        g['mode'] = draw(st.sampled_from(['depth', 'density']))
    return g


def strategy(tier):
    return cases(tier)


def placed(grid, prefix=''):
    """(tile, folder below the root) of all leaf tiles"""
    if grid.tiles is None:
        return
    for t in grid.tiles.flat:
        if t is None:
            continue
        if hasattr(t, 'tiles'):
            yield from placed(t, os.path.join(prefix, t.name))
        else:
            yield t, os.path.join(prefix, t.name)


def touched(p, rec, changed):
    """tiles that soundings fall in"""
    leaf = p.cfg['sub'] if p.cfg['kind'] == 'vr' else p.cfg['tile']
    for x, y in zip(np.floor(rec['x'] / leaf).tolist(), np.floor(rec['y'] / leaf).tolist()):
        changed.add((x * leaf, y * leaf))


def flags(p, changed, what):
    leaf = {(t.min_x, t.min_y): bool(t.point_count_changed) for t in obs.leaves(p.grid)}
    wrong = [(k, v) for k, v in leaf.items() if v != (k in changed)]
    check(not wrong, '{}: tiles and their change flags {}, changed are {}', what, wrong[:4], sorted(changed)[:6])
    want = any(leaf.values())
    check(bool(p.grid.point_count_changed) == want, '{}: the grid says that changes are {}, they are {}', what, bool(p.grid.point_count_changed), want)
    if p.cfg['kind'] == 'vr' and p.grid.tiles is not None:
        for t in p.grid.tiles.flat:
            if t is not None:
                mine = any(bool(s.point_count_changed) for s in obs.leaves(t))
                check(bool(t.point_count_changed) == mine, '{}: subgrid {} says that changes are {}, they are {}', what, t.name, bool(t.point_count_changed), mine)


def run_case(case, ctx):
    cfg = case['cfg']
    p = Player(cfg, ctx)
    changed = set()
    last = None
    for op in case['ops']:
        kind = op[0]
        if kind == 'add':
            name = p.new_name(op[1])
            if name is None:
                continue
            p.play(op)
            touched(p, p.model.sources[name], changed)
            last = name
        elif kind == 'rm' or kind == 'undo':
            if not p.model.sources:
                continue
            name = list(p.model.sources)[op[1] % len(p.model.sources)] if kind == 'rm' else (last if last in p.model.sources else None)
            if name is None:
                continue
            rec = p.model.sources[name]
            p.remove(name)
            touched(p, rec, changed)
            # gone tiles are no longer pending
            have = {(t.min_x, t.min_y) for t in obs.leaves(p.grid)}
            changed &= have
        elif kind == 'grid':
            if not p.model.n:
                continue
            gridding(p, op[1], changed, ctx)
            changed = set()
        else:
            p.play(op)
        flags(p, changed, 'after {}'.format(kind))


def gridding(p, g, changed, ctx):
    cfg = p.cfg
    opt = g['opt'] if p.gridded else 'full'
    clear = bool(g['clear'])
    before = obs.snapshot(p.grid)
    root = os.path.join(p.folder, p.grid.name) if p.folder else None
    files = obs.file_listing(root) if root else None
    where = {(t.min_x, t.min_y): d for t, d in placed(p.grid)}
    p.regrid(res=g['res'], mode=g.get('mode', 'depth'), opt=opt, clear=clear)
    after = obs.snapshot(p.grid)
    obs.diff_points(before, after, 'gridding ({})'.format(opt))
    for t in obs.leaves(p.grid):
        obs.check_leaf(t, cfg, p.gridded['alg'], p.zkey, 'after {} gridding: '.format(opt)) if len(t.cells) == 1 and ((t.min_x, t.min_y) in changed or clear) else None
    if clear:
        for k, t in after['tiles'].items():
            check(len(t['cells']) == 1 and (g['res'] is None or list(t['cells']) == [g['res']]), 'tile {} has surfaces at {} after clearing', k, sorted(t['cells']))
        ctx.event('cleared')
        return
    if opt != 'update':
        if g['res'] is not None:
            for k, t in after['tiles'].items():
                check(g['res'] in t['cells'], 'tile {} has surfaces at {}, gridded at {}', k, sorted(t['cells']), g['res'])
        return
    what = 'update gridding at {}'.format(g['res'] or g.get('mode'))
    same = [k for k in after['tiles'] if k not in changed]
    keep = {'tiles': {k: before['tiles'][k] for k in same}, 'meta': {}}
    kept = {'tiles': {k: after['tiles'][k] for k in same}, 'meta': {}}
    obs.diff(keep, kept, what)
    for k in changed:
        cells = after['tiles'][k]['cells']
        check(len(cells) == 1, '{}: changed tile {} has surfaces at {}', what, k, sorted(cells))
        check(g['res'] is None or list(cells) == [g['res']], '{}: changed tile {} has its surface at {}', what, k, sorted(cells))
    if root:
        now = obs.file_listing(root)
        for k in same:
            d = where[k] + os.sep
            obs.diff_files({f: v for f, v in files.items() if f.startswith(d)}, {f: v for f, v in now.items() if f.startswith(d)}, '{}, tile that did not change: '.format(what))
        ctx.event('on disk')
    want = sorted({r for t in after['tiles'].values() for r in t['cells']})
    missing = [r for t in after['tiles'].values() for r in t['cells'] if len(t['cells']) == 1 and r not in list(p.grid.resolutions)]
    check(not missing, '{}: tiles have their surface at {}, the grid says {}', what, missing, p.grid.resolutions)
    if changed and same:
        ctx.nontrivial = True
        ctx.event('changed and unchanged tiles')
    elif not changed:
        ctx.event('nothing changed')
    if p.model.n and g['res'] is not None and any(r != g['res'] for r in want):
        ctx.event('other resolution than before')
