"""Neighbours of a tile and the soundings near the shared edges."""
import numpy as np
from hypothesis import strategies as st

from bgv import gen, obs
from bgv.play import Player
from bgv.runner import check

EXAMPLES = {'quick': 700, 'thorough': 12000}
RULE = ('random layouts of tiles (with holes, after removals, gridded or not, in memory, on disk, reloaded), every tile asked for its neighbours and for the neighbour '
        'soundings of random buffers (none, up to and beyond a tile), compared with a selection from all soundings by their coordinates. Non-trivial: a tile with a '
        'neighbour, and a buffer that takes some but not all soundings of it.')
ASSUMPTIONS = ['a sounding at exactly the buffer from the edge counts as within it', 'the order of the soundings is free']


@st.composite
def cases(draw, tier):
    storages = ('numpy', 'zarr') if draw(st.integers(0, 3)) == 3 else ('mem', 'memz')
    cfg = gen.configs(draw, storages=storages, tiles=(2, 4, 8, 16), bs=True)
    if cfg['kind'] == 'vr' and draw(st.integers(0, 7)) == 7:   # buffers of several subtiles
        cfg['tile'], cfg['sub'], cfg['res'] = draw(st.sampled_from([(64, 4, 1.0), (32, 2, 1.0), (128, 8, 2.0)]))
    ops = gen.history(draw, cfg, ['add', 'add', 'rm', 'reload', 'saveload', 'grid'], max_ops=5, batch_kw={'span': 4.0, 'bulk': 80})
    return {'cfg': cfg, 'ops': ops, 'buffers': draw(st.lists(st.sampled_from([0, 1, 2, 4, 8, 12, 16, 31, 40, 64, 200]), min_size=2, max_size=3, unique=True)),
            'reload': draw(st.booleans())}


def strategy(tier):
    return cases(tier)


def run_case(case, ctx):
    p = Player(case['cfg'], ctx)
    for op in case['ops']:
        p.play(op)
    if not p.model.n:
        return
    if case['reload'] and p.reload():
        ctx.event('reloaded')
    grid = p.grid
    size = grid.tile_size
    pts = p.model.all()
    cx, cy = np.floor(pts['x'] / size).astype(int), np.floor(pts['y'] / size).astype(int)
    at = {}
    for t in grid.tiles.flat:
        if t is not None:
            at[(int(round(t.min_x / size)), int(round(t.min_y / size)))] = t
    check(set(at) == set(zip(cx.tolist(), cy.tolist())), 'tiles at {}, soundings in {}', sorted(at), sorted(set(zip(cx.tolist(), cy.tolist()))))
    for (ix, iy), t in at.items():
        got = grid.get_tile_neighbors(t)
        check(isinstance(got, list) and len(got) == 4, 'neighbours of {}: {}', (ix, iy), got)
        want = [at.get(k) for k in ((ix + 1, iy), (ix - 1, iy), (ix, iy + 1), (ix, iy - 1))]
        check(sorted(id(n) for n in got if n is not None) == sorted(id(n) for n in want if n is not None), 'neighbours of the tile at {} are {}, expected {}', (ix, iy),
              [None if n is None else n.name for n in got], [None if n is None else n.name for n in want])
        check(got[1] is want[0] and got[3] is want[1], 'right and left neighbour of the tile at {} are {} and {}', (ix, iy), got[1], got[3])
        lo_x, lo_y = ix * size, iy * size
        hi_x, hi_y = lo_x + size, lo_y + size
        for b in case['buffers']:
            buf = b / 8
            x, y = pts['x'], pts['y']
            sel = ((cx == ix + 1) & (cy == iy) & (x <= hi_x + buf)) | ((cx == ix - 1) & (cy == iy) & (x >= lo_x - buf)) \
                | ((cy == iy + 1) & (cx == ix) & (y <= hi_y + buf)) | ((cy == iy - 1) & (cx == ix) & (y >= lo_y - buf))
            rec = grid.get_tile_neighbor_points(t, buf)
            n = int(sel.sum())
            if n == 0:
                check(rec is None, 'neighbour soundings of the tile at {} within {}: {} although there are none', (ix, iy), buf, rec)
                continue
            check(isinstance(rec, np.ndarray), 'neighbour soundings of the tile at {} within {} are {}, expected {}', (ix, iy), buf, type(rec), n)
            check(rec.dtype.names == pts.dtype.names, 'fields of the neighbour soundings are {}', rec.dtype.names)
            check(obs.rec_key(rec) == obs.rec_key(pts[sel]), 'neighbour soundings of the tile at {} within {}: {} returned, {} are near the shared edges', (ix, iy), buf, rec.size, n)
            near = ((abs(cx - ix) + abs(cy - iy)) == 1).sum()
            if n < near:
                ctx.nontrivial = True
            if len([w for w in want if w is not None]) < 4:
                ctx.event('with holes or at the border')
    ctx.event('{} {}'.format(p.cfg['kind'], p.cfg['storage']))
