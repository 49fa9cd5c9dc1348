"""CUBE gridding gives CUBE the right soundings and keeps what it answers."""
import math
import sys
import types

import numpy as np
from hypothesis import strategies as st

from bgv import gen, model, obs
from bgv.cluster import settle
from bgv.play import Player
from bgv.runner import check


def cube(depth, thu, tvu, x, y, numcols, numrows, min_x, max_y, method='local', iho_order='order1a', res_x=1.0, res_y=1.0, variance_selection='cube', **other):
    """stand-in for the CUBE library, which is not installed here: an estimate per node from the soundings around it, row 0 in the north.

    The estimates depend on every sounding near the node and on every argument, so that a wrong argument shows in the result.
    """
    depth, thu, tvu, x, y = [np.asarray(v, dtype='f8').ravel() for v in (depth, thu, tvu, x, y)]
    if not (depth.size == thu.size == tvu.size == x.size == y.size):
        raise ValueError('cube stand-in: {} depths, {} and {} uncertainties, {} and {} coordinates'.format(depth.size, thu.size, tvu.size, x.size, y.size))
    shape = (int(numrows), int(numcols))
    d, u, ratio = [np.full(shape, np.nan) for _ in range(3)]
    n = np.zeros(shape, dtype=int)
    lift = {'local': 0.0, 'prior': 0.25, 'posterior': 0.5, 'predict': 0.75}[method]
    wide = {'order1a': 0.0, 'special': 0.125, 'exclusive': 0.375}[iho_order] + {'cube': 0.0, 'input': 0.0625, 'max': 0.5}[variance_selection]
    reach = 5 * res_x if method == 'posterior' else 0.75 * res_x + 0.25
    for r in range(shape[0]):
        cy = max_y - (r + 0.5) * res_y
        row = np.abs(y - cy) <= reach
        if not row.any():
            continue
        for c in range(shape[1]):
            cx = min_x + (c + 0.5) * res_x
            i = row & (np.abs(x - cx) <= reach)
            k = int(i.sum())
            if k:
                d[r, c] = math.fsum(depth[i].tolist()) / k + lift
                u[r, c] = math.fsum(tvu[i].tolist()) / k + 2 * math.fsum(thu[i].tolist()) / k + wide
                ratio[r, c] = k / (k + 3.0)
                n[r, c] = 1 + k % 5
    return d, u, ratio, n


_package, _module = types.ModuleType('bathycube'), types.ModuleType('bathycube.numba_cube')
_module.run_cube_gridding = cube
_package.numba_cube = _module
_package.__path__ = []
sys.modules['bathycube'], sys.modules['bathycube.numba_cube'] = _package, _module

EXAMPLES = {'quick': 480, 'thorough': 9000}
RULE = ('random histories of additions, removals, CUBE griddings (full and update, fixed and automatic resolution, all or some or none of the parameters, in sequence and with '
        'use_dask) and reloads, with a stand-in for the CUBE library whose answer depends on every sounding near the node and on every argument; all layers of all tiles are '
        'compared with the answer of the stand-in for the soundings of the tile and of the strips of the tiles around, at the last gridding of the tile; layers returned, layers of '
        'single sources and reloaded grids are compared too. Non-trivial: several tiles and a sounding in a strip of a neighbour.')
ASSUMPTIONS = ['the CUBE library itself is replaced by a stand-in with the same call', 'soundings have both uncertainties', 'an update regrids the tiles whose own soundings changed']
LAYERS = ['depth', 'density', 'hypothesis_count', 'total_uncertainty', 'hypothesis_ratio']
_cluster = {}


def teardown(ctx):
    if _cluster:
        _cluster['k'].close(timeout=10)
        _cluster['c'].close(timeout=10)
        _cluster.clear()


def client(ctx):
    if not _cluster:
        import dask
        from dask.distributed import Client, LocalCluster
        dask.config.set({'distributed.comm.timeouts.connect': '60s', 'temporary-directory': ctx.scratch})
        _cluster['c'] = LocalCluster(n_workers=1, threads_per_worker=1, processes=False, dashboard_address=None, memory_limit=0, local_directory=ctx.scratch, silence_logs=50)
        _cluster['k'] = Client(_cluster['c'])
        dask.config.set(scheduler='synchronous')
    settle(_cluster['c'])
    return _cluster['k']


@st.composite
def cases(draw, tier):
    disk = draw(st.integers(0, 3)) == 3
    dask = draw(st.integers(0, 4)) == 4
    fine = {'tiles': (16, 32), 'res': (0.25, 0.5), 'max_cells': 64} if draw(st.integers(0, 1 if dask else 7)) == 1 else {'tiles': (4, 8, 16, 32), 'max_cells': 16}
    cfg = gen.configs(draw, storages=('numpy', 'zarr') if disk else ('mem', 'memz'), fields=('th',), algs=('cube',), **fine)
    if cfg['kind'] == 'vr' and not disk and draw(st.integers(0, 5)) == 5:   # subtiles smaller than the strip around a tile
        cfg['tile'], cfg['sub'] = draw(st.sampled_from([(64, 4), (32, 2), (64, 8), (128, 8)]))
        cfg['res'] = min(cfg['res'], cfg['sub'] / 2, 2.0)
    kw = {'span': 2.0, 'bulk': 150}
    ops = [gen.add_op(draw, cfg, 30, kw)]
    if draw(st.integers(0, 5)) == 5:   # hundreds of soundings in a tile
        u = int(cfg['tile'] * 8)
        ops.append(['add', draw(st.integers(0, 5)), [['blk', draw(st.integers(0, 10 ** 6)), draw(st.sampled_from([300, 700])), 0, 0, u * draw(st.sampled_from([1, 2])), u, draw(st.integers(20, 200)), 60]]])
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(['grid', 'grid', 'add', 'rm'] + (['reload'] if disk else [])))
        ops.append(['grid', spec(draw, cfg)] if k == 'grid' else gen.add_op(draw, cfg, 15, kw) if k == 'add' else ['rm', draw(st.integers(0, 3))] if k == 'rm' else [k])
    ops.append(['grid', spec(draw, cfg)])
    return {'cfg': cfg, 'ops': ops, 'reload': draw(st.booleans()), 'source': draw(st.integers(0, 3)), 'dask': dask}


def spec(draw, cfg):
    g = gen.grid_op(draw, cfg)
    par = {}
    if draw(st.booleans()):
        par['method'] = draw(st.sampled_from(['local', 'prior', 'posterior', 'posterior', 'predict']))
    if draw(st.booleans()):
        par['iho_order'] = draw(st.sampled_from(['order1a', 'special', 'exclusive']))
    if draw(st.booleans()):
        par['variance_selection'] = draw(st.sampled_from(['cube', 'input', 'max']))
    g['par'] = par or None
    g['auto'] = cfg['kind'] == 'vr' and cfg['sub'] <= 8 and draw(st.integers(0, 3)) == 3
    return g


def strategy(tier):
    return cases(tier)


def strips(points, ix, iy, size, buf):
    """of these soundings those in the tiles that share an edge with this tile, within buf of the edge"""
    x, y = points['x'], points['y']
    cx, cy = np.floor(x / size).astype(int), np.floor(y / size).astype(int)
    lo_x, lo_y = ix * size, iy * size
    hi_x, hi_y = lo_x + size, lo_y + size
    return points[((cx == ix + 1) & (cy == iy) & (x <= hi_x + buf)) | ((cx == ix - 1) & (cy == iy) & (x >= lo_x - buf))
                  | ((cy == iy + 1) & (cx == ix) & (y <= hi_y + buf)) | ((cy == iy - 1) & (cx == ix) & (y >= lo_y - buf))]


def inside(points, t):
    return points[(points['x'] >= t.min_x) & (points['x'] < t.max_x) & (points['y'] >= t.min_y) & (points['y'] < t.max_y)]


def given(points, cfg, t):
    """(soundings of the tile, soundings around it that CUBE gets)"""
    own = inside(points, t)
    size = cfg['tile']
    if cfg['kind'] == 'sr':
        return own, strips(points, round(t.min_x / size), round(t.min_y / size), size, size / 10)
    ix, iy = math.floor(t.min_x / size), math.floor(t.min_y / size)
    outer = strips(points, ix, iy, size, size / 10)
    parent = points[(np.floor(points['x'] / size) == ix) & (np.floor(points['y'] / size) == iy)]
    sub = cfg['sub']
    return own, np.concatenate([strips(parent, round(t.min_x / sub), round(t.min_y / sub), sub, sub / 10), outer])


def answer(own, around, t, res, par):
    """the layers of this tile"""
    par = par or {}
    pts = np.concatenate([own, around])
    n = int(round((t.max_x - t.min_x) / res))
    d, u, ratio, count = cube(pts['z'], pts['thu'], pts['tvu'], pts['x'], pts['y'], n, n, t.min_x, t.max_y, par.get('method', 'local'), par.get('iho_order', 'order1a'),
                              res, res, par.get('variance_selection', 'cube'))
    density = np.zeros((n, n), dtype=int)
    for x, y in zip(own['x'].tolist(), own['y'].tolist()):
        density[math.floor((y - t.min_y) / res), math.floor((x - t.min_x) / res)] += 1
    return {'depth': d[::-1], 'total_uncertainty': u[::-1], 'hypothesis_ratio': ratio[::-1], 'hypothesis_count': count[::-1], 'density': density}


def close(got, want, what):
    got = obs.arr(got)
    check(got.shape == want.shape, '{} has the shape {}, expected {}', what, got.shape, want.shape)
    if want.dtype.kind != 'f':
        check(np.array_equal(got, want), '{} is not what CUBE answers: {} cells differ', what, int((got != want).sum()))
        return
    check(np.array_equal(np.isnan(got), np.isnan(want)), '{} has values in other cells than CUBE answers: {} and {}', what, int((~np.isnan(got)).sum()), int((~np.isnan(want)).sum()))
    diff = np.abs(got.astype('f8') - want)
    bad = diff > 0.00051 + 1e-6 * np.abs(want)
    check(not bad.any(), '{} is not what CUBE answers: {} cells differ, by {}', what, int(bad.sum()), float(np.nanmax(diff)))
    with np.errstate(all='ignore'):
        off = np.abs(got - np.round(got.astype('f8'), 3)) > 2e-7 * np.maximum(1, np.abs(got))
    check(not off.any(), '{} is not rounded to the millimeter', what)


def compare(grid, state, what):
    seen = set()
    for t in obs.leaves(grid):
        key = (float(t.min_x), float(t.min_y))
        if not t.cells and key not in state:
            continue
        check(key in state, '{}: tile at {} has a surface, it was not gridded', what, key)
        seen.add(key)
        res, want = state[key]
        check(list(t.cells) == [res], '{}: tile at {} has the resolutions {}, expected {}', what, key, list(t.cells), res)
        check(set(t.cells[res]) == set(LAYERS), '{}: tile at {} has the layers {}', what, key, sorted(t.cells[res]))
        for lyr in LAYERS:
            close(t.cells[res][lyr], want[lyr], '{}: layer {} of the tile at {}'.format(what, lyr, key))
    check(seen == set(state), '{}: no surface for the tiles {}', what, sorted(set(state) - seen))


def per_tile(p, cfg):
    size = cfg['tile'] if cfg['kind'] == 'sr' else cfg['sub']
    if not p.model.n:
        return {}
    pts = p.model.all()
    cx, cy = np.floor(pts['x'] / size) * size, np.floor(pts['y'] / size) * size
    return {k: obs.rec_key(pts[(cx == k[0]) & (cy == k[1])]) for k in set(zip(cx.tolist(), cy.tolist()))}


def as_before(t, old):
    res, want = old
    return list(t.cells) == [res] and all(np.allclose(obs.arr(t.cells[res][lyr]), want[lyr], atol=0.00051, rtol=1e-6, equal_nan=True) for lyr in LAYERS)


def run_case(case, ctx):
    cfg = case['cfg']
    p = Player(cfg, ctx)
    state = {}     # tile origin: (resolution, layers) at its last gridding
    held = {}      # tile origin: its soundings at its last gridding
    pars = {}
    touched = set()   # tiles with soundings added or removed since the last gridding
    strip = False
    for i, op in enumerate(case['ops']):
        if op[0] != 'grid':
            before = per_tile(p, cfg)
            kind = p.play(op)
            after = per_tile(p, cfg)
            touched |= {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
            if kind == 'rm' and not p.model.n:
                state, held, pars = {}, {}, {}
            continue
        if not p.model.n:
            continue
        g = op[1]
        auto = g['auto']
        if auto and float(p.model.all()['z'].min()) < 12:
            auto = False
        opt = g['opt'] if p.gridded else 'full'
        # a gridding at another resolution without clearing keeps the layers of the one before by design
        clear = g['clear'] or auto or bool(p.gridded and p.gridded['res'] is None)
        kw = {'grid_parameters': g['par']} if g['par'] else {}
        if case['dask']:
            client(ctx)   # the default client of this process, which the grid finds
            kw['use_dask'] = True
            ctx.event('use_dask')
        p.regrid(None if auto else cfg['res'], 'depth', opt, clear, 'cube', **kw)
        what = 'after operation {}'.format(i)
        pts = p.model.all()
        now = {}
        for t in obs.leaves(p.grid):
            key = (float(t.min_x), float(t.min_y))
            own, around = given(pts, cfg, t)
            mine = obs.rec_key(own)
            same = opt == 'update' and not clear and key in state and held[key] == mine
            if same and (key not in touched or as_before(t, state[key])):
                now[key] = state[key]   # soundings that came and went again may or may not make it grid the tile again
                continue
            if around.size:
                strip = True
            res = [float(r) for r in t.cells][0] if auto and t.cells else cfg['res']
            now[key] = (res, answer(own, around, t, res, g['par']))
            held[key] = mine
            pars[key] = g['par']
        state = now
        touched = set()
        compare(p.grid, state, what)
        ctx.event('{} {}'.format(opt, 'automatic' if auto else 'fixed'))
    if not p.model.n or p.dirty:
        return
    if case['reload'] and p.reload():
        compare(p.grid, state, 'reloaded')
        ctx.event('reloaded')
    grid = p.grid
    for res in {v[0] for v in state.values()}:
        got = grid.get_layers_by_name(LAYERS, res)
        h, w = int((grid.max_y - grid.min_y) / res), int((grid.max_x - grid.min_x) / res)
        for lyr, a in zip(LAYERS, got):
            whole = np.zeros((h, w), dtype=int) if lyr in ('density', 'hypothesis_count') else np.full((h, w), np.nan)
            for (x, y), (r, want) in state.items():
                if r == res:
                    k = want[lyr].shape[0]
                    whole[int((y - grid.min_y) / res):int((y - grid.min_y) / res) + k, int((x - grid.min_x) / res):int((x - grid.min_x) / res) + k] = want[lyr]
            close(a, whole, 'layer {} at {}'.format(lyr, res))
    values = sorted(grid.return_layer_values('total_uncertainty').tolist())
    want = sorted(v for _, s in state.values() for v in s['total_uncertainty'][~np.isnan(s['total_uncertainty'])].tolist())
    check(len(values) == len(want) and np.allclose(values, want, atol=0.00051, rtol=1e-6), 'return_layer_values(total_uncertainty) gives {} values, the surface has {}', len(values), len(want))
    if len({v[0] for v in state.values()}) == 1:
        name = list(p.model.sources)[case['source'] % len(p.model.sources)]
        source(grid, p, state, pars, name)
    ctx.event('{} {}'.format(cfg['kind'], cfg['storage']))
    ctx.nontrivial = strip and len(state) > 1


def source(grid, p, state, pars, name):
    """the layer of a source is what CUBE answers for its soundings alone"""
    res = next(iter(state.values()))[0]
    whole = np.full((int((grid.max_y - grid.min_y) / res), int((grid.max_x - grid.min_x) / res)), np.nan)
    rec = p.model.sources[name]
    for t in obs.leaves(grid):
        own = inside(rec, t)
        if own.size:
            a = answer(own, own[:0], t, res, pars[(float(t.min_x), float(t.min_y))])['depth']
            r, c = int((t.min_y - grid.min_y) / res), int((t.min_x - grid.min_x) / res)
            whole[r:r + a.shape[0], c:c + a.shape[1]] = a
    got = grid.get_layers_by_name(name, res)
    close(got[0], whole, 'layer of the source {} at {}'.format(name, res))
