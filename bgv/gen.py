"""Generators: grid configurations, batches of soundings, histories of operations."""
from hypothesis import strategies as st

BASES = [[0, 0], [0, 0], [-24.0, -40.0], [500000.0, 5400000.0], [-3.5, 7.25], [1000.125, -2000.5], [-500000.0, 640.0], [64.0, -64.0], [300000.0, 9800000.0]]
NAMES = ['a', 'b', 'c', 'em_1__ln1', 'em_1__ln2', 'x', 'x_0', 'line 7', 'em_1_0', 'a__b__c', '0007_20200101_abc', 'z_1__l']
VREFS = ['waterline', 'MLLW', 'NOAA MLLW']
EPSG = 26910


def configs(draw, kinds=('sr', 'vr'), storages=('mem',), tiles=(4, 8, 16, 32), res=None, fields=('', 't', 'h', 'th'), algs=('mean', 'shoalest'),
            zs=('e', 'f'), zdts=('f8', 'f4'), bases=None, bs=False, max_cells=64, min_res=0.25, big=0, nanu=0):
    kind = draw(st.sampled_from(kinds))
    storage = draw(st.sampled_from(storages))
    disk = storage in ('numpy', 'zarr')   # every array of a tile is a file operation there: fewer tiles
    tile = draw(st.sampled_from(tiles))
    sub = tile
    if kind == 'vr':
        subs = [s for s in (2, 4, 8, 16, 32) if s <= tile and tile / s <= (4 if disk else 8)]
        sub = draw(st.sampled_from(subs[::-1]))
    leaf = sub if kind == 'vr' else tile
    large = big and not disk and draw(st.integers(0, big - 1)) == big - 1
    if large:   # tiles of 65536 cells and more
        tile, sub = draw(st.sampled_from([(256, 256), (512, 256), (512, 512)] if kind == 'vr' else [(256, 256), (512, 512), (512, 512)]))
        leaf, max_cells, min_res = sub, 512, 1.0
    options = [r for r in (1.0, 2.0, 4.0, 0.5, 8.0, 0.25, 16.0, 32.0) if r <= leaf and r >= min_res and tile / r <= max_cells]
    if large:
        options = [1.0]
    if res is not None:
        options = [r for r in options if r in res] or options
    r = draw(st.sampled_from(options))
    cfg = {
        'kind': kind, 'storage': storage, 'tile': tile, 'sub': sub, 'res': r,
        'alg': draw(st.sampled_from(algs)), 'fields': draw(st.sampled_from(fields)), 'zs': draw(st.sampled_from(zs)),
        'zdt': draw(st.sampled_from(zdts)), 'base': list(draw(st.sampled_from(bases or BASES))),
        'bs': draw(st.booleans()) if bs else False, 'bar': draw(st.integers(0, 5)) == 5,
        # largest number of bytes of one chunk of an array (grids on disk are read chunk by chunk); 0 is the default of dask
        'chunk': draw(st.sampled_from([0, 0, 0, 256, 1000])) if disk else 0,
    }
    if nanu and cfg['fields'] and draw(st.integers(0, nanu - 1)) == nanu - 1:
        cfg['nanu'] = True      # soundings without an uncertainty
    return cfg


Z_REGIMES = [(0, 255), (-120, 255), (0, 1), (-1000, 100), (3000, 2000), (70, 20), (-4, 8), (8 * 600, 8 * 60)]


def batch(draw, cfg, max_points=40, span=3.0, edges=True, blocks=True, zreg=None, bulk=400, dense=0):
    """a list of points of one source (see model.decode)"""
    mode = draw(st.integers(0, 9))
    if dense and draw(st.integers(0, dense - 1)) == dense - 1:
        # far more soundings than an ordinary cell has
        n = draw(st.sampled_from([300, 1000, 33000, 66000]))
        if cfg.get('chunk'):
            n = min(n, 1000)      # hundreds of chunks are slow
        return [['blk', draw(st.integers(0, 10 ** 6)), n, draw(st.integers(-20, 20)), draw(st.integers(-20, 20)), 1, draw(st.sampled_from([1, 8])), draw(st.integers(-50, 200)), 60]]
    tile_u = int(cfg['tile'] * 8)
    if cfg['tile'] >= 256 and draw(st.integers(0, 2)):
        # a line of soundings: many cells of one column or row of a large tile
        n, along = draw(st.sampled_from([500, 2500])), tile_u * draw(st.sampled_from([1, 2]))
        w, h = (8, along) if draw(st.booleans()) else (along, 8)
        return [['blk', draw(st.integers(0, 10 ** 6)), n, draw(st.integers(-1, 0)) * tile_u, draw(st.integers(-1, 0)) * tile_u, w, h, draw(st.integers(-50, 200)), 60]]
    zlo, zn = draw(st.sampled_from(zreg or Z_REGIMES))
    if cfg['storage'] in ('numpy', 'zarr'):
        span = min(span, 2.0)
        max_points = min(max_points, 24)
    span_u = int(tile_u * span)
    # where this batch starts and how far it spreads, in 1/8 m
    ox = draw(st.integers(-4, 3)) * tile_u // 2
    oy = draw(st.integers(-4, 3)) * tile_u // 2
    shift = draw(st.sampled_from([0, 2, 1, 3, 4, 5, 6]))
    step = max(1, span_u // 256)
    pts = []
    if blocks and mode >= 8:
        n = draw(st.integers(20, bulk))
        pts.append(['blk', draw(st.integers(0, 10 ** 6)), n, ox, oy, max(1, span_u >> shift), max(1, span_u >> draw(st.integers(0, 3))), zlo, max(1, zn)])
        if draw(st.booleans()):
            return pts
    n = draw(st.integers(1, max_points))
    raw = draw(st.binary(min_size=5 * n, max_size=5 * n))
    for i in range(0, len(raw), 5):
        bx, by, f, z0, z1 = raw[i:i + 5]
        ux = ox + ((bx * step) >> shift)
        uy = oy + ((by * step) >> shift)
        z = zlo + ((z0 * 256 + z1) % (zn + 1))
        if not edges:
            f &= 32
        elif mode < 3:
            f = 0 if mode == 0 else f & 48
        else:
            f &= 63
        pts.append([ux, uy, z, f])
    return pts


def history(draw, cfg, kinds, max_ops=7, first_add=True, max_points=30, batch_kw=None, grid_ops=None, meta=False):
    """list of operations: add, rm, grid, reload, saveload

    names and removals are given by number and resolved when the history is played, so that every history is valid
    """
    ops = []
    if first_add:
        ops.append(add_op(draw, cfg, max_points, batch_kw, meta))
    for _ in range(draw(st.integers(0, max_ops))):
        kind = draw(st.sampled_from(kinds))
        if kind == 'add':
            ops.append(add_op(draw, cfg, max_points, batch_kw, meta))
        elif kind == 'rm':
            ops.append(['rm', draw(st.integers(0, 5))])
        elif kind == 'grid':
            ops.append(['grid', (grid_ops or grid_op)(draw, cfg)])
        else:
            ops.append([kind])
    if 'rm' in kinds and draw(st.integers(0, 9)) == 9:
        # everything goes, and the grid starts again
        ops += [add_op(draw, cfg, min(max_points, 15), batch_kw, meta)] * (draw(st.integers(0, 2)) > 0)
        ops += [['rm', 0]] * sum(op[0] == 'add' for op in ops)
        first = add_op(draw, cfg, min(max_points, 15), batch_kw, meta)
        if draw(st.booleans()):   # over a larger area than before
            u = int(cfg['tile'] * 8)
            first[2].append([u * draw(st.integers(-7, 7)), u * draw(st.integers(4, 7)), 40, 0])
        ops.append(first)
        if draw(st.booleans()):
            ops.append(add_op(draw, cfg, min(max_points, 15), batch_kw, meta))
        ops += [['rm', draw(st.integers(0, 1))]] * (draw(st.integers(0, 2)) > 0)
    return ops


def add_op(draw, cfg, max_points=30, batch_kw=None, meta=False):
    op = ['add', draw(st.integers(0, len(NAMES) - 1)), batch(draw, cfg, max_points, **(batch_kw or {}))]
    if meta:
        op.append(add_meta(draw))
    return op


def add_meta(draw):
    """files and times that come with a source"""
    kw = {}
    f = draw(st.integers(0, 3))
    if f:
        kw['file_list'] = ['line{}.all'.format(draw(st.integers(0, 9))) for _ in range(f)]
    if draw(st.booleans()):
        t = draw(st.integers(1, 2 * 10 ** 9))
        kw['min_time'] = t if draw(st.booleans()) else t + 0.75
        kw['max_time'] = t + draw(st.integers(0, 10 ** 6)) + 1
    return kw


PARAMETERS = [{'method': 'local'}, {'method': 'posterior', 'iho_order': 'order1a'}, {'variance_selection': 'cube'}, {'a': 1.5, 'b': 2}, {}]


def grid_op(draw, cfg):
    out = {'opt': draw(st.sampled_from(['full', 'update'])), 'clear': draw(st.booleans())}
    if draw(st.integers(0, 3)) == 3:
        # settings of the gridding method: mean and shoalest take none, the grid remembers them
        out['par'] = draw(st.sampled_from(PARAMETERS))
    return out
