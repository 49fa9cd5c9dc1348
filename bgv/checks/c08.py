"""The storage backend does not change any result."""
from hypothesis import strategies as st

from bgv import gen, obs
from bgv.play import Player
from bgv.runner import check

EXAMPLES = {'quick': 220, 'thorough': 4500}
RULE = ('the same random history is played on the four combinations of memory or disk and numpy or zarr; soundings, surfaces, resolutions, flags, metadata, '
        'returned layers, statistics, lookups and source layers are compared. Non-trivial: gridded, with at least three operations.')
ASSUMPTIONS = ['class name, storage type and time stamps are the only differences that are meant']
SKIP = ('container_timestamp', 'name', 'storage_type')
KINDS = ('mem', 'memz', 'numpy', 'zarr')


@st.composite
def cases(draw, tier):
    cfg = gen.configs(draw, storages=('numpy',), bs=True, tiles=(4, 8, 16), max_cells=32, nanu=6)
    ops = [gen.add_op(draw, cfg, 16, {'span': 2.0, 'bulk': 80}, True)]
    if draw(st.booleans()):
        ops.append(gen.add_op(draw, cfg, 16, {'span': 2.0, 'bulk': 80}, True))
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.sampled_from(['grid', 'add', 'rm', 'reload', 'query', 'grid']))
        if k == 'add':
            ops.append(gen.add_op(draw, cfg, 12, {'span': 2.0, 'bulk': 40}, True))
        elif k == 'rm':
            ops.append(['rm', draw(st.integers(0, 5))])
        elif k == 'grid':
            ops.append(['grid', gridspec(draw, cfg)])
        else:
            ops.append([k])
    ops.append(['grid', gridspec(draw, cfg)])
    return {'cfg': cfg, 'ops': ops, 'pick': draw(st.integers(0, 5))}


def gridspec(draw, cfg):
    g = gen.grid_op(draw, cfg)
    if cfg['tile'] <= 8 and draw(st.integers(0, 3)) == 3:
        g.update({'res': None, 'mode': draw(st.sampled_from(['depth', 'density'])), 'clear': True})
    return g


def strategy(tier):
    return cases(tier)


def run_case(case, ctx):
    cfg = case['cfg']
    players = {k: Player(cfg, ctx, storage=k) for k in KINDS}
    done = []
    for op in case['ops']:
        for k, p in players.items():
            if op[0] == 'reload':
                p.reload()
                kind = 'reload'
            elif op[0] == 'query':
                kind = 'query'
                if not p.grid.no_grid and not p.grid.point_count_changed and p.grid.resolutions:
                    queries(p, case['pick'])
            else:
                kind = p.play(op)
        if kind:
            done.append(kind)
    base = obs.snapshot(players['mem'].grid)
    q = None
    if players['mem'].model.n:
        q = queries(players['mem'], case['pick'])
    for k in KINDS[1:]:
        obs.diff(base, obs.snapshot(players[k].grid), 'mem against ' + k, skip=SKIP)
        if q is not None:
            cmp_queries(q, queries(players[k], case['pick']), 'mem against ' + k)
    for d in set(done):
        ctx.event('op ' + d)
    ctx.event(cfg['kind'])
    ctx.nontrivial = len(done) > 2 and q is not None


def queries(p, pick):
    g = p.grid
    out = {}
    layers = [x for x in g.return_layer_names() if x in obs.LAYERS]
    out['names'] = sorted(layers)
    for r in g.resolutions:
        for lyr in layers:
            v = g.get_layers_by_name(lyr, r)
            out['layer', r, lyr] = None if v is None else v[0]
        nm = list(p.model.sources)[pick % len(p.model.sources)]
        v = g.get_layers_by_name(nm, r)
        out['source', r] = None if v is None else v[0]
    pts = p.model.all()[:20]
    out['at'] = g.layer_values_at_xy(pts['x'].astype('f8'), pts['y'].astype('f8'), p.zkey)
    out['count'] = {float(k): v for k, v in g.cell_count.items()}
    out['density'] = np_list(g.density_count)
    out['density m'] = np_list(g.density_per_square_meter)
    out['area'] = g.coverage_area_square_meters
    out['values'] = np_list(g.return_layer_values(p.zkey))
    t = next(obs.leaves(g))
    if p.cfg['kind'] == 'sr':
        v = g.get_tile_neighbor_points(t, p.cfg['tile'] / 4)
        out['neighbours'] = None if v is None else obs.rec_key(obs.arr(v))
    chunks = []
    for geo, dim, data in g.get_chunks_of_tiles(g.resolutions[0], p.zkey, override_maximum_chunk_dimension=p.cfg['tile'] * 2):
        chunks.append(([float(x) for x in geo], float(dim), obs.arr(data[p.zkey])))
    out['chunks'] = chunks
    return out


def np_list(v):
    return [float(x) for x in v]


def cmp_queries(a, b, what):
    check(a.keys() == b.keys(), '{}: {} and {}', what, sorted(map(str, a)), sorted(map(str, b)))
    for k in a:
        if k == 'chunks':
            ok = len(a[k]) == len(b[k]) and all(x[0] == y[0] and x[1] == y[1] and obs.same(x[2], y[2]) for x, y in zip(a[k], b[k]))
        elif isinstance(a[k], (list, dict, float, int)) or a[k] is None or b[k] is None:
            ok = a[k] is b[k] or a[k] == b[k]
        else:
            ok = obs.same(a[k], b[k])
        check(ok, '{}: {} differs', what, k)
