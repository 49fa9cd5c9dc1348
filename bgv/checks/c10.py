"""Parallel gridding equals sequential gridding."""
import os

from hypothesis import strategies as st

from bgv import boot, gen, obs
from bgv.cluster import settle
from bgv.play import Player, load
from bgv.runner import check

SHARDS = 4
EXAMPLES = {'quick': 160, 'thorough': 4000}
RULE = ('the same random history (additions, removals, griddings full and update, with and without clearing, fixed and automatic resolution, reloads) is played twice, '
        'gridding in sequence and with use_dask on a local cluster of 1 to 4 worker processes; returned resolutions, soundings, layers, change flags, metadata and what '
        'the folders load as are compared after every gridding. Non-trivial: more tiles than workers, or a number of tiles that is no multiple of it, and several griddings.')
ASSUMPTIONS = ['worker processes on the local machine']
WORKERS = [2, 3, 1, 4]
SKIP = ('container_timestamp',)
_cluster = {}


def _contain(scratch):
    import sys
    from bgv import boot as b
    b.contain(scratch)
    import bathygrid
    import dask
    dask.config.set(scheduler='synchronous')
    return os.path.dirname(os.path.realpath(bathygrid.__file__))


def setup(ctx, tier, shard):
    import dask
    from dask.distributed import Client, LocalCluster
    dask.config.set({'distributed.comm.timeouts.connect': '60s', 'distributed.worker.daemon': True, 'temporary-directory': ctx.scratch})
    n = WORKERS[shard % len(WORKERS)]
    _cluster['c'] = LocalCluster(n_workers=n, threads_per_worker=1, processes=True, dashboard_address=None, memory_limit=0, local_directory=ctx.scratch,
                                 silence_logs=50)
    _cluster['k'] = Client(_cluster['c'])
    _cluster['n'] = n
    dask.config.set(scheduler='synchronous')   # gridding goes to the workers, reading of files stays here
    _cluster['k'].wait_for_workers(n)
    where = _cluster['k'].run(_contain, os.path.dirname(ctx.scratch))
    want = os.path.join(os.path.realpath(boot.REPO), 'bathygrid')
    if any(w != want for w in where.values()):
        raise boot.HarnessError('workers use {}'.format(where))


def teardown(ctx):
    if _cluster:
        _cluster['k'].close(timeout=10)
        _cluster['c'].close(timeout=10)
        _cluster.clear()


@st.composite
def cases(draw, tier):
    cfg = gen.configs(draw, storages=('mem', 'mem', 'numpy', 'zarr'), bs=True, tiles=(4, 8, 16), max_cells=16, nanu=6)
    cfg['chunk'] = 0   # of this process only, the workers would write chunks of other sizes
    kw = {'span': 3.0, 'bulk': 60}
    ops = [gen.add_op(draw, cfg, 25, kw)]
    if draw(st.booleans()):
        ops.append(gen.add_op(draw, cfg, 20, kw))
    for _ in range(draw(st.integers(1, 3))):
        ops.append(['grid', gridspec(draw, cfg)])
        k = draw(st.sampled_from(['add', 'rm', 'reload', 'none', 'add']))
        if k == 'add':
            ops.append(gen.add_op(draw, cfg, 12, kw))
        elif k != 'none':
            ops.append(['rm', draw(st.integers(0, 5))] if k == 'rm' else [k])
    ops.append(['grid', gridspec(draw, cfg)])
    return {'cfg': cfg, 'ops': ops, 'first': draw(st.booleans())}


def gridspec(draw, cfg):
    g = gen.grid_op(draw, cfg)
    k = draw(st.integers(0, 5))
    leaf = cfg['sub'] if cfg['kind'] == 'vr' else cfg['tile']
    if k == 5 or (k == 4 and cfg['kind'] == 'vr'):
        g.update({'res': None, 'mode': draw(st.sampled_from(['depth', 'density']))})
    elif k == 3 and cfg['res'] * 2 <= leaf:
        g['res'] = cfg['res'] * 2
    return g


def strategy(tier):
    return cases(tier)


def run_case(case, ctx):
    cfg = case['cfg']
    a, b = Player(cfg, ctx), Player(cfg, ctx)
    griddings = 0
    most = 0
    odd = False
    for i, op in enumerate(case['ops']):
        if op[0] == 'grid':
            if not a.model.n:
                continue
            g = op[1]
            opt = g['opt'] if a.gridded else 'full'
            kw = {'res': g.get('res', cfg['res']), 'mode': g.get('mode', 'depth'), 'opt': opt, 'clear': g['clear']}
            ra = a.regrid(**kw)
            # the second may grid now and then in sequence too, both must be able to continue from the other
            dask = not (griddings == 0 and case['first'] and len(case['ops']) > 3)
            if dask:
                settle(_cluster['c'])
            rb = b.regrid(use_dask=dask, **kw)
            griddings += 1
            what = 'after operation {} {}'.format(i, kw)
            check(obs.norm(ra) == obs.norm(rb), '{}: resolutions returned are {} and {}', what, ra, rb)
            sa, sb = obs.snapshot(a.grid), obs.snapshot(b.grid)
            obs.diff(sa, sb, what, skip=SKIP)
            if a.folder:
                obs.diff(sb, obs.snapshot(load(b.folder)), what + ', loaded from the folder')
                fa = {k: v for k, v in obs.file_listing(a.folder).items() if 'metadata' not in k}
                fb = {k: v for k, v in obs.file_listing(b.folder).items() if 'metadata' not in k}
                obs.diff_files(fa, fb, what + ' in the folder: ')
            if dask:
                n = a.grid.number_of_tiles
                most = max(most, n)
                w = _cluster['n']
                if n > w and n % w:
                    odd = True
                ctx.event('fewer tiles than workers' if n < w else 'as many tiles as workers' if n == w else 'more tiles than workers')
                ctx.event('{} {}'.format(opt, 'auto' if kw['res'] is None else 'fixed'))
        else:
            a.play(op)
            b.play(op)
    ctx.event('{} {}'.format(cfg['kind'], cfg['storage']))
    ctx.nontrivial = odd and griddings > 1
