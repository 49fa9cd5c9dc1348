"""The input container does not matter."""
import numpy as np
from hypothesis import strategies as st

from bgv import gen, model, obs
from bgv.play import Player
from bgv.runner import check

EXAMPLES = {'quick': 700, 'thorough': 12000}
RULE = ('random histories in which every addition is a numpy array (contiguous, a strided view, read-only, fields in another order than those before), a dask array with random chunks or an xarray data set (numpy or dask '
        'backed, variables in random order, with further variables and coordinates), uncertainties in single or double precision; the grid is compared with one that got plain numpy arrays; the caller\'s data is compared '
        'before and after and then overwritten. Non-trivial: an addition that is no plain array, and a gridding.')
ASSUMPTIONS = ['all sources have the same fields']
FORMS = ['dask', 'dask', 'xarray', 'xarray', 'xdask', 'view', 'readonly', 'numpy', 'reverse', 'fields', 'dfields']
SKIP = ('container_timestamp', 'name', 'storage_type')


@st.composite
def cases(draw, tier):
    disk = draw(st.integers(0, 4)) == 4
    cfg = gen.configs(draw, storages=('numpy', 'zarr') if disk else ('mem', 'memz'), bs=True, tiles=(4, 8, 16), max_cells=32, nanu=6)
    cfg['udt'] = draw(st.sampled_from(['f4', 'f8']))
    kw = {'span': 2.0, 'bulk': 60}
    ops = []
    for i in range(draw(st.integers(1, 4))):
        op = gen.add_op(draw, cfg, 20, kw, True)
        op.append({'form': draw(st.sampled_from(FORMS)), 'chunk': draw(st.integers(1, 9)), 'perm': draw(st.permutations(list(range(7)))), 'extra': draw(st.integers(0, 2)),
                   'spoil': draw(st.booleans())})
        ops.append(op)
        k = draw(st.sampled_from(['grid', 'none', 'rm', 'none']))
        if k == 'grid':
            ops.append(['grid', gen.grid_op(draw, cfg)])
        elif k == 'rm' and i:
            ops.append(['rm', draw(st.integers(0, 5))])
    ops.append(['grid', gen.grid_op(draw, cfg)])
    return {'cfg': cfg, 'ops': ops}


def strategy(tier):
    return cases(tier)


def pack(arr, f):
    """(data to hand over, arrays behind it)"""
    import dask.array as da
    import xarray as xr
    form = f['form']
    if form == 'numpy':
        a = arr.copy()
        return a, [a]
    if form == 'readonly':
        a = arr.copy()
        a.flags.writeable = False
        return a, [a]
    if form == 'view':
        big = np.zeros(arr.size * 2, dtype=arr.dtype)
        big[::2] = arr
        return big[::2], [big]
    if form == 'reverse':
        big = arr[::-1].copy()
        return big[::-1], [big]
    if form == 'dask':
        a = arr.copy()
        return da.from_array(a, chunks=(f['chunk'],)), [a]
    if form in ('fields', 'dfields'):
        names = [arr.dtype.names[i] for i in f['perm'] if i < len(arr.dtype.names)]
        a = np.zeros(arr.size, dtype=[(n, arr.dtype[n]) for n in names])
        for n in names:
            a[n] = arr[n]
        return (da.from_array(a, chunks=(f['chunk'],)) if form == 'dfields' else a), [a]
    names = list(arr.dtype.names) + ['beam', 'time'][:f['extra']]
    order = [names[i] for i in f['perm'] if i < len(names)]
    behind = []
    var = {}
    for n in order:
        a = np.array(arr[n]) if n in arr.dtype.names else np.arange(arr.size)
        behind.append(a)
        var[n] = (('sounding',), a)
    ds = xr.Dataset(var, coords={'sounding': np.arange(arr.size)} if f['chunk'] % 2 else None)
    if form == 'xdask':
        ds = ds.chunk({'sounding': f['chunk']})
    return ds, behind


def run_case(case, ctx):
    cfg = case['cfg']
    p = Player(cfg, ctx)
    twin = Player(cfg, ctx, storage='mem')
    other = False
    gridded = False
    spoiled = []
    for op in case['ops']:
        if op[0] != 'add':
            k = p.play(op)
            twin.play(op)
            gridded = gridded or k == 'grid'
            for kept, behind, was in spoiled:
                for a, b in zip(behind, was):
                    check(obs.same_bytes(a, b), 'the data that was handed over was changed by {}', op[0])
            continue
        name = p.new_name(op[1])
        if name is None:
            continue
        twin.add(name, op[2], **op[3])
        f = op[4]
        arr = model.decode(cfg, op[2])
        if not p.model.n and f['form'] in ('fields', 'dfields'):
            f = dict(f, form='numpy')   # the first soundings set the order of the fields
        data, behind = pack(arr, f)
        was = [a.copy() for a in behind]
        p.grid.add_points(data, name, progress_bar=False, **{'crs': p.epsg, 'vertical_reference': p.vref, **op[3]})
        p.model.add(name, arr, op[3].get('file_list'))
        p.dirty = True
        p.adds += 1
        for a, b in zip(behind, was):
            check(obs.same_bytes(a, b), 'the data handed over ({}) was changed by add_points', f['form'])
        if not isinstance(data, np.ndarray):
            check(type(data) is type(pack(arr, f)[0]), 'data handed over is now {}', type(data))
        if f['spoil'] and f['form'] != 'readonly':
            for a in behind:   # what the caller does with it afterwards is none of the grid's business
                if a.dtype.names:
                    for n in a.dtype.names:
                        a[n] = 12345.0
                else:
                    a[:] = 12345
        else:
            spoiled.append((data, behind, was))
        other = other or f['form'] not in ('numpy',)
        ctx.event(f['form'])
    obs.diff(obs.snapshot(twin.grid), obs.snapshot(p.grid), 'numpy and other containers', skip=SKIP)
    obs.check_points(p.grid, p.model)
    for t in obs.leaves(p.grid):
        check(obs.arr(t.data).dtype == model.dtype_of(cfg), 'soundings are held as {}', obs.arr(t.data).dtype)
    ctx.event('{} {}'.format(cfg['kind'], cfg['storage']))
    ctx.nontrivial = other and gridded
