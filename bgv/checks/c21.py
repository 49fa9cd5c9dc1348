"""Refused requests leave the grid as it was."""
import numpy as np
from hypothesis import strategies as st

from bgv import boot, gen, model, obs
from bgv.play import Player
from bgv.runner import Violation, check

EXAMPLES = {'quick': 800, 'thorough': 14000}
RULE = ('random histories with random requests that must be refused in between: a source name that exists, plain arrays, data of another type, records and data sets '
        'without x, y or z, two-dimensional data sets, no soundings, other fields than the soundings of the same tile, another coordinate system or vertical reference (with files and times), another method without '
        'clearing, resolutions that are no power of two, gridding an empty grid, layers of a grid that was not gridded. Each must raise and leave soundings, layers, '
        'metadata and files equal; the grid must then continue like one that never got the request. Non-trivial: a refused request on a gridded grid and operations after it.')
ASSUMPTIONS = ['any exception is a refusal']
MLLW = 'COMPD_CS["NAD83 / UTM zone 17N + MLLW depth",VERT_CS["MLLW depth",AXIS["Depth",DOWN]]]'
VREFS = ['ellipse', 'mllw', '', MLLW, 'MLLW', 'waterline']
SKIP = ('container_timestamp', 'name', 'storage_type')
BAD = ['dup', 'plain', 'type', 'missing', 'missing', 'xmissing', 'xmissing', 'x2d', 'none', 'xnone', 'epsg', 'vref', 'both', 'alg', 'alg', 'res', 'res', 'res', 'empty', 'layer', 'unknown', 'fields', 'fields']


@st.composite
def bads(draw, cfg):
    pts = gen.batch(draw, cfg, 6, span=2.0, blocks=False)
    return ['bad', draw(st.sampled_from(BAD)), draw(st.integers(0, 11)), pts, draw(st.sampled_from(['x', 'y', 'z'])),
            draw(st.sampled_from([0.3, 1.5, 3.0, 6, 100, -1.0, -2, 0, 0.75, 5])), gen.add_meta(draw)]


@st.composite
def cases(draw, tier):
    disk = draw(st.integers(0, 3)) == 3
    cfg = gen.configs(draw, storages=('numpy', 'zarr') if disk else ('mem', 'memz'), bs=True, tiles=(4, 8, 16), max_cells=32, nanu=6)
    kw = {'span': 2.0, 'bulk': 60}
    ops = []
    if draw(st.integers(0, 5)) == 5:
        ops.append(draw(bads(cfg)))
    ops.append(gen.add_op(draw, cfg, 15, kw, True))
    if draw(st.integers(0, 2)):
        ops.append(['grid', gen.grid_op(draw, cfg)])
    for _ in range(draw(st.integers(1, 5))):
        ops.append(draw(bads(cfg)))
        k = draw(st.sampled_from(['add', 'rm', 'grid', 'reload', 'none', 'none']))
        if k == 'add':
            ops.append(gen.add_op(draw, cfg, 12, kw, True))
        elif k == 'rm':
            ops.append(['rm', draw(st.integers(0, 5))])
        elif k == 'grid':
            ops.append(['grid', gen.grid_op(draw, cfg)])
        elif k == 'reload':
            ops.append(['reload'])
    ops.append(['grid', gen.grid_op(draw, cfg)])
    return {'cfg': cfg, 'ops': ops, 'nocrs': draw(st.integers(0, 4)) == 4,
            'vref': draw(st.sampled_from(['waterline', 'waterline', MLLW, 'MLLW']))}


def strategy(tier):
    return cases(tier)


def without(arr, names):
    dt = np.dtype([(n, arr.dtype[n]) for n in arr.dtype.names if n not in names])
    out = np.zeros(arr.size, dtype=dt)
    for n in dt.names:
        out[n] = arr[n]
    return out


def to_xr(arr, skip=()):
    import xarray as xr
    return xr.Dataset({n: (('p',), np.array(arr[n])) for n in arr.dtype.names if n not in skip})


def request(p, op):
    """the call that must be refused, or None when it would be a valid request now"""
    _, kind, i, pts, var, res, kw = op
    g, cfg = p.grid, p.cfg
    kw = dict(kw)
    arr = model.decode(cfg, pts)
    par = {'grid_parameters': gen.PARAMETERS[i // 2 % len(gen.PARAMETERS)]} if i % 2 else {}
    name = p.new_name(i)
    if name is None:
        return None
    add = {'crs': p.epsg or gen.EPSG, 'vertical_reference': p.vref, 'progress_bar': False, **kw}

    def adding(data, nm=name, **more):
        return lambda: g.add_points(data, nm, **{**add, **more})
    if kind == 'dup':
        if not p.model.sources:
            return None
        return adding(arr, list(p.model.sources)[i % len(p.model.sources)])
    if kind == 'plain':
        return adding(np.column_stack([arr['x'], arr['y'], arr['z']]) if i % 2 else arr['z'].copy())
    if kind == 'type':
        return adding([None, arr.tolist(), {'x': arr['x'], 'y': arr['y'], 'z': arr['z']}, 'x'][i % 4])
    if kind == 'missing':
        names = [var] if i % 3 else ['x', 'y', 'z']
        if i % 3 and len(names) == 3:
            return None
        rest = without(arr, names)
        if not rest.dtype.names:
            return None
        return adding(rest)
    if kind == 'xmissing':
        return adding(to_xr(arr, [var] if i % 3 else ['x', 'y']))
    if kind == 'x2d':
        import xarray as xr
        n = arr.size
        return adding(xr.Dataset({k: (('a', 'b'), np.tile(arr[k], (2, 1))) for k in arr.dtype.names}))
    if kind == 'none':
        return adding(arr[:0])
    if kind == 'xnone':
        return adding(to_xr(arr[:0]))
    if kind == 'fields':
        # one sounding where there is one already, with other fields than that
        if not p.model.n:
            return None
        held = p.model.all()
        names = [k for k in held.dtype.names if k not in ('tvu', 'thu')] + [[], ['tvu'], ['thu'], ['tvu', 'thu'], ['beam']][i % 5]
        if set(names) == set(held.dtype.names):
            names.append('other')
        new = np.zeros(arr.size + 1, dtype=[(k, 'f8') for k in names])
        for k in names:
            if k in arr.dtype.names:
                new[k][:-1] = arr[k]
        at = held[(i * 7919) % held.size]
        new['x'][-1], new['y'][-1], new['z'][-1] = at['x'], at['y'], at['z']
        return adding(new, **({'crs': None, 'vertical_reference': p.grid.vertical_reference} if i > 8 else {}))
    if kind == 'epsg':
        return adding(arr, crs=p.epsg + 1 + i % 3) if p.grid.epsg else None
    if kind == 'vref':
        if not p.grid.vertical_reference:
            return None
        other = VREFS[i % len(VREFS)]
        if other == p.vref or ('MLLW' in other and 'MLLW' in p.vref):     # descriptions of MLLW are the same reference
            other = 'Waterline'
        return adding(arr, vertical_reference=other)
    if kind == 'both':
        return adding(arr, crs=p.epsg + 10, vertical_reference='ellipse') if p.grid.vertical_reference and p.grid.epsg else None
    if kind == 'alg':
        if not g.grid_algorithm or not p.model.n:
            return None
        other = 'shoalest' if g.grid_algorithm == 'mean' else 'mean'
        return lambda: g.grid(other, [cfg['res'], None, cfg['res'] * 2][i % 3], regrid_option=['full', 'update'][i % 2], clear_existing=False, progress_bar=False, **par)
    if kind == 'res':
        if not p.model.n:
            return None
        return lambda: g.grid(cfg['alg'], res, regrid_option=['full', 'update'][i % 2], clear_existing=bool(i % 3), progress_bar=False, **par)
    if kind == 'empty':
        if p.model.n:
            return None
        return lambda: g.grid(cfg['alg'], [cfg['res'], None][i % 2], clear_existing=bool(i % 3), progress_bar=False, **par)
    if kind == 'layer':
        if p.gridded and p.model.n:
            return None
        return [lambda: g.get_layers_by_name(p.zkey, cfg['res']), lambda: g.return_surf_xyz(p.zkey, cfg['res']),
                lambda: list(g.get_tiles_by_resolution(cfg['res'], p.zkey))][i % 3]
    return 'unknown'


def run_case(case, ctx):
    cfg = case['cfg']
    epsg = None if case['nocrs'] else gen.EPSG    # soundings without a coordinate system are accepted
    p = Player(cfg, ctx, epsg=epsg, vref=case.get('vref', 'waterline'))
    twin = Player(cfg, ctx, storage='mem', epsg=epsg, vref=case.get('vref', 'waterline'))
    refused = set()
    gridded_refusal = False
    later = False
    for n, op in enumerate(case['ops']):
        if op[0] != 'bad':
            a = p.play(op)
            b = twin.play(op) if op[0] != 'reload' else None
            later = later or (gridded_refusal and a is not None)
            continue
        call = request(p, op)
        if call is None:
            continue
        before = obs.snapshot(p.grid, files=p.folder)
        what = 'refused request {} at operation {}'.format(op[1], n)
        if call == 'unknown':
            # removing what is not there: refused or without effect
            try:
                p.grid.remove_points('not there', progress_bar=False)
            except (Violation, boot.Escape):
                raise
            except Exception:
                pass
        else:
            try:
                call()
            except (Violation, boot.Escape):
                raise
            except Exception:
                pass
            else:
                raise Violation('{} was not refused'.format(what))
        after = obs.snapshot(p.grid, files=p.folder)
        obs.diff(before, after, what)
        refused.add(op[1])
        if p.gridded:
            gridded_refusal = True
    for r in refused:
        ctx.event('refused ' + r)
    obs.diff(obs.snapshot(twin.grid), obs.snapshot(p.grid), 'grid after refused requests and one that never got them', skip=SKIP, tol=0)
    obs.check_points(p.grid, p.model)
    ctx.event('{} {}'.format(cfg['kind'], cfg['storage']))
    ctx.nontrivial = gridded_refusal and later
