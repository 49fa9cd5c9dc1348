"""Queries do not change the grid, and editing what they return does not either."""
import os

import numpy as np
from hypothesis import strategies as st

from bgv import obs, scene
from bgv.runner import check

EXAMPLES = {'quick': 420, 'thorough': 8000}
RULE = ('random gridded scenes (all grid types and backends, with and without changes that are not gridded yet), random sequences of queries and exports, every answer taken '
        'twice and compared, every returned array overwritten; soundings, layers, flags, metadata and files are compared before and after. Non-trivial: at least four kinds of '
        'queries on a surface with more than two cells.')
ASSUMPTIONS = ['slope layers stay available once they were asked for, as the code says; they are derived from the soundings and left out of the comparison']
SURFACE = ['layer', 'layer', 'many', 'trimmed', 'xyz', 'tiles', 'tile', 'chunks', 'lookup', 'values', 'names', 'stats', 'summary', 'neighbours', 'boundaries', 'leaf', 'plots', 'csv', 'geotiff', 'bag']
MORE = ['source', 'source', 'slope', 'sourceleaf']
SLOPES = ('x_slope', 'y_slope')


@st.composite
def cases(draw, tier):
    case = scene.scenes(draw, bs=True, disk_share=3, pending=True)
    n = draw(st.integers(3, 9))
    case['queries'] = [[draw(st.sampled_from(SURFACE + MORE)), draw(st.integers(0, 255)), draw(st.integers(0, 255)), draw(st.integers(0, 3))]
                       for _ in range(n)]
    return case


def strategy(tier):
    return cases(tier)


def plain(v):
    """a copy that can be compared"""
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if a is None or b is None:
            return a is b
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype.names:
            return a.dtype == b.dtype and a.tobytes() == b.tobytes()
        return obs.same(a, b)
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and np.isnan(a) and np.isnan(b):
        return True
    return type(a) is type(b) and a == b


def spoil(v):
    """overwrite everything that was returned"""
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.size:
            if v.dtype.names:
                for n in v.dtype.names:
                    v[n] = 77
            elif v.dtype.kind in 'fiu':
                v[...] = 77
    elif isinstance(v, dict):
        for x in v.values():
            spoil(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            spoil(x)


def keys(grid):
    return [(t.name, float(r), sorted(k for k in c if k not in SLOPES)) for t in obs.leaves(grid) for r, c in t.cells.items()]


def run_case(case, ctx):
    p = scene.build(case, ctx)
    if not p.model.n:
        return
    grid = p.grid
    zkey = p.zkey
    res_all = scene.resolutions(grid)
    surf = scene.surfaces(grid)
    n = scene.stats(ctx, surf)
    before, kb = obs.snapshot(grid, files=p.folder), keys(grid)
    answers = {}
    slopes = any(q[0] == 'slope' for q in case['queries'])
    for rnd in range(2):
        for i, q in enumerate(case['queries']):
            got = ask(q, grid, p, surf, res_all, zkey, ctx, slopes)
            copy = plain(got)
            if q[0] not in ('summary',):
                spoil(got)
            if rnd == 0:
                answers[i] = copy
                again = ask(q, grid, p, surf, res_all, zkey, ctx, slopes)
                check(equal(copy, again), 'query {} gives another answer when repeated', q)
            else:
                check(equal(answers[i], copy), 'query {} gives another answer after other queries', q)
    after, ka = obs.snapshot(grid, files=p.folder), keys(grid)
    check(kb == ka, 'layers of the tiles were {} and are {} after {}', kb[:2], ka[:2], [q[0] for q in case['queries']])
    obs.diff(before, after, 'after {}'.format([q[0] for q in case['queries']]))
    if p.folder and case['pending'] is None:
        from bgv.play import load
        obs.diff(before, obs.snapshot(load(p.folder), files=p.folder), 'loaded after the queries')
    kinds = {q[0] for q in case['queries']}
    for k in kinds:
        ctx.event(k)
    ctx.nontrivial = n > 2 and len(kinds) >= 4


def ask(q, grid, p, surf, res_all, zkey, ctx, slopes):
    kind, a, b, c = q
    res = res_all[a % len(res_all)]
    names = sorted(next(iter(surf.values())))
    lyr = names[b % len(names)]
    order = [zkey] + [x for x in names if x != zkey]
    up = {'z_positive_up': True} if c & 1 else {}
    nod = {'nodatavalue': -9999.0} if c & 2 and lyr != 'density' else {}
    leaf = list(obs.leaves(grid))
    some = leaf[b % len(leaf)]
    if kind == 'layer':
        return grid.get_layers_by_name(lyr, res, **up, **nod)
    if kind == 'many':
        return grid.get_layers_by_name(order, res, **up)
    if kind == 'trimmed':
        return [plain(x) if i else x for i, x in enumerate(grid.get_layers_trimmed(order, res, **up))]
    if kind == 'xyz':
        return list(grid.return_surf_xyz(order, res, cell_boundaries=bool(c & 1)))
    if kind == 'tiles':
        return [list(x) for x in grid.get_tiles_by_resolution(res, order, **up)]
    if kind == 'tile':
        out = []
        for (r, cc), t in np.ndenumerate(grid.tiles):
            if t is not None:
                out.append(list(grid.get_tile_data(r, cc, res, order, **up))[1:])
        return out
    if kind == 'chunks':
        return [list(x) for x in grid.get_chunks_of_tiles(res, order, override_maximum_chunk_dimension=grid.tile_size * (1 + b % 3), for_gdal=bool(c & 1), **up)]
    if kind == 'lookup':
        x = np.linspace(grid.min_x, grid.max_x, 5 + b % 7)
        y = np.linspace(grid.min_y, grid.max_y, 5 + b % 7)[::-1].copy()
        kx, ky = x.copy(), y.copy()
        got = grid.layer_values_at_xy(x, y, lyr, res if c & 1 else None)
        check(np.array_equal(x, kx) and np.array_equal(y, ky), 'the locations that were asked for are changed')
        return got
    if kind == 'values':
        return grid.return_layer_values(lyr)
    if kind == 'names':
        return [sorted(x for x in grid.return_layer_names() if x not in SLOPES), sorted(x for x in grid.layer_names if x not in SLOPES), grid.return_extents(),
                sorted(grid.return_unique_containers()), sorted(grid.unique_container_entries), bool(grid.point_count_changed)]
    if kind == 'stats':
        out = [norm(getattr(grid, k)) for k in ('cell_count', 'density_count', 'density_per_square_meter', 'coverage_area_square_meters', 'coverage_area_square_nm', 'points_count',
                                                'no_grid', 'has_vertical_uncertainty', 'has_horizontal_uncertainty')]
        if not grid.is_backscatter:
            out += [plain(grid.density_count_vs_depth), plain(grid.density_per_square_meter_vs_depth)]
        return out
    if kind == 'summary':
        d = grid.return_attribution()
        return [repr(grid) if not slopes else '', {k: norm(v) for k, v in d.items() if k != 'type'}]
    if kind == 'neighbours':
        tiles = [t for t in grid.tiles.flat if t is not None]
        t = tiles[b % len(tiles)]
        return [[None if x is None else x.name for x in grid.get_tile_neighbors(t)], grid.get_tile_neighbor_points(t, (a % 9) * grid.tile_size / 8)]
    if kind == 'boundaries':
        return list(grid.get_tile_boundaries())
    if kind == 'leaf':
        return [some.get_layers_by_name(lyr, res, **nod), some.return_layer_values(lyr), list(some.get_geotransform(res) or []), norm(some.cell_count)]
    if kind == 'source':
        return grid.get_layers_by_name([list(p.model.sources)[b % len(p.model.sources)], zkey], res)
    if kind == 'sourceleaf':
        return some.get_layers_by_name(list(p.model.sources)[a % len(p.model.sources)], res)
    if kind == 'slope':
        # stays on the grid by design; the answer is only compared
        return plain(grid.get_layers_by_name(list(SLOPES), res))
    if kind == 'plots':
        import matplotlib.pyplot as plt
        grid.plot(zkey, res)
        grid.plot_density_histogram()
        grid.plot_z_histogram()
        if not grid.is_backscatter:
            grid.plot_density_vs_depth()
        plt.close('all')
        return None
    return exported(kind, grid, res, ctx, slopes, up)


def norm(v):
    return obs.norm(v) if not isinstance(v, type) else str(v)


def exported(kind, grid, res, ctx, slopes, up):
    if kind == 'bag' and grid.is_backscatter:
        kind = 'geotiff'
    out = ctx.newdir(make=True)
    kw = {'z_positive_up': bool(up)}
    grid.export(os.path.join(out, 'e.' + kind), kind, **kw)
    files = obs.file_listing(out)
    if kind == 'bag':
        return sorted(files)    # holds the time of writing
    if kind == 'csv' and slopes:
        return sorted(files)    # slope layers are exported once they exist
    return [[k, v] for k, v in sorted(files.items())]
