"""Reading a grid: leaf tiles, soundings by source, surfaces by cell, snapshots."""
import math
import os

import numpy as np

from bgv.runner import Violation, check

LAYERS = ['depth', 'intensity', 'density', 'vertical_uncertainty', 'horizontal_uncertainty']


def arr(v):
    """plain array of whatever the grid holds (numpy or lazily loaded)"""
    if v is None:
        return None
    if hasattr(v, 'compute'):
        v = v.compute()
    return np.asarray(v)


def leaves(grid):
    """(tile, path) for every tile that holds soundings directly"""
    if grid.tiles is None:
        return
    for t in grid.tiles.flat:
        if t is None or (t is not None and not hasattr(t, 'is_empty')):
            continue
        if hasattr(t, 'tiles'):
            yield from leaves(t)
        else:
            yield t


def same(a, b):
    """same arrays, not-a-number equal to itself"""
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == 'f' or b.dtype.kind == 'f':
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def rec_key(a):
    """records as sorted list of tuples, for comparing as multisets"""
    return sorted(rec_list(a))


def rec_list(a):
    """records as list of tuples that compare (soundings without an uncertainty have NaN there)"""
    return [tuple(v if v == v else float('-inf') for v in r) for r in a.tolist()]


def tile_points(t):
    """{source: records} of one tile, with the ranges checked"""
    data = arr(t.data)
    n = 0 if data is None else data.size
    out = {}
    covered = np.zeros(n, dtype=int)
    for name, rng in t.container.items():
        a, b = int(rng[0]), int(rng[1])
        check(0 <= a < b <= n, 'tile {}: source {} has the range {} of {} soundings', t.name, name, rng, n)
        covered[a:b] += 1
        out[name] = data[a:b]
    check(bool((covered == 1).all()), 'tile {}: soundings not attributed to exactly one source: {}', t.name, covered.tolist())
    return out


def check_points(grid, model, deep=True):
    """the grid holds exactly the soundings of the model, each in its tile under its source"""
    want = model.all()
    check(grid.points_count == want.size, 'points_count is {}, {} soundings were added', grid.points_count, want.size)
    check(set(grid.container) == set(model.sources), 'sources are {}, expected {}', sorted(grid.container), sorted(model.sources))
    check(sorted(grid.return_unique_containers()) == sorted(model.sources), 'return_unique_containers gives {}', grid.return_unique_containers())
    check(bool(grid.is_empty) == (want.size == 0), 'is_empty is {} with {} soundings', grid.is_empty, want.size)
    entries = []
    for nm in model.sources:
        sp = nm.split('__')
        entries.append(sp[0] if len(sp) == 2 else nm)
    check(sorted(grid.unique_container_entries) == sorted(set(entries)), 'unique_container_entries gives {}', grid.unique_container_entries)
    got = {}
    seen = set()
    for t in leaves(grid):
        pts = tile_points(t)
        w = t.max_x - t.min_x
        check(w > 0 and w == t.max_y - t.min_y, 'tile {} is not a square: {} {} {} {}', t.name, t.min_x, t.min_y, t.max_x, t.max_y)
        key = (t.min_x, t.min_y)
        check(key not in seen, 'two tiles at {}', key)
        seen.add(key)
        check(not t.is_empty, 'tile {} without soundings is still in the grid', t.name)
        for name, rec in pts.items():
            inside = (rec['x'] >= t.min_x) & (rec['x'] < t.max_x) & (rec['y'] >= t.min_y) & (rec['y'] < t.max_y)
            check(bool(inside.all()), 'tile {} [{},{})x[{},{}) holds soundings outside of it: {}', t.name, t.min_x, t.max_x, t.min_y, t.max_y,
                  rec[~inside][:3].tolist())
            got.setdefault(name, []).append(rec)
    check(set(got) == set(model.sources), 'tiles hold sources {}, expected {}', sorted(got), sorted(model.sources))
    for name, a in model.sources.items():
        rec = np.concatenate(got[name])
        check(rec.dtype.names == a.dtype.names, 'fields are {}, added {}', rec.dtype.names, a.dtype.names)
        check(rec.size == a.size and rec_key(rec) == rec_key(a), 'soundings of {} differ: {} held, {} added', name, rec.size, a.size)
    if want.size:
        size = grid.tile_size
        tiles = {(math.floor(x / size), math.floor(y / size)) for x, y in zip(want['x'].tolist(), want['y'].tolist())}
        check(grid.number_of_tiles == len(tiles), 'number_of_tiles is {}, soundings are in {} tiles', grid.number_of_tiles, len(tiles))
        check_layout(grid)
    else:
        check(not grid.number_of_tiles, 'number_of_tiles is {} for an empty grid', grid.number_of_tiles)


def check_layout(grid):
    """tiles sit at the place of the tile array that their origin says"""
    for (r, c), t in np.ndenumerate(grid.tiles):
        if t is not None:
            check(t.min_x == grid.min_x + c * grid.tile_size and t.min_y == grid.min_y + r * grid.tile_size,
                  'tile with origin {},{} is at row {} column {} of a grid that starts at {},{}', t.min_x, t.min_y, r, c, grid.min_x, grid.min_y)
            if hasattr(t, 'tiles') and t.tiles is not None:
                check_layout(t)


def cells_of_array(a, min_x, min_y, res, empty):
    """{(ix, iy): value} of a row=north column=east array; empty(value array) tells which cells have no value"""
    a = np.asarray(a)
    rows, cols = np.nonzero(~empty(a))
    ox, oy = min_x / res, min_y / res
    check(float(ox).is_integer() and float(oy).is_integer(), 'origin {}, {} is not on the cells of {}', min_x, min_y, res)
    ox, oy = int(ox), int(oy)
    vals = a[rows, cols].tolist()
    return {(ox + c, oy + r): v for r, c, v in zip(rows.tolist(), cols.tolist(), vals)}


def tile_surface(t, res):
    """{layer: {(ix,iy): value}} of one tile at one resolution"""
    out = {}
    for lyr, a in t.cells[res].items():
        if lyr not in LAYERS:
            continue
        a = arr(a)
        n = int(round((t.max_x - t.min_x) / res))
        check(a.shape == (n, n), 'tile {}: layer {} at {} has the shape {}, expected {}', t.name, lyr, res, a.shape, (n, n))
        empty = (lambda v: v == 0) if lyr == 'density' else np.isnan
        out[lyr] = cells_of_array(a, t.min_x, t.min_y, res, empty)
    return out


def leaf_surface(grid, res):
    """{layer: {(ix,iy): value}} of all tiles that have this resolution"""
    out = {}
    for t in leaves(grid):
        if res in t.cells:
            for lyr, cells in tile_surface(t, res).items():
                out.setdefault(lyr, {}).update(cells)
    return out


def layer_surface(grid, layer, res):
    """{(ix,iy): value} from the layer the grid returns"""
    got = grid.get_layers_by_name(layer, res)
    if got is None:
        return {}
    check(isinstance(got, list) and len(got) == 1, 'get_layers_by_name({}) returned {}', layer, type(got))
    a = got[0]
    h, w = (grid.max_y - grid.min_y) / res, (grid.max_x - grid.min_x) / res
    check(a.shape == (h, w), 'layer {} at {} has the shape {}, extents need {}', layer, res, a.shape, (h, w))
    empty = (lambda v: v == 0) if layer == 'density' else np.isnan
    return cells_of_array(a, grid.min_x, grid.min_y, res, empty)




def open_uncertainty(c, lyr):
    """some sounding of the cell has no uncertainty (of the shoalest ones, with shoalest)"""
    i = 0 if lyr.startswith('vertical') else 1
    return any(math.isnan(p[i]) for p in c.pairs) if c.pairs else math.isnan((c.tvu, c.thu)[i])


def near(v, a):
    from bgv.model import tolerance
    return (math.isnan(v) and math.isnan(a)) or abs(v - a) <= tolerance(4)


def cmp_surface(got, ref, cfg, alg, zkey='depth', what=''):
    """got: {layer: {(ix,iy): v}} against the reference surface {(ix,iy): Cell}"""
    from bgv.model import tolerance
    layers = [zkey, 'density']
    if 't' in cfg['fields']:
        layers.append('vertical_uncertainty')
    if 'h' in cfg['fields']:
        layers.append('horizontal_uncertainty')
    check(set(got) == set(layers) or not ref, '{}layers are {}, expected {}', what, sorted(got), sorted(layers))
    for lyr in layers:
        g = got.get(lyr, {})
        if g.keys() != ref.keys() and not (lyr.endswith('uncertainty') and not set(g) - set(ref) and all(open_uncertainty(ref[k], lyr) for k in set(ref) - set(g))):
            extra = sorted(set(g) - set(ref))[:3]
            missing = sorted(set(ref) - set(g))[:3]
            raise Violation('{}layer {}: cells without soundings that have a value {}, cells with soundings without value {}'.format(what, lyr, extra, missing))
    for k, c in ref.items():
        z = got[zkey][k]
        tol = tolerance(c.zmax, c.n if alg == 'mean' else 1, cfg['zdt'])
        if abs(z - c.z) > tol:
            raise Violation('{}cell {}: {} is {}, expected {} ({} soundings)'.format(what, k, zkey, z, c.z, c.n))
        if abs(z) < 4000 and abs(z * 1000 - round(z * 1000)) > 0.0005 * abs(z) + 0.01:
            raise Violation('{}cell {}: {} {} is not rounded to millimetres'.format(what, k, zkey, z))
        if got['density'][k] != c.n:
            raise Violation('{}cell {}: density is {}, {} soundings are in it'.format(what, k, got['density'][k], c.n))
        v = got['vertical_uncertainty'].get(k, math.nan) if 't' in cfg['fields'] else None
        h = got['horizontal_uncertainty'].get(k, math.nan) if 'h' in cfg['fields'] else None
        if alg == 'mean':
            if v is not None and abs(v - c.tvu) > tolerance(4, c.n, 'f4'):
                raise Violation('{}cell {}: vertical uncertainty is {}, expected {}'.format(what, k, v, c.tvu))
            if h is not None and abs(h - c.thu) > tolerance(4, c.n, 'f4'):
                raise Violation('{}cell {}: horizontal uncertainty is {}, expected {}'.format(what, k, h, c.thu))
        elif v is not None or h is not None:
            ok = any((v is None or near(v, a)) and (h is None or near(h, b)) for a, b in c.pairs)
            if not ok:
                raise Violation('{}cell {}: uncertainties {} are not those of a shoalest sounding {}'.format(what, k, (v, h), sorted(c.pairs, key=str)))


def full_surface(grid, res, cfg, zkey='depth'):
    layers = [zkey, 'density'] + (['vertical_uncertainty'] if 't' in cfg['fields'] else []) + (['horizontal_uncertainty'] if 'h' in cfg['fields'] else [])
    out = {}
    for lyr in layers:
        s = layer_surface(grid, lyr, res)
        out[lyr] = s
    return out


META = ['epsg', 'vertical_reference', 'min_time', 'max_time', 'resolutions', 'grid_algorithm', 'grid_resolution', 'tile_size', 'subtile_size',
        'is_backscatter', 'number_of_tiles', 'name', 'sub_type', 'storage_type', 'container', 'container_timestamp', 'mean_depth',
        'min_x', 'min_y', 'max_x', 'max_y', 'width', 'height', 'maximum_tiles', 'grid_parameters', 'can_grow', 'version']
META_NONE_ZERO = ['min_x', 'min_y', 'max_x', 'max_y', 'width', 'height', 'number_of_tiles', 'maximum_tiles', 'mean_depth']


def norm(v):
    if isinstance(v, np.ndarray):
        return [norm(x) for x in v.tolist()]
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {str(k): norm(x) for k, x in v.items()}
    return v


def snapshot(grid, files=None):
    """everything the grid holds, as plain copies"""
    tiles = {}
    for t in leaves(grid):
        if t.is_empty:
            continue
        pts = tile_points(t)
        cells = {}
        for res, layers in t.cells.items():
            cells[float(res)] = {lyr: np.array(arr(a)) for lyr, a in layers.items() if lyr in LAYERS}
        tiles[(float(t.min_x), float(t.min_y))] = {
            'size': float(t.max_x - t.min_x), 'changed': bool(t.point_count_changed),
            'points': {nm: rec_key(a) for nm, a in pts.items()}, 'order': {nm: rec_list(a) for nm, a in pts.items()}, 'cells': cells,
            'backscatter': bool(t.is_backscatter)}
    meta = {}
    for k in META:
        v = norm(getattr(grid, k))
        if k in META_NONE_ZERO and v is None:
            v = 0
        meta[k] = v
    meta['points_count'] = grid.points_count
    meta['is_empty'] = bool(grid.is_empty)
    meta['no_grid'] = bool(grid.no_grid)
    meta['layer_names'] = sorted(n for n in grid.layer_names if n in LAYERS)
    meta['changed'] = bool(grid.point_count_changed)
    meta['unique'] = sorted(grid.unique_container_entries)
    snap = {'tiles': tiles, 'meta': meta}
    if files:
        snap['files'] = file_listing(files)
    return snap


def file_listing(folder):
    """{relative path: content} of a folder"""
    out = {}
    for root, dirs, names in os.walk(folder):
        rel = os.path.relpath(root, folder)
        out[rel + '/'] = None
        for n in names:
            with open(os.path.join(root, n), 'rb') as f:
                out[os.path.join(rel, n)] = f.read()
    return out


def diff_files(a, b, what=''):
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            raise Violation('{}file {} {}'.format(what, k, 'disappeared' if k in a else 'appeared'))
        if a[k] != b[k]:
            raise Violation('{}file {} has other content'.format(what, k))


def close(a, b, tol):
    if tol == 0:
        return same(a, b)
    a, b = np.asarray(a, dtype='f8'), np.asarray(b, dtype='f8')
    if a.shape != b.shape or not np.array_equal(np.isnan(a), np.isnan(b)):
        return False
    m = ~np.isnan(a)
    return bool((np.abs(a[m] - b[m]) <= tol + 5e-7 * np.abs(a[m])).all())


def diff(a, b, what='', tol=0.0, skip=(), changed=True, cells=True, meta_tol=0.0, drop_res=None):
    """raise if two snapshots are not the same grid"""
    if what:
        what += ': '
    ta, tb = a['tiles'], b['tiles']
    check(ta.keys() == tb.keys(), '{}tiles differ: only first {}, only second {}', what, sorted(set(ta) - set(tb))[:3], sorted(set(tb) - set(ta))[:3])
    for k in ta:
        x, y = ta[k], tb[k]
        check(x['size'] == y['size'], '{}tile {}: size {} and {}', what, k, x['size'], y['size'])
        check(x['points'].keys() == y['points'].keys(), '{}tile {}: sources {} and {}', what, k, sorted(x['points']), sorted(y['points']))
        for nm in x['points']:
            check(x['points'][nm] == y['points'][nm], '{}tile {}: soundings of {} differ ({} and {})', what, k, nm, len(x['points'][nm]), len(y['points'][nm]))
        check(x['backscatter'] == y['backscatter'], '{}tile {}: backscatter flag differs', what, k)
        if changed:
            check(x['changed'] == y['changed'], '{}tile {}: changed flag {} and {}', what, k, x['changed'], y['changed'])
        if cells:
            check(x['cells'].keys() == y['cells'].keys(), '{}tile {}: resolutions {} and {}', what, k, sorted(x['cells']), sorted(y['cells']))
            for res in x['cells']:
                la, lb = x['cells'][res], y['cells'][res]
                check(la.keys() == lb.keys(), '{}tile {} at {}: layers {} and {}', what, k, res, sorted(la), sorted(lb))
                for lyr in la:
                    check(close(la[lyr], lb[lyr], 0 if lyr == 'density' else tol), '{}tile {} at {}: layer {} differs', what, k, res, lyr)
    for k in a['meta']:
        if k in skip:
            continue
        va, vb = a['meta'][k], b['meta'][k]
        if k in ('mean_depth',):
            check(abs((va or 0) - (vb or 0)) <= meta_tol + 1e-9, '{}{} is {} and {}', what, k, va, vb)
        else:
            check(va == vb, '{}{} is {} and {}', what, k, va, vb)
    if 'files' in a and 'files' in b:
        diff_files(a['files'], b['files'], what)


def check_leaf(t, cfg, alg, zkey='depth', what=''):
    """every surface of this tile is that of its own soundings"""
    from bgv import model
    pts = arr(t.data)
    for res in t.cells:
        ref = model.surface(pts, res, alg)
        cmp_surface(tile_surface(t, res), ref, cfg, alg, zkey, '{}tile {} at {}: '.format(what, t.name, res))


def diff_cells(a, b, alg, tol, what=''):
    """the surfaces of two snapshots are the same (which of several equally shoal soundings gave its uncertainty is left open)"""
    ta, tb = a['tiles'], b['tiles']
    check(ta.keys() == tb.keys(), '{}: tiles differ: {} and {}', what, sorted(ta)[:6], sorted(tb)[:6])
    for k in ta:
        ca, cb = ta[k]['cells'], tb[k]['cells']
        check(ca.keys() == cb.keys(), '{}: tile {}: resolutions {} and {}', what, k, sorted(ca), sorted(cb))
        for res in ca:
            check(ca[res].keys() == cb[res].keys(), '{}: tile {} at {}: layers {} and {}', what, k, res, sorted(ca[res]), sorted(cb[res]))
            for lyr in ca[res]:
                if alg == 'shoalest' and lyr.endswith('uncertainty'):
                    ok = same(np.isnan(ca[res][lyr]), np.isnan(cb[res][lyr]))
                else:
                    ok = close(ca[res][lyr], cb[res][lyr], 0 if lyr == 'density' else tol)
                check(ok, '{}: tile {} at {}: layer {} differs', what, k, res, lyr)


def diff_points(a, b, what=''):
    ta, tb = a['tiles'], b['tiles']
    check(ta.keys() == tb.keys(), '{}: tiles differ: {} and {}', what, sorted(ta)[:6], sorted(tb)[:6])
    for k in ta:
        pa, pb = ta[k]['points'], tb[k]['points']
        check(pa.keys() == pb.keys(), '{}: tile {}: sources {} and {}', what, k, sorted(pa), sorted(pb))
        for nm in pa:
            check(pa[nm] == pb[nm], '{}: tile {}: soundings of {} differ ({} and {})', what, k, nm, len(pa[nm]), len(pb[nm]))


def ztol(cfg):
    """sums in another order may round to the neighbouring millimetre, not with values on the 1/8 m raster"""
    return 0.0 if cfg['zs'] == 'e' else 0.0011


def same_bytes(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()
