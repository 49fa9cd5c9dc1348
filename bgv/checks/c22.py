"""Metadata describes the grid."""
from datetime import datetime, timezone
from fractions import Fraction
import math

import numpy as np
from hypothesis import strategies as st

from bgv import gen, model, obs
from bgv.play import Player
from bgv.runner import check

EXAMPLES = {'quick': 800, 'thorough': 14000}
RULE = ('random histories with additions that carry times, file lists, coordinate system as number, text or not at all, MLLW variants; grids with an origin of zero or elsewhere; '
        'after every operation coordinate system, vertical reference, times, files, mean depth, tile count, extents, attribution and text summary are compared with the history. '
        'Non-trivial: at least two sources, one of them with times, and a removal or growth in several additions.')
ASSUMPTIONS = ['mean depth within 0.5 mm per operation', 'the upper extents may keep one spare tile per addition (the upper edge of the grid is exclusive)']
MLLW = ['MLLW', 'NOAA MLLW', 'vdatum MLLW 4.2']


@st.composite
def cases(draw, tier):
    disk = draw(st.integers(0, 4)) == 4
    cfg = gen.configs(draw, storages=('numpy', 'zarr') if disk else ('mem', 'memz'), bs=True, tiles=(4, 8, 16, 32), max_cells=32)
    origin = [0, 0]
    if draw(st.integers(0, 2)) == 2:
        origin = [draw(st.integers(-400, 400)) / 8.0, draw(st.integers(-400, 400)) / 8.0]
    mllw = draw(st.booleans())
    kw = {'span': 3.0, 'bulk': 100}
    leaf = cfg['sub'] if cfg['kind'] == 'vr' else cfg['tile']
    ops = []
    for i in range(draw(st.integers(2, 6))):
        k = draw(st.sampled_from(['add', 'add', 'add', 'rm', 'grid', 'reload'])) if i else 'add'
        if k == 'add':
            op = gen.add_op(draw, cfg, 20, kw, True)
            op[3]['crs'] = draw(st.sampled_from([gen.EPSG, gen.EPSG, str(gen.EPSG), None]))
            op[3]['vertical_reference'] = draw(st.sampled_from(MLLW)) if mllw else 'waterline'
            ops.append(op)
        elif k == 'rm':
            ops.append(['rm', draw(st.integers(0, 5))])
        elif k == 'grid':
            ops.append(['grid', dict(gen.grid_op(draw, cfg), res=draw(st.sampled_from([cfg['res'], cfg['res'], min(2 * cfg['res'], leaf)])))])
        else:
            ops.append(['reload'])
    return {'cfg': cfg, 'ops': ops, 'origin': origin}


def strategy(tier):
    return cases(tier)


def build(cfg, p, origin):
    from bathygrid import maingrid
    zarr = cfg['storage'] in ('memz', 'zarr')
    kw = {'min_x': origin[0], 'min_y': origin[1], 'tile_size': cfg['tile'], 'output_folder': p.folder or '', 'is_backscatter': cfg['bs']}
    if cfg['kind'] == 'vr':
        kw['subtile_size'] = cfg['sub']
    name = {('sr', False): 'SRGrid', ('vr', False): 'VRGridTile', ('sr', True): 'SRGridZarr', ('vr', True): 'VRGridTileZarr'}[(cfg['kind'], zarr)]
    return getattr(maingrid, name)(**kw)


def floor_tile(v, origin, size):
    return math.floor((Fraction(float(v)) - Fraction(origin)) / Fraction(size))


def text(t):
    return datetime.fromtimestamp(int(t), timezone.utc).strftime('%Y-%m-%dT%H:%M:%S')


def run_case(case, ctx):
    cfg, origin = case['cfg'], case['origin']
    p = Player(cfg, ctx)
    moved = origin != [0, 0]
    if moved:
        p.grid = build(cfg, p, origin)
        ctx.event('other origin')
    tmin = tmax = epsg = vref = None
    low = high = None      # of everything added since the grid was last without soundings
    since = 0
    removed = False
    added = 0
    stamps = {}
    for n, op in enumerate(case['ops']):
        if op[0] == 'add':
            name = p.new_name(op[1])
            if name is None:
                continue
            kw = dict(op[3])
            a = model.decode(cfg, op[2])
            if moved:
                a['x'] += origin[0]
                a['y'] += origin[1]
            if not p.model.n:
                low = high = None
                since = 0
            before = datetime.now(timezone.utc).replace(microsecond=0)
            p.grid.add_points(a.copy(), name, progress_bar=p.bar, **kw)
            stamps[name] = p.grid.container_timestamp.get(name)
            when = datetime.strptime(stamps[name], '%Y%m%d_%H%M%S').replace(tzinfo=timezone.utc)
            check(before <= when <= datetime.now(timezone.utc), 'source {} added at {} (UTC) has the time {}', name, before, stamps[name])
            p.model.add(name, a, kw.get('file_list'))
            p.adds += 1
            added += 1
            since += 1
            if kw['crs'] is not None:
                epsg = int(kw['crs'])
            vref = kw['vertical_reference']
            if 'min_time' in kw:
                t = int(kw['min_time'])
                tmin = t if tmin is None else min(t, tmin)
                t = int(kw['max_time'])
                tmax = t if tmax is None else max(t, tmax)
            l = (a['x'].min(), a['y'].min())
            h = (a['x'].max(), a['y'].max())
            low = l if low is None else (min(l[0], low[0]), min(l[1], low[1]))
            high = h if high is None else (max(h[0], high[0]), max(h[1], high[1]))
        else:
            k = p.play(op)
            removed = removed or k == 'rm'
        g = p.grid
        what = 'after operation {} ({}): '.format(n, op[0])
        check(g.epsg == epsg and (epsg is None or type(g.epsg) is int), '{}epsg is {!r}, given {!r}', what, g.epsg, epsg)
        check(g.vertical_reference == vref, '{}vertical reference is {}, given {}', what, g.vertical_reference, vref)
        check(g.min_time == (text(tmin) if tmin is not None else ''), '{}min_time is {}, earliest is {}', what, g.min_time, tmin)
        check(g.max_time == (text(tmax) if tmax is not None else ''), '{}max_time is {}, latest is {}', what, g.max_time, tmax)
        check({k: list(v) for k, v in g.container.items()} == p.model.files, '{}files are {}, given {}', what, g.container, p.model.files)
        check(dict(g.container_timestamp) == {k: stamps[k] for k in p.model.sources}, '{}times of sources are {}, they were added at {}', what, dict(g.container_timestamp), stamps)
        pts = p.model.all()
        ops_done = p.adds + p.removes + 1
        if pts.size:
            mean = math.fsum(pts['z'].astype('f8').tolist()) / pts.size
            check(abs(g.mean_depth - mean) <= 0.00051 * ops_done + (1e-6 * abs(mean)), '{}mean depth is {}, mean of the soundings is {}', what, g.mean_depth, mean)
            geometry(g, pts, origin, low, high, since, what)
            held = {float(r) for t in obs.leaves(g) for r in t.cells}
            check({float(r) for r in g.resolutions} <= held, '{}resolutions are {}, the surfaces have {}', what, g.resolutions, sorted(held))
        else:
            check(not g.mean_depth and not g.number_of_tiles and not g.resolutions, '{}mean depth {} tiles {} resolutions {} without soundings', what, g.mean_depth, g.number_of_tiles, g.resolutions)
        if not moved:
            obs.check_points(g, p.model)
        summary(g, p, cfg, what)
    ctx.event('{} {}'.format(cfg['kind'], cfg['storage']))
    if removed:
        ctx.event('with a removal')
    ctx.nontrivial = added > 1 and tmin is not None and (removed or since > 1)


def geometry(g, pts, origin, low, high, since, what):
    size = g.tile_size
    tiles = {(floor_tile(x, origin[0], size), floor_tile(y, origin[1], size)) for x, y in zip(pts['x'].tolist(), pts['y'].tolist())}
    check(g.number_of_tiles == len(tiles), '{}number_of_tiles is {}, soundings are in {} tiles', what, g.number_of_tiles, len(tiles))
    have = {(floor_tile(t.min_x, origin[0], size), floor_tile(t.min_y, origin[1], size)) for t in g.tiles.flat if t is not None}
    check(have == tiles, '{}tiles are {}, soundings are in {}', what, sorted(have)[:5], sorted(tiles)[:5])
    for a, (lo, hi) in enumerate(((g.min_x, g.max_x), (g.min_y, g.max_y))):
        k0, k1 = (Fraction(lo) - Fraction(origin[a])) / Fraction(size), (Fraction(hi) - Fraction(origin[a])) / Fraction(size)
        check(k0.denominator == 1 and k1.denominator == 1, '{}extents {} to {} are not whole tiles of {} from {}', what, lo, hi, size, origin[a])
        first = floor_tile(low[a], origin[a], size)
        last = floor_tile(high[a], origin[a], size) + 1
        check(k0 == first, '{}lower extent is {}, lowest sounding is {}', what, lo, low[a])
        check(last <= k1 <= last + since, '{}upper extent is {}, highest sounding is {}', what, hi, high[a])
    check(g.width == g.max_x - g.min_x and g.height == g.max_y - g.min_y, '{}width {} height {}', what, g.width, g.height)
    shape = (int(g.height / size), int(g.width / size))
    check(g.tiles.shape == shape and g.maximum_tiles == shape[0] * shape[1], '{}{} tiles in {}, extents need {}', what, g.maximum_tiles, g.tiles.shape, shape)
    check(obs.norm(g.return_extents()) == [[g.min_x, g.min_y], [g.max_x, g.max_y]], '{}return_extents gives {}', what, g.return_extents())
    ex, ey = obs.arr(g.tile_edges_x), obs.arr(g.tile_edges_y)
    check(ex.tolist() == [g.min_x + i * size for i in range(shape[1] + 1)] and ey.tolist() == [g.min_y + i * size for i in range(shape[0] + 1)], '{}tile edges {} {}', what, ex, ey)
    for i, t in enumerate(g.tiles.flat):
        if t is not None:
            r, c = divmod(i, shape[1])
            check(t.min_x == g.min_x + c * size and t.min_y == g.min_y + r * size and t.max_x == t.min_x + size and t.max_y == t.min_y + size,
                  '{}tile at row {} column {} covers {} {} {} {}', what, r, c, t.min_x, t.min_y, t.max_x, t.max_y)
            part = pts[(pts['x'] >= t.min_x) & (pts['x'] < t.max_x) & (pts['y'] >= t.min_y) & (pts['y'] < t.max_y)]
            check(t.points_count == part.size, '{}tile {} has {} soundings, {} are in it', what, t.name, t.points_count, part.size)


def summary(g, p, cfg, what):
    a = g.return_attribution()
    want = {'grid_folder': g.output_folder, 'name': g.name, 'type': type(g), 'grid_resolution': g.grid_resolution, 'grid_algorithm': g.grid_algorithm,
            'epsg': g.epsg, 'vertical_reference': g.vertical_reference, 'height': g.height, 'width': g.width, 'minimum_x': g.min_x, 'maximum_x': g.max_x,
            'minimum_y': g.min_y, 'maximum_y': g.max_y, 'minimum_time_utc': g.min_time, 'maximum_time_utc': g.max_time, 'tile_size': cfg['tile'],
            'tile_count': g.number_of_tiles, 'resolutions': g.resolutions}
    if cfg['kind'] == 'vr':
        want['subtile_size'] = cfg['sub']
    for k, v in want.items():
        check(k in a and obs.norm(a[k]) == obs.norm(v), '{}attribution {} is {}, grid has {}', what, k, a.get(k), v)
    src = {k[7:]: v for k, v in a.items() if k.startswith('source_')}
    check(set(src) == set(p.model.sources), '{}attribution of sources {}', what, sorted(src))
    for nm, v in src.items():
        check(list(v['multibeam_lines']) == p.model.files[nm], '{}attribution of {} has the files {}, given {}', what, nm, v['multibeam_lines'], p.model.files[nm])
        check(v['time'] == g.container_timestamp[nm], '{}attribution of {} has the time {}', what, nm, v['time'])
    if p.gridded:
        check(g.grid_algorithm == cfg['alg'], '{}method is {}', what, g.grid_algorithm)
        check(g.grid_resolution == p.gridded['res'], '{}resolution setting is {}, last gridding was {}', what, g.grid_resolution, p.gridded['res'])
    lines = repr(g).split('\n')
    names = {l[3:] for l in lines if l.startswith(' - ')}
    check(names == set(g.unique_container_entries), '{}text summary has the sources {}', what, sorted(names))
    for want in ('Resolutions (meters): {}'.format(g.resolutions), 'Time of Data (UTC): {} to {}'.format(g.min_time, g.max_time)):
        check(want in lines, '{}text summary has no line {}', what, want)
    check(any(l.startswith('EPSG: {} '.format(g.epsg)) for l in lines), '{}text summary has no line for EPSG {}', what, g.epsg)
    name = 'Mean Intensity: ' if cfg['bs'] else 'Mean Depth: '
    mean = [l[len(name):] for l in lines if l.startswith(name)]
    check(len(mean) == 1 and abs(float(mean[0]) - g.mean_depth) <= 0.00051, '{}text summary has the mean {}, grid has {}', what, mean, g.mean_depth)
    check('Backscatter Mosaic: {}'.format(bool(cfg['bs'])) in lines, '{}text summary does not tell whether it is backscatter: {}', what, lines)
    for ax, low, high in (('Northing', g.min_y, g.max_y), ('Easting', g.min_x, g.max_x)):
        got = [l.split() for l in lines if l.startswith('Minimum {}: '.format(ax))]
        check(len(got) == 1 and len(got[0]) == 6 and float(got[0][2]) == low and float(got[0][5]) == high, '{}text summary has the {} {}, grid has {} {}', what, ax, got, low, high)
