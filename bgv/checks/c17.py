"""Exported BAGs contain exactly the surface."""
import os
import re
from datetime import datetime, timedelta

import numpy as np
from hypothesis import strategies as st

from bgv import obs, raster, scene
from bgv.play import Player
from bgv.runner import Violation, check

EXAMPLES = {'quick': 700, 'thorough': 9000}
RULE = ('random gridded scenes exported to BAG with random chunk size, resolution limit and metadata; all files are read with GDAL and h5py, put together by their '
        'geotransforms, and their stored limits, time extents, coordinate system and metadata are compared with the grid. Backscatter grids must be refused. '
        'Non-trivial: more than two cells.')
ASSUMPTIONS = ['the uncertainty of a BAG is the vertical uncertainty; soundings without it give an uncertainty without values']
# GDAL's reader ignores the position of a BAG whose corner is exactly at 0, 0
BASES = [[4096.0, 8192.0], [500000.0, 5400000.0], [1000.125, -2000.5], [-500000.0, 640.0]]
HEIGHTS = 'VERTCRS["local height",VDATUM["local"],CS[vertical,1],AXIS["ellipsoidal height (h)",up,LENGTHUNIT["metre",1]]]'
TEXT = 'abc XYZ-09.,;:()'
GML = '{http://www.opengis.net/gml/3.2}'
GMD = '{http://www.isotc211.org/2005/gmd}'
BAG = '{http://www.opennavsurf.org/schema/bag}'


@st.composite
def cases(draw, tier):
    case = scene.scenes(draw, nanu=True, bs=False, fields=('t', 'th', 'th', 't', ''), bases=BASES)
    case['cfg']['bs'] = draw(st.integers(0, 11)) == 0
    case['dim'] = draw(st.sampled_from([None, None, 0.5, 1, 1.5, 2, 3]))
    case['only'] = draw(st.sampled_from([None, None, 0, 1]))
    case['taken'] = draw(st.sampled_from(raster.TAKEN))
    case['epsg'] = draw(st.sampled_from([26910, 32619]))
    text = st.text(alphabet=TEXT, min_size=1, max_size=12).map(str.strip).filter(bool)
    case['meta'] = {k: draw(text) for k in ('individual_name', 'organizational_name', 'position_name', 'abstract', 'other_constraints') if draw(st.booleans())}
    case['vert'] = draw(st.sampled_from([None, None, [5831, 'WKT2_2019'], [5866, 'WKT1_GDAL'], [5703, 'WKT2_2019'], [5703, 'WKT1_GDAL'], [5715, 'WKT2_2019']]))
    case['heights'] = draw(st.integers(0, 3)) == 3
    case['times'] = [draw(st.integers(1, 2 * 10 ** 9)), draw(st.integers(0, 10 ** 6))] if draw(st.integers(0, 3)) else None
    return case


def strategy(tier):
    return cases(tier)


def run_case(case, ctx):
    cfg = case['cfg']
    if case['times']:
        first = dict(min_time=case['times'][0], max_time=case['times'][0] + case['times'][1])
        case = dict(case, adds=[case['adds'][0] + [first]] + case['adds'][1:])
    p = scene.build(case, ctx, epsg=case['epsg'], vref=HEIGHTS if case.get('heights') else 'waterline')
    if not p.model.n:
        return
    grid = p.grid
    surf = scene.surfaces(grid)
    out = ctx.newdir(make=True)
    kw = dict(case['meta'])
    if cfg['bs']:
        try:
            grid.export(os.path.join(out, 'out.bag'), 'bag', **kw)
        except ValueError:
            check(not os.listdir(out), 'refused export left {}', os.listdir(out))
            ctx.event('backscatter refused')
            ctx.nontrivial = True
            return
        raise Violation('a backscatter grid was exported as BAG')
    scene.stats(ctx, surf)
    wanted = list(grid.resolutions)
    if case['only'] is not None:
        wanted = [sorted(surf)[case['only'] % len(surf)]]
        kw['resolution'] = wanted[0]
    if case['dim'] is not None:
        kw['override_maximum_chunk_dimension'] = case['dim'] * cfg['tile']
    vert = None
    if case['vert']:
        from pyproj import CRS
        vert = CRS.from_epsg(case['vert'][0])
        kw['vert_crs'] = vert.to_wkt(case['vert'][1])
        ctx.event('vertical system {}'.format(case['vert'][0]))
    raster.export(grid, case, ctx, out, '.bag', 'bag', **kw)
    import h5py
    got = {}
    names = raster.files(out, '.bag')
    for f in names:
        path = os.path.join(out, f)
        geo, bands, arrays, ds = raster.read(path, f)
        check([b.lower() for b in bands] == ['elevation', 'uncertainty'], '{}: bands {}', f, bands)
        check(raster.same_crs(ds, case['epsg']), '{}: coordinate system {}', f, ds.GetProjection()[:100])
        ds = None
        raster.limits(geo, arrays[0], kw.get('override_maximum_chunk_dimension'), cfg['tile'], f)
        mine = got.setdefault(float(geo[1]), {})
        for band, a in zip(['Elevation', 'Uncertainty'], arrays):
            raster.merge(mine.setdefault(band, {}), raster.cells(geo, a, f), f)
        with h5py.File(path, 'r') as h:
            root = h['BAG_root']
            elev = arrays[0][arrays[0] != raster.NODATA]
            want = (float(elev.min()), float(elev.max()))
            at = root['elevation'].attrs
            have = (float(at['Minimum Elevation Value']), float(at['Maximum Elevation Value']))
            check(have == want, '{}: stored elevation limits {}, data {}', f, have, want)
            unc = arrays[1][arrays[1] != raster.NODATA]
            if unc.size:
                at = root['uncertainty'].attrs
                have = (float(at['Minimum Uncertainty Value']), float(at['Maximum Uncertainty Value']))
                want = (float(unc.min()), float(unc.max()))
                check(have == want, '{}: stored uncertainty limits {}, data {}', f, have, want)
            text = root['metadata'][:].tobytes().decode().replace('\x00', '')
        metadata(text, case, grid, f)
        vertical(path, vert, f)
        registration(os.path.splitext(path)[0] + '.bag_rxl', case['epsg'], f)
    check(sorted(got) == sorted(wanted), 'files for resolutions {}, expected {}', sorted(got), sorted(wanted))
    for res in wanted:
        raster.compare(got[res]['Elevation'], {k: v if case.get('heights') else -v for k, v in surf[res]['depth'].items()}, 'elevation at {}'.format(res))
        raster.compare(got[res].get('Uncertainty', {}), surf[res].get('vertical_uncertainty', {}), 'uncertainty at {}'.format(res))
    if len(names) > len(wanted):
        ctx.event('several files per resolution')
    if len(wanted) > 1:
        ctx.event('several resolutions exported')


def metadata(text, case, grid, f):
    import xml.etree.ElementTree as et
    root = et.fromstring(text)
    begin = [e.text for e in root.iter(GML + 'beginPosition')]
    end = [e.text for e in root.iter(GML + 'endPosition')]
    if case['times']:
        def fmt(t):
            return (datetime(1970, 1, 1) + timedelta(seconds=t)).strftime('%Y-%m-%dT%H:%M:%S')
        a, b = fmt(case['times'][0]), fmt(case['times'][0] + case['times'][1])
        check(begin == [a] and end == [b], '{}: time extent {} to {}, the soundings are from {} to {}', f, begin, end, a, b)
        # where a reader of BAGs looks for it
        period = [e for x in root.iter(BAG + 'BAG_DataIdentification') for e in x.iterfind('{0}extent/{0}EX_Extent/{0}temporalElement/{0}EX_TemporalExtent/{0}extent/{1}TimePeriod'.format(GMD, GML))]
        check([e.findtext(GML + 'beginPosition') for e in period] == [a], '{}: the time extent is not part of the identification of the data', f)
    else:
        check(not begin and not end, '{}: time extent {} to {} without times', f, begin, end)
    idents = root.findall(GMD + 'identificationInfo')
    check(len(idents) == 1 and len(list(root.iter(BAG + 'BAG_DataIdentification'))) == 1, '{}: {} identifications of the data', f, len(idents))
    strings = {e.text for e in root.iter() if e.text}
    for k, v in case['meta'].items():
        check(any(v in s for s in strings), '{}: {} "{}" is not in the metadata', f, k, v)


def vertical(path, vert, f):
    """the vertical coordinate system is the one that was given, positive up like the elevations"""
    from bathygrid.utilities import return_bag_vertical_wkt
    from pyproj import CRS
    got = CRS.from_wkt(return_bag_vertical_wkt(path))
    check(got.is_vertical, '{}: vertical coordinate system {}', f, got)
    if vert is not None:
        check(got.name == vert.name, '{}: vertical coordinate system {}, given {}', f, got.name, vert.name)
        check(got.axis_info[0].direction == 'up', '{}: the vertical axis points {}, elevations are positive up', f, got.axis_info[0].direction)


def registration(path, epsg, f):
    """the file for Caris next to the BAG has the same coordinate system"""
    import xml.etree.ElementTree as et
    from pyproj import CRS
    check(os.path.exists(path), '{}: no registration file', f)
    wkt = [e.text for e in et.parse(path).getroot().iter('wkt')]
    check(len(wkt) == 1, '{}: {} coordinate systems in the registration file', f, len(wkt))
    got = CRS.from_wkt(wkt[0].strip())
    check(got.to_epsg() == epsg or got.name == CRS.from_epsg(epsg).name, '{}: coordinate system {} in the registration file', f, got.name)
