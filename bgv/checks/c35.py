"""The raster writer and the coordinate system helper of the utilities."""
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from bgv.runner import check

EXAMPLES = {'quick': 1500, 'thorough': 40000}
RULE = ('random lists of arrays (1 to 5 bands, single row and single column included, decimals, whole numbers, booleans as numbers, constant, all zero and mostly empty), drivers, no-data values, '
        'band names, geotransforms, coordinate systems and creation options are written with gdal_raster_create and read back; random coordinate systems are given to crs_to_osgeo in all '
        'accepted forms, and names and codes that are no coordinate system. Non-trivial: the raster has more than one row and column and two different values, or the coordinate system is projected.')
ASSUMPTIONS = ['the values are given as decimals or whole numbers a single precision number can hold', 'BAG: one or two bands, the no-data value of the format']
CODES = ([26900 + z for z in range(1, 24)] + [32600 + z for z in (1, 5, 10, 17, 18, 19, 33, 60)] + [32700 + z for z in (1, 20, 58, 60)] +
         [2225, 2263, 2284, 3395, 3857, 3031, 3413, 6339, 6348, 3338, 26729] + [4326, 4269, 4267, 6318])
NODATA = [1000000.0, 1000000.0, -9999.0, 0.0, float('nan'), -32768.0]


@st.composite
def cases(draw, tier):
    if draw(st.integers(0, 4)) == 0:
        form = draw(st.sampled_from(['pyproj', 'int', 'str', 'wkt1', 'wkt2', 'wktdef', 'proj4', 'bad']))
        if form == 'bad':
            return {'raise': draw(st.booleans()), 'bad': draw(st.one_of(st.text('abcdefghijklmnopqrstuvwxyz _', max_size=12), st.integers(900000, 999999), st.integers(900000, 999999).map(str),
                                          st.sampled_from(['PROJCS["half', '+proj=nosuchprojection', 'NOSUCH["x",1]', '-1', '0'])))}
        return {'crs': draw(st.sampled_from(CODES)), 'form': form, 'raise': draw(st.booleans()), 'at': [draw(st.floats(-2, 2)), draw(st.floats(0, 1))]}
    driver = draw(st.sampled_from(['GTiff', 'GTiff', 'MEM', 'BAG']))
    bands = draw(st.integers(1, 2 if driver == 'BAG' else 5))
    shape = [draw(st.sampled_from([1, 2, 3, 4, 7, 16, 33, 70])), draw(st.sampled_from([1, 2, 3, 5, 8, 17, 64, 130]))]
    nodata = 1000000.0 if driver == 'BAG' else draw(st.sampled_from(NODATA))
    low = 1 if driver == 'BAG' else -10 ** 6  # the driver of the format takes an origin of zero for no origin
    return {'driver': driver, 'shape': shape, 'nodata': nodata, 'kinds': [draw(st.sampled_from(['float', 'float', 'float32', 'int', 'zero', 'one', 'sparse'])) for _ in range(bands)],
            'seed': draw(st.integers(0, 2 ** 31)), 'transpose': draw(st.sampled_from([None, True, False])), 'order': draw(st.sampled_from(['C', 'F', 'view'])),
            'names': draw(st.sampled_from([None, 'tuple', 'list'])), 'geo': [draw(st.integers(low, 10 ** 6)) / 8, draw(st.integers(low, 10 ** 7)) / 8, draw(st.sampled_from([0.5, 1, 2, 8, 0.25, 128]))] if draw(st.booleans()) else
            # positions single precision does not hold
            [draw(st.integers(64 * 10 ** 5, 9 * 64 * 10 ** 5)) / 64, draw(st.integers(64 * 10 ** 5, 64 * 9 * 10 ** (5 if driver == 'BAG' else 6))) / 64, draw(st.sampled_from([0.5, 1, 2, 8, 0.25, 128]))],
            'code': draw(st.sampled_from([c for c in CODES if c > 26000 and c < 33000])), 'as': draw(st.sampled_from(['int', 'pyproj'])),
            'opts': draw(st.sampled_from([None, ['COMPRESS=DEFLATE'], ['TILED=YES', 'BLOCKXSIZE=16', 'BLOCKYSIZE=16'], ['COMPRESS=LZW', 'SPARSE_OK=TRUE'], ['INTERLEAVE=BAND']])) if driver == 'GTiff' else None,
            'twice': draw(st.integers(0, 5)) == 5}


def strategy(tier):
    return cases(tier)


def band(kind, shape, rng, nodata):
    if kind == 'zero':
        return np.zeros(shape)
    if kind == 'one':
        return np.full(shape, rng.uniform(-50, 50))
    if kind == 'int':
        return rng.integers(-2 ** 24, 2 ** 24, shape)
    a = rng.uniform(-1000, 1000, shape)
    if kind == 'sparse':
        a[rng.random(shape) < 0.9] = nodata
    return a.astype(np.float32) if kind == 'float32' else a


def raster(case, ctx):
    from osgeo import gdal, osr
    from pyproj import CRS
    from bathygrid import utilities as u
    rng = np.random.default_rng(case['seed'])
    shape = tuple(case['shape'])
    data = [band(k, shape, rng, case['nodata']) for k in case['kinds']]
    if case['order'] == 'F':
        data = [np.asfortranarray(d) for d in data]
    elif case['order'] == 'view':
        data = [np.repeat(np.repeat(d, 2, 0), 2, 1)[::2, ::2] for d in data]
    before = [d.copy() for d in data]
    x, y, s = case['geo']
    geo = [x, s, 0, y, 0, -s]
    kw = {'nodatavalue': case['nodata'], 'driver': case['driver']}
    if case['transpose'] is not None:
        kw['transpose'] = case['transpose']
    names = ['band {}'.format(i) for i in range(len(data))]
    if case['driver'] == 'BAG':
        names = ['elevation', 'uncertainty'][:len(data)]
    if case['names']:
        kw['bandnames'] = tuple(names) if case['names'] == 'tuple' else list(names)
    if case['opts']:
        kw['creation_options'] = list(case['opts'])
    crs = case['code'] if case['as'] == 'int' else CRS.from_epsg(case['code'])
    path = os.path.join(ctx.newdir(make=True), 'raster.bag' if case['driver'] == 'BAG' else 'raster.tif')
    given = list(data)
    for _ in range(2 if case['twice'] else 1):
        ret = u.gdal_raster_create(path, data, geo, crs, **kw)
    check(len(data) == len(given) and all(a is b for a, b in zip(data, given)), 'the list of arrays is another after writing')
    check(geo == [x, s, 0, y, 0, -s], 'the geotransform is changed: {}', geo)
    for d, b in zip(data, before):
        check(np.array_equal(d, b, equal_nan=d.dtype.kind == 'f'), 'the arrays are changed by writing them')
    if case['driver'] == 'MEM':
        check(ret is not None, 'no dataset for the MEM driver')
        check(not os.listdir(os.path.dirname(path)), 'the MEM driver wrote {}', os.listdir(os.path.dirname(path)))
        ds = ret
    else:
        check(os.path.exists(path), 'no file written')
        ds = gdal.Open(path)
        check(ds is not None, 'the raster does not open')
        check(ds.GetDriver().ShortName == case['driver'], 'the raster is a {}', ds.GetDriver().ShortName)
    want = [(b if case['transpose'] is False else b.T).astype(np.float64).astype(np.float32) for b in before]
    check((ds.RasterYSize, ds.RasterXSize) == want[0].shape, 'the raster has {} rows and {} columns, the data {}', ds.RasterYSize, ds.RasterXSize, want[0].shape)
    check(tuple(ds.GetGeoTransform()) == tuple(geo), 'geotransform {} written as {}', geo, ds.GetGeoTransform())
    if case['driver'] == 'BAG':
        check(ds.RasterCount >= len(want), '{} bands for {} arrays', ds.RasterCount, len(want))
    else:
        check(ds.RasterCount == len(want), '{} bands for {} arrays', ds.RasterCount, len(want))
    for i, w in enumerate(want):
        b = ds.GetRasterBand(i + 1)
        got = b.ReadAsArray()
        check(np.array_equal(got, w, equal_nan=True), 'band {} reads back as\n{}\nfor\n{}', i + 1, got, w)
        nd = b.GetNoDataValue()
        check(nd is not None and (nd == case['nodata'] or (nd != nd and case['nodata'] != case['nodata'])), 'the no-data value of band {} is {} for {}', i + 1, nd, case['nodata'])
        if case['names'] or case['driver'] == 'BAG':
            check(b.GetDescription() == names[i], 'band {} is called {!r} for {!r}', i + 1, b.GetDescription(), names[i])
    srs = osr.SpatialReference()
    srs.ImportFromWkt(ds.GetProjection())
    if srs.IsCompound():
        srs.StripVertical()
    ref = osr.SpatialReference()
    ref.ImportFromEPSG(case['code'])
    check(srs.IsSame(ref, ['IGNORE_DATA_AXIS_TO_SRS_AXIS_MAPPING=YES']), 'the system of the raster is {} for EPSG {}', srs.GetName(), case['code'])
    ctx.event('driver: ' + case['driver'])
    if shape[0] != shape[1]:
        ctx.event('not square')
    if min(shape) > 1 and len(np.unique(want[0])) > 1:
        ctx.nontrivial = True
    ds = None


def convert(value, exceptions):
    """the bindings may raise exceptions or return error codes"""
    from osgeo import osr
    from bathygrid import utilities as u
    (osr.UseExceptions if exceptions else osr.DontUseExceptions)()
    try:
        return u.crs_to_osgeo(value)
    finally:
        osr.UseExceptions()


def system(case, ctx):
    from osgeo import osr
    from pyproj import CRS, Transformer
    from bathygrid import utilities as u
    code = case['crs']
    base = CRS.from_epsg(code)
    form = case['form']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        text = {'pyproj': base, 'int': code, 'str': str(code), 'wkt1': None, 'wkt2': None, 'wktdef': base.to_wkt(), 'proj4': base.to_proj4()}
    if form == 'wkt1':
        text['wkt1'] = base.to_wkt('WKT1_GDAL')
    elif form == 'wkt2':
        text['wkt2'] = base.to_wkt('WKT2_2019')
    got = convert(text[form], case['raise'])
    ctx.event('crs: ' + form)
    if form != 'proj4':  # the Proj4 form does not name the datum of all systems
        ref = osr.SpatialReference()
        ref.ImportFromEPSG(code)
        check(got.IsSame(ref, ['IGNORE_DATA_AXIS_TO_SRS_AXIS_MAPPING=YES']), 'EPSG {} given as {} is {}', code, form, got.GetName())
        check(got.GetAuthorityCode(None) == str(code), 'EPSG {} given as {} has the code {}', code, form, got.GetAuthorityCode(None))
        if form in ('pyproj', 'int'):
            other = u.pyproj_crs_to_osgeo(text[form])
            check(other.IsSame(ref, ['IGNORE_DATA_AXIS_TO_SRS_AXIS_MAPPING=YES']), 'EPSG {} given as {} to pyproj_crs_to_osgeo is {}', code, form, other.GetName())
    check(bool(got.IsProjected()) == bool(base.is_projected) and bool(got.IsGeographic()) == bool(base.is_geographic), 'EPSG {} given as {}: projected {}, geographic {}', code, form,
          got.IsProjected(), got.IsGeographic())
    if base.is_projected:
        # the same place of the earth
        area = base.area_of_use
        west, east = (area.west, area.east) if area.east > area.west else (area.west, area.west + 1)
        lon = (west + east) / 2 + case['at'][0]
        lat = min(max(area.south + (area.north - area.south) * case['at'][1], -80), 80)
        x, y = Transformer.from_crs(base.geodetic_crs, base, always_xy=True).transform(lon, lat)
        geog = got.CloneGeogCS()
        geog.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
        got.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
        gx, gy, _ = osr.CoordinateTransformation(geog, got).TransformPoint(lon, lat)
        check(abs(gx - x) < 0.01 and abs(gy - y) < 0.01, 'EPSG {} given as {} puts {} {} at {} {} for {} {}', code, form, lon, lat, gx, gy, x, y)
        ctx.nontrivial = True


def run_case(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore', FutureWarning)
        if 'bad' in case:
            try:
                got = convert(case['bad'], case['raise'])
            except Exception:
                ctx.event('no coordinate system')
                return
            check(False, '{!r} is taken as the coordinate system {!r}', case['bad'], got.ExportToWkt())
        elif 'crs' in case:
            system(case, ctx)
        else:
            raster(case, ctx)
