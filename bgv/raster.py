"""Reading exported rasters back."""
import os

import numpy as np

from bgv import obs
from bgv.runner import check

NODATA = np.float32(1000000.0)


def export(grid, case, ctx, folder, ext, fmt, **kw):
    """export to a path that may be taken already, or twice to the same path; returns the first part of the names of the files"""
    import re
    path = os.path.join(folder, 'out' + ext)
    taken = case.get('taken')
    if taken == 'file':
        with open(path, 'w') as f:
            f.write('something else')
    elif taken == 'folder':
        os.makedirs(os.path.join(path, 'inside'))
    for _ in range(2 if taken == 'twice' else 1):
        grid.export(path, fmt, **kw)
    if taken:
        ctx.event('output path: ' + taken)
    if taken in ('file', 'folder'):
        if taken == 'file':
            with open(path) as f:
                check(f.read() == 'something else', 'the export changed the file that was at its output path')
            os.remove(path)
        else:
            check(os.listdir(path) == ['inside'] and not os.listdir(os.path.join(path, 'inside')), 'the export changed the folder that was at its output path: {}', os.listdir(path))
            os.rmdir(os.path.join(path, 'inside'))
            os.rmdir(path)
        bases = set()
        for name in os.listdir(folder):
            m = re.match(r'out_[0-9]{8}_[0-9]{6}', name)
            check(m, 'the output path is taken, the export made {}', name)
            bases.add(m.group(0))
        check(len(bases) == 1, 'one export made {}', sorted(bases))
        return bases.pop()
    check(not os.path.exists(path) or os.path.isfile(path), 'the export made {}', path)
    return 'out'


TAKEN = [None] * 6 + ['twice', 'file', 'folder']


def files(folder, ext):
    return sorted(f for f in os.listdir(folder) if f.endswith(ext))


def same_crs(ds, epsg):
    """the horizontal coordinate system of the file is this one"""
    from osgeo import osr
    srs = osr.SpatialReference()
    srs.ImportFromWkt(ds.GetProjection())
    if srs.IsCompound():
        srs.StripVertical()
    want = osr.SpatialReference()
    want.ImportFromEPSG(epsg)
    for s in (srs, want):
        s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    return bool(srs.IsSame(want)) or (srs.GetAuthorityCode('PROJCS') == str(epsg))


def read(path, what):
    """(resolution, geotransform, names, list of arrays with row 0 north, dataset facts)"""
    from osgeo import gdal
    ds = gdal.Open(path)
    check(ds is not None, '{} cannot be read', what)
    geo = ds.GetGeoTransform()
    check(geo[2] == 0 and geo[4] == 0 and geo[1] > 0 and abs(geo[1] + geo[5]) < 1e-9, '{}: geotransform {}', what, geo)
    names, arrays = [], []
    for i in range(ds.RasterCount):
        b = ds.GetRasterBand(i + 1)
        names.append(b.GetDescription())
        check(b.GetNoDataValue() == float(NODATA), '{}: band {} has the no-data value {}', what, names[-1], b.GetNoDataValue())
        arrays.append(b.ReadAsArray())
    return geo, names, arrays, ds


def cells(geo, a, what):
    """{(ix, iy): value} of a raster with row 0 in the north"""
    res = float(geo[1])
    check(res == round(res * 64) / 64, '{}: pixel size {}', what, res)
    x0, y1 = geo[0], geo[3]
    y0 = y1 - a.shape[0] * res
    ix, iy = x0 / res, y0 / res
    check(abs(ix - round(ix)) < 1e-4 and abs(iy - round(iy)) < 1e-4, '{}: origin {}, {} is not on the cells of {}', what, x0, y0, res)
    check(not np.isnan(a).any(), '{}: not-a-number in the raster', what)
    a = a[::-1]
    rows, cols = np.nonzero(a != NODATA)
    return {(int(round(ix)) + c, int(round(iy)) + r): v for r, c, v in zip(rows.tolist(), cols.tolist(), a[rows, cols].tolist())}


def merge(total, part, what):
    both = set(total) & set(part)
    check(not both, '{}: cells {} are in two files', what, sorted(both)[:3])
    total.update(part)


def compare(got, want, what):
    if got != want:
        missing = sorted(set(want) - set(got))[:3]
        extra = sorted(set(got) - set(want))[:3]
        other = [(k, got[k], want[k]) for k in want if k in got and got[k] != want[k]][:3]
        check(False, '{} is not the surface; missing {}, extra {}, other values {}', what, missing, extra, other)


def limits(geo, a, dim, tile, what):
    """files are not larger than asked for"""
    limit = max(dim if dim is not None else 32768.0, tile)
    check(a.shape[0] * geo[1] <= limit and a.shape[1] * geo[1] <= limit, '{}: {} x {} m, at most {} m', what, a.shape[1] * geo[1], a.shape[0] * geo[1], limit)
