"""Plots draw the statistics of the surface."""
from bisect import bisect_right

import numpy as np
from hypothesis import strategies as st

from bgv import obs, scene
from bgv.runner import check

EXAMPLES = {'quick': 500, 'thorough': 9000}
RULE = ('random gridded scenes; every plot is drawn with a random number of bins and the bars and lines of the figure are compared with histograms and bin averages '
        'computed from the cells of the tiles; the drawn tile boundaries are compared with the tiles. Non-trivial: more than two cells with different depths.')
ASSUMPTIONS = ['curves against depth are asked of depth grids', 'tile boundaries are single precision numbers']


@st.composite
def cases(draw, tier):
    case = scene.scenes(draw, bs=True, dense=60)
    case['bins'] = draw(st.sampled_from([None, 1, 2, 3, 7, 20, 60]))
    return case


def strategy(tier):
    return cases(tier)


def fresh():
    import matplotlib.pyplot as plt
    plt.close('all')
    return plt


def bars(ax):
    """(left edges, heights) of the bars that are drawn"""
    return [float(b.get_x()) for b in ax.patches], [float(b.get_height()) for b in ax.patches]


def histogram(draw, values, bins, what, ctx):
    plt = fresh()
    draw(**({} if bins is None else {'number_of_bins': bins}))
    if values is None:
        check(not plt.get_fignums() or not plt.gca().patches, '{}: bars without values', what)
        ctx.event('nothing to draw')
        return
    check(len(plt.get_fignums()) == 1, '{}: {} figures', what, len(plt.get_fignums()))
    ax = plt.gca()
    n = bins or 50
    left, high = bars(ax)
    check(len(high) == n, '{}: {} bars, asked for {}', what, len(high), n)
    check(sum(high) == values.size, '{}: {} cells drawn, the surface has {}', what, sum(high), values.size)
    want, edges = np.histogram(values, n)
    check(np.allclose(left, edges[:-1], rtol=1e-5, atol=1e-6 * max(1.0, float(np.abs(values).max()))), '{}: bars at {}..., expected {}...', what, left[:3], edges[:3])
    got, have = np.cumsum(high), np.cumsum(want)
    for i in range(n - 1):
        # values that are an edge of a bin up to rounding may be on either side
        near = int(np.sum(np.abs(values.astype('f8') - edges[i + 1]) <= 1e-5 * max(1.0, abs(float(edges[i + 1])))))
        check(abs(got[i] - have[i]) <= near, '{}: {} cells below {}, the surface has {}', what, got[i], edges[i + 1], have[i])
    check(str(n) in ax.get_title(), '{}: title {}', what, ax.get_title())
    check('Cells' in ax.get_ylabel() and ax.get_xlabel(), '{}: labels {} {}', what, ax.get_xlabel(), ax.get_ylabel())


def curve(draw, pairs, bins, what):
    plt = fresh()
    draw(**({} if bins is None else {'number_of_bins': bins}))
    ax = plt.gca()
    check(len(ax.lines) == 1, '{}: {} lines', what, len(ax.lines))
    x, y = [np.asarray(v, dtype='f8').tolist() for v in ax.lines[0].get_data()]
    n = bins or 50
    z = [q[1] for q in pairs]
    edges = np.linspace(min(z) - 0.001, max(z) + 0.001, n + 1).tolist()
    groups = {}
    for d, v in pairs:
        i = bisect_right(edges, v) - 1
        near = min(abs(v - e) for e in edges[max(i, 1):min(i + 2, n)]) if n > 1 and edges[max(i, 1):min(i + 2, n)] else 1
        if near <= 1e-5 * max(1.0, abs(v)):
            return False    # a depth at the edge of a bin
        groups.setdefault(i, []).append(d)
    order = sorted(groups)
    check(len(x) == len(order), '{}: {} points, {} bins have cells', what, len(x), len(order))
    for a, b, i in zip(x, y, order):
        tol = 1e-5 * max(1.0, abs(a))
        check(edges[i] - tol <= a <= edges[i + 1] + tol, '{}: point at {} for the bin from {} to {}', what, a, edges[i], edges[i + 1])
        want = sum(groups[i]) / len(groups[i])
        check(abs(b - want) <= 1e-5 * max(1.0, abs(want)), '{}: {} in the bin from {}, the average is {}', what, b, edges[i], want)
    return True


def outline(grid):
    """every edge of every tile is on the line that is drawn"""
    bx, by = grid.get_tile_boundaries()
    bx, by = np.asarray(bx), np.asarray(by)
    check(bx.ndim == 1 and bx.shape == by.shape, 'boundaries of the shapes {} and {}', bx.shape, by.shape)
    segments = set()
    pts = list(zip(bx.astype('f4').tolist(), by.astype('f4').tolist()))
    for a, b in zip(pts, pts[1:]):
        segments.add((a, b) if a <= b else (b, a))
    f = lambda v: float(np.float32(v))
    for t in grid.tiles.flat:
        if t is None:
            continue
        c = [(f(t.min_x), f(t.min_y)), (f(t.max_x), f(t.min_y)), (f(t.max_x), f(t.max_y)), (f(t.min_x), f(t.max_y))]
        for a, b in zip(c, c[1:] + c[:1]):
            check(((a, b) if a <= b else (b, a)) in segments, 'the edge from {} to {} of the tile {} is not drawn', a, b, t.name)


def run_case(case, ctx):
    p = scene.build(case, ctx)
    if not p.model.n:
        return
    grid, cfg, bins = p.grid, p.cfg, case['bins']
    surf = scene.surfaces(grid)
    n = scene.stats(ctx, surf)

    def values(lyr, dtype='f4'):
        if lyr not in next(iter(surf.values())):
            return None
        return np.array([v for s in surf.values() for v in s[lyr].values()], dtype=dtype)
    try:
        histogram(grid.plot_density_histogram, values('density', int), bins, 'plot_density_histogram', ctx)
        per = np.array([v / r ** 2 for r, s in surf.items() for v in s['density'].values()])
        histogram(grid.plot_density_per_square_meter_histogram, per, bins, 'plot_density_per_square_meter_histogram', ctx)
        histogram(grid.plot_z_histogram, values(p.zkey), bins, 'plot_z_histogram', ctx)
        import matplotlib.pyplot as plt
        check(p.zkey in plt.gca().get_xlabel().lower(), 'plot_z_histogram: the values of the layer {} are labelled {}', p.zkey, plt.gca().get_xlabel())
        histogram(grid.plot_vertical_uncertainty_histogram, values('vertical_uncertainty'), bins, 'plot_vertical_uncertainty_histogram', ctx)
        histogram(grid.plot_horizontal_uncertainty_histogram, values('horizontal_uncertainty'), bins, 'plot_horizontal_uncertainty_histogram', ctx)
        histogram(grid.plot_total_uncertainty_histogram, values('total_uncertainty'), bins, 'plot_total_uncertainty_histogram', ctx)
        if not cfg['bs']:
            pairs = [(s['density'][k], s['depth'][k]) for s in surf.values() for k in s['depth']]
            done = curve(grid.plot_density_vs_depth, pairs, bins, 'plot_density_vs_depth')
            pairs = [(s['density'][k] / r ** 2, s['depth'][k]) for r, s in surf.items() for k in s['depth']]
            done = curve(grid.plot_density_per_square_meter_vs_depth, pairs, bins, 'plot_density_per_square_meter_vs_depth') and done
            if done:
                ctx.event('curves against depth')
    finally:
        fresh()
    outline(grid)
    z = values(p.zkey)
    ctx.nontrivial = n > 2 and float(z.min()) != float(z.max())
