"""Numeric helpers against naive computation."""
import bisect
import os
import time
from datetime import datetime, timedelta

import numpy as np
from hypothesis import strategies as st

from bgv import model
from bgv.runner import check

EXAMPLES = {'quick': 6000, 'thorough': 150000}
RULE = ('random sorted bin edges (even and uneven, one to forty bins per direction, coordinates of any size) with points inside, on edges and one float below edges, as numpy '
        'arrays and as dask arrays in random chunks (the same or others for x and y), against a bin search point by point; random numbers near and far from powers of two and every whole number up to 2^15; '
        'random whole seconds in several time zones. Non-trivial: at least four bins with soundings of which one is on an edge, a number that is not whole, or a time with a '
        'zone other than UTC.')
ASSUMPTIONS = ['points are within the outer edges', 'numbers within 0.1 percent of a power of two without being one are not asked (the test allows for rounding)']
ZONES = ['UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Auckland', 'EST5EDT', 'XYZ-11']


@st.composite
def edges(draw):
    n = draw(st.integers(1, 40)) if draw(st.booleans()) else draw(st.integers(1, 4))
    start = draw(st.sampled_from([0, 0, -8, 500000, -5400000, 0.125, 1e7]))
    if draw(st.booleans()):
        step = draw(st.sampled_from([0.25, 1, 0.1, 8, 1024]))
        return [start + step * i for i in range(n + 1)]
    out = [start]
    for _ in range(n):
        out.append(out[-1] + draw(st.integers(1, 64)) / 8)
    return out


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(['bins', 'bins', 'power', 'time']))
    if kind == 'bins':
        xe, ye = draw(edges()), draw(edges())
        n = draw(st.integers(1, 30))
        raw = draw(st.binary(min_size=4 * n, max_size=4 * n))
        cuts = draw(st.lists(st.integers(1, n), max_size=4, unique=True))
        cuty = draw(st.one_of(st.just(cuts), st.lists(st.integers(1, n), max_size=4, unique=True)))
        return {'kind': kind, 'xe': xe, 'ye': ye, 'pts': [list(raw[i:i + 4]) for i in range(0, len(raw), 4)], 'cuts': sorted(cuts), 'cuty': sorted(cuty), 'flags': draw(st.integers(0, 3))}
    if kind == 'power':
        k = draw(st.integers(-10, 40))
        return {'kind': kind, 'k': k, 'm': draw(st.integers(1, 10 ** 6)), 'form': draw(st.integers(0, 4))}
    return {'kind': kind, 't': draw(st.integers(0, 4133894400)), 'tz': draw(st.integers(0, len(ZONES) - 1))}


def strategy(tier):
    return cases(tier)


def exhaustive(tier):
    for i in range(0, 2 ** 15, 1024):
        yield {'kind': 'range', 'lo': i, 'hi': i + 1024}


def place(e, a, b, edge):
    """a coordinate in bin a of the edges"""
    i = a % (len(e) - 1)
    lo, hi = e[i], e[i + 1]
    if edge == 1:
        return float(lo)
    if edge == 2 and i:
        return model.just_below(float(lo))
    if edge == 3:
        return model.just_below(float(hi))
    v = lo + (hi - lo) * (b / 256)
    return float(v) if v < hi else float(lo)


def run_case(case, ctx):
    from bathygrid import utilities as ut
    kind = case['kind']
    ctx.event(kind)
    if kind == 'bins':
        bins(ut, case, ctx)
    elif kind == 'range':
        for n in range(case['lo'], case['hi']):
            want = n > 0 and bin(n).count('1') == 1
            for v in (n, float(n), -n):
                check(bool(ut.is_power_of_two(v)) == (want and v > 0), 'is_power_of_two({!r}) is {}', v, ut.is_power_of_two(v))
        ctx.nontrivial = True
    elif kind == 'power':
        power(ut, case, ctx)
    else:
        times(ut, case, ctx)


def bins(ut, case, ctx):
    import dask.array as da
    xe, ye = case['xe'], case['ye']
    fl = case['flags']
    x = [place(xe, p[0], p[1], p[3] & 3 if fl & 1 else 0) for p in case['pts']]
    y = [place(ye, p[2], p[1], (p[3] >> 2) & 3 if fl & 2 else 0) for p in case['pts']]
    nx = len(xe) - 1
    want = [(bisect.bisect_right(ye, b) - 1) * nx + bisect.bisect_right(xe, a) - 1 for a, b in zip(x, y)]
    ax, ay = np.array(x), np.array(y)
    got = ut.bin2d_with_indices(ax, ay, np.array(xe), np.array(ye))
    check(np.shape(got) == (len(x),), 'the indices have the shape {}', np.shape(got))
    bad = [(a, b, int(g), w) for a, b, g, w in zip(x, y, np.asarray(got).tolist(), want) if g != w]
    check(not bad, 'points and bins (x, y, index, expected): {}', bad[:3])
    check(np.asarray(got).dtype.kind in 'iu', 'indices are {}', np.asarray(got).dtype)
    check(np.array_equal(ax, np.array(x)) and np.array_equal(ay, np.array(y)), 'the coordinates were changed')
    cuts = [0] + [c for c in case['cuts'] if c < len(x)] + [len(x)]
    chunks = tuple(b - a for a, b in zip(cuts, cuts[1:]))
    dx = da.from_array(ax, chunks=(chunks,))
    cuts = [0] + [c for c in case.get('cuty', case['cuts']) if c < len(x)] + [len(x)]
    other = tuple(b - a for a, b in zip(cuts, cuts[1:]))
    for each in dict.fromkeys([chunks, other]):
        dy = da.from_array(ay, chunks=(each,))
        again = ut.bin2d_with_indices(dx, dy, np.array(xe), np.array(ye))
        check(np.array_equal(np.asarray(again), want), 'dask arrays in chunks {} and {} give {}, expected {}', chunks, each, np.asarray(again).tolist()[:6], want[:6])
    if len(chunks) != len(other):
        ctx.event('x and y in a different number of chunks')
    elif chunks != other:
        ctx.event('x and y in different chunks')
    if len(chunks) > 1:
        ctx.event('several chunks')
    ctx.nontrivial = len(set(want)) >= 4 and (any(v in xe for v in x) or any(v in ye for v in y))


def power(ut, case, ctx):
    k, m, form = case['k'], case['m'], case['form']
    v = 2.0 ** k
    for n in [v, np.float64(v)] + ([int(v), np.int64(int(v))] if k >= 0 else []) + ([np.float32(v)]):
        check(bool(ut.is_power_of_two(n)), 'is_power_of_two({!r}) is False', n)
    if form < 2:
        f = v * (1 + 0.0011 + 0.9978 * (m / (10 ** 6 + 1)))
        f = min(f, v * 1.9985)
    elif form == 2:
        f = v * (3 if m % 2 else 1.5)
    elif form == 3:
        f = -v
    else:
        f = int(v) + m if k >= 1 else 1 / (m + 2)
        if isinstance(f, int):
            if f & (f - 1) == 0:
                return
        elif (m + 2) & (m + 1) == 0:
            return
    check(not ut.is_power_of_two(f), 'is_power_of_two({!r}) is True', f)
    ctx.nontrivial = float(f) != int(f)


def times(ut, case, ctx):
    t = case['t']
    old = os.environ.get('TZ')
    os.environ['TZ'] = ZONES[case['tz']]
    time.tzset()
    try:
        text = ut.utc_seconds_to_formatted_string(t)
        want = (datetime(1970, 1, 1) + timedelta(seconds=t)).isoformat()
        check(text == want, '{} seconds is {} in {}, expected {}', t, text, ZONES[case['tz']], want)
        back = ut.formatted_string_to_utc_seconds(text)
        check(back == t and isinstance(back, int), '{} reads back as {} in {}, written from {}', text, back, ZONES[case['tz']], t)
        check(ut.utc_seconds_to_formatted_string(t + 0.75) == want, '{} seconds is {}', t + 0.75, ut.utc_seconds_to_formatted_string(t + 0.75))
    finally:
        if old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = old
        time.tzset()
    ctx.nontrivial = case['tz'] > 0
