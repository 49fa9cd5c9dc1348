"""The order of additions and add/remove detours do not change the result."""
from hypothesis import strategies as st

from bgv import gen, model, obs
from bgv.play import Player
from bgv.runner import check

EXAMPLES = {'quick': 900, 'thorough': 14000}
RULE = ('two grids end up with the same random sources: one by plain additions, the other in a permuted order with detours (other sources added and removed, '
        'sources removed and re-added, everything removed, griddings in between, reloads). Soundings per tile and source, surfaces after gridding, coordinate '
        'system, vertical reference, mean depth and sources are compared. Non-trivial: at least two sources and a detour or another order.')
ASSUMPTIONS = ['the same vertical reference for all sources, the same coordinate system for all that give one', 'automatic resolution is only compared where the mean is not within rounding of a band limit']


@st.composite
def cases(draw, tier):
    disk = draw(st.integers(0, 9)) == 9
    cfg = gen.configs(draw, storages=('numpy', 'zarr') if disk else ('mem', 'memz'))
    n = draw(st.integers(1, 3 if disk else 4))
    sources = [gen.batch(draw, cfg, 25) for _ in range(n)]
    detours = [gen.batch(draw, cfg, 15) for _ in range(draw(st.integers(0, 2)))]
    order = draw(st.permutations(list(range(n))))
    # what happens before each addition and at the end
    slots = [[draw(st.sampled_from(['detour', 'readd', 'grid', 'none', 'rmall', 'reload', 'detour2'])) for _ in range(draw(st.integers(0, 2)))] for _ in range(n + 1)]
    return {'cfg': cfg, 'sources': sources, 'detours': detours, 'order': order, 'slots': slots, 'shift': draw(st.integers(0, 11)),
            'mode': draw(st.sampled_from(['fixed', 'fixed', 'depth', 'density'])), 'pick': draw(st.integers(0, 3)),
            'opt': draw(st.sampled_from(['full', 'update'])), 'nocrs': draw(st.sampled_from([None, None, 0, 1, 2, 3]))}


def strategy(tier):
    return cases(tier)


def run_case(case, ctx):
    cfg = case['cfg']
    names = [gen.NAMES[(case['shift'] + i) % len(gen.NAMES)] for i in range(len(case['sources']) + 2)]
    a = Player(cfg, ctx, storage='mem')
    # one of the sources may come without a coordinate system, if another one has it
    bare = case['nocrs'] % len(case['sources']) if case['nocrs'] is not None and len(case['sources']) > 1 else None

    def crs(i):
        return {'crs': None} if i == bare else {}

    for i, pts in enumerate(case['sources']):
        a.add(names[i], pts, **crs(i))
    if bare is not None:
        ctx.event('source without coordinate system')
    b = Player(cfg, ctx)
    did = set()
    pending = []

    def slot(k):
        for what in case['slots'][k]:
            if what in ('detour', 'detour2') and case['detours']:
                j = 0 if what == 'detour' else len(case['detours']) - 1
                nm = names[len(case['sources']) + j]
                if nm in b.model.sources:
                    b.remove(nm)
                    did.add('detour removed later')
                else:
                    b.add(nm, case['detours'][j])
                    did.add('detour')
                    if what == 'detour':
                        b.remove(nm)
            elif what == 'readd' and b.model.sources:
                nm = list(b.model.sources)[case['pick'] % len(b.model.sources)]
                if nm in names[:len(case['sources'])]:
                    b.remove(nm)
                    pending.append(nm)
                    did.add('readd')
                    if case['pick'] % 2:
                        b.add(nm, case['sources'][names.index(nm)], **crs(names.index(nm)))
                        pending.remove(nm)
            elif what == 'grid' and b.model.n:
                b.regrid(res=cfg['res'], opt='full')
                did.add('gridded between')
            elif what == 'rmall' and b.model.n:
                for nm in list(b.model.sources):
                    b.remove(nm)
                    if nm in names[:len(case['sources'])]:
                        pending.append(nm)
                did.add('everything removed')
            elif what == 'reload' and b.reload():
                did.add('reloaded')

    for k, i in enumerate(case['order']):
        slot(k)
        b.add(names[i], case['sources'][i], **crs(i))
    slot(len(case['order']))
    for nm in pending:
        b.add(nm, case['sources'][names.index(nm)], **crs(names.index(nm)))
    for nm in list(b.model.sources):
        if nm not in a.model.sources:
            b.remove(nm)
    if case['order'] != sorted(case['order']):
        did.add('other order')
    # ungridded comparison
    compare(a, b, 'before gridding', cells=False)
    mode = case['mode']
    pts = a.model.all()
    leaf = cfg['sub'] if cfg['kind'] == 'vr' else cfg['tile']
    if cfg['zs'] != 'e' or (cfg['kind'] == 'sr' and model.near_band(float(pts['z'].astype('f8').mean()), 0.0006 * (a.adds + b.adds + b.removes + 1))):
        mode = 'fixed'
    if mode != 'fixed' and cfg['tile'] > 16 and not (cfg['kind'] == 'vr' and leaf <= 16):
        mode = 'fixed'
    for p in (a, b):
        if mode == 'fixed':
            opt = case['opt'] if p is b and b.gridded else 'full'
            p.regrid(res=cfg['res'], opt=opt)
        else:
            p.regrid(res=None, mode=mode, clear=p.gridded is not None)
    compare(a, b, 'after gridding ({})'.format(mode), cells=True)
    for d in did:
        ctx.event(d)
    ctx.event('{} {}'.format(cfg['kind'], cfg['storage']))
    ctx.event('mode ' + mode)
    ctx.nontrivial = bool(did) and len(case['sources']) > 1


def compare(a, b, what, cells):
    sa, sb = obs.snapshot(a.grid), obs.snapshot(b.grid)
    obs.diff_points(sa, sb, what)
    cfg = a.cfg
    if cells:
        obs.diff_cells(sa, sb, cfg['alg'], obs.ztol(cfg), what)
        for t in obs.leaves(b.grid):
            obs.check_leaf(t, cfg, cfg['alg'], a.zkey, what + ': ')
        check(sa['meta']['resolutions'] == sb['meta']['resolutions'], '{}: resolutions {} and {}', what, sa['meta']['resolutions'], sb['meta']['resolutions'])
    ma, mb = sa['meta'], sb['meta']
    for k in ('epsg', 'vertical_reference', 'points_count', 'number_of_tiles', 'is_empty', 'unique'):
        check(ma[k] == mb[k], '{}: {} is {} and {}', what, k, ma[k], mb[k])
    check(ma['container'] == mb['container'], '{}: sources {} and {}', what, ma['container'], mb['container'])
    tol = 0.00051 * (a.adds + b.adds + b.removes + 1) + (2e-5 * abs(ma['mean_depth']) if cfg['zdt'] == 'f4' else 0)
    check(abs(ma['mean_depth'] - mb['mean_depth']) <= tol, '{}: mean depth {} and {}', what, ma['mean_depth'], mb['mean_depth'])
