"""Creating, saving and loading grids in folders that hold something already."""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

from bgv import model, obs
from bgv.runner import Violation, check

EXAMPLES = {'quick': 700, 'thorough': 12000}
RULE = ('random sequences of creating, saving, loading and recognising grids in a scratch directory with relative, absolute, nested and separator-terminated paths, on '
        'folders that are missing, empty, hold files, folders, one grid or several; invalid options in between. Every file outside the folder that was to be written is compared '
        'before and after each step, and at the end every grid is loaded and compared with what was put into it. Non-trivial: a grid was asked for in a folder that held something.')
ASSUMPTIONS = ['the last part of a path is a name, not . or ..', 'no file carries the name of a grid root folder', 'grids are saved to folders without a grid', 'a refused request may leave an empty folder at the path it was given']
ROOTS = ['SRGrid_Root', 'VRGridTile_Root', 'SRGridZarr_Root', 'VRGridTileZarr_Root']
# names that look like the root folder of a grid
ALMOST = ['Backup_Root', 'SRGrid_Root_old', 'old_SRGrid_Root', 'VRGridTile', 'srgrid_root', 'VRGridTileZarr_Root.bak', 'Root', 'SRGridZarr']
NAMES = ['g', 'survey one', 'a/b', 'a', 'a/b/c', 'grid.v1', 'SRGrid', 'größe']
CFG = {'kind': 'sr', 'storage': 'numpy', 'tile': 4.0, 'sub': 2.0, 'res': 1.0, 'alg': 'mean', 'fields': 'xyz', 'zs': 'e', 'zdt': 'f8', 'base': [0, 0], 'bs': False}


@st.composite
def paths(draw):
    return [draw(st.sampled_from([0, 0, 0, 0, 1, 2, 2, 3, 4, 5, 6, 7])), draw(st.sampled_from(['rel', 'abs', 'dot', 'round'])), draw(st.sampled_from(['', '', '', '/', '//']))]


@st.composite
def steps(draw):
    k = draw(st.sampled_from(['make', 'create', 'create', 'create', 'save', 'save', 'bad', 'load', 'more', 'twin', 'memory']))
    if k == 'make':
        return [k, draw(paths()), draw(st.sampled_from(['empty', 'file', 'dirs', 'hidden', 'emptydir'] + ALMOST))]
    if k == 'create':
        return [k, draw(paths()), draw(st.sampled_from(['single_resolution', 'variable_resolution_tile'])), draw(st.sampled_from(['numpy', 'zarr'])),
                draw(st.booleans()), draw(st.integers(0, 3)), draw(st.booleans())]
    if k in ('save', 'more'):
        return [k, draw(paths()), draw(st.integers(0, 5))]
    if k == 'bad':
        return [k, draw(paths()), draw(st.integers(0, 13))]
    if k == 'twin':
        return [k, draw(paths()), draw(st.integers(0, 5))]
    return [k, draw(paths())]


@st.composite
def cases(draw, tier):
    first = ['create', [draw(st.sampled_from([0, 0, 1, 2])), draw(st.sampled_from(['rel', 'abs', 'dot', 'round'])), draw(st.sampled_from(['', '/']))],
             draw(st.sampled_from(['single_resolution', 'variable_resolution_tile'])), draw(st.sampled_from(['numpy', 'zarr'])), draw(st.booleans()), draw(st.integers(0, 2)), draw(st.booleans())]
    return {'steps': [first] + draw(st.lists(steps(), min_size=3, max_size=9 if tier == 'quick' else 16))}


def strategy(tier):
    return cases(tier)


def resolve(path, base):
    nm, form, tail = path
    rel = NAMES[nm]
    full = os.path.join(base, rel)
    if form == 'abs':
        text = full
    elif form == 'dot':
        text = os.path.join('.', rel)
    elif form == 'round':
        text = os.path.join('..', os.path.basename(base), rel)
    else:
        text = rel
    return text + tail, full


def under(path, folder):
    return path == folder or path.startswith(folder.rstrip('/') + '/')


def listing(base):
    return {os.path.normpath(os.path.join(base, k)) + ('/' if k.endswith('/') else ''): v for k, v in obs.file_listing(base).items()}


def untouched(before, after, folder, what, base, may_create=()):
    """files outside of the folder are as before; folders that lead to it may be new"""
    for k in set(before) | set(after):
        if folder is not None and under(k.rstrip('/'), folder):
            continue
        if k.endswith('/') and k not in before and any(under(f, k.rstrip('/')) for f in list(may_create) + ([folder] if folder else [])):
            continue
        if k not in after:
            raise Violation('{}: {} disappeared'.format(what, os.path.relpath(k, base)))
        if k not in before:
            raise Violation('{}: {} appeared'.format(what, os.path.relpath(k, base)))
        if before[k] != after[k]:
            raise Violation('{}: {} has other content'.format(what, os.path.relpath(k, base)))


def occupied(full):
    return os.path.isdir(full) and bool(os.listdir(full))


def grids_in(full):
    return [n for n in os.listdir(full) if n in ROOTS] if os.path.isdir(full) else []


def fill(grid, i, regrid):
    pts = [[8 * k + i, 8 * (k % 3) + 4 * i, 80 + k, 0] for k in range(1 + i)]
    grid.add_points(model.decode(CFG, pts), 'line{}'.format(i), crs=26917, vertical_reference='waterline', progress_bar=False)
    if regrid:
        grid.grid('mean', 1.0, progress_bar=False)


def landed(before, after_dir, full, was_occupied, got, what, base, occupant):
    """the folder that a grid went to is the right one"""
    got = os.path.realpath(got)
    if not was_occupied:
        check(got == full, '{}: went to {}, the folder given was free', what, os.path.relpath(got, base))
    else:
        check(got != full, '{}: went into the folder that holds something', what)
        check(os.path.dirname(got) == os.path.dirname(full), '{}: went to {}, not next to the folder given', what, os.path.relpath(got, base))
        check(got + '/' not in before and got not in before, '{}: went to {}, which existed', what, os.path.relpath(got, base))
        check(os.path.isdir(got), '{}: {} does not exist', what, os.path.relpath(got, base))
    return got


def run_case(case, ctx):
    base = os.path.realpath(ctx.newdir(make=True))
    here = os.getcwd()
    os.chdir(base)
    try:
        play(case, ctx, base)
    finally:
        os.chdir(here)


def play(case, ctx, base):
    from bathygrid import convenience as cv
    live = []       # [folder, grid, snapshot]
    for step in case['steps']:
        kind = step[0]
        text, full = resolve(step[1], base)
        before = listing(base)
        was = occupied(full)
        what = '{} {}'.format(kind, text if not text.startswith(base) else os.path.relpath(full, base))
        if kind == 'make':
            if os.path.exists(full) or any(under(full, f) for f, _, _ in live):
                continue
            os.makedirs(full)
            if step[2] == 'file':
                with open(os.path.join(full, 'notes.txt'), 'w') as f:
                    f.write('keep')
            elif step[2] == 'dirs':
                os.makedirs(os.path.join(full, 'sub', 'SRGrid_Root'))
                with open(os.path.join(full, 'sub', 'metadata.json'), 'w') as f:
                    f.write('{}')
            elif step[2] == 'hidden':
                with open(os.path.join(full, '.hidden'), 'w') as f:
                    f.write('keep')
            elif step[2] == 'emptydir':
                os.makedirs(os.path.join(full, 'nothing'))
            elif step[2] in ALMOST:
                os.makedirs(os.path.join(full, step[2]))
                with open(os.path.join(full, step[2], 'metadata.json'), 'w') as f:
                    f.write('{}')
                ctx.event('folder with a name like a grid root')
        elif kind == 'create':
            if any(under(full, f) and full != f for f, _, _ in live):
                continue    # inside of a grid
            existed = was
            grid = cv.create_grid(text, step[2], step[3], tile_size=4.0, subtile_size=2.0, is_backscatter=step[4])
            folder = landed(before, None, full, existed, grid.output_folder, what, base, None)
            if existed:
                ctx.nontrivial = True
                ctx.event('created next to an occupied folder')
            for f, _, snap in live:
                check(f != folder or snap is None, '{}: used the folder of another grid', what)
            live = [x for x in live if x[0] != folder]      # that one had nothing in its folder yet
            untouched(before, listing(base), folder, what, base)
            check(not grids_in(folder) or step[5] == 0, '{}: holds {} before anything was added', what, grids_in(folder))
            check(bool(grid.is_backscatter) == step[4] and grid.tile_size == 4.0, '{}: other options', what)
            if step[5]:
                for i in range(step[5]):
                    fill(grid, i, step[6] and i == step[5] - 1)
                check(grids_in(folder) == [grid.name], '{}: folder holds {}', what, os.listdir(folder))
                want = {('single_resolution', 'numpy'): 0, ('variable_resolution_tile', 'numpy'): 1, ('single_resolution', 'zarr'): 2, ('variable_resolution_tile', 'zarr'): 3}
                check(grid.name == ROOTS[want[(step[2], step[3])]], '{}: is a {}', what, grid.name)
                live.append([folder, grid, obs.snapshot(grid)])
            else:
                live.append([folder, grid, None])
        elif kind == 'memory':
            grid = cv.create_grid('', 'single_resolution', 'numpy', tile_size=4.0)
            fill(grid, 1, True)
            untouched(before, listing(base), None, 'grid in memory', base)
        elif kind == 'more':
            have = [e for e in live if e[2] is not None]
            if not have:
                continue
            e = have[step[2] % len(have)]
            free = [i for i in range(4, 12) if 'line{}'.format(i) not in e[1].container]
            if not free:
                continue
            fill(e[1], free[0], False)
            e[2] = obs.snapshot(e[1])
            untouched(before, listing(base), e[0], 'adding to {}'.format(os.path.relpath(e[0], base)), base)
        elif kind == 'save':
            have = [e for e in live if e[2] is not None]
            if not have or any(under(full, f) for f, _, _ in live) or grids_in(full):
                continue
            e = have[step[2] % len(have)]
            e[1].save(text, progress_bar=False)
            if was:
                ctx.nontrivial = True
                ctx.event('saved next to other content')
            check(os.path.realpath(e[1].output_folder) == full, '{}: went to {}', what, e[1].output_folder)
            check(grids_in(full) == [e[1].name], '{}: folder holds {}', what, os.listdir(full))
            untouched(before, listing(base), os.path.join(full, e[1].name), what, base)
            # the grid goes on in the new folder, the old one is a grid of its own
            old = cv.load_grid(e[0])
            obs.diff(e[2], obs.snapshot(old), '{}: the folder it came from'.format(what))
            live.append([full, e[1], obs.snapshot(e[1])])
            obs.diff(e[2], live[-1][2], '{}: the grid'.format(what))
            e[1] = old
        elif kind == 'twin':
            # another grid is copied into the folder of a grid: two grids in one folder
            have = [e for e in live if e[2] is not None]
            if not have or not os.path.isdir(full) or len(grids_in(full)) != 1:
                continue
            e = have[step[2] % len(have)]
            if under(full, e[0]) or e[1].name in os.listdir(full) or not any(f == full for f, _, _ in live):
                continue
            shutil.copytree(os.path.join(e[0], e[1].name), os.path.join(full, e[1].name))
            live = [x for x in live if x[0] != full]
            ctx.event('two grids in a folder')
        elif kind == 'bad':
            if any(under(full, f) and full != f for f, _, _ in live):
                continue
            kw = {'grid_type': 'single_resolution', 'grid_backend': 'numpy', 'tile_size': 4.0, 'subtile_size': 2.0}
            i = step[2]
            bad = [('grid_type', 'quadtree'), ('grid_type', ''), ('grid_backend', 'hdf5'), ('grid_backend', ''), ('tile_size', 3), ('tile_size', 1000.0), ('tile_size', 0),
                   ('tile_size', -4), ('tile_size', 0.3), ('tile_size', 4.5), ('grid_type', 'Single_Resolution'), ('subtile_size', 3), ('subtile_size', 0), ('subtile_size', 100)][i]
            kw[bad[0]] = bad[1]
            if bad[0] == 'subtile_size':
                kw['grid_type'] = 'variable_resolution_tile'
            for path in ('', text):
                try:
                    cv.create_grid(path, **kw)
                except Exception as ex:
                    if isinstance(ex, Violation):
                        raise
                else:
                    check(False, 'create_grid with {} {!r} was accepted', bad[0], bad[1])
            after = listing(base)
            new = [k for k in after if k not in before]
            check(all(k.endswith('/') for k in new), 'refused request made the files {}', new)
            fresh = [k.rstrip('/') for k in new if not any(o != k and under(o.rstrip('/'), k.rstrip('/')) for o in new)]
            check(len(fresh) <= 1 and all(os.path.dirname(k) == os.path.dirname(full) for k in fresh), 'refused request made the folders {}', new)
            untouched(before, after, None, what, base, fresh)
            ctx.event('invalid option')
        elif kind == 'load':
            load(cv, text, full, what, ctx, live)
            untouched(before, listing(base), None, what, base)
        for f in [d for d in before if d.endswith('/')][:12]:
            check(cv.is_bathygrid(f) == bool(grids_in(f.rstrip('/'))), 'is_bathygrid({}) is {}, it holds {}', os.path.relpath(f, base), cv.is_bathygrid(f), grids_in(f.rstrip('/')))
        check(cv.is_bathygrid(text) == bool(grids_in(full)), 'is_bathygrid({}) is {}', text, cv.is_bathygrid(text))
    before = listing(base)
    for folder, grid, snap in live:
        what = 'at the end, {}'.format(os.path.relpath(folder, base))
        if snap is None:
            check(not os.listdir(folder), '{}: holds {}, nothing was added', what, os.listdir(folder)) if os.path.isdir(folder) and not any(under(f, folder) and f != folder for f, _, _ in live) else None
            continue
        obs.diff(snap, obs.snapshot(grid), what)
        obs.diff(snap, obs.snapshot(cv.load_grid(folder)), what + ' loaded')
    untouched(before, listing(base), None, 'loading', base)
    # the grids that are called differently, together in one folder
    names = {}
    for folder, grid, snap in live:
        if snap is not None and os.path.isdir(os.path.join(folder, grid.name)):
            names.setdefault(grid.name, folder)
    if len(names) > 1:
        both = os.path.join(base, 'both of them')
        for name in sorted(names):
            shutil.copytree(os.path.join(names[name], name), os.path.join(both, name))
            load(cv, both, both, 'folder with {} grids'.format(len(grids_in(both))), ctx, [])
        ctx.event('grids put together in a folder')


def load(cv, text, full, what, ctx, live):
    n = len(grids_in(full))
    try:
        got = cv.load_grid(text)
    except Exception as e:
        if isinstance(e, Violation):
            raise
        check(n != 1, '{}: refused with {}, the folder holds a grid', what, e)
        ctx.event('load refused: {} grids'.format(n))
        return
    check(n == 1, '{}: loaded a grid from a folder with {} grids', what, n)
    for folder, grid, snap in live:
        if folder == full and snap is not None:
            obs.diff(snap, obs.snapshot(got), what)
            check(type(got) is type(grid), '{}: is a {}, created as {}', what, type(got), type(grid))
            ctx.event('loaded')
