"""Plays a history on a real grid and on the model side by side."""
import os
import shutil

import numpy as np

from bgv import gen, model, obs
from bgv.runner import check


def make_grid(cfg, folder, storage=None):
    from bathygrid.convenience import create_grid
    storage = storage or cfg['storage']
    backend = 'numpy' if storage in ('mem', 'numpy') else 'zarr'
    path = '' if storage in ('mem', 'memz') else folder
    return create_grid(folder_path=path, grid_type='single_resolution' if cfg['kind'] == 'sr' else 'variable_resolution_tile',
                       grid_backend=backend, tile_size=cfg['tile'], subtile_size=cfg['sub'], is_backscatter=cfg['bs'])


def load(folder):
    from bathygrid.convenience import load_grid
    return load_grid(folder)


class Player:
    def __init__(self, cfg, ctx, storage=None, vref='waterline', epsg=gen.EPSG):
        self.cfg = cfg
        self.bar = bool(cfg.get('bar'))   # progress bars are shown
        self.ctx = ctx
        self.storage = storage or cfg['storage']
        self.model = model.Model(cfg)
        self.folder = ctx.newdir()
        self.grid = make_grid(cfg, self.folder, self.storage)
        if self.storage in ('mem', 'memz'):
            self.folder = None
        else:
            check(os.path.realpath(self.grid.output_folder) == os.path.realpath(self.folder), 'grid created in {} instead of {}', self.grid.output_folder, self.folder)
        self.vref = vref
        self.epsg = epsg
        self.gridded = None      # settings of the last gridding
        self.dirty = False
        self.adds = 0
        self.removes = 0
        self.log = []

    @property
    def zkey(self):
        return 'intensity' if self.cfg['bs'] else 'depth'

    def new_name(self, i):
        n = len(gen.NAMES)
        for k in range(n):
            nm = gen.NAMES[(i + k) % n]
            if nm not in self.model.sources:
                return nm
        return None

    def add(self, name, pts, **kw):
        a = model.decode(self.cfg, pts)
        kw.setdefault('crs', self.epsg)
        kw.setdefault('vertical_reference', self.vref)
        files = kw.get('file_list')
        data = a.copy()
        self.grid.add_points(data, name, progress_bar=self.bar, **kw)
        self.model.add(name, a, files)
        self.dirty = True
        self.adds += 1

    def remove(self, name):
        self.grid.remove_points(name, progress_bar=self.bar)
        self.model.remove(name)
        self.dirty = True
        self.removes += 1

    def regrid(self, res=None, mode='depth', opt='full', clear=False, alg=None, **kw):
        alg = alg or self.cfg['alg']
        out = self.grid.grid(alg, res, clear_existing=clear, auto_resolution_mode=mode, regrid_option=opt, progress_bar=self.bar, **kw)
        self.gridded = {'res': res, 'mode': mode, 'alg': alg}
        self.dirty = False
        return out

    def reload(self):
        """a new process continues from the folder (grids in memory: nothing to continue from)"""
        if self.folder and self.adds:
            self.grid = load(self.folder)
            return True
        return False

    def saveload(self):
        """save to a new folder and continue with what is loaded from there"""
        new = self.ctx.newdir()
        self.grid.save(new, progress_bar=self.bar)
        self.grid = load(new)
        self.folder = new

    def play(self, op):
        """returns the kind of operation that was done, or None when it does not apply"""
        kind = op[0]
        if kind == 'add':
            name = self.new_name(op[1])
            if name is None:
                return None
            self.add(name, op[2], **(dict(op[3]) if len(op) > 3 else {}))
        elif kind == 'rm':
            if not self.model.sources:
                return None
            self.remove(list(self.model.sources)[op[1] % len(self.model.sources)])
        elif kind == 'reload':
            if not self.reload():
                return None
        elif kind == 'saveload':
            if self.model.n == 0 and self.adds == 0:
                return None
            self.saveload()
        elif kind == 'grid':
            if not self.model.n:
                return None
            g = op[1]
            opt = g.get('opt', 'full') if self.gridded else 'full'
            self.regrid(res=g.get('res', self.cfg['res']), mode=g.get('mode', 'depth'), opt=opt, clear=g.get('clear', False), **({'grid_parameters': dict(g['par'])} if 'par' in g else {}))
        else:
            raise ValueError(kind)
        return kind
