"""Paths, scratch folders and the containment of file system effects."""
import atexit
import glob
import os
import shutil
import sys
import tempfile
import zipfile

REPO = os.environ.get('BGV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYVENV = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
WHEELS = '/opt/veriftools/wheels'
HYPO = ['hypothesis', '_hypothesis_globals.py', '_hypothesis_ftz_detector.py', '_hypothesis_pytestplugin.py']


class HarnessError(Exception):
    """Something is wrong with the check itself, says nothing about the property."""


def make_scratch():
    for base in ('/dev/shm', '/tmp'):
        try:
            if os.path.isdir(base) and shutil.disk_usage(base).free > 2e9:
                return tempfile.mkdtemp(prefix='bgv_', dir=base)
        except OSError:
            continue
    return tempfile.mkdtemp(prefix='bgv_')


def provide_hypothesis(scratch):
    """hypothesis is not in the interpreter that has bathygrid's dependencies: bring only that package along"""
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    lib = os.path.join(scratch, 'pylib')
    os.makedirs(lib, exist_ok=True)
    if os.path.isdir(os.path.join(PYVENV, 'hypothesis')):
        for name in HYPO:
            src = os.path.join(PYVENV, name)
            if os.path.exists(src):
                os.symlink(src, os.path.join(lib, name))
    else:
        tag = 'cp{}{}'.format(*sys.version_info[:2])
        whl = sorted(glob.glob(os.path.join(WHEELS, 'hypothesis-6*{}*.whl'.format(tag))))
        if not whl:
            raise HarnessError('hypothesis is not available')
        with zipfile.ZipFile(whl[-1]) as z:
            z.extractall(lib)
    sys.path.append(lib)
    import hypothesis  # noqa: F401


def import_target():
    """import bathygrid from the working tree of the repository"""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import bathygrid
    got = os.path.dirname(os.path.realpath(bathygrid.__file__))
    if got != os.path.join(os.path.realpath(REPO), 'bathygrid'):
        raise HarnessError('bathygrid was imported from {}, expected {}'.format(got, REPO))
    return bathygrid


class Escape(Exception):
    """the code under test tried to change something outside of the scratch folder"""


_allowed = []
_WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _inside(path):
    if isinstance(path, int):
        return True
    try:
        p = os.path.realpath(os.fsdecode(path))
    except (TypeError, ValueError):
        return True
    return any(p == a or p.startswith(a + os.sep) for a in _allowed)


def _hook(event, args):
    if not _allowed:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(flags, int) and flags & _WRITE and not _inside(path):
            p = os.fsdecode(path) if not isinstance(path, int) else ''
            if p.startswith('/dev/') or p.startswith('/proc/self'):
                return
            raise Escape('open for writing outside of the scratch folder: {}'.format(p))
    elif event in ('os.remove', 'os.rmdir', 'os.mkdir'):
        if args[-1] not in (-1, None):  # relative to an open directory, rmtree was checked at its root
            return
        if not _inside(args[0]):
            raise Escape('{} outside of the scratch folder: {}'.format(event, args[0]))
    elif event == 'shutil.rmtree':
        if not _inside(args[0]):
            raise Escape('rmtree outside of the scratch folder: {}'.format(args[0]))
    elif event == 'os.rename':
        if not (_inside(args[0]) and _inside(args[1])):
            raise Escape('rename outside of the scratch folder: {} {}'.format(args[0], args[1]))


def contain(*folders):
    """from here on this process can only change files in these folders"""
    first = not _allowed
    for f in folders:
        _allowed.append(os.path.realpath(f))
    if first:
        sys.addaudithook(_hook)


def cleanup(path):
    shutil.rmtree(path, ignore_errors=True)


def register_cleanup(path):
    pid = os.getpid()

    def _do():
        if os.getpid() == pid:
            cleanup(path)
    atexit.register(_do)
