"""which lines of bathygrid the checks execute: cov.py N [ID...] (N cases per check); prints the lines never reached and, per line, is kept in cov.json"""
import json, os, sys, subprocess, glob
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
if os.environ.get('BGV_ENV') != '1':
    e = dict(os.environ, BGV_ENV='1', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PROJ_NETWORK='OFF', TZ='UTC', PYTHONHASHSEED='0', OMP_NUM_THREADS='1')
    os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv, e)
from bgv import boot, runner


def one(pid, n, out):
    scratch = boot.make_scratch(); boot.register_cleanup(scratch); os.environ['MPLCONFIGDIR'] = scratch + '/mpl'; os.makedirs(scratch + '/mpl')
    target = os.path.join(os.path.realpath(boot.REPO), 'bathygrid') + os.sep
    hit = set()
    m = sys.monitoring
    m.use_tool_id(1, 'cov')

    def line(code, no):
        if code.co_filename.startswith(target):
            hit.add((os.path.basename(code.co_filename), no))
        return m.DISABLE
    m.register_callback(1, m.events.LINE, line)
    m.set_events(1, m.events.LINE)
    boot.provide_hypothesis(scratch); boot.import_target()
    import matplotlib.pyplot
    runner.load_check(pid)
    res = {'shard': 0, 'evaluations': 0, 'distinct': [], 'events': {}, 'samples': [], 'violation': None, 'error': None, 'corpus': 0, 'cut': 0}
    f = open(out, 'w')
    runner.quiet()
    runner._shard(pid, 0, 8, 'quick', 1, n, 600, scratch, sorted(glob.glob(os.path.join(here, 'corpus', pid, '*.json'))), res)
    json.dump(sorted(hit), f); f.close()


def lines_of(path):
    import dis
    out = set()

    def walk(co):
        body = {l for _, _, l in co.co_lines() if l}
        if co.co_name != '<module>':
            out.update(body - {co.co_firstlineno})
        for c in co.co_consts:
            if hasattr(c, 'co_code'):
                walk(c)
    walk(compile(open(path).read(), path, 'exec'))
    return out


if __name__ == '__main__':
    if sys.argv[1] == '-one':
        one(sys.argv[2], int(sys.argv[3]), sys.argv[4]); sys.exit()
    n = sys.argv[1]
    ids = sys.argv[2:] or sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(here + '/bgv/checks/c*.py'))
    tmp = '/tmp/cov'; os.makedirs(tmp, exist_ok=True)
    def go(i):
        p = subprocess.run([sys.executable, __file__, '-one', i, n, tmp + '/' + i + '.json'], capture_output=True, text=True)
        return i, p.returncode, p.stderr[-300:]
    with ThreadPoolExecutor(int(os.environ.get('J', '6'))) as ex:
        for i, rc, err in ex.map(go, ids):
            if rc: print(i, rc, err)
    hit = {}
    for i in ids:
        for f, l in json.load(open(tmp + '/' + i + '.json')):
            hit.setdefault((f, l), []).append(i)
    for p in sorted(glob.glob(boot.REPO + '/bathygrid/*.py')):
        f = os.path.basename(p)
        src = open(p).read().splitlines()
        miss = sorted(l for l in lines_of(p) if (f, l) not in hit)
        print('==', f, len(lines_of(p)), 'missed', len(miss))
        for l in miss:
            print('  {:5d} {}'.format(l, src[l - 1][:140]))
    json.dump([[f, l, v] for (f, l), v in sorted(hit.items())], open(tmp + '/map.json', 'w'))
