"""profile one shard in this process: prof.py ID N [seed]"""
import cProfile, os, pstats, sys, io
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if os.environ.get('BGV_ENV') != '1':
    e = dict(os.environ, BGV_ENV='1', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PROJ_NETWORK='OFF', TZ='UTC', PYTHONHASHSEED='0', OMP_NUM_THREADS='1')
    os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv, e)
from bgv import boot, runner
import time
def main():
    pid, n = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    scratch = boot.make_scratch(); boot.register_cleanup(scratch); os.environ['MPLCONFIGDIR'] = scratch + '/mpl'; os.makedirs(scratch + '/mpl')
    boot.provide_hypothesis(scratch); boot.import_target()
    import matplotlib.pyplot
    runner.load_check(pid)
    res = {'shard': 0, 'evaluations': 0, 'distinct': [], 'events': {}, 'samples': [], 'violation': None, 'error': None, 'corpus': 0, 'cut': 0}
    so = os.dup(1); runner.quiet()
    pr = cProfile.Profile(); t = time.time(); pr.enable()
    runner._shard(pid, 0, 8, 'quick', seed, n, 600, scratch, [], res)
    pr.disable(); os.dup2(so, 1)
    print(res['evaluations'], len(res['distinct']), time.time() - t, res['events'], res['violation'])
    s = io.StringIO(); pstats.Stats(pr, stream=s).sort_stats('cumulative').print_stats(50); print(s.getvalue()[:7000])


if __name__ == '__main__':
    main()
