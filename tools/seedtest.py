"""python3 tools/seedtest.py [ID ...]: run each planted bug's check on a scratch copy carrying the bug."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def one(i):
    d = os.path.join(HERE, 'seeded', i)
    prop = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='seed_')
    try:
        subprocess.run('cp -a /repo %s/repo && git -C %s/repo checkout -q -- . && git -C %s/repo apply %s/patch.diff' % (tmp, tmp, tmp, d),
                       shell=True, check=True)
        t = time.time()
        r = subprocess.run('VERIF_OUT=%s VERIF_REPO=%s/repo timeout 900 ./run.sh %s' % (tmp, tmp, prop), shell=True, cwd=HERE,
                           text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % prop)]
        return '%-28s %s exit %d %s %.0fs %s' % (i, prop, r.returncode, 'CAUGHT' if v and r.returncode == 1 else 'MISSED',
                                                 time.time() - t, '' if v else r.stdout[-300:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

ids = sys.argv[1:] or sorted(os.listdir(HERE + '/seeded'))
with ThreadPoolExecutor(2) as ex:
    for line in ex.map(one, ids):
        print(line, flush=True)
