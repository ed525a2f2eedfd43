"""Run each planted bug's check in scratch copies (development tool). Usage: runseeds.py [ID ...]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
N = 4
import queue
Q = queue.Queue()
work = tempfile.mkdtemp(prefix='runseeds')
for k in range(N):
    d = '%s/%d' % (work, k)
    os.makedirs(d)
    subprocess.check_call('cp -a /repo %s/repo; mkdir %s/verif; cp -a %s/. %s/verif/' % (d, d, V, d), shell=True)
    Q.put(d)


def run(i):
    d = Q.get()
    try:
        m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
        subprocess.run('git checkout -q -- . && git apply %s/seeded/%s/patch.diff' % (V, i), cwd=d + '/repo', shell=True, check=True)
        claimed = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
        if m['property'] not in claimed:
            return i, m['property'], 'not claimed', ''
        p = subprocess.run(['python3-vt', 'check.py', m['property']], cwd=d + '/verif', env=dict(os.environ, LFA_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick'), capture_output=True, text=True)
        v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        det = [l[:230] for l in p.stdout.splitlines() if not l.startswith('VIOLATION')]
        return i, m['property'], 'exit %d %s' % (p.returncode, 'CAUGHT' + (' (nfif)' if v and v[0].endswith('found') else '') if v else 'missed'), '\n     '.join(det[:7]) + p.stderr[-300:]
    finally:
        Q.put(d)


with ThreadPoolExecutor(N) as ex:
    for r in ex.map(run, ids):
        print('%-26s %s %s\n     %s' % r, flush=True)
shutil.rmtree(work)
