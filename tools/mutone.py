"""one scratch tree: verify every contract, then run the harness for the properties that lost a proof (development tool)

usage: mutone.py ROOT   with ROOT/repo the tree and ROOT/verif a directory holding a copy of harness
prints one line: ok | refuted/unknown/unsupp caught=<props with a failing input> missed=<props with a lost proof and no input>
"""
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, V + '/mirvc')
sys.setrecursionlimit(20000)
ROOT = sys.argv[1]
sys.argv = ['x', 'C01']
import check  # noqa: E402
import contract  # noqa: E402
import exec as E  # noqa: E402
from harnesslib import build_all, run_harness  # noqa: E402

b = build_all(ROOT + '/repo', ROOT + '/verif')
if b['mir_error'] or b['harness_error']:
    print('ERROR', (b['mir_error'] or b['harness_error'])[:300].replace('\n', ' '))
    sys.exit()
check.MOD = E.Module(b['mir'], ROOT + '/repo')
jobs = [('fn', k, frozenset(contract.BY_KEY), 60, 3000) for k, c in enumerate(contract.ALL) if not contract.absent(check.MOD, c)] + [('lemma', k, frozenset(), 60, 3000) for k in range(len(contract.LEMMAS))]
rs = check.run_jobs(jobs)
kinds = {'panic', 'pre', 'post', 'lemma', 'mem', 'unwind'}
bad, props, tags = [], set(), set()
for r in rs:
    s = check.status(r, kinds)
    if s != 'proved':
        bad.append('%s %s' % (s, r['name']))
        tags.add(s)
        props |= set((contract.ALL if r['kind'] == 'fn' else contract.LEMMAS)[r['k']].props)
if not bad:
    print('ok')
    sys.exit()
caught, missed = [], []
for p in sorted(props):
    h = run_harness(b, p, 1, 1000.0, budget=4)
    (caught if h['failures'] else missed).append(p)
t = 'refuted' if 'refuted' in tags else 'unknown' if 'unknown' in tags else 'unsupp'
print(t, 'caught=%s missed=%s' % (','.join(caught), ','.join(missed)), '[' + '; '.join(bad[:3]) + ']')
