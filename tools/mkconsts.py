"""records the numeric literals of the current /repo: later ones are new, and steer the harness first"""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'mirvc'))
import harnesslib as H  # noqa: E402
b = H.build_all('/repo', HERE)
assert not b['mir_error'], b['mir_error']
text = open(os.path.join(HERE, '.build', 'lfa.mir')).read().replace('@/repo/', '@')
with open(os.path.join(HERE, 'harness', 'constants.txt'), 'w') as w:
    for v, n in sorted(H.constants(text).items()):
        w.write('%r %d\n' % (v, n))
