"""systematic one-token mutants of /repo: which ones do the contracts accept? (development tool)

usage: mutate.py WORKER NWORKERS OUT [FILE-SUBSTRING]
A mutant that builds and passes the existing tests is verified against every contract; the ones for
which everything is still proved are printed as SURVIVES (equivalent, or a gap in the contracts).
"""
import json
import os
import re
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, NW, OUT = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
SUB = sys.argv[4] if len(sys.argv) > 4 else ''
ROOT = '/tmp/mutw/w%d' % W
OPS = [
    (r' \+ ', [' - ', ' * ']), (r' - ', [' + ']), (r' \* ', [' + ', ' / ']), (r' / ', [' * ']), (r' % ', [' / ']),
    (r' \+= ', [' -= ', ' = ']), (r' \*= ', [' += ', ' /= ']), (r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ']), (r' >= ', [' > ']),
    (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
    (r'\b0\.0\b', ['1.0']), (r'\b1\.0\b', ['0.0', '2.0']), (r'\b2\.0\b', ['1.0', '3.0']), (r'\b0\.5\b', ['1.0']),
    (r'\b1e-5\b', ['1e-7', '1e-3']), (r'\b1e-7\b', ['1e-6', '1e-8']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])2(?![\w.])', ['1', '3']),
    (r'\b(\d{2,})\.0\b', [lambda m: str(int(m.group(1)) + 1) + '.0']), (r'\b([3-9])\.0\b', [lambda m: str(int(m.group(1)) + 1) + '.0']),
    (r'powi\((\d+)\)', [lambda m: 'powi(%d)' % (int(m.group(1)) + 1)]),
    (r'\.abs\(\)', ['']), (r'\.sqrt\(\)', ['']), (r'\.max\(', ['.min(']), (r'\.exp\(\)', ['']), (r'\.cos\(\)', ['.sin()']), (r'\.floor\(\)', ['.ceil()', '.round()', '']),
    (r'\.ln_1p\(\)', ['.ln()']), (r'NEG_INFINITY', ['INFINITY', 'EPSILON']), (r'div_euclid\(([^()]*(?:\([^()]*\))?[^()]*)\)', [lambda m: 'rem_euclid(%s)' % m.group(1)]),
    (r'\.skip\(1\)', ['', '.skip(2)']), (r'\.dedup\(\)', ['']), (r'\.cycle\(\)', ['']), (r'\.any\(', ['.all(']), (r'\bn1\b', ['n2']), (r'\bn2\b', ['n1']), (r'\bsa1\b', ['sa2']), (r'\bsa2\b', ['sa1']),
    (r'\bda1\b', ['da2']), (r'\bda2\b', ['da1']), (r'\bb1\b', ['b2']), (r'\bb2\b', ['b1']), (r'beta1\b', ['beta2']), (r'beta2\b', ['beta1']), (r'beta1_prod', ['beta2_prod']), (r'beta2_prod', ['beta1_prod']),
    (r'\bm1\b', ['m2']), (r'\bm2\b', ['m1']), (r'\bm1_new\b', ['m2_new', 'm1[i]']), (r'\bm2_new\b', ['m1_new', 'm2[i]']), (r'exp_avg\b', ['exp_avg_sq']), (r'exp_avg_sq', ['exp_avg']), (r'm1_unbiased', ['m1_new']), (r'm2_unbiased', ['m2_new']),
    (r'\.max\((sa[12]|da2)\.(dim|len\(\))\)', ['']), (r'l\.0', ['l.1']), (r'l\.1', ['l.0']), (r'true', ['false']), (r'false', ['true']), (r'unwrap_or\(0\.0\)', ['unwrap_or(1.0)']),
    (r'\.clone\(\)\.max', ['.max']), (r' \* scale_factor', ['']), (r'!self', ['self']), (r'checked_sub', ['checked_add']), (r'\bacc \+ ', ['']), (r'\be as i32', ['e as i32 + 1']),
    (r'with_zeroth', []), (r'\.zip\(y\.', ['.zip(x.']), (r'lb, ub', ['ub, lb']), (r'\(index - n1\)', ['(index)']), (r'index - n1', ['index']), (r'ncols', ['nrows']), (r'columns\(', ['rows(']), (r'columns_mut\(', ['rows_mut(']), (r'column\(', ['row(']),
    (r'and\(opt', ['or(opt']), (r'is_dense', []), (r'retain', []), (r'\blr \* m\b', ['lr', 'm']), (r'lr \* scale_factor', ['lr']), (r'or_insert_with\(\|\| f\(0\.0, \*y\)\)', ['or_insert_with(|| f(*y, 0.0))', 'or_insert_with(|| *y)']),
    (r'f\(\*x, \*y\)', ['f(*y, *x)']), (r'partial_cmp\(b\)', ['partial_cmp(a)']),
]


def mutants():
    out = []
    fs = subprocess.check_output(['git', 'ls-files', 'src'], cwd='/repo', text=True).split()
    for f in fs:
        if SUB not in f or 'ifdd' in f or f.endswith('utils.rs'):
            continue
        s = open('/repo/' + f).read()
        end = len(s)
        for mk in ('mod tests', '#[cfg(test)]\n#'):
            k = s.find(mk)
            if k > 0:
                end = min(end, k)
        lines, pos, seen = s.split('\n'), 0, set()
        for ln, l in enumerate(lines):
            if pos >= end:
                break
            c = l.strip()
            skip = c.startswith(('//', '#', 'use ', 'pub use', 'mod ', '*', 'impl', 'where', 'pub fn', 'fn ', 'pub struct', 'type ', 'pub type', 'macro_rules', '($', 'extern'))
            if not skip:
                cands = []
                for pat, reps in OPS:
                    for m in re.finditer(pat, l):
                        for rep in reps:
                            new = rep(m) if callable(rep) else rep
                            cands.append(l[:m.start()] + new + l[m.end():])
                if c.endswith(';') and not c.startswith(('let', 'return', '}', 'type', 'const')):
                    cands.append('')
                for n in cands:
                    if n != l and (ln, n) not in seen:
                        seen.add((ln, n))
                        out.append((f, ln, l, n))
            pos += len(l) + 1
    return out


def main():
    env = dict(os.environ, CARGO_TARGET_DIR=ROOT + '/t', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1')
    if not os.path.isdir(ROOT + '/repo'):
        os.makedirs(ROOT, exist_ok=True)
        subprocess.check_call('cp -a /repo %s/repo' % ROOT, shell=True)
    os.makedirs(ROOT + '/verif', exist_ok=True)
    subprocess.check_call('cp -a %s/harness %s/verif/' % (V, ROOT), shell=True)
    base = json.load(open('/opt/vp/BASELINE.json'))
    text = json.dumps(base)
    ms = mutants()[W::NW]
    done = set(open(OUT).read().splitlines()) if os.path.exists(OUT) else set()
    log = open(OUT, 'a')

    def say(tag, mu, extra=''):
        log.write('%-9s %s:%d | %s => %s %s\n' % (tag, mu[0], mu[1] + 1, mu[2].strip(), mu[3].strip(), extra))
        log.flush()
    seen = {d.split(' ', 1)[1].strip()[:200] for d in done if ' ' in d}
    for mu in ms:
        f, ln, old, new = mu
        if any(x.startswith(('%s:%d | %s => %s ' % (f, ln + 1, old.strip(), new.strip()))[:200]) for x in seen):
            continue
        subprocess.check_call('git checkout -q -- .', cwd=ROOT + '/repo', shell=True)
        p = ROOT + '/repo/' + f
        s = open(p).read().split('\n')
        assert s[ln] == old
        s[ln] = new
        open(p, 'w').write('\n'.join(s))
        t = subprocess.run('cargo check --offline --lib -q', cwd=ROOT + '/repo', shell=True, capture_output=True, env=env)
        if t.returncode:
            say('nobuild', mu)
            continue
        try:
            t = subprocess.run('timeout 120 cargo test --offline --no-fail-fast -q', cwd=ROOT + '/repo', shell=True, capture_output=True, text=True, env=env)
        except Exception:
            continue
        failed = [x for x in re.findall(r'^    (\S+::\S+)$', t.stdout, re.M) if x in text]
        if failed or t.returncode == 124:
            say('killed', mu)
            continue
        q = subprocess.run(['python3-vt', V + '/tools/mutone.py', ROOT], capture_output=True, text=True)
        out = (q.stdout.strip().splitlines() or ['ERROR ' + q.stderr[-300:].replace('\n', ' ')])[-1]
        tag, _, rest = out.partition(' ')
        say('SURVIVES' if tag == 'ok' else tag, mu, rest)


if W < 0:
    ms = mutants()
    print(len(ms))
else:
    main()
