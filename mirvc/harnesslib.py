"""building /repo (MIR and oracle harness) and running the harness"""
import os
import re
import subprocess


def env():
    e = dict(os.environ)
    e['HOME'] = e.get('HOME') or '/root'
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    for k in ('RUSTUP_TOOLCHAIN', 'RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_TARGET_DIR'):
        e.pop(k, None)
    return e


SPACES = ('partition', 'product', 'interval', 'card', 'dim')


def with_spaces(text, sp):
    """MIR of /repo together with that of the parts of the spaces crate that it uses"""
    keep = []
    for part in re.split(r'\n(?=(?:fn|const|static|promoted|alloc\d+)\b)', sp):
        if re.match(r'fn (?:%s)::' % '|'.join(SPACES), part) and not re.search(r'::fmt\(|Interval<i64>', part.split('\n')[0]):
            keep.append(part)
    return text + '\n' + '\n'.join(keep) + '\n'


CONST = re.compile(r'\bconst (-?\d[\d_]*(?:\.\d+)?(?:[eE][-+]?\d+)?)_?(f64|f32|[ui](?:8|16|32|64|size))\b')
SWITCH = re.compile(r'switchInt\(.*?\) -> \[(.*?)\]')


def constants(text):
    """numeric literals of the crate under test, with multiplicity: they steer the search for inputs"""
    out = {}
    for m in CONST.finditer(text):
        v = float(m.group(1).replace('_', ''))
        out[v] = out.get(v, 0) + 1
    for m in SWITCH.finditer(text):
        for q in re.findall(r'(?:^|, )(-?\d+):', m.group(1)):
            out[float(q)] = out.get(float(q), 0) + 1
    return out


def known(here):
    try:
        with open(os.path.join(here, 'harness', 'constants.txt')) as f:
            return {float(a): int(b) for a, b in (l.split() for l in f if l.strip())}
    except OSError:
        return {}


def build_all(repo, here, saving=False):
    """MIR of the library and the harness binary, both from the working tree, in parallel

    saving: with the library's `serde` feature, and the harness of the round trips"""
    build = os.environ.get('LFA_BUILD', os.path.join(here, '.build'))
    os.makedirs(build, exist_ok=True)
    tag = '31' if saving else ''
    h = os.path.join(here, 'serdeharness' if saving else 'harness')
    e1, e2 = env(), env()
    e1['CARGO_TARGET_DIR'] = os.path.join(build, 'mir' + tag)
    e2['CARGO_TARGET_DIR'] = os.path.join(build, 'run' + tag)
    mirfile = os.path.join(build, 'lfa%s.mir' % tag)
    c1 = ['cargo', '+nightly', 'rustc', '-p', 'lfa', '--lib', '--offline', '-q', '--config', 'profile.dev.opt-level=0',
        '--', '-Zunpretty=mir', '-Cdebug-assertions=off', '-Coverflow-checks=on', '-Awarnings']
    c2 = ['cargo', '+stable', 'build', '--offline', '-q']
    c3 = ['cargo', '+nightly', 'rustc', '-p', 'spaces', '--lib', '--offline', '-q', '--config', 'profile.dev.opt-level=0'] + c1[c1.index('--'):]
    with open(mirfile, 'w') as out, open(mirfile + '.err', 'w') as er1, open(mirfile + '.err2', 'w') as er2:
        p1 = subprocess.Popen(c1, cwd=h, env=e1, stdout=out, stderr=er1)
        p2 = subprocess.Popen(c2, cwd=h, env=e2, stdout=subprocess.DEVNULL, stderr=er2)
        r1 = p1.wait()
        sp = subprocess.run(c3, cwd=h, env=e1, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        r2 = p2.wait()
    r = dict(consts=([], []), mir=None, mir_error=None, harness=os.path.join(build, 'run' + tag, 'debug', 'lfasaving' if saving else 'lfaoracle'), harness_dir=h, harness_error=None)
    text = open(mirfile).read()
    if r1 or 'fn ' not in text:
        r['mir_error'] = open(mirfile + '.err').read() or 'no MIR'
    else:
        cs, old = constants(text), known(here)
        r['consts'] = ([v for v, n in sorted(cs.items()) if n > old.get(v, 0)], sorted(cs))
        # file names in the dump relative to the crate
        r['mir'] = with_spaces(text.replace('@%s/' % repo.rstrip('/'), '@'), sp.stdout if not sp.returncode else '')
    if r2:
        r['harness_error'] = open(mirfile + '.err2').read() or 'build failed'
    return r


def run_harness(b, prop, seed, scale, budget=20, timeout=600):
    new, every = b['consts']
    e = dict(os.environ, LFA_NEW_CONSTS=','.join(map(repr, new)), LFA_CONSTS=','.join(map(repr, every)), LFA_BUDGET=str(budget))
    out = dict(failures=[], checks=0, cases=0, error=b['harness_error'], names=[])
    if b['harness_error']:
        return out
    try:
        p = subprocess.run([b['harness'], prop, str(seed), str(scale)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        out['error'] = 'time limit'
        return out
    for l in p.stdout.split('\n'):
        m = re.match(r'FAIL (\S+) (\S+) seed=(\d+) case=(\d+): ', l)
        if m:
            out['failures'].append(dict(check=m.group(2), seed=m.group(3), case=m.group(4), line=l))
        m = re.match(r'ok %s (\S+)' % prop, l)
        if m:
            out['names'].append(m.group(1))
        m = re.match(r'DONE checks=(\d+) cases=(\d+)', l)
        if m:
            out['checks'], out['cases'] = int(m.group(1)), int(m.group(2))
    if not out['checks'] and not out['failures']:
        # the process died: a crash (abort, memory fault) on the real code is a failing input of its own
        if p.returncode < 0:
            out['failures'].append(dict(check='all', seed=str(seed), case='0', line='FAIL %s harness died with signal %d: %s' % (prop, -p.returncode, p.stderr[-300:])))
        else:
            out['error'] = 'no checks ran (%s)' % p.stderr[-300:]
    return out


def run_miri(here, prop, seed, checks, budget=40, limit=240):
    """the same checks under Miri, which sees every invalid access: a bounded stand-in for memory safety"""
    from concurrent.futures import ThreadPoolExecutor
    build = os.environ.get('LFA_BUILD', os.path.join(here, '.build'))
    e = env()
    e.update(CARGO_TARGET_DIR=os.path.join(build, 'miri'), MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks', LFA_BUDGET=str(budget))
    out = dict(failures=[], checks=0, cases=0, error=None)

    def one(name):
        cmd = ['cargo', '+nightly', 'miri', 'run', '--offline', '-q', '--', prop, str(seed), '0.03', name]
        try:
            return name, subprocess.run(cmd, cwd=os.path.join(here, 'harness'), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=limit)
        except (subprocess.TimeoutExpired, OSError) as x:
            return name, x
    if isinstance(one('none')[1], Exception):
        out['error'] = 'Miri did not start'
        return out
    with ThreadPoolExecutor(8) as pool:
        for name, p in pool.map(one, checks):
            if isinstance(p, Exception):
                continue
            m = re.search(r'error: Undefined Behavior: .*', p.stderr)
            if m:
                out['failures'].append(dict(check=name, seed=str(seed), case='', line='FAIL %s %s under Miri: %s' % (prop, name, ' '.join(p.stderr[m.start():m.start() + 1500].split())), miri=True))
            m = re.search(r'DONE checks=(\d+) cases=(\d+)', p.stdout)
            if m:
                out['checks'] += int(m.group(1))
                out['cases'] += int(m.group(2))
    return out
