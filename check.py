#!/usr/bin/env python3-vt
"""Decides one property of /repo:  python3-vt check.py C05

1. compiles /repo's current working tree to MIR (nightly rustc) and builds the oracle harness against it;
2. discharges every obligation of the contracts that carry the property, function by function, and of
   every contract those rely on;
3. replays / searches for a concrete failing input on the real code with the harness, which also stands
   in (bounded, labelled so) for functions the verifier could not reach.
"""
import json
import multiprocessing as mp
import os
import re
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('LFA_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'mirvc'))
sys.setrecursionlimit(20000)
import z3  # noqa: E402
import exec as E  # noqa: E402
import contract  # noqa: E402
import prove  # noqa: E402
import contracts_all  # noqa: E402,F401
import c_serde  # noqa: E402
import c_relate  # noqa: E402
from harnesslib import build_all, run_harness, run_miri  # noqa: E402

T0 = time.time()
CONTRACT_LIMIT = int(os.environ.get('VERIF_CONTRACT_LIMIT', '200'))
OWN_KINDS = {'panic', 'pre', 'post', 'lemma', 'mem'}
SAFETY_KINDS = {'mem', 'unwind'}
MOD = None
REG = None
TIMEOUT = 4000


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def task(job):
    """verify one contract or lemma in a worker; returns plain data"""
    kind, k, reg_keys, limit, tmo = job
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    t = time.time()
    try:
        if kind == 'lemma':
            r = contract.verify_lemma(MOD, contract.LEMMAS[k], tmo)
        elif kind == 'rt':
            r = c_serde.ROUND[k].verify(MOD, {q: c for q, c in contract.BY_KEY.items() if q in reg_keys}, tmo)
        else:
            reg = {q: c for q, c in contract.BY_KEY.items() if q in reg_keys}
            r = contract.verify(MOD, contract.ALL[k], reg, tmo)
        out = dict(obls=r.obls, error=r.error, used=sorted(r.used, key=str), inlined=sorted(map(str, r.inlined)), trusted=sorted(map(str, r.trusted)),
                   assumptions=sorted(map(str, r.assumptions)), time=r.time, queries=r.queries, solver=r.solver)
    except Timeout:
        out = dict(obls=[], error='time limit of %d s' % limit, used=[], inlined=[], trusted=[], assumptions=[], time=time.time() - t, queries=0, solver=0.0)
    except Exception as e:  # a defect of the verifier is not a defect of /repo
        out = dict(obls=[], error='internal: %s: %s' % (type(e).__name__, e), used=[], inlined=[], trusted=[], assumptions=[], time=time.time() - t, queries=0, solver=0.0)
    finally:
        signal.alarm(0)
    out['kind'], out['k'] = kind, k
    out['name'] = dict(lemma=contract.LEMMAS, rt=c_serde.ROUND, fn=contract.ALL)[kind][k].name
    return out


def status(r, kinds):
    if r['error']:
        return 'unsupported'
    st = 'proved'
    for o in r['obls']:
        if o['kind'] not in kinds:
            continue
        if o['status'] == 'refuted':
            return 'refuted'
        if o['status'] != 'proved':
            st = 'unknown'
    return st


def run_jobs(jobs):
    """in fresh forked workers, so that a crash of one only loses that contract"""
    if not jobs:
        return []
    n = min(8, len(jobs))
    with mp.get_context('fork').Pool(n, maxtasksperchild=1) as pool:
        return list(pool.imap_unordered(task, jobs, chunksize=1))


def verify_property(prop, timeout):
    safety = prop == 'C30'
    kinds = SAFETY_KINDS if safety else OWN_KINDS
    idx = {}
    for k, c in enumerate(contract.ALL):
        if c.export and contract.BY_KEY.get(c.key) is c:
            idx[c.key] = k
    own = [('fn', k) for k, c in enumerate(contract.ALL) if (prop in c.props or (safety and not c.relate)) and not contract.absent(MOD, c)]
    own += [('lemma', k) for k, c in enumerate(contract.LEMMAS) if prop in c.props]
    own += [('rt', k) for k, c in enumerate(c_serde.ROUND) if prop in c.props]
    reg_keys = set(contract.BY_KEY)
    res = {}
    related = []
    todo = list(own)
    while todo:
        out = run_jobs([(a, k, frozenset(reg_keys), CONTRACT_LIMIT, timeout) for a, k in todo])
        for r in out:
            res[(r['kind'], r['k'])] = r
        # contracts that were relied on must hold as well
        need = set()
        for r in res.values():
            for q in r['used']:
                if q in idx and ('fn', idx[q]) not in res:
                    need.add(('fn', idx[q]))
        # whoever relied on a contract that does not hold is verified again without it
        bad = {q for q, k in idx.items() if q in reg_keys and ('fn', k) in res and status(res[('fn', k)], OWN_KINDS) != 'proved'}
        again = set()
        if bad and not need:
            reg_keys -= bad
            again = {jk for jk, r in res.items() if set(r['used']) & bad}
        todo = sorted(need | again)
        if not todo:
            # properties that compare two functions: where a contract of one of them is not discharged,
            # the comparison itself decides
            for p, keys, rel in c_relate.GROUPS:
                mem = [jk for jk in own if p == prop and jk[0] == 'fn' and contract.ALL[jk[1]].key in keys]
                if not any(status(res[jk], kinds) != 'proved' for jk in mem):
                    continue
                new = [('fn', k) for k in rel]
                if not all(jk in res for jk in new):
                    todo += new
                elif all(status(res[jk], kinds) == 'proved' for jk in new):
                    own = [jk for jk in own if jk not in mem] + new
                    related += mem
    return own, {jk: r for jk, r in res.items() if jk not in related}, [res[jk]['name'] for jk in related], kinds


def open_items(own, res, kinds):
    undischarged, bounded = [], []
    for jk in own:
        r = res[jk]
        s = status(r, kinds)
        if s == 'unsupported':
            bounded.append(dict(function=r['name'], reason=r['error']))
        elif s != 'proved':
            for o in r['obls']:
                if o['kind'] in kinds and o['status'] != 'proved':
                    undischarged.append(dict(function=r['name'], case=o['case'], obligation=o['name'], kind=o['kind'], result=o['status'], where=str(o['where'])))
    return undischarged, bounded


def canary(mod):
    """the prover must refute a false statement and prove a true one, on every run"""
    F = z3.RealSort()
    x, y = z3.Const('cx', F), z3.Const('cy', F)
    pv = prove.Prover([], 2000)
    a = pv.prove([x > 0], x * x > 0)
    b = prove.Prover([], 2000).prove([x > 0], x * y > 0)
    return a == 'proved' and b != 'proved'


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    global MOD, TIMEOUT
    TIMEOUT = 4000 if tier == 'quick' else 20000
    with open(os.path.join(HERE, 'MANIFEST.json')) as f:
        man = json.load(f)
    level = next(c['level'] for c in man['checks'] if c['property'] == prop)
    b = build_all(REPO, HERE, saving=prop == 'C31')
    if b['mir_error'] and b['harness_error']:
        print('cannot build /repo:', b['mir_error'][:2000])
        sys.exit(2)
    notes, own, res, related, kinds = [], [], {}, [], OWN_KINDS
    if b['mir_error']:
        notes.append('no MIR: ' + b['mir_error'][:300])
    else:
        MOD = E.Module(b['mir'], REPO)
        if not canary(MOD):
            print('the prover is broken')
            sys.exit(2)
        own, res, related, kinds = verify_property(prop, TIMEOUT)
    undischarged, bounded = open_items(own, res, kinds)
    scale = 20.0 if not undischarged and not bounded else 1000.0
    if tier == 'thorough':
        scale *= 50
    h = run_harness(b, prop, seed, scale, budget=(8 if prop == 'C31' else 20) if tier == 'quick' else 100)
    miri = None
    if prop == 'C30' and not h['failures'] and not b['harness_error'] and (bounded or tier == 'thorough'):
        # some function is out of the verifier's reach: run the checks where every access is examined
        miri = run_miri(HERE, prop, seed, h['names'])
        h['failures'] += miri['failures']
    if undischarged and not h['failures'] and time.time() - T0 < 300:
        # what stayed undecided gets one more attempt with five times the solver time
        own, res, related, kinds = verify_property(prop, 5 * TIMEOUT)
        undischarged, bounded = open_items(own, res, kinds)
    n_obl = sum(1 for r in res.values() for o in r['obls'] if o['kind'] in kinds)
    n_dis = sum(1 for r in res.values() for o in r['obls'] if o['kind'] in kinds and o['status'] == 'proved')
    fail = h['failures']
    replay = os.path.join('evidence', prop + '.replay.txt')
    violation = None
    if fail:
        f = fail[0]
        violation = 'VIOLATION property=%s replay=%s' % (prop, replay)
    elif undischarged:
        # a named obligation fails and no concrete input was found by the search
        violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rp = os.path.join(HERE, replay)
    if os.path.exists(rp):
        os.remove(rp)
    if violation:
        with open(rp, 'w') as w:
            w.write('property %s does not hold on %s\n\n' % (prop, REPO))
            if fail:
                w.write('failing input found on the real code by the oracle harness:\n')
                for f in fail:
                    w.write('  %s\n  replay: (cd %s && %s %s %s 1 %s %s)\n' % (f['line'], b['harness_dir'], b['harness'], prop, f['seed'], f['check'], f['case']))
            w.write('\nobligations the verifier did not discharge:\n')
            for u in undischarged:
                w.write('  %(result)s: %(function)s, case %(case)s: %(obligation)s (%(kind)s) at %(where)s\n' % u)
            for x in bounded:
                w.write('  not verified: %(function)s: %(reason)s\n' % x)
    ev = dict(
        property=prop, tier=tier, seed=seed, level=level,
        coverage=dict(
            obligations=n_obl, discharged=n_dis,
            checker_cmd='python3-vt check.py %s  (mirvc: symbolic execution of rustc MIR against contracts; Z3 %s)' % (prop, z3.get_version_string()),
            trusted_base=['rustc nightly MIR lowering', 'mirvc (verification-condition generator, /verif/mirvc)', 'Z3'] + ['model of %s' % t for t in sorted({t for r in res.values() for t in r['trusted']})],
            functions_under_contract=[dict(function=res[jk]['name'], status=status(res[jk], kinds), obligations=sum(o['kind'] in kinds for o in res[jk]['obls'])) for jk in own],
            relied_on_contracts=sorted(r['name'] for jk, r in res.items() if jk not in own),
            **(dict(replaced_by_comparison=sorted(related)) if related else {}),
            callees_inlined=sorted({i for r in res.values() for i in r['inlined']}),
            back_end='z3', solver_queries=sum(r['queries'] for r in res.values()), solver_time_s=round(sum(r['solver'] for r in res.values()), 2),
            undischarged=undischarged, bounded_stand_ins=bounded,
            concrete_replays=dict(note='oracle harness on the real code; bounded, not counted as proof', checks=h['checks'], cases=h['cases'], error=h['error']),
            **(dict(under_miri=dict(note='bounded, not counted as proof', checks=miri['checks'], cases=miri['cases'], error=miri['error'])) if miri else {}),
        ),
        assumptions=sorted({a for r in res.values() for a in r['assumptions']}) + notes,
        wall_s=round(time.time() - T0, 2), violations=1 if violation else 0)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as w:
        json.dump(ev, w, indent=1)
    print('%s: %d/%d obligations discharged over %d functions (+%d relied on), %d bounded, %d harness cases, %.1f s' % (
        prop, n_dis, n_obl, len(own), len(res) - len(own), len(bounded), h['cases'], time.time() - T0))
    for u in undischarged:
        print('  %(result)s: %(function)s [%(case)s] %(obligation)s (%(kind)s)' % u)
    for x in bounded:
        print('  bounded stand-in for %(function)s: %(reason)s' % x)
    for f in fail:
        print('  ' + f['line'][:600])
    if h['error']:
        print('  harness: ' + h['error'][:300])
    if violation:
        print(violation)
        sys.exit(1)
    if b['mir_error'] and (h['error'] or not h['checks']):
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
