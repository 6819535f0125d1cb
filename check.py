#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]

Decides one property: discharges the obligations that its contracts generate from the current source of /repo, and
cross-checks the same contracts at run time on the real code (a bounded search, which also replays what fails).
Exit 0: held; 1: VIOLATION line; 2: no answer.
"""
import argparse
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
PY = '/opt/venv/bin/python'
CORES = 8
sys.path.insert(0, HERE)


def env(**kw):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
    e.update(kw)
    return e


def prove(name, limit, factor=1):
    t0 = time.time()
    p = subprocess.Popen([sys.executable, '-m', 'vf.worker', name, str(limit), str(factor)], cwd=HERE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, env=env(VF_REPO=REPO))
    note = ''
    try:
        out, err = p.communicate(timeout=limit + 60)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        note = f'no result within {limit + 60:.0f} s'
    for line in out.splitlines():
        if line.startswith('RESULT '):
            return json.loads(line[7:])
    return {'task': name, 'obs': [], 'unsupported': [note or 'verifier failed: ' + err[-600:]], 'paths': 0,
            'reachable': 0, 'wall': time.time() - t0, 'explore_s': 0}


def search(prop, seed, seconds, start, stride):
    p = subprocess.Popen([PY, '-m', 'vf.conc.main', prop, '--seed', str(seed), '--seconds', str(seconds), '--start',
                          str(start), '--stride', str(stride)], cwd=HERE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, env=env(PYTHONPATH=REPO + ':' + HERE))
    try:
        out, err = p.communicate(timeout=seconds + 200)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {'cases': {}, 'violations': [], 'harness_errors': ['search did not end'], 'timeouts': []}
    try:
        return json.loads(out.strip().splitlines()[-1])[prop]
    except Exception:
        return {'cases': {}, 'violations': [], 'harness_errors': ['search failed: ' + err[-600:]], 'timeouts': []}


def replay(case, seconds=120):
    p = subprocess.run([PY, '-m', 'vf.conc.main', '--replay', case], cwd=HERE, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, env=env(PYTHONPATH=REPO + ':' + HERE), timeout=seconds)
    return p.returncode == 1, (p.stdout + p.stderr)[-3000:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from vf import worker, task
    worker.load()
    tasks = [t for t in task.TASKS.values() if prop in t.props]
    expected = json.load(open(os.path.join(HERE, 'expected.json')))
    quick = tier == 'quick'
    limit = 300 if quick else 1500
    base = 25 if quick else 300
    deep = 100 if quick else 600
    nproof = len(tasks)
    nsearch = 3
    with cf.ThreadPoolExecutor(CORES) as ex:
        fs = [ex.submit(search, prop, seed, base, w, nsearch) for w in range(nsearch)]
        ft = [ex.submit(prove, t.name, limit) for t in
              sorted(tasks, key=lambda t: -expected.get(t.name, {}).get('wall', 0))]
        found = [f.result() for f in fs]
        proofs = [f.result() for f in ft]
    lost, failed = judge(proofs, expected)
    viol = [v for r in found for v in r['violations']]
    deepened = False
    if (lost or failed) and not viol:
        deepened = True
        again = sorted({x['task'] for x in failed if x['status'] == 'unknown'})
        with cf.ThreadPoolExecutor(CORES) as ex:
            # undecided obligations get more solver time; the search for a failing input goes on meanwhile
            ft = {n: ex.submit(prove, n, limit, 4) for n in again}
            fs = [ex.submit(search, prop, seed + 1000, deep, w, CORES) for w in range(CORES)]
            more = [f.result() for f in fs]
            redone = {n: f.result() for n, f in ft.items()}
        proofs = [redone.get(r['task'], r) if redone.get(r['task'], r)['obs'] else r for r in proofs]
        lost, failed = judge(proofs, expected)
        found += more
        viol = [v for r in more for v in r['violations']]
    lost += [f'{x["task"]}: {x["name"]} ({x["status"]})' for x in failed]
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    cases, harness, slow = {}, [], []
    for r in found:
        for k, v in r['cases'].items():
            cases[k] = cases.get(k, 0) + v
        harness += r['harness_errors']
        slow += r['timeouts']
    known = known_findings(prop)
    lines = []
    confirmed = None
    for v in viol:
        what = f'{v["name"]}: {v["what"]}'
        kf = next((k for k in known if k in what), None)
        if kf:
            lines.append(f'KNOWN-FINDING: property={prop} {kf}')
            continue
        path = os.path.join(rdir, f'{prop}-{v["name"]}-{v["seed"]}-{v["k"]}.json')
        json.dump({'property': prop, 'case': v, 'what': v['what'], 'obligations': lost[:50],
                   'replay': f'cd /verif && PYTHONPATH={REPO}:/verif {PY} -m vf.conc.main --replay {path}'},
                  open(path, 'w'), indent=1)
        ok, out = replay(path)
        if ok:
            confirmed = (path, v)
            break
    status = 0
    if confirmed:
        path, v = confirmed
        lines.append(f'what failed: {v["name"]}: {v["what"][:600]}')
        for x in lost[:10]:
            lines.append(f'failed obligation: {x}')
        lines.append(f'VIOLATION property={prop} replay={path}')
        status = 1
    elif failed:
        x = min(failed, key=lambda x: x['status'] != 'refuted')
        path = os.path.join(rdir, f'{prop}-{x["task"]}.json')
        json.dump({'property': prop, 'obligation': f'{x["task"]}: {x["name"]}', 'verifier': x,
                   'functions': task.TASKS[x['task']].functions, 'all': lost[:50],
                   'replay': f'cd /verif && python3-vt -m vf.worker {x["task"]}'}, open(path, 'w'), indent=1)
        for y in lost[:10]:
            lines.append(f'failed obligation: {y}')
        lines.append(f'VIOLATION property={prop} replay={path} no-failing-input-found')
        status = 1
    elif not sum(cases.values()) and not any(o['status'] == 'proved' for r in proofs for o in r['obs']):
        lines.append(f'no answer: {harness[:2]} {lost[:2]}')
        status = 2
    evidence(prop, tier, seed, tasks, proofs, cases, harness, slow, lost, deepened, status, time.time() - t0, lines)
    for x in lines:
        print(x)
    nob = sum(len(r['obs']) for r in proofs)
    ndis = sum(o['status'] == 'proved' for r in proofs for o in r['obs'])
    print(f'{prop}: {ndis}/{nob} obligations discharged in {len(tasks)} tasks, {sum(cases.values())} contract '
          f'evaluations on the real code, {len(lost)} open, {time.time() - t0:.0f} s')
    for x in lost[:8]:
        print('  open:', x[:300])
    return status


def judge(proofs, expected):
    """(what is left open, obligations that are not discharged although the code is within reach)"""
    lost, failed = [], []
    for r in proofs:
        e = expected.get(r['task'], {})
        names = set()
        for o in r['obs']:
            names.add(o['name'])
            if o['status'] == 'proved' or o['name'] in e.get('open', []):
                continue
            if o['status'] == 'refuted' or o['backend'] != 'none':
                failed.append(dict(o, task=r['task']))
            else:
                lost.append(f'{r["task"]}: {o["name"]} (no time left)')
        lost += [f'{r["task"]}: {n} (not generated)' for n in e.get('proved', []) if n not in names]
        if r['unsupported'] and not e.get('unsupported'):
            lost.append(f'{r["task"]}: {r["unsupported"][0]}')
        if not r['reachable'] and e.get('reachable', 1):
            lost.append(f'{r["task"]}: no reachable path')
    return lost, failed


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, 'known_findings.txt')):
            if line.startswith(f'finding: property={prop} '):
                out.append(line.strip().split(' ', 2)[2])
    except OSError:
        pass
    return out


def evidence(prop, tier, seed, tasks, proofs, cases, harness, slow, lost, deepened, status, wall, lines):
    from vf import shim
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    chk = next((c for c in man['checks'] if c['property'] == prop), {})
    backends, solver = {}, 0.
    nob = ndis = 0
    distinct = set()
    fails = []
    for r in proofs:
        for o in r['obs']:
            nob += 1
            distinct.add((r['task'], o['name']))
            solver += o['s']
            if o['status'] == 'proved':
                ndis += 1
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
            else:
                fails.append(f'{r["task"]}: {o["name"]} ({o["status"]})')
    funcs = sorted({f for t in tasks for f in t.functions})
    assume = sorted({x for t in tasks for x in t.assumptions})
    used = {k for r in proofs for k in r.get('trusted', ())} | {'sqrt'}
    trusted = [v for k, v in sorted(shim.TRUSTED.items()) if k in used]
    trusted += ['vf/ (verification condition generator, models of numpy and scipy), z3, cvc5, CPython']
    cov = {
        'obligations': nob, 'discharged': ndis,
        'checker_cmd': f'python3-vt check.py {prop}',
        'trusted_base': trusted,
        'explanation': 'obligations generated from the source of /repo by executing it on symbolic values, per path; '
                       'contract evaluations on concrete inputs are a bounded cross-check and not counted as proved',
        'distinct_obligations': len(distinct),
        'functions_under_contract': funcs,
        'back_ends': backends, 'solver_s': round(solver, 2),
        'tasks': {r['task']: {'obligations': len(r['obs']), 'discharged': sum(o['status'] == 'proved' for o in r['obs']),
                              'paths': r['paths'], 'reachable': r['reachable'], 'wall_s': round(r['wall'], 1),
                              'unsupported': r['unsupported'][:5]} for r in proofs},
        'not_discharged': fails[:50],
        'open': lost[:50],
        'evaluations': sum(cases.values()),
        'bounded_cross_check': {'evaluations_per_contract': cases, 'harness_errors': harness[:5],
                                'case_time_limit_hits': slow[:5], 'deepened': deepened},
        'rule': 'seeded random problems, see vf/conc; bounded, dimensions at most 6',
    }
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': chk.get('level', 'proof'), 'coverage': cov,
          'assumptions': assume + ['floating point arithmetic is treated as exact real arithmetic with nan/inf'],
          'wall_s': round(wall, 2), 'violations': int(status == 1)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())
