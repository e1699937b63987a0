"""Check one property: /opt/venv/bin/python /verif/check.py C01 [--replay FILE]

1. deductive phase: contracts on the functions of /repo, discharged for all inputs (vlib/prove*.py)
2. replay phase: the same contracts evaluated on the real code on random inputs, to give a concrete failing
   input for a failed obligation and to cover the parts that are assumed by the deductive phase.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken."""
import argparse
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
MODULES = dict(C01='kernel', C02='kernel', C03='kernel', C04='kernel', C13='scale', C14='scale', C15='optz', C16='optz',
               C17='optz', C18='optz')
# random cases in the quick and thorough tier (and cases with the jit compiler on)
N_QUICK = dict(C01=1600, C02=1200, C03=1200, C04=1200, C17=1000, C18=900, C11=1500, C12=1500)
N_JIT = dict(C01=9, C02=9, C03=9, C04=9, C23=3)
ENV = dict(OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
           PYTHONHASHSEED='0', PYTHONPATH=REPO)


def module(pid):
    import importlib
    return importlib.import_module('vlib.rt.' + MODULES.get(pid, 'gp'))


def run_case(mod, pid, case):
    """None: held; False: trivial; str: what failed on the real code."""
    import traceback
    from vlib.rt import core
    try:
        return mod.RUN[pid](case)
    except core.Fail as e:
        return str(e)
    except Exception as e:
        if core.unknown(e, REPO):
            return False
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return f'{type(e).__name__}: {str(e)[:300]} ({os.path.basename(tb.filename)}:{tb.name})'


def worker(pid, w, W, n, seed, out, deadline):
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    mod = module(pid)
    rng = np.random.default_rng([seed, int(pid[1:]), w])
    res = dict(done=0, trivial=0, fails=[], samples=[], keys=[])
    t0 = time.time()
    for i in range(n):
        k = w + i * W
        case = json.loads(json.dumps(mod.GEN[pid](rng, k), default=_py))
        r = run_case(mod, pid, case)
        res['done'] += 1
        if r is False:
            res['trivial'] += 1
        else:
            res['keys'].append(hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12])
        if i < 1:
            res['samples'].append(case)
        if isinstance(r, str):
            res['fails'].append(dict(case=case, what=r))
            if len(res['fails']) >= 3:
                break
        if time.time() - t0 > deadline:
            break
    json.dump(res, open(out, 'w'))


def _py(v):
    import numpy as np
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, np.ndarray):
        return v.tolist()
    raise TypeError(type(v))


def replay_phase(pid, tier, seed):
    import shutil
    tmp = tempfile.mkdtemp(prefix='check_')
    try:
        n = N_QUICK.get(pid, 1500) * (12 if tier == 'thorough' else 1)
        dl = 600 if tier == 'thorough' else 90
        jobs = []
        W = 7 if pid in N_JIT else 8
        for w in range(W):
            jobs.append((w, W, (n + W - 1) // W, '1'))
        if pid in N_JIT:
            jobs.append((1000, 1, N_JIT[pid] * (10 if tier == 'thorough' else 1), '0'))
        procs = []
        for w, W_, m, nojit in jobs:
            out = os.path.join(tmp, f'{w}.json')
            env = dict(os.environ, **ENV, NUMBA_DISABLE_JIT=nojit)
            p = subprocess.Popen([sys.executable, os.path.abspath(__file__), pid, '--worker', f'{w},{W_},{m},{seed},{dl}',
                                  '--out', out], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=tmp)
            procs.append((p, out, nojit))
        agg = dict(done=0, trivial=0, fails=[], samples=[], keys=set(), errors=[], jit=0)
        for p, out, nojit in procs:
            try:
                err = p.communicate(timeout=dl + 120)[1]
            except subprocess.TimeoutExpired:
                p.kill()
                err = p.communicate()[1]
            if p.returncode == 0 and os.path.isfile(out):
                r = json.load(open(out))
                agg['done'] += r['done']; agg['trivial'] += r['trivial']
                agg['fails'] += [dict(f, jit=nojit == '0') for f in r['fails']]
                agg['samples'] += r['samples']; agg['keys'] |= set(r['keys'])
                agg['jit'] += r['done'] if nojit == '0' else 0
            else:
                agg['errors'].append(err.decode(errors='replace')[-1500:])
        return agg
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known(pid):
    out = []
    with open(os.path.join(HERE, 'known_findings.json')) as fh:
        for e in json.load(fh)['findings']:
            if e['property'] == pid:
                out.append(e)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--replay')
    ap.add_argument('--worker')
    ap.add_argument('--out')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-proof', action='store_true')
    a = ap.parse_args()
    pid = a.pid
    os.environ.update({k: v for k, v in ENV.items() if k != 'PYTHONPATH'})
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if a.worker:
        w, W, n, seed, dl = (int(t) for t in a.worker.split(','))
        return worker(pid, w, W, n, seed, a.out, dl)
    if a.replay:
        data = json.load(open(a.replay))
        if data.get('case') is not None:
            if not data.get('jit'):
                os.environ['NUMBA_DISABLE_JIT'] = '1'
            r = run_case(module(pid), pid, data['case'])
            print('replayed:', r if isinstance(r, str) else 'the property holds on this input')
            return 1 if isinstance(r, str) else 0
        print(json.dumps(data, indent=1)[:4000])
        from vlib import prove
        r = prove.again([o['name'] for o in data.get('failed', [])], REPO)
        for o in r:
            print(o['name'] + ':', o['status'], o['why'])
        return 1 if any(o['status'] == 'refuted' for o in r) else 0

    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    # the two phases run side by side
    pr, prp, prf = None, None, None
    from vlib import prove
    if not a.no_proof and prove.has(pid):
        prf = tempfile.NamedTemporaryFile(suffix='.json', delete=False).name
        prp = subprocess.Popen([sys.executable, '-m', 'vlib.prove', pid, tier, REPO, prf], cwd=HERE,
                               env=dict(os.environ, **dict(ENV, PYTHONPATH=HERE)), stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE)
    rp = replay_phase(pid, tier, seed)
    if prp is not None:
        try:
            err = prp.communicate(timeout=max(30, (780 if tier == 'quick' else 3000) - (time.time() - t0)))[1]
        except subprocess.TimeoutExpired:
            prp.kill()
            err = prp.communicate()[1] + b' timeout'
        try:
            pr = json.load(open(prf))
        except Exception:
            pr = dict(failed=[], reach=[dict(name='deductive phase', why='did not finish: ' + err.decode(errors='replace')[-800:])],
                      obligations=0, discharged=0, functions=[], assumptions=[], trusted=[], backends={}, solver_s=0, bounded=[])
        os.unlink(prf)

    viol = None
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    kn = known(pid)
    for e in kn:
        print(f'KNOWN-FINDING: property={pid} {e["what"]}')
    if rp['fails']:
        f = min(rp['fails'], key=lambda q: len(json.dumps(q['case'])))
        path = os.path.join(rdir, f'{pid}.json')
        json.dump(dict(property=pid, case=f['case'], what=f['what'], jit=f['jit'],
                       failed_obligations=[] if not pr else [o['name'] for o in pr['failed']],
                       how=f'/opt/venv/bin/python /verif/check.py {pid} --replay {path}'), open(path, 'w'), indent=1)
        print('failing input:', json.dumps(f['case'])[:600])
        print('what failed:', f['what'])
        if pr:
            for o in pr['failed'][:5]:
                print('failed obligation:', o['name'])
        viol = f'VIOLATION property={pid} replay={path}'
    elif pr and any(o.get('replay') for o in pr['failed']):
        path = os.path.join(rdir, f'{pid}.json')
        fs = sorted((o for o in pr['failed'] if o.get('replay')), key=lambda o: len(json.dumps(o['replay'], default=str)))
        json.dump(dict(property=pid, case=None, failed=fs[:10], what='the contract of the function fails on these inputs of the real code',
                       how=f'/opt/venv/bin/python /verif/check.py {pid} --replay {path}'), open(path, 'w'), indent=1, default=str)
        for o in fs[:5]:
            print('failed obligation:', o['name'], '|', str(o.get('why', ''))[:400])
        print('failing input:', json.dumps(fs[0]['replay'], default=str)[:600])
        viol = f'VIOLATION property={pid} replay={path}'
    elif rp['errors'] and rp['done'] == 0:
        path = os.path.join(rdir, f'{pid}.json')
        json.dump(dict(property=pid, case=None, what='the real code could not be run', output=rp['errors'][:2]), open(path, 'w'), indent=1)
        print(rp['errors'][0][-800:])
        viol = f'VIOLATION property={pid} replay={path} no-failing-input-found'
    elif pr and pr['failed']:
        path = os.path.join(rdir, f'{pid}.json')
        json.dump(dict(property=pid, case=None, failed=pr['failed'][:20]), open(path, 'w'), indent=1)
        for o in pr['failed'][:5]:
            print('failed obligation:', o['name'], '|', str(o.get('why', ''))[:400])
        viol = f'VIOLATION property={pid} replay={path} no-failing-input-found'
    wall = time.time() - t0

    nt = len(rp['keys'])
    ev = dict(property=pid, tier=tier, seed=seed, wall_s=round(wall, 2), violations=1 if viol else 0)
    replay_cov = dict(evaluations=rp['done'], distinct_nontrivial=nt,
                      rule='random configurations of the real library (sizes, kernels, masks, noise, conditioning methods, '
                           'scales, histories), compared with an independent reference; trivial: the case is outside of the '
                           'precondition (e.g. a tie) and says nothing', samples=rp['samples'][:2], jit_compiled_runs=rp['jit'],
                      harness_errors=len(rp['errors']))
    if pr and pr['obligations'] > 0 and not pr['reach'] and not pr['failed']:
        ev['level'] = 'proof'
        ev['coverage'] = dict(obligations=pr['obligations'], discharged=pr['discharged'],
                              checker_cmd=f'/opt/venv/bin/python -m vlib.prove {pid} {tier} {REPO} OUT.json (cwd /verif)',
                              trusted_base=pr['trusted'], functions=pr['functions'], backends=pr['backends'],
                              solver_s=pr['solver_s'], bounded=pr['bounded'], replay=replay_cov)
    else:
        ev['level'] = 'exploration'
        ev['coverage'] = replay_cov
        if pr:
            ev['coverage']['deductive_phase'] = dict(obligations=pr['obligations'], discharged=pr['discharged'],
                                                     functions=pr['functions'], out_of_reach=pr['reach'][:20],
                                                     failed=[o['name'] for o in pr['failed']][:20], bounded=pr['bounded'])
    ev['assumptions'] = ([] if not pr else pr['assumptions']) + ['floating-point rounding is outside of the contracts: the replay '
                                                                 'compares with a tolerance that grows with the condition number']
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w'), indent=1, default=str)
    if pr:
        print(f'{pid}: {pr["discharged"]} of {pr["obligations"]} obligations discharged, {len(pr["functions"])} functions under '
              f'contract, {len(pr["reach"])} out of reach, {len(pr["bounded"])} bounded')
    print(f'{pid}: {rp["done"]} replayed cases ({nt} distinct and non-trivial), {len(rp["fails"])} failures, {wall:.1f} s')
    if viol:
        print(viol)
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
