"""Entry of the deductive phase: python -m vlib.prove PID TIER REPO OUT.json

Every obligation runs in its own process. `discharged`: proved for all inputs. `refuted`: a run of the real code breaks
the contract (the failing input is part of the result). `undecided`: the code has left the reach of the verifier (this
is not an alarm: the run is then reported as an exploration, with the contract executed on the real code)."""
import json
import multiprocessing as mp
import os
import random
import sys
import time

MODULES = ('c_kernel', 'c_layout', 'c_lkd', 'c_cov', 'c_eval', 'c_scale', 'c_hp', 'c_state', 'c_hist', 'c_start', 'c_optz', 'c_nugget', 'c_setup', 'c_frame', 'c_symm')
PIDS = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23')
HERE = os.path.dirname(os.path.abspath(__file__))
EXTRA = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def has(pid):
    return pid in PIDS


class Lean:
    """lemmas about the closed forms in the contracts, checked by Lean (Mathlib); they do not depend on the code"""
    funcs, bounded, trusts, limit, cost, conformable = [], None, ('Lean 4 and Mathlib (kernel of Lean, its standard axioms)',), 400, 1000, False

    def __init__(self, name, pids, file):
        self.name, self.pids, self.file = name, tuple(pids), os.path.join(os.path.dirname(HERE), 'lean', file)

    def prove(self):
        import re
        import subprocess
        text = open(self.file).read()
        names = re.findall(r'^(?:lemma|theorem) (\w+)', text, re.M)
        if 'sorry' in text or re.search(r'^\s*axiom\b|native_decide', text, re.M):
            return 'undecided', 'the file is not a proof', len(names), 0
        try:
            p = subprocess.run(['lean', self.file], capture_output=True, text=True, timeout=self.limit)
        except Exception as e:
            return 'undecided', f'{type(e).__name__}: {e}'[:300], len(names), 0
        axioms = re.findall(r"'([\w.]+)' depends on axioms: \[([^\]]*)\]", p.stdout.replace('\n', ' '))
        wrong = [n for n, a in axioms if set(a.split(', ')) - {'propext', 'Classical.choice', 'Quot.sound'}]
        if p.returncode or 'error' in p.stdout or wrong or not axioms:
            return 'undecided', (p.stdout + p.stderr)[:300], len(names), 0
        return 'discharged', '', len(names), len(names)


LEMMAS = [Lean('lemmas on the nugget: sums of rows, eigenvalues, condition number', ['C05'], 'Nugget.lean'),
          Lean('lemmas on the posterior: at most the prior variance, not negative, interpolation', ['C11'], 'Posterior.lean'),
          Lean('lemmas on the symmetries: permutations, shifts, scales and units in the closed forms', ['C21'], 'Symmetry.lean')]
# closed forms that a lemma is about: contracts of other properties. That one of them is broken does not show that this one
# is, so it is then not proved, and its own obligations and the runs decide
PREMISES = dict(C21=('C01', 'C04', 'C06', 'C08', 'C11'))


def _setup():
    os.environ['NUMBA_DISABLE_JIT'] = '1'
    if EXTRA not in sys.path:
        sys.path.append(EXTRA)
    sys.setrecursionlimit(20000)
    import warnings
    warnings.simplefilter('ignore')


def collect(pid=None, tier='quick'):
    import importlib
    obs = []
    for m in MODULES:
        obs += importlib.import_module('vlib.ded.' + m).obligations()
    obs += LEMMAS
    return [o for o in obs if pid is None or pid in o.pids or set(o.pids) & set(PREMISES.get(pid, ()))]


def _one(ob, repo, tier, q):
    from .ded import prover, ints
    import threading
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    t0 = time.time()
    if isinstance(ob, Lean):
        st, why, n, k = ob.prove()
        json.dump(dict(name=ob.name, funcs=[], status=st, why=why, obligations=n, discharged=k, replay=None, seconds=round(time.time() - t0, 2),
                       z3=dict(queries=0, time=0.0), bounded=None, trusts=list(ob.trusts), lean=k), open(q, 'w'))
        os._exit(0)
    try:
        if tier == 'thorough':
            ob.limit *= 6
        random.seed(ob.name)
        r = prover.prove(ob, repo)
        out = dict(name=ob.name, funcs=ob.funcs, status=r.status, why=r.why, obligations=r.obligations, discharged=r.discharged,
                   replay=r.replay, seconds=round(time.time() - t0, 2), z3=dict(ints.STATS), bounded=ob.bounded, trusts=list(ob.trusts))
        if tier == 'thorough' and r.status == 'discharged' and ob.conformable:
            try:
                random.seed(ob.name)
                cnt, bad = prover.conform(ob, repo)
                out['conform'] = cnt
                out['conform_bad'] = [str(b) for b in bad[:3]]
            except Exception as e:
                out['conform'], out['conform_bad'] = 0, [f'{type(e).__name__}: {e}']
    except BaseException as e:
        out = dict(name=ob.name, funcs=ob.funcs, status='undecided', why=f'{type(e).__name__}: {e}'[:300], obligations=1, discharged=0,
                   replay=None, seconds=round(time.time() - t0, 2), z3=dict(ints.STATS), bounded=ob.bounded, trusts=[])
    json.dump(out, open(q, 'w'), default=str)
    os._exit(0)


def prove_all(obs, repo, tier='quick', procs=None, progress=None, deadline=None):
    import shutil
    import tempfile
    from .ded import prover
    if not prover.VOCABULARY:        # once, not in every process
        prover.VOCABULARY.update(prover.vocabulary(repo))
    prover.own_names()
    procs = procs or os.cpu_count() or 4
    tmp = tempfile.mkdtemp(prefix='prove_')
    ctx = mp.get_context('fork')
    todo = sorted(range(len(obs)), key=lambda k: -obs[k].cost)
    live, out = {}, [None] * len(obs)
    try:
        while todo or live:
            late = deadline is not None and time.time() > deadline
            while todo and len(live) < procs and not late:
                k = todo.pop(0)
                p = ctx.Process(target=_one, args=(obs[k], repo, tier, os.path.join(tmp, f'{k}.json')))
                p.start()
                live[k] = (p, time.time())
            time.sleep(0.02)
            for k, (p, t0) in list(live.items()):
                lim = obs[k].limit * (6 if tier == 'thorough' else 1) + 90
                if p.is_alive() and time.time() - t0 < lim and not late:
                    continue
                if p.is_alive():
                    p.kill()
                p.join()
                del live[k]
                try:
                    out[k] = json.load(open(os.path.join(tmp, f'{k}.json')))
                except Exception:
                    out[k] = dict(name=obs[k].name, funcs=obs[k].funcs, status='undecided', why='the process was ended', obligations=1,
                                  discharged=0, replay=None, seconds=round(time.time() - t0, 1), z3=dict(queries=0, time=0.0),
                                  bounded=obs[k].bounded, trusts=[])
                if progress:
                    progress(out[k])
            if late:
                for k in todo:
                    out[k] = dict(name=obs[k].name, funcs=obs[k].funcs, status='undecided', why='time limit of the check', obligations=1,
                                  discharged=0, replay=None, seconds=0, z3=dict(queries=0, time=0.0), bounded=obs[k].bounded, trusts=[])
                todo = []
    finally:
        for p, t0 in live.values():
            p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    return out


ASSUME = [
    'real arithmetic: float64 operations are treated as exact (floating-point rounding, overflow and nan are not modelled)',
    'sizes (dimensions, numbers of points, selected gradients) are symbolic and at least one',
    'numba compiles the functions faithfully (the proof runs the undecorated source; the replay also runs the compiled code)',
    'the semantics given to numpy and scipy functions in vlib/ded/npshim.py (elementwise operations, indexing, reductions, '
    'linear algebra by their mathematical definition)',
]
KERN = ['Matern 5/2 at (nearly) coinciding points: the scaled distance is zero or at least 1e-12 (the code uses a cut-off)']


def run(pid, tier, repo):
    _setup()
    obs = collect(pid, tier)
    res = prove_all(obs, repo, tier, deadline=time.time() + (700 if tier == 'quick' else 6 * 3600))
    for o, r in zip(obs, res):
        if pid not in o.pids and r['status'] == 'refuted':
            r.update(status='undecided', why='a premise does not hold: ' + r['why'])
    failed = [dict(name=r['name'], why=r['why'], replay=r['replay']) for r in res if r['status'] == 'refuted']
    reach = [dict(name=r['name'], why=r['why']) for r in res if r['status'] == 'undecided']
    for r in res:
        if r.get('conform_bad'):
            reach.append(dict(name=r['name'], why='the symbolic execution differs from a run of the real code: ' + '; '.join(r['conform_bad'])))
    trusted = ['CPython, the transform of vlib/ded/load.py (exact literals, loops by invariants), the term algebra of vlib/ded/terms.py, z3']
    for r in res:
        for t in r['trusts']:
            if t not in trusted:
                trusted.append(t)
    nb = sum(r['obligations'] for r in res if r['bounded'])
    return dict(failed=failed, reach=reach, obligations=sum(r['obligations'] for r in res) - nb,
                discharged=sum(r['discharged'] for r in res if not r['bounded']),
                functions=sorted({f for r in res for f in r['funcs']}), assumptions=ASSUME + (KERN if pid in ('C01', 'C02', 'C03') else []),
                trusted=trusted, solver_s=round(sum(r['z3']['time'] for r in res), 2),
                backends={'term normal form and integer ranges': sum(r['discharged'] - r.get('lean', 0) for r in res),
                          'z3 (QF_LIA queries)': sum(r['z3']['queries'] for r in res), 'Lean (lemmas)': sum(r.get('lean', 0) for r in res)},
                bounded=[dict(name=r['name'], bound=r['bounded'], obligations=r['obligations'], discharged=r['discharged'])
                         for r in res if r['bounded']],
                cpu_s=round(sum(r['seconds'] for r in res), 1), conform=sum(r.get('conform', 0) for r in res),
                sets=[dict(name=r['name'], status=r['status'], obligations=r['obligations'], seconds=r['seconds']) for r in res])


def again(names, repo):
    _setup()
    return prove_all([o for o in collect() if o.name in names], repo)


def main():
    pid, tier, repo, out = sys.argv[1:5]
    json.dump(run(pid, tier, repo), open(out, 'w'), default=str)


if __name__ == '__main__':
    main()
