"""Run the obligations of one property; replay counterexamples; evidence."""
from __future__ import annotations
import importlib
import json
import os
import pickle
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

FALLBACK = 'inputs of a path that could not be encoded'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = sys.executable
NPROC = int(os.environ.get('VERIF_JOBS', '8'))


class Build(threading.Thread):
    """scratch copy of the working tree with freshly built extensions"""

    def __init__(self):
        threading.Thread.__init__(self, daemon=True)
        self.dir = tempfile.mkdtemp(prefix='vreg_', dir='/tmp')
        self.ok = False
        self.log = ''
        self.proc = None

    def run(self):
        try:
            dst = os.path.join(self.dir, 'repo')
            os.mkdir(dst)
            for f in ('setup.py', 'setup.cfg', 'cythexts.py', 'versioneer.py', 'MANIFEST.in', 'README.md',
                      'README.rst', 'setup_helpers.py', 'pyproject.toml', 'requirements.txt'):
                p = os.path.join(REPO, f)
                if os.path.isfile(p):
                    shutil.copy(p, dst)
            shutil.copytree(os.path.join(REPO, 'regreg'), os.path.join(dst, 'regreg'),
                            ignore=shutil.ignore_patterns('*.so', '__pycache__', 'tests', 'build'))
            cy = os.path.join(self.dir, 'cy.py')
            with open(cy, 'w') as f:
                f.write(CYBUILD)
            env = dict(os.environ, PYTHONPATH='', OMP_NUM_THREADS='1')
            self.proc = subprocess.Popen([PY, '-W', 'ignore', cy, dst], cwd=dst, env=env,
                                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                         start_new_session=True)
            out, _ = self.proc.communicate(timeout=400)
            self.log = out.decode(errors='replace')[-4000:]
            self.ok = self.proc.returncode == 0
        except Exception as e:       # recorded in the evidence as inconclusive
            self.log = repr(e)

    def path(self):
        self.join(420)
        return os.path.join(self.dir, 'repo') if self.ok else None

    def cleanup(self):
        if self.proc is not None and self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
        self.join(10)
        shutil.rmtree(self.dir, ignore_errors=True)


CYBUILD = r'''
import os, sys, subprocess, sysconfig
from concurrent.futures import ThreadPoolExecutor
import numpy
root = sys.argv[1]
os.chdir(root)
exts = []
for d, _, fs in os.walk('regreg'):
    for f in fs:
        if f.endswith('.pyx') and not f.startswith('_isotonic'):
            exts.append(os.path.join(d, f))
inc = [sysconfig.get_paths()['include'], numpy.get_include()]
suf = sysconfig.get_config_var('EXT_SUFFIX')
def one(p):
    c = p[:-4] + '.c'
    subprocess.check_call([sys.executable, '-W', 'ignore', '-c',
        'import sys; from Cython.Compiler.Main import main; sys.argv=["cython", %r]; main(command_line=1)' % p])
    src = [c]
    d = os.path.dirname(p)
    if os.path.basename(p) == 'cox_utils.pyx':
        src.append(os.path.join(d, 'cox_fns.c'))
    cmd = ['gcc', '-shared', '-fPIC', '-O1', '-w', '-fwrapv', '-I' + d] + ['-I' + i for i in inc] + src + \
          ['-o', p[:-4] + suf, '-lm']
    subprocess.check_call(cmd)
with ThreadPoolExecutor(4) as ex:
    list(ex.map(one, exts))
'''


def property_module(pid):
    sys.path.insert(0, VERIF) if VERIF not in sys.path else None
    return importlib.import_module('props.' + pid)


def get_obligations(pid, tier):
    mod = property_module(pid)
    obs = list(mod.obligations(tier))
    names = [o.name for o in obs]
    dup = set(n for n in names if names.count(n) > 1)
    assert not dup, dup
    return mod, obs


# --------------------------------------------------------- forked execution

def run_child(ob, limit, w):
    from . import core, load, harness
    core.CTX.assert_timeout = 12000
    t0 = time.time()
    try:
        c = harness.SymCtx(ob)
        res = c.run(t0 + limit)
        res['functions'] = sorted(set(load.ENCODED.values()))
        from . import pyx
        if pyx.OOB:
            res['oob'] = [list(x) for x in pyx.OOB[:5]]
    except BaseException as e:
        import traceback
        res = dict(name=ob.name, error='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-2000:]))
    data = pickle.dumps(res)
    with os.fdopen(w, 'wb') as f:
        f.write(data)


def run_all(obs, default_limit, total, nproc=NPROC):
    """fork one process per obligation"""
    start = time.time()
    todo = list(obs)
    running = {}
    results = {}
    while todo or running:
        while todo and len(running) < nproc:
            ob = todo.pop(0)
            left = total - (time.time() - start)
            if left < 2:
                results[ob.name] = dict(name=ob.name, skipped='total time budget')
                continue
            lim = min(ob.limit or default_limit, left)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    run_child(ob, lim, w)
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = (pid, ob, time.time() + lim + 20, [])
        if not running:
            continue
        rl, _, _ = select.select(list(running), [], [], 0.5)
        for r in rl:
            d = os.read(r, 1 << 20)
            pid, ob, dl, buf = running[r]
            if d:
                buf.append(d)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del running[r]
            try:
                results[ob.name] = pickle.loads(b''.join(buf))
            except Exception:
                results[ob.name] = dict(name=ob.name, skipped='worker ended without a result')
        now = time.time()
        for r in list(running):
            pid, ob, dl, buf = running[r]
            if now > dl:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(r)
                del running[r]
                results[ob.name] = dict(name=ob.name, skipped='hard time limit')
    return results


# ------------------------------------------------------------------- replay

def replay_batch(pid, tier, jobs, root, timeout=300):
    """run [(obname, inputs)] against the real package at root"""
    tmp = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False, dir='/tmp')
    json.dump(dict(property=pid, tier=tier, jobs=jobs), tmp)
    tmp.close()
    env = dict(os.environ, VERIF_REPLAY_ROOT=root, OMP_NUM_THREADS='1', PYTHONPATH=root)
    try:
        p = subprocess.run([PY, '-W', 'ignore', os.path.join(VERIF, 'replay.py'), '--batch', tmp.name],
                           env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        out = p.stdout.decode()
        i = out.rfind('@@RESULT@@')
        if i < 0:
            return None, p.stderr.decode()[-2000:]
        return json.loads(out[i + 10:]), ''
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    finally:
        os.unlink(tmp.name)


def variants(inp):
    yield inp
    for k in (6, 3):
        s = float(1 << k)
        v = {n: round(x * s) / s for n, x in inp.items()}
        if v != inp:
            yield v
    import random
    rng = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1))
    # nearby inputs: the solver's model of exp/log/Phi is only axiomatised
    for _ in range(3):
        yield {n: (x if n.startswith('choice_') else x + rng.uniform(-.05, .05)) for n, x in inp.items()}
    for _ in range(3):
        yield {n: (x if n.startswith('choice_') else x + rng.uniform(-1, 1)) for n, x in inp.items()}


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    build = Build()
    build.start()
    code = 2
    try:
        code = _main(pid, tier, seed, build, t0)
    finally:
        build.cleanup()
    return code


def _main(pid, tier, seed, build, t0):
    from . import load, core
    import warnings
    warnings.simplefilter('ignore')
    load.install()
    mod, obs = get_obligations(pid, tier)
    only = os.environ.get('VERIF_ONLY')
    if only:
        obs = [o for o in obs if only in o.name]
    limit = getattr(mod, 'LIMIT', {}).get(tier) or (40 if tier == 'quick' else 240)
    total = getattr(mod, 'TOTAL', {}).get(tier) or (240 if tier == 'quick' else 3000)
    results = run_all(obs, limit, total)
    explore_s = time.time() - t0
    known = {k['id']: k for k in load_known() if k['property'] == pid and k.get('status') != 'fixed'}

    # ---- replay candidates and witnesses on the real code
    jobs = []
    for ob in obs:
        r = results[ob.name]
        if r.get('witness') is not None:
            jobs.append(dict(ob=ob.name, kind='witness', inputs=r['witness'], label='', known=None))
        for c in r.get('cex', []):
            for inp in c['inputs']:
                for v in variants(inp):
                    jobs.append(dict(ob=ob.name, kind='cex', inputs=v, label=c['label'], known=c['known']))
    root = build.path() if jobs else None
    reps, err = ([], '')
    if jobs:
        if root is None:
            reps, err = None, 'scratch build failed: ' + build.log
        else:
            reps, err = replay_batch(pid, tier, jobs, root)
    validated = 0
    disagree = []
    violations = []
    known_hits = {}
    confirmed = set()
    if reps is not None:
        for j, rp in zip(jobs, reps):
            if j['kind'] == 'witness':
                if rp['status'] == 'ok':
                    validated += 1
                elif rp['status'] == 'fail':
                    if all(f.get('known') for f in rp['failures']):
                        validated += 1
                    else:
                        disagree.append(dict(ob=j['ob'], inputs=j['inputs'], failures=rp['failures'][:3]))
                continue
            if rp['status'] != 'fail':
                continue
            fresh = [f for f in rp['failures'] if not f.get('known') or f['known'] not in known]
            for f in rp['failures']:
                if f.get('known') in known:
                    known_hits.setdefault(f['known'], dict(ob=j['ob'], inputs=j['inputs'], label=f['label'],
                                                           detail=f['detail']))
            if j['known'] and j['known'] in known:
                confirmed.add((j['ob'], j['label']))
            if fresh:
                confirmed.add((j['ob'], j['label']))
                if not any(v['ob'] == j['ob'] for v in violations):
                    violations.append(dict(ob=j['ob'], inputs=j['inputs'], label=j['label'], failures=fresh[:3]))
    unreplayed = []
    for ob in obs:
        for c in results[ob.name].get('cex', []):
            if (ob.name, c['label']) not in confirmed and c['label'] != FALLBACK:
                unreplayed.append(dict(ob=ob.name, label=c['label'], sure=c['sure'], inputs=c['inputs'][0]))

    # ---- output
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    lines = []
    for i, v in enumerate(violations[:5]):
        path = os.path.join(VERIF, 'evidence', 'replay_%s_%d.json' % (pid, i))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, tier=tier, ob=v['ob'], inputs=v['inputs'], label=v['label'],
                           failures=v['failures'],
                           how='/opt/venv/bin/python /verif/replay.py %s' % path), f, indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        print('# %s: %s | %s' % (v['ob'], v['failures'][0]['label'], ' / '.join([str(v['failures'][0]['detail'])[:160].replace('\n', ' ')] + str(v['failures'][0]['detail']).strip().split('\n')[-3:-1])[:400]))
    for k, h in sorted(known_hits.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, known[k]['what']))
    agg = dict(paths=0, aborted=0, branches=0, queries=0, sat=0, unsat=0, squnknown=0, asserts=0,
               discharged=0, trivial=0, reached=0)
    solver_s = 0.
    funcs = set()
    proved, incon = [], []
    for ob in obs:
        r = results[ob.name]
        for k in agg:
            agg[k] += r.get(k, 0) or 0
        solver_s += r.get('solver_s', 0) or 0
        funcs |= set(r.get('functions', []))
        why = []
        for k in ('skipped', 'error'):
            if r.get(k):
                why.append('%s: %s' % (k, str(r[k])[:200] + ' ... ' + str(r[k])[-400:]))
        if not why:
            if not r['complete']:
                why.append('not exhausted (%s)' % r['reason'])
            if r['n_unknown']:
                why.append('%d assertions undecided: %s' % (r['n_unknown'], r['unknown'][:3]))
            if r['n_unsupported']:
                why.append('unsupported: %s' % r['unsupported'][:3])
            if not r['reached']:
                why.append('no path reached an assertion')
            u = [x for x in r['cex'] if (ob.name, x['label']) not in confirmed and x['label'] != FALLBACK]
            if u:
                why.append('counterexample did not reproduce on the real code: %s' % [x['label'] for x in u][:3])
        if why:
            incon.append(dict(obligation=ob.name, why=why))
        elif not any(v['ob'] == ob.name for v in violations):
            proved.append(ob.name)
    errors = [o.name for o in obs if results[o.name].get('error')]
    wits = [o.name for o in obs if results[o.name].get('witness') is not None]
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2),
        violations=len(violations),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
        coverage=dict(
            states=agg['paths'], transitions=agg['branches'],
            traces_validated_against_impl=validated,
            samples=[dict(obligation=o.name, params={k: str(v) for k, v in o.params.items()},
                          paths=results[o.name].get('paths'), asserts=results[o.name].get('asserts'),
                          queries=results[o.name].get('queries'), wall=results[o.name].get('wall'),
                          witness=results[o.name].get('witness')) for o in obs[:6]],
            explanation='states = feasible symbolic paths explored, transitions = solver-decided branches; '
                        'an assertion is discharged when its negation with the path condition is unsat '
                        '(or the difference is identically zero in rational normal form)',
            obligations_total=len(obs), obligations_decided=len(proved),
            obligations_decided_names=proved, inconclusive=incon,
            assertions=agg['asserts'], assertions_discharged=agg['discharged'],
            assertions_by_normal_form=agg['trivial'], paths_reaching_assertions=agg['reached'],
            paths_outside_assumptions=agg['aborted'],
            solver_queries=agg['queries'], sat=agg['sat'], unsat=agg['unsat'], unknown=agg['squnknown'],
            solver_s=round(solver_s, 2), explore_s=round(explore_s, 2),
            functions_encoded=sorted(funcs), reachability_witnesses=len(wits),
            witness_disagreements=disagree, unreplayed_counterexamples=unreplayed,
            known_findings=known_hits, replay_error=err,
            bounds=getattr(mod, 'BOUNDS', ''), per_obligation={
                o.name: dict(paths=results[o.name].get('paths'), asserts=results[o.name].get('asserts'),
                             reached=results[o.name].get('reached'), complete=results[o.name].get('complete'),
                             queries=results[o.name].get('queries'),
                             wall=round(results[o.name].get('wall') or 0, 2)) for o in obs}))
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('# %s %s: %d obligations, %d decided, %d inconclusive; %d paths, %d assertions (%d discharged), '
          '%d queries (%.1fs solver), %d witnesses replayed ok, %d disagree; %.1fs'
          % (pid, tier, len(obs), len(proved), len(incon), agg['paths'], agg['asserts'], agg['discharged'],
             agg['queries'], solver_s, validated, len(disagree), time.time() - t0))
    for i in incon:
        print('# INCONCLUSIVE %s: %s' % (i['obligation'], '; '.join(str(w)[:600] for w in i['why'])))
    for d in disagree:
        print('# DISAGREE %s %s' % (d['ob'], d['failures'][:1]))
    for l in lines:
        print(l)
    if violations:
        return 1
    if (errors and len(errors) == len(obs)) or (reps is None and any(j['kind'] == 'cex' for j in jobs)):
        print('# ERROR of the check: %s %s' % (errors, err))
        return 3
    return 0


COMMON_ASSUMPTIONS = [
    'float64 arithmetic is modelled as exact real arithmetic with IEEE inf/nan; rounding is outside the claim',
    'numpy indexing, broadcasting and shape semantics are numpy itself (object arrays); element operations are '
    'exact symbolic arithmetic',
    'every function of regreg reached is executed from the current source (list in functions_encoded); .pyx/.c '
    'kernels are translated from source with C typing rules',
    'exp, log and the normal distribution function are uninterpreted beyond their functional equations, '
    'derivatives and sign/tangent axioms',
]
