"""Run the contract checks of one property: compile, generate and discharge obligations, replay failures, write evidence."""
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback

from . import build
from .build import BuildError, VERIF, REPO


class Job:
    """sources + defines -> one IR module; builder(**args) -> list of Case"""

    def __init__(self, name, sources, builder, args=None, defines=(), opt='-O1', extra=(), native_sources=None, native_libs=(), budget=400, ir_sources=None,
                 native_extra=(), replay_tries=60, standin=90):
        self.standin = standin
        self.name = name
        self.sources = list(sources)
        self.ir_sources = list(ir_sources) if ir_sources is not None else self.sources
        self.builder = builder
        self.args = args or {}
        self.defines = list(defines)
        self.opt = opt
        self.extra = list(extra)
        self.native_sources = list(native_sources) if native_sources is not None else self.sources
        self.native_libs = list(native_libs)
        self.native_extra = list(native_extra)
        self.budget = budget
        self.replay_tries = replay_tries


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def job_main(job, seed, conn, soft=None):
    from . import contract as C
    from . import expr as X
    from .ir import Module, Unsupported
    from .exec import Budget
    out = {'name': job.name, 'fails': [], 'undecided': [], 'obligations': 0, 'discharged': 0, 'cases': [], 'functions': [], 'by': {}, 'wall': 0, 'solver_s': 0, 'paths': 0, 'notes': []}
    t0 = time.time()
    try:
        modname, fn = job.builder.rsplit('.', 1)
        b = getattr(importlib.import_module(modname), fn)
        mod = None
        irerr = None
        try:
            mod = Module(build.ir(job.ir_sources, job.defines, job.opt, job.extra))
        except BuildError as e:
            irerr = str(e)[-1500:]
        cases = b(**job.args)
        if mod is not None:
            cases_all = [x for x in cases]
        failing = []
        replays = {}
        undec = []
        signal.signal(signal.SIGALRM, _alarm)
        for case in cases:
            if mod is None:
                undec.append((case, 'clang could not compile the verified text: ' + irerr))
                continue
            left = job.budget - (time.time() - t0)
            if soft:
                left = min(left, soft - time.time())
            if len(failing) >= 4:
                out['notes'].append('stopped after 4 failing cases')
                break
            if left < 5:
                undec.append((case, 'time budget'))
                continue
            h = C.Harness(mod, case)
            tc = time.time()
            try:
                signal.alarm(int(left))
                fails = h.run()
                signal.alarm(0)
            except Timeout:
                undec.append((case, 'time budget'))
                continue
            except (Unsupported, Budget, RecursionError, X.Undef, KeyError, AttributeError, TypeError, IndexError, ZeroDivisionError, AssertionError, NotImplementedError) as e:
                signal.alarm(0)
                tb = traceback.extract_tb(sys.exc_info()[2])[-1]
                undec.append((case, '%s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)))
                continue
            out['obligations'] += h.nobl
            out['discharged'] += h.ndis
            out['paths'] += h.paths
            out['cases'].append({'case': case.name, 'entry': case.entry, 'obligations': h.nobl, 'paths': h.paths, 'steps': h.ex.steps, 's': round(time.time() - tc, 1)})
            out['functions'] = sorted(set(out['functions']) | h.ex.funcs_run)
            if fails:
                failing.append((case, fails))
                if case.native and job.stop_early:
                    # a failure confirmed on the real code settles the verdict: no need to go on
                    try:
                        first = C.replay(case, build.native(job.native_sources, job.defines, job.native_extra, job.native_libs), job.replay_tries, seed, [f.model for f in fails])
                    except BuildError:
                        first = None
                    if first:
                        replays[id(case)] = first
                        out['notes'].append('stopped at a failing case confirmed on the real code')
                        break
        out['by'] = dict(C.STATS['by'])
        out['solver_s'] = C.STATS['solver_s']
        so = None
        soerr = None
        if replays:
            undec = []
        if (failing or undec) and any(c.native for c, _ in failing + undec):
            try:
                so = build.native(job.native_sources, job.defines, job.native_extra, job.native_libs)
            except BuildError as e:
                soerr = str(e)[-1500:]
        nrep = 0
        for case, fails in failing:
            rep = None
            if id(case) in replays:
                rep = replays[id(case)]
            elif so and case.native and nrep < 6:
                rep = C.replay(case, so, job.replay_tries, seed, [f.model for f in fails])
                nrep += 1
            out['fails'].append({'case': case.name, 'entry': case.entry, 'replay': rep,
                                 'obligations': [{'label': f.label, 'kind': f.kind, 'detail': f.detail[:2000], 'model': f.model} for f in fails[:20]], 'count': len(fails)})
        t1 = time.time()
        share = max(1., (job.standin - (time.time() - t1)) / max(1, len(undec)))
        for case, why in undec:
            rep = None
            ran = 0
            if so and case.native:
                ran = [0]
                rep = C.replay(case, so, 4*job.replay_tries, seed, [], share, ran)
                ran = ran[0]
            if rep:
                out['fails'].append({'case': case.name, 'entry': case.entry, 'replay': rep, 'obligations': [{'label': 'bounded stand-in (verifier could not decide: %s)' % why, 'kind': 'bounded', 'detail': '', 'model': None}], 'count': 1})
            else:
                out['undecided'].append({'case': case.name, 'why': why, 'bounded_inputs_tried': ran})
        if soerr:
            out['notes'].append('native build failed: ' + soerr)
    except Exception as e:
        out['crash'] = traceback.format_exc()[-3000:]
    out['wall'] = time.time() - t0
    conn.send(out)
    conn.close()


def compile_all(jobs, nproc):
    """compile every distinct module up front, in parallel (into the scratch directory)"""
    from concurrent.futures import ThreadPoolExecutor
    units = {}
    links = {}
    for j in jobs:
        links[(tuple(j.ir_sources), tuple(j.defines), j.opt, tuple(j.extra))] = j
        for s in j.ir_sources:
            d = tuple(x for x in j.defines if not (s.startswith('src/') and x.startswith('VC_')))
            units[(s, d, j.opt, tuple(j.extra))] = 1

    def one(u):
        try:
            build.unit(*u)
        except (BuildError, subprocess.TimeoutExpired) as e:
            return str(e)

    def two(j):
        try:
            build.ir(j.ir_sources, j.defines, j.opt, j.extra)
        except (BuildError, subprocess.TimeoutExpired) as e:
            return str(e)
    with ThreadPoolExecutor(nproc) as ex:
        list(ex.map(one, sorted(units, key=lambda u: ('kernels' not in u[0], u))))
        list(ex.map(two, links.values()))


def run_jobs(jobs, seed, nproc=8, deadline=None, soft=None, stop_early=True):
    for j in jobs:
        j.stop_early = stop_early
    compile_all(jobs, nproc)
    results = []
    todo = list(jobs)[::-1]
    live = []
    bad = 0
    cut = None
    while todo or live:
        if bad and stop_early and cut is None:
            cut = time.time() + 10
        if cut and todo:
            results.append({'name': 'remaining jobs', 'fails': [], 'undecided': [], 'obligations': 0, 'discharged': 0, 'cases': [], 'functions': [], 'by': {}, 'wall': 0, 'solver_s': 0, 'paths': 0, 'notes': ['%d jobs not run after a confirmed failure' % len(todo)]})
            todo = []
        while todo and len(live) < nproc:
            j = todo.pop()
            r, w = mp.Pipe(False)
            p = mp.Process(target=job_main, args=(j, seed, w, soft))
            p.start()
            w.close()
            live.append((p, r, j, time.time()))
        ready = mp.connection.wait([r for p, r, j, t in live], timeout=5)
        keep = []
        for p, r, j, t in live:
            if r in ready:
                try:
                    results.append(r.recv())
                    bad += any(f['replay'] for f in results[-1]['fails'])
                except EOFError:
                    results.append({'name': j.name, 'crash': 'worker ended (memory?)', 'fails': [], 'undecided': [], 'obligations': 0, 'discharged': 0, 'cases': [], 'functions': [], 'by': {}, 'wall': time.time() - t, 'solver_s': 0, 'paths': 0, 'notes': []})
                p.join()
            elif cut and time.time() > cut:
                p.kill()
                p.join()
                results.append({'name': j.name, 'fails': [], 'undecided': [], 'obligations': 0, 'discharged': 0, 'cases': [], 'functions': [], 'by': {}, 'wall': time.time() - t, 'solver_s': 0, 'paths': 0, 'notes': ['%s: stopped, violations already found' % j.name]})
            elif deadline and time.time() > deadline:
                p.kill()
                p.join()
                results.append({'name': j.name, 'crash': 'deadline', 'fails': [], 'undecided': [], 'obligations': 0, 'discharged': 0, 'cases': [], 'functions': [], 'by': {}, 'wall': time.time() - t, 'solver_s': 0, 'paths': 0, 'notes': []})
            else:
                keep.append((p, r, j, t))
        live = keep
    return results


def demangle(names):
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE)
        return r.stdout.decode().split('\n')[:len(names)]
    except OSError:
        return names


def load_known():
    p = VERIF + '/known_findings.json'
    if os.path.exists(p):
        return json.load(open(p))
    return {'findings': [], 'fixed': []}


TRUSTED = ['the VC generator in /verif/vc (IR parser, path-wise strongest postconditions, contracts of runtime functions in vc/lib.py)',
           'clang 18 front end and -O1 passes as the translation from the C++ text to the verified IR (same sources, -fms-extensions for one missing `template` keyword, EIGEN_DONT_VECTORIZE, NDEBUG)',
           'identity testing over GF(2^61-1): an accepted equality is wrong with probability < 1e-15 per obligation',
           'z3 4.8.12']
ASSUMED = ['double arithmetic is treated as exact real arithmetic; a floating literal denotes the simple rational it rounds',
           'distinct buffers handed to a kernel (state, faces, caches) do not alias',
           'OpenMP: `parallel for` executes every iteration exactly once on some thread; the static schedule is an arbitrary partition']


def main(prop, tier, mod):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    build.scratch()
    nproc = int(os.environ.get('VC_PROCS', '8'))
    jobs = mod.jobs(tier)
    flt = os.environ.get('VC_JOBS')
    if flt:
        jobs = [j for j in jobs if re.search(flt, j.name)]
    deadline = t0 + (860 if tier == 'quick' else 3 * 3600)
    known = [k for k in load_known()['findings'] if k['property'] == prop]
    res = run_jobs(jobs, seed, nproc, deadline, t0 + (560 if tier == 'quick' else 10000), not known)
    outdir = VERIF + '/out'
    os.makedirs(outdir, exist_ok=True)
    nviol = 0
    tool = []
    seen = set()
    for r in res:
        if r.get('crash'):
            tool.append('%s: %s' % (r['name'], r['crash']))
        for f in r['fails']:
            hit = None
            for k in known:
                if re.fullmatch(k['case'], f['case']) and all(re.fullmatch(k['label'], o['label']) for o in f['obligations']):
                    hit = k
            if hit:
                if hit['what'] not in seen:
                    print('KNOWN-FINDING: property=%s %s' % (prop, hit['what']))
                    seen.add(hit['what'])
                continue
            nviol += 1
            path = '%s/%s_%d.json' % (outdir, prop, nviol)
            with open(path, 'w') as fh:
                json.dump({'property': prop, 'job': r['name'], **f}, fh, indent=1)
            if nviol <= 10:
                print('failed obligation: case %s, entry %s' % (f['case'], f['entry']))
                for o in f['obligations'][:5]:
                    print('   %s  %s' % (o['label'], o['detail'][:300]))
                if f['replay']:
                    for v in f['replay']['violated'][:3]:
                        print('   replay on the real code: %s' % v[0])
                print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if f['replay'] else ' no-failing-input-found'))
    if os.environ.get('VC_TIMES'):
        for r in sorted(res, key=lambda r: -r.get('wall', 0)):
            print('%7.1f s %s' % (r.get('wall', 0), r['name']))
            for c in r['cases']:
                if c.get('s', 0) > 8:
                    print('        %7.1f s %s' % (c['s'], c['case']))
    und = [u for r in res for u in r['undecided']]
    fns = sorted({x for r in res for x in r['functions']})
    dem = [d for d in demangle(fns) if 'hexed::' in d]
    short = sorted({re.sub(r'\s+\[clone.*', '', d) for d in dem})
    by = {}
    for r in res:
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
    nobl = sum(r['obligations'] for r in res)
    ndis = sum(r['discharged'] for r in res)
    for r in res:
        for n in r['notes']:
            sys.stderr.write(n + '\n')
    level = getattr(mod, 'LEVEL', 'proof')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': {'obligations': nobl + len(und), 'discharged': ndis, 'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (prop, tier),
                       'trusted_base': TRUSTED + getattr(mod, 'TRUSTED', []),
                       'by_backend': by, 'cases': sum(len(r['cases']) for r in res), 'paths': sum(r['paths'] for r in res),
                       'solver_s': round(sum(r['solver_s'] for r in res), 1),
                       'functions_under_contract': len(short), 'functions': [s[:220] for s in short][:400],
                       'samples': [c for r in res for c in r['cases']][:6],
                       'undecided_bounded_standin': und[:50],
                       'bounds': getattr(mod, 'BOUNDS', '')},
          'assumptions': ASSUMED + getattr(mod, 'ASSUMED', []), 'violations': nviol, 'wall_s': round(time.time() - t0, 2)}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (VERIF, prop), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s %s: %d jobs, %d cases, %d obligations, %d discharged, %d undecided (bounded stand-in), %d failing cases, %.1f s' %
          (prop, tier, len(jobs), ev['coverage']['cases'], nobl, ndis, len(und), nviol, time.time() - t0))
    for u in und[:5]:
        print('   undecided: %s: %s; %d random inputs run on the real code without failure' % (u['case'], u['why'], u['bounded_inputs_tried']))
    if nviol:
        return 1
    if tool:
        for t in tool[:3]:
            print('TOOL ERROR: ' + t)
        return 2
    if any(u['bounded_inputs_tried'] == 0 for u in und):
        print('TOOL ERROR: undecided without a bounded stand-in')
        return 2
    if nobl == 0 and not und:
        print('TOOL ERROR: no obligations generated')
        return 2
    return 0
