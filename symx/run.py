"""Runs one property's check: python3-vt -m symx.run MODULE [--tier T].

A harness module defines
  PROPERTY, TITLE, BOUNDS (text), ASSUMES (list of text)
  HARNESSES: list of (function name, fn(tier) -> list of params, reach tags)
"""
import argparse
import atexit
import collections
import json
import multiprocessing as mp
import os
import queue
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import session

NPROC = int(os.environ.get('SYMX_NPROC', '0')) or min(8, os.cpu_count() or 1)


class Alarm(BaseException):
    pass


def _alarm(*a):
    raise Alarm()


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


class Worker(object):
    def __init__(self, modname, tasks, results, hungry, stop, deadline, opts):
        self.tasks, self.results = tasks, results
        self.hungry, self.stop, self.deadline = hungry, stop, deadline
        self.opts = opts
        self.modname = modname

    def run(self):
        try:
            limits()
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            signal.signal(signal.SIGALRM, _alarm)
            self._run()
        except BaseException:
            self.results.put(('crash', traceback.format_exc()))

    def _run(self):
        from . import engine as E, stubs, api, plain, rt, state
        self.E, self.stubs, self.api, self.plain = E, stubs, api, plain
        self.nat = session.native(self.modname)
        self.loader, self.sym = session.symbolic(self.modname)
        top = ('xigt', 'harness')
        self.keep = state.Keeper(top + ('xml',))
        for k, m in self.loader.modules.items():
            if m.__dict__.get('__symx__'):
                self.keep.add(k, m)
        self.loader.loaded = self.keep.add
        self.nkeep = state.Keeper(top)
        self.nkeep.add_loaded(sys.modules)
        while True:
            with self.hungry.get_lock():
                self.hungry.value += 1
            try:
                t = self.tasks.get()
            finally:
                with self.hungry.get_lock():
                    self.hungry.value -= 1
            if t is None:
                return
            self.explore(t)

    def explore(self, task):
        E = self.E
        hname, params, prefix, budget = task
        eng = E.ENGINE = E.Engine(step_limit=params.get('_steps', 400000))
        fn = getattr(self.sym, hname)
        nfn = getattr(self.nat, hname)
        eng.load_prefix(prefix)
        st = dict(paths=0, infeasible=0, replays=0, mismatches=[], cands=[],
                  inconclusive=[], reached=collections.Counter(), samples=[],
                  cut=False, late=0)
        t0 = time.time()
        every = params.get('_replay', 1)
        try:
            while True:
                self.one_path(eng, fn, nfn, params, st, every, hname)
                if self.stop.value or time.time() > self.deadline:
                    if eng.backtrack():
                        st['cut'] = True
                    break
                if self.hungry.value > 0 and time.time() - t0 > 0.02:
                    alts = eng.open_alternatives()
                    if alts:
                        # donate the shallowest alternative
                        for i in range(eng.base, len(eng.trail)):
                            d = eng.trail[i]
                            if d.kind == 'B' and d.alt:
                                d.alt = False
                                break
                        self.results.put(('new', (hname, params, alts[0], budget)))
                if not eng.backtrack():
                    break
        except E.Inconclusive as ex:
            st['inconclusive'].append(str(ex))
        except E.Unsupported as ex:
            st['inconclusive'].append('unsupported: %s' % ex)
        st.update(queries=eng.queries, solver_s=eng.solver_s,
                  obligations=eng.obligations, decisions=eng.decisions,
                  functions=eng.functions, files=dict(self.loader.files),
                  cpu=time.time() - t0)
        E.ENGINE = None
        st['reached'] = dict(st['reached'])
        self.results.put(('done', hname, st))

    def one_path(self, eng, fn, nfn, params, st, every, hname):
        E = self.E
        eng.reset_path()
        self.stubs.reset()
        self.keep.restore()
        for k in [k for k, m in self.loader.stubs.items()
                  if getattr(m, '__harness_stub__', False)]:
            self.loader.stubs.pop(k)
            self.loader.modules.pop(k, None)
        S = self.api.SymS(eng, params)
        status, detail = 'ok', ''
        try:
            fn(S)
        except E.Infeasible:
            status = 'infeasible'
        except E.StopPath:
            status = 'failed'
        except E.StepLimit:
            status, detail = 'steps', 'no end within %d steps' % eng.step_limit
        except E.Inconclusive as ex:
            status, detail = 'inconclusive', str(ex)
        except E.Unsupported as ex:
            status, detail = 'inconclusive', 'unsupported: %s' % ex
        except RecursionError as ex:
            status, detail = 'steps', 'RecursionError'
        except Exception as ex:
            status = 'error'
            detail = '%s: %s' % (type(ex).__name__, safe(ex))
            self.tb = traceback.format_exc()
        if status == 'infeasible':
            st['infeasible'] += 1
            return
        for msg, inputs in eng.failures:
            self.cand(st, hname, params, msg, inputs, 'assertion')
        if status == 'failed':
            st['paths'] += 1
            return
        if status in ('error', 'steps'):
            st['paths'] += 1
            try:
                inputs = eng.decode_inputs()
            except (E.Infeasible, E.Inconclusive) as ex:
                st['inconclusive'].append(str(ex))
                return
            self.cand(st, hname, params, detail, inputs, status,
                      getattr(self, 'tb', '') if status == 'error' else '')
            return
        if status == 'inconclusive':
            st['paths'] += 1
            if len(st['inconclusive']) < 20:
                st['inconclusive'].append(detail)
            # the path cannot be followed further; what led here is replayed
            if st['paths'] <= 200:
                try:
                    inputs = eng.decode_inputs()
                except E.Abort:
                    return
                s2, d2, o2 = self.native_run(nfn, inputs, params)
                st['replays'] += 1
                if s2 in ('fail', 'error'):
                    self.cand(st, hname, params, d2, inputs, 'witness', o2 if s2 == 'error' else '')
            return
        st['paths'] += 1
        for r in eng.reached:
            st['reached'][r] += 1
        if every and (st['paths'] % every == 0 or every == 1):
            try:
                inputs = eng.decode_inputs()
                obs = [self.api.under_model(o, eng) for o in eng.observed]
            except (E.Infeasible, E.Inconclusive) as ex:
                st['inconclusive'].append(str(ex))
                return
            s2, d2, o2 = self.native_run(nfn, inputs, params)
            st['replays'] += 1
            if s2 in ('fail', 'error', 'timeout'):
                self.cand(st, hname, params, d2, inputs, 'witness',
                          o2 if s2 == 'error' else '')
            elif s2 == 'infeasible' or o2 != obs:
                if len(st['mismatches']) < 5:
                    st['mismatches'].append(
                        dict(harness=hname, params=params, inputs=inputs,
                             native=[s2, d2, o2], symbolic=obs))
            if len(st['samples']) < 2 or (st['paths'] in (10, 100)):
                st['samples'].append(dict(harness=hname, params=pub(params),
                                          inputs=inputs))

    def native_run(self, nfn, inputs, params):
        self.nkeep.add_loaded(sys.modules)
        self.nkeep.restore()
        signal.setitimer(signal.ITIMER_REAL, 10)
        try:
            return self.plain.run_plain(nfn, inputs, params)
        except Alarm:
            return 'timeout', 'native replay timed out', []
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def cand(self, st, hname, params, msg, inputs, kind, tb=''):
        same = [c for c in st['cands'] if c['msg'] == msg]
        if len(same) >= 3 or len(st['cands']) > 30:
            st['late'] += 1
            return
        c = dict(harness=hname, params=params, msg=msg, inputs=inputs,
                 kind=kind, tb=tb[-2500:] if tb else '')
        st['cands'].append(c)
        self.results.put(('cand', c))


def pub(params):
    return {k: v for k, v in params.items() if not k.startswith('_')}


def safe(ex):
    try:
        return str(ex)
    except BaseException:
        return '?'


def confirm(modname, c, evdir, pid, n):
    os.makedirs(evdir, exist_ok=True)
    path = os.path.join(evdir, '%s-%d.json' % (pid, n))
    rec = dict(module=modname, harness=c['harness'], params=c['params'],
               inputs=c['inputs'], message=c['msg'], kind=c['kind'],
               timeout=20 if c['kind'] == 'steps' else 60)
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    env = dict(os.environ, PYTHONPATH=session.VERIF + ':' + session.REPO,
               PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    py = '/opt/venv/bin/python'
    if not os.path.exists(py):
        py = sys.executable
    try:
        p = subprocess.run([py, '-B', '-m', 'symx.replay', path], env=env,
                           cwd=session.VERIF, capture_output=True, text=True,
                           timeout=100)
        return path, p.returncode, (p.stdout + p.stderr)[-2000:]
    except subprocess.TimeoutExpired:
        return path, 1 if c['kind'] == 'steps' else 2, 'timeout'


def load_known(pid):
    p = os.path.join(session.VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid]


def match_known(k, c, detail):
    return (k['harness'] == c['harness'] and k['contains'] in detail
            and all(c['inputs'].get(n) == v or c['params'].get(n) == v
                    for n, v in k.get('where', {}).items()))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('module')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--only')
    ap.add_argument('--shape', type=int)
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-B', '-m', 'symx.run']
                 + (argv or sys.argv[1:]))
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    budget = a.budget or (780 if tier == 'quick' else 6 * 3600)
    t0 = time.time()
    nat = session.native(a.module)
    pid = nat.PROPERTY
    if pid is None:             # the self-test's own feature battery: no property
        pid, evdir = a.module, tempfile.mkdtemp(prefix='symx-')
        atexit.register(shutil.rmtree, evdir, True)
    else:
        evdir = os.path.join(session.VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    tasks, results = mp.Queue(), mp.Queue()
    hungry, stop = mp.Value('i', 0), mp.Value('b', 0)
    deadline = t0 + budget
    outstanding = 0
    want = {}
    shapes = {}
    for hname, shp, tags in nat.HARNESSES:
        if a.only and hname != a.only:
            continue
        want[hname] = tags
        ps = shp(tier)
        shapes[hname] = len(ps)
        for i, p in enumerate(ps):
            if a.shape is not None and i != a.shape:
                continue
            tasks.put((hname, p, [], None))
            outstanding += 1
    procs = []
    for _ in range(NPROC):
        w = Worker(a.module, tasks, results, hungry, stop, deadline, a)
        p = mp.Process(target=w.run, daemon=True)
        p.start()
        procs.append(p)
    tot = collections.Counter()
    per = collections.defaultdict(collections.Counter)
    reached = collections.defaultdict(collections.Counter)
    functions, files = collections.Counter(), {}
    samples, cands, incon, mism = [], [], [], []
    solver_s = cpu = 0.0
    cut = crash = False
    viol, known, seen_known, unconf = [], [], set(), []
    kf = load_known(pid)
    nreplay = 0
    tried = collections.Counter()
    while outstanding:
        try:
            r = results.get(timeout=5)
        except queue.Empty:
            if time.time() > deadline + 60:
                cut = True
                break
            if any(not p.is_alive() for p in procs):
                crash = 'a worker died (memory?)'
                break
            continue
        if r[0] == 'new':
            tasks.put(r[1])
            outstanding += 1
        elif r[0] == 'crash':
            crash = r[1]
            break
        elif r[0] == 'cand':
            c = r[1]
            key = (c['harness'], c['msg'])
            if tried[key] >= 4 or len(cands) > 60:
                continue
            tried[key] += 1
            cands.append(c)
            path, rc, out = confirm(a.module, c, os.path.join(evdir, 'replays'), pid, len(cands))
            nreplay += 1
            if rc == 1:
                hit = None
                for k in kf:
                    if match_known(k, c, out + c['msg']):
                        hit = k
                if hit is not None:
                    seen_known.add(hit['id'])
                    continue
                viol.append((c, path, out))
                if not a.keep_going:
                    stop.value = 1
            else:
                unconf.append((c, path, out))
        else:
            _, hname, st = r
            outstanding -= 1
            for k in ('paths', 'infeasible', 'replays', 'queries', 'obligations', 'decisions'):
                tot[k] += st[k]
                per[hname][k] += st[k]
            solver_s += st['solver_s']
            cpu += st['cpu']
            cut = cut or (st['cut'] and not stop.value)
            functions.update(st['functions'])
            files.update(st['files'])
            reached[hname].update(st['reached'])
            if len(samples) < 12:
                samples.extend(st['samples'][:2])
            incon.extend(st['inconclusive'][:5])
            mism.extend(st['mismatches'][:5])
    for p in procs:
        if outstanding == 0:
            tasks.put(None)
    for p in procs:
        if outstanding == 0:
            p.join(5)
        if p.is_alive():
            p.kill()
    wall = time.time() - t0
    missing = [(h, t) for h, tags in want.items() for t in tags
               if not reached[h][t]]
    fx = {f: n for f, n in functions.items() if f.startswith('xigt')}
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=tot['paths'], transitions=tot['decisions'],
            traces_validated_against_impl=tot['replays'] + nreplay,
            samples=samples[:12],
            explanation='states = symbolic paths run to their end (each covers every '
            'input value satisfying its path condition); transitions = branch decisions '
            'settled by the solver; every path is also replayed natively on one model of '
            'its path condition.',
            exhaustive=not (cut or incon or crash or unconf or mism or viol),
            bounds=nat.BOUNDS, functions_encoded=sorted(fx),
            functions_count=len(fx), solver_queries=tot['queries'],
            obligations_discharged=tot['obligations'],
            solver_seconds=round(solver_s, 2), cpu_seconds=round(cpu, 1),
            infeasible_paths=tot['infeasible'],
            shapes=shapes, per_harness={h: dict(c) for h, c in per.items()},
            reached={h: dict(c) for h, c in reached.items()},
            source_files=sorted(f for f in files.values() if f.startswith(session.REPO)),
            inconclusive=incon[:10], known_findings=sorted(seen_known)),
        assumptions=list(nat.ASSUMES), wall_s=round(wall, 2), violations=len(viol))
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d paths, %d infeasible, %d decisions, %d queries (%.1f s solver), '
          '%d obligations, %d replays, %.1f s wall, %d functions'
          % (pid, tier, tot['paths'], tot['infeasible'], tot['decisions'],
             tot['queries'], solver_s, tot['obligations'], tot['replays'], wall, len(fx)))
    for h, c in per.items():
        print('  %s: %s %s' % (h, dict(c), dict(reached[h])))
    for k in kf:
        if k['id'] in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if viol:
        for c, path, out in viol[:10]:
            print('counterexample in %s (%s): %s' % (c['harness'], c['kind'], c['msg']))
            print('  inputs: %s params: %s' % (json.dumps(c['inputs']), json.dumps(pub(c['params']))))
            print('  ' + out.strip().replace('\n', '\n  ')[-1500:])
        print('VIOLATION property=%s replay=%s' % (pid, viol[0][1]))
        return 1
    bad = False
    if crash:
        print('ERROR worker crash: %s' % crash)
        bad = True
    if cut:
        print('ERROR exploration incomplete after %.0f s' % wall)
        bad = True
    for c, path, out in unconf[:2]:
        print('ERROR counterexample does not reproduce: %s %s %s\n  %s\n  %s' % (
            c['harness'], c['msg'], json.dumps(c['inputs']), out.strip()[-600:], c['tb']))
        print('  params: %s' % json.dumps(c['params']))
        bad = True
    for m in mism[:5]:
        print('ERROR encoding disagrees with the real code: %s' % json.dumps(m, default=str)[:1500])
        bad = True
    for m in sorted(set(incon))[:5]:
        print('ERROR inconclusive: %s' % m)
        bad = True
    if missing and not (a.shape is not None):
        print('ERROR never reached: %s' % missing)
        bad = True
    return 2 if bad else 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    atexit._run_exitfuncs()
    os._exit(rc)
