"""Runs contracts: symbolic verification and native search."""
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import random
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def in_repo(filename):
    """is the file one of the code under contract?"""
    return '/pyTMD/' in filename or filename.startswith(os.path.join(os.path.realpath(os.environ.get('VERIF_REPO', '/repo')), 'scripts') + os.sep)


def load_contracts(prop=None):
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    import contracts
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        if m.startswith('_'):
            continue
        mod = importlib.import_module('contracts.' + m)
    from . import contract
    return [c for c in contract.REGISTRY if prop is None or c.prop == prop]


# ------------------------------------------------------------------ symbolic
def sym_instance(c, params, timeout):
    """verify one contract instance; returns a dict"""
    from . import engine, prove, contract as C
    from .terms import Unsupported, show
    from . import nf
    t0 = time.time()
    res = dict(paths=0, obligations=0, discharged=0, trivial=0, failures=[], status='proved', methods={})
    deadline = t0 + timeout
    from .prove import STATS
    base = dict(STATS)
    import signal

    def body():
        w = C.Sym()
        try:
            c.fn(w, **params)
        except (Unsupported, engine.Infeasible):
            raise
        except Exception as e:
            e.__vc_obls = w.obls
            raise
        finally:
            res['stubs'] = sorted(set(res.get('stubs', [])) | set(w.stubs))
            w.close()
        return w
    try:
        for pr in engine.run_paths(body):
            res['paths'] += 1
            if time.time() > deadline:
                raise Unsupported('time limit')
            if pr.exc is not None:
                res['obligations'] += 1
                # is the path really possible?
                if pr.pc and not prove.feasible(pr.pc[:-1], pr.pc[-1], 5000):
                    res['discharged'] += 1
                    continue
                tb = traceback.extract_tb(pr.exc.__traceback__)
                loc = [f for f in tb if in_repo(f.filename)]
                loc = loc[-1] if loc else tb[-1]
                if os.environ.get('PYVC_TB'):
                    traceback.print_exception(pr.exc)
                res['failures'].append(dict(label='no exception', why='%s: %s (%s:%s)' % (
                    type(pr.exc).__name__, str(pr.exc)[:300], os.path.basename(loc.filename), loc.lineno),
                    path=[show(t, 6)[:200] for t in pr.pc[-8:]], model=path_model(pr.pc),
                    consts=harvest(pr.pc)))
                continue
            w = pr.value
            for o in w.obls + [C.Obligation(lab, g, h, '', w.nonneg_ids) for _, lab, g, h in engine.S.side]:
                res['obligations'] += 1
                if o.goal is True:
                    res['discharged'] += 1
                    res['trivial'] += 1
                    continue
                if o.goal is False:
                    res['failures'].append(dict(label=o.label, why=o.where or 'false', path=[show(t, 6)[:200] for t in pr.pc[-8:]],
                                                model=path_model(pr.pc), consts=harvest(pr.pc)))
                    continue
                p = prove.Prover(o.hyps, nonneg=o.nonneg, deadline=deadline)
                try:
                    p.prove(o.goal)
                    res['discharged'] += 1
                    for m in p.method or {'syntactic'}:
                        res['methods'][m] = res['methods'].get(m, 0) + 1
                except prove.Failed as e:
                    g = o.goal
                    res['failures'].append(dict(label=o.label, why=e.why[:800], path=[show(t, 6)[:200] for t in o.hyps[-8:]],
                                                model=e.model or path_model(pr.pc),
                                                consts=harvest(o.hyps + ([g] if hasattr(g, 'op') else [g.x, g.y]))))
                except (Unsupported, nf.TooBig) as e:
                    res['failures'].append(dict(label=o.label, why='engine: %s' % (e or type(e).__name__), path=[], model=None, consts=[]))
                if len(res['failures']) >= 12:
                    break
            if len(res['failures']) >= 12:
                break
    except Unsupported as e:
        res['status'] = 'unsupported'
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f for f in tb if in_repo(f.filename)] or tb
        res['failures'].append(dict(label='code within the verified subset', why='%s (%s:%s)' % (e, os.path.basename(loc[-1].filename), loc[-1].lineno), path=[], model=None, consts=[]))
    if res['failures'] and res['status'] == 'proved':
        res['status'] = 'failed'
    if res['status'] == 'proved' and (res['paths'] == 0 or res['obligations'] == 0):
        res['status'] = 'failed'
        res['failures'].append(dict(label='vacuity', why='no obligation was generated', path=[], model=None, consts=[]))
    res['wall_s'] = round(time.time() - t0, 2)
    res['z3_calls'] = STATS['z3_calls'] - base['z3_calls']
    res['z3_time'] = round(STATS['z3_time'] - base['z3_time'], 3)
    res['nf_calls'] = STATS['nf_calls'] - base['nf_calls']
    res['nf_time'] = round(STATS['nf_time'] - base['nf_time'], 3)
    return res


def path_model(pc):
    """a model of the path condition, for the native search"""
    from . import prove
    try:
        e = prove.Enc()
        pc = pc + prove.bound_facts(pc)
        fs = [e(h) for h in pc]
        r, s = prove._check(fs + e.side, 1500)
        if str(r) == 'sat':
            return prove.Prover([])._model(s.model(), e)
    except Exception:
        pass
    return None


def harvest(terms):
    """constants compared against in conditions"""
    from . import terms as T
    out = set()
    seen = set()
    for t in terms:
        if not isinstance(t, T.Term):
            continue
        for x in T.subterms(t, seen):
            if x.op in ('lt', 'le', 'eq'):
                for a in x.args:
                    if a.op == 'const':
                        out.add(float(a.args[0]))
                        out.add(-float(a.args[0]))
    return sorted(out)[:60]


def _worker(conn, c, params, timeout):
    try:
        sys.setrecursionlimit(100000)
        import threading
        threading.stack_size(512 * 1024 * 1024)
        out = {}

        def go():
            try:
                out['r'] = sym_instance(c, params, timeout)
            except BaseException as e:
                out['r'] = dict(status='error', paths=0, obligations=0, discharged=0, failures=[
                    dict(label='engine', why='%s: %s' % (type(e).__name__, traceback.format_exc()[-1500:]), path=[], model=None, consts=[])], wall_s=0)
        th = threading.Thread(target=go)
        th.start()
        th.join()
        conn.send(out['r'])
    finally:
        conn.close()
        os._exit(0)


def sym_all(cs, jobs=7, scale=1.0, progress=None, sample=None):
    """verify all the instances in forked workers"""
    ctx = mp.get_context('fork')
    todo = []
    for c in cs:
        if c.bounded:
            continue
        for name, p in c.instances():
            todo.append((c, name, p))
    if sample and len(todo) > sample:
        todo = random.Random(sample).sample(todo, sample)
    running = []
    results = {}
    i = 0
    while i < len(todo) or running:
        while i < len(todo) and len(running) < jobs:
            c, name, p = todo[i]
            i += 1
            a, b = ctx.Pipe(False)
            to = c.sym_timeout * scale
            pr = ctx.Process(target=_worker, args=(b, c, p, to))
            pr.start()
            b.close()
            running.append((pr, a, name, time.time(), to))
        time.sleep(0.01)
        keep = []
        for pr, a, name, t0, to in running:
            if a.poll():
                try:
                    results[name] = a.recv()
                except EOFError:
                    results[name] = dict(status='error', paths=0, obligations=0, discharged=0, wall_s=0, failures=[
                        dict(label='engine', why='worker died', path=[], model=None, consts=[])])
                a.close()
                pr.join()
                if progress:
                    progress(name, results[name])
            elif not pr.is_alive() and not a.poll():
                results[name] = dict(status='error', paths=0, obligations=0, discharged=0, wall_s=0, failures=[
                    dict(label='engine', why='worker died (memory?)', path=[], model=None, consts=[])])
            elif time.time() - t0 > to + 20:
                pr.kill()
                pr.join()
                results[name] = dict(status='timeout', paths=0, obligations=0, discharged=0, wall_s=round(time.time() - t0, 1), failures=[
                    dict(label='time', why='no answer within %d s' % to, path=[], model=None, consts=[])])
                if progress:
                    progress(name, results[name])
            else:
                keep.append((pr, a, name, t0, to))
        running = keep
    return results


# ------------------------------------------------------------------- native
def conc_trial(c, params, seed, hints=None):
    """one native run; returns (status, detail, inputs)"""
    from . import contract as C
    w = C.Conc(seed, hints, tol=c.tol)
    import numpy as np
    np.random.seed(seed % (2 ** 31))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c.fn(w, **params)
    except C.Reject:
        return 'reject', '', w.log
    except C.Fail as e:
        return 'fail', dict(label=e.label, detail=e.detail[:1500]), w.log
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if not any(in_repo(f.filename) for f in tb):
            if hints is not None and 'Sample larger than population' in str(e):
                return 'reject', '', w.log      # a size beyond the table of names
            return 'harness', '%s: %s\n%s' % (type(e).__name__, e, ''.join(traceback.format_list(tb[-4:]))), w.log
        return 'fail', dict(label='exception', detail='%s: %s\n%s' % (type(e).__name__, e, ''.join(traceback.format_list(tb[-4:])))), w.log
    finally:
        w.close()
    return ('ok' if w.checked else 'reject'), w.checked, w.log


def _conc_worker(conn, c, params, seeds, hintlist, tmax, stop_first):
    t0 = time.time()
    out = dict(trials=0, ok=0, reject=0, checks=0, fails=[])
    try:
        for n, s in enumerate(seeds):
            if time.time() - t0 > tmax:
                break
            h = hintlist[n % len(hintlist)] if hintlist else None
            st, det, log = conc_trial(c, params, s, h)
            out['trials'] += 1
            if st == 'reject':
                out['reject'] += 1
            elif st == 'harness':
                out['error'] = det
                break
            elif st == 'fail':
                out['fails'].append(dict(seed=s, hints=h, detail=det, inputs=log))
                if stop_first:
                    break
            else:
                out['ok'] += 1
                out['checks'] += det
        out['wall_s'] = round(time.time() - t0, 2)
        conn.send(out)
    except BaseException as e:
        conn.send(dict(trials=0, ok=0, reject=0, checks=0, fails=[], error=traceback.format_exc()[-1500:]))
    finally:
        conn.close()
        os._exit(0)


def conc_all(tasks, jobs=7, tmax=60, stop_first=True):
    """tasks: (name, contract, params, seeds, hintlist)"""
    ctx = mp.get_context('fork')
    running, results, i = [], {}, 0
    while i < len(tasks) or running:
        while i < len(tasks) and len(running) < jobs:
            name, c, p, seeds, hl = tasks[i]
            i += 1
            a, b = ctx.Pipe(False)
            pr = ctx.Process(target=_conc_worker, args=(b, c, p, seeds, hl, tmax, stop_first))
            pr.start()
            b.close()
            running.append((pr, a, name, time.time()))
        time.sleep(0.01)
        keep = []
        for pr, a, name, t0 in running:
            if a.poll():
                try:
                    results[name] = a.recv()
                except EOFError:
                    results[name] = dict(trials=0, ok=0, reject=0, checks=0, fails=[], error='died')
                a.close()
                pr.join()
            elif not pr.is_alive() and not a.poll():
                results[name] = dict(trials=0, ok=0, reject=0, checks=0, fails=[], error='died')
            elif time.time() - t0 > tmax * 2 + 60:
                pr.kill()
                pr.join()
                results[name] = dict(trials=0, ok=0, reject=0, checks=0, fails=[], error='no answer')
            else:
                keep.append((pr, a, name, t0))
        running = keep
    return results


def main(argv):
    """python -m pyvc.run sym|conc PROP OUT [JSON options]"""
    mode, prop, outf = argv[:3]
    opt = json.loads(argv[3]) if len(argv) > 3 else {}
    sys.path.insert(0, ROOT)
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    if mode == 'sym':
        from . import instrument
        instrument.install(os.environ.get('VERIF_REPO', '/repo'))
        import pyTMD  # noqa: loaded through the instrumenting loader
        import pyTMD.compute, pyTMD.predict, pyTMD.solve, pyTMD.spatial, pyTMD.ellipse, pyTMD.math
        cs = load_contracts(prop)
        if opt.get('only'):
            cs = [c for c in cs if c.name in opt['only'] and (isinstance(opt['only'], list) or c.name == opt['only'])]
        r = sym_all(cs, scale=opt.get('scale', 1.0), jobs=opt.get('jobs', 7), sample=opt.get('sample'),
                    progress=(lambda n, r: print('  %-60s %s %s/%s %ss' % (n, r['status'], r.get('discharged'), r.get('obligations'), r.get('wall_s')), file=sys.stderr)) if opt.get('verbose') else None)
    else:
        sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
        import pyTMD  # noqa: the real package
        assert os.path.realpath(pyTMD.__file__).startswith(os.path.realpath(os.environ.get('VERIF_REPO', '/repo')))
        cs = load_contracts(prop)
        if opt.get('only'):
            cs = [c for c in cs if c.name in opt['only'] and (isinstance(opt['only'], list) or c.name == opt['only'])]
        tasks = []
        seed = opt.get('seed', 1)
        want = opt.get('targets')      # {instance: [hints]}
        for c in cs:
            for name, p in c.instances():
                if want is not None and name not in want:
                    continue
                n = opt['trials'] if 'trials' in opt else int(c.trials * opt.get('mult', 1))
                rnd = random.Random('%s/%s' % (seed, name))
                seeds = [rnd.randrange(1 << 30) for _ in range(n)]
                tasks.append((name, c, p, seeds, want[name] if want is not None else None))
        if opt.get('sample') and len(tasks) > opt['sample']:
            tasks = random.Random(opt['sample']).sample(tasks, opt['sample'])
        r = conc_all(tasks, tmax=opt.get('tmax', 60), jobs=opt.get('jobs', 7))
    from . import contract as C
    r['__meta__'] = {n: dict(contract=c.name, params=p, functions=c.functions, bounded=c.bounded, doc=c.doc, assumes=c.assumes)
                     for c in cs for n, p in c.instances()}
    r['__meta__']['__verified__'] = dict(functions=sorted({f for c in C.REGISTRY if not c.bounded for f in c.functions}), bounded=False)
    with open(outf, 'w') as f:
        json.dump(r, f, default=str)


if __name__ == '__main__':
    main(sys.argv[1:])
