#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough]

Decides one property: every obligation of its contracts is generated from
/repo's current source and discharged by the prover (pyvc); the contracts are
also run natively.  Writes evidence/PROPERTY.json; exit 0 / 1.
"""
import ast
import fnmatch
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


def spawn(mode, prop, out, opt, tmp):
    env = dict(os.environ, PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               PYTHONDONTWRITEBYTECODE='1', TMPDIR=tmp, HOME=tmp, MPLCONFIGDIR=tmp)
    return subprocess.Popen([PY, '-m', 'pyvc.run', mode, prop, out, json.dumps(opt)], cwd=ROOT, env=env,
                            stdout=open(out + '.log', 'w'), stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)


def collect(p, out, tmax):
    try:
        p.wait(tmax)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return None, 'no answer within %d s' % tmax
    try:
        return json.load(open(out)), None
    except (OSError, ValueError):
        return None, open(out + '.log').read()[-3000:]


def main():
    prop = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % prop)
    try:
        rc = run(prop, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, t0, tmp):
    thorough = tier == 'thorough'
    known = [k for k in json.load(open(os.path.join(ROOT, 'known_findings.json'))) if k.get('property') == prop and k.get('status') == 'known']
    o1, o2 = os.path.join(tmp, 'sym.json'), os.path.join(tmp, 'conc.json')
    ps = spawn('sym', prop, o1, dict(scale=3.0 if thorough else 1.0, jobs=5), tmp)
    pc = spawn('conc', prop, o2, dict(seed=seed, mult=25 if thorough else 1, tmax=300 if thorough else 40, jobs=3), tmp)
    sym, es = collect(ps, o1, 800 if thorough else 480)
    conc, ec = collect(pc, o2, 800 if thorough else 300)
    # what is bounded gets the more native runs, as many as the time allows
    if conc is not None and not thorough:
        meta = conc['__meta__']
        many = {n: r for n, r in conc.items() if n != '__meta__' and meta[n]['bounded'] and not r.get('error') and not r['fails']}
        mult = min(10.0, 140 / max(1.0, sum(r.get('wall_s', 0) for r in many.values())))
        if many and mult > 1 and time.time() - t0 < 200:
            o4 = os.path.join(tmp, 'conc4.json')
            r4, _ = collect(spawn('conc', prop, o4, dict(seed=seed + 500, mult=mult, tmax=20, jobs=7, only=sorted({meta[n]['contract'] for n in many})), tmp), o4, 120)
            for n, r in (r4 or {}).items():
                if n in many and not r.get('error'):
                    for k in ('trials', 'ok', 'reject', 'checks', 'fails'):
                        conc[n][k] += r[k]
    out = []            # (instance, label, kind, payload)
    notes = []
    if conc is None:
        conc = {}
        out.append(('native run', 'native run', 'none', dict(why=ec)))
    if sym is None:
        sym = {}
        out.append(('verifier', 'verifier', 'none', dict(why=es)))
    meta = sym.pop('__meta__', None) or conc.pop('__meta__', None) or {}
    conc.pop('__meta__', None)
    # a native failure is a failing input
    native = {}
    for name, r in conc.items():
        if r.get('error'):
            out.append((name, 'native run', 'none', dict(why=r['error'])))
        for f in r['fails']:
            native.setdefault(name, f)
    # search for failing inputs behind obligations that were not discharged
    bad = {n: r for n, r in sym.items() if r['status'] != 'proved' and not is_known(known, n, r)}
    todo = {n: r for n, r in bad.items() if n not in native}
    if todo and ec is None:
        targets = {}
        for n, r in todo.items():
            hs = []
            consts = sorted({c for f in r['failures'] for c in f.get('consts') or []})
            for f in r['failures'][:6]:
                if f.get('model'):
                    hs.append(dict(f['model']))
                    hs.append(dict(f['model'], const=consts))
            hs += [dict(const=consts)] * 2 if consts else []
            lits = literals(meta.get(n, {}).get('functions') or ())
            hs += [dict(const=lits)] if lits else []
            hs.append({})
            targets[n] = hs
        o3 = os.path.join(tmp, 'conc2.json')
        left = max(60, (760 if thorough else 420) - (time.time() - t0))
        k = max(1, -(-len(targets) // 7))
        tm = min(60, left / k)
        p3 = spawn('conc', prop, o3, dict(seed=seed + 1000, trials=4000, tmax=tm, jobs=7, targets=targets), tmp)
        r3, e3 = collect(p3, o3, left + 90)
        for n, r in (r3 or {}).items():
            for f in r.get('fails', []):
                native.setdefault(n, f)
        for n in todo:
            if n in (r3 or {}):
                notes.append('%s: %d native trials searched for a failing input' % (n, r3[n]['trials']))
    for n, f in sorted(native.items()):
        ob = [x for x in (bad.get(n) or {}).get('failures', [])]
        out.insert(0, (n, f['detail']['label'], 'input', dict(native=f, obligations=ob)))
    for n, r in sorted(bad.items()):
        if n not in native:
            out.append((n, r['failures'][0]['label'] if r['failures'] else r['status'], 'none',
                        dict(status=r['status'], obligations=r['failures'])))
    # report
    viol, kf = 0, 0
    rdir = os.path.join(ROOT, 'replays')
    os.makedirs(rdir, exist_ok=True)
    vlist = []
    for k in known:
        hit = [n for n, r in sym.items() if r['status'] != 'proved' and matches(k, n, [f['label'] for f in r['failures']])]
        hit += [x[0] for x in out if x[2] == 'input' and matches(k, x[0], [x[1]])]
        if hit:
            kf += 1
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for n, label, kind, pay in out:
        if kind == 'input' and any(matches(k, n, [label]) for k in known):
            continue
        viol += 1
        f = os.path.join(rdir, '%s-%s.json' % (prop, hashlib.sha1((n + label).encode()).hexdigest()[:10]))
        c = meta.get(n, {})
        with open(f, 'w') as fh:
            json.dump(dict(property=prop, instance=n, label=label, kind=kind, contract=c,
                           replay='%s replay.py %s' % (PY, f), **pay), fh, indent=1, default=str)
        vlist.append(dict(instance=n, label=label, replay=f))
        detail = pay['native']['detail']['detail'].split('\n')[0][:200] if kind == 'input' else \
            '; '.join(x['why'][:160] for x in pay.get('obligations', [])[:1]) or str(pay.get('why', ''))[-300:]
        if viol > 20:
            continue
        print('  %s: %s: %s' % (n, label, detail))
        print('VIOLATION property=%s replay=%s%s' % (prop, f, '' if kind == 'input' else ' no-failing-input-found'))
    evidence(prop, tier, seed, t0, sym, conc, meta, vlist, kf, notes)
    ob = sum(r['obligations'] for r in sym.values())
    di = sum(r['discharged'] for r in sym.values())
    print('%s: %d contracts instances verified, %d/%d obligations discharged, %d native trials, %d violation(s), %.0f s' % (
        prop, sum(r['status'] == 'proved' for r in sym.values()), di, ob, sum(r['trials'] for r in conc.values()), viol, time.time() - t0))
    return 1 if viol else 0


def literals(functions):
    """numbers that functions compare with, divide by, step by or name"""
    out = set()
    for f in functions:
        parts = f.split('.')
        top = REPO if parts[0] == 'scripts' else os.path.join(REPO, 'pyTMD')
        path = next((os.path.join(top, *parts[:i]) + '.py' for i in range(len(parts), 0, -1) if os.path.isfile(os.path.join(top, *parts[:i]) + '.py')), None)
        if path is None:
            continue
        try:
            with open(path) as fh:
                tree = ast.parse(fh.read())
        except (OSError, SyntaxError):
            continue
        for d in ast.walk(tree):
            if not isinstance(d, ast.FunctionDef) or d.name != parts[-1]:
                continue
            for x in ast.walk(d):
                if isinstance(x, ast.Compare):
                    vs = [x.left] + x.comparators
                elif isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Mod, ast.FloorDiv)):
                    vs = [x.right]
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('range', 'min', 'max'):
                    vs = x.args
                elif isinstance(x, ast.Assign):
                    vs = [x.value]
                elif isinstance(x, ast.Slice):
                    vs = [x.lower, x.upper, x.step]
                else:
                    continue
                out |= {float(v.value) for v in vs if isinstance(v, ast.Constant) and isinstance(v.value, (int, float)) and not isinstance(v.value, bool) and abs(v.value) < 1e7}
    return sorted(out)[:60]


def matches(k, name, labels):
    return fnmatch.fnmatchcase(name, k['instance'].replace('[', '[[]')) and all(any(fnmatch.fnmatchcase(l, p) for p in k['labels']) for l in labels)


def is_known(known, n, r):
    return r['status'] == 'failed' and any(matches(k, n, [f['label'] for f in r['failures']]) for k in known)


def evidence(prop, tier, seed, t0, sym, conc, meta, vlist, kf, notes):
    ob = sum(r['obligations'] for r in sym.values())
    di = sum(r['discharged'] for r in sym.values())
    methods = {}
    for r in sym.values():
        methods['constant'] = methods.get('constant', 0) + r.get('trivial', 0)
        for m, v in (r.get('methods') or {}).items():
            methods[m] = methods.get(m, 0) + v
    stubs = sorted({s for r in sym.values() for s in r.get('stubs', [])})
    funcs = sorted({f for m in meta.values() for f in m.get('functions', []) if not m.get('bounded')})
    verified = set(meta.get('__verified__', {}).get('functions', []))
    bounded = {n: dict(doc=m.get('doc', '')[:300], trials=conc.get(n, {}).get('trials', 0), checks=conc.get(n, {}).get('checks', 0))
               for n, m in meta.items() if m.get('bounded')}
    assumed = [s for s in stubs if s.replace('pyTMD.', '') not in verified]
    assumptions = [
        'floating point numbers are treated as exact reals; decimal literals as the number written',
        'divisors are non-zero, radicands non-negative, where the code divides or takes a root; NaN only where declared',
        'numpy semantics as axiomatised in pyvc/npproxy.py and pyvc/arr.py (cross-checked by the native runs of the same contracts)',
        'symbolic lengths are >= 2 (length 1 is a separate instance where listed)',
        'data under a mask is unspecified',
    ]
    for m in meta.values():
        for a in m.get('assumes', []) or []:
            if a not in assumptions:
                assumptions.append(a)
    if assumed:
        assumptions.append('contracts assumed (not verified here) for: ' + ', '.join(assumed))
    if notes:
        assumptions += notes
    level = next((c['level'] for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks'] if c['property'] == prop), 'proof') if sym else 'exploration'
    cov = dict(obligations=ob, discharged=di, checker_cmd='/opt/venv/bin/python check.py %s --tier %s' % (prop, tier),
               trusted_base=['pyvc (this repository): loader, engine, normal form', 'z3 %s (python bindings)' % z3v(), 'CPython 3.12, numpy for constant folding'] + ['callee contract: ' + s for s in assumed],
               functions_under_contract=funcs, callee_contracts=stubs, instances_total=len(sym),
               instances_proved=sum(r['status'] == 'proved' for r in sym.values()),
               paths=sum(r['paths'] for r in sym.values()), discharged_by=methods,
               z3_calls=sum(r.get('z3_calls', 0) for r in sym.values()), z3_time_s=round(sum(r.get('z3_time', 0) for r in sym.values()), 2),
               normal_form_calls=sum(r.get('nf_calls', 0) for r in sym.values()), normal_form_time_s=round(sum(r.get('nf_time', 0) for r in sym.values()), 2),
               evaluations=sum(r['trials'] for r in conc.values()),
               distinct_nontrivial=sum(r['ok'] for r in conc.values()),
               rule='native runs of the same contracts on random inputs; counted when the precondition held and at least one postcondition was evaluated',
               samples=[dict(instance=n, obligations=r['obligations'], paths=r['paths'], seconds=r['wall_s']) for n, r in sorted(sym.items())[:6]] +
                       [dict(instance=n, native_trials=r['trials'], checks=r['checks']) for n, r in sorted(conc.items())[:4]],
               bounded_only=bounded, known_findings_seen=kf)
    if level != 'proof':
        cov['explanation'] = 'bounded native checks only'
    e = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 1),
             assumptions=assumptions, violations=len(vlist))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(e, f, indent=1, default=str)


def z3v():
    try:
        sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


if __name__ == '__main__':
    main()
