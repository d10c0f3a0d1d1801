"""Constituent containers: io/constituents.py"""
from pyvc.contract import contract, product

NAMES = ['m2', 's2', 'k1', 'o1', 'n2', 'node', "l2'", '2n2']


def fields(w, k, kind=2):
    np = w.np
    d = tuple(w.dim(n, hi=5) for n in ('ny', 'nx')[:kind])
    return {n: w.masked('z' + n, d, 'C', lo=-3, hi=3) for n in NAMES[:k]}, d


def build(w, z, **kw):
    c = w.get('pyTMD.io.constituents.constituents')(**kw)
    for n, v in z.items():
        c.append(n, v)
    return c


def same(w, label, a, b):
    w.shape_eq(label, a, w.np.shape(b))
    w.eq(label, w.data(a), w.data(b))
    w.eq(label + ' mask', w.mask(a), w.mask(b))


@contract('P22', 'amplitude and phase', functions=['io.constituents.constituents.amplitude', 'io.constituents.constituents.phase'], params=product(kind=[1, 2], how=['masked', 'none']), tol=1e-12, trials=30)
def amplitude_phase(w, kind, how):
    """amplitude exp(-i phase) is the constituent; masks kept; fill values where
    masked; the stored constituent is not modified"""
    np = w.np
    z, d = fields(w, 2, kind)
    if how == 'none':
        z = {n: np.ma.array(v.data, mask=np.zeros(np.shape(v), dtype=bool)) for n, v in z.items()}
    c = build(w, z)
    snap = w.snapshot(*z.values())
    for n, v in z.items():
        a, p = c.amplitude(n), c.phase(n)
        bad = w.mask(v)
        for q in (a, p):
            w.shape_eq('shape', q, d)
            w.eq('mask', w.mask(q), bad)
            w.eq('fill value', w.data(q), 0 * w.data(v).real + q.fill_value, where=bad)
        a, r = w.data(a), w.data(p) * np.pi / 180
        w.true('amplitude is not negative', (a >= 0) | bad)
        w.true('phase range', ((w.data(p) >= 0) & (w.data(p) <= 360)) | bad)
        w.eq('real part', a * np.cos(r), w.data(v).real, where=~bad)
        w.eq('imaginary part', -a * np.sin(r), w.data(v).imag, where=~bad)
    w.unchanged('constituents', snap)


@contract('P22', 'container', functions=['io.constituents.constituents.' + n for n in ('append', 'get', 'pop', 'update', 'shape', '__len__', '__iter__', '__next__', '__init__', '__getitem__', '__setitem__', '__str__')],
          params=product(k=[0, 1, 2, 4, 8]), trials=4)
def container(w, k):
    """an ordered map of names to fields: appended fields are kept in order,
    updates replace and removals drop one of them and leave the others"""
    np = w.np
    z, d = fields(w, k)
    lon = w.array('lon', (d[1],))
    c = build(w, z, longitude=lon)
    w.eq('attributes', c.longitude, lon)

    def holds(label, ref):
        w.true(label + ': names', list(c.fields) == list(ref) and len(c) == len(ref))
        out = list(c)
        w.true(label + ': order', [n for n, _ in out] == list(ref))
        out2 = list(c)
        w.true(label + ': again', [n for n, _ in out2] == list(ref))
        for n, v in out:
            same(w, label, v, ref[n])
        for n in ref:
            same(w, label, c.get(n), ref[n])
            same(w, label, c[n], ref[n])
        if ref:
            w.shape_eq(label + ': shape', ref[next(iter(ref))], c.shape)
        else:
            w.true(label + ': shape', c.shape is None)
    ref = dict(z)
    holds('appended', ref)
    new = w.masked('new', d, 'C')
    for n in list(ref)[:1] + list(ref)[2:3]:
        ref[n] = new
        w.true('update', c.update(n, new) is c)
        holds('updated', ref)
    for n in list(ref)[1:3]:
        same(w, 'removed', c.pop(n), ref.pop(n))
        holds('after removal', ref)
        w.raises('removed name', AttributeError, lambda: c.get(n))
        w.raises('removed name', KeyError, lambda: c.update(n, new))
        w.raises('removed name', ValueError, lambda: c.pop(n))
    for n in list(ref)[:1]:
        c[n] = z[n]
        ref[n] = z[n]
        holds('replaced', ref)
        c[n] = new
        ref[n] = new
    w.true('text', str(c) == 'pyTMD.constituents\n    constituents: ' + ', '.join(ref))
    w.true('append', c.append('q1', new) is c)
    ref['q1'] = new
    holds('appended again', ref)


@contract('P22', 'copies', functions=['io.constituents.constituents.get', 'io.constituents.constituents.pop'], trials=4)
def copies(w):
    """values taken from the container can be changed without changing it"""
    np = w.np
    z, d = fields(w, 2)
    c = build(w, z)
    snap = w.snapshot(*z.values())
    a = c.get('m2')
    a[...] = 0
    same(w, 'kept', c.get('m2'), z['m2'])
    w.unchanged('kept', snap)
    b = c.pop('s2')
    b[...] = 0
    w.unchanged('kept', snap)


# Doodson (1921), Cartwright and Tayler (1971) and extended numbers by theory (P05)
@contract('P22', 'numbers', functions=['io.constituents.constituents.' + n for n in ('doodson_number', 'cartwright_number', 'extended_doodson')])
def numbers(w):
    """numbers of the fields, in order, none for unknown constituents"""
    names = ['m2', 'unknown', 'k1', 'mf', 'm1', 'sa', 'another', 's2']
    c = build(w, {n: w.array('z', (2,)) for n in names})
    f = w.get('pyTMD.arguments.doodson_number')
    for at, kw in (('doodson_number', {}), ('cartwright_number', dict(formalism='Cartwright')), ('extended_doodson', dict(formalism='Extended'))):
        got = getattr(c, at)
        w.true(at, len(got) == len(names))
        for n, v in zip(names, got):
            if n in ('unknown', 'another'):
                w.true(at, v is None)
            else:
                w.true(at, v is not None and str(v) == str(f(n, **kw)))


ALIASES = {'la2': 'lambda2', 'lam2': 'lambda2', 'lm2': 'lambda2', '2n': '2n2', 'sig1': 'sigma1', 'alp1': 'alpha1', 'alp2': 'alpha2', 'bet1': 'beta1', 'bet2': 'beta2', 'del2': 'delta2',
           'e2': 'eps2', 'ep2': 'eps2', 'gam2': 'gamma2', 'msq': 'msqm', 'omega0': 'node', 'om0': 'node', 'rho': 'rho1', 'the': 'theta1', 'the1': 'theta1'}
PLAIN = ['sa', 'ssa', 'mm', 'msf', 'mt', 'mf', 'alpha1', '2q1', 'sigma1', 'q1', 'rho1', 'o1', 'tau1', 'm1', 'chi1', 'pi1', 'p1', 's1', 'k1', 'psi1', 'phi1', 'beta1', 'theta1', 'j1', 'oo1',
         '2n2', 'mu2', 'n2', 'nu2', 'm2', 'm2a', 'm2b', 'lambda2', 'l2', 't2', 's2', 'alpha2', 'beta2', 'delta2', 'gamma2', 'r2', 'k2', 'eta2', 'mns2', '2sm2', 'm3', 'mk3', 's3', 'mn4', 'm4',
         'ms4', 'mk4', 'so1', 's4', 's5', 'm6', 's6', 's7', 's8', 'm8', 'mks2', 'msqm', 'mtm', 'n4', 'eps2', 'ups1', 'z0', 'node', "l2'", "m1'", "n2'"]
FORMS = ['%s', '%s.nc', '%s.d', '%s.nc.gz', 'h_%s_tpxo9_atlas_30_v5.nc', 'u_%s_tpxo10_atlas_30_v2', 'hf.%s_tpxo8_atlas_30c_v1.nc', '%sload.nc', '%sx.nc', '%s_fes2022.nc', '%s_ocean_eot20.nc', '%s_RE14_oceantide.nc', '%s_DTU23.d', '%s.hamtide11a.nc', 'HAMcurrent11a_%s.nc', '%s_5.5Dx.nc']
# forms in which the letters around an alias or name are not another constituent
SAFE = ['%s', '%s.nc', '%s.d', '%s.nc.gz', '%sload.nc', '%sx.nc']


@contract('P22', 'parse', functions=['io.constituents.constituents.parse'], trials=1)
def parse(w):
    """names in every form of file of the known models, in any case"""
    f = w.get('pyTMD.io.constituents.constituents.parse')
    for n in PLAIN:
        for form in FORMS:
            for s in (form % n, (form % n).upper(), form % n.capitalize()):
                w.true(s, f(s) == n)
    for a, n in ALIASES.items():
        for form in SAFE:
            for s in (form % a, (form % a).upper()):
                w.true(s, f(s) == n)
    for s in ('', 'nothing', 'tide.nc', 'h0.nc'):
        w.raises('unknown ' + s, ValueError, lambda: f(s))


PREFIX = r'^(?:h_|u_|v_|hf\.|HAMcurrent11a_)?'
SUFFIX = r"(?:x|load)?(?:_tpxo\w*|_fes\w*|_ocean_\w*|_load_\w*|_RE14\w*|_DTU23|_5\.5Dx?|\.hamtide11a)?(?:\.nc|\.d|\.txt|\.asc)?$"


@contract('P22', 'database names', functions=['io.constituents.constituents.parse', 'io.model.model.parse_file'], trials=1)
def database_names(w):
    """every constituent file of every model of the database, one file each"""
    import json
    import os
    import re
    f = w.get('pyTMD.io.model.model.parse_file')
    with open(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'pyTMD/data/database.json')) as fid:
        db = json.load(fid)
    total = 0
    for kind, models in db.items():
        for name, m in models.items():
            groups = m['model_file'].values() if isinstance(m['model_file'], dict) else [m['model_file']]
            for g in groups:
                if not isinstance(g, list):
                    continue
                out = []
                for file in g:
                    tok = re.match(PREFIX + r"(\w+?'?)" + SUFFIX, file.split('/')[-1], re.I)
                    tok = tok.group(1).lower() if tok else '?'
                    out.append(f(file))
                    w.true('%s: %s' % (name, file), out[-1] == ALIASES.get(tok, tok))
                    w.true('%s: %s compressed' % (name, file), f(file + '.gz') == out[-1])
                w.true('%s: distinct' % name, len(set(out)) == len(out))
                total += len(out)
    w.true('files', total > 400)
