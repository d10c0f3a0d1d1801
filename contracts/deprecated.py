"""Former names of functions: pyTMD.time, pyTMD.eop, compute_tide_corrections, check_points"""
import inspect
import warnings

from contracts import constants as K
from pyvc.contract import contract, product

ASSUME = ('timescale (times and Earth orientation) is taken by its documentation',)
TIME = ['parse', 'parse_date_string', 'split_date_string', 'datetime_to_list', 'calendar_days', 'convert_datetime', 'convert_delta_time', 'convert_calendar_dates', 'convert_calendar_decimal', 'convert_julian']
EOP = ['update_mean_pole', 'calculate_mean_pole', 'pull_pole_coordinates', 'update_finals_file', 'iers_mean_pole', 'iers_daily_EOP', 'iers_polar_motion']
QUIET = EOP[:4]
NEW = {**{'pyTMD.time.' + n: 'timescale.time.' + n for n in TIME}, **{'pyTMD.eop.' + n: 'timescale.eop.' + n for n in EOP},
       'pyTMD.check_points.check_points': 'pyTMD.compute.tide_masks', 'pyTMD.spatial.scale_areas': 'pyTMD.spatial.scale_factors'}
C = 'pyTMD.compute_tide_corrections.compute_%s_corrections'
for a, b in dict(tide='tide_elevations', LPET='LPET_elevations', LPT='LPT_displacements', OPT='OPT_displacements', SET='SET_displacements').items():
    NEW[C % a] = 'pyTMD.compute.' + b


class Thing:
    """a value of which nothing is known"""


@contract('P28', 'former names', functions=[n[6:] for n in NEW], params=product(name=sorted(NEW), args=['positional', 'named', 'few']), trials=1, assumes=ASSUME)
def former(w, name, args):
    """a former name does what its replacement does: it is called once with the same
    arguments, whatever they are, and its value is the value"""
    new = NEW[name]
    real = w.get(new)
    old = w.get(name)
    result, calls = Thing(), []
    has = [p for p in inspect.signature(real).parameters.values() if p.kind in (p.POSITIONAL_OR_KEYWORD, p.POSITIONAL_ONLY)]
    needed = [p for p in has if p.default is p.empty]
    alone = len(inspect.signature(old).parameters) == 1 and not any(p.kind == p.VAR_POSITIONAL for p in inspect.signature(old).parameters.values())
    if args == 'positional':
        # all by position, unless they are documented as options
        few = has if name not in ['pyTMD.eop.' + n for n in QUIET] or name.endswith('pull_pole_coordinates') else []
        a, k = [Thing() for _ in few], {}
    elif args == 'named':
        a = [Thing() for _ in needed]
        k = {p.name: Thing() for p in has[len(needed):]}
    else:
        a, k = [Thing() for _ in needed], {}
    if alone and name.startswith('pyTMD.time.'):
        a, k = a[:1], {}

    def f(*args, **kwargs):
        calls.append((args, kwargs))
        return result
    w.patch(new, f)
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        got = old(*a, **k)
    w.true('one call', len(calls) == 1)
    b = inspect.signature(real).bind(*calls[0][0], **calls[0][1])
    want = inspect.signature(real).bind(*a, **k)
    w.true('arguments', b.arguments == want.arguments)
    w.true('value', got is result or name.split('.')[-1] in QUIET)
    w.true('warnings', all(issubclass(s.category, DeprecationWarning) for s in seen))


@contract('P28', 'corrections by their type', functions=['compute_tide_corrections.compute_corrections'], params=product(kind=['default', 'ocean', 'OCEAN', 'load', 'LPET', 'lpet', 'LPT', 'OPT', 'opt', 'SET', 'set', 'tides', '', 'LP', 'LPX', 'xLPT', 'LPETS', 'oceans', 'OPTS', 'S', 'loads', 'OCE', 'ET']), trials=1)
def corrections(w, kind):
    """compute_corrections calls the function of the type with the points, times and options"""
    M = {'DEFAULT': 'tide_elevations', 'OCEAN': 'tide_elevations', 'LOAD': 'tide_elevations', 'LPET': 'LPET_elevations', 'LPT': 'LPT_displacements', 'OPT': 'OPT_displacements', 'SET': 'SET_displacements'}
    f = w.get('pyTMD.compute_tide_corrections.compute_corrections')
    x, y, t, result, calls = Thing(), Thing(), Thing(), Thing(), []
    kw = dict(EPSG=Thing(), TYPE=Thing())
    for n in set(M.values()):
        w.patch('pyTMD.compute.' + n, lambda *a, n=n, **k: calls.append((n, a, k)) or result)
    if kind != 'default':
        kw['CORRECTION'] = kind
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if kind.upper() not in M:
            w.raises('type', ValueError, lambda: f(x, y, t, **kw))
            w.true('no call', not calls)
            return
        got = f(x, y, t, **kw)
    w.true('one call', len(calls) == 1 and calls[0][0] == M[kind.upper()])
    kw.pop('CORRECTION', None)
    w.true('points, times and options', calls[0][1:] == ((x, y, t), kw) and got is result)


@contract('P28', 'former names and values', functions=['time.' + n for n in TIME] + ['time.timescale.__init__', 'eop.iers_mean_pole', 'eop.iers_daily_EOP', 'eop.iers_polar_motion'], bounded=True, trials=12, tol=1e-9)
def values(w):
    """dates (1902 to 2099: timescale is a day off around 1900 and 2100), days and pole coordinates of former names, against calendars"""
    import datetime
    np = w.np
    T = lambda n: w.get('pyTMD.time.' + n)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d = datetime.datetime(w.rng.randint(1902, 2099), w.rng.randint(1, 12), w.rng.randint(1, 28), w.rng.randint(0, 23), w.rng.randint(0, 59), w.rng.randint(0, 59))
        six = [d.year, d.month, d.day, d.hour, d.minute, d.second]
        w.true('parse', T('parse')(d.isoformat()) == d)
        w.true('datetime_to_list', list(T('datetime_to_list')(d)) == six)
        unit, sec = w.rng.choice([('days', 86400.0), ('hours', 3600.0), ('seconds', 1.0), ('minutes', 60.0), ('microseconds', 1e-6)])
        epoch, factor = T('parse_date_string')('%s since %s' % (unit, d.isoformat()))
        w.true('parse_date_string', list(epoch) == six and factor == sec)
        u, e = T('split_date_string')('%s since %s' % (unit, d.isoformat()))
        w.true('split_date_string', u == unit and e == d)
        leap = d.year % 4 == 0 and (d.year % 100 != 0 or d.year % 400 == 0)
        w.true('calendar_days', [int(v) for v in T('calendar_days')(d.year)] == [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])
        s = (d - datetime.datetime(1970, 1, 1)).total_seconds()
        w.eq('convert_datetime', np.atleast_1d(T('convert_datetime')(np.array([d], dtype='datetime64[s]')))[0], s, tol=1e-9, scale=1e9)
        days = (d - datetime.datetime(1992, 1, 1)).total_seconds() / 86400
        w.eq('convert_calendar_dates', T('convert_calendar_dates')(*six), days, tol=1e-8, scale=1e4)
        w.eq('convert_delta_time', T('convert_delta_time')(s, epoch1=(1970, 1, 1), epoch2=(1992, 1, 1), scale=1 / 86400), days, tol=1e-8, scale=1e4)
        y = d.year + (d - datetime.datetime(d.year, 1, 1)).total_seconds() / 86400 / (366 if leap else 365)
        w.eq('convert_calendar_decimal', np.atleast_1d(T('convert_calendar_decimal')(*[np.array([float(v)]) for v in six[:2]], **{k: np.array([float(v)]) for k, v in zip(('day', 'hour', 'minute', 'second'), six[2:])}))[0], y, tol=1e-9, scale=1e3)
        jd = 2448622.5 + days
        Y, M, D, h, m, x = (float(np.atleast_1d(v)[0]) for v in T('convert_julian')(np.array([jd]), format='tuple'))
        back = datetime.datetime(int(Y), int(M), int(D)) + datetime.timedelta(hours=h, minutes=m, seconds=x)
        w.true('convert_julian', abs((back - d).total_seconds()) < 1e-2)
        ts = T('timescale')(MJD=np.array([48622.0 + days]))
        w.eq('timescale', ts.tide, np.array([days]), tol=1e-9, scale=1e4)
        E = lambda n: w.get('pyTMD.eop.' + n)
        t = w.rng.uniform(1990, 2015)
        px, py, flag = E('iers_mean_pole')(np.array([t]), convention='2018')
        w.eq('secular pole: x', px, np.array([0.055 + 0.001677 * (t - 2000)]))
        w.eq('secular pole: y', py, np.array([0.3205 + 0.00346 * (t - 2000)]))
        w.true('secular pole: flag', bool(np.all(flag)))
        table = E('iers_daily_EOP')()
        i = w.rng.randint(50, len(table['MJD']) - 600)
        qx, qy = E('iers_polar_motion')(table['MJD'][i:i + 1])[:2]
        w.le('pole', np.abs(np.ravel([qx, qy]) - np.array([table['x'][i], table['y'][i]])), 1e-6)
        import timescale.eop
        again = E('iers_daily_EOP')(timescale.eop._finals_file)
        w.true('named file', bool(np.array_equal(again['x'], table['x'])))
        w.true('units of time', all(T('_to_sec')[k] == v for k, v in dict(days=86400.0, hr=3600.0, min=60.0, ms=1e-3, s=1.0, microseconds=1e-6).items()))
        epochs = dict(_mjd_epoch=(1858, 11, 17, 0, 0, 0), _unix_epoch=(1970, 1, 1, 0, 0, 0), _gps_epoch=(1980, 1, 6, 0, 0, 0), _tide_epoch=(1992, 1, 1, 0, 0, 0), _j2000_epoch=(2000, 1, 1, 12, 0, 0), _ntp_epoch=(1900, 1, 1, 0, 0, 0), _atlas_sdp_epoch=(2018, 1, 1, 0, 0, 0))
        w.true('epochs', all(tuple(T(k)) == v for k, v in epochs.items()))


@contract('P28', 'former names of options', functions=['io.%s.extract_constants' % m for m in ('OTIS', 'ATLAS', 'GOT', 'FES')], trials=4, tol=1e-6, timeout=240, assumes=K.ASSUME,
          params=[dict(which='grids', fmt=f, method='linear', extrap=True) for f in ('GOT-ascii', 'GOT-netcdf', 'FES-netcdf', 'FES-ascii')] +
          [dict(which='otis', fmt=f, type=t, method='linear', extrap=f == 'OTIS', proj='4326', crop=False) for f, t in (('OTIS', 'v'), ('ATLAS', 'z'), ('TMD3', 'u'))] +
          [dict(which='atlas', type='v', method='linear', extrap=True, crop=False)])
def options(w, which, **p):
    """the options of extract_constants by their former names, with the effect they have by
    their names of today (P20)"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        getattr(K, which)(w, via='extract', former=True, **p)
