"""Downloads: pyTMD.utilities and the programs that fetch models"""
import base64
import calendar
import contextlib
import datetime
import ftplib
import gzip
import hashlib
import io
import json
import logging
import lzma
import os
import pathlib
import posixpath
import sys
import tarfile
import time
import urllib.error
import zipfile

from pyvc.contract import contract, product
from contracts.files import scratch

ASSUME = ('urllib, ftplib and browsers replaced by stand-ins that answer from memory and record what they are asked; tarfile, zipfile, gzip, lzma, hashlib and the file system as they are',)
WORDS = ('grid', 'm2', 'k1', 'ocean', 'load', 'tide', 'fes', 'readme', 'xo', 'q1')


@contextlib.contextmanager
def quiet():
    logging.disable(logging.CRITICAL)
    try:
        yield
    finally:
        logging.disable(logging.NOTSET)


def data(w, n=None):
    r = w.rng
    return bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 7, 300, 20000]) if n is None else n))


def word(w):
    return '%s%d' % (w.rng.choice(WORDS), w.rng.randint(0, 99))


def stamp(w):
    """seconds since 1970, and how FTP servers write them"""
    t = w.rng.randint(0, 2_000_000_000)
    return t, (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)).strftime('%Y%m%d%H%M%S')


class Web:
    """a web server: answers of addresses; everything else is not found or not reached"""

    def __init__(self, w, pages, failing=None):
        self.pages, self.failing, self.asked = pages, failing, []
        w.patch('urllib.request.urlopen', self.open)
        w.patch('urllib.request.install_opener', lambda o: setattr(self, 'opener', o))
        self.opener = None

    def open(self, request, *args, **kwargs):
        import urllib.request
        if isinstance(request, str):
            request = urllib.request.Request(request)
        url = request.full_url
        self.asked.append((url, request.get_method(), dict((k.lower(), v) for k, v in request.header_items()), kwargs))
        if self.failing == 'unreachable':
            raise urllib.error.URLError('no route')
        if url not in self.pages or self.failing == 'missing':
            raise urllib.error.HTTPError(url, 404, 'Not Found', {}, None)
        return io.BytesIO(self.pages[url])


class Remote:
    """an FTP server: contents and times of files"""

    def __init__(self, w, files, failing=None):
        me = self
        self.files, self.logins, self.closed = files, [], 0

        class FTP:
            def __init__(self, host='', timeout=None):
                if failing == 'unreachable':
                    raise OSError('no route')
                self.host, self.timeout = host, timeout

            def login(self, user='', passwd='', acct=''):
                if failing == 'refused':
                    raise ftplib.error_perm('530 Login incorrect')
                me.logins.append((self.host, user, passwd))
                return '230'

            def voidcmd(self, c):
                return '200'

            def sendcmd(self, c):
                cmd, _, path = c.partition(' ')
                if cmd == 'MDTM' and path in me.files:
                    return '213 ' + me.files[path][1]
                raise ftplib.error_perm('550 not a plain file')

            def nlst(self, path=''):
                return [p for p in me.files if posixpath.dirname(p) == path] + [p for p in me.folders if posixpath.dirname(p) == path]

            def retrbinary(self, c, callback, blocksize=8192, rest=None):
                cmd, _, path = c.partition(' ')
                if cmd != 'RETR' or path not in me.files:
                    raise ftplib.error_perm('550 no such file')
                b = me.files[path][0]
                for i in range(0, len(b), blocksize):
                    callback(b[i:i + blocksize])
                return '226'

            def close(self):
                me.closed += 1
            quit = close
        self.folders = []
        w.patch('ftplib.FTP', FTP)


@contract('P29', 'even numbers and whole numbers', functions=['utilities.even', 'utilities.ceil', 'scripts.aviso_fes_tides.newer', 'scripts.gsfc_got_tides.newer'],
          params=product(kind=['real', 'integer']), trials=200)
def numbers(w, kind):
    """even is the greatest even number not above, ceil the least whole number not below; times
    are compared to two seconds"""
    v = w.real('v', lo=-1e6, hi=1e6) if kind == 'real' else w.integer('v', -10**6, 10**6)
    if not w.symbolic and kind == 'real':
        v = w.rng.choice([v, float(round(v)), v / 1e6])
    e, c = w.get('pyTMD.utilities.even')(v), w.get('pyTMD.utilities.ceil')(v)
    w.eq('even', e, 2 * w.floor(v / 2))
    w.eq('ceil', c, -w.floor(-v))
    t1, t2 = w.integer('t1', 0, 2**31), w.real('t2', lo=0, hi=2.0**31)
    if not w.symbolic:
        w.true('whole', isinstance(e, int) and isinstance(c, int))
        t2 = t1 + w.rng.randint(-5, 5) + w.rng.random()
    for p in ('aviso_fes_tides', 'gsfc_got_tides'):
        if w.get('scripts.%s.newer' % p)(t1, t2):
            w.le('newer in ' + p, w.floor(t1 / 2), w.floor(t2 / 2))
        else:
            w.lt('older in ' + p, w.floor(t2 / 2), w.floor(t1 / 2))


def numeral(n):
    out = ''
    for v, s in ((1000, 'M'), (900, 'CM'), (500, 'D'), (400, 'CD'), (100, 'C'), (90, 'XC'), (50, 'L'), (40, 'XL'), (10, 'X'), (9, 'IX'), (5, 'V'), (4, 'IV'), (1, 'I')):
        while n >= v:
            out, n = out + s, n - v
    return out


@contract('P29', 'numerals', functions=['utilities.roman_to_int'], params=product(case=['lower', 'upper', 'title']), bounded=True, trials=1)
def numerals(w, case):
    """bounded: every Roman numeral up to 3999"""
    f = w.get('pyTMD.utilities.roman_to_int')
    w.true('numeral', all(f(getattr(str, case)(numeral(n))) == n for n in range(1, 4000)))


@contract('P29', 'addresses', functions=['utilities.' + f for f in ('url_split', 'convert_arg_line_to_args', 'get_data_path')], bounded=True, trials=200)
def words(w):
    """bounded: addresses up to six parts, lines of arguments"""
    parts = [word(w) for _ in range(w.rng.randint(1, 5))]
    head = w.rng.choice(['http://a.org', 'https://b.gov', 'ftp://c.fr', 's3://bucket', 'host.name'])
    url = posixpath.join(head, *parts)
    w.true('address', w.get('pyTMD.utilities.url_split')(url) == (head, *parts))
    args = ['--' + word(w) if w.rng.random() < 0.5 else word(w) for _ in range(w.rng.randint(0, 5))]
    line = w.rng.choice([' ', '  ', '\t']).join(args) + w.rng.choice(['', ' # a comment', '#c --x', '\n'])
    w.true('arguments of a line', list(w.get('pyTMD.utilities.convert_arg_line_to_args')(line)) == args)
    f = w.get('pyTMD.utilities.get_data_path')
    here = pathlib.Path(sys.modules['pyTMD.utilities'].__file__).absolute().parent
    for rel in (parts, posixpath.join(*parts), pathlib.Path(*parts)):
        w.true('path in the package', f(rel) == here.joinpath(*parts))


@contextlib.contextmanager
def zone(z):
    """a local time zone"""
    old = os.environ.get('TZ')
    os.environ['TZ'] = z
    time.tzset()
    try:
        yield
    finally:
        if old is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = old
        time.tzset()


@contract('P29', 'times of files', functions=['utilities.get_unix_time', 'utilities.isoformat'], params=product(local=['UTC0', 'XXX8', 'YYY-5:30']), bounded=True, trials=60)
def times(w, local):
    """bounded: the Unix time of a date is that of the date in its zone, UTC if it gives
    none, whatever the zone of the computer"""
    t = w.rng.randint(0, 2_000_000_000)
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)
    f, g = w.get('pyTMD.utilities.get_unix_time'), w.get('pyTMD.utilities.isoformat')
    with zone(local):
        w.true('default format', f(d.strftime('%Y-%m-%d %H:%M:%S')) == t)
        w.true('format of FTP', f(d.strftime('%Y%m%d%H%M%S'), format='%Y%m%d%H%M%S') == t)
        w.true('format with spaces', f(d.strftime('%Y-%m-%d %H:%M  \n'), format='%Y-%m-%d %H:%M') == t - t % 60)
        w.true('format of other orders', f(d.strftime('%y/%m/%d %H:%M:%S'), format='%y/%m/%d %H:%M:%S') == t and f(d.strftime('%d/%m/%Y %H:%M:%S'), format='%d/%m/%Y %H:%M:%S') == t)
        w.true('another format', f(d.strftime('%d %b %Y %H:%M:%S')) == t)
        h = w.rng.randint(-11, 12)
        m = w.rng.choice([0, 30])
        there = d + (datetime.timedelta(hours=abs(h), minutes=m) * (1 if h >= 0 else -1))
        off = '%s%02d:%02d' % ('+' if h >= 0 else '-', abs(h), m)
        w.true('offset of the format', f(there.strftime('%Y-%m-%dT%H:%M:%S') + off, format='%Y-%m-%dT%H:%M:%S%z') == t)
        w.true('offset of another format', f(there.strftime('%Y-%m-%dT%H:%M:%S') + off) == t)
        w.true('no date', f('no date') is None and f(None if False else '\xa0-') is None)
        w.true('iso', g(d.strftime('%d %b %Y %H:%M:%S ')) == d.isoformat() and g('no date') is None)


@contract('P29', 'checksums and copies', functions=['utilities.get_hash', 'utilities.copy'], params=product(algorithm=['md5', 'sha1', 'sha256']), bounded=True, trials=20)
def checksums(w, algorithm):
    """bounded: contents up to 20000 bytes"""
    b = data(w)
    h = hashlib.new(algorithm, b).hexdigest()
    f = w.get('pyTMD.utilities.get_hash')
    with scratch() as d, quiet():
        p = pathlib.Path(d, word(w))
        w.true('no file', f(p, algorithm=algorithm) == '' and f(str(p)) == '')
        p.write_bytes(b)
        w.true('file', f(p, algorithm=algorithm) == h and f(str(p), algorithm=algorithm) == h)
        w.true('buffer', f(io.BytesIO(b), algorithm=algorithm) == h)
        w.true('default', f(p) == hashlib.md5(b).hexdigest())
        w.true('neither', f(None) == '')
        w.raises('no such algorithm', ValueError, lambda: f(p, algorithm='none'))
        w.raises('no such algorithm of a buffer', ValueError, lambda: f(io.BytesIO(b), algorithm='none'))
        t = w.rng.randint(0, 2**31 - 1)
        os.utime(p, (t, t))
        q, move = pathlib.Path(d, 'copy'), w.rng.random() < 0.5
        w.get('pyTMD.utilities.copy')(w.rng.choice([p, str(p)]), q, move=move)
        w.true('copy', q.read_bytes() == b and q.stat().st_mtime == t)
        w.true('source', p.exists() != move)


@contract('P29', 'a file of a server', functions=['utilities.' + f for f in ('from_http', 'from_ftp', 'from_cddis', 'from_jpl_ssd', 'build_opener', 'check_credentials')],
          params=product(server=['http', 'ftp', 'cddis', 'jpl'], local=['none', 'new', 'same', 'changed', 'other']), bounded=True, trials=20)
def fetch(w, server, local):
    """bounded, contents up to 20000 bytes: what is returned is the file; it is stored where it
    is wanted, in directories that are made, unless the checksum given is that of the file"""
    b, old = data(w), data(w, 33)
    host = {'http': 'https://a.org', 'ftp': 'ftp.b.org', 'cddis': 'https://cddis.nasa.gov', 'jpl': 'https://ssd.jpl.nasa.gov'}[server]
    parts = [word(w) for _ in range(w.rng.randint(1, 4))]
    if server == 'jpl':
        parts = ['ftp', 'eph', 'planets', 'bsp', parts[-1] + '.bsp']
    url = posixpath.join(host, *parts)
    t, written = stamp(w)
    web = Web(w, {url: b, 'https://cddis.nasa.gov/archive': b''})
    ftp = Remote(w, {posixpath.join(*parts): (b, written)})
    HOST = w.rng.choice([url, [host] + parts])
    mode = w.rng.choice([0o775, 0o644, 0o700])
    with scratch() as d, quiet():
        p = pathlib.Path(d, 'a', 'b', word(w)) if local != 'new' or w.rng.random() < 0.5 else pathlib.Path(d, word(w))
        if local in ('same', 'changed', 'other'):
            p.parent.mkdir(parents=True)
            p.write_bytes({'same': b, 'changed': old, 'other': old}[local])
            os.utime(p, (1e9, 1e9))
        digest = {'none': '', 'new': '', 'same': hashlib.md5(b).hexdigest(), 'changed': hashlib.md5(old).hexdigest(), 'other': hashlib.md5(b).hexdigest()}[local]
        kw = dict(hash=digest, chunk=w.rng.choice([1, 7, 4096, 8192, 100000]), mode=mode)
        if local != 'none':
            kw['local'] = w.rng.choice([p, str(p)])
        name = 'from_' + {'jpl': 'jpl_ssd'}.get(server, server)
        f = w.get('pyTMD.utilities.' + name)
        if server == 'jpl':
            if local == 'none':
                w.patch('pyTMD.utilities.get_data_path', lambda rel: p.joinpath(*rel))
                f(parts[-1], **kw)
                p = p.joinpath('data', parts[-1])
            elif w.rng.random() < 0.5:
                f(parts[-1], **kw)
            else:
                q = p.with_name(parts[-1])
                if p.exists():
                    p.rename(q)
                p = kw['local'] = q
                f(None, **kw)
            got = None
        elif server == 'cddis':
            got = f(HOST, username='me', password='secret', build=w.rng.random() < 0.5, timeout=3, **kw)
            token = base64.b64encode(b'me:secret').decode()
            w.true('credentials', web.asked[-1][2].get('authorization') == 'Basic ' + token)
        elif server == 'ftp':
            got = f(HOST, username='me', password='secret', timeout=3, **kw)
            w.true('login', ftp.logins == [('ftp.b.org', 'me', 'secret')] and ftp.closed == 1)
        else:
            got = f(HOST, timeout=3, **kw)
        if server != 'ftp':
            w.true('address', web.asked[-1][0] == url and web.asked[-1][1] == 'GET' and web.asked[-1][3].get('timeout') == (None if server == 'jpl' else 3))
        if got is not None:
            w.true('contents', got.tell() == 0 and got.read() == b)
            w.true('name', got.filename == parts[-1])
        stored = local in ('new', 'changed') or local == 'none' and server == 'jpl'
        if local == 'none' and server != 'jpl':
            w.true('nothing stored', not os.listdir(d))
        elif stored:
            w.true('stored', p.read_bytes() == b and p.stat().st_mode & 0o777 == mode)
            if server == 'ftp':
                w.true('time', p.stat().st_mtime == t)
        else:
            w.true('left alone', p.read_bytes() == (b if local == 'same' else old) and p.stat().st_mtime == 1e9)
        if local != 'none':
            w.true('nothing else', [x for x in pathlib.Path(d).rglob('*') if x.is_file()] == [p])


@contract('P29', 'servers that do not answer', functions=['utilities.' + f for f in ('from_http', 'from_ftp', 'from_cddis', 'from_json', 'http_list', 'ftp_list', 'cddis_list', 'iers_list', 'uhslc_list',
          'check_connection', 'check_ftp_connection', 'check_credentials')], params=product(failing=['missing', 'unreachable', 'refused']), bounded=True, trials=3)
def failures(w, failing):
    """bounded: the failures listed raise, and leave no file"""
    web, ftp = Web(w, {'https://cddis.nasa.gov/archive': b''}, failing), Remote(w, {}, failing)
    U = lambda n: w.get('pyTMD.utilities.' + n)
    with scratch() as d, quiet():
        p = pathlib.Path(d, 'file')
        w.raises('from_ftp', (RuntimeError, ftplib.error_perm), lambda: U('from_ftp')(['ftp.b.org', 'x'], local=p))
        if failing == 'refused':
            w.raises('check_ftp_connection', RuntimeError, lambda: U('check_ftp_connection')('ftp.b.org', 'a', 'b'))
        elif failing == 'unreachable':
            w.raises('check_ftp_connection', RuntimeError, lambda: U('check_ftp_connection')('ftp.b.org'))
            w.raises('ftp_list', RuntimeError, lambda: U('ftp_list')(['ftp.b.org', 'x']))
        else:
            w.true('check_ftp_connection', U('check_ftp_connection')('ftp.b.org') is True)
        for n in ('from_http', 'from_cddis'):
            kw = dict(username='a', password='b', build=False) if 'cddis' in n else {}
            w.raises(n, Exception, lambda: U(n)('https://a.org/x', local=p, **kw))
        for n in ('from_json', 'http_list', 'iers_list', 'uhslc_list'):
            w.raises(n, Exception, lambda: U(n)('https://a.org/x'))
        w.raises('cddis_list', Exception, lambda: U('cddis_list')('https://a.org/x', username='a', password='b', build=False))
        w.raises('check_connection', RuntimeError, lambda: U('check_connection')('https://a.org'))
        if failing != 'refused':
            w.raises('check_credentials', RuntimeError, lambda: U('check_credentials')())
        w.true('no file', not os.listdir(d))
    web.pages['https://a.org'], web.failing = b'', None
    w.true('reached', U('check_connection')('https://a.org') is True and U('check_credentials')() is True)


def listing(kind, names, stamps, folders):
    """the page of a directory"""
    iso = lambda t, f: (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)).strftime(f)
    if kind == 'http':
        rows = ''.join('<tr><td valign="top"><img src="x.gif"></td><td><a href="%s">%s</a></td><td align="right">%s  </td><td align="right">1.2M</td><td>&nbsp;</td></tr>' % (n, n, iso(t, '%Y-%m-%d %H:%M'))
                       for n, t in zip(names, stamps))
        return '<html><body><h1>Index</h1><table><tr><th>Name</th><th>Last modified</th></tr><tr><td valign="top"></td><td><a href="/up/">Parent Directory</a></td><td>&nbsp;</td><td align="right">  - </td></tr>%s</table></body></html>' % rows if False else \
            '<html><body><h1>Index</h1><table><tr><th>Name</th><th>Last modified</th></tr>%s</table></body></html>' % rows
    if kind == 'cddis':
        return '<html><body>%s%s</body></html>' % (''.join('<div class="archiveDir"><div class="archiveDirTextContainer"><a class="x" href="%s/">%s</a></div></div>' % (n, n) for n in folders),
            ''.join('<div class="archiveItem"><div class="archiveItemTextContainer"><a class="x" href="%s">%s</a><span class="fileInfo">%s      123KB</span></div></div>' % (n, n, iso(t, '%Y:%m:%d %H:%M:%S')) for n, t in zip(names, stamps)))
    if kind == 'iers':
        td = '<td class="$tdclass">%s</td>'
        return '<html><body><table>%s</table></body></html>' % ''.join('<tr>%s</tr>' % (td % 'n' + td % ('<span>%s</span>' % iso(t, '%Y-%m-%d')) + td % 'v' + td % ('<a href="%s">get</a>' % n)) for n, t in zip(names, stamps))
    return '<html><body>%s</body></html>' % ''.join('<a href="x/%s">%s</a>' % (n, n) for n in names)


@contract('P29', 'directories of servers', functions=['utilities.' + f for f in ('http_list', 'ftp_list', 'cddis_list', 'iers_list', 'uhslc_list', 'from_json')],
          params=product(server=['http', 'ftp', 'cddis', 'iers', 'uhslc']), bounded=True, trials=30)
def lists(w, server):
    """bounded, up to eight files: each file with its own time, those of the pattern, sorted on request"""
    n = w.rng.randint(1, 8)
    names = w.rng.sample([a + str(b) + e for a in WORDS for b in range(10) for e in ('.nc', '.txt')], n)
    stamps = [w.rng.randint(0, 2_000_000_000) for _ in names]
    folders = w.rng.sample(['dir%d' % i for i in range(6)], w.rng.randint(0, 3)) if server in ('cddis', 'ftp') else []
    url = 'https://a.org/x/y'
    web = Web(w, {url: listing(server, names, stamps, folders).encode(), 'https://a.org/api': json.dumps(dict(a=names, b=n)).encode(), 'https://cddis.nasa.gov/archive': b''})
    text = lambda t: (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)).strftime('%Y%m%d%H%M%S')
    ftp = Remote(w, {'x/y/' + k: (b'', text(t)) for k, t in zip(names, stamps)})
    ftp.folders = ['x/y/' + k for k in folders]
    unit = {'http': 60, 'iers': 86400}.get(server, 1)
    all_ = [(k, t - t % unit) for k, t in zip(names, stamps)]
    if server == 'cddis':
        all_ = [(k, None) for k in folders] + all_
    elif server == 'ftp':
        all_ = all_ + [(k, None) for k in folders]
    kw = {}
    pattern = w.rng.choice([None, 'nc$', 'm2|k1', 'none at all'])
    if server == 'iers':
        all_ = all_[::-1]
    else:
        if pattern:
            import re
            kw['pattern'] = pattern
            all_ = [a for a in all_ if re.search(pattern, a[0])]
        if w.rng.random() < 0.5:
            kw['sort'] = True
            all_ = sorted(all_, key=lambda a: a[0])
    f = w.get('pyTMD.utilities.%s_list' % server)
    if server == 'ftp':
        full = w.rng.random() < 0.5 and not pattern
        got = f(w.rng.choice(['ftp.b.org/x/y', ['ftp.b.org', 'x', 'y']]), username='me', password='no', basename=not full, **kw)
        w.true('names', list(got[0]) == [('x/y/' if full else '') + a for a, _ in all_])
        w.true('login', ftp.logins == [('ftp.b.org', 'me', 'no')])
    else:
        HOST = w.rng.choice([url, ['https://a.org', 'x', 'y']])
        if server == 'cddis':
            kw.update(username='me', password='secret', build=w.rng.random() < 0.5)
        got = f(HOST, **kw)
        if server == 'uhslc':
            got = (got, [t for _, t in all_])
        if server == 'cddis':
            w.true('credentials', web.asked[-1][2].get('authorization') == 'Basic ' + base64.b64encode(b'me:secret').decode())
        w.true('names', [str(k) for k in got[0]] == [a for a, _ in all_])
    w.true('times', list(got[1]) == [t for _, t in all_])
    w.true('json', w.get('pyTMD.utilities.from_json')(w.rng.choice(['https://a.org/api', ['https://a.org', 'api']])) == dict(a=names, b=n) and web.asked[-1][2].get('accept') == 'application/json')


@contract('P29', 'credentials and tokens', functions=['utilities.' + f for f in ('attempt_login', 'build_opener', 'get_token', 'list_tokens', 'revoke_token')],
          params=product(source=['netrc', 'given', 'environment', 'asked', 'none right'], job=['login', 'get', 'list', 'revoke']), bounded=True, trials=4)
def credentials(w, source, job):
    """bounded: credentials are taken from the netrc file, the arguments, the environment or
    the keyboard in this order; tokens are asked for with them"""
    user, word_ = word(w), word(w)
    urs = 'urs.earthdata.nasa.gov'
    api = 'https://urs.earthdata.nasa.gov/api/users/'
    answer = dict(access_token=word(w))
    tok = word(w)
    pages = {'https://cddis.nasa.gov/archive': b'', api + 'token': json.dumps(answer).encode(), api + 'tokens': json.dumps([answer]).encode(), api + 'revoke_token?token=' + tok: b''}
    web = Web(w, pages)
    asked = []
    right = 'Basic ' + base64.b64encode(('%s:%s' % (user, word_)).encode()).decode()

    def known(_open=web.open):
        def f(request, *a, **k):
            url = request if isinstance(request, str) else request.full_url
            heads = dict((h.lower(), v) for h, v in (web.opener.addheaders if web.opener else []))
            if 'cddis' in url and heads.get('authorization') != right:
                raise urllib.error.HTTPError(url, 401, 'Unauthorized', {}, None)
            web.heads = heads
            return _open(request, *a, **k)
        return f
    w.patch('urllib.request.urlopen', known())
    w.patch('builtins.input', lambda p='': asked.append('name') or (user if source != 'none right' else 'x'))
    w.patch('getpass.getpass', lambda prompt='', **k: asked.append('word') or (word_ if source != 'none right' else 'y'))
    old = {k: os.environ.pop(k, None) for k in ('EARTHDATA_USERNAME', 'EARTHDATA_PASSWORD')}
    with scratch() as d, quiet():
        rc = pathlib.Path(d, 'netrc')
        # the home directory of the user holds the file
        w.patch('os.path.expanduser', lambda p, _e=os.path.expanduser: str(rc) if p == '~/.netrc' else _e(p))
        kw = {}
        try:
            if source == 'netrc':
                rc.write_text('machine %s login %s password %s\n' % (urs, user, word_))
                kw = dict(username='x', password='y')
            elif source == 'given':
                kw = dict(username=user, password=word_)
                os.environ.update(EARTHDATA_USERNAME='x', EARTHDATA_PASSWORD='y')
            elif source == 'environment':
                os.environ.update(EARTHDATA_USERNAME=user, EARTHDATA_PASSWORD=word_)
            elif source == 'none right':
                kw = dict(username='x', password='y')
            if job == 'login':
                f = lambda: w.get('pyTMD.utilities.attempt_login')(urs, password_manager=False, get_ca_certs=False, redirect=False, authorization_header=True, **kw)
            elif source == 'environment':
                # tokens take the credentials of the arguments
                kw = dict(username=user, password=word_)
                f = lambda: w.get('pyTMD.utilities.%s' % dict(get='get_token', list='list_tokens', revoke='revoke_token')[job])(*([tok] if job == 'revoke' else []), **kw)
            else:
                f = lambda: w.get('pyTMD.utilities.%s' % dict(get='get_token', list='list_tokens', revoke='revoke_token')[job])(*([tok] if job == 'revoke' else []), **kw)
            if source == 'none right':
                w.raises('given up', RuntimeError, f)
                w.true('attempts', len(asked) == 10)
                return
            got = f()
        finally:
            for k, v in old.items():
                os.environ.pop(k, None)
                if v is not None:
                    os.environ[k] = v
    w.true('asked', (asked == ['name', 'word']) if source == 'asked' else asked == [])
    w.true('authorization', dict((h.lower(), v) for h, v in web.opener.addheaders).get('authorization') == right)
    if job == 'login':
        w.true('opener', got is web.opener)
    else:
        url, method = web.asked[-1][:2]
        w.true('request', (url, method) == {'get': (api + 'token', 'POST'), 'list': (api + 'tokens', 'GET'), 'revoke': (api + 'revoke_token?token=' + tok, 'POST')}[job])
        w.true('answer', got == {'get': answer, 'list': [answer], 'revoke': None}[job])


def tar_of(members, mode):
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode=mode) as t:
        folders = sorted({posixpath.dirname(n) for n, _, _ in members} - {''})
        for f in folders:
            i = tarfile.TarInfo(f)
            i.type = tarfile.DIRTYPE
            t.addfile(i)
        for n, c, m in members:
            i = tarfile.TarInfo(n)
            i.size, i.mtime = len(c), m
            t.addfile(i, io.BytesIO(c))
    return b.getvalue()


def members(w, folder, suffixes, extra=()):
    out = {}
    for _ in range(w.rng.randint(1, 5)):
        sub = posixpath.join(folder, *["dir_" + word(w) for _ in range(w.rng.randint(0, 2))])
        out[posixpath.join(sub, w.rng.choice([word(w), 'a_' + word(w), 'xDS' + word(w)]) + w.rng.choice(suffixes))] = (data(w), w.rng.randint(10**9, 2 * 10**9))
    for e in extra:
        if w.rng.random() < 0.5:
            out[posixpath.join(folder, e)] = (data(w), w.rng.randint(10**9, 2 * 10**9))
    return [(n, c, m) for n, (c, m) in out.items()]


def older(w, path, mtime, zipped):
    """puts something where the file will be: None, 'old' (to be replaced) or 'kept'"""
    k = w.rng.choice([None, None, 'old', 'kept'])
    if k is None:
        return None
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_bytes(b'before')
    t = (mtime // 2) * 2 + (w.rng.randint(0, 9) if k == 'kept' else -w.rng.randint(1, 9))
    os.utime(path, (t, t))
    return k


def unzipped(b):
    try:
        return gzip.decompress(b)
    except (OSError, EOFError):
        return None


def compare(w, root, expected, before, zipped, mode):
    """files under root: expected[path] = (contents, time or None)"""
    found = {p for p in root.rglob('*') if p.is_file()}
    w.true('files', found == set(expected))
    for p, (c, t) in expected.items():
        b = p.read_bytes()
        if before.get(p) == 'kept':
            w.true('up to date', b == b'before')
            continue
        w.true('contents', (unzipped(b) if zipped(p) else b) == c)
        w.true('mode', p.stat().st_mode & 0o777 == mode)
        if t is not None:
            w.true('time', p.stat().st_mtime == t)


def command(w, program, argv):
    """the program as the command line starts it, or None"""
    w.patch('sys.argv', [program + '.py'] + [str(a) for a in argv])
    w.get('scripts.%s.main' % program)()


@contract('P29', 'models of the GSFC', functions=['scripts.gsfc_got_tides.' + f for f in ('gsfc_got_tides', 'main', 'arguments', 'newer')],
          params=product(model=['GOT4.8', 'GOT4.10', 'GOT5.5', 'GOT5.5D', 'GOT5.6', 'RE14'], format=['netcdf', 'ascii'], zipped=[False, True]), bounded=True, trials=4)
def gsfc(w, model, format, zipped):
    """bounded, up to eight members of an archive"""
    path = {'GOT4.8': '2022-07/got4.8.tar.gz', 'GOT4.10': '2023-12/got4.10c.tar.gz', 'GOT5.5': '2024-07/GOT5.5.tar%201.gz', 'GOT5.5D': '2024-07/GOT5.5D.tar%201.gz',
            'GOT5.6': '2024-07/GOT5.6.tar%201.gz', 'RE14': '2022-07/re14_longperiodtides_rel.tar'}[model]
    m = members(w, model, ['.nc', '.d', '.txt', ''], ['.DS_Store', '._m2.nc', '._x'])
    web = Web(w, {'https://earth.gsfc.nasa.gov/sites/default/files/' + path: tar_of(m, 'w' if model == 'RE14' else 'w:gz'), 'https://earth.gsfc.nasa.gov': b''})
    mode = w.rng.choice([0o775, 0o755])
    with scratch() as d, quiet():
        root = pathlib.Path(d, 'models')
        skip = {'netcdf': '.d', 'ascii': '.nc'}[format]
        gz = lambda n: zipped and posixpath.splitext(n)[1] in ('.nc', '.d')
        want = {root / (n + ('.gz' if gz(n) else '')): (c, t) for n, c, t in m if posixpath.splitext(n)[1] != skip and not posixpath.basename(n).startswith(('.DS', '._'))}
        before = {p: older(w, p, t, zipped) for p, (c, t) in want.items()}
        if w.rng.random() < 0.5:
            w.get('scripts.gsfc_got_tides.gsfc_got_tides')(model, DIRECTORY=w.rng.choice([root, str(root)]), FORMAT=format, GZIP=zipped, MODE=mode)
        else:
            command(w, 'gsfc_got_tides', ['--directory', root, '--tide', model, '--format', format, '--mode', '%o' % mode] + (['--gzip'] if zipped else []))
        compare(w, root, want, before, lambda p: zipped and p.suffix == '.gz', mode)


@contract('P29', 'models of the Arctic', functions=['scripts.arcticdata_tides.' + f for f in ('arcticdata_tides', 'main', 'arguments')],
          params=product(model=['AODTM-5', 'AOTIM-5', 'AOTIM-5-2018', 'Arc2kmTM', 'Gr1kmTM']), bounded=True, trials=8)
def arctic(w, model):
    """bounded, up to eight members of an archive"""
    doi, local = {'AODTM-5': ('A2901ZG3N', 'aodtm5_tmd'), 'AOTIM-5': ('A2S17SS80', 'aotim5_tmd'), 'AOTIM-5-2018': ('A21R6N14K', 'Arc5km2018'), 'Arc2kmTM': ('A2D21RK6K', 'Arc2kmTM'), 'Gr1kmTM': ('A2B853K18', 'Gr1kmTM')}[model]
    url = 'https://arcticdata.io/metacat/d1/mn/v2/packages/application%2Fbagit-097/resource_map_doi%3A10.18739%2F' + doi
    b, want = io.BytesIO(), {}
    with zipfile.ZipFile(b, 'w') as z:
        for pre in w.rng.sample(['grid', 'h', 'h0', 'UV', 'UV0', 'Model', 'xy', 'README', 'bagit', 'manifest'], w.rng.randint(1, 8)):
            c, sub = data(w), posixpath.join(*[word(w) for _ in range(w.rng.randint(1, 2))])
            name = pre + ('_' + model.replace('-', '') if pre not in ('README', 'bagit', 'manifest') else '.txt')
            z.writestr(posixpath.join(sub, name), c)
            if not name.endswith('.txt'):
                want[name] = c
    web = Web(w, {url: b.getvalue(), 'https://arcticdata.io': b''})
    mode = w.rng.choice([0o775, 0o755])
    with scratch() as d, quiet():
        root = pathlib.Path(d, 'models')
        if w.rng.random() < 0.5:
            w.get('scripts.arcticdata_tides.arcticdata_tides')(model, DIRECTORY=w.rng.choice([root, str(root)]), MODE=mode)
        else:
            command(w, 'arcticdata_tides', ['-D', root, '-T', model, '-M', '%o' % mode])
        compare(w, root, {root / local / n: (c, None) for n, c in want.items()}, {}, lambda p: False, mode)


@contract('P29', 'models of AVISO', functions=['scripts.aviso_fes_tides.' + f for f in ('aviso_fes_tides', 'aviso_fes_tar', 'aviso_fes_list', 'ftp_list', 'ftp_download', 'newer', 'main', 'arguments')],
          params=product(model=['FES1999', 'FES2004', 'FES2012', 'FES2014', 'FES2022'], load=[False, True], currents=[False, True], zipped=[False, True]), bounded=True, trials=3)
def aviso(w, model, load, currents, zipped):
    """bounded, up to five members of an archive: the files of the model, those of loading and
    currents on request, each in its place"""
    files, want = {}, {}
    extrapolated = w.rng.random() < 0.5

    def remote(path, c):
        t, s = stamp(w)
        files['auxiliary/tide_model/' + path] = (c, s)
        return t

    def plain(path, *local):
        c = data(w)
        want[local] = (c, remote(path, c))

    def archive(path, mode, flat, folder):
        m = {}
        for n, c, t in members(w, folder, ['.nc', '.asc', '.txt']):
            m.setdefault(posixpath.basename(n), (n, c, t))
        m = list(m.values())
        remote(path, tar_of(m, mode) if mode != 'lzma' else lzma.compress(tar_of(m, 'w'), format=lzma.FORMAT_ALONE))
        for n, c, t in m:
            want[(model.lower(),) + ((posixpath.basename(n),) if flat else tuple(n.split('/')))] = (c, t)
    if model in ('FES1999', 'FES2004'):
        y = model.lower()
        plain('fes1999_fes2004/readme_%s.html' % y, y, 'readme_%s.html' % y)
        archive('fes1999_fes2004/%s.tar.gz' % y, 'w:gz', True, 'a')
    elif model == 'FES2012':
        plain('fes2012_heights/readme_fes2012_heights_v1.1', 'fes2012', 'readme_fes2012_heights_v1.1')
        archive('fes2012_heights/fes2012_heights_v1.1.tar.lzma', 'lzma', True, 'a')
        if currents:
            plain('fes2012_currents/readme_fes2012_currents_v1.1', 'fes2012', 'readme_fes2012_currents_v1.1')
            for i in range(1, 5):
                archive('fes2012_currents/fes2012_currents_v1.1_block%d.tar.lzma' % i, 'lzma', False, 'block%d' % i)
    elif model == 'FES2014':
        e = 'fes2014_elevations_and_load'
        plain(e + '/readme_fes2014_elevation_and_load_v1.2.txt', 'fes2014', 'readme_fes2014_elevation_and_load_v1.2.txt')
        archive(e + '/fes2014b_elevations/ocean_tide.tar.xz', 'w:xz', False, 'ocean_tide')
        if load:
            archive(e + '/fes2014a_loadtide/load_tide.tar.xz', 'w:xz', False, 'load_tide')
        if currents:
            plain('fes2014a_currents/readme_fes2014_currents_v1.2.txt', 'fes2014', 'readme_fes2014_currents_v1.2.txt')
            for v in ('eastward', 'northward'):
                archive('fes2014a_currents/%s_velocity.tar.xz' % v, 'w:xz', False, v + '_velocity')
    else:
        for sub, wanted in (('ocean_tide_20241025', True), ('load_tide', load), ('ocean_tide_extrapolated', extrapolated)):
            for _ in range(w.rng.randint(1, 4)):
                n, c = word(w) + w.rng.choice(['.nc', '.txt', '.nc.xz']), data(w)
                if any(f.endswith(('/%s/%s' % (sub, n), '/%s/%s.xz' % (sub, n), '/%s/%s' % (sub, n[:-3]))) for f in files):
                    continue    # two files of one name
                t = remote('fes2022b/%s/%s' % (sub, n), lzma.compress(c) if n.endswith('.xz') else c)
                if wanted:
                    want[('fes2022b', sub, n[:-3] if n.endswith('.xz') else n)] = (c, t)
    ftp = Remote(w, files)
    mode = w.rng.choice([0o775, 0o755])
    with scratch() as d, quiet():
        root = pathlib.Path(d, 'models')
        gz = lambda n: zipped and posixpath.splitext(n)[1] in ('.nc', '.asc')
        want = {root.joinpath(*l[:-1], l[-1] + ('.gz' if gz(l[-1]) else '')): v for l, v in want.items()}
        before = {p: older(w, p, t, zipped) for p, (c, t) in want.items() if t > 100}
        log = w.rng.random() < 0.3
        if w.rng.random() < 0.5:
            w.get('scripts.aviso_fes_tides.aviso_fes_tides')(model, DIRECTORY=w.rng.choice([root, str(root)]), USER='me', PASSWORD='secret', LOAD=load, CURRENTS=currents, EXTRAPOLATED=extrapolated, GZIP=zipped, MODE=mode, LOG=log)
            w.true('login', ftp.logins == [('ftp-access.aviso.altimetry.fr', 'me', 'secret')])
        else:
            rc, source, asked = pathlib.Path(d, 'netrc'), w.rng.choice(['netrc', 'arguments', 'user', 'asked']), []
            w.patch('builtins.input', lambda *a: asked.append('name') or 'me')
            w.patch('getpass.getpass', lambda *a, **k: asked.append('word') or 'secret')
            if source == 'netrc':
                rc.write_text('machine ftp-access.aviso.altimetry.fr login me password secret\n')
                rc.chmod(0o600)
            who = {'arguments': ['--user', 'me', '--password', 'secret'], 'user': ['--user', 'me']}.get(source, [])
            for k in ('AVISO_USERNAME', 'AVISO_PASSWORD'):
                os.environ.pop(k, None)
            command(w, 'aviso_fes_tides', ['--directory', root, '--netrc', rc, '--tide', model, '--mode', '%o' % mode] + who + ['--load'] * load + ['--currents'] * currents + ['--extrapolated'] * extrapolated + ['--gzip'] * zipped + ['--log'] * log)
            w.true('login', set(ftp.logins) == {('ftp-access.aviso.altimetry.fr', 'me', 'secret')})
            w.true('asked', asked == {'user': ['word'], 'asked': ['name', 'word']}.get(source, []))
        if log:
            found = list(root.glob('AVISO_FES_tides_*.log'))
            w.true('log', len(found) == 1)
            found[0].unlink()
        compare(w, root, want, before, lambda p: zipped and p.suffix == '.gz', mode)


@contract('P29', 'models that are verified or opened in a browser', functions=['scripts.verify_box_tpxo.' + f for f in ('verify_box_tpxo', 'build_opener', 'main', 'arguments')] +
          ['scripts.usap_cats_tides.' + f for f in ('usap_cats_tides', 'main', 'arguments')], params=product(currents=[False, True], wrong=['none', 'elevation', 'current', 'grid', 'absent']), bounded=True, trials=6)
def verified(w, currents, wrong):
    """bounded, one file of each kind: files of the model are compared with the checksums of the
    server and get its times; any difference raises"""
    n = {'grid': 'grid_tpxo9_atlas_30_v5', 'elevation': 'h_m2_tpxo9_atlas_30_v5', 'current': 'u_m2_tpxo9_atlas_30_v5', 'other': 'notes.txt'}
    kinds = list(n)
    w.rng.shuffle(kinds)
    content = {k: data(w) + k.encode() for k in kinds}
    off = w.rng.choice([0, -8, 2, 5])
    t = {k: w.rng.randint(10**9, 2 * 10**9) for k in kinds}
    iso = lambda k: (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t[k], hours=off)).strftime('%Y-%m-%dT%H:%M:%S') + '%s%02d:00' % ('-' if off < 0 else '+', abs(off))
    entries = [dict(type='file', id='id' + k, name=n[k], sha1=hashlib.sha1(content[k]).hexdigest()) for k in kinds] + [dict(type='folder', id='9', name='h_folder')]
    api = 'https://api.box.com/2.0/'
    web = Web(w, {api + 'folders/77/items': json.dumps(dict(entries=entries)).encode(), 'https://app.box.com/': b'', 'https://www.usap-dc.org': b'',
                  **{api + 'files/id' + k: json.dumps(dict(modified_at=iso(k))).encode() for k in kinds}})
    with scratch() as d, quiet():
        root = pathlib.Path(d, 'models')
        here = root / 'TPXO9_atlas_v5'
        here.mkdir(parents=True)

        class model:
            def __init__(self, directory=None, **kw):
                self.directory = pathlib.Path(directory)

            def elevation(self, m):
                assert m == 'TPXO9-atlas-v5', m
                self.model_file = [self.directory / 'TPXO9_atlas_v5' / (n['elevation'])]
                return self
        w.patch('pyTMD.io.model', model)
        for k in kinds:
            if not (wrong == 'absent' and k == 'grid'):
                (here / n[k]).write_bytes(content[k] + (b'!' if wrong == k else b''))
                os.utime(here / n[k], (10, 10))
        if w.rng.random() < 0.5:
            f = lambda: w.get('scripts.verify_box_tpxo.verify_box_tpxo')(root, '77', TIDE_MODEL='TPXO9-atlas-v5', CURRENTS=currents, MODE=0o755)
        else:
            def f():
                command(w, 'verify_box_tpxo', ['--directory', root, '--token', 'tok', '--folder', '77', '--mode', '755'] + ['--currents'] * currents)
                w.true('token', ('Authorization', 'Bearer tok') in web.opener.addheaders)
        if wrong in ('elevation', 'grid', 'absent') or wrong == 'current' and currents:
            w.raises('difference', Exception, f)
        else:
            f()
            for k in kinds:
                s = (here / n[k]).stat()
                if k in ('grid', 'elevation') or k == 'current' and currents:
                    w.true('time', s.st_mtime == t[k])
                    w.true('mode', s.st_mode & 0o777 == 0o755)
                else:
                    w.true('left alone', s.st_mtime == 10)
                w.true('contents', (here / n[k]).read_bytes() == content[k] + (b'!' if wrong == k else b''))
        # models behind a captcha
        opened = []
        w.patch('webbrowser.open_new_tab', lambda u: opened.append(u))
        w.patch('pyTMD.utilities.file_opener', lambda p: opened.append(str(p)))
        if w.rng.random() < 0.5:
            w.get('scripts.usap_cats_tides.usap_cats_tides')('CATS2008', DIRECTORY=root)
        else:
            command(w, 'usap_cats_tides', ['--directory', root])
        w.true('page and directory', opened == ['https://www.usap-dc.org/view/dataset/601235', str(root / 'CATS2008')] and (root / 'CATS2008').is_dir())
