"""C26 web requests fail loudly and never return foreign data."""
import os
import tempfile
import zipfile
import io
from datetime import timedelta
import numpy as np
import requests
from vlib import igra, repo, web, wyoming
from vlib.core import subseed
from checks import C23, C24

PROPERTY = 'C26'
RULE = ('one case = a random sequence of 4-10 requests (IGRA2 raw, derived, recent; Wyoming soundings and station lists; downloads) against a '
        'server that answers correctly or injects a fault (error status, dropped or timed out connection, truncated body, damaged or empty '
        'archive, archive cut inside a sounding, foreign content, empty page); good answers must be returned value by value, faults must raise, and '
        'no fault may show in a later answer.')
REQUIRE = {'fault-raised': 500, 'good-answer': 300, 'after-fault': 150, 'agent': 500, 'download': 20, 'download-fault': 10}
STATUS = [400, 401, 403, 404, 408, 429, 500, 502, 503, 504, 204, 202, 206, 304, 418]
FAULTS = ['status', 'status', 'drop', 'timeout', 'truncated', 'empty', 'foreign', 'damaged', 'cut']


def cases(tier, seed):
    n = 200 if tier == 'quick' else 3000
    return [dict(seed=subseed('C26', seed, i), i=i) for i in range(n)]


def fault(rng, kind, good, text, name, zipped):
    """-> Answer and a label, or None where the fault would leave the answer valid."""
    if kind == 'status':
        s = int(rng.choice(STATUS))
        h = {'Content-Type': str(rng.choice(['text/html; charset=UTF-8', 'text/plain', 'application/json']))}
        return web.Answer(b'' if s in (204, 304) else good if rng.random() < .3 else b'error', s, h, reason='Oops')
    if kind == 'drop':
        return web.Answer(error=requests.exceptions.ConnectionError('connection dropped'))
    if kind == 'timeout':
        return web.Answer(error=requests.exceptions.ReadTimeout('timed out'))
    if kind == 'truncated':
        return web.Answer(good[:int(rng.integers(0, max(1, len(good) - 1)))], length=len(good))
    if kind == 'empty':
        return web.Answer(web.zipped(name, '') if zipped and rng.random() < .5 else b'')
    if kind == 'foreign':
        return web.Answer('<html><body><h1>Maintenance</h1><p>Please come back later.</p></body></html>')
    if not zipped:
        if kind == 'cut' and 'Station elevation' in text:        # a page that ends early, at the end of a line
            lines = text.splitlines(True)
            last = [k for k, v in enumerate(lines) if 'Station elevation' in v][0]
            k = int(rng.integers(5, last)) if rng.random() < .5 else int(rng.integers(last - 7, last))
            return web.Answer(''.join(lines[:k]) + str(rng.choice(['', '</PRE>', '</BODY></HTML>'])))
        return None
    if kind == 'damaged':
        b = bytearray(good)
        at = int(rng.integers(30 + len(name), max(31 + len(name), len(b) - 150)))
        for k in range(at, min(at + 40, len(b) - 100)):
            b[k] ^= 0x5a
        try:
            with zipfile.ZipFile(io.BytesIO(bytes(b))) as z:
                z.read(z.infolist()[0])
            return None                      # the archive format itself does not notice
        except Exception:
            return web.Answer(bytes(b))
    if kind == 'cut':
        lines = text.splitlines(True)
        heads = [k for k, v in enumerate(lines) if v[0] == '#']
        k = heads[-1]
        n = len(lines) - k - 1
        if n < 2:
            return None
        return web.Answer(web.zipped(name, ''.join(lines[:k + 1 + int(rng.integers(0, n))])))


def one(mon, rng, I, Y, afterfault):
    """one request, good or faulty; returns whether a fault was injected."""
    what = str(rng.choice(['raw', 'raw', 'derived', 'wyoming', 'wyoming', 'stations']))
    kind = str(rng.choice(FAULTS)) if rng.random() < .55 else None
    if what in ('raw', 'derived'):
        site = igra.station(rng)
        sound, text = igra.archive(rng, site, what == 'derived')
        pick = sound[-1] if kind == 'cut' else sound[int(rng.integers(len(sound)))]
        name = site + ('-drvd.txt' if what == 'derived' else '-data.txt')
        good = web.zipped(name, text)
        call = lambda: I.request_data(pick['date'], site, derived=what == 'derived')  # noqa: E731
        zipped = True
    elif what == 'wyoming':
        s = wyoming.sounding(rng)
        site, text = s['station'] or s['number'], wyoming.page(s)
        good, name, zipped = text.encode(), '', False
        call = lambda: Y.request_data(s['time'], site)  # noqa: E731
    else:
        lst, text = wyoming.stations(rng)
        good, name, zipped = text.encode(), '', False
        call = lambda: Y.get_stations('pac')  # noqa: E731
        if kind in ('empty', 'foreign'):
            kind = None                      # a page without stations is a valid answer
    bad = fault(rng, kind, good, text, name, zipped) if kind else None
    if kind and bad is None:
        kind = None
    ctx = dict(what=what, fault=kind, status=bad.status if bad else 200)
    answer = bad or web.Answer(good)
    err = got = None
    with web.serve(lambda ev: answer) as log, repo.quiet():
        try:
            got = call()
        except Exception as exc:
            err = exc
    mon.check('asked', len(log) >= 1, 'nothing was asked', **ctx)
    mon.check('agent', all('pyrtlib' in e.headers.get('User-Agent', '') for e in log), 'user agent', **ctx)
    mon.state(what, kind or 'good', ctx['status'])
    if kind:
        mon.check('fault-raised', err is not None, 'returned %s' % (type(got).__name__,), **ctx)
        if err is not None and kind == 'status' and what not in ('raw', 'derived'):
            mon.check('message', isinstance(err, requests.HTTPError) and str(bad.status) in str(err) and log[-1].url in str(err),
                      'error does not say what failed: %r' % err, **ctx)
        if err is not None and kind == 'status' and what in ('raw', 'derived') and 400 <= bad.status:
            mon.check('message', isinstance(err, (ValueError, requests.HTTPError)) and site in str(err), 'error does not say what failed: %r' % err, **ctx)
        return True
    if not mon.check('good-answer', err is None, 'refused: %r' % err, **ctx):
        return False
    if afterfault:
        mon.count('evaluated:after-fault')
    if what in ('raw', 'derived'):
        C23.compare(mon, got[0], got[1], [x for x in sound if x['date'] == pick['date']], what == 'derived', ctx)
    elif what == 'wyoming':
        C24.compare(mon, got, s, **ctx)
    else:
        mon.check('stations', list(map(tuple, got[['station_id', 'station_name']].values.tolist())) == lst, 'list of stations', **ctx)
    return False


def session(mon, rng):
    """options of the session and plain downloads."""
    from pyrtlib.apiwebservices import webservices as ws
    m = ws.HTTPSessionManager()
    m.set_session_options(max_redirects=7, auth=('me', 'secret'))
    s = m.create_session()
    mon.check('session-options', s.max_redirects == 7 and s.auth == ('me', 'secret'), 'options ignored')
    mon.check('session-options', m.create_session() is not s, 'one session for two users')
    mon.check('session-options', ws.HTTPSessionManager().create_session().auth is None, 'options of another manager')
    body = bytes(rng.integers(0, 256, int(rng.integers(0, 4000)), dtype=np.uint8))
    url = 'http://example.org/%d' % rng.integers(1000)
    with web.serve(lambda ev: web.Answer(body)) as log:
        got = m.urlopen(url).read()
    mon.check('download', got == body and len(log) == 1 and log[0].url == url and 'pyrtlib' in log[0].headers['User-Agent'], 'download')
    with web.serve(lambda ev: web.Answer(error=requests.exceptions.ConnectionError('x'))):
        try:
            m.urlopen(url)
            mon.check('download-fault', False, 'returned data without a connection')
        except requests.RequestException:
            mon.check('download-fault', True)


def era(mon, rng):
    """a failed retrieval is not a file."""
    import sys
    import types
    from datetime import datetime
    import pyrtlib.apiwebservices.erafive as mod

    class Broken:
        def __init__(self, *a, **k):
            pass

        def retrieve(self, *a, **k):
            raise RuntimeError('queue is full')
    old, before = getattr(mod, 'cdsapi', None), sys.modules.get('cdsapi')
    mod.cdsapi = sys.modules['cdsapi'] = types.SimpleNamespace(Client=Broken)
    try:
        with tempfile.TemporaryDirectory(dir=os.environ.get('VERIF_SCRATCH')) as d, repo.quiet():
            try:
                p = mod.ERA5Reanalysis.request_data(d, datetime(2020, 1, 1, 12), (10., 40.))
                mon.check('fault-raised', False, 'returned %s' % p, what='era5')
            except RuntimeError:
                mon.check('fault-raised', True)
    finally:
        if before is None:
            del sys.modules['cdsapi']
        else:
            sys.modules['cdsapi'] = before
        if old is None:
            del mod.cdsapi
        else:
            mod.cdsapi = old


def evaluate(case, mon):
    from pyrtlib.apiwebservices import IGRAUpperAir as I, WyomingUpperAir as Y
    rng = np.random.default_rng(case['seed'])
    bad = False
    hist = []
    for _ in range(int(rng.integers(4, 11))):
        was = bad
        bad = one(mon, rng, I, Y, was)
        hist.append(bad)
    if case['i'] % 5 == 0:
        session(mon, rng)
        era(mon, rng)
    mon.sample = dict(faults=hist)
