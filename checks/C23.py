"""C23 IGRA2 radiosonde archives are read value by value."""
from datetime import datetime, timedelta
import numpy as np
from vlib import igra, repo, web
from vlib.core import subseed

PROPERTY = 'C23'
RULE = ('one case = one generated IGRA2 archive (raw or derived, 1-9 soundings, some after megabytes of earlier soundings, missing hours, removed and missing values, flags, stations '
        'near zero latitude/longitude) served to the real reader; single dates, ranges and dates without sounding are requested; every '
        'field of the returned tables is compared with the values the archive was written from.')
REQUIRE = {'field': 2000, 'levels': 200, 'header-field': 2000, 'derived': 60, 'raw': 60, 'range': 60, 'no-sounding': 60, 'missing': 500, 'address': 200,
           'wind': 50, 'big archive': 8, 'high resolution': 8}
UNITS = dict(etime='second', pressure='hPa', height='meter', temperature='degC', dewpoint='degC', direction='degrees',
             speed='meter / second', u_wind='meter / second', v_wind='meter / second')
FLAG = {' ': 0, 'A': 1, 'B': 2}


def cases(tier, seed):
    n = 260 if tier == 'quick' else 4000
    return [dict(seed=subseed('C23', seed, i), derived=i % 2 == 1, big=i % 40 in (6, 7), fine=i % 40 in (10, 23)) for i in range(n)]


def num(v):
    return np.nan if v is None else float(v)


def column(mon, rule, df, name, want, tol=1e-6, **ctx):
    if not mon.check('column', name in df.columns, 'no column', name=name, **ctx):
        return
    mon.count('missing', int(np.isnan(want).sum()))
    mon.close(rule, df[name].to_numpy(dtype=float), want, 1e-9, tol, column=name, **ctx)


def compare(mon, df, head, sound, derived, ctx):
    lev = [(s, r) for s in sound for r in s['levels']]
    keys = ('temperature', 'reported_relative_humidity', 'u_wind', 'v_wind') if derived else \
        ('temperature', 'dewpoint_depression', 'direction', 'speed')
    lev = [(s, r) for s, r in lev if any(r[k] is not None for k in keys)]
    if not mon.check('levels', len(df) == len(lev) and list(df.index) == list(range(len(lev))), '%d levels, expected %d' % (len(df), len(lev)), **ctx):
        return
    mon.check('dates', [d.to_pydatetime() for d in df['date']] == [s['date'] for s, _ in lev], 'dates of levels', **ctx)
    names = [k for k, _ in igra.DRVD] if derived else ['pressure', 'height', 'temperature', 'relative_humidity', 'direction', 'speed']
    for k in names:
        column(mon, 'field', df, k, np.array([num(r[k]) for _, r in lev]), **ctx)
    if not derived:
        column(mon, 'field', df, 'etime', np.array([np.nan if r['minutes'] is None else r['minutes'] * 60. + r['seconds'] for _, r in lev]), **ctx)
        t, dd, sp, di = (np.array([num(r[k]) for _, r in lev]) for k in ('temperature', 'dewpoint_depression', 'speed', 'direction'))
        column(mon, 'field', df, 'dewpoint', t - dd, **ctx)
        a = np.deg2rad(di)
        column(mon, 'wind', df, 'u_wind', -sp * np.sin(a), .0501, **ctx)
        column(mon, 'wind', df, 'v_wind', -sp * np.cos(a), .0501, **ctx)
        for k in ('lvltyp1', 'lvltyp2'):
            column(mon, 'field', df, k, np.array([float(r[k]) for _, r in lev]), **ctx)
        for j, k in enumerate(('pflag', 'zflag', 'tflag')):
            column(mon, 'field', df, k, np.array([float(FLAG[r['flags'][j]]) for _, r in lev]), **ctx)
        u = df.attrs.get('units', {})
        mon.check('units', all(u.get(k) == v for k, v in UNITS.items()), 'units %r' % (u,), **ctx)
    # headers
    if not mon.check('headers', len(head) == len(sound), '%d headers, expected %d' % (len(head), len(sound)), **ctx):
        return
    mon.check('dates', [d.to_pydatetime() for d in head['date']] == [s['date'] for s in sound], 'dates of headers', **ctx)
    hs = [s['header'] for s in sound]
    for k in ('year', 'month', 'day', 'hour', 'number_levels'):
        column(mon, 'header-field', head, k, np.array([float(h[k]) for h in hs]), **ctx)
    column(mon, 'header-field', head, 'release_time', np.array([np.nan if h['release'] is None else h['release'][0] * 3600. + h['release'][1] * 60
                                                              for h in hs]), **ctx)
    mon.check('station', [str(v) for v in head['site_id']] == [h['site_id'] for h in hs], 'station %r' % (list(head['site_id']),), **ctx)
    if derived:
        for k, *_ in igra.DHEAD:
            column(mon, 'header-field', head, k, np.array([num(h[k]) for h in hs]), **ctx)
    else:
        for k in ('latitude', 'longitude'):
            column(mon, 'header-field', head, k, np.array([h[k] for h in hs]), **ctx)
        for k in ('pressure_source_code', 'non_pressure_source_code'):
            got = ['' if v != v else str(v) for v in head[k]]
            mon.check('source', got == [h[k] for h in hs], '%r' % (got,), column=k, **ctx)


def evaluate(case, mon):
    from pyrtlib.apiwebservices import IGRAUpperAir as I
    rng = np.random.default_rng(case['seed'])
    derived = case['derived']
    site = igra.station(rng)
    sound, text = igra.archive(rng, site, derived, ordered=rng.random() < .85,
                                many=int(rng.integers(900, 2600)) if case.get('fine') else 0)
    if case.get('fine'):
        mon.count('high resolution')
    if case.get('big'):            # the whole period of record: megabytes of earlier soundings
        old = igra.archive(rng, site, derived, ordered=True)[1].splitlines(True)
        copies = int(rng.uniform(1.2e6, 3e6) / sum(map(len, old))) + 1
        filler = []
        for y in range(copies):
            year = 1004 + 4 * (y * 195 // copies)              # leap years
            year = '%04d' % (year if year % 100 else year + 4)
            filler += [v[:13] + year + v[17:] if v[0] == '#' else v for v in old]
        text = ''.join(filler) + text
        mon.count('big archive')
    recent = bool(rng.random() < .4) and not derived
    name = site + ('-drvd.txt' if derived else '-data-beg2021.txt' if recent else '-data.txt')
    folder = 'derived-por/' if derived else 'data-y2d/' if recent else 'data-por/'
    url = 'https://www.ncei.noaa.gov/data/integrated-global-radiosonde-archive/access/' + folder + name + '.zip'

    def server(ev):
        if ev.url.split('?')[0] == url:
            return web.Answer(web.zipped(name, text), headers={'Content-Type': 'application/zip'})
        return web.Answer('<html>not found</html>', 404, reason='Not Found')

    dates = sorted(s['date'] for s in sound)
    asks = [[d] * 2 for d in dates[:3]]
    a, b = sorted(rng.integers(0, len(dates), 2))
    asks += [(dates[a], dates[b]), (dates[0] - timedelta(hours=1), dates[-1] + timedelta(hours=1)), (dates[a] - timedelta(hours=5), dates[b])]
    free = dates[a] + timedelta(hours=1)
    if free not in dates:
        asks.append([free] * 2)
    asks.append((dates[-1] + timedelta(hours=1), dates[-1] + timedelta(days=40)))
    asks.append([dates[0] - timedelta(days=365)] * 2)
    for k, (x, y) in enumerate(asks):
        single = x == y and isinstance(asks[k], list)
        ctx = dict(site=site, ask=[x.isoformat(), y.isoformat()], derived=derived)
        want = [s for s in sound if x <= s['date'] <= y]
        with web.serve(server) as log, repo.quiet():
            try:
                kw = {}
                if derived:
                    kw['derived'] = True
                if recent:
                    kw['beg2021'] = True
                df, head = I.request_data(x if single else (x, y), site, **kw)
            except ValueError as exc:
                df = head = None
                mon.check('no-sounding', not want, 'refused: %s' % exc, **ctx)
        mon.check('address', len(log) >= 1 and all(e.method == 'GET' and e.url == url for e in log), 'asked for %s' % [e.url for e in log], **ctx)
        if df is None:
            continue
        if not want:
            mon.check('no-sounding', False, 'returned %d levels' % len(df), **ctx)
            continue
        mon.count('derived' if derived else 'raw')
        if not single:
            mon.count('range')
        mon.state(derived, len(want), 'single' if single else 'range', recent)
        compare(mon, df, head, want, derived, ctx)
    mon.sample = dict(site=site, soundings=len(sound), lines=text.count('\n'))
