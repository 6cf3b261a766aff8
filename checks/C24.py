"""C24 Wyoming soundings are read value by value."""
import numpy as np
from vlib import repo, web, wyoming
from vlib.core import subseed

PROPERTY = 'C24'
RULE = ('one case = one generated sounding page of the Wyoming service (1-120 levels, any field blank, stations without identifier, southern and '
        'western stations) served to the real reader and compared field by field; pages without data must be refused; the request must name '
        'station and time; plus one generated station list.')
REQUIRE = {'field': 1000, 'levels': 150, 'metadata': 150, 'blank': 300, 'no-data': 100, 'request': 200, 'stations': 100, 'dropped-levels': 20}
UNITS = dict(pressure='hPa', height='meter', temperature='degC', dewpoint='degC', rh='%', mixr='g/kg', latitude='degrees', longitude='degrees',
             elevation='meter')
REGIONS = ['naconf', 'samer', 'pac', 'nz', 'ant', 'np', 'europe', 'africa', 'seasia', 'mideast']


def cases(tier, seed):
    n = 260 if tier == 'quick' else 4000
    return [dict(seed=subseed('C24', seed, i), i=i) for i in range(n)]


def compare(mon, df, s, **ctx):
    rows = [r for r in s['rows'] if r['temperature'] is not None and r['dewpoint'] is not None]
    if len(rows) < len(s['rows']):
        mon.count('dropped-levels')
    if not mon.check('levels', len(df) == len(rows) and list(df.index) == list(range(len(rows))), '%d levels, expected %d' % (len(df), len(rows)), **ctx):
        return
    for k in ('pressure', 'height', 'temperature', 'dewpoint', 'rh', 'mixr'):
        want = np.array([np.nan if r[k] is None else float(r[k]) for r in rows])
        mon.count('blank', sum(r[k] is None for r in rows))
        mon.close('field', df[k].to_numpy(dtype=float), want, 1e-12, 1e-9, column=k, **ctx)
    if rows:
        mon.check('metadata', all(set(df[k]) == {v} for k, v in (('station', s['station']), ('station_number', s['number']),
                                                                ('title', wyoming.title_of(s)))), 'station %r' % (df.iloc[0].to_dict(),), **ctx)
        mon.check('metadata', [t.to_pydatetime() for t in set(df['time'])] == [s['time']], 'time %r' % (df['time'][0],), **ctx)
        for k in ('latitude', 'longitude', 'elevation'):
            mon.close('place', df[k].to_numpy(dtype=float), np.full(len(df), s[k]), 1e-12, 1e-9, column=k, **ctx)
    u = df.attrs.get('units', {})
    mon.check('units', all(u.get(k) == v for k, v in UNITS.items()), 'units %r' % (u,), **ctx)


def asked(ev, site, t):
    q = ev.query
    return ev.method == 'GET' and ev.host == 'weather.uwyo.edu' and ev.path.rstrip('/') == '/cgi-bin/sounding' and \
        q.get('STNM') == str(site) and q.get('YEAR') == '%04d' % t.year and q.get('MONTH') == '%02d' % t.month and \
        q.get('FROM') == '%02d%02d' % (t.day, t.hour) and q.get('TO') == q.get('FROM') and q.get('TYPE') == 'TEXT:LIST'


def evaluate(case, mon):
    from pyrtlib.apiwebservices import WyomingUpperAir as Y
    rng = np.random.default_rng(case['seed'])
    s = wyoming.sounding(rng)
    site = s['station'] or s['number']
    if rng.random() < .3:
        site = s['number'] if rng.random() < .5 else str(s['number'])
    ctx = dict(site=site, time=s['time'].isoformat())
    text = wyoming.page(s)
    with web.serve(lambda ev: web.Answer(text)) as log, repo.quiet():
        df = Y.request_data(s['time'], site)
    mon.check('request', len(log) == 1 and asked(log[0], site, s['time']), 'asked for %r' % [e.url for e in log], **ctx)
    compare(mon, df, s, **ctx)
    mon.state(len(s['rows']) > 3, s['station'] == '', s['latitude'] < 0, s['longitude'] < 0, any(v is None for r in s['rows'] for v in r.values()))
    # no data
    for bad in (wyoming.NODATA % (site, 'Nowhere', s['time'].strftime('%HZ %d %b %Y')),):
        with web.serve(lambda ev: web.Answer(bad)) as log, repo.quiet():
            try:
                got = Y.request_data(s['time'], site)
                mon.check('no-data', False, 'returned %d levels' % len(got), **ctx)
            except ValueError as exc:
                mon.check('no-data', str(site) in str(exc), 'message %s' % exc, **ctx)
    # list of stations
    lst, text = wyoming.stations(rng)
    reg = REGIONS[case['i'] % len(REGIONS)]
    with web.serve(lambda ev: web.Answer(text)) as log, repo.quiet():
        df = Y.get_stations() if reg == 'europe' and rng.random() < .5 else Y.get_stations(reg)
    mon.check('stations', list(map(tuple, df[['station_id', 'station_name']].values.tolist())) == lst, 'list of stations', region=reg)
    mon.check('request', len(log) == 1 and log[0].url == 'http://weather.uwyo.edu/upperair/%s.html' % reg, 'asked for %r' % [e.url for e in log],
              region=reg)
    mon.sample = dict(ctx, levels=len(s['rows']), stations=len(lst))
