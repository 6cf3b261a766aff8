"""C25 ERA5 files are read at the right place with the right units."""
import os
import tempfile
from datetime import datetime, timedelta
import numpy as np
from netCDF4 import Dataset
from vlib import repo
from vlib.core import subseed

PROPERTY = 'C25'
RULE = ('one case = one generated ERA5 file (square and other grids, any spacing, packed or float, all or some levels, negative longitudes) whose '
        'value differs in every cell and variable, read at a random place; the oracle locates the nearest grid point by great-circle distance and '
        'compares every variable, order, unit, height and time. Plus one download request recorded by a stand-in client.')
REQUIRE = {'variable': 700, 'height': 80, 'time': 80, 'order': 80, 'request': 150, 'diagonal': 60, 'off-diagonal': 40, 'date line': 8, '0-360': 10}
VARS = ['t', 'r', 'clwc', 'ciwc', 'crwc', 'cswc', 'o3', 'q']
LEVELS = [1, 2, 3, 5, 7, 10, 20, 30, 50, 70, 100, 125, 150, 175, 200, 225, 250, 300, 350, 400, 450, 500, 550, 600, 650, 700, 750, 775, 800, 825,
          850, 875, 900, 925, 950, 975, 1000]
NAMES = {'relative_humidity', 'specific_cloud_ice_water_content', 'specific_cloud_liquid_water_content', 'specific_humidity',
         'specific_rain_water_content', 'specific_snow_water_content', 'ozone_mass_mixing_ratio', 'temperature'}
UNITS = {'p': 'hPa', 'z': 'km', 't': 'K', 'clwc': 'kg kg-1', 'ciwc': 'kg kg-1', 'crwc': 'kg kg-1', 'cswc': 'kg kg-1', 'o3': 'kg kg-1',
         'q': 'kg kg-1'}


def cases(tier, seed):
    n = 240 if tier == 'quick' else 3000
    return [dict(seed=subseed('C25', seed, i), i=i) for i in range(n)]


def distance(lat1, lon1, lat2, lon2):
    a, b, c, d = (np.radians(np.asarray(v, float)) for v in (lat1, lon1, lat2, lon2))
    return np.arccos(np.clip(np.sin(a) * np.sin(c) + np.cos(a) * np.cos(c) * np.cos(b - d), -1, 1))


def write(path, rng, lat, lon, lev, when, packed):
    n = Dataset(path, 'w', format='NETCDF3_64BIT_OFFSET' if packed else 'NETCDF4')
    for d, k in (('longitude', len(lon)), ('latitude', len(lat)), ('level', len(lev)), ('time', 1)):
        n.createDimension(d, k)
    n.createVariable('longitude', 'f4', ('longitude',))[:] = lon
    n.createVariable('latitude', 'f4', ('latitude',))[:] = lat
    n.createVariable('level', 'i4', ('level',))[:] = lev
    v = n.createVariable('time', 'i4', ('time',))
    v.units = 'hours since 1900-01-01 00:00:00.0'
    v[:] = [int((when - datetime(1900, 1, 1)).total_seconds() // 3600)]
    shape = (1, len(lev), len(lat), len(lon))
    for k in VARS:
        x = {'t': lambda: rng.uniform(190, 310, shape), 'r': lambda: rng.uniform(0, float(rng.choice([110, 110, 110, 1.4, .05])), shape),
             'q': lambda: rng.uniform(.2, 1, shape) * .025 * (np.asarray(lev)[None, :, None, None] / 1000.) ** 3}.get(
                 k, lambda: rng.uniform(0, 1e-4, shape) * (rng.random(shape) < .8))()
        if packed:
            w = n.createVariable(k, 'i2', ('time', 'level', 'latitude', 'longitude'), fill_value=-32767)
            w.missing_value = np.int16(-32767)
            w.scale_factor = (x.max() - x.min()) / 65000. or 1.
            w.add_offset = (x.max() + x.min()) / 2
        else:
            w = n.createVariable(k, 'f8', ('time', 'level', 'latitude', 'longitude'))
        w[:] = x
    n.close()
    # the values of the file
    n = Dataset(path)
    out = {k: np.array(n.variables[k][:], float)[0] for k in VARS}
    la, lo = np.array(n.variables['latitude'][:], float), np.array(n.variables['longitude'][:], float)
    n.close()
    return out, la, lo


def thickness(p, t, q):
    eps = 287.04 / 461.52
    tv = t * (q + eps) / (eps * (1 + q))
    return np.append(0., np.cumsum(8.314462618 / 28.96546e-3 / 9.80665 * .5 * (tv[1:] + tv[:-1]) * np.log(p[:-1] / p[1:]))) / 1e3


def evaluate(case, mon):
    from pyrtlib.apiwebservices import ERA5Reanalysis as E
    rng = np.random.default_rng(case['seed'])
    place = (round(float(rng.uniform(-179, 179)), 3), round(float(rng.uniform(-80, 80)), 3))     # lon, lat
    edge = rng.random() < .3                   # across the date line
    if edge:
        place = (round(float(rng.choice([-1, 1]) * (180 - rng.uniform(0, .6))), 3), place[1])
    step = float(rng.choice([.25, .25, .125, .5, 1.]))
    kind = rng.integers(4)
    if kind <= 1:                       # as delivered for a request around the place
        off = float(rng.choice([.4, .4, .6, .3]))
        k = int(2 * off / step + 1e-6) + 1
        lat, lon = place[1] + off - step * np.arange(k), place[0] - off + step * np.arange(k)
    else:
        k, m = int(rng.integers(2, 8)), int(rng.integers(2, 8))
        if kind == 2:
            m = k
        lat = np.round(place[1] + rng.uniform(.1, 1) * step * k - step * np.arange(k), 3)
        lon = np.round(place[0] - rng.uniform(.1, 1) * step * m + step * np.arange(m), 3)
    if edge:
        lon = (lon + 180.) % 360. - 180.
        mon.count('date line', int(np.ptp(lon) > 180))
    elif rng.random() < .15:                    # east longitudes from 0 to 360
        lon = lon % 360.
        mon.count('0-360')
    lev = np.array(LEVELS if rng.random() < .6 else sorted(rng.choice(LEVELS, size=int(rng.integers(2, 30)), replace=False)))
    when = datetime(int(rng.integers(1950, 2024)), int(rng.integers(1, 13)), int(rng.integers(1, 29)), int(rng.integers(24)))
    fd, path = tempfile.mkstemp('.nc', dir=os.environ.get('VERIF_SCRATCH'))
    os.close(fd)
    try:
        X, la, lo = write(path, rng, lat, lon, lev, when, bool(rng.random() < .6))
        D = distance(place[1], place[0], la[:, None], lo[None, :])
        j, i = np.unravel_index(np.argmin(D), D.shape)
        close = np.argwhere(D <= D.min() * (1 + 1e-6) + 1e-9)        # ties
        ctx = dict(place=place, grid=[len(la), len(lo)], nearest=[int(j), int(i)])
        square = len(la) == len(lo)
        df = None
        with repo.quiet():
            try:
                df = E.read_data(path, place)
            except ValueError:
                if square:
                    raise
                mon.finding('non-square', 'a grid of %d x %d points cannot be read' % D.shape)
                mon.count('non-square')
    finally:
        os.unlink(path)
    if df is not None:
        def same(j, i):
            return len(df) == len(lev) and np.allclose(df['t'].to_numpy(float), X['t'][::-1, j, i], rtol=1e-9) \
                and np.allclose(df['rh'].to_numpy(float), X['r'][::-1, j, i] / 100, rtol=1e-9, atol=1e-12)
        at = [tuple(int(v) for v in c) for c in close if same(*c)]
        ondiag = any(a == b for a, b in close)
        mon.count('diagonal' if ondiag else 'off-diagonal')
        if not at and not ondiag and square:
            d = np.diagonal(D)
            dk = [int(v) for v in np.nonzero(d <= d.min() * (1 + 1e-6) + 1e-9)[0]]
            at = [(v, v) for v in dk if same(v, v)]
            if at:
                mon.finding('diagonal-nearest', 'read at %r instead of the nearest grid point %r' % (at[0], (int(j), int(i))))
        if mon.check('place', at, 'not the profile of the nearest grid point', **ctx):
            j, i = at[0]
            for name, key, f in [('t', 't', 1.), ('rh', 'r', .01)] + [(v, v, 1.) for v in VARS[2:]]:
                mon.close('variable', df[name].to_numpy(float), X[key][::-1, j, i] * f, 1e-6, 1e-12, column=name, **ctx)
            p = df['p'].to_numpy(float)
            mon.close('order', p, lev[::-1].astype(float), 1e-9, **ctx)
            q = X['q'][::-1, j, i]
            z = df['z'].to_numpy(float)
            mon.close('height', z, thickness(p, X['t'][::-1, j, i], q), 6e-4, 1e-9, **ctx)
            mon.check('height-order', z[0] == 0 and (np.diff(z) > 0).all(), 'heights %r' % (z[:3],), **ctx)
            mon.check('time', all(t.to_pydatetime() == when for t in df['time']), 'time %r' % (df['time'].iloc[0],), **ctx)
            u = df.attrs.get('units', {})
            mon.check('units', all(u.get(k) == v for k, v in UNITS.items()), 'units %r' % (u,), **ctx)
        mon.state(len(la) > 3, square, ondiag, len(lev) == 37)
    request(mon, rng, place, when)
    mon.sample = dict(ctx, levels=len(lev))


class Client:
    calls = []

    def __init__(self, *a, **k):
        pass

    def retrieve(self, name, request, target=None):
        Client.calls.append((name, request, target))
        if target:
            with open(target, 'w') as fh:
                fh.write('x')


def request(mon, rng, place, when):
    import types
    import pyrtlib.apiwebservices.erafive as mod
    Client.calls = []
    old = getattr(mod, 'cdsapi', None)
    mod.cdsapi = stub = types.SimpleNamespace(Client=Client)
    import sys
    before = sys.modules.get('cdsapi')
    sys.modules['cdsapi'] = stub
    kw = {}
    res, off = .25, .4
    if rng.random() < .5:
        kw['resolution'] = res = float(rng.choice([.25, .5, .1, 1.]))
    if rng.random() < .5:
        kw['offset'] = off = float(rng.choice([.1, .4, 1., 2.5]))
    try:
        with tempfile.TemporaryDirectory(dir=os.environ.get('VERIF_SCRATCH')) as d, repo.quiet():
            path = mod.ERA5Reanalysis.request_data(d, when, place, **kw)
            ok = os.path.isfile(path) and os.path.dirname(os.path.abspath(path)) == os.path.abspath(d)
            other = mod.ERA5Reanalysis.request_data(d, when + timedelta(hours=1), place, **kw)
            n = len(Client.calls)
            there = (place[0] / 2 + 1., place[1] / 2 - 1.)
            third = mod.ERA5Reanalysis.request_data(d, when, there, **kw)
            mon.check('request-file', len(Client.calls) == n + 1 and os.path.isfile(third)
                      and np.allclose(Client.calls[-1][1]['area'], [there[1] + off, there[0] - off, there[1] - off, there[0] + off]),
                      'another place at the same hour was not asked for', place=place, there=there)
    finally:
        if before is None:
            del sys.modules['cdsapi']
        else:
            sys.modules['cdsapi'] = before
        if old is None:
            del mod.cdsapi
        else:
            mod.cdsapi = old
    ctx = dict(place=place, time=when.isoformat(), **kw)
    mon.check('request-file', ok and n == 2, 'no file delivered where promised', path=path, **ctx)
    mon.check('request-file', other != path, 'two times, one file', **ctx)
    name, q, target = Client.calls[0]
    mon.check('request', name == 'reanalysis-era5-pressure-levels' and os.path.abspath(target) == os.path.abspath(path), 'dataset or target %r' % (name,),
              **ctx)
    one = lambda v: v[0] if isinstance(v, (list, tuple)) and len(v) == 1 else v  # noqa: E731
    t = str(one(q['time']))
    mon.check('request', (int(one(q['year'])), int(one(q['month'])), int(one(q['day'])), int(t.split(':')[0]), int((t + ':0').split(':')[1]))
              == (when.year, when.month, when.day, when.hour, 0), 'time %r' % (q,), **ctx)
    mon.close('request-area', q['area'], [place[1] + off, place[0] - off, place[1] - off, place[0] + off], 1e-9, 1e-9, **ctx)
    mon.close('request-grid', q['grid'], [res, res], 1e-9, **ctx)
    mon.check('request', set(q['variable']) >= NAMES, 'variables %r' % (q['variable'],), **ctx)
    mon.check('request', sorted(int(v) for v in q['pressure_level']) == LEVELS, 'levels %r' % (q['pressure_level'],), **ctx)
    mon.check('request', 'netcdf' in str(q.get('format', q.get('data_format', ''))), 'format', **ctx)
