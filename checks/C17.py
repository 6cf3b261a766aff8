"""C17 profile extrapolation keeps the measured part and appends the reference atmosphere."""
import numpy as np
from vlib import itu, ref, repo, gen
from vlib.core import subseed

PROPERTY = 'C17'
RULE = ('one case = one measured profile (random levels, top from 1 to 105 km, tops placed on grid heights) x latitude (zone and season edges) '
        'x month x optional own height grid, extended through the public call; the measured part must be returned bit for bit, the appended '
        'part must be the reference atmosphere of place and season at each appended height, and the result must be usable as a profile.')
REQUIRE = {'measured-kept': 300, 'appended': 300, 'appended-humidity': 300, 'increasing': 300, 'season:summer': 30, 'season:winter': 30,
           'season:standard': 60, 'reaches-top': 300, 'own-grid': 40, 'repeat': 200, 'downwards': 300, 'usable': 20}


def cases(tier, seed):
    n = 480 if tier == 'quick' else 9000
    return [dict(seed=subseed('C17', seed, i), month=i % 12 + 1) for i in range(n)]


def evaluate(case, mon):
    from pyrtlib.climatology import ProfileExtrapolation as E
    rng = np.random.default_rng(case['seed'])
    m = case['month']
    k = rng.integers(8)
    top = [rng.uniform(1, 30), rng.uniform(30, 49.9), rng.uniform(50, 99), float(rng.choice([20., 25., 47.5, 50., 55., 60., 90., 95.])),
           rng.uniform(46.8, 50.), rng.uniform(10, 20), rng.uniform(3, 12), float(rng.choice([100., 104., 49.999, 16., 10.]))][k]
    n = int(rng.integers(2, 40))
    z = np.sort(np.concatenate((rng.uniform(0, top, n - 1), [top])))
    if rng.random() < .5:
        z[0] = 0.
    p = rng.uniform(1000, 1030) * np.exp(-z / 7.3)
    t = np.clip(295 - 6 * z, 205, 300) + rng.normal(0, 1, n)
    rh = rng.uniform(0, 1, n)
    lat = float(rng.choice([rng.uniform(-90, 90), rng.uniform(-25, 25), rng.uniform(40, 50) * rng.choice([-1, 1]), 20., -20., 20.01, -20.01, 0.,
                            22., 60., -60., 35., -35.]))
    if abs(abs(lat) - 45) < 1e-6:
        lat = 46.
    e = E()
    own = None
    if rng.random() < .3:
        own = np.sort(rng.uniform(0, 99, int(rng.integers(3, 30))))
        e.height = own
    grid = own if own is not None else np.hstack((np.linspace(0, 25, 26), np.linspace(27.5, 50, 10), np.linspace(55, 100, 10)))
    if rng.random() < .4:      # an earlier, unrelated request
        e.profile_extrapolation(float(rng.uniform(-90, 90)), int(rng.integers(1, 13)), z[:2] * .5, (p[:2], t[:2], rh[:2]))
    ctx = dict(top=float(top), lat=lat, month=m, own=own is not None)
    H, P, T, R = e.profile_extrapolation(lat, m, z, (p, t, rh))
    mon.check('lengths', len(H) == len(P) == len(T) == len(R), 'lengths %s' % [len(x) for x in (H, P, T, R)], **ctx)
    for name, a, b in (('z', H, z), ('p', P, p), ('t', T, t), ('rh', R, rh)):
        mon.identical('measured-kept', a[:n], b, quantity=name, **ctx)
    x = H[n:]
    mon.check('increasing', np.all(np.diff(H) > 0), 'heights not increasing above the measurement', **ctx)
    mon.check('reaches-top', H[-1] >= max(grid.max(), z.max()) - 1e-9, 'stops at %g km' % H[-1], **ctx)
    # the appended heights: own grid heights above everything, 3.2 km steps below 50 km
    step = []
    if z.max() < 50:
        step = np.arange(1, 40) * 3.2 + z.max()
        step = step[step < 50 - 1e-9]
    last = max([z.max()] + list(step))
    want = np.concatenate((step, grid[grid > last]))
    if len(want) == len(x):
        mon.close('appended-heights', x, want, 1e-9, **ctx)
    elif len(step) and 50 - (step[-1] + 3.2) > -1e-6 or abs(50 - last) < 1e-6:
        mon.count('skipped: step ends at the limit')
    else:
        mon.fail('appended-heights', '%d heights appended, expected %d' % (len(x), len(want)), **ctx)
    mon.check('dense-enough', len(x) == 0 or np.max(np.diff(np.append(z[-1], x[x < 50]))) < 3.2 + 1e-9 if own is None and z.max() < 46 else True,
              'gap of more than 3.2 km below 50 km', **ctx)
    s = itu.season(lat, m)
    mon.count('season:' + s)
    away = np.min(np.abs(x[:, None] - np.array([8.5, 10, 13, 15, 17, 23, 30, 33, 47, 48, 50, 52, 53, 54, 72, 79, 80, 86, 91])), axis=1) > 1e-7 \
        if len(x) else np.zeros(0, bool)
    away &= (x <= 100) & ~((x > 85.99) & (x < 86.01))
    if s == 'standard':
        wt, wp, ww = itu.standard_temperature(x), itu.standard_pressure(x), 7.5 * np.exp(-x / 2.)
    else:
        wt, wp, ww = itu.temperature(lat, x, s), itu.pressure(lat, x, s), itu.vapour(lat, x, s)
    mon.close('appended', T[n:][away], wt[away], 1e-6, quantity='t', season=s, **ctx)
    mon.close('appended', P[n:][away], wp[away], 3e-5, quantity='p', season=s, **ctx)
    es = ref.eswat(wt)
    mon.close('appended-humidity', R[n:][away], (ww * wt / 216.7 / es)[away], 5e-5, 1e-12, season=s, **ctx)
    mon.check('fraction', np.all(R[n:] >= 0) and np.all(R[n:][x < 40] < 1.6), 'humidity is not a fraction: %g' % (np.max(R[n:]) if len(x) else 0), **ctx)
    if own is not None:
        mon.count('own-grid')
    if case['seed'] % 3 == 0:        # levels listed downwards, lowest level anywhere: the same levels are appended
        z0 = float(rng.choice([0., .3, 2., 4.5]))
        up = E()
        if own is not None:
            up.height = own
        a = up.profile_extrapolation(lat, m, z + z0, (p, t, rh))
        b = up.profile_extrapolation(lat, m, (z + z0)[::-1].copy(), (p[::-1].copy(), t[::-1].copy(), rh[::-1].copy()))
        for x1, x2 in zip(a, b):
            mon.identical('downwards', x2[:n], x1[:n][::-1], z0=z0, **ctx)
            mon.identical('downwards', x2[n:], x1[n:], z0=z0, **ctx)
    A = e.profile_extrapolation(lat, m, z, (p, t, rh))
    for a, b in zip(A, (H, P, T, R)):
        mon.identical('repeat', a, b, **ctx)
    B = E()
    if own is not None:
        B.height = own
    for a, b in zip(B.profile_extrapolation(lat, m, z, (p, t, rh)), (H, P, T, R)):
        mon.identical('repeat', a, b, what='fresh object', **ctx)
    for bad in ([1., 2.], None, 3.):
        try:
            e.height = bad
            mon.fail('own-grid', 'height accepted %r' % (bad,))
        except ValueError:
            mon.count('evaluated:own-grid')
    if case['seed'] % 10 == 0 and len(x) and z[0] < 1 and n > 5 and np.min(np.diff(z)) > .01:
        r = gen.freqs(rng, 2)
        q = repo.run(H, P, T, np.clip(R, 0, 1), r, np.array([90.]), dict(h2o='R19', o2='R19', n2='R19', liq='R19'), from_sat=False)
        mon.check('usable', np.all(np.isfinite(q['tbtotal'])) and np.all(q['tbtotal'] > 2.), 'simulation from the extended profile', **ctx)
    mon.state(s, itu.zone(lat), 'N' if lat > 0 else 'S', m, 'high top' if top >= 50 else 'low top')
    mon.sample = dict(lat=lat, month=m, top=float(top), season=s, appended=len(x), first=[float(v) for v in x[:2]])
