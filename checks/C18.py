"""C18 reference atmospheres of ITU-R P.835-6."""
import numpy as np
from vlib import itu, repo
from vlib.core import subseed

PROPERTY = 'C18'
RULE = ('one case = one latitude, season and set of heights (random, segment edges from both sides, unsorted, repeated) for temperature, '
        'pressure, water vapour of the geographic atmospheres and of the reference standard atmosphere; oracle = independent segment tables '
        'of the recommendation with hydrostatically consistent base pressures; plus hemispheric symmetry, continuity and monotony.')
REQUIRE = {'temperature': 300, 'pressure': 300, 'vapour': 300, 'std-temperature': 300, 'std-pressure': 300, 'std-vapour': 300, 'symmetry': 300,
           'season-rejected': 100, 'whole-numbers': 1000, 'monotone-pressure': 300}
EDGES = [0., 8.5, 10., 11., 13., 15., 17., 20., 23., 30., 32., 33., 47., 48., 50., 51., 52., 53., 54., 71., 72., 79., 80., 91., 100.,
         11.019, 20.063, 32.162, 47.350, 51.413, 71.802]


def cases(tier, seed):
    n = 420 if tier == 'quick' else 9000
    return [dict(seed=subseed('C18', seed, i), zone=('low', 'mid', 'high')[i % 3], season=('summer', 'winter')[i // 3 % 2]) for i in range(n)]


def evaluate(case, mon):
    from pyrtlib.climatology import ProfileExtrapolation as E
    rng = np.random.default_rng(case['seed'])
    sea = case['season']
    lo, hi = dict(low=(0, 21.999), mid=(22, 44.999), high=(45.001, 90))[case['zone']]
    lat = float(rng.uniform(lo, hi)) * rng.choice([-1, 1])
    if rng.random() < .15:
        lat = float(rng.choice([-1, 1])) * (lo + (1e-9 if case['zone'] != 'mid' else 0.))
    ed = np.array(EDGES)
    h = np.concatenate((rng.uniform(0, 100, 40), ed, np.clip(ed + 1e-6, 0, 100), np.clip(ed - 1e-6, 0, 100)))
    rng.shuffle(h)
    e = E()
    ctx = dict(lat=lat, season=sea)
    t, p, w = e.temperature(lat, h, sea), e.pressure(lat, h, sea), e.water_vapour_density(lat, h, sea)
    # a segment edge itself may belong to either side
    at = np.isin(h, ed)
    eps = 1e-9

    def either(rule, got, f, rtol):
        a, b = f(np.clip(h - np.where(at & (h > 0), eps, 0), 0, 100)), f(np.clip(h + np.where(at & (h < 100), eps, 0), 0, 100))
        want = np.where(np.abs(got - a) <= np.abs(got - b), a, b)
        mon.close(rule, got, np.where(at, want, f(h)), rtol, 1e-300, **ctx)
    either('temperature', t, lambda x: itu.temperature(lat, x, sea), 1e-7)
    either('pressure', p, lambda x: itu.pressure(lat, x, sea), 2e-5)
    either('vapour', w, lambda x: itu.vapour(lat, x, sea), 1e-7)
    mon.check('defined', np.all(np.isfinite(t)) and np.all(p > 0) and np.all(w >= 0) and np.all((t > 150) & (t < 310)), 'unphysical', **ctx)
    # hemispheres, array latitude, scalar calls
    mon.close('symmetry', e.temperature(-lat, h, sea), t, 1e-14, **ctx)
    mon.close('symmetry', e.pressure(-lat, h, sea), p, 1e-14, **ctx)
    mon.close('symmetry', e.water_vapour_density(-lat, h, sea), w, 1e-14, **ctx)
    k = int(rng.integers(len(h)))
    mon.close('elementwise', [float(e.temperature(lat, float(h[k]), sea)), float(e.pressure(lat, float(h[k]), sea)),
                              float(e.water_vapour_density(lat, float(h[k]), sea))], [t[k], p[k], w[k]], 1e-14, **ctx)
    lats = rng.uniform(-90, 90, 6)
    lats = lats[np.abs(np.abs(lats) - 45) > 1e-6]
    hh = rng.uniform(0, 100, len(lats))
    mon.close('elementwise', e.temperature(lats, hh, sea), [float(e.temperature(a, b, sea)) for a, b in zip(lats, hh)], 1e-14, **ctx)
    if case['zone'] == 'low':
        mon.close('symmetry', e.temperature(lat, h, 'winter' if sea == 'summer' else 'summer'), t, 1e-14, **ctx)
    if sea == 'summer':
        mon.close('default-season', e.temperature(lat, h), t, 1e-14, **ctx)
        mon.close('default-season', e.pressure(lat, h), p, 1e-14, **ctx)
        mon.close('default-season', e.water_vapour_density(lat, h), w, 1e-14, **ctx)
    o = np.argsort(h)
    mon.check('monotone-pressure', np.all(np.diff(p[o]) <= 1e-3 * p[o][:-1]), 'pressure rises with height', **ctx)
    # standard atmosphere
    gap = (h > 85.99) & (h < 86.01)
    T, P = e.standard_temperature(h, 288.15), e.standard_pressure(h, 288.15, 1013.25)
    ok = ~gap
    mon.close('std-temperature', T[ok], itu.standard_temperature(h)[ok], 2e-6, **ctx)
    mon.close('std-pressure', P[ok], itu.standard_pressure(h)[ok], 1e-6, **ctx)
    Po = P[ok][np.argsort(h[ok])]
    mon.check('monotone-pressure', np.all(np.diff(Po) <= 2e-5 * Po[:-1]), 'standard pressure rises with height', **ctx)
    h0, r0 = float(rng.uniform(.5, 4)), float(rng.uniform(.1, 25))
    rho = e.standard_water_vapour_density(h, h0, r0)
    mon.close('std-vapour', rho, r0 * np.exp(-h / h0), 1e-10, **ctx)
    mon.close('std-vapour', e.standard_water_vapour_density(h, int(2), 7.5), 7.5 * np.exp(-h / 2.), 1e-10, **ctx)
    mon.close('std-vapour', e.standard_water_vapour_pressure(h, h0, r0)[ok], (rho * T / 216.7)[ok], 1e-9, 1e-300, **ctx)
    mon.close('std-vapour', e.standard_water_vapour_pressure(h)[ok], (7.5 * np.exp(-h / 2.) * T / 216.7)[ok], 1e-9, 1e-300, **ctx)
    # whole numbers mean the same as floating point ones
    hi = rng.integers(0, 101, 12)
    hi[0] = 0
    li = int(lat)
    for f in (e.temperature, e.pressure, e.water_vapour_density):
        if abs(li) != 45:
            mon.close('whole-numbers', f(li, hi, sea), f(float(li), hi.astype(float), sea), 1e-13, f=f.__name__, **ctx)
            mon.close('whole-numbers', float(f(li, int(hi[1]), sea)), float(f(float(li), float(hi[1]), sea)), 1e-13, f=f.__name__, **ctx)
    r1 = int(rng.integers(1, 25))
    mon.close('whole-numbers', e.standard_water_vapour_density(hi, 2, r1), r1 * np.exp(-hi / 2.), 1e-10, **ctx)
    mon.close('whole-numbers', e.standard_water_vapour_density(h, 2, r1), r1 * np.exp(-h / 2.), 1e-10, **ctx)
    mon.close('whole-numbers', e.standard_water_vapour_density(h, 2, np.array(r1)), r1 * np.exp(-h / 2.), 1e-10, **ctx)
    hs = hi[hi != 86]
    mon.close('whole-numbers', e.standard_temperature(hs, 288), e.standard_temperature(hs.astype(float), 288.), 1e-13, **ctx)
    mon.close('whole-numbers', e.standard_pressure(hs, 288, 1013), e.standard_pressure(hs.astype(float), 288., 1013.), 1e-13, **ctx)
    mon.close('whole-numbers', e.standard_water_vapour_pressure(hs, 2, r1), e.standard_water_vapour_pressure(hs.astype(float), 2., float(r1)), 1e-13, **ctx)
    for bad in ('Summer', 'spring', '', 'standard', None, 'WINTER', 1):
        for f in (e.temperature, e.pressure, e.water_vapour_density):
            try:
                f(lat, h, bad)
                mon.fail('season-rejected', 'season %r accepted' % (bad,), **ctx)
            except ValueError:
                mon.count('evaluated:season-rejected')
    try:
        E(str(rng.choice(['ITU', 'itu-annex1', '', 'Annex2'])))
        mon.fail('season-rejected', 'unknown extrapolation mode accepted')
    except ValueError:
        pass
    mon.state(case['zone'], sea, 'N' if lat > 0 else 'S')
    mon.sample = dict(lat=lat, season=sea, h=h[:3], t=t[:3], p=p[:3], w=w[:3])
