"""C16 pressure, height, density and temperature conversions."""
import numpy as np
from vlib import ref, gen, repo
from vlib.core import subseed

PROPERTY = 'C16'
RULE = ('one case = one random column or set of scalars pushed through height/pressure, hypsometric thickness, virtual temperature, '
        'number density, cloud content density and Celsius/Kelvin conversions: inverse pairs, additivity, monotony, independence of the '
        'rest of the column, and agreement with independently written physics; plus the table of constants and units.')
REQUIRE = {'height-inverse': 300, 'height-formula': 300, 'thickness': 300, 'thickness-split': 250, 'virtual': 300, 'number-density': 300,
           'air-density': 300, 'celsius': 300, 'constants': 11}
ASSUMPTIONS = ['Celsius offset and standard lapse rate sign are known findings pinned by the test suite']
R, MD, G0 = 8.314462618, 28.96546e-3, 9.80665
RD = R / MD
CONST = dict(avogadro=(6.022140857e23, 'mol-1'), boltzmann=(1.380658e-23, 'J K-1'), EarthRadius=(6370.949, 'km'), gravity=(9.80665, 'm s-2'),
             light=(299792458., 'm s-1'), Np2dB=(10 / np.log(10.), 'dB/Np'), planck=(6.6260755e-34, 'J Hz-1'), Rdry=(287.04, 'J kg-1 K-1'),
             Rwatvap=(461.52, 'J kg-1 K-1'), Tcosmicbkg=(2.728, 'K'), R=(8.31446261815324, 'J mol-1 K-1'))


def cases(tier, seed):
    n = 450 if tier == 'quick' else 9000
    return [dict(seed=subseed('C16', seed, i), kind=gen.KINDS[i % len(gen.KINDS)]) for i in range(n)]


def thickness(p, t, mr):
    tv = t if mr is None else t * (1 + mr / (287.04 / 461.52)) / (1 + mr)
    return np.append(0., np.cumsum(RD / G0 * .5 * (tv[1:] + tv[:-1]) * np.log(p[:-1] / p[1:]))) / 1e3


def evaluate(case, mon):
    u = repo.utils
    rng = np.random.default_rng(case['seed'])
    P = gen.profile(rng, case['kind'])
    p, t = P['p'], P['t']
    e = P['rh'] * ref.eswat(t)
    mr = .62197 * e / (p - e)          # kg/kg
    n = len(p)
    ctx = dict(kind=case['kind'])

    # constants
    name = list(CONST)[case['seed'] % len(CONST)]
    v = u.constants(name)
    mon.close('constants', v[0], CONST[name][0], 1e-9, name=name)
    mon.check('constants', len(v) == 2 and v[1].strip('[]') == CONST[name][1], 'unit %r' % (v[1],), name=name)
    mon.check('constants', set(CONST) <= set(u.constants()) and all(len(u.constants(k)) == 2 for k in u.constants()), 'list of constants')
    for bad in ('c', 'Boltzmann', 'rdry', 'PLANCK', 'g', ' R'):
        try:
            u.constants(bad)
            mon.fail('constants', 'unknown constant accepted', name=bad)
        except ValueError:
            mon.count('evaluated:constants')

    # standard atmosphere pressure <-> height
    z = np.concatenate((rng.uniform(-300, 11000, 8), [0.], rng.uniform(11000, 40000, 3)))
    q = np.concatenate((rng.uniform(200, 1080, 8), [1013.25], 10 ** rng.uniform(.4, 2.3, 3)))
    h = u.pressure_to_height(q)
    mon.close('height-inverse', u.height_to_pressure(h), q, 1e-10, **ctx)
    mon.close('height-inverse', u.pressure_to_height(u.height_to_pressure(z)), z, 1e-8, 1e-6, **ctx)
    mon.close('height-inverse', u.pressure_to_height(1013.25), 0., 0, 1e-6, **ctx)
    o = np.argsort(q)
    mon.check('height-monotone', np.all(np.diff(h[o]) <= 0) and np.all(np.diff(u.height_to_pressure(np.sort(z))) <= 0), 'not monotone', **ctx)
    right = 288. / .0065 * (1 - (q / 1013.25) ** (RD * .0065 / G0))
    wrong = 288. / -.0065 * (1 - (q / 1013.25) ** (RD * -.0065 / G0))
    if not np.allclose(h, right, 3e-3, 3.):
        if np.allclose(h, wrong, 1e-9, 1e-6):
            mon.finding('lapse-sign', 'pressure_to_height(%.1f) = %.1f m, standard atmosphere %.1f m' % (q[0], h[0], right[0]))
        else:
            mon.fail('height-formula', 'height of %r hPa is %r, standard atmosphere %r' % (q[0], h[0], right[0]))
    mon.count('evaluated:height-formula')
    mon.close('height-inverse', [float(u.pressure_to_height(float(x))) for x in q], h, 1e-12, 1e-9, **ctx)

    # hypsometric thickness
    for m in (None, mr, np.zeros(n)):
        H = u.atmospheric_tickness(p, t, m)
        want = thickness(p, t, m)
        mon.close('thickness', H, want, 1e-9, 1e-12, moist=m is not None, **ctx)
        mon.check('thickness', H[0] == 0 and np.all(np.diff(H) > 0), 'thickness must grow upwards from zero', **ctx)
        if n > 3:
            k = int(rng.integers(1, n - 1))
            lo = u.atmospheric_tickness(p[:k + 1], t[:k + 1], None if m is None else m[:k + 1])
            hi = u.atmospheric_tickness(p[k:], t[k:], None if m is None else m[k:])
            mon.close('thickness-split', lo, H[:k + 1], 1e-9, 1e-12, **ctx)
            mon.close('thickness-split', lo[-1] + hi, H[k:], 1e-9, 1e-12, **ctx)
        # listed from the top downwards every level lies below the first
        mon.close('thickness', u.atmospheric_tickness(p[::-1], t[::-1], None if m is None else m[::-1]), (H - H[-1])[::-1], 1e-9, 1e-9 * H[-1],
                  moist=m is not None, order='downward', **ctx)
    mon.close('thickness', u.atmospheric_tickness(p, t, np.zeros(n)), u.atmospheric_tickness(p, t), 1e-10, 1e-12, **ctx)
    mon.check('thickness', np.all(u.atmospheric_tickness(p, t, mr) >= u.atmospheric_tickness(p, t) - 1e-12), 'moist air thinner than dry air', **ctx)
    if case['kind'] in ('std', 'dense', 'tropical'):   # the generator is hydrostatic
        mon.close('thickness-physical', u.atmospheric_tickness(p, t), P['z'] - P['z'][0], .02, .02, **ctx)

    # virtual temperature
    tv = u.virtual_temperature(t, mr)
    mon.close('virtual', tv, t * (1 + mr * 461.52 / 287.04) / (1 + mr), 1e-10, **ctx)
    mon.close('virtual', u.virtual_temperature(t, np.zeros(n)), t, 1e-12, **ctx)
    mon.check('virtual', np.all(tv >= t * (1 - 1e-14)), 'vapour lowers the virtual temperature', **ctx)
    small = e < .05 * p
    mon.close('virtual', tv[small], (t / (1 - .37802 * e / p))[small], 2e-4, **ctx)

    # number density (pressure in Pa)
    ppmv = rng.uniform(0, 5e4, n)
    nd = u.ppmv_to_moleculesm3(ppmv, p * 100, t)
    mon.close('number-density', nd, 6.022140857e23 * p * 100 / (8.31446261815324 * t) * ppmv * 1e-6, 1e-9, **ctx)
    mon.close('number-density', u.ppmv_to_moleculesm3(np.full(n, 1e6), p * 100, t), p * 100 / (ref.C['boltzmann'] * t), 2e-5, **ctx)
    mon.close('number-density', u.ppmv_to_moleculesm3(ppmv * 2, p * 100, t), 2 * nd, 1e-12, **ctx)

    # density of moist air for cloud contents
    s = mr / (1 + mr)
    d = u.kgkg_to_kgm3(s, p, t)
    eps = .621970585
    mon.close('air-density', d, 1e2 * p / (287.04 * (1 + (1 - eps) / eps * s) * t), 1e-9, **ctx)
    mon.close('air-density-physical', d, (p - e) * 100 / (287.04 * t) + e * 100 / (461.52 * t), 2e-4, **ctx)
    mon.check('air-density', np.all(d <= u.kgkg_to_kgm3(0 * s, p, t)), 'moist air heavier than dry air', **ctx)

    # Celsius and Kelvin
    c = rng.uniform(-90, 50, 6)
    k = u.to_kelvin(c)
    mon.close('celsius', u.to_celsius(k), c, 1e-12, 1e-10, **ctx)
    for off in (k - c, t - u.to_celsius(t)):
        mon.count('evaluated:celsius')
        if np.all(np.abs(off - 273.15) < 1e-9):
            continue
        if np.all(np.abs(off - 273.25) < 1e-9):
            mon.finding('celsius-offset', 'to_kelvin(0) = %r' % float(u.to_kelvin(0.)))
        else:
            mon.fail('celsius', 'offset %r' % float(off[0]))
    mon.check('celsius', abs(float(u.to_kelvin(1.)) - float(u.to_kelvin(np.array([1.]))[0])) < 1e-12, 'scalar and array differ', **ctx)
    mon.state(case['kind'], n > 40, name)
    mon.sample = dict(kind=case['kind'], levels=n, thickness_km=float(u.atmospheric_tickness(p, t, mr)[-1]), top=float(P['z'][-1]))
