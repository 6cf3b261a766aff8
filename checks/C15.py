"""C15 humidity conversions are mutually consistent."""
import numpy as np
from vlib import ref, gen, repo
from vlib.core import subseed

PROPERTY = 'C15'
RULE = ('one case = one random moist atmosphere (all generator kinds plus unphysical mixtures, scalars and arrays, zero vapour) pushed '
        'through every humidity conversion: inverse pairs, both routes between two quantities, saturation (water / ice / switch '
        'temperature) against an independent Goff-Gratch, dew point laws, gas masses from the chemical formula.')
REQUIRE = {'inverse': 600, 'saturation': 400, 'ice-switch': 150, 'definition': 600, 'cross-route': 300, 'dewpoint': 200, 'gas-mass': 40,
           'profile-vapour': 150}
ATOM = dict(H=1, C=12, N=14, O=16, F=19, P=31, S=32, Cl=35, Br=80, I=127)
GAS = {0: 'H2O', 1: 'C1O2', 2: 'O3', 3: 'N2O', 4: 'C1O1', 5: 'C1H4', 6: 'O2', 7: 'N1O1', 8: 'S1O2', 9: 'N1O2', 10: 'N1H3', 11: 'H1N1O3',
       12: 'O1H1', 13: 'H1F1', 14: 'H1Cl1', 15: 'H1Br1', 16: 'H1I1', 17: 'Cl1O1', 18: 'O1C1S1', 19: 'H2C1O1', 20: 'H1O1Cl1', 21: 'N2',
       22: 'H1C1N1', 23: 'C1H3Cl1', 24: 'H2O2', 25: 'C2H2', 26: 'C2H6', 27: 'P1H3', 28: 'C1O1F2', 29: 'S1F6', 30: 'H2S1', 31: 'C1Cl3F1',
       32: 'C1Cl2F2', 33: 'C1Cl1F3', 34: 'C1F4', 35: 'C1H1Cl2F1', 36: 'C1H1Cl1F2', 37: 'C2Cl3F3', 38: 'C2Cl2F4', 39: 'C2Cl1F5',
       40: 'C1Cl4', 41: 'Cl1O1N1O2', 42: 'N2O5', 43: 'H1N1O4'}
NAMES = dict(H2O=0, CO2=1, O3=2, N2O=3, CO=4, CH4=5, O2=6, NO=7, SO2=8, NO2=9, NH3=10, HNO3=11, OH=12, HF=13, HCL=14, HBR=15, HI=16, CLO=17,
             OCS=18, H2CO=19, HOCL=20, N2=21, HCN=22, CH3CL=23, H2O2=24, C2H2=25, C2H6=26, PH3=27, COF2=28, SF6=29, H2S=30, CCL3F=31,
             CCL2F2=32, CCLF3=33, CF4=34, CHCl2F=35, CHCLF2=36, C2CL3F3=37, C2CL2F4=38, C2CLF5=39, CCL4=40, CLONO2=41, N2O5=42,
             HNO4=43, AIR=99)
EPS, RV = .621970585, 461.52e-5


def mass(formula):
    import re
    return sum(ATOM[a] * int(n or 1) for a, n in re.findall(r'(Cl|Br|[HCNOFPSI])(\d*)', formula))


def cases(tier, seed):
    n = 400 if tier == 'quick' else 8000
    out = [dict(seed=subseed('C15', seed, i), kind=gen.KINDS[i % len(gen.KINDS)]) for i in range(n)]
    return out + [dict(seed=subseed('C15g', seed, i), gas=i) for i in list(range(44)) + [99]]


def gas(case, mon):
    from pyrtlib.climatology import AtmosphericProfiles as A
    rng = np.random.default_rng(case['seed'])
    i, u = case['gas'], repo.utils
    for k, v in NAMES.items():
        mon.check('gas-id', getattr(A, k) == v, 'gas identifier changed', gas=k)
    want = 28.9402753669 if i == 99 else mass(GAS[i])
    ppmv = rng.uniform(0, 2e4, 7)
    try:
        got = u.gas_mass(i) / 1.6726485e-27
    except UnboundLocalError:
        if 32 <= i <= 43:
            mon.finding('no-mass-32-43', 'gas id %d has no mass' % i)
            mon.count('evaluated:gas-mass')
            return
        raise
    if i == 31 and abs(got - 46) < 1e-9:     # formic acid instead of CFC-11
        mon.finding('mass-31', 'gas id 31 has the mass of HCOOH')
        want = 46.
    # integer atomic masses are the published choice; accept exact isotopic/average masses too
    mon.close('gas-mass', got, want, 4e-3 if i != 99 else 1e-3, gas=i)
    g = u.ppmv2gkg(ppmv, i)
    mon.close('ppmv-mass', g, ppmv * 1e-6 * u.gas_mass(i) / u.gas_mass(99) * 1e3, 1e-12, gas=i)
    mon.close('ppmv-mass', u.ppmv2gkg(3. * ppmv, i), 3. * g, 1e-12, gas=i)
    mon.close('ppmv-mass', [float(u.ppmv2gkg(x, i)) for x in ppmv], g, 1e-12, gas=i)
    mon.state('gas', i)


def evaluate(case, mon):
    if 'gas' in case:
        return gas(case, mon)
    u = repo.utils
    rng = np.random.default_rng(case['seed'])
    P = gen.profile(rng, case['kind'])
    p, t = P['p'], P['t']
    if rng.random() < .3:                       # arbitrary mixtures
        n = len(p)
        p, t = 10 ** rng.uniform(-1, 3.04, n), rng.uniform(165, 340, n)
    es = ref.eswat(t)
    e = np.minimum(rng.uniform(0, 1.1, len(t)) * es, .5 * p) * (rng.random(len(t)) > .1)
    ctx = dict(kind=case['kind'])
    w = 1e3 * EPS * e / (p - e)
    rho = e / (RV * t)

    # definitions
    mon.close('definition', u.e2mr(p, e), w, 1e-10, what='e2mr', **ctx)
    mon.close('definition', u.mr2e(p, w), e, 1e-10, 1e-300, what='mr2e', **ctx)
    mon.close('definition', u.mr2rho(w, t, p), rho, 1e-9, 1e-300, what='mr2rho', **ctx)
    mon.close('definition', u.rho2mr(rho, t, p), w, 1e-9, 1e-300, what='rho2mr', **ctx)
    # saturation
    mon.close('saturation', u.eswat_goffgratch(t), es, 1e-10, **ctx)
    ice = u.esice_goffgratch(t)
    ok = np.allclose(ice, ref.esice(t, 273.15), 1e-10, 0) or np.allclose(ice, ref.esice(t), 1e-10, 0)
    mon.check('saturation', ok, 'saturation over ice is not Goff-Gratch', **ctx)
    mon.close('saturation', u.satvap(t), es, 1e-10, **ctx)
    mon.close('saturation', u.satmix(p, t), 1e3 * EPS * es / (p - es), 1e-9, **ctx)
    ts = np.sort(rng.uniform(170, 340, 9))
    if np.min(np.diff(ts)) > 1e-4:
        mon.check('saturation-monotone', np.all(np.diff(u.eswat_goffgratch(ts)) > 0) and np.all(np.diff(u.esice_goffgratch(ts)) > 0),
                  'saturation pressure does not increase with temperature', **ctx)
    cold = t < 273.
    mon.check('saturation-order', np.all(u.esice_goffgratch(t[cold]) < u.eswat_goffgratch(t[cold])), 'ice above water', **ctx)
    # switch temperature, also exactly at a level
    for tc in (float(rng.uniform(200, 300)), 273.15, float(t[rng.integers(len(t))]), 100., 400.):
        sure = np.abs(t - tc) > 1e-9
        want = np.where(t < tc, ice, es)
        mon.close('ice-switch', u.satvap(t, tc)[sure], want[sure], 1e-12, tc=tc, **ctx)
        edge = u.satvap(t, tc)[~sure]
        mon.check('ice-switch', np.all(np.isclose(edge, es[~sure], 1e-12) | np.isclose(edge, ice[~sure], 1e-12)), 'at the switch', **ctx)
        mon.close('ice-switch', u.satmix(p, t, tc)[sure], (1e3 * EPS * want / (p - want))[sure], 1e-9, tc=tc, **ctx)
        a, b = u.mr2rh(p, t, w, tc)
        mon.close('ice-switch', a[sure], (100. * e / want)[sure], 1e-9, 1e-12, tc=tc, **ctx)
        mon.close('ice-switch', b[sure], (100. * w / (1e3 * EPS * want / (p - want)))[sure], 1e-9, 1e-12, tc=tc, **ctx)
    # relative humidity, two definitions
    rh1, rh2 = u.mr2rh(p, t, w)
    mon.close('definition', rh1, 100. * e / es, 1e-9, 1e-12, what='mr2rh', **ctx)
    mon.close('definition', rh2, 100. * w / (1e3 * EPS * es / (p - es)), 1e-9, 1e-12, what='mr2rh wmo', **ctx)
    a, b = u.rho2rh(rho, t, p)
    sat = np.abs(p - es) > .02 * p
    mon.close('cross-route', a, rh1, 3e-4, 1e-12, what='rho2rh', **ctx)
    far = sat & (p - e > .3 * p)
    mon.close('cross-route', b[far], rh2[far], 1e-3, 1e-12, what='rho2rh wmo', **ctx)
    # inverse pairs
    mon.close('inverse', u.mr2e(p, u.e2mr(p, e)), e, 1e-10, 1e-300, what='e>w>e', **ctx)
    mon.close('inverse', u.e2mr(p, u.mr2e(p, w)), w, 1e-9, 1e-300, what='w>e>w', **ctx)
    mon.close('inverse', u.rho2mr(u.mr2rho(w, t, p), t, p), w, 1e-8, 1e-300, what='w>rho>w', **ctx)
    mon.close('inverse', u.mr2rho(u.rho2mr(rho, t, p), t, p), rho, 1e-8, 1e-300, what='rho>w>rho', **ctx)
    # vapour of the simulation
    rh = e / es
    with repo.quiet():
        for flag in (False, True):
            ev, rv = repo.RTEquation.vapor(t, rh, flag)
            w1, w2 = ref.vapor(t, rh, flag)
            near = np.abs(t - 263.16) > 1e-9
            if flag:
                ok = np.allclose(ev[near], w1[near], 2e-4, 1e-300)     # triple point 273.15 or 273.16
                mon.check('profile-vapour', ok, 'vapour pressure (ice)', **ctx)
            else:
                mon.close('profile-vapour', ev, w1, 1e-10, 1e-300, **ctx)
                mon.close('cross-route', u.mr2rho(u.e2mr(p, ev), t, p), rv, 1e-8, 1e-300, what='profile density', **ctx)
            mon.close('profile-vapour', rv, ev / (RV * t), 1e-10, 1e-300, **ctx)
    # dew point
    tc = rng.uniform(-60, 45, 12)
    td = tc - np.abs(rng.normal(0, 12, 12)) * (rng.random(12) > .2)
    for kw, (a, b, ln) in (({}, (17.625, 243.04, 1.)), (dict(method='arm'), (17.625, 243.04, 1.)),
                           (dict(method='mag'), (7.5, 237.3, np.log(10.))), (dict(method='mag', ice=True), (9.5, 265.5, np.log(10.)))):
        r = u.dewpoint2rh(td, tc, **kw)
        mon.close('dewpoint', r, np.exp(ln * (a * td / (b + td) - a * tc / (b + tc))), 1e-10, **ctx)
        mon.close('dewpoint', u.dewpoint2rh(tc, tc, **kw), np.ones(12), 1e-12, **ctx)
        mon.check('dewpoint', np.all(r <= 1 + 1e-12) and np.all(r >= 0), 'dew point below the temperature gives more than saturation', **ctx)
        mon.close('dewpoint', [float(u.dewpoint2rh(float(x), float(y), **kw)) for x, y in zip(td, tc)], r, 1e-12, **ctx)
        wet = u.dewpoint2rh(td + .3, tc, **kw)
        mon.check('dewpoint', np.all(wet > r), 'humidity does not rise with the dew point', **ctx)
        if not kw.get('ice'):
            warm = td > -40
            mon.close('dewpoint-physical', r[warm], (ref.eswat(td + 273.15) / ref.eswat(tc + 273.15))[warm], .06, **ctx)
    # scalars agree with arrays
    k = int(rng.integers(len(t)))
    for name, v, s in (('e2mr', u.e2mr(p, e), u.e2mr(p[k], e[k])), ('mr2e', u.mr2e(p, w), u.mr2e(p[k], w[k])),
                       ('mr2rho', u.mr2rho(w, t, p), u.mr2rho(w[k], t[k], p[k])), ('rho2mr', u.rho2mr(rho, t, p), u.rho2mr(rho[k], t[k], p[k])),
                       ('satvap', u.satvap(t), u.satvap(t[k])), ('satmix', u.satmix(p, t), u.satmix(p[k], t[k]))):
        mon.close('scalar', float(s), float(v[k]), 1e-12, 1e-300, what=name, **ctx)
    mon.state(case['kind'], 'dry' if not e.any() else 'moist', 'cold' if (t < 233).any() else 'warm')
    mon.sample = dict(kind=case['kind'], p=p[:3], t=t[:3], e=e[:3], rh=rh1[:3])
