"""C02 thermodynamic consistency of the simulated temperatures."""
import numpy as np
from vlib import ref, scen, repo, gen

PROPERTY = 'C02'
RULE = ('for random scenarios the simulated temperatures are checked against laws that need no model of the gas: isothermal '
        'equilibrium, bounds by the coldest/warmest emitter, tbatm<=tbtotal, linearity of radiance in emissivity, monotone '
        'warming of an isothermal sky with falling elevation, opaque limit, Planck function / brightness temperature inverse.')
REQUIRE = {'isothermal-sat': 10, 'isothermal-tmr': 10, 'bounds-tmr': 50, 'bounds-tb': 50, 'emissivity-linear': 20,
           'planck-inverse': 20, 'sky-monotone': 10}


def cases(tier, seed):
    a = scen.mkcases('C02', tier, seed, 300, 3000)
    b = scen.mkcases('C02i', tier, seed, 120, 1200, ['isothermal'])
    c = [dict(seed=x['seed'], kind='planck') for x in scen.mkcases('C02p', tier, seed, 16, 200)]
    return a + b + c


def planck(case, mon):
    rng = np.random.default_rng(case['seed'])
    for _ in range(60):
        f = float(10 ** rng.uniform(0, 3))
        T = float(rng.choice([2.728, rng.uniform(2, 50), rng.uniform(50, 350)]))
        hvk = f * 1e9 * repo.utils.constants('planck')[0] / repo.utils.constants('boltzmann')[0]
        mon.close('hvk-constants', hvk, ref.hvk(f), 1e-12)
        b = repo.utils.tk2b_mod(hvk, T)
        if not mon.check('planck-value', b > 0, 'no radiation from a body of %g K at %g GHz' % (T, f)):
            continue
        mon.close('planck-value', b, ref.planck_b(f, T), 1e-10, f=f, T=T)
        mon.close('planck-inverse', repo.RTEquation.bright(hvk, b), T, 1e-8, f=f, T=T)
        b2 = 10 ** rng.uniform(-6, 4)
        mon.close('planck-inverse', repo.utils.tk2b_mod(hvk, repo.RTEquation.bright(hvk, b2)), b2, 1e-8, f=f, b=b2)
    f = float(10 ** rng.uniform(0, 3))
    cold = np.array([2.728, 4., 30., 80., 170., 400.])
    mon.close('planck-value', repo.utils.tk2b_mod(ref.hvk(f), cold), ref.planck_b(f, cold), 1e-10, f=f)
    arr = rng.uniform(150, 330, 9)
    mon.close('planck-value', repo.utils.tk2b_mod(ref.hvk(60.), arr), ref.planck_b(60., arr), 1e-10)
    mon.check('bright-zero', repo.RTEquation.bright(1.0, 0.) == 0, 'brightness temperature of no radiation')


def evaluate(case, mon):
    if case['kind'] == 'planck':
        return planck(case, mon)
    s = scen.make(case['seed'], case['kind'])
    if scen.ducts(s):
        s['rt'] = False
    t = s['prof']['t']
    T0 = float(t[0])
    iso = case['kind'] == 'isothermal'
    f = s['frq']
    R1 = scen.run(s, emis=1.0)
    lays = R1['taulaywet'] + R1['taulaydry'] + R1['taulayliq'] + R1['taulayice']
    ok = (lays >= 0).all(axis=2) & (lays.sum(axis=2) > 1e-11)      # R98 may give (documented) negative O2 absorption
    tot = lays.sum(axis=2)
    slack = 1e-7 + 1e-11 / np.maximum(tot, 1e-12)
    side = 'sat' if s['sat'] else 'ground'
    lo, hi = float(t.min()), float(t.max())
    for j in range(len(f)):
        for k in range(len(s['ang'])):
            if not ok[j, k]:
                mon.count('skipped: negative or no opacity')
                continue
            tb, ta, tm = R1['tbtotal'][j, k], R1['tbatm'][j, k], R1['tmr'][j, k]
            ctx = dict(f=float(f[j]), ang=float(s['ang'][k]), side=side, tau=float(tot[j, k]))
            mon.check('finite', np.isfinite([tb, ta, tm]).all(), 'not finite: %r' % [tb, ta, tm], **ctx)
            mon.check('bounds-tmr', lo - slack[j, k] <= tm <= hi + slack[j, k],
                      'tmr %r outside [%r,%r]' % (tm, lo, hi), **ctx)
            low = lo if s['sat'] else min(lo, 2.728)
            mon.check('bounds-tb', low - 1e-7 <= tb <= hi + 1e-7, 'tb %r outside [%r,%r]' % (tb, low, hi), **ctx)
            mon.check('atm<=total', 0 <= ta <= tb + 1e-9, 'tbatm %r > tbtotal %r' % (ta, tb), **ctx)
            if iso:
                mon.close('isothermal-tmr', tm, T0, 0, slack[j, k], **ctx)
                if s['sat']:
                    mon.close('isothermal-sat', tb, T0, 0, 1e-7, **ctx)
                else:
                    b = ref.planck_b(f[j], T0) * -np.expm1(-tot[j, k]) + ref.planck_b(f[j], 2.728) * np.exp(-tot[j, k])
                    mon.close('isothermal-ground', tb, ref.bright(f[j], b), 0, 1e-6, **ctx)
            if tot[j, k] > ref.EXPMAX:
                mon.close('opaque-limit', ta, tb, 1e-9, **ctx)
                mon.count('opaque')
            mon.state(side, case['kind'], int(np.clip(np.log10(tot[j, k]), -6, 4)))
    # emissivity: radiance is linear and increasing in emissivity (satellite), irrelevant (ground)
    e1 = np.round(s['rng'].uniform(0, 1, len(f)), 3)
    R0, Re = scen.run(s, emis=0.0), scen.run(s, emis=e1)
    for j in range(len(f)):
        B0, B1, Be = (ref.planck_b(f[j], np.maximum(x['tbtotal'][j], 1e-3)) for x in (R0, R1, Re))
        if s['sat']:
            mon.close('emissivity-linear', Be, B0 + e1[j] * (B1 - B0), 1e-9, 1e-12, f=float(f[j]))
            mon.close('emissivity-zero', R0['tbtotal'][j], R0['tbatm'][j], 1e-9, f=float(f[j]))
            mon.check('emissivity-monotone', np.all(R0['tbtotal'][j] <= Re['tbtotal'][j] + 1e-9) and
                      np.all(Re['tbtotal'][j] <= R1['tbtotal'][j] + 1e-9), 'tb not monotone in emissivity')
        else:
            mon.close('emissivity-ground', Re['tbtotal'][j], R1['tbtotal'][j], 1e-12)
            mon.close('emissivity-ground', R0['tbtotal'][j], R1['tbtotal'][j], 1e-12)
        mon.close('tbatm-no-surface', Re['tbatm'][j], R1['tbatm'][j], 1e-12)
    if iso and not s['sat'] and not s['rt']:
        ang = np.array([90., 60., 40., 25., 15., 8.])
        Rm = scen.run(s, angles=ang)
        for j in range(len(f)):
            if ok[j].all():
                mon.check('sky-monotone', np.all(np.diff(Rm['tbtotal'][j]) >= -1e-9),
                          'isothermal sky not warmer at lower elevation: %s' % Rm['tbtotal'][j])
    mon.sample = dict(scen.describe(s), tb=R1['tbtotal'].tolist(), tau=tot.tolist())
