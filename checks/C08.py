"""C08 cloud liquid and ice absorption."""
import numpy as np
from vlib import ref, gen, repo, scen
from vlib.core import subseed

PROPERTY = 'C08'
RULE = ('one case = one liquid water model x frequencies x temperatures (supercooled to hot) x densities incl. zero, point by point, '
        'as profile, and through whole cloudy simulations (opacity back out of the layer opacities); oracle = independent '
        'implementation of the permittivity models and of the ice formula; linearity in density.')
REQUIRE = {'liquid': 300, 'permittivity': 100, 'profile-liquid': 200, 'profile-ice': 200, 'simulated': 40, 'no-water': 100}


def cases(tier, seed):
    n = 14 if tier == 'quick' else 200
    out = [dict(seed=subseed('C08', seed, m, i), model=m) for i in range(n) for m in ref.LIQ_MODELS]
    out += [dict(c, run=True) for c in scen.mkcases('C08r', tier, seed, 150, 1800)]
    return out


def evaluate(case, mon):
    rng = np.random.default_rng(case['seed'])
    if case.get('run'):
        s = scen.make(case['seed'], case['kind'], cloud=True, ozone=False, rt=False, na=2)
        R = scen.run(s)
        p, c = s['prof'], s['cloud']
        for k, a in enumerate(s['ang']):
            ds = ref.slant(p['z'] - p['z'][0], a)
            at = 2e-9 * np.abs(ds) + 1e-18
            for j, f in enumerate(s['frq']):
                ctx = dict(model=s['models']['liq'], f=float(f), angle=float(a))
                mon.close('simulated', R['taulayliq'][j, k],
                          ref.layer_integral(ref.liq_abs(s['models']['liq'], c['liq'], f, p['t']), ds, False), 1e-7, at, **ctx)
                mon.close('simulated-ice', R['taulayice'][j, k], ref.layer_integral(ref.ice_abs(c['ice'], f), ds, False), 1e-7, at, **ctx)
        mon.state('run', s['models']['liq'], p['kind'], s['orient'])
        return
    m = case['model']
    n = 12
    t = rng.uniform(212, 330, n)
    t[0] = 273.15
    w = 10 ** rng.uniform(-4, .7, n)
    w[rng.integers(0, n, 2)] = 0.
    d = np.where(rng.random(n) < .3, 0., 10 ** rng.uniform(-4, .3, n))
    repo.select(h2o=str(rng.choice(ref.H2O_MODELS)), o2=str(rng.choice(ref.O2_MODELS)), n2=str(rng.choice(ref.N2_MODELS)), liq=m,
                load=False)
    for f in np.append(gen.freqs(rng, 7), [rng.uniform(1, 12), rng.uniform(200, 999)]):
        want = ref.liq_abs(m, w, f, t)
        ctx = dict(model=m, f=float(f), t=t, w=w, d=d)
        with repo.quiet():
            one = np.array([repo.LiqAbsModel.liquid_water_absorption(w[i], float(f), t[i]) for i in range(n)], dtype=float)
            two = np.array([repo.LiqAbsModel.liquid_water_absorption(3. * w[i], float(f), t[i]) for i in range(n)], dtype=float)
            al, ai = repo.RTEquation.cloudy_absorption(t.copy(), w.copy(), d.copy(), float(f))
            eps = np.array([repo.utils.dilec12(float(f), x) for x in t])
        mon.close('liquid', one, want, 1e-8, **ctx)
        mon.close('linear', two, 3. * one, 1e-12, **ctx)
        mon.close('profile-liquid', al, want, 1e-8, **ctx)
        mon.close('profile-ice', ai, ref.ice_abs(d, f), 1e-10, **ctx)
        mon.check('no-water', np.all(one[w == 0] == 0) and np.all(al[w == 0] == 0) and np.all(ai[d == 0] == 0), 'absorption without water', **ctx)
        mon.check('sign', np.all(one[w > 0] > 0), 'not positive', **ctx)
        e = ref.dilec(f, t)
        mon.close('permittivity', eps.real, e.real, 1e-8, 1e-9, **ctx)
        mon.close('permittivity', eps.imag, e.imag, 1e-8, 1e-9, **ctx)
        # passive medium, static limit above optical limit
        mon.check('passive', np.all(eps.imag < 0) and np.all(eps.real > 1.), 'permittivity not that of a passive medium', **ctx)
        mon.state(m, int(np.log2(f)))
    mon.sample = dict(model=m, t=t[:3], w=w[:3], d=d[:3])
