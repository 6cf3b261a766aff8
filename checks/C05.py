"""C05 water vapour absorption follows the selected published model."""
import numpy as np
from vlib import ref, gen, repo, scen
from vlib.core import subseed

PROPERTY = 'C05'
RULE = ('one case = one water vapour model x ~10 frequencies x ~14 thermodynamic states (line centres, wings, cut-off region, '
        'windows; surface to mesosphere; zero vapour), called point by point and through whole simulations; oracle = independent '
        'implementation of the published model with pinned line tables.')
REQUIRE = {'absorption': 1000, 'split-line': 500, 'split-continuum': 500, 'no-vapour': 100, 'simulated': 50, 'core': 100}


def cases(tier, seed):
    n = 12 if tier == 'quick' else 150
    out = [dict(seed=subseed('C05', seed, m, i), model=m) for i in range(n) for m in ref.H2O_MODELS]
    out += [dict(c, run=True) for c in scen.mkcases('C05r', tier, seed, 120, 1500)]
    return out


def states(rng, n):
    """thermodynamic states between the surface and the mesosphere."""
    t = rng.uniform(165, 330, n)
    p = 10 ** rng.uniform(-4 if rng.random() < .4 else -2, 3.035, n)
    p[: n // 2] = rng.uniform(300, 1080, n // 2)
    e = np.minimum(.25 * p, ref.eswat(t) * rng.uniform(0, 1.05, n))
    return p, t, e


def freqs(rng, model, n):
    fl = ref.h2o_lines(model)['fl']
    out = []
    for k in range(n):
        c = k % 5
        f = float(rng.choice(fl))
        out.append(f + rng.normal() * .1 if c == 0 else f if c == 1 else
                   abs(f + rng.choice([-1, 1]) * (750. + rng.normal() * 5)) if c == 2 else gen.freq(rng) if c == 3 else
                   f + rng.normal() * 4.)
    return np.clip(out, .5, 1000.)


def evaluate(case, mon):
    rng = np.random.default_rng(case['seed'])
    if case.get('run'):
        s = scen.make(case['seed'], case['kind'], cloud=False, ozone=False, rt=False, na=1)
        R = scen.run(s)
        p = s['prof']
        e, _ = ref.vapor(p['t'], p['rh'])
        for j, f in enumerate(s['frq']):
            mon.close('simulated', R['awet'][j, 0], ref.h2o_abs(s['models']['h2o'], p['p'], p['t'], e, f), 1e-7, 1e-300,
                      model=s['models'], f=float(f))
            mon.check('simulated-sign', (R['awet'][j, 0] >= 0).all(), 'negative absorption', model=s['models'], f=float(f))
        mon.state('run', s['models']['h2o'], p['kind'])
        return
    m = case['model']
    L = ref.h2o_lines(m)
    # the other components must not matter
    repo.select(h2o=m, o2=str(rng.choice(ref.O2_MODELS)), n2=str(rng.choice(ref.N2_MODELS)), o3='')
    H = repo.H2OAbsModel
    p, t, e = states(rng, 14)
    e[rng.integers(0, len(e))] = 0.
    fs = freqs(rng, m, 10)
    for f in fs:
        want = ref.h2o_abs(m, p, t, e, f)
        with repo.quiet():
            got, _ = repo.RTEquation.clearsky_absorption(p.copy(), t.copy(), e.copy(), float(f))
        ctx = dict(model=m, f=float(f), p=p, t=t, e=e)
        mon.close('absorption', got, want, 1e-7, 1e-300, **ctx)
        zero = e == 0
        mon.check('no-vapour', np.all(got[zero] == 0), 'absorption without vapour', **ctx)
        mon.check('positive', np.all(got[~zero] > 0), 'not positive', **ctx)
        li, co = ref.h2o_abs(m, p, t, e, f, split=True)
        for i in range(0, len(t), 3):
            with repo.quiet():
                npp, ncpp = H().h2o_absorption(p[i] / 10. - e[i] / 10., 300. / t[i], e[i] / 10., float(f))
            k = .182 * f * ref.LOG10_10
            mon.close('split-line', npp * k, li[i], 1e-7, 1e-300, **ctx)
            mon.close('split-continuum', ncpp * k, co[i], 1e-7, 1e-300, **ctx)
        near = np.abs(L['fl'] - f).min()
        if near < .3:
            mon.count('core')
        mon.state(m, 'core' if near < .3 else 'wing' if near < 20 else 'window',
                  'cutoff' if (np.abs(np.abs(L['fl'] - f) - 750) < 20).any() else '')
    mon.sample = dict(model=m, f=fs[:3], p=p[:3], t=t[:3], e=e[:3])
