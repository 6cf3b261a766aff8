"""C06 oxygen and nitrogen absorption follow the selected published models."""
import numpy as np
from vlib import ref, gen, repo, scen
from vlib.core import subseed
from checks.C05 import states

PROPERTY = 'C06'
RULE = ('one case = one oxygen model x nitrogen models x ~10 frequencies (each side of every resonance of the 60 GHz band, 118 GHz, '
        'submillimetre lines, windows) x 14 thermodynamic states, point by point and through whole simulations; oracle = '
        'independent implementation with pinned line tables.')
REQUIRE = {'dry': 1500, 'nitrogen': 1500, 'oxygen-split': 400, 'simulated': 50, 'additive': 500}


def cases(tier, seed):
    n = 14 if tier == 'quick' else 170
    out = [dict(seed=subseed('C06', seed, m, i), model=m) for i in range(n) for m in ref.O2_MODELS]
    out += [dict(c, run=True) for c in scen.mkcases('C06r', tier, seed, 120, 1500)]
    return out


def freqs(rng, model, n):
    fl = ref.o2_lines(model)['f']
    out = []
    for k in range(n):
        c = k % 5
        f = float(fl[rng.integers(len(fl))])
        out.append(f + rng.normal() * 10 ** rng.uniform(-5, -1) if c == 0 else f + rng.normal() * .01 if c == 1 else rng.uniform(48, 72)
                   if c == 2 else gen.freq(rng) if c == 3 else 118.7503 + rng.normal() * .5)
    return np.clip(out, .5, 1000.)


def evaluate(case, mon):
    rng = np.random.default_rng(case['seed'])
    if case.get('run'):
        s = scen.make(case['seed'], case['kind'], cloud=False, ozone=False, rt=False, na=1)
        R = scen.run(s)
        p, m = s['prof'], s['models']
        e, _ = ref.vapor(p['t'], p['rh'])
        for j, f in enumerate(s['frq']):
            want = ref.dry_abs(m['o2'], m['n2'], '', p['p'], p['t'], e, f)
            mon.close('simulated', R['adry'][j, 0], want, 1e-7, 1e-13 * np.abs(want).max(), model=m, f=float(f))
        mon.state('run', m['o2'], m['n2'], p['kind'])
        return
    m = case['model']
    n2 = [None] + ref.N2_MODELS
    p, t, e = states(rng, 14)
    e[rng.integers(0, len(e))] = 0.
    fs = freqs(rng, m, 10)
    h2o = str(rng.choice(ref.H2O_MODELS))
    for f in fs:
        nm = n2[rng.integers(len(n2))]
        repo.select(h2o=h2o, o2=m, n2=nm, o3='', load=False)
        if f == fs[0]:
            repo.H2OAbsModel.set_ll()
            repo.O2AbsModel.set_ll()
        o2 = ref.o2_abs(m, p, t, e, f)
        nn = ref.n2_abs(nm, t, p - e, f)
        ctx = dict(o2=m, n2=nm, f=float(f), p=p, t=t, e=e)
        with repo.quiet():
            _, dry = repo.RTEquation.clearsky_absorption(p.copy(), t.copy(), e.copy(), float(f))
            repo.N2AbsModel.model = None
            _, only = repo.RTEquation.clearsky_absorption(p.copy(), t.copy(), e.copy(), float(f))
            repo.N2AbsModel.model = nm
            got = repo.N2AbsModel.n2_absorption(t, p - e, float(f)) if nm else np.zeros(len(t))
        at = 1e-13 * np.abs(o2).max()
        mon.close('dry', dry, o2 + nn, 1e-7, at, **ctx)
        mon.close('oxygen', only, o2, 1e-7, at, **ctx)
        mon.close('nitrogen', got, nn, 1e-9, **ctx)
        mon.close('additive', dry - only, nn, 1e-6, 1e-12 * np.abs(dry), **ctx)
        if m != 'R98':
            mon.check('sign', (dry >= 0).all(), 'negative dry absorption', **ctx)
        for i in range(0, len(t), 4):
            with repo.quiet():
                npp, ncpp = repo.O2AbsModel().o2_absorption(p[i] / 10. - e[i] / 10., 300. / t[i], e[i] / 10., float(f))
            k = .182 * f * ref.LOG10_10
            mon.close('oxygen-split', (npp + ncpp) * k, o2[i], 1e-7, at, **ctx)
        near = np.abs(ref.o2_lines(m)['f'] - f).min()
        mon.state(m, str(nm), 'core' if near < .02 else 'wing' if near < 2 else 'window')
    mon.sample = dict(model=m, f=fs[:3], p=p[:3], t=t[:3], e=e[:3])
