"""C07 ozone absorption follows the selected published model."""
import numpy as np
from vlib import ref, gen, repo, scen
from vlib.core import subseed

PROPERTY = 'C07'
RULE = ('one case = one ozone model x 10 frequencies (on, near, at the 1 GHz selection edge of and between ozone lines) x '
        '14 levels from the surface to the mesosphere incl. levels without ozone; plus whole simulations with and without ozone; '
        'oracle = independent implementation with pinned line tables, linearity in the number density.')
REQUIRE = {'absorption': 200, 'in-dry': 200, 'no-ozone': 100, 'simulated': 40, 'with-lines': 100, 'without-lines': 5, 'off': 30}


def cases(tier, seed):
    n = 25 if tier == 'quick' else 400
    out = [dict(seed=subseed('C07', seed, m, i), model=m) for i in range(n) for m in ref.O3_MODELS]
    out += [dict(c, run=True) for c in scen.mkcases('C07r', tier, seed, 105, 1500)]
    return out


def freqs(rng, L, n):
    out = []
    for k in range(n):
        f = float(L['fl'][rng.integers(len(L['fl']))])
        c = k % 4
        out.append(f + rng.normal() * 10 ** rng.uniform(-6, -1) if c == 0 else f + rng.choice([-1, 1]) * (1 + rng.choice([-1e-6, 1e-6, .02, -.02]))
                   if c == 1 else gen.freq(rng) if c == 2 else f + rng.uniform(-2, 2))
    return np.clip(out, 1., 999.)


def evaluate(case, mon):
    rng = np.random.default_rng(case['seed'])
    if case.get('run'):
        s = scen.make(case['seed'], case['kind'], cloud=False, ozone=True, rt=False, na=1)
        p, m = s['prof'], s['models']
        L = ref.o3_lines(m['o3'])
        s['frq'][0] = L['fl'][rng.integers(len(L['fl']))] + rng.normal() * .01
        R = scen.run(s)
        R0 = scen.run(s, o3n=None)
        Rz = scen.run(s, o3n=np.zeros(len(p['z'])))
        e, _ = ref.vapor(p['t'], p['rh'])
        up = slice(None)
        for j, f in enumerate(s['frq']):
            want = ref.dry_abs(m['o2'], m['n2'], m['o3'], p['p'], p['t'], e, f, s['o3n'])
            ctx = dict(model=m, f=float(f))
            at = 1e-13 * np.abs(want).max()
            mon.close('simulated', R['adry'][j, 0][up], want, 1e-7, at, **ctx)
            mon.close('off', R0['adry'][j, 0], ref.dry_abs(m['o2'], m['n2'], '', p['p'], p['t'], e, f), 1e-7, at, **ctx)
            mon.close('zero-ozone', Rz['adry'][j, 0], R0['adry'][j, 0], 1e-12, **ctx)
            mon.identical('wet-untouched', R['awet'][j], R0['awet'][j], **ctx)
        mon.state('run', m['o3'], p['kind'], s['orient'])
        return
    m = case['model']
    L = ref.o3_lines(m)
    n = 14
    t = rng.uniform(180, 300, n)
    p = 10 ** rng.uniform(-4 if rng.random() < .4 else -2, 3, n)
    o3n = 10 ** rng.uniform(15, 19, n)
    o3n[rng.integers(0, n, 2)] = 0.
    e = .001 * p
    h, o, nn = str(rng.choice(ref.H2O_MODELS)), str(rng.choice(ref.O2_MODELS)), str(rng.choice(ref.N2_MODELS))
    repo.select(h2o=h, o2=o, n2=nn, o3=m)
    for f in freqs(rng, L, 10):
        want = ref.o3_abs(m, t, p, f, o3n)
        ctx = dict(model=m, f=float(f), t=t, p=p, o3n=o3n)
        with repo.quiet():
            one = np.array([repo.O3AbsModel().o3_absorption(t[i], p[i], float(f), o3n[i]) for i in range(n)], dtype=float)
            two = np.array([repo.O3AbsModel().o3_absorption(t[i], p[i], float(f), 2.5 * o3n[i]) for i in range(n)], dtype=float)
            _, dry = repo.RTEquation.clearsky_absorption(p.copy(), t.copy(), e.copy(), float(f), o3n.copy())
            _, dry0 = repo.RTEquation.clearsky_absorption(p.copy(), t.copy(), e.copy(), float(f), None)
        mon.close('absorption', one, want, 1e-8, 1e-300, **ctx)
        mon.close('linear', two, 2.5 * one, 1e-12, **ctx)
        mon.close('in-dry', dry - dry0, want, 1e-6, 1e-11 * np.abs(dry0), **ctx)
        mon.check('no-ozone', np.all(one[o3n == 0] == 0), 'absorption without ozone', **ctx)
        mon.check('sign', (one >= 0).all(), 'negative', **ctx)
        k = int(((L['fl'] >= f - 1) & (L['fl'] <= f + 1)).sum())
        mon.count('with-lines' if k else 'without-lines')
        mon.state(m, min(k, 6))
    mon.sample = dict(model=m, t=t[:3], p=p[:3], o3n=o3n[:3])
