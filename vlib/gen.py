"""Workload generators: atmospheres, frequencies, models, clouds (all seeded)."""
import numpy as np
from . import ref

KINDS = ['std', 'tropical', 'polar', 'isothermal', 'inversion', 'dry', 'drytop', 'saturated',
         'coarse', 'dense', 'high', 'noisy', 'deep', 'shallow', 'twolevel']


def profile(rng, kind=None, nl=None):
    """a physically consistent (hydrostatic) but possibly hostile atmosphere."""
    kind = kind or KINDS[rng.integers(len(KINDS))]
    z0 = {'high': rng.uniform(2., 5.)}.get(kind, rng.choice([0., 0., rng.uniform(0., 1.5), rng.uniform(-.4, 0.)]))
    top = {'coarse': rng.uniform(8, 40), 'shallow': rng.uniform(1.5, 10), 'twolevel': rng.uniform(.5, 20)}.get(
        kind, rng.uniform(28, 85))
    if nl is None:
        nl = {'coarse': int(rng.integers(3, 9)), 'dense': int(rng.integers(60, 110)), 'twolevel': 2}.get(
            kind, int(rng.integers(12, 46)))
    u = np.sort(rng.uniform(0, 1, max(nl - 2, 0)))
    style = rng.integers(3)
    x = np.concatenate(([0.], u, [1.])) if style == 0 else np.linspace(0, 1, nl)
    if style == 2:
        x = x ** 1.7
    z = z0 + (top - z0) * x
    z = np.round(z, 6)
    for i in range(1, len(z)):          # strictly increasing
        if z[i] <= z[i - 1] + 1e-4:
            z[i] = np.round(z[i - 1] + 1e-3, 6)
    ts = {'tropical': 303., 'polar': 250., 'deep': 310.}.get(kind, rng.uniform(255, 305))
    trop = {'tropical': 16.5, 'polar': 8.5}.get(kind, rng.uniform(9, 15))
    lapse = rng.uniform(5.5, 7.)
    t = np.where(z < trop, ts - lapse * (z - z0),
                 np.where(z < 20, ts - lapse * (trop - z0),
                          np.where(z < 50, ts - lapse * (trop - z0) + 1.8 * (z - 20),
                                   ts - lapse * (trop - z0) + 54 - 2.4 * (z - 50))))
    t = np.clip(t, 165., 330.)
    if kind == 'isothermal':
        t = np.full(len(z), rng.uniform(190, 310))
    elif kind == 'inversion':
        t = t + np.where(z < z0 + 1.5, 9. * (z - z0), 13.5 - 9. * np.clip(z - z0 - 1.5, 0, 1.5))
    elif kind == 'noisy':
        t = t + rng.normal(0, 12., len(z))
    t = np.clip(t, 160., 335.)
    ps = rng.uniform(960, 1060) * np.exp(-z0 / 8.)
    if kind == 'deep':
        ps = 1085.
    tm = .5 * (t[1:] + t[:-1])
    p = ps * np.exp(-np.concatenate(([0.], np.cumsum(np.diff(z) * 34.163 / tm))))
    base = rng.uniform(.3, .95)
    rh = base * np.exp(-np.clip(z - z0, 0, None) / rng.uniform(2, 9)) * rng.uniform(.7, 1.25, len(z))
    if kind == 'dry':
        rh = np.zeros(len(z))
    elif kind == 'drytop':
        rh = np.where(z > rng.uniform(2, 12), 0., rh)
    elif kind == 'saturated' or kind == 'deep':
        rh = np.where(z < rng.uniform(3, 14), rng.uniform(.98, 1.06), rh)
    elif kind == 'noisy' and len(z) > 3:
        rh[rng.integers(0, len(z), max(1, len(z) // 6))] = 0.
    e = rh * ref.eswat(t)
    rh = np.where(e > .3 * p, .3 * p / ref.eswat(t), rh)
    return dict(kind=kind, z=z, p=p, t=t, rh=rh)


H2O_CENTRES = [22.235, 183.310, 325.153, 380.197, 448.001, 556.936, 620.7, 752.033, 916.17, 987.93]
O2_CENTRES = [50.47, 51.50, 52.54, 53.5957, 54.67118, 55.2214, 56.2648, 56.9682, 58.3239, 59.1642, 60.4348, 61.1506,
              62.4862, 63.5685, 118.7503, 368.498, 424.763, 487.249, 715.393, 773.84, 834.146]
O3_CENTRES = [101.73687, 110.83604, 124.08738, 142.175, 195.430, 237.146, 325.5, 364.43, 448.3, 488.0, 660.0]
WINDOWS = [1.4, 6.9, 10.65, 18.7, 23.8, 31.4, 36.5, 89., 150., 165.5, 220., 243.2, 340., 410., 664., 874.]


def freq(rng):
    k = rng.integers(8)
    if k == 0:
        f = rng.uniform(1., 999.)
    elif k == 1:
        f = rng.choice(H2O_CENTRES) + rng.normal() * 10 ** rng.uniform(-5, .7)
    elif k == 2:
        f = rng.choice(O2_CENTRES) + rng.normal() * 10 ** rng.uniform(-6, 0.)
    elif k == 3:
        f = rng.choice(O3_CENTRES) + rng.normal() * 10 ** rng.uniform(-5, .3)
    elif k == 4:
        f = rng.choice(WINDOWS)
    elif k == 5:
        f = rng.uniform(49., 71.)
    elif k == 6:
        f = rng.uniform(15., 200.)
    else:
        f = rng.choice([22.24, 53.86, 60., 118.75, 183.31])
    return float(np.clip(f, 1., 999.))


def freqs(rng, n):
    return np.array([freq(rng) for _ in range(n)])


def angles(rng, n, lo=5.):
    out = []
    for _ in range(n):
        k = rng.integers(4)
        out.append(90. if k == 0 else float(rng.uniform(lo, 90.)) if k == 1 else float(rng.choice([42., 30., 19.2, 10.2, 60.]))
                   if k == 2 else float(rng.uniform(lo, 25.)))
    return np.array(out)


def o3_profile(rng, z, p, t):
    """ozone number density (molecules/m3), some levels zero."""
    ppmv = 8. * np.exp(-((z - 33.) / 12.) ** 2) + .03 * rng.uniform(.5, 1.5, len(z))
    n = ppmv * 1e-6 * p * 100. / (ref.C['boltzmann'] * t)
    if rng.random() < .3:
        n[rng.integers(0, len(z), 2)] = 0.
    return n


def models(rng, liq=False):
    m = dict(h2o=str(rng.choice(ref.H2O_MODELS)), o2=str(rng.choice(ref.O2_MODELS)),
             n2=[None] + ref.N2_MODELS, o3='')
    m['n2'] = m['n2'][rng.integers(len(m['n2']))]
    m['liq'] = str(rng.choice(ref.LIQ_MODELS))
    return m


def same_models(rng, liq=False):
    pool = [m for m in ref.COMMON_MODELS if not liq or m in ref.LIQ_MODELS]
    k = str(rng.choice(pool))
    return dict(h2o=k, o2=k, n2=k, liq=k, o3='')


def cloud(rng, prof, n=None):
    """cloud bases/tops on profile levels, liquid and ice densities (g/m3)."""
    z, t = prof['z'], prof['t']
    nl = len(z)
    n = n or int(rng.integers(1, 4))
    n = max(1, min(n, (nl - 1) // 2))
    cand = np.nonzero(z < z[0] + 16)[0]
    if len(cand) < 2:
        cand = np.arange(nl)
    lev = np.sort(rng.choice(cand, size=min(2 * n, len(cand) // 2 * 2), replace=False))
    n = len(lev) // 2
    base, top = lev[0::2][:n].copy(), lev[1::2][:n].copy()
    if n > 1 and rng.random() < .35:               # clouds in contact
        k = int(rng.integers(1, n))
        base[k] = top[k - 1]
    elif n > 1 and rng.random() < .6:              # overlapping clouds
        k = int(rng.integers(1, n))
        base[k] = rng.integers(base[k - 1] + 1, max(top[k - 1], base[k - 1] + 2))
    den_l, den_i = np.zeros(nl), np.zeros(nl)
    for b, tp in zip(base, top):
        k = np.arange(b, tp + 1)
        den_l[k] = rng.uniform(.01, 1.5, len(k)) * rng.choice([1., 1., .1])
        den_i[k] = np.where(t[k] < 273.15, rng.uniform(0., .5, len(k)), 0.)
        if rng.random() < .3:
            den_l[b] = 0.
        if rng.random() < .3:
            den_i[k] = 0.
    den_l = np.where(t < 233., 0., den_l)
    if n > 1 and rng.random() < .4:                # in any order
        k = rng.permutation(n)
        base, top = base[k], top[k]
    return dict(cldh=np.array([z[base], z[top]]), liq=den_l, ice=den_i, base=base, top=top)
