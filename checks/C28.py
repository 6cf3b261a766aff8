"""C28 every valid input gives finite, meaningful numbers."""
import numpy as np
from vlib import gen, ref, repo, scen
from vlib.core import subseed

PROPERTY = 'C28'
RULE = ('stress cases: physically possible but extreme profiles (mesopause to desert, 3e-4 to 1085 hPa, dry to supersaturated, two to 400 levels, '
        'metre-thin and 40 km thick layers, equal and zero neighbours), 1-1000 GHz on, beside and between lines, all models, clouds, ozone: every '
        'reported number must be finite and possible, with NumPy floating point traps recording where invalid operations occur. Sweep cases: one '
        'input is moved in 41 small steps and no step may jump against its neighbours. Component cases: every absorption, refractivity and conversion '
        'routine along pressure (1e-4 to 1085 hPa), temperature, humidity or frequency; an interval that changes most is halved until it has no '
        'width, and no jump may remain.')
REQUIRE = {'finite': 3000, 'possible': 300, 'no-jump': 1500, 'stress': 200, 'sweep': 60, 'utility': 150, 'wf': 20, 'centre:ozone': 8, 'centre:water': 15,
           'centre:oxygen': 15, 'continuous': 110}
SWEEPS = ['temperature', 'humidity', 'pressure', 'angle', 'frequency', 'liquid', 'emissivity', 'ozone', 'height']

COMPONENT = ['pressure', 'pressure', 'temperature', 'vapour', 'frequency', 'liquid-temperature', 'liquid-temperature', 'liquid-frequency',
             'ozone-temperature', 'ozone-pressure', 'refraction', 'utility', 'planck']


def cases(tier, seed):
    n = 340 if tier == 'quick' else 5000
    m = 100 if tier == 'quick' else 1500
    return [dict(seed=subseed('C28', seed, i), i=i) for i in range(n)] + \
        [dict(seed=subseed('C28s', seed, i), sweep=SWEEPS[i % len(SWEEPS)], i=i) for i in range(m)] + \
        [dict(seed=subseed('C28c', seed, i), component=COMPONENT[i % len(COMPONENT)], i=i) for i in range(156 if tier == 'quick' else 2600)]


def extreme(rng):
    """hostile but possible."""
    k = int(rng.integers(9))
    P = gen.profile(rng, nl=None if k else 2)
    z, p, t, rh = (P[v].copy() for v in 'z p t rh'.split())
    if k == 1:                                   # very thin layers
        z = z[0] + np.cumsum(np.append(0, 10 ** rng.uniform(-3, 0, len(z) - 1)))
        p = p[0] * np.exp(-(z - z[0]) / 7.5)
    elif k == 2:                                 # up to the mesopause
        z = np.sort(np.concatenate(([z[0]], rng.uniform(z[0] + .1, 105., len(z) - 1))))
        z = z[0] + np.maximum.accumulate(z - z[0]) + 1e-3 * np.arange(len(z))
        p = p[0] * np.exp(-(z - z[0]) / 6.8)
        t = np.interp(z, [0, 12, 20, 48, 85, 106], [290, 216, 217, 271, 170, 230])
    elif k == 3:                                 # equal neighbours
        t[:] = np.repeat(t, 2)[:len(t)]
        rh[:] = np.repeat(rh, 2)[:len(rh)]
    elif k == 4:                                 # plateau cold and dry
        t = np.clip(t - 60, 180, 300)
        rh = rh * 10 ** rng.uniform(-8, 0, len(rh))
    elif k == 5:                                 # hot and wet at the ground
        t = np.clip(t + 20, 180, 325)
        rh = np.clip(rh, 0, 1) * np.where(z < z[0] + 12, 1.05, 1)
    elif k == 6:                                 # vapour only somewhere
        rh = np.where(rng.random(len(rh)) < .5, 0., rh)
    elif k == 7:                                 # many levels
        zz = np.linspace(z[0], z[-1], 400)
        p, t, rh = np.exp(np.interp(zz, z, np.log(p))), np.interp(zz, z, t), np.interp(zz, z, rh)
        z = zz
    e = rh * ref.eswat(t)
    rh = np.where(e > .3 * p, .3 * p / ref.eswat(t), rh)
    return dict(kind='x%d' % k, z=z, p=p, t=t, rh=rh)


def scenario(case, rng):
    s = scen.make(case['seed'], None, nf=3, na=2, lo_angle=4., rt=False)
    s['prof'] = extreme(rng)
    if s['o3n'] is not None:
        s['o3n'] = gen.o3_profile(rng, s['prof']['z'], s['prof']['p'], s['prof']['t'])
    if s['cloud'] is not None:
        s['cloud'] = gen.cloud(rng, s['prof']) if len(s['prof']['z']) > 3 else None
    if rng.random() < .3:
        s['frq'][0] = float(rng.choice([1., 1000., 22.23508, 118.750334, 60.306056, 556.935985, 183.310087]))
    if rng.random() < .5:                            # on a tabulated line centre of the models in use
        k = int(rng.integers(3 if s['o3n'] is not None else 2))
        c = (ref.h2o_lines(s['models']['h2o'])['fl'], ref.o2_lines(s['models']['o2'])['f'],
             ref.o3_lines(s['models']['o3'])['fl'] if k == 2 else None)[k]
        c = np.asarray(c)[(np.asarray(c) >= 1) & (np.asarray(c) <= 1000)]
        s['frq'] = rng.choice(c, len(s['frq']))
        s['centre'] = ('water', 'oxygen', 'ozone')[k]
    p = s['prof']
    s['rt'] = bool(rng.random() < .3) and p['z'][0] >= 0
    if scen.ducts(s):
        s['rt'] = False
    return s


def stress(case, mon, rng):
    s = scenario(case, rng)
    p = s['prof']
    traps = []
    with np.errstate(divide='call', invalid='call', over='call', under='ignore', call=lambda kind, flag: traps.append(kind)):
        R = scen.run(s)
    for k in set(traps):
        mon.count('trap:' + k, traps.count(k))
    mon.count('stress')
    if s.get('centre'):
        mon.count('centre:' + s['centre'])
    ctx = dict(kind=p['kind'], models=s['models'], frq=s['frq'].tolist(), ang=s['ang'].tolist(), sat=s['sat'])
    for k, v in R.items():
        v = np.asarray(v, float)
        if k == 'tmrcld' and (s['cloud'] is None or s['sat'] or np.isnan(v).any()):
            continue
        ok = np.isfinite(v).all()
        mon.check('finite', ok, '%s has %d non-finite values (traps: %s)' % (k, (~np.isfinite(v)).sum(), sorted(set(traps))), **ctx)
    dry = (np.asarray(R['adry']) >= 0).all() if 'adry' in R else True
    for k in ('tauwet', 'tauliq', 'tauice', 'awet', 'aliq', 'aice', 'srho', 'sliq', 'sice', 'taulaywet', 'taulayliq', 'taulayice'):
        if k in R:
            mon.check('possible', (np.asarray(R[k]) >= 0).all(), '%s is negative' % k, **ctx)
    hot = max(p['t'].max(), 2.728) + 1e-6
    if dry:
        mon.check('possible', (R['taudry'] >= 0).all(), 'taudry is negative', **ctx)
        for k in ('tbtotal', 'tmr'):
            mon.check('possible', (R[k] > (0 if k == 'tmr' or s['emis'] is None else -1e-9)).all() and (R[k] <= hot).all(),
                      '%s outside %r: %r' % (k, hot, R[k].ravel()[:4]), **ctx)
        mon.check('possible', (R['tbatm'] >= -1e-9).all() and (R['tbatm'] <= hot).all(), 'tbatm %r' % (R['tbatm'].ravel()[:4],), **ctx)
    else:
        mon.count('negative dry absorption')
    mon.state('stress', p['kind'], s['sat'], s['cloud'] is not None, s['o3n'] is not None, s['rt'])
    # weighting functions of the same atmosphere
    if case['i'] % 10 == 0 and p['z'][-1] > 5 and dry:
        from pyrtlib.weighting_functions import WeightingFunctions as W
        with repo.quiet():
            w = W(p['z'] - p['z'][0], p['p'], p['t'], p['rh'])
            w.frequencies = s['frq']
            w.satellite = s['sat']
            m = s['models']['h2o']
            w.model = m if m in ref.COMMON_MODELS else 'R20'
            g = np.asarray(w.generate_wf())
        mon.check('wf', np.isfinite(g).all() and (g > -1e-9).all(), 'weighting function', **ctx)
    # conversions at the same states
    u = repo.utils
    e = p['rh'] * ref.eswat(p['t'])
    mr = 621.97 * e / (p['p'] - e)
    with np.errstate(all='ignore'):
        for name, v in (('mr2rh', u.mr2rh(p['p'], p['t'], mr)[0]), ('mr2rho', u.mr2rho(mr, p['t'], p['p'])), ('mr2e', u.mr2e(p['p'], mr)),
                        ('e2mr', u.e2mr(p['p'], e)), ('satvap', u.satvap(p['t'])), ('eswat', u.eswat_goffgratch(p['t'])),
                        ('esice', u.esice_goffgratch(p['t'])), ('satmix', u.satmix(p['p'], p['t'])[0] if p['p'].min() > 100 else np.zeros(1)),
                        ('virtual', u.virtual_temperature(p['t'], mr / 1e3)), ('thickness', u.atmospheric_tickness(p['p'], p['t'], mr / 1e3)),
                        ('height', u.pressure_to_height(p['p'])), ('density', u.ppmv_to_moleculesm3(np.full(len(e), .1), p['p'] * 100, p['t'])),
                        ('planck', u.tk2b_mod(ref.hvk(float(s['frq'][0])), p['t']))):
            v = np.asarray(v, float)
            mon.check('utility', np.isfinite(v).all() and (name in ('height', 'thickness') or (v >= 0).all()), '%s: %r' % (name, v.ravel()[:3]), **ctx)


def sweep(case, mon, rng):
    what = case['sweep']
    s = scen.make(case['seed'], str(rng.choice(['std', 'tropical', 'polar', 'saturated', 'coarse', 'drytop'])), nf=2, na=1, lo_angle=20., rt=False,
                  cloud=what == 'liquid' or None if what != 'frequency' else False, ozone=what == 'ozone' or False, emis=None)
    p = s['prof']
    p['z'] = p['z'] - min(p['z'][0], 0)
    if what == 'frequency':
        keep = p['z'] < 14
        if keep.sum() < 3:
            keep[:] = True
            s['skip'] = True
        for k in 'z p t rh'.split():
            p[k] = p[k][keep]
    n = 41
    out = {k: [] for k in ('tbtotal', 'tauwet', 'taudry', 'tauliq', 'tauice', 'tmr')}
    a0, f0, z0 = s['ang'].copy(), s['frq'].copy(), p['z'].copy()
    base = {k: p[k].copy() for k in 'p t rh'.split()}
    cl = None if s['cloud'] is None else s['cloud']['liq'].copy()
    o3 = None if s['o3n'] is None else s['o3n'].copy()
    for x in np.linspace(-1, 1, n):
        p['t'] = base['t'] + (4 * x if what == 'temperature' else 0)
        p['rh'] = base['rh'] * (1 + .4 * x if what == 'humidity' else 1)
        p['p'] = base['p'] * (1 + .03 * x if what == 'pressure' else 1)
        s['ang'] = np.clip(a0, 25, 85) + (4.5 * x if what == 'angle' else 0)
        s['frq'] = np.clip(f0, 2, 990) + (.4 * x if what == 'frequency' else 0)
        if what == 'emissivity':
            s['emis'] = .5 + .4 * x
        if cl is not None:
            s['cloud']['liq'] = cl * (1 + .8 * x if what == 'liquid' else 1)
        if o3 is not None:
            s['o3n'] = o3 * (1 + .8 * x if what == 'ozone' else 1)
        p['z'] = z0 * (1 + .02 * x if what == 'height' else 1)
        if s['cloud'] is not None:
            s['cloud']['cldh'] = np.array([p['z'][s['cloud']['base']], p['z'][s['cloud']['top']]])
        R = scen.run(s)
        for k in out:
            out[k].append(R[k][:, 0])
    mon.count('sweep')
    if (np.asarray(R['adry']) < 0).any():
        mon.count('negative dry absorption')
        return
    for k, v in out.items():
        v = np.asarray(v, float)
        d = np.abs(np.diff(v, axis=0))
        tol = 2e-3 if k in ('tbtotal', 'tmr') else 1e-6 + 1e-5 * np.abs(v).max()
        if k == 'tmr' and what in ('humidity', 'liquid'):
            continue
        near = np.max([d[:-4], d[1:-3], d[3:-1], d[4:]], axis=0)
        bad = d[2:-2] > 3 * near + tol
        mon.count('compared:no-jump', bad.size)
        mon.check('no-jump', not bad.any(), '%s jumps by %r (neighbours %r)' % (k, d[2:-2][bad][:1], near[bad][:1]),
                  sweep=what, models=s['models'], kind=p['kind'], frq=s['frq'].tolist(), sat=s['sat'], cloud=cl is not None)
        mon.count('evaluated:no-jump', bad.shape[0])
    mon.state('sweep', what, s['sat'])


def largest_jump(fn, x, top=2):
    """search for a discontinuity of the quantities fn (rows) of one variable: where neighbouring samples differ most against their
    surroundings, the interval is halved towards the larger difference until it has no width; what then remains is a jump."""
    y = np.asarray(fn(x), float)
    worst = (0., 0, x[0])
    for c in range(len(y)):
        a = np.abs(y[c])
        d = np.abs(np.diff(y[c])) / np.maximum(np.maximum(a[1:], a[:-1]), 1e-300)
        q = np.pad(d, 2, mode='edge')
        excess = d - np.max([q[:-4], q[1:-3], q[3:-1], q[4:]], axis=0)
        for i in np.argsort(excess)[-top:]:
            lo, hi = x[i], x[i + 1]
            for _ in range(44):
                mid = .5 * (lo + hi)
                if not lo < mid < hi:
                    break
                u = np.asarray(fn(np.array([lo, mid, hi])), float)[c]
                if abs(u[1] - u[0]) > abs(u[2] - u[1]):
                    hi = mid
                else:
                    lo = mid
            u = np.asarray(fn(np.array([lo, hi])), float)[c]
            j = abs(u[1] - u[0]) / max(abs(u[0]), abs(u[1]), 1e-300)
            if j > worst[0]:
                worst = (j, c, float(lo))
    return y, worst


def component(case, mon, rng):
    what = case['component']
    m = gen.models(rng)
    m['o3'] = str(rng.choice(ref.O3_MODELS))
    u, E = repo.utils, repo.RTEquation
    k = int(rng.integers(4))
    f = float([gen.freq(rng), rng.choice(ref.h2o_lines(m['h2o'])['fl']), rng.choice(ref.o2_lines(m['o2'])['f']),
               rng.choice(ref.o3_lines(m['o3'])['fl'])][k])
    f = float(np.clip(f + rng.choice([0., rng.normal() * .01, rng.normal()]), 1, 1000))
    P, T, Q, O = 10 ** rng.uniform(-4, 3), rng.uniform(170, 320), 10 ** rng.uniform(-8, -1.5), 10 ** rng.uniform(15, 19)
    lnp, tt = np.linspace(np.log(1e-4), np.log(1085), 220), np.linspace(165, 330, 220)

    def clear(p, t, e, o3=None, f=f):
        n = max(np.size(v) for v in (p, t, e))
        full = lambda v: np.broadcast_to(np.asarray(v, float), (n,)).copy()        # noqa: E731
        return np.array(E.clearsky_absorption(full(p), full(t), full(e), f, None if o3 is None else full(o3)))

    def cloud(t, f=f):
        return np.array(E.cloudy_absorption(t, np.full(len(t), .3), np.full(len(t), .1), f))
    if what == 'pressure':
        fn, x = lambda v: clear(np.exp(v), T, Q * np.exp(v)), lnp
    elif what == 'temperature':
        fn, x = lambda v: clear(P, v, Q * P), tt
    elif what == 'vapour':
        fn, x = lambda v: clear(P, T, np.exp(v) * P), np.linspace(np.log(1e-10), np.log(.25), 220)
    elif what == 'frequency':
        w = float(rng.choice([1000, 50, 2]))
        fn, x = lambda v: np.hstack([clear(P, T, Q * P, f=float(g)) for g in v]), np.linspace(max(1., f - w), min(1000., f + w), 220)
    elif what == 'liquid-temperature':        # the permittivity fit has no meaning below about 210 K
        fn, x = cloud, np.linspace(220, 330, 220)
    elif what == 'liquid-frequency':
        T = max(T, 225.)
        fn, x = lambda v: np.hstack([cloud(np.array([T]), float(g)) for g in v]), np.linspace(1, 1000, 220)
    elif what == 'ozone-temperature':
        fn, x = lambda v: clear(P, v, 0., O), tt
    elif what == 'ozone-pressure':
        fn, x = lambda v: clear(np.exp(v), T, 0., O), lnp
    elif what == 'refraction':
        i = int(rng.integers(3))
        a = [lambda v: (np.exp(v), np.full(len(v), T), Q * np.exp(v)), lambda v: (np.full(len(v), P), v, np.full(len(v), Q * P)),
             lambda v: (np.full(len(v), P), np.full(len(v), T), np.exp(v) * P)][i]
        fn, x = lambda v: np.array(E.refractivity(*a(v))), [lnp, tt, np.linspace(np.log(1e-10), np.log(.25), 220)][i]
    elif what == 'planck':
        fn, x = lambda v: np.array([u.tk2b_mod(ref.hvk(f), v), [E.bright(ref.hvk(f), float(b) / 100) for b in v]]), np.linspace(2.5, 335, 220)
    else:
        i = int(rng.integers(5))
        mr = 10 ** rng.uniform(-3, 1.5)
        p0 = 10 ** rng.uniform(2.3, 3)
        fn, x = [(lambda v: np.array([u.eswat_goffgratch(v), u.esice_goffgratch(v), u.satvap(v)]), tt),
                 (lambda v: np.array([u.mr2e(np.exp(v), mr), u.e2mr(np.exp(v), .003 * np.exp(v)), u.pressure_to_height(np.exp(v))]), lnp),
                 (lambda v: np.array([u.virtual_temperature(v, mr / 1e3), u.kgkg_to_kgm3(mr / 1e3, p0, v),
                                      u.ppmv_to_moleculesm3(np.full(len(v), .1), p0 * 100, v)]), tt),
                 (lambda v: np.array([u.mr2rho(np.exp(v), T, p0), u.mr2e(p0, np.exp(v)), u.rho2mr(np.exp(v), T, p0), u.rho2rh(np.exp(v), T, p0)[0]]),
                  np.linspace(np.log(1e-5), np.log(30), 220)),
                 (lambda v: np.array([u.height_to_pressure(v), u.height_to_pressure(v / 2)]), np.linspace(-400, 40000, 220))][i]
    with repo.quiet(), np.errstate(all='ignore'):
        repo.select(m['h2o'], m['o2'], m['n2'], m['liq'], m['o3'])
        y, (j, c, at) = largest_jump(fn, x)
    ctx = dict(what=what, models=m, f=f, P=P, T=T, Q=Q)
    mon.check('component', np.isfinite(y).all(), 'not finite', **ctx)
    mon.count('compared:continuous', y.size)
    mon.check('continuous', j < 1e-4, 'quantity %d jumps by %.3g of its value at %r' % (c, j, at), **ctx)
    mon.state('component', what, m['h2o'] if what in ('pressure', 'temperature', 'vapour', 'frequency') else m['liq'] if 'liquid' in what else '')


def evaluate(case, mon):
    rng = np.random.default_rng(case['seed'] + 1)
    if 'component' in case:
        return component(case, mon, rng)
    if 'sweep' in case:
        return sweep(case, mon, rng)
    stress(case, mon, rng)
