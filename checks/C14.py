"""C14 clouds act where they are, and only there."""
import numpy as np
from vlib import ref, gen, repo, scen

PROPERTY = 'C14'
RULE = ('random cloudy scenarios (1-3 clouds, liquid/ice/mixed, empty edges, both orientations and directions) against the reference '
        'model; zero-density clouds must equal the clear sky; cloudless flag ignores clouds; opacity only between base and top; '
        'adding liquid only adds opacity; cloud columns and the radiating temperature of the lowest cloud.')
REQUIRE = {'columns': 80, 'tmrcld': 40, 'empty-cloud': 60, 'flag-off': 40, 'inside-only': 80, 'more-liquid': 40, 'multi': 20, 'mixed-phase': 40, 'own-phase': 400, 'opacity': 200, 'switched': 4000, 'clouds in contact': 15, 'between-levels': 1500, 'overlapping clouds': 15, 'lowest cloud not the first': 15}


def cases(tier, seed):
    return scen.mkcases('C14', tier, seed, 300, 4000)


def evaluate(case, mon):
    s = scen.make(case['seed'], case['kind'], cloud=True, nf=2, na=2)
    rng = s['rng']
    if scen.ducts(s):
        s['rt'] = False
    p, c = s['prof'], s['cloud']
    nl = len(p['z'])
    R = scen.run(s)
    Q = scen.reference(s)
    ctx = dict(kind=p['kind'], orient=s['orient'], rt=s['rt'], sat=s['sat'])
    for key in ('sliq', 'sice'):
        mon.close('columns', R[key], Q[key], 1e-6, 1e-15, key=key, **ctx)
    # column: independent trapezoid over each cloud from base to top, in cm of water
    for k in range(len(s['ang'])):
        for key, den in (('sliq', c['liq']), ('sice', c['ice'])):
            tot = sum(.5 * (den[i - 1] + den[i]) * Q['ds'][k][i] for i in ref.cloud_layers(c['base'], c['top']))
            mon.close('columns', R[key][0, k], .1 * tot, 1e-6, 1e-15, key=key, **ctx)
    if len(c['base']) > 1:
        mon.count('multi')
    # opacity only between a base and a top
    inside = np.zeros(nl, bool)
    for b, tp in zip(c['base'], c['top']):
        inside[b:tp + 2] = True
    for key in ('taulayliq', 'taulayice'):
        mon.check('inside-only', np.all(R[key][:, :, ~inside] == 0), 'cloud opacity outside the cloud', key=key, **ctx)
    # the opacity of each phase is that of its own density, whatever the other phase does
    for key in ('taulayliq', 'taulayice'):
        for k in range(len(s['ang'])):
            mon.close('opacity', R[key][:, k], Q[key][:, k], 1e-7, 2e-9 * np.abs(Q['ds'][k]) + 1e-18, key=key, **ctx)
    k = scen.inputs(s)
    zl = np.zeros(nl)
    if ((c['liq'] > 0) & (c['ice'] > 0)).any():
        mon.count('evaluated:mixed-phase')
    onlyice = scen.run(s, cloud=(k['cloud'][0], k['cloud'][1], zl))
    onlyliq = scen.run(s, cloud=(k['cloud'][0], zl, k['cloud'][2]))
    for key in ('tauliq', 'taulayliq', 'sliq'):
        mon.close('own-phase', onlyliq[key], R[key], 1e-12, 1e-300, key=key, **ctx)
        mon.check('own-phase', np.all(onlyice[key] == 0), 'liquid opacity without liquid', key=key, **ctx)
    for key in ('tauice', 'taulayice', 'sice'):
        mon.close('own-phase', onlyice[key], R[key], 1e-12, 1e-300, key=key, **ctx)
        mon.check('own-phase', np.all(onlyliq[key] == 0), 'ice opacity without ice', key=key, **ctx)
    # radiating temperature of the lowest cloud
    low = int(np.argmin(c['base']))
    if low:
        mon.count('lowest cloud not the first')
    b, tp = int(c['base'][low]), int(c['top'][low])
    for j, f in enumerate(s['frq']):
        for k in range(len(s['ang'])):
            lay = sum(R[q][j, k] for q in ('taulaywet', 'taulaydry', 'taulayliq', 'taulayice'))
            q = ref.rte(f, p['t'], lay, s['sat'], 1.)
            cum = q['cum']
            tc = abs(cum[tp] - cum[b])
            ent = cum[tp] if s['sat'] else cum[b]
            if not (1e-6 < tc < 60. and ent < 60. and max(cum[tp], cum[b]) < 100):
                mon.count('skipped: tmrcld ill conditioned')
                continue
            want = ref.cloud_tmr(f, b, tp, cum, q['rad'])
            got = R['tmrcld'][j, k]
            tol = 1e-13 / tc * np.exp(ent) * max(1., np.abs(q['rad']).max() / max(want and 1., 1.))
            mon.close('tmrcld', got, want, 1e-7 + 1e3 * tol, f=float(f), **ctx)
            if 1e-3 < tc < 20 and ent < 10:
                lo, hi = p['t'][b:tp + 1].min(), p['t'][b:tp + 1].max()
                mon.check('tmrcld-bounds', lo - .01 <= got <= hi + .01, 'radiating temperature outside those of the cloud',
                          got=got, lo=lo, hi=hi, f=float(f), **ctx)
    # empty clouds are clear sky
    k = scen.inputs(s)
    zero = (k['cloud'][0], np.zeros(nl), np.zeros(nl))
    E = scen.run(s, cloud=zero)
    C = scen.run(s, cloud=None)
    for key in ('tbtotal', 'tbatm', 'tmr', 'tauwet', 'taudry', 'tauliq', 'tauice', 'sliq', 'sice'):
        mon.close('empty-cloud', E[key], C[key], 1e-12, 1e-300, key=key, **ctx)
    # flag off: clouds handed in are ignored
    with repo.quiet():
        m = s['models']
        repo.select(m.get('h2o'), m.get('o2'), m.get('n2'), m.get('liq'), m.get('o3', ''), load=False)
        r = repo.TbCloudRTE(k['z'], k['p'], k['t'], k['rh'], k['frq'], k['angles'], o3n=k['o3n'], ray_tracing=s['rt'],
                            from_sat=s['sat'], cloudy=False)
        if s['emis'] is not None:
            r.emissivity = s['emis']
        r.init_cloudy(*k['cloud'])
        O = repo.unpack(*r.execute(only_bt=False), k['frq'], k['angles'])
    for key in C:
        mon.close('flag-off', O[key], C[key], 1e-12, 1e-300, key=key, **ctx)
    if case['seed'] % 2:
        switched(mon, s, k, C, R, ctx)
    for i in range(len(c['base'])):
        for j in range(len(c['base'])):
            if i != j and c['base'][i] == c['top'][j]:
                mon.count('clouds in contact')
            if i != j and c['base'][j] <= c['base'][i] < c['top'][j]:
                mon.count('overlapping clouds')
    # base and top between two levels: the same cloud as one that ends at the levels inside
    if case['seed'] % 3:
        z = p['z']
        h = np.array(k['cloud'][0], float)
        for j, (b, tp) in enumerate(zip(c['base'], c['top'])):
            down, up = rng.random(2) < .7
            h[0, j] -= down * rng.uniform(.05, .95) * (z[b] - z[b - 1] if b > 0 else .4)
            h[1, j] += up * rng.uniform(.05, .95) * (z[tp + 1] - z[tp] if tp < nl - 1 else .4)
        B = scen.run(s, cloud=(h, k['cloud'][1], k['cloud'][2]))
        for key in R:
            mon.close('between-levels', B[key], R[key], 1e-12, 1e-300, key=key, **ctx)
    # more liquid: opacity scales, gas opacity unchanged
    if (c['liq'] > 0).any():
        f2 = 2.
        D = scen.run(s, cloud=(k['cloud'][0], k['cloud'][1], k['cloud'][2] * f2))
        mon.check('more-liquid', np.all(D['tauliq'] >= R['tauliq']), 'less opacity with more liquid', **ctx)
        mon.close('more-liquid', D['sliq'], f2 * R['sliq'], 1e-9, **ctx)
        for key in ('tauice', 'tauwet', 'taudry', 'sice'):
            mon.close('more-liquid', D[key], R[key], 1e-12, key=key, **ctx)
    mon.state(p['kind'], len(c['base']), s['orient'], 'sat' if s['sat'] else 'ground', 'rt' if s['rt'] else 'pp',
              'liq' if c['liq'].any() else 'noliq', 'ice' if c['ice'].any() else 'noice')
    mon.sample = dict(scen.describe(s), base=c['base'], top=c['top'], sliq=R['sliq'].tolist(), tmrcld=R['tmrcld'].tolist())


def switched(mon, s, k, C, R, ctx):
    # the same object: cloud switched off and on again, then another cloud in the same place
    with repo.quiet():
        r = repo.TbCloudRTE(k['z'], k['p'], k['t'], k['rh'], k['frq'], k['angles'], o3n=k['o3n'], ray_tracing=s['rt'],
                            from_sat=s['sat'], cloudy=True)
        if s['emis'] is not None:
            r.emissivity = s['emis']
        r.init_cloudy(*k['cloud'])
        look = lambda: {q: np.array(v) for q, v in repo.unpack(*r.execute(only_bt=False), k['frq'], k['angles']).items()}    # noqa: E731
        a = look()
        r.cloudy = False
        off = look()
        r.cloudy = True
        on = look()
        r.init_cloudy(k['cloud'][0], .5 * k['cloud'][1], .25 * k['cloud'][2])
        less = look()
    half = scen.run(s, cloud=(k['cloud'][0], .5 * k['cloud'][1], .25 * k['cloud'][2]))
    for key in C:
        mon.close('switched', off[key], C[key], 1e-12, 1e-300, key=key, what='switched off', **ctx)
        mon.close('switched', a[key], R[key], 1e-12, 1e-300, key=key, what='first', **ctx)
        mon.close('switched', on[key], R[key], 1e-12, 1e-300, key=key, what='switched on again', **ctx)
        mon.close('switched', less[key], half[key], 1e-12, 1e-300, key=key, what='thinner cloud', **ctx)
