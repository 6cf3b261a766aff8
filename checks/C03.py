"""C03 opacity and column accounting along the path."""
import numpy as np
from vlib import ref, scen, repo

PROPERTY = 'C03'
RULE = ('random scenarios; the oracle integrates the absorption profiles the run reports (and the repository\'s own cloud '
        'absorption) layer by layer over independently computed path increments, and the vapour density / refractivity / cloud '
        'densities of the profile, and compares every layer opacity, every total and every column.')
REQUIRE = {'layer-wet': 50, 'layer-dry': 50, 'layer-liq': 20, 'layer-ice': 20, 'total': 100, 'srho': 50, 'sliq': 20}


def cases(tier, seed):
    return scen.mkcases('C03', tier, seed, 480, 5000)


def atol(ds):
    return 2e-9 * np.abs(ds) + 1e-18     # the library treats |dx|<1e-9 as constant


def evaluate(case, mon):
    s = scen.make(case['seed'], case['kind'])
    if scen.ducts(s):
        s['rt'] = False
    p = s['prof']
    z, t = p['z'], p['t']
    R = scen.run(s)
    e, rho = ref.vapor(t, p['rh'])
    dryn, wetn, idx = ref.refractivity(p['p'], t, e)
    c = s['cloud']
    for k, a in enumerate(s['ang']):
        za = z - z[0]
        ds = ref.ray_trace(za, idx, a, z[0]) if s['rt'] else ref.slant(za, a)
        ctx = dict(angle=float(a), rt=s['rt'], kind=p['kind'])
        for key, x in (('srho', rho), ('swet', wetn), ('sdry', dryn)):
            mon.close(key, R[key][0, k], .1 * ref.layer_integral(x, ds).sum(), 1e-7, .1 * 2e-9 * ds.sum(), **ctx)
        if c is None:
            for key in ('sliq', 'sice'):
                mon.check('no-cloud', R[key][0, k] == 0, 'cloud column without cloud')
            for key in ('tauliq', 'tauice'):
                mon.check('no-cloud', np.all(R[key][:, k] == 0), 'cloud opacity without cloud')
        else:
            for key, den in (('sliq', c['liq']), ('sice', c['ice'])):
                want = .1 * sum(ds[i] * .5 * (den[i] + den[i - 1]) for i in ref.cloud_layers(c['base'], c['top']))
                mon.close(key, R[key][0, k], want, 1e-7, 1e-15, **ctx)
        for j, f in enumerate(s['frq']):
            cx = dict(ctx, f=float(f))
            for q, key in (('wet', 'awet'), ('dry', 'adry')):
                x = R[key][j, k]
                if (x < 0).any():
                    mon.count('skipped: negative absorption')
                    continue
                mon.close('layer-' + q, R['taulay' + q][j, k], ref.layer_integral(x, ds), 1e-7, atol(ds), **cx)
            if c is not None:
                with repo.quiet():
                    al, ai = repo.RTEquation.cloudy_absorption(t, c['liq'], c['ice'], f)
                mon.close('layer-liq', R['taulayliq'][j, k], ref.layer_integral(al, ds, False), 1e-7, atol(ds), **cx)
                mon.close('layer-ice', R['taulayice'][j, k], ref.layer_integral(ai, ds, False), 1e-7, atol(ds), **cx)
                mon.count('cloudy')
            for q in ('wet', 'dry', 'liq', 'ice'):
                lay = R['taulay' + q][j, k]
                if q in ('wet', 'dry') and (R['a' + q][j, k] < 0).any():
                    continue
                mon.close('total', R['tau' + q][j, k], lay.sum(), 1e-10, 1e-18, q=q, **cx)
                mon.check('first-layer', lay[0] == 0, 'opacity below the lowest level', q=q, **cx)
                mon.check('non-negative', (lay >= 0).all(), 'negative layer opacity', q=q, **cx)
        mon.state('rt' if s['rt'] else 'pp', p['kind'], 'cloud' if c else 'clear', 'sat' if s['sat'] else 'ground')
    mon.sample = dict(scen.describe(s), tauwet=R['tauwet'].tolist(), taudry=R['taudry'].tolist(), srho=R['srho'].tolist())
