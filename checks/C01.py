"""C01 brightness temperatures solve the radiative transfer equation."""
import numpy as np
from vlib import gen, ref, scen

PROPERTY = 'C01'
RULE = ('random hydrostatic and hostile profiles x frequency x angle x model x direction x emissivity x clouds x ozone, run '
        'through the public API; the oracle solves the discretised transfer equation from the layer opacities the same run '
        'reports and compares total, atmospheric, mean radiating temperature. Every case is non-trivial.')
REQUIRE = {'tbtotal': 50, 'tbatm': 50, 'tmr': 50, 'opaque:sat': 1, 'opaque:ground': 1, 'emissivity<1': 5,
           'transparent:sat': 20, 'transparent:ground': 20}
ASSUMPTIONS = ['reflected downwelling radiation is not part of the upwelling solution (library limitation, see DESIGN.md)']


def cases(tier, seed):
    return scen.mkcases('C01', tier, seed, 520, 6000) + \
        [dict(c, transparent=True) for c in scen.mkcases('C01t', tier, seed, 120, 1500)]


def evaluate(case, mon):
    s = scen.make(case['seed'], case['kind'])
    if scen.ducts(s) or case.get('transparent'):
        mon.count('plane parallel')
        s['rt'] = False
    if case['kind'] == 'deep':
        s['frq'][0] = [556.936, 752.03, 987.9, 183.31][case['seed'] % 4]
    if case.get('transparent'):
        r, p = s['rng'], s['prof']
        p['p'] = p['p'] * 10 ** r.uniform(-4.5, -1)
        e = p['rh'] * ref.eswat(p['t']) * 10 ** r.uniform(-8, -2)
        p['rh'] = np.minimum(e, .3 * p['p']) / ref.eswat(p['t'])
        s['cloud'] = None
        s['frq'] = np.where(r.random(len(s['frq'])) < .7, r.choice(gen.WINDOWS, len(s['frq'])), s['frq'])
    R = scen.run(s)
    t = s['prof']['t']
    em = 1.0 if s['emis'] is None else s['emis']
    em = np.broadcast_to(np.asarray(em, float), (len(s['frq']),))
    for k, a in enumerate(s['ang']):
        for j, f in enumerate(s['frq']):
            lay = R['taulaywet'][j, k] + R['taulaydry'][j, k] + R['taulayliq'][j, k] + R['taulayice'][j, k]
            q = ref.rte(f, t, lay, s['sat'], em[j])
            ctx = dict(f=float(f), angle=float(a), sat=s['sat'])
            amp = 1e-13 / max(abs(q['tot']), 1e-30)     # rounding of 1-exp(-tau) for a thin atmosphere
            mon.close('tbtotal', R['tbtotal'][j, k], q['tb'], 1e-9, **ctx)
            mon.close('tbatm', R['tbatm'][j, k], q['tbatm'], 1e-9 + amp, **ctx)
            mon.close('tmr', R['tmr'][j, k], q['tmr'], 1e-9 + amp, **ctx)
            side = 'sat' if s['sat'] else 'ground'
            reg = 'opaque' if q['tot'] >= ref.EXPMAX else 'thick' if q['tot'] > 3 else 'transparent' if q['tot'] < 1e-4 else 'thin' if q['tot'] < .1 else 'mid'
            mon.count(reg + ':' + side)
            if s['sat'] and em[j] < 1:
                mon.count('emissivity<1')
            mon.state(side, reg, s['prof']['kind'], 'cloud' if s['cloud'] else 'clear')
    mon.sample = dict(scen.describe(s), tb=R['tbtotal'].tolist())
