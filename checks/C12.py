"""C12 channels and angles are computed independently and labelled correctly."""
import numpy as np
from vlib import ref, gen, repo, scen

PROPERTY = 'C12'
RULE = ('random scenarios with 2-5 channels (half of them with two channels 1 kHz to 0.3 GHz apart) and 2-4 angles: the batch is compared with one run per channel, per angle, with a random '
        'permutation and with duplicated channels; table layout, labels, and the short and the full output are compared.')
REQUIRE = {'single-channel': 80, 'single-angle': 60, 'permuted': 60, 'layout': 80, 'short-output': 80, 'emissivity-array': 15, 'number-type': 60, 'refused': 300}
COLS = ['tbtotal', 'tbatm', 'tmr', 'tmrcld', 'tauwet', 'taudry', 'tauliq', 'tauice', 'angle']


def cases(tier, seed):
    return scen.mkcases('C12', tier, seed, 240, 3200)


def evaluate(case, mon):
    rng0 = np.random.default_rng(case['seed'] + 3)
    nf, na = int(rng0.integers(2, 6)), int(rng0.integers(2, 5))
    s = scen.make(case['seed'], case['kind'], nf=nf, na=na, nl=int(rng0.integers(6, 22)) if case['kind'] != 'twolevel' else None)
    rng = s['rng']
    if rng.random() < .2:
        s['frq'][1] = s['frq'][0]
    close = rng.random() < .5
    if close:
        s['frq'][1] = s['frq'][0] + float(rng.choice([-1, 1]) * rng.choice([1e-6, 1e-3, .02, .045, .3])) if s['frq'][0] < 900 else s['frq'][0] - .04
        s['frq'] = np.maximum(s['frq'], 1.)
    if rng.random() < .15:
        s['ang'][1] = s['ang'][0]
    if scen.ducts(s):
        s['rt'] = False
    if rng.random() < .5:
        s['emis'] = np.round(rng.uniform(.1, 1, nf), 3)
    k = scen.inputs(s)
    arr = isinstance(s['emis'], np.ndarray)

    def go(frq, ang, emis, full=True):
        with repo.quiet():
            m = s['models']
            repo.select(m.get('h2o'), m.get('o2'), m.get('n2'), m.get('liq'), m.get('o3', ''), load=False)
            r = repo.TbCloudRTE(k['z'], k['p'], k['t'], k['rh'], frq, ang, o3n=k['o3n'], ray_tracing=s['rt'], from_sat=s['sat'],
                                cloudy=s['cloud'] is not None)
            if k['cloud'] is not None:
                r.init_cloudy(*k['cloud'])
            if emis is not None:
                r.emissivity = emis
            return r.execute(only_bt=not full)
    frq, ang, emis = s['frq'], s['ang'], s['emis']
    df, det = go(frq.copy(), ang.copy(), emis)
    A = repo.unpack(df, det, frq, ang)
    # layout: one row per (angle, channel), angle major, channels in the order given
    mon.check('layout', list(df.columns) == COLS, 'columns %s' % list(df.columns))
    mon.check('layout', len(df) == nf * na, 'rows %d' % len(df))
    mon.check('layout', np.array_equal(df['angle'].values, np.repeat(ang, nf)), 'angle labels')
    shapes = dict(taulaywet=3, taulaydry=3, taulayliq=3, taulayice=3, awet=3, adry=3)
    for q, v in det.items():
        want = (nf, na, len(k['z'])) if q in shapes else (1, na)
        mon.check('layout', v.shape == want, 'shape of %s: %s' % (q, v.shape))
    mon.check('layout', sorted(det) == sorted(list(shapes) + ['srho', 'swet', 'sdry', 'sliq', 'sice']), 'keys %s' % sorted(det))
    short = go(frq.copy(), ang.copy(), emis, full=False)
    for c in COLS:
        mon.close('short-output', short[c].values, df[c].values, 1e-12, column=c)

    def compare(rule, B, jj, kk, **ctx):
        for q in A:
            x = A[q]
            if x.shape[0] == 1 and q.startswith('s'):
                mon.close(rule, B[q], x[:, kk], 1e-11, 1e-300, key=q, **ctx)
            else:
                mon.close(rule, B[q], x[np.ix_(jj, kk)], 1e-11, 1e-300, key=q, **ctx)

    def sub(jj):
        return emis[jj] if arr else emis
    every = list(range(na))
    j = 1 if close else int(rng.integers(nf))
    compare('single-channel', repo.unpack(*go(frq[[j]], ang.copy(), sub([j])), frq[[j]], ang), [j], every, channel=j)
    a = int(rng.integers(na))
    compare('single-angle', repo.unpack(*go(frq.copy(), ang[[a]], emis), frq, ang[[a]]), list(range(nf)), [a], angle=a)
    pj, pk = [int(x) for x in rng.permutation(nf)], [int(x) for x in rng.permutation(na)]
    compare('permuted', repo.unpack(*go(frq[pj], ang[pk], sub(pj)), frq[pj], ang[pk]), pj, pk)
    if rng.random() < .4:
        pj, pk = pj + [pj[0]], pk + [pk[-1]]
        compare('duplicated', repo.unpack(*go(frq[pj], ang[pk], sub(pj)), frq[pj], ang[pk]), pj, pk)
    if arr and s['sat']:
        # each channel uses its own emissivity: oracle on the reported layer opacities
        for j in range(nf):
            lay = sum(A[q][j, 0] for q in ('taulaywet', 'taulaydry', 'taulayliq', 'taulayice'))
            q = ref.rte(frq[j], s['prof']['t'], lay, True, emis[j])
            mon.close('emissivity-array', A['tbtotal'][j, 0], q['tb'], 1e-9, channel=j)
        one = float(emis[0])
        B = repo.unpack(*go(frq.copy(), ang.copy(), one), frq, ang)
        C = repo.unpack(*go(frq.copy(), ang.copy(), np.full(nf, one)), frq, ang)
        mon.close('emissivity-scalar', B['tbtotal'], C['tbtotal'], 1e-12)
    # the type of the numbers does not matter
    fi, ai = np.maximum(1, np.round(frq)).astype(int), np.clip(np.round(ang), 1, 179).astype(int)
    how = int(rng.integers(4))
    pairs = [(fi, ang.copy()), (frq.copy(), ai), (fi, ai), (fi.astype(np.float32), ang.copy())]
    f1, a1 = pairs[how]
    if not (s['rt'] and how in (1, 2)):
        fl, al = np.array(f1, float), np.array(a1, float)
        d1, t1 = go(f1, a1, emis)
        d2, t2 = go(fl, al, emis)
        mon.check('layout', np.array_equal(np.asarray(d1['angle'].values, float), np.repeat(al, nf)), 'angle labels with %s, %s' % (f1.dtype, a1.dtype))
        A1, A2 = repo.unpack(d1, t1, fl, al), repo.unpack(d2, t2, fl, al)
        for q in A2:
            mon.close('number-type', A1[q], A2[q], 1e-11, 1e-300, key=q, frequency=str(f1.dtype), angle=str(a1.dtype))
    if rng.random() < .4:
        refused(mon, k, s, rng)
    mon.state(nf, na, 'sat' if s['sat'] else 'ground', 'cloud' if s['cloud'] else 'clear', 'rt' if s['rt'] else 'pp',
              'array' if arr else 'scalar')
    mon.sample = dict(scen.describe(s), emis=s['emis'])


def refused(mon, k, s, rng):
    """a direction that is not a truth value, an emissivity that is not a number: refused, and the previous one stays"""
    with repo.quiet():
        r = repo.TbCloudRTE(k['z'], k['p'], k['t'], k['rh'], s['frq'].copy(), s['ang'].copy(), o3n=k['o3n'], ray_tracing=s['rt'], from_sat=s['sat'])
        if s['emis'] is not None:
            r.emissivity = s['emis']
        before = np.array(r.emissivity)
        mon.check('refused', r.satellite is s['sat'] and before.shape == s['frq'].shape and
                  np.array_equal(before, np.broadcast_to(1. if s['emis'] is None else s['emis'], before.shape)), 'settings not kept: %r %r' % (r.satellite, before))
        for bad in (1, 0, 'True', None, 'up'):
            try:
                r.satellite = bad
                mon.fail('refused', 'direction %r accepted' % (bad,))
            except ValueError:
                mon.count('evaluated:refused')
        for bad in ('0.9', None, {}):
            try:
                r.emissivity = bad
                mon.fail('refused', 'emissivity %r accepted' % (bad,))
            except ValueError:
                mon.count('evaluated:refused')
        mon.check('refused', r.satellite is s['sat'] and np.array_equal(r.emissivity, before), 'a refused setting changed the direction or the emissivity')
