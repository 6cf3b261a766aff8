"""C13 orientation and altitude reference of the profile."""
import numpy as np
from vlib import ref, gen, repo, scen

PROPERTY = 'C13'
RULE = ('random scenarios run with the levels listed upwards, downwards, and shifted in altitude; every output must agree; and height '
        'profiles with a repeated, reversed or NaN level anywhere must be refused before any number is produced.')
REQUIRE = {'flipped': 80, 'shifted': 60, 'refused': 150, 'accepted': 80}


def cases(tier, seed):
    return scen.mkcases('C13', tier, seed, 260, 3600)


def evaluate(case, mon):
    s = scen.make(case['seed'], case['kind'], orient='up', na=2, nf=2)
    rng = s['rng']
    if scen.ducts(s):
        s['rt'] = False
    p = s['prof']
    c, n = s['cloud'], len(p['z'])
    if c is not None and rng.random() < .4:        # a cloud on one single level
        j = int(rng.integers(len(c['base'])))
        b = int(c['base'][j])
        c['liq'][b], c['top'][j] = .3, b
        c['cldh'] = np.array([p['z'][c['base']], p['z'][c['top']]])
        mon.count('single-level cloud')
    A = scen.run(s)
    s['orient'] = 'down'
    B = scen.run(s)
    mon.check('accepted', np.isfinite(A['tbtotal']).all() and np.isfinite(B['tbtotal']).all(), 'no number')
    for k in A:
        mon.close('flipped', B[k], A[k], 1e-12, 1e-300, key=k, rt=s['rt'], cloud=s['cloud'] is not None)
    # descending input is reported from the lowest level up, like ascending input: tie the order to the atmosphere itself
    e, _ = ref.vapor(p['t'], p['rh'])
    mon.close('order', B['awet'][0, 0], ref.h2o_abs(s['models']['h2o'], p['p'], p['t'], e, s['frq'][0]), 1e-7, 1e-300)
    s['orient'] = 'up'
    # altitude reference (only the earth radius of the refracted path knows about it)
    d = float(rng.choice([-.4, .25, 1.5, 3.]))
    rt = s['rt']
    s['rt'] = False
    C0 = A if not rt else scen.run(s)
    z = p['z'] + d
    cl = s['cloud']
    over = dict(z=z)
    if cl is not None:
        over['cloud'] = (np.array([z[cl['base']], z[cl['top']]]), cl['ice'].copy(), cl['liq'].copy())
    C = scen.run(s, **over)
    for k in C0:
        mon.close('shifted', C[k], C0[k], 2e-8, 1e-12, key=k, shift=d)
    if rt:
        s['rt'] = True
        C = scen.run(s, **over)
        for k in ('tbtotal', 'tauwet', 'taudry'):
            mon.close('shifted-refracted', C[k], A[k], 2e-3, 1e-9, key=k, shift=d)
        # and it does know about it
    # refused
    bad = {}
    i = int(rng.integers(0, n - 1))
    z = p['z'].copy()
    z[i + 1] = z[i]
    bad['repeated level %d' % i] = z
    if n > 2:
        z = p['z'].copy()
        i = int(rng.integers(0, n - 1))
        z[i], z[i + 1] = z[i + 1], z[i]
        bad['swapped %d' % i] = z
        z = p['z'][::-1].copy()
        i = int(rng.integers(0, n - 1))
        z[i], z[i + 1] = z[i + 1], z[i]
        bad['swapped, descending %d' % i] = z
        z = p['z'][rng.permutation(n)]
        if not (np.all(np.diff(z) > 0) or np.all(np.diff(z) < 0)):
            bad['shuffled'] = z
        z = p['z'].copy()
        z[n - 1] = z[n - 2] - 1e-9
        bad['top below'] = z
        z = p['z'].copy()
        z[int(rng.integers(0, n))] = np.nan
        bad['NaN'] = z
    bad['constant'] = np.full(n, 1.)
    for what, z in bad.items():
        try:
            with repo.quiet():
                repo.TbCloudRTE(z, p['p'], p['t'], p['rh'], s['frq'], s['ang'])
            mon.fail('refused', 'profile accepted: ' + what, z=z)
        except SystemExit:
            pass
        mon.count('evaluated:refused')
    mon.state(p['kind'], 'rt' if rt else 'pp', 'cloud' if cl else 'clear', d)
    mon.sample = dict(scen.describe(s), shift=d, refused=sorted(bad))
