"""C19 the built-in climatology is the published one, gas by gas."""
import os
import numpy as np
from vlib import ref, repo
from vlib.core import subseed, ROOT

PROPERTY = 'C19'
RULE = ('one case = a random sequence of climatology requests (atmospheres, minor and trace gases by name and number, lists of gases, '
        'identifiers outside the tables, requests from another working directory, caller overwriting earlier results); every answer is '
        'compared with a pinned copy of the AFGL tables and tested for ideal gas and hydrostatic consistency.')
REQUIRE = {'atmosphere': 150, 'minor': 150, 'trace': 150, 'refused': 150, 'ideal-gas': 150, 'hydrostatic': 150, 'gas-list': 80}
D = {k: v for k, v in np.load(os.path.join(ROOT, 'data', 'afgl.npz')).items()}
ATM = [('TROPICAL', 'Tropical', 'tropical'), ('MIDLATITUDE_SUMMER', 'Midlatitude Summer', 'midlatitude_summer'),
       ('MIDLATITUDE_WINTER', 'Midlatitude Winter', 'midlatitude_winter'), ('SUBARCTIC_SUMMER', 'Subarctic Summer', 'subarctic_summer'),
       ('SUBARCTIC_WINTER', 'Subarctic Winter', 'subarctic_winter'), ('US_STANDARD', 'US Standard', 'us_standard')]
MAIN = ['H2O', 'CO2', 'O3', 'N2O', 'CO', 'CH4', 'O2']
MINOR = ['NO', 'SO2', 'NO2', 'NH3', 'HNO3', 'OH', 'HF', 'HCL', 'HBR', 'HI', 'CLO', 'OCS', 'H2CO', 'HOCL', 'N2', 'HCN', 'CH3CL', 'H2O2', 'C2H2',
         'C2H6', 'PH3']
TRACE = ['COF2', 'SF6', 'H2S', 'CCL3F', 'CCL2F2', 'CCLF3', 'CF4', 'CHCl2F', 'CHCLF2', 'C2CL3F3', 'C2CL2F4', 'C2CLF5', 'CCL4', 'CLONO2', 'N2O5', 'HNO4']


def cases(tier, seed):
    n = 240 if tier == 'quick' else 3000
    return [dict(seed=subseed('C19', seed, i), atm=i % 6) for i in range(n)]


def evaluate(case, mon):
    from pyrtlib.climatology import AtmosphericProfiles as A
    rng = np.random.default_rng(case['seed'])
    cwd = os.getcwd()
    try:
        if rng.random() < .3:
            os.chdir('/')
        names = A.atm_profiles()
        mon.check('names', names == {getattr(A, a): b for a, b, _ in ATM} and [getattr(A, a) for a, _, _ in ATM] == list(range(6)),
                  'list of atmospheres %r' % (names,))
        for j in [case['atm']] + [int(v) for v in rng.integers(0, 6, 2)]:
            a, title, key = ATM[j]
            ctx = dict(atm=a)
            X = D[key]
            opt = [getattr(A, a), np.int64(j)][int(rng.integers(2))]
            z, p, d, t, md = A.gl_atm(opt)
            for nm, got, col in (('z', z, 0), ('p', p, 1), ('d', d, 2), ('t', t, 3)):
                mon.close('atmosphere', got, X[:, col], 1e-12, quantity=nm, **ctx)
            for i, g in enumerate(MAIN):
                mon.close('atmosphere', md[:, getattr(A, g)], X[:, 4 + i], 1e-12, quantity=g, **ctx)
            mon.check('atmosphere', md.shape == (50, 7), 'shape %s' % (md.shape,), **ctx)
            mon.close('ideal-gas', d * 1e6, p * 100 / (ref.C['boltzmann'] * t), .02, **ctx)
            k = z < 80
            dz = np.diff(z[k])
            lnp = np.log(p[k][:-1] / p[k][1:])
            q = md[k, 0] * 1e-6
            tv = t[k] / (1 - .378 * q)
            g = 9.80665 * (6371. / (6371. + .5 * (z[k][1:] + z[k][:-1]))) ** 2
            mon.close('hydrostatic', lnp / (g / 287.04 * dz * 1e3 / (.5 * (tv[1:] + tv[:-1]))), np.ones(len(dz)), .1, **ctx)
            mon.check('plausible', np.all(np.diff(z) > 0) and np.all(np.diff(p) < 0) and np.all(md >= 0) and
                      np.all((t > 130) & (t < 500)) and np.allclose(md[:20, 6], 2.09e5, .01), 'unphysical profile', **ctx)
            if rng.random() < .5:          # a caller working in place on the result
                for x in (z, p, d, t, md):
                    x *= 0
                mon.close('atmosphere', A.gl_atm(j)[3], X[:, 3], 1e-12, what='after in-place edit', **ctx)
            mon.state(a)
        for what, f, lst, first, key in (('minor', A.gl_atm_minor, MINOR, 7, 'gas_minor'), ('trace', A.gl_atm_trace, TRACE, 28, 'gas_trace')):
            X = D[key]
            for _ in range(3):
                i = int(rng.integers(len(lst)))
                gid = getattr(A, lst[i])
                mon.check(what, gid == first + i, 'identifier of %s is %r' % (lst[i], gid))
                g = f([gid, np.int64(gid)][int(rng.integers(2))])
                mon.close(what, g, X[:, i], 1e-12, gas=lst[i])
                mon.state(lst[i])
            ids = rng.choice(np.arange(first, first + len(lst)), size=int(rng.integers(1, 5)), replace=True)
            keep = ids.copy()
            for arg in (ids, [int(v) for v in ids], tuple(int(v) for v in ids)):
                mon.close('gas-list', f(arg), X[:, keep - first], 1e-12, what=what, ids=keep)
            mon.check('gas-list', np.array_equal(ids, keep), 'the caller\'s identifiers changed')
            for bad in (int(rng.choice([first - 1, first + len(lst), -1, 0, 6, 99, first - 7 - len(lst), 44, 1000])),
                        np.array([first, first + len(lst)]), [first - 1, first]):
                try:
                    f(bad)
                    mon.fail('refused', '%s gas id %r accepted' % (what, bad))
                except (ValueError, IndexError):
                    mon.count('evaluated:refused')
        for bad in (6, -1, 7, 99, 'Tropical', None):
            try:
                A.gl_atm(bad)
                mon.fail('refused', 'atmosphere %r accepted' % (bad,))
            except Exception:  # noqa: BLE001  any refusal will do
                mon.count('evaluated:refused')
    finally:
        os.chdir(cwd)
    mon.sample = dict(atm=ATM[case['atm']][0], t0=float(D[ATM[case['atm']][2]][0, 3]))
