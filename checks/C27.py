"""C27 instrument channel lists are the published ones."""
import numpy as np
from vlib import repo
from vlib.core import subseed

PROPERTY = 'C27'
RULE = ('every instrument of both lists in random upper/lower case, compared with pinned channel tables (centre and offsets kept apart), sideband '
        'symmetry, fresh result on every call (results are overwritten between calls), names of the other list and invented names refused.')
REQUIRE = {'channels': 400, 'symmetric': 100, 'fresh': 400, 'refused': 400}


def around(c, *off):
    return [c - o for o in off] + [c + o for o in reversed(off)]


def pairs(c, *off):
    return [v for o in off for v in (c - o, c + o)]


H2O, O2 = 183.31, 57.290344
GROUND = dict(
    hat=[22.24, 23.04, 23.84, 25.44, 26.24, 27.84, 31.4, 51.26, 52.28, 53.86, 54.94, 56.66, 57.3, 58.],
    mp3=[22.234, 22.5, 23.034, 23.834, 25., 26.234, 28., 30., 51.248, 51.76, 52.28, 52.804, 53.336, 53.848, 54.4, 54.94, 55.5, 56.02, 56.66, 57.288,
         57.964, 58.8],
    arm=[22.235, 23.035, 23.835, 26.235, 30., 51.25, 52.28, 53.85, 54.94, 56.66, 57.29, 58.8],
    tem=[51.25, 51.75, 52.25, 52.85, 53.35, 53.85, 54.4, 54.9, 55.4, 56., 56.5, 57.],
    k2w=[23.84, 31.4, 72.5, 82.5, 90., 150.])
SAT = dict(
    SAPHIR=around(H2O, 11, 6.8, 4.2, 2.8, 1.1, .2),
    AMSU=[89., 150.] + around(H2O, 7, 3, 1),
    ATMS=[88.2, 165.5] + around(H2O, 7, 4.5, 3, 1.8, 1),
    MWI=[18.7, 23.8, 31.4, 50.3, 52.61, 53.24, 53.75, 89.] + around(118.7503, 3.2, 2.1, 1.4, 1.2) + pairs(165.5, .725) + around(H2O, 8.4, 6.1, 4.9, 3.4, 2),
    MWS=[23.8, 31.4, 50.3, 52.8] + pairs(53.246, .08) + pairs(53.596, .115) + pairs(53.948, .081) + [54.4, 54.94, 55.5, O2] + pairs(O2, .217) +
        [v for d in (.048, .022, .010, .0045) for v in pairs(O2 - .3222, d) + pairs(O2 + .3222, d)] + [89.] + pairs(165.5, .725) +
        around(H2O, 7, 4.5, 3, 1.8, 1) + [229.],
    ICI=around(H2O, 7, 3.4, 2, .2) + pairs(243.2, 2.5) + around(325.15, 9.5, 3.5, 1.5) + around(448., 7.2, 3, 1.4) + pairs(664., 4.2))
CENTRES = dict(SAPHIR=[H2O], AMSU=[H2O], ATMS=[H2O], MWI=[118.7503, 165.5, H2O], MWS=[53.246, 53.596, 53.948, O2, 165.5, H2O],
               ICI=[H2O, 243.2, 325.15, 448., 664.])
WIDTH = {118.7503: 4, 165.5: 1, H2O: 12, 53.246: .1, 53.596: .12, 53.948: .1, O2: .4, 243.2: 3, 325.15: 10, 448.: 8, 664.: 5}
JUNK = ['', ' ', 'HATPRO', 'MWR', 'hat ', 'amsu-b', 'AMSUA', 'SSMIS', 'MWI ', 'ICII', 'mp', 'mp3000', 'GMI', 'none']


def cases(tier, seed):
    n = 12 if tier == 'quick' else 100
    return [dict(seed=subseed('C27', seed, k, i), name=k) for i in range(n) for k in [*GROUND, *SAT]]


def spell(rng, s):
    return ''.join(c.upper() if rng.random() < .5 else c.lower() for c in s)


def evaluate(case, mon):
    rng = np.random.default_rng(case['seed'])
    k = case['name']
    fun, want = (repo.utils.get_frequencies, GROUND[k]) if k in GROUND else (repo.utils.get_frequencies_sat, SAT[k])
    for name in (k, k.upper(), k.lower(), spell(rng, k)):
        f = fun(name)
        mon.close('channels', f, want, 1e-12, name=name)
        mon.check('array', isinstance(f, np.ndarray) and f.ndim == 1 and np.issubdtype(f.dtype, np.floating), 'not an array of numbers: %s' % type(f), name=name)
        for c in CENTRES.get(k, []):
            off = np.asarray(f, float) - c
            off = off[np.abs(off) <= WIDTH[c]]
            mon.check('symmetric', np.allclose(np.sort(off), -np.sort(off)[::-1], atol=1e-9), 'sidebands not symmetric about %r' % c, name=name)
        g = np.array(f)
        if isinstance(f, np.ndarray):
            f[:] = -1.
        else:
            del f[:]
        mon.check('fresh', np.array_equal(fun(name), g), 'result shared between calls', name=name)
        mon.state(k, name == k)
    if k == 'hat':
        mon.close('channels', fun(), want, 1e-12, name='default')
    other = SAT if k in GROUND else GROUND
    for bad in [str(rng.choice(list(other))), str(rng.choice(JUNK)), k + str(rng.choice(['2', '_', ' ', 'x'])), k[:-1]]:
        if bad.lower() in [v.lower() for v in (GROUND if k in GROUND else SAT)]:
            continue
        try:
            got = fun(bad)
            mon.check('refused', False, 'returned %r' % (got,), name=bad)
        except ValueError:
            mon.check('refused', True)
