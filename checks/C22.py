"""C22 uncertainty propagation and parameter perturbation."""
import copy
import os
import numpy as np
from vlib import ref, repo
from vlib.core import subseed, ROOT

PROPERTY = 'C22'
RULE = ('one case = random values, standard deviations and covariances through every propagation operation (oracle: covariance through '
        'numerically differentiated operations); a random parameter set with random uncertainties, perturbed by name, line, direction or '
        'all at once (oracle: field-by-field difference of the sets, and the absorption computed from the result); the shipped matrices.')
REQUIRE = {'sigma': 2000, 'value': 2000, 'unknown-operation': 200, 'perturbed': 800, 'others-untouched': 800, 'stored-untouched': 200,
           'refused': 400, 'everything': 30, 'matrix': 3, 'used': 40, 'own-copy': 200}
COV = {k: v for k, v in np.load(os.path.join(ROOT, 'data', 'cov.npz')).items()}
OPS = {'aA': lambda A, B, a, b: a * A, 'aA+bB': lambda A, B, a, b: a * A + b * B, 'aA-bB': lambda A, B, a, b: a * A - b * B,
       'A*B': lambda A, B, a, b: A * B, 'A/B': lambda A, B, a, b: A / B, 'A^a': lambda A, B, a, b: A ** a}
TWIN = {'O2gamma': 'O2gamma_NL', 'Y300': 'Y300_NL', 'O2_V': 'O2_V_NL'}
TWIN.update({v: k for k, v in list(TWIN.items())})


def cases(tier, seed):
    n = 320 if tier == 'quick' else 5000
    return [dict(seed=subseed('C22', seed, i), i=i) for i in range(n)]


def slope(f, x, h):
    """fourth order central difference."""
    return (-f(x + 2 * h) + 8 * f(x + h) - 8 * f(x - h) + f(x - 2 * h)) / (12 * h)


def propagation(mon, rng):
    from pyrtlib.uncertainty import AbsModUncertainty as M
    n = int(rng.choice([1, 1, 5]))
    sign = rng.choice([-1, 1], (2, n))
    A, B = sign * 10 ** rng.uniform(-3, 3, (2, n))
    sA, sB = np.abs(A) * 10 ** rng.uniform(-4, 0, n), np.abs(B) * 10 ** rng.uniform(-4, 0, n)
    a, b = [float(v) for v in rng.choice([-1, 1], 2) * 10 ** rng.uniform(-1, 1, 2)]
    rho = float(rng.uniform(-.95, .95))
    sAB = rho * sA * sB if rng.random() < .7 else 0.
    if n == 1:
        A, B, sA, sB = (float(v[0]) for v in (A, B, sA, sB))
        sAB = float(np.ravel(sAB)[0])
    for op, f in OPS.items():
        q, x = a, A
        if op == 'A^a':
            q = float(rng.choice([2, 3, -1, -2, 1, .5, 1.7]))
            if q != int(q):
                x = np.abs(A) if n > 1 else abs(A)
        kw = dict(a=q, b=b, sAB=sAB)
        if op == 'A*B' or op == 'A/B':
            kw = dict(sAB=sAB)
        elif op in ('aA', 'A^a'):
            kw = dict(a=q)
        keep = copy.deepcopy((x, B, sA, sB, sAB))
        F, sF = M.uncertainty_propagation(op, x, B, sA, sB, **kw)
        ctx = dict(op=op, a=q)
        mon.check('operands-kept', all(np.array_equal(u, v) for u, v in zip(keep, (x, B, sA, sB, sAB))), 'operands changed', **ctx)
        mon.close('value', F, f(x, B, q, b), 1e-12, 1e-300, **ctx)
        h = 1e-3 * np.abs(x), 1e-3 * np.abs(B)
        ja, jb = slope(lambda u: f(u, B, q, b), x, h[0]), slope(lambda u: f(x, u, q, b), B, h[1])
        if op in ('aA', 'A^a'):
            jb, c = 0., 0.
        else:
            c = sAB
        var = (ja * sA) ** 2 + (jb * sB) ** 2 + 2 * ja * jb * c
        mon.close('sigma', np.asarray(sF, float) ** 2, var, 1e-7, 1e-7 * np.abs((ja * sA) ** 2 + (jb * sB) ** 2), **ctx)
        mon.check('sigma-positive', np.all(np.asarray(sF) >= 0), 'negative standard deviation', **ctx)
        mon.state(op, n > 1, np.ndim(sAB) > 0 or sAB != 0)
    # powers at zero: the value and the slope exist for exponents of one and more
    q = float(rng.choice([1., 2., 3.]))
    x, s = np.array([0., 2., -1.5]), np.abs(rng.normal(.2, .05, 3))
    with np.errstate(all='ignore'):
        for X, S in ((x, s), (0., float(s[0]))):
            try:
                F, sF = M.uncertainty_propagation('A^a', X, 1., S, .1, a=q)
            except ZeroDivisionError as exc:
                mon.fail('power-at-zero', repr(exc), a=q)
                continue
            mon.close('power-at-zero', F, np.asarray(X) ** q, 1e-12, 1e-300, a=q)
            mon.close('power-at-zero', sF, np.abs(q * np.asarray(X) ** (q - 1)) * S, 1e-12, 1e-300, a=q)
    bad = str(rng.choice(['', 'aA+bB ', 'A+B', 'AA', 'a*A', 'A**a', 'sin', 'aa', 'A/B/', 'AB', 'aA*bB']))
    try:
        got = M.uncertainty_propagation(bad, A, B, sA, sB)
        mon.check('unknown-operation', False, 'operation %r gave %r' % (bad, got))
    except ValueError:
        mon.check('unknown-operation', True)


def snapshot(d):
    return {k: (np.array(v.value, float), np.array(v.uncer, float), v.units, v.refer, v.name) for k, v in d.items()}


def same(a, b):
    return a.keys() == b.keys() and all(np.array_equal(a[k][0], b[k][0]) and np.array_equal(a[k][1], b[k][1]) and a[k][2:] == b[k][2:] for k in a)


def perturbation(mon, rng, case):
    from pyrtlib.uncertainty import AbsModUncertainty as M, SpectroscopicParameter as SP
    h, o, o3 = (str(rng.choice(v)) for v in (ref.H2O_MODELS, ref.O2_MODELS, ref.O3_MODELS))
    parts = []
    with repo.quiet():
        k = rng.integers(1, 8)
        if k & 1:
            parts.append(SP.water_parameters(h))
        if k & 2:
            parts.append(SP.oxygen_parameters(o))
        if k & 4:
            parts.append(SP.ozono_parameters(o3))
    d = {}
    for x in parts:
        d.update(x)
    ctx = dict(h2o=h, o2=o, o3=o3, sets=int(k))
    if 'con_Cf_factr' in d:
        old = h in ('R98', 'R03', 'R16', 'R17')
        mon.close('published-uncertainty', [d['con_Cf_factr'].uncer, d['con_Cs_factr'].uncer],
                  [np.hypot(.098, .03), np.hypot(.17, .06)] if old else [0., 0.], 1e-12, **ctx)
    # uncertainties of the user
    for v in d.values():
        u = rng.random()
        if np.ndim(v.value) and np.ndim(v.uncer):
            if u < .5:
                v.uncer = np.abs(np.asarray(v.value, float)) * rng.uniform(.001, .1, len(v.value))
            elif u < .7:
                v.uncer = float(rng.uniform(.001, .1) * np.abs(v.value).max())
        elif u < .7:
            v.uncer = float(rng.uniform(.001, .1) * np.max(np.abs(v.value)))
            if np.ndim(v.value) and u < .5:
                v.uncer = np.full(len(v.value), v.uncer)
    if rng.random() < .3:
        d['own'] = SP(float(rng.uniform(1, 9)), .25, 'unitless', 'me')
    before = snapshot(d)
    base = copy.deepcopy(d)
    SP.set_parameters(d)
    keys = sorted(d)
    for _ in range(6):
        mode = str(rng.choice(['max', 'min', 'max', 'min', 'non']))
        every = rng.random() < .15
        what = [] if every else [str(x) for x in rng.choice(keys, size=int(rng.integers(1, min(5, len(keys)) + 1)), replace=False)]
        names = keys if every else what
        lens = [len(base[x].value) for x in names if np.ndim(base[x].value) and np.ndim(base[x].uncer)]
        idx = None if rng.random() < .25 or not lens else int(rng.integers(min(lens)))
        if idx is not None and rng.random() < .2:
            idx = -1 - int(rng.integers(min(lens)))
        c = dict(ctx, what=what, mode=mode, index=idx)
        asked = list(what)
        got = M.parameters_perturbation(what, mode, idx) if idx is not None or rng.random() < .5 else M.parameters_perturbation(what, mode)
        mon.check('request-untouched', what == asked, 'the list of names was changed', **c)
        mon.check('stored-untouched', same(snapshot(d), before), 'the stored set was changed', **c)
        mon.check('own-copy', got is not d and all(got[x] is not d[x] and not (np.ndim(d[x].value) and np.shares_memory(got[x].value, d[x].value))
                                                 for x in got), 'shares memory with the stored set', **c)
        mon.check('same-names', list(got) == list(d), 'other parameters', **c)
        s = {'max': 1., 'min': -1., 'non': 0.}[mode]

        def moved(x, start):
            v, u = np.array(start, float), np.asarray(base[x].uncer, float)
            if s == 0:
                return v
            if v.ndim == 0 or u.ndim == 0:
                return v + s * u
            i = slice(None) if idx is None else idx
            v[i] = v[i] + s * u[i]
            return v
        for x in base:
            g = got[x]
            meta = np.array_equal(g.uncer, base[x].uncer) and (g.units, g.refer, g.name) == (base[x].units, base[x].refer, base[x].name)
            mon.check('uncertainty-kept', meta, 'uncertainty or description changed', key=x, **c)
            start = [base[x].value]
            tw = TWIN.get(x)
            if tw in base and tw in names:           # one array under two names
                start.append(moved(tw, base[x].value))
            want = [moved(x, v) if x in names else np.array(v, float) for v in start]
            if tw in base and tw in names and x in names:
                want.append(moved(tw, moved(x, base[x].value)))
            gv = np.asarray(g.value, float)
            ok = any(gv.shape == w.shape and np.allclose(gv, w, rtol=1e-12, atol=0) for w in want)
            if x in names and s != 0:
                mon.check('perturbed', ok, 'value %r' % (gv.ravel()[:3],), key=x, **c)
                if np.array_equal(np.asarray(base[x].uncer), 0. * np.asarray(base[x].uncer)):
                    mon.count('zero-uncertainty')
            else:
                mon.check('others-untouched', ok, 'changed', key=x, **c)
        if every:
            mon.count('evaluated:everything')
        mon.state(mode, 'all' if every else len(what), idx is None)
    # refusals
    some = str(rng.choice(keys))
    for what, mode, idx in (([some], str(rng.choice(['', 'MAX', 'mean', 'maxi', 'random', 'None'])), 0), ([some + '?'], 'max', 0), ([some, 'nope'], 'min', 0),
                            ([some], 'ran', 0)):
        try:
            got = M.parameters_perturbation(what, mode, idx)
            mon.check('refused', False, 'accepted %r %r' % (what, mode), **ctx)
        except (ValueError, KeyError, IndexError, NotImplementedError):
            mon.check('refused', True)
    mon.check('stored-untouched', same(snapshot(d), before), 'the stored set was changed by a refused request', **ctx)
    # the next set replaces this one
    e = copy.deepcopy(base)
    key = str(rng.choice(keys))
    e[key].value = np.asarray(e[key].value, float) * 2 + 1 if np.ndim(e[key].value) else float(e[key].value) * 2 + 1
    SP.set_parameters(e)
    got = M.parameters_perturbation([key], 'non')
    mon.check('newest-set', np.array_equal(got[key].value, e[key].value), 'not the set given last', **ctx)


def used(mon, rng):
    """what comes out is what a simulation uses."""
    from checks import C21
    from pyrtlib.uncertainty import AbsModUncertainty as M, SpectroscopicParameter as SP
    h, o, n2 = (str(rng.choice(v)) for v in (ref.H2O_MODELS, ref.O2_MODELS, ref.N2_MODELS))
    with repo.quiet():
        d = {**SP.water_parameters(h), **SP.oxygen_parameters(o)}
    keys = ['gamma_a', 'gamma_w', 'n_a', 'S', 'O2S', 'O2gamma']
    key = str(rng.choice(keys))
    i = int(rng.integers(min(30, len(d[key].value))))
    d[key].uncer = np.abs(np.asarray(d[key].value)) * .05
    SP.set_parameters(d)
    mode = str(rng.choice(['max', 'min']))
    q = M.parameters_perturbation([key], mode, i)
    LH, LO, _ = C21.lists(q, h, o, '')
    fl = (d['O2FL'] if key.startswith('O2') else d['FL']).value[i]
    f = float(np.clip(fl + rng.normal() * .5, 1, 999))
    p, t, e = C21.states(rng)
    repo.select(h, o, n2, 'R20', '')
    wet, dry = C21.absorb(p, t, e, f, None, q)
    a, b = ref.h2o_abs(h, p, t, e, f, LH), ref.dry_abs(o, n2, '', p, t, e, f, None, LO, None)
    mon.close('used', wet, a, 1e-7, 1e-13 * np.abs(a).max(), key=key, mode=mode, f=f, h2o=h)
    mon.close('used', dry, b, 1e-7, 1e-13 * np.abs(b).max(), key=key, mode=mode, f=f, o2=o)


def matrices(mon):
    from pyrtlib.uncertainty import covariance_matrix as c
    for name, n in (('R17_111', 111), ('R17_112', 112), ('R19', 135)):
        v = np.asarray(getattr(c, name))
        mon.close('matrix', v, COV[name], 1e-10, 1e-40, name=name)
        mon.check('matrix-shape', v.shape == (n, n), 'shape %s' % (v.shape,), name=name)
        mon.check('matrix-symmetric', np.allclose(v, v.T, rtol=1e-6, atol=1e-6 * np.sqrt(np.outer(np.diag(v), np.diag(v)))), 'not symmetric', name=name)
        s = np.sqrt(np.diag(v))
        mon.check('matrix-correlation', (s > 0).all() and (np.abs(v) <= np.outer(s, s) * (1 + 1e-9)).all(), 'correlation above one', name=name)
    mon.close('matrix-nested', c.R17_112[:105, :105], c.R17_111[:105, :105], 1e-9, 1e-9)


def evaluate(case, mon):
    rng = np.random.default_rng(case['seed'])
    for _ in range(4):
        propagation(mon, rng)
    perturbation(mon, rng, case)
    if case['i'] % 3 == 0:
        used(mon, rng)
    if case['i'] % 40 == 0:
        matrices(mon)
    mon.sample = dict(case=case['i'])
