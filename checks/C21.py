"""C21 user supplied spectroscopic parameters are exactly what the simulation uses."""
import copy
import numpy as np
from vlib import ref, gen, repo, scen
from vlib.core import subseed

PROPERTY = 'C21'
RULE = ('one case = water x oxygen x ozone model with a random subset of spectroscopic parameters perturbed (whole arrays, single lines, in '
        'place or replaced), near the perturbed lines; point absorption and whole simulations are compared with the reference model on the '
        'equally modified line list; unperturbed sets must reproduce the nominal model; published values; sensitivity of each parameter.')
REQUIRE = {'published': 150, 'nominal': 100, 'perturbed-water': 300, 'perturbed-oxygen': 300, 'perturbed-ozone': 100, 'simulated': 60,
           'restored': 100, 'sensitive': 300}
OLD = ('R98', 'R03', 'R16', 'R17')
NOEFFECT = {'w2a': 'w2a', 'Snr': 'Snr', 'X11': 'X11', 'X16': 'X16', 'O2_nS': 'O2_nS', 'wv_nS': 'wv_nS'}


def water_map(model):
    m = dict(con_Cf='cf', con_Cs='cs', con_Xf='xcf', con_Xs='xcs', FL='fl', S='s1', B2='b2', gamma_a='w0', gamma_w='w0s', n_a='x', n_w='xs')
    if model not in OLD:
        m.update(n_da='xh', n_dw='xhs', delta_a='sh', delta_w='shs')
    elif model != 'R98':
        m.update(SR='sr')
    return m


def oxygen_map(model):
    m = dict(O2FL='f', O2S='s300', O2BE='be', O2gamma='w300', WB300='wb300', X05='x')
    if model in ('R16', 'R20', 'R20SD', 'R22', 'R23', 'R24'):
        m.update(y1='y1', dnu0='dnu0', dnu1='dnu1')
        m.update({'Y300': 'y300'} if model in ('R23', 'R24') else {'y0': 'y0'})
    else:
        m.update(O2_V='v', Y300='y300')
    return m


OZONE = dict(O3_FL='fl', O3_S1='s1', O3_B='b', O3_W='w', O3_X='x')
ZERO = ('delta_a', 'delta_w', 'n_a', 'n_w', 'n_da', 'n_dw', 'SR', 'S', 'B2', 'y0', 'y1', 'dnu0', 'dnu1', 'Y300', 'O2_V', 'O2S', 'O2BE', 'O3_S1', 'O3_B', 'O3_X')
MILLI = ('gamma_a', 'gamma_w', 'delta_a', 'delta_w')


def cases(tier, seed):
    n = 12 if tier == 'quick' else 150
    out = [dict(seed=subseed('C21', seed, i, m), h2o=m, i=i) for i in range(n) for m in ref.H2O_MODELS]
    return out + [dict(seed=subseed('C21r', seed, i), run=True) for i in range(90 if tier == 'quick' else 1200)]


def load(h, o, o3):
    from pyrtlib.uncertainty import SpectroscopicParameter as SP
    d = {**SP.water_parameters(h), **SP.oxygen_parameters(o)}
    if o3:
        d.update(SP.ozono_parameters(o3))
    return copy.deepcopy(d)


def lists(d, h, o, o3):
    """line lists of the reference model with the values of a parameter set."""
    LH, LO = ref.h2o_lines(h), ref.o2_lines(o)
    for k, v in water_map(h).items():
        x = d[k].value
        LH[v] = np.asarray(x, float) / 1000. if k in MILLI else (float(x) if np.ndim(x) == 0 else np.array(x, float))
    if h in OLD:
        LH['cf'] *= d['con_Cf_factr'].value
        LH['cs'] *= d['con_Cs_factr'].value
    for k, v in oxygen_map(o).items():
        x = d[k].value
        LO[v] = float(x) if np.ndim(x) == 0 else np.array(x, float)
    LO['w300'][34:49] = d['O2gamma_NL'].value[34:49]
    if 'O2_V' in d:
        LO['y300'][34:49] = d['Y300_NL'].value[34:49]
        LO['v'][34:49] = d['O2_V_NL'].value[34:49]
    L3 = None
    if o3:
        L3 = ref.o3_lines(o3)
        for k, v in OZONE.items():
            L3[v] = np.array(d[k].value, float)
    return LH, LO, L3


def factors_one(d):
    d['con_Cf_factr'].value = d['con_Cs_factr'].value = 1.
    return d


def perturb(rng, d, key, amount=None):
    v = d[key].value
    a = amount or rng.uniform(.002, .1) * rng.choice([-1, 1])
    if not amount and rng.random() < .25:            # far from the published value
        a = float(rng.choice([.2, .5, 1.7, 3., 5.])) - 1.
    if key == 'con_Cs' and v < 0 and rng.random() < .7:      # a power law instead of the published self continuum table
        d[key].value = 1.42e-8 * (1 + a)
        d['con_Xs'].value = float(rng.uniform(4, 8))
        return None
    if np.ndim(v) == 0:
        d[key].value = float(v) * (1 + a) + (.01 if v == 0 else 0)
        return None
    small = 3e-5 if key in ('FL', 'O2FL', 'O3_FL') else 1.
    idx = int(rng.integers(len(v))) if rng.random() < .7 else slice(None)
    w = np.array(v, float)
    ref_ = np.abs(w).max() if w.any() else 1e-2
    w[idx] = w[idx] * (1 + a * small) + (np.abs(a) * .1 * ref_ * (w[idx] == 0) if small == 1. and key not in ('gamma_w',) else 0)
    if key in ZERO and rng.random() < .2:             # switched off: zero is a value like any other
        w[idx if rng.random() < .5 else slice(None)] = 0.
    if rng.random() < .5 and isinstance(v, np.ndarray) and v.flags.writeable:
        v[...] = w
    else:
        d[key].value = w
        twin = {'O2gamma': 'O2gamma_NL', 'Y300': 'Y300_NL', 'O2_V': 'O2_V_NL'}.get(key)
        if twin in d:
            d[twin].value = w.copy()
    return idx


def states(rng, n=6):
    t = rng.uniform(200, 310, n)
    p = 10 ** rng.uniform(1.5, 3.01, n)
    e = rng.uniform(0, .8, n) * np.minimum(ref.eswat(t), .1 * p)
    return p, t, e


def absorb(p, t, e, f, o3n, d):
    with repo.quiet():
        return repo.RTEquation.clearsky_absorption(p.copy(), t.copy(), e.copy(), float(f), None if o3n is None else o3n.copy(), d)


def evaluate(case, mon):
    rng = np.random.default_rng(case['seed'])
    if case.get('run'):
        return whole(case, mon, rng)
    h, o = case['h2o'], str(ref.O2_MODELS[case['i'] % len(ref.O2_MODELS)])
    o3 = str(rng.choice(['', '', *ref.O3_MODELS]))
    n2 = str(rng.choice(ref.N2_MODELS))
    ctx = dict(h2o=h, o2=o, o3=o3)
    with repo.quiet():
        d = load(h, o, o3)
    # published values
    LH, LO, L3 = ref.h2o_lines(h), ref.o2_lines(o), ref.o3_lines(o3) if o3 else None
    for mp, L in ((water_map(h), LH), (oxygen_map(o), LO), (OZONE if o3 else {}, L3)):
        for k, v in mp.items():
            mon.close('published', d[k].value, np.asarray(L[v]) * (1e3 if k in MILLI else 1.), 1e-12, 1e-300, key=k, **ctx)
            mon.check('published-uncertainty', np.ndim(d[k].uncer) == 0 or np.shape(d[k].uncer) == np.shape(d[k].value),
                      'uncertainty of another shape', key=k, **ctx)
    p, t, e = states(rng)
    o3n = 10 ** rng.uniform(16, 18.5, len(p)) if o3 else None

    def nominal(f):
        repo.select(h, o, n2, 'R20', o3)
        return absorb(p, t, e, f, o3n, None)

    def want(d, f):
        a, b, c = lists(d, h, o, o3)
        return (ref.h2o_abs(h, p, t, e, f, a), ref.dry_abs(o, n2, o3, p, t, e, f, o3n, b, c))

    def compare(rule, d, f, what):
        repo.select(h, o, n2, 'R20', o3)
        wet, dry = absorb(p, t, e, f, o3n, d)
        a, b = want(d, f)
        c = dict(ctx, f=float(f), what=what)
        mon.close(rule + '-water', wet, a, 1e-7, 1e-13 * np.abs(a).max(), **c)
        mon.close(rule + '-oxygen', dry, b, 1e-7, 1e-13 * np.abs(b).max(), **c)
        if o3:
            mon.count('evaluated:%s-ozone' % rule)
        return wet, dry
    one = factors_one(copy.deepcopy(d))
    f = gen.freq(rng)
    a = nominal(f)
    repo.select(h, o, n2, 'R20', o3)
    b = absorb(p, t, e, f, o3n, one)
    for x, y in zip(a, b):
        mon.close('nominal', y, x, 1e-11, 1e-300, f=float(f), **ctx)
    compare('unchanged', d, f, 'published set')
    # random subsets
    keys = list(water_map(h)) + list(oxygen_map(o)) + (list(OZONE) if o3 else []) + ['con_Cf_factr', 'con_Cs_factr']
    base = None
    for _ in range(6):
        q = copy.deepcopy(d)
        chosen = [str(k) for k in rng.choice(keys, size=int(rng.integers(1, 5)), replace=False)]
        at = None
        for k in chosen:
            idx = perturb(rng, q, k)
            if isinstance(idx, int):
                fl = q['FL'].value if k in water_map(h) else q['O2FL'].value if k in oxygen_map(o) else q['O3_FL'].value
                at = float(fl[idx])
        f = at * (1 + rng.normal() * 3e-4) + rng.normal() * .3 if at is not None and 2 < at < 990 and rng.random() < .8 else gen.freq(rng)
        f = float(np.clip(f, 1., 999.))
        w, dr = compare('perturbed', q, f, ','.join(sorted(chosen)))
        mon.state(h, o, o3 or '-', *sorted(chosen)[:1])
    # a perturbed call is forgotten by the next selection
    c = nominal(f)
    A, B = ref.h2o_abs(h, p, t, e, f), ref.dry_abs(o, n2, o3, p, t, e, f, o3n)
    mon.close('restored', c[0], A, 1e-7, 1e-13 * np.abs(A).max(), f=f, **ctx)
    mon.close('restored', c[1], B, 1e-7, 1e-13 * np.abs(B).max(), f=f, **ctx)
    # every documented parameter has an effect (where the formula lets it)
    for k in [str(x) for x in rng.choice(sorted(d), size=4, replace=False)]:
        if k not in keys and k not in NOEFFECT:
            continue
        q = copy.deepcopy(d)
        v = q[k].value
        q[k].value = np.array(v, float) * 1.01 if np.ndim(v) else float(v) * 1.3 + .01
        if np.ndim(v):
            for twin in ('O2gamma_NL', 'Y300_NL', 'O2_V_NL'):
                if twin == k + '_NL' and twin in q:
                    q[twin].value = q[k].value.copy()
        f = float(rng.choice([22.3, 60.2, 118.9, 183.5, 556., 31.4, 150., 110.85]))
        repo.select(h, o, n2, 'R20', o3)
        x = absorb(p, t, e, f, o3n, q)
        repo.select(h, o, n2, 'R20', o3)
        y = absorb(p, t, e, f, o3n, d)
        same = np.array_equal(x[0], y[0]) and np.array_equal(x[1], y[1])
        mon.count('evaluated:sensitive')
        if k in NOEFFECT:
            if same:
                mon.finding('no-effect-' + k, 'parameter %s changes nothing' % k)
            continue
        u, v2 = want(q, f), want(d, f)
        moved = max(np.max(np.abs(u[i] - v2[i]) / np.abs(v2[i]).max()) for i in (0, 1))
        if k in ('con_Cf', 'con_Cs', 'con_Cf_factr', 'con_Cs_factr', 'con_Xf', 'con_Xs') and h in ('R98', 'R03', 'MWL24'):
            if same:
                mon.finding('no-effect-continuum-' + h, 'parameter %s changes nothing with %s' % (k, h))
            continue
        mon.check('sensitive', not (same and moved > 1e-12), 'parameter %s changes nothing' % k, f=f, **ctx)
    mon.sample = dict(ctx, f=f, keys=keys[:6])


def whole(case, mon, rng):
    s = scen.make(case['seed'], None, nf=2, na=1, cloud=False, rt=False, ozone=bool(rng.random() < .4), lo_angle=20.)
    m, p = s['models'], s['prof']
    h, o, o3 = m['h2o'], m['o2'], m.get('o3', '') if s['o3n'] is not None else ''
    s['orient'] = 'up'
    with repo.quiet():
        d = load(h, o, o3)
    keys = list(water_map(h)) + list(oxygen_map(o)) + (list(OZONE) if o3 else [])
    for k in rng.choice(keys, size=int(rng.integers(1, 6)), replace=False):
        perturb(rng, d, str(k))
    LH, LO, L3 = lists(d, h, o, o3)
    if o3:
        s['frq'][0] = float(np.clip(L3['fl'][rng.integers(len(L3['fl']))] + rng.normal() * .02, 1, 999))
    R = scen.run(s, amu=d)
    Q = scen.reference(s, lines=dict(h2o=LH, o2=LO, o3=L3))
    ctx = dict(h2o=h, o2=o, o3=o3, kind=p['kind'])
    for q in ('awet', 'adry'):
        mon.close('simulated', R[q][:, 0], Q[q][:, 0], 1e-7, 1e-13 * np.abs(Q[q]).max(), key=q, **ctx)
    if (Q['adry'] >= 0).all():
        for q in ('tauwet', 'taudry', 'tbtotal'):
            mon.close('simulated', R[q], Q[q], 1e-6, 1e-12, key=q, **ctx)
    # the same parameters handed over later
    k = scen.inputs(s)
    with repo.quiet():
        repo.select(h, o, m['n2'], m['liq'], m.get('o3', ''), load=False)
        r = repo.TbCloudRTE(k['z'], k['p'], k['t'], k['rh'], k['frq'], k['angles'], o3n=k['o3n'], ray_tracing=False, from_sat=s['sat'])
        if k['emis'] is not None:
            r.emissivity = k['emis']
        r.set_amu(d)
        late = repo.unpack(*r.execute(only_bt=False), k['frq'], k['angles'])
    mon.identical('late', late['tbtotal'], R['tbtotal'], **ctx)
    mon.identical('late', late['awet'], R['awet'], **ctx)
    mon.state('run', h, o, o3 or '-')
