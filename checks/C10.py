"""C10 results depend on the current inputs only, not on what ran before."""
import os
import pickle
import numpy as np
from vlib import ref, gen, repo, scen
from vlib.core import subseed

PROPERTY = 'C10'
RULE = ('one case = a target computation run (a) in a pristine process and (b) after a random history of 1-6 other operations '
        '(other models, perturbed parameters, clouds, ozone, failing runs, weighting functions, climatology, extrapolation) in '
        'another process forked from the same pristine state; the event logs of both must be bit identical. Plus re-execution '
        'of one object with settings changed and restored, and random schedules of 2-4 objects (simulations, weighting functions) that are '
        'constructed, set and executed in interleaved order, each compared with itself alone; and targets after operations that nearly equal them (one level, angle, channel, '
        'model or latitude changed), in the same process or on the same object.')
REQUIRE = {'history': 150, 're-execute': 60, 'interleaved': 120, 'twin': 200, 'settings': 70}
TARGETS = ['run', 'run', 'run', 'cloud', 'ozone', 'amu', 'wf', 'profile', 'extra', 'params', 'direct']
OPS = ['run', 'cloud', 'ozone', 'amu', 'amu3', 'badmodel', 'badz', 'wf', 'profile', 'extra', 'params', 'utils', 'noexec', 'midfail', 'duct', 'direct']
TWINS = ['simulation', 'simulation', 'simulation', 'weighting', 'absorption']


def cases(tier, seed):
    n = 360 if tier == 'quick' else 4500
    a = [dict(seed=subseed('C10', seed, i), target=TARGETS[i % len(TARGETS)]) for i in range(n)]
    b = [dict(seed=subseed('C10r', seed, i), reexec=True) for i in range(100 if tier == 'quick' else 1200)]
    c = [dict(seed=subseed('C10i', seed, i), inter=True) for i in range(70 if tier == 'quick' else 900)]
    d = [dict(seed=subseed('C10t', seed, i), twin=TWINS[i % len(TWINS)]) for i in range(80 if tier == 'quick' else 1200)]
    e = [dict(seed=subseed('C10e', seed, i), twin='extrapolation') for i in range(400 if tier == 'quick' else 8000)]
    f = [dict(seed=subseed('C10s', seed, i), sched=True) for i in range(120 if tier == 'quick' else 1500)]
    return a + b + c + d + e + f


def child(fn):
    """run fn in a forked copy of this (pristine) process; return its result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ('ok', fn())
            except BaseException as exc:  # noqa: B036
                out = ('error', type(exc).__name__ + ': ' + str(exc))
            with os.fdopen(w, 'wb') as fh:
                pickle.dump(out, fh)
        except BaseException:  # noqa: B036
            code = 1
        os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as fh:
            return pickle.load(fh)
    finally:
        try:
            os.waitpid(pid, 0)
        except BaseException:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            raise


def frame(df):
    return {c: np.asarray(df[c].values) for c in df.columns}


def sim(s, **over):
    with repo.quiet():
        R = scen.run(s, **over)
    return {k: np.array(v) for k, v in R.items()}


def amu_for(m, rng, scale=.02):
    from pyrtlib.uncertainty import SpectroscopicParameter as SP
    p = {**SP.water_parameters(m['h2o']), **SP.oxygen_parameters(m['o2'])}
    for k in ('gamma_a', 'S', 'O2S', 'O2gamma', 'con_Cf', 'delta_a', 'O2FL', 'WB300'):
        if k in p:
            p[k].value = p[k].value * (1. + scale * rng.normal())
    return p


def do(name, seed):
    """one operation; returns every observable number."""
    rng = np.random.default_rng(seed)
    with repo.quiet():
        if name in ('run', 'cloud', 'ozone'):
            s = scen.make(seed, nf=2, na=2, cloud=name == 'cloud', ozone=name == 'ozone', nl=int(rng.integers(8, 22)))
            if name == 'ozone':
                s['frq'][0] = ref.o3_lines(s['models']['o3'])['fl'][rng.integers(20)] + .002
            if scen.ducts(s):
                s['rt'] = False
            return sim(s)
        if name in ('amu', 'amu3'):
            s = scen.make(seed, nf=2, na=1, cloud=False, ozone=name == 'amu3', rt=False, nl=12)
            a = amu_for(s['models'], rng)
            if name == 'amu3':
                from pyrtlib.uncertainty import SpectroscopicParameter as SP
                q = SP.ozono_parameters(s['models']['o3'])
                q['O3_S1'].value = q['O3_S1'].value * 1.3
                a.update(q)
                s['frq'][0] = ref.o3_lines(s['models']['o3'])['fl'][rng.integers(20)] + .002
            return sim(s, amu=a)
        if name == 'badmodel':
            s = scen.make(seed, nf=1, na=1, cloud=False, ozone=False, nl=10)
            try:
                sim(s, models=dict(s['models'], **{str(rng.choice(['h2o', 'o2'])): 'XX'}))
            except repo.AbsModelError as e:
                return str(e.model)
            return 'none'
        if name == 'midfail':           # fails half way through: unknown nitrogen model
            s = scen.make(seed, nf=1, na=1, cloud=False, ozone=False, nl=10)
            try:
                sim(s, models=dict(s['models'], n2='XX'))
            except ValueError as e:
                return 'ValueError'
            return 'none'
        if name == 'badz':
            try:
                repo.TbCloudRTE(np.array([0., 2., 1.]), np.array([1000., 900., 800.]), np.full(3, 280.), np.full(3, .5), np.array([50.]))
            except SystemExit:
                return 'exit'
            return 'none'
        if name == 'duct':
            z = np.linspace(0, 30, 15)
            s = scen.make(seed, nf=1, na=1, cloud=False, ozone=False, nl=15)
            s['ang'] = np.array([.05])
            s['rt'] = True
            try:
                sim(s)
            except Exception as e:
                return type(e).__name__
            return 'ran'
        if name == 'noexec':
            s = scen.make(seed, nf=1, na=1, cloud=False, ozone=False, nl=10)
            k = scen.inputs(s)
            r = repo.TbCloudRTE(k['z'], k['p'], k['t'], k['rh'], k['frq'], k['angles'], absmdl=str(rng.choice(ref.COMMON_MODELS)))
            r.emissivity = .3
            r.satellite = False
            r.ice = True
            return None
        if name == 'wf':
            from pyrtlib.weighting_functions import WeightingFunctions as W
            p = gen.profile(rng, 'std', 14)
            w = W(p['z'], p['p'], p['t'], p['rh'], float(rng.choice([2., 4.])))
            w.model = str(rng.choice(ref.COMMON_MODELS))
            w.frequencies = gen.freqs(rng, 2)
            w.satellite = bool(rng.random() < .5)
            w.angle = float(rng.uniform(30, 90))
            return w.generate_wf()
        if name == 'profile':
            from pyrtlib.climatology import AtmosphericProfiles as A
            i = int(rng.integers(0, 6))
            return [np.array(x) for x in A.gl_atm(i)] + [np.array(A.gl_atm_minor(int(rng.integers(7, 27)))),
                                                        np.array(A.gl_atm_trace(int(rng.integers(28, 43))))]
        if name == 'extra':
            from pyrtlib.climatology import ProfileExtrapolation as E
            e = E()
            p = gen.profile(rng, 'shallow', 12)
            lat, mon = float(rng.uniform(-80, 80)), int(rng.integers(1, 13))
            out = [np.array(x) for x in e.profile_extrapolation(lat, mon, p['z'], (p['p'], p['t'], p['rh']))[1]]
            h = np.linspace(0, 90, 31)
            return out + [np.array(e.standard_temperature(h, 288.15)), np.array(e.temperature(lat, np.linspace(0, 99, 12), 'summer')),
                          np.array(e.pressure(lat, np.linspace(0, 99, 12), 'winter')), np.array(e.height)]
        if name == 'params':
            from pyrtlib.uncertainty import SpectroscopicParameter as SP, AbsModUncertainty as U
            m = str(rng.choice(ref.H2O_MODELS))
            p = SP.water_parameters(m)
            p['gamma_a'].uncer = p['gamma_a'].value * .1
            SP.set_parameters(p)
            q = U.parameters_perturbation(['gamma_a'], str(rng.choice(['max', 'min'])), index=int(rng.integers(0, 5)))
            o = str(rng.choice(ref.O2_MODELS))
            po = SP.oxygen_parameters(o)
            return [np.array(q[k].value) for k in sorted(q)] + [np.array(po[k].value) for k in sorted(po)]
        if name == 'direct':
            m, o, n2 = str(rng.choice(ref.H2O_MODELS)), str(rng.choice(ref.O2_MODELS)), str(rng.choice(ref.N2_MODELS))
            repo.select(m, o, n2, str(rng.choice(ref.LIQ_MODELS)), '')
            t = rng.uniform(200, 300, 4)
            p = rng.uniform(10, 1000, 4)
            return [np.array(x) for x in repo.RTEquation.clearsky_absorption(p, t, .003 * p, gen.freq(rng))]
        if name == 'utils':
            u = repo.utils
            t = rng.uniform(230, 300, 4)
            return [np.array(u.get_frequencies('hat')), np.array(u.get_frequencies_sat('MWS')), u.eswat_goffgratch(t),
                    np.array(u.constants('planck')[0]), u.virtual_temperature(t, np.full(4, 5.))]
    raise KeyError(name)


def equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return sorted(a) == sorted(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    return a == b or (a != a and b != b)


def differing(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return [k for k in a if k not in b or not equal(a[k], b[k])]
    return 'value'


def evaluate(case, mon):
    if case.get('inter'):
        return interleave(case, mon)
    if case.get('twin'):
        return twins(case, mon)
    if case.get('sched'):
        return settings(case, mon)
    if case.get('reexec'):
        return reexecute(case, mon)
    rng = np.random.default_rng(case['seed'])
    hist = [(str(rng.choice(OPS)), int(rng.integers(1 << 40))) for _ in range(rng.integers(1, 7))]
    target = (case['target'], int(rng.integers(1 << 40)))

    def after():
        for h in hist:
            do(*h)
        return do(*target)
    a = child(lambda: do(*target))
    b = child(after)
    if a[0] == 'error':
        mon.fail('no-crash', a[1], target=target)
        return
    if b[0] == 'error':
        mon.fail('no-crash', 'with history: ' + b[1], target=target, history=hist)
        return
    mon.check('history', equal(a[1], b[1]), 'result depends on earlier operations: %s' % (differing(a[1], b[1]),),
              target=target, history=hist)
    for h in hist:
        mon.state(h[0], '->', target[0])
    mon.sample = dict(target=target, history=hist)


def near(rng, x, inner=True):
    """the array with one element (not at the ends) changed, or all of the inner ones."""
    x = np.array(x, float)
    lo, hi = (1, len(x) - 1) if inner and len(x) > 2 else (0, len(x))
    f = 1 + float(rng.choice([-1, 1])) * float(rng.choice([1e-3, .05, .3]))
    if rng.random() < .5:
        x[lo:hi] *= f
    else:
        x[int(rng.integers(lo, hi))] *= f
    return x


def twin_simulation(seed, change):
    s = scen.make(seed, nf=2, na=2, nl=int(np.random.default_rng(seed).integers(8, 20)))
    if scen.ducts(s):
        s['rt'] = False
    if change is not None:
        rng = np.random.default_rng(change)
        p = s['prof']
        k = str(rng.choice(['rh', 'rh', 't', 'p', 'swap', 'frq', 'ang', 'sat', 'emis', 'model', 'cloud', 'o3n', 'rt']))
        if k in ('rh', 't', 'p'):
            p[k] = near(rng, p[k])
            if k == 'p':
                p[k] = np.minimum.accumulate(p[k])
        elif k == 'swap':                       # same sums and ends
            i = int(rng.integers(1, len(p['t']) - 2))
            p['t'], p['rh'] = p['t'].copy(), p['rh'].copy()
            p['t'][[i, i + 1]] = p['t'][[i + 1, i]]
            p['rh'][[i, i + 1]] = p['rh'][[i + 1, i]]
        elif k == 'frq':
            s['frq'] = s['frq'] + float(rng.choice([1e-3, .04, .4]))
        elif k == 'ang':
            s['ang'] = np.maximum(s['ang'] - float(rng.choice([.01, .4, 3.])), 2.)
        elif k == 'sat':
            s['sat'] = not s['sat']
        elif k == 'emis':
            s['emis'] = .6
        elif k == 'model':
            c = str(rng.choice(['h2o', 'o2', 'n2', 'liq']))
            s['models'] = dict(s['models'], **{c: str(rng.choice(dict(h2o=ref.H2O_MODELS, o2=ref.O2_MODELS, n2=ref.N2_MODELS,
                                                                      liq=ref.LIQ_MODELS)[c]))})
        elif k == 'cloud' and s['cloud'] is not None:
            s['cloud'] = dict(s['cloud'], liq=s['cloud']['liq'] * 1.5, ice=s['cloud']['ice'] * .5)
        elif k == 'o3n' and s['o3n'] is not None:
            s['o3n'] = near(rng, s['o3n'])
        elif k == 'rt':
            s['rt'] = False
        if scen.ducts(s):
            s['rt'] = False
        elif k == 'rh' and s['prof']['z'][0] >= 0 and rng.random() < .3:
            s['rt'] = True
    return sim(s)


def twin_weighting(seed, change):
    from pyrtlib.weighting_functions import WeightingFunctions as W
    rng = np.random.default_rng(seed)
    p = gen.profile(rng, 'std', 14)
    f, a, sat, m = gen.freqs(rng, 2), float(rng.uniform(30, 90)), bool(rng.random() < .5), str(rng.choice(ref.COMMON_MODELS))
    if change is not None:
        q = np.random.default_rng(change)
        k = str(q.choice(['rh', 't', 'frq', 'ang', 'sat', 'model']))
        if k in p:
            p[k] = near(q, p[k])
        f = f + (.3 if k == 'frq' else 0)
        a = a - (2. if k == 'ang' else 0)
        sat ^= k == 'sat'
        m = str(q.choice(ref.COMMON_MODELS)) if k == 'model' else m
    with repo.quiet():
        w = W(p['z'], p['p'], p['t'], p['rh'], 2.)
        w.model, w.frequencies, w.satellite, w.angle = m, f, sat, a
        return np.array(w.generate_wf())


def twin_absorption(seed, change):
    rng = np.random.default_rng(seed)
    n = 6
    t, p = np.sort(rng.uniform(200, 300, n))[::-1], np.sort(rng.uniform(10, 1000, n))[::-1]
    e, f = .003 * p, gen.freq(rng)
    m = gen.models(rng)
    if change is not None:
        q = np.random.default_rng(change)
        k = int(q.integers(4))
        t, p, e = (near(q, x) if i == k else x for i, x in enumerate((t, p, e)))
        f = f + (float(q.choice([1e-3, .3])) if k == 3 else 0)
    with repo.quiet():
        repo.select(m['h2o'], m['o2'], m['n2'], m['liq'], '')
        return [np.array(x) for x in repo.RTEquation.clearsky_absorption(p, t, e, f)] + \
            [np.array(x) for x in repo.RTEquation.refractivity(p, t, e)] + \
            [np.array(x) for x in repo.RTEquation.cloudy_absorption(t, np.full(n, .2), np.full(n, .1), f)]


def twins(case, mon):
    """the history consists of operations that nearly equal the target."""
    rng = np.random.default_rng(case['seed'])
    seed = int(rng.integers(1 << 40))
    near_ = [int(rng.integers(1 << 40)) for _ in range(int(rng.integers(1, 4)))]
    if case['twin'] == 'extrapolation':
        return twin_extrapolation(rng, mon)
    fn = dict(simulation=twin_simulation, weighting=twin_weighting, absorption=twin_absorption)[case['twin']]

    def after():
        for c in near_:
            fn(seed, c)
        return fn(seed, None)
    a, b = child(lambda: fn(seed, None)), child(after)
    if 'error' in (a[0], b[0]):
        mon.fail('no-crash', (a if a[0] == 'error' else b)[1], kind=case['twin'], seed=seed)
        return
    mon.check('twin', equal(a[1], b[1]), '%s depends on an earlier, nearly equal one: %s' % (case['twin'], differing(a[1], b[1])),
              seed=seed, changes=near_)
    mon.state('twin', case['twin'], len(near_))


def twin_extrapolation(rng, mon):
    """one object asked several times answers like a fresh object each time."""
    from pyrtlib.climatology import ProfileExtrapolation as E
    p = gen.profile(rng, str(rng.choice(['shallow', 'std'])), 12)
    z = p['z'] - min(p['z'][0], 0)
    if z.max() > 40:
        z = z * 20 / z.max()
    edges = np.array([0, 20, 22, 45, 90])
    calls = []
    for _ in range(int(rng.integers(3, 9))):
        lat = float(rng.choice(edges) + rng.normal() * float(rng.choice([.2, 1., 3.]))) if rng.random() < .6 else float(rng.uniform(-89, 89))
        lat = float(np.clip(lat, -89, 89)) * float(rng.choice([-1, 1]))
        if abs(abs(lat) - 45) < 1e-6 or abs(abs(lat) - 22) < 1e-6:
            lat += .01
        calls.append((lat, int(rng.integers(1, 13)), str(rng.choice(['all', 'all', 'all', 'temperature', 'pressure', 'density'])),
                      str(rng.choice(['summer', 'winter'])), bool(rng.random() < .3)))
    h = np.linspace(0, 99, 12)

    def ask(e, c):
        lat, month, what, season, other = c
        if what == 'all':
            q = (p['p'], p['t'] * (1.01 if other else 1), p['rh'])
            return [np.array(x) for x in e.profile_extrapolation(lat, month, z, q)]
        f = dict(temperature=e.temperature, pressure=e.pressure, density=e.water_vapour_density)[what]
        return [np.array(f(lat, h, season))]
    with repo.quiet():
        one = E()
        got = [ask(one, c) for c in calls]
        want = [ask(E(), c) for c in calls]
    for i, (a, b) in enumerate(zip(got, want)):
        mon.check('twin', equal(a, b), 'call %d of one extrapolation object differs from a fresh object' % i, calls=calls)
    mon.state('twin', 'extrapolation', len(calls))


class Simulation:
    """one object of the library, operated step by step."""

    def __init__(self, seed, m):
        self.s = s = scen.make(seed, nf=2, na=2, nl=12, models=m, ozone=None)
        if s['o3n'] is None:
            s['models'] = dict(s['models'], o3=m['o3'])
        if scen.ducts(s):
            s['rt'] = False
        self.rng = np.random.default_rng(seed + 11)
        self.steps = ['make'] + [str(x) for x in self.rng.permutation(['emissivity', 'cloud', 'satellite'])] + ['run', 'satellite', 'run']
        self.values = [(float(self.rng.uniform(.1, 1)), bool(self.rng.random() < .5)) for _ in self.steps]
        self.k = scen.inputs(s)
        self.out = []
        self.at = 0

    def step(self):
        k, s, name, (em, sat) = self.k, self.s, self.steps[self.at], self.values[self.at]
        self.at += 1
        if name == 'make':
            self.r = repo.TbCloudRTE(k['z'], k['p'], k['t'], k['rh'], k['frq'], k['angles'], o3n=k['o3n'], ray_tracing=s['rt'],
                                     from_sat=s['sat'], cloudy=s['cloud'] is not None)
        elif name == 'emissivity':
            self.r.emissivity = em
        elif name == 'cloud' and k['cloud'] is not None:
            self.r.init_cloudy(*k['cloud'])
        elif name == 'satellite':
            self.r.satellite = sat
        elif name == 'run':
            R = repo.unpack(*self.r.execute(only_bt=False), k['frq'], k['angles'])
            self.out.append({q: np.array(v) for q, v in R.items()})
        return self.at < len(self.steps)


class Weighting:
    def __init__(self, seed, m):
        self.rng = np.random.default_rng(seed)
        self.p = gen.profile(self.rng, 'std', 14)
        self.steps = ['make'] + [str(x) for x in self.rng.permutation(['frq', 'satellite', 'angle'])] + ['run', 'angle', 'run']
        self.f = gen.freqs(self.rng, 2)
        self.values = [(float(self.rng.uniform(30, 90)), bool(self.rng.random() < .5)) for _ in self.steps]
        self.model = str(self.rng.choice(ref.COMMON_MODELS))
        self.out = []
        self.at = 0

    def step(self):
        from pyrtlib.weighting_functions import WeightingFunctions as W
        name, (ang, sat) = self.steps[self.at], self.values[self.at]
        self.at += 1
        if name == 'make':
            self.w = W(self.p['z'], self.p['p'], self.p['t'], self.p['rh'], .1)
            self.w.model = self.model
        elif name == 'frq':
            self.w.frequencies = self.f
        elif name == 'satellite':
            self.w.satellite = sat
        elif name == 'angle':
            self.w.angle = ang
        elif name == 'run':
            self.out.append({'wf': np.array(self.w.generate_wf())})
        return self.at < len(self.steps)


def interleave(case, mon):
    rng = np.random.default_rng(case['seed'])
    m = gen.models(rng)
    m['o3'] = str(rng.choice(['', *ref.O3_MODELS]))
    kinds = [Simulation if rng.random() < .8 else Weighting for _ in range(int(rng.integers(2, 5)))]
    seeds = [int(rng.integers(1 << 40)) for _ in kinds]
    order = int(rng.integers(1 << 40))

    def sel():
        repo.select(m['h2o'], m['o2'], m['n2'], m['liq'], m['o3'], load=False)

    def alone(i):
        def fn():
            with repo.quiet():
                o = kinds[i](seeds[i], m)
                sel()
                while o.step():
                    sel()
            return o.out
        return fn

    def together():
        q = np.random.default_rng(order)
        with repo.quiet():
            objs = [c(s, m) for c, s in zip(kinds, seeds)]
            live = list(range(len(objs)))
            burst = q.random() < .5
            if burst:                                   # every object exists before the first one runs
                for i in live:
                    for _ in range(int(q.integers(1, 4))):
                        objs[i].step()
            trace = []
            while live:
                i = int(q.choice(live))
                sel()
                trace.append(i)
                if not objs[i].step():
                    live.remove(i)
        return [o.out for o in objs], trace
    st, got = child(together)
    if st == 'error':
        mon.fail('no-crash', 'interleaved: ' + got)
        return
    got, trace = got
    for i in range(len(kinds)):
        st, want = child(alone(i))
        if st == 'error':
            mon.fail('no-crash', 'alone: ' + want)
            continue
        for n, (a, b) in enumerate(zip(want, got[i])):
            mon.check('interleaved', equal(a, b), 'object %d of %d, run %d differs beside others: %s' % (i, len(kinds), n, differing(a, b)),
                      schedule=trace)
        mon.check('interleaved', len(want) == len(got[i]), 'number of runs')
    mon.state('schedule', *trace)
    mon.sample = dict(schedule=trace, objects=[k.__name__ for k in kinds])


def reexecute(case, mon):
    s = scen.make(case['seed'], nf=2, na=2, nl=12)
    if scen.ducts(s):
        s['rt'] = False
    rng = s['rng']
    k = scen.inputs(s)

    def fn():
        with repo.quiet():
            m = s['models']

            def sel():
                repo.select(m.get('h2o'), m.get('o2'), m.get('n2'), m.get('liq'), m.get('o3', ''), load=False)
            sel()
            r = repo.TbCloudRTE(k['z'], k['p'], k['t'], k['rh'], k['frq'], k['angles'], o3n=k['o3n'], ray_tracing=s['rt'],
                                from_sat=s['sat'], cloudy=s['cloud'] is not None)
            if k['cloud'] is not None:
                r.init_cloudy(*k['cloud'])
            if s['emis'] is not None:
                r.emissivity = s['emis']
            es = np.array(r.emissivity)
            a = repo.unpack(*r.execute(only_bt=False), k['frq'], k['angles'])
            a = {q: np.array(v) for q, v in a.items()}
            b = repo.unpack(*r.execute(only_bt=False), k['frq'], k['angles'])
            b = {q: np.array(v) for q, v in b.items()}
            # change settings, run, restore
            r.satellite = not s['sat']
            r.emissivity = .37
            repo.select(str(rng.choice(ref.H2O_MODELS)), str(rng.choice(ref.O2_MODELS)), None, m.get('liq'), '', load=False)
            other = repo.unpack(*r.execute(only_bt=False), k['frq'], k['angles'])
            # a second object in between
            sel()
            r2 = repo.TbCloudRTE(k['z'], k['p'], k['t'], k['rh'], k['frq'], k['angles'], o3n=k['o3n'], ray_tracing=s['rt'],
                                 from_sat=not s['sat'])
            r2.emissivity = .11
            two = repo.unpack(*r2.execute(only_bt=False), k['frq'], k['angles'])
            sel()
            r.satellite = s['sat']
            r.emissivity = es
            c = repo.unpack(*r.execute(only_bt=False), k['frq'], k['angles'])
            # the interleaved object computes what it computes alone
            r3 = repo.TbCloudRTE(k['z'], k['p'], k['t'], k['rh'], k['frq'], k['angles'], o3n=k['o3n'], ray_tracing=s['rt'],
                                 from_sat=not s['sat'])
            r3.emissivity = .11
            three = repo.unpack(*r3.execute(only_bt=False), k['frq'], k['angles'])
        return a, b, c, two, three
    st, out = child(fn)
    if st == 'error':
        mon.fail('no-crash', out)
        return
    a, b, c, two, three = out
    mon.check('re-execute', equal(a, b), 'second execution differs: %s' % differing(a, b))
    mon.check('re-execute', equal(a, c), 'execution after changing and restoring settings differs: %s' % differing(a, c))
    mon.check('re-execute', equal(two, three), 'interleaved objects influence each other: %s' % differing(two, three))
    mon.state('re-execute', 'sat' if s['sat'] else 'ground', 'cloud' if s['cloud'] else 'clear', s['orient'], 'rt' if s['rt'] else 'pp')


def settings(case, mon):
    """one object: a random sequence of changed settings, executed in between or only at the end."""
    na = 1 + case['seed'] // 2 % 2
    s = scen.make(case['seed'], nf=1 + case['seed'] // 4 % 2, na=na, nl=12, cloud=bool(case['seed'] % 2), rt=case['seed'] // 8 % 3 > 0, lo_angle=25.)
    if scen.ducts(s):
        s['rt'] = False
    nf = len(s['frq'])
    rng = s['rng']
    k = scen.inputs(s)
    p = s['prof']
    nl = len(p['z'])
    m = s['models']

    def ok(ang):
        q = dict(s, ang=ang, rt=True)
        return not scen.ducts(q)
    ops = []
    for _ in range(int(rng.integers(2, 7))):
        what = str(rng.choice(['tk', 'tk aloft', 'tk aloft', 'p', 'rh', 'rh aloft', 'angles', 'frq', 'path', 'satellite', 'emissivity', 'cloudy', 'cloud', 'o3n', 'z']))
        if what == 'tk':
            v = p['t'] * (1 + rng.uniform(-.02, .02, nl))
        elif what == 'tk aloft':
            v, what = np.where(np.arange(nl) >= nl // 2, p['t'] + rng.uniform(-9, 9), p['t']), 'tk'
        elif what == 'p':
            v = p['p'] * rng.uniform(.98, 1.02)
        elif what == 'rh':
            v = p['rh'] * rng.uniform(.5, 1)
        elif what == 'rh aloft':
            v, what = np.where(np.arange(nl) >= nl // 2, p['rh'] * rng.uniform(.3, 1), p['rh']), 'rh'
        elif what == 'angles':
            v = rng.uniform(30, 89, na) if rng.random() < .5 else s['ang'][::-1].copy()
        elif what == 'frq':
            v = gen.freqs(rng, nf) if rng.random() < .5 else s['frq'][::-1].copy()
        elif what == 'path':
            v = bool(rng.integers(2)) and ok(np.array([90., 30.]))
        elif what == 'satellite':
            v = bool(rng.integers(2))
        elif what == 'emissivity':
            v = float(rng.uniform(0, 1)) if rng.random() < .5 else rng.uniform(0, 1, nf)
        elif what == 'cloudy':
            if not s['cloud']:
                continue
            v = bool(rng.integers(2))
        elif what == 'cloud':
            if not s['cloud']:
                continue
            c = k['cloud']
            v = (c[0], c[1] * rng.uniform(0, 2), c[2] * rng.uniform(0, 2))
        elif what == 'o3n':
            if not m.get('o3'):
                continue
            v = None if rng.random() < .4 else np.abs(rng.normal(1e18, 3e17, nl))
        else:
            v = (p['z'] - p['z'][0]) * rng.uniform(.97, 1.03)
        ops.append((what, v))
    ops.append(('satellite', s['sat']))
    ran = [bool(rng.random() < .6) for _ in ops]
    ran[int(rng.integers(len(ops) - 1)) if len(ops) > 1 else 0] = True

    def fn(between):
        with repo.quiet():
            def sel():
                repo.select(m.get('h2o'), m.get('o2'), m.get('n2'), m.get('liq'), m.get('o3', ''), load=False)
            sel()
            r = repo.TbCloudRTE(k['z'], k['p'], k['t'], k['rh'], k['frq'], k['angles'], o3n=k['o3n'], ray_tracing=s['rt'],
                                from_sat=s['sat'], cloudy=s['cloud'] is not None)
            if k['cloud'] is not None:
                r.init_cloudy(*k['cloud'])
            if between:
                r.execute()
            for (what, v), go in zip(ops, ran):
                v = np.array(v) if isinstance(v, np.ndarray) else v
                if what == 'path':
                    r.ray_tracing = v
                elif what == 'cloud':
                    if r.cloudy:
                        r.init_cloudy(*v)
                elif what == 'angles' and r.ray_tracing and not ok(v):
                    r.ray_tracing = False
                    r.angles = v
                else:
                    setattr(r, what, v)
                if between and go:
                    try:
                        r.execute()
                    except ValueError:
                        pass
            return repo.unpack(*r.execute(only_bt=False), r.frq, r.angles)
    a, b = child(lambda: fn(False)), child(lambda: fn(True))
    if a[0] == 'error' or b[0] == 'error':
        mon.check('settings', a[0] == b[0], 'only one of the two histories failed: %s' % (a[1] if a[0] == 'error' else b[1]), ops=[o[0] for o in ops])
        mon.count('settings: refused')
        return
    mon.check('settings', equal(a[1], b[1]), 'the result after a change of settings depends on executions before: %s' % differing(a[1], b[1]),
              ops=[o[0] for o in ops])
    for o in ops:
        mon.state('settings', o[0], 'rt' if s['rt'] else 'pp')
