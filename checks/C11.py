"""C11 inputs are left untouched and results belong to the caller."""
import copy
import numpy as np
from vlib import ref, gen, repo, scen
from vlib.core import subseed

PROPERTY = 'C11'
RULE = ('one case = one public operation called with arguments that are snapshotted (bytes) before and after, once writable, once '
        'read-only and once as strided views; every returned array is tested for shared memory with the arguments, overwritten, and '
        'the call repeated: the repetition must give the bytes of the first call.')
REQUIRE = {'inputs-untouched': 150, 'result-independent': 150, 'read-only': 100, 'no-alias': 150}
OPS = ['run', 'run', 'cloud', 'cloud', 'ozone', 'amu', 'wf', 'extra', 'profile', 'units', 'units', 'freq', 'perturb', 'parts', 'parts', 'thick']


def cases(tier, seed):
    n = 320 if tier == 'quick' else 4200
    return [dict(seed=subseed('C11', seed, i), op=OPS[i % len(OPS)]) for i in range(n)]


def arrays(o, path=''):
    """all numpy arrays reachable from a value."""
    if isinstance(o, np.ndarray):
        yield path, o
    elif isinstance(o, dict):
        for k, v in o.items():
            yield from arrays(v, path + '/' + str(k))
    elif isinstance(o, (list, tuple)):
        for i, v in enumerate(o):
            yield from arrays(v, path + '/%d' % i)
    elif hasattr(o, 'columns') and hasattr(o, 'values'):
        for c in o.columns:
            yield path + '/' + str(c), o[c].values
    elif type(o).__name__ == 'SpectroscopicParameter':
        yield from arrays(vars(o), path)


def snap(o):
    out = {}
    for k, v in arrays(o):
        out[k] = (v.shape, v.dtype.str, np.ascontiguousarray(v).tobytes())
    return out


def scalars(o):
    if isinstance(o, dict):
        return {k: scalars(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [scalars(v) for v in o]
    if type(o).__name__ == 'SpectroscopicParameter':
        return {k: scalars(v) for k, v in vars(o).items()}
    return o if isinstance(o, (int, float, str, bool, type(None))) else None


def strided(a):
    """same values, not contiguous."""
    b = np.empty(2 * a.size, a.dtype)
    b[::2] = a.ravel()
    b[1::2] = -999 if a.dtype.kind in 'if' else b[::2]
    return b[::2].reshape(a.shape) if a.ndim == 1 else np.asfortranarray(a)


def make(op, rng, seed):
    """-> (callable taking the arguments dict, arguments dict)."""
    if op in ('run', 'cloud', 'ozone', 'amu'):
        s = scen.make(seed, nf=2, na=2, nl=12, cloud=op == 'cloud', ozone=op == 'ozone')
        if scen.ducts(s) or op == 'amu':
            s['rt'] = False
        k = scen.inputs(s)
        m = s['models']
        amu = None
        if op == 'amu':
            from pyrtlib.uncertainty import SpectroscopicParameter as SP
            amu = copy.deepcopy({**SP.water_parameters(m['h2o']), **SP.oxygen_parameters(m['o2'])})
            for q in ('gamma_a', 'O2S', 'O2gamma'):
                amu[q].value = amu[q].value * (1 + .01 * rng.normal())
            amu['O2gamma_NL'].value = amu['O2gamma_NL'].value * 1.02
        a = dict(z=k['z'], p=k['p'], t=k['t'], rh=k['rh'], frq=k['frq'], angles=k['angles'])
        if k['o3n'] is not None:
            a['o3n'] = k['o3n']
        if k['cloud'] is not None:
            a.update(cldh=k['cloud'][0], ice=k['cloud'][1], liq=k['cloud'][2])
        if amu is not None:
            a['amu'] = amu
        if isinstance(k['emis'], np.ndarray):
            a['emis'] = k['emis']

        def fn(a):
            repo.select(m.get('h2o'), m.get('o2'), m.get('n2'), m.get('liq'), m.get('o3', ''), load=False)
            r = repo.TbCloudRTE(a['z'], a['p'], a['t'], a['rh'], a['frq'], a['angles'], o3n=a.get('o3n'), amu=a.get('amu'),
                                ray_tracing=s['rt'], from_sat=s['sat'], cloudy='cldh' in a)
            if 'cldh' in a:
                r.init_cloudy(a['cldh'], a['ice'], a['liq'])
            if 'emis' in a:
                r.emissivity = a['emis']
            return r.execute(only_bt=False)
        return fn, a
    if op == 'wf':
        from pyrtlib.weighting_functions import WeightingFunctions as W
        p = gen.profile(rng, 'std', 12)
        sat, ang = bool(rng.random() < .5), float(rng.uniform(30, 90))
        model = str(rng.choice(ref.COMMON_MODELS))

        def fn(a):
            w = W(a['z'], a['p'], a['t'], a['rh'], 4.)
            w.frequencies = a['frq']
            w.satellite, w.angle, w.model = sat, ang, model
            return w.generate_wf()
        return fn, dict(z=p['z'], p=p['p'], t=p['t'], rh=p['rh'], frq=gen.freqs(rng, 2))
    if op == 'extra':
        from pyrtlib.climatology import ProfileExtrapolation as E
        p = gen.profile(rng, 'shallow', 12)
        lat, mo = float(rng.uniform(-80, 80)), int(rng.integers(1, 13))
        which = int(rng.integers(5))
        h = np.sort(rng.uniform(0, 84, 9))

        def fn(a):
            e = E()
            if which == 0:
                return e.temperature(lat, a['h'], 'summer')
            if which == 1:
                return e.pressure(lat, a['h'], 'winter')
            if which == 2:
                return e.standard_temperature(a['h'], 288.15), e.standard_water_vapour_density(a['h'], 2., 7.5)
            return e.profile_extrapolation(lat, mo, a['z'], (a['p'], a['t'], a['rh']))
        return fn, dict(h=h, z=p['z'], p=p['p'], t=p['t'], rh=p['rh'])
    if op == 'profile':
        from pyrtlib.climatology import AtmosphericProfiles as A
        return (lambda a: [[A.gl_atm(i) for i in range(6)], [A.gl_atm_minor(g) for g in range(7, 27)],
                           [A.gl_atm_trace(x) for x in range(28, 43) if x != 31], A.atm_profiles()]), {}
    if op == 'freq':
        u = repo.utils
        return (lambda a: [[u.get_frequencies(i) for i in ('hat', 'mp3', 'arm', 'tem', 'k2w')],
                           [u.get_frequencies_sat(i) for i in ('SAPHIR', 'AMSU', 'ATMS', 'MWI', 'MWS', 'ICI')]]), {}
    n = int(rng.integers(3, 9))
    t = rng.uniform(220, 310, n)
    p = np.sort(rng.uniform(200, 1000, n))[::-1].copy()
    q = rng.uniform(.1, 10, n)
    u = repo.utils
    if op == 'units':
        f = [('ppmv2gkg', lambda a: u.ppmv2gkg(a['q'], 1)), ('mr2rh', lambda a: u.mr2rh(a['p'], a['t'], a['q'])),
             ('mr2rho', lambda a: u.mr2rho(a['q'], a['t'], a['p'])), ('mr2e', lambda a: u.mr2e(a['p'], a['q'])),
             ('rho2rh', lambda a: u.rho2rh(a['q'], a['t'], a['p'])), ('rho2mr', lambda a: u.rho2mr(a['q'], a['t'], a['p'])),
             ('e2mr', lambda a: u.e2mr(a['p'], a['q'])), ('satmix', lambda a: u.satmix(a['p'], a['t'])),
             ('satvap', lambda a: u.satvap(a['t'])), ('eswat', lambda a: u.eswat_goffgratch(a['t'])),
             ('esice', lambda a: u.esice_goffgratch(a['t'])), ('virt', lambda a: u.virtual_temperature(a['t'], a['q'])),
             ('kgkg', lambda a: u.kgkg_to_kgm3(a['q'], a['p'], a['t'])), ('ppmvmol', lambda a: u.ppmv_to_moleculesm3(a['q'], a['p'], a['t'])),
             ('kelvin', lambda a: u.to_kelvin(a['t'])), ('celsius', lambda a: u.to_celsius(a['t']))]
        return f[rng.integers(len(f))][1], dict(t=t, p=p, q=q)
    if op == 'thick':
        return (lambda a: u.atmospheric_tickness(a['p'], a['t'], a['q'] * 1.)), dict(t=t, p=p, q=q)
    if op == 'perturb':
        from pyrtlib.uncertainty import SpectroscopicParameter as SP, AbsModUncertainty as U
        m = str(rng.choice(ref.H2O_MODELS))
        what, mode, idx = str(rng.choice(['gamma_a', 'S', 'n_a', 'con_Cf'])), str(rng.choice(['max', 'min', 'non'])), int(rng.integers(0, 6))
        par = SP.water_parameters(m)
        par['gamma_a'].uncer = par['gamma_a'].value * .1
        par['S'].uncer = par['S'].value * .1
        par['con_Cf'].uncer = par['con_Cf'].value * .1

        def fn(a):
            SP.set_parameters(a['par'])
            return U.parameters_perturbation([what], mode, index=idx)
        return fn, dict(par=copy.deepcopy(par))
    if op == 'parts':
        R = repo.RTEquation
        z = np.cumsum(rng.uniform(.2, 2, n)) - .2
        z = z - z[0]
        e = .005 * p
        idx = 1 + 3e-4 * np.exp(-z / 8)
        den = rng.uniform(0, 1, n)
        f = gen.freq(rng)
        repo.select('R19', 'R19', 'R19', 'R19', '')
        ds = np.append(0, np.diff(z))
        fl = [lambda a: R.vapor(a['t'], a['rh']), lambda a: R.vapor(a['t'], a['rh'], True), lambda a: R.refractivity(a['p'], a['t'], a['e']),
              lambda a: R.ray_tracing(a['z'], a['n'], 33., .2), lambda a: R.exponential_integration(True, a['den'], a['ds'], 1, n, 1),
              lambda a: R.cloudy_absorption(a['t'], a['den'], a['den2'], f), lambda a: R.clearsky_absorption(a['p'], a['t'], a['e'], f),
              lambda a: R.cloud_integrated_density(a['den'], a['ds'], np.array([0.]), np.array([n - 1.])),
              lambda a: planck(R, f, a)]
        return fl[rng.integers(len(fl))], dict(t=t, p=p, e=e, z=z, n=idx, den=den, den2=den[::-1].copy(), rh=rng.uniform(0, 1, n), ds=ds)
    raise KeyError(op)


def planck(R, f, a):
    R._from_sat = True
    R._emissivity = 1.
    return R.planck(f, a['t'], a['den'])


def evaluate(case, mon):
    rng = np.random.default_rng(case['seed'])
    op = case['op']
    with repo.quiet():
        fn, args = make(op, rng, case['seed'])
        before, sc = snap(args), scalars(args)
        ident = {k: id(v) for k, v in args.items()}
        out = fn(args)
        first = snap(out)
        ctx = dict(op=op)
        mon.check('inputs-untouched', snap(args) == before and scalars(args) == sc and ident == {k: id(v) for k, v in args.items()},
                  'an argument was modified: %s' % [k for k, v in snap(args).items() if before.get(k) != v], **ctx)
        shared = [(i, j) for i, a in arrays(out) for j, b in arrays(args) if a.size and b.size and np.shares_memory(a, b)]
        mon.check('no-alias', not shared, 'result shares memory with an argument: %s' % shared[:3], **ctx)
        # keep a first result alive while a second call with other values runs: it must not change
        other = {k: (v * 1.01 if isinstance(v, np.ndarray) and v.dtype.kind == 'f' and k in ('t', 'rh', 'q', 'den') else v) for k, v in args.items()}
        fn(other)
        mon.check('result-independent', snap(out) == first, 'a later call changed an earlier result', **ctx)
        # overwrite the result, call again
        for _, a in arrays(out):
            if a.flags.writeable and a.dtype.kind in 'fi':
                a[...] = -7
        mon.check('inputs-untouched', snap(args) == before, 'writing to the result changed an argument', **ctx)
        again = fn(args)
        mon.check('result-independent', snap(again) == first, 'writing to a result changed a later call: %s' %
                  [k for k, v in snap(again).items() if first.get(k) != v][:3], **ctx)
        # strided views of the same values
        view = {k: strided(v) if isinstance(v, np.ndarray) else v for k, v in args.items()}
        vb = snap(view)
        st = fn(view)
        a1, a2 = list(arrays(st)), list(arrays(again))
        for (k, x), (_, y) in zip(a1, a2):
            if x.dtype.kind == 'f':
                mon.close('strided', x, y, 1e-12, 1e-300, key=k, **ctx)
        mon.check('inputs-untouched', snap(view) == vb, 'a strided argument was modified', **ctx)
        # read-only
        ro = {}
        for k, v in args.items():
            v = v.copy() if isinstance(v, np.ndarray) else copy.deepcopy(v)
            for _, x in arrays(v):
                x.flags.writeable = False
            ro[k] = v
        mon.count('evaluated:read-only')
        try:
            third = fn(ro)
            mon.check('read-only', snap(third) == first, 'read-only arguments give another result', **ctx)
        except ValueError as exc:
            if 'read-only' in str(exc) or 'assignment destination' in str(exc):
                mon.fail('read-only', 'tried to write to an argument: %s' % exc, **ctx)
            else:
                raise
    mon.state(op, ','.join(sorted(args)))
    mon.sample = dict(op=op, arguments=sorted(before), results=sorted(first)[:12])
