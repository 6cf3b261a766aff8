"""Whole-simulation scenarios shared by several checks."""
import numpy as np
from . import gen, ref
from .core import subseed


def make(seed, kind=None, nf=None, na=None, cloud=None, ozone=None, rt=None, sat=None, models=None, same=None,
         emis='any', orient=None, nl=None, lo_angle=5.):
    rng = np.random.default_rng(seed)
    pr = gen.profile(rng, kind, nl)
    nf = nf or int(rng.integers(1, 5))
    na = na or int(rng.integers(1, 4))
    s = dict(prof=pr, frq=gen.freqs(rng, nf), ang=gen.angles(rng, na, lo_angle))
    s['cloud'] = (rng.random() < .35) if cloud is None else cloud
    s['cloud'] = gen.cloud(rng, pr) if s['cloud'] else None
    s['rt'] = bool(rng.random() < .35) if rt is None else rt
    s['sat'] = bool(rng.random() < .5) if sat is None else sat
    use_same = bool(rng.random() < .4) if same is None else same
    if models is not None:
        m = dict(models)
    else:
        m = gen.same_models(rng, liq=True) if use_same else gen.models(rng)
    oz = (rng.random() < .3) if ozone is None else ozone
    s['o3n'] = None
    if oz:
        s['o3n'] = gen.o3_profile(rng, pr['z'], pr['p'], pr['t'])
        if not m.get('o3'):
            m['o3'] = str(rng.choice(ref.O3_MODELS))
    s['models'] = m
    if emis == 'any':
        k = rng.integers(4)
        e = None if k == 0 else float(np.round(rng.uniform(0, 1), 3)) if k == 1 else np.round(rng.uniform(0, 1, nf), 3) if k == 2 \
            else float(rng.choice([0., 1., .5]))
    else:
        e = emis
    s['emis'] = e
    s['orient'] = (str(rng.choice(['up', 'up', 'down'])) if orient is None else orient)
    s['rng'] = rng
    return s


def flip(a):
    return None if a is None else np.ascontiguousarray(np.asarray(a)[::-1])


def inputs(s):
    """arguments in the orientation requested."""
    p = s['prof']
    f = (lambda a: None if a is None else np.array(a)) if s['orient'] == 'up' else flip
    c = s['cloud']
    return dict(z=f(p['z']), p=f(p['p']), t=f(p['t']), rh=f(p['rh']), frq=s['frq'].copy(), angles=s['ang'].copy(),
                models=s['models'], from_sat=s['sat'], emis=s['emis'], ray_tracing=s['rt'], o3n=f(s['o3n']),
                cloud=None if c is None else (c['cldh'].copy(), f(c['ice']), f(c['liq'])))


def run(s, **over):
    from . import repo
    kw = inputs(s)
    kw.update(over)
    return repo.run(**kw)


def reference(s, **over):
    kw = inputs(s)
    kw.update(over)
    if kw['emis'] is None:
        kw['emis'] = 1.0
    kw.pop('amu', None)
    kw.pop('full', None)
    return ref.simulate(**kw)


def ducts(s):
    """ray tracing fails (ducting) for one of the angles."""
    if not s['rt']:
        return False
    p = s['prof']
    e, _ = ref.vapor(p['t'], p['rh'])
    _, _, n = ref.refractivity(p['p'], p['t'], e)
    return any(ref.ray_trace(p['z'] - p['z'][0], n, a, p['z'][0]) is None for a in s['ang'])


def describe(s):
    p = s['prof']
    return dict(kind=p['kind'], levels=len(p['z']), z0=float(p['z'][0]), top=float(p['z'][-1]), frq=s['frq'].tolist(),
                angles=s['ang'].tolist(), models=s['models'], sat=s['sat'], ray_tracing=s['rt'],
                cloudy=s['cloud'] is not None, ozone=s['o3n'] is not None, orient=s['orient'])


def mkcases(pid, tier, seed, quick, thorough, kinds=None):
    n = quick if tier == 'quick' else thorough
    kinds = kinds or gen.KINDS
    return [dict(seed=subseed(pid, seed, i), kind=kinds[i % len(kinds)]) for i in range(n)]
