"""C09 the absorption models used are exactly the ones selected."""
import numpy as np
from vlib import ref, gen, repo, scen
from vlib.core import subseed

PROPERTY = 'C09'
RULE = ('random atmospheres x selections: (a) every way of selecting a model gives the same numbers and a later per-component override '
        'replaces that component only, decided against the reference model of the selected names; (b) names outside the published '
        'lists, and lists themselves; a run must raise, never return numbers.')
REQUIRE = {'ways-agree': 50, 'override': 60, 'rejected': 100, 'accepted': 40, 'lists': 5, 'liquid-used': 20, 'o3-needed': 20, 'global-choice': 200}

ERR = (repo.AbsModelError, ValueError)
JUNK = ['r98', 'R98 ', ' R98', '', 'R99', 'r24', 'R', '98', 'R21', 'R24SD', 'MWL', 'mwl24', 'R17SD', 'R1', 'None', 'R22sd', 'R2', 'R20 SD', 'rose']


def cases(tier, seed):
    a = scen.mkcases('C09', tier, seed, 220, 2600)
    b = [dict(seed=subseed('C09b', seed, i), kind='std', reject=True) for i in range(90 if tier == 'quick' else 1000)]
    return a + b


def evaluate(case, mon):
    (rejecting if case.get('reject') else selecting)(case, mon)


def same(mon, rule, A, B, **ctx):
    for k in ('tbtotal', 'tbatm', 'tmr', 'tauwet', 'taudry', 'tauliq', 'tauice', 'awet', 'adry'):
        mon.close(rule, A[k], B[k], 1e-12, 1e-300, key=k, **ctx)


def scramble(rng):
    """leave the process with an arbitrary previous selection."""
    repo.select(str(rng.choice(ref.H2O_MODELS)), str(rng.choice(ref.O2_MODELS)), str(rng.choice(ref.N2_MODELS)),
                str(rng.choice(ref.LIQ_MODELS)), str(rng.choice(ref.O3_MODELS)), load=bool(rng.random() < .5))


def selecting(case, mon):
    s = scen.make(case['seed'], case['kind'], nf=2, na=1, same=True, ozone=False, rt=False)
    rng = s['rng']
    m = s['models']['h2o']
    kw = scen.inputs(s)
    p = s['prof']
    e, _ = ref.vapor(p['t'], p['rh'])
    up = dict(kw)

    def build(absmdl=None):
        r = repo.TbCloudRTE(up['z'], up['p'], up['t'], up['rh'], up['frq'], up['angles'], from_sat=s['sat'],
                            cloudy=s['cloud'] is not None, **({'absmdl': absmdl} if absmdl else {}))
        if s['emis'] is not None:
            r.emissivity = s['emis']
        if s['cloud'] is not None:
            r.init_cloudy(*up['cloud'])
        return r

    def go(r):
        return repo.unpack(*r.execute(only_bt=False), up['frq'], up['angles'])
    with repo.quiet():
        scramble(rng)
        A = go(build(m))
        scramble(rng)
        r = build()
        r.init_absmdl(m)
        B = go(r)
        scramble(rng)
        repo.select(m, m, m, m, '', load=False)
        C = go(build())
        same(mon, 'ways-agree', A, B, model=m, way='init_absmdl')
        same(mon, 'ways-agree', A, C, model=m, way='classes')
        # the model chosen before every other setting of the object (clouds, direction, emissivity, directions) or after all of them
        scramble(rng)
        r = repo.TbCloudRTE(up['z'], up['p'], up['t'], up['rh'], up['frq'], up['angles'], from_sat=not s['sat'])
        late = bool(rng.random() < .5)
        if not late:
            r.init_absmdl(m)
        r.cloudy = s['cloud'] is not None
        if s['cloud'] is not None:
            r.init_cloudy(*up['cloud'])
        r.satellite = s['sat']
        if s['emis'] is not None:
            r.emissivity = s['emis']
        if late:
            r.init_absmdl(m)
        same(mon, 'ways-agree', A, go(r), model=m, way='last' if late else 'first')
        # an object already run with another model
        other = str(rng.choice([x for x in ref.COMMON_MODELS if x in ref.LIQ_MODELS]))
        r.init_absmdl(other)
        go(r)
        r.init_absmdl(m)
        same(mon, 'ways-agree', A, go(r), model=m, way='after ' + other)
        # another object choosing another model, before this one chooses its own
        r2 = build(other)
        r.init_absmdl(m)
        same(mon, 'ways-agree', A, go(r), model=m, way='after another object, ' + other)
        if s['cloud'] is not None:
            ds = ref.slant(p['z'] - p['z'][0], up['angles'][0])
            for j, f in enumerate(up['frq']):
                mon.close('liquid-used', A['taulayliq'][j, 0], ref.layer_integral(ref.liq_abs(m, s['cloud']['liq'], f, p['t']), ds, False),
                          1e-7, 2e-9 * np.abs(ds) + 1e-18, model=m, f=float(f))
        for j, f in enumerate(up['frq']):
            want = ref.h2o_abs(m, p['p'], p['t'], e, f)
            mon.close('selected', A['awet'][j, 0], want, 1e-7, 1e-300, model=m)
            want = ref.dry_abs(m, m, '', p['p'], p['t'], e, f)
            mon.close('selected', A['adry'][j, 0], want, 1e-7, 1e-13 * np.abs(want).max(), model=m)
        # per component override after the global choice
        names = dict(h2o=m, o2=m, n2=m, liq=m)
        comp = str(rng.choice(['h2o', 'o2', 'n2', 'liq', 'none']))
        pool = dict(h2o=ref.H2O_MODELS, o2=ref.O2_MODELS, n2=ref.N2_MODELS + [None], liq=ref.LIQ_MODELS, none=[None])[comp]
        new = pool[rng.integers(len(pool))]
        r = build()
        r.init_absmdl(m)
        if comp != 'none':
            names[comp] = new
            {'h2o': repo.H2OAbsModel, 'o2': repo.O2AbsModel, 'n2': repo.N2AbsModel, 'liq': repo.LiqAbsModel}[comp].model = new
        D = go(r)
        for j, f in enumerate(up['frq']):
            ctx = dict(base=m, override=comp, to=new, f=float(f))
            mon.close('override', D['awet'][j, 0], ref.h2o_abs(names['h2o'], p['p'], p['t'], e, f), 1e-7, 1e-300, **ctx)
            want = ref.dry_abs(names['o2'], names['n2'], '', p['p'], p['t'], e, f)
            mon.close('override', D['adry'][j, 0], want, 1e-7, 1e-13 * np.abs(want).max(), **ctx)
            if s['cloud'] is not None:
                ds = ref.slant(p['z'] - p['z'][0], up['angles'][0])
                mon.close('override', D['taulayliq'][j, 0],
                          ref.layer_integral(ref.liq_abs(names['liq'], s['cloud']['liq'], f, p['t']), ds, False),
                          1e-7, 2e-9 * np.abs(ds) + 1e-18, **ctx)
        if comp not in ('none', 'h2o'):
            mon.close('untouched', D['awet'], A['awet'], 1e-12, 1e-300, override=comp)
        if comp not in ('none', 'o2', 'n2'):
            mon.close('untouched', D['adry'], A['adry'], 1e-12, 1e-300, override=comp)
        # ozone needs a profile and a model
        o3 = gen.o3_profile(rng, p['z'], p['p'], p['t'])
        L = ref.o3_lines('R18')
        f3 = np.array([L['fl'][rng.integers(len(L['fl']))] + .01])
        o3 = o3 if s['orient'] == 'up' else o3[::-1].copy()
        args = (up['z'], up['p'], up['t'], up['rh'], f3, up['angles'])

        def dry(o3m, o3n):
            repo.select(m, m, m, m, o3m, load=False)
            return repo.TbCloudRTE(*args, o3n=o3n).execute(only_bt=False)[1]['adry'][0, 0]
        base = ref.dry_abs(m, m, '', p['p'], p['t'], e, f3[0])
        at = 1e-13 * np.abs(base).max()
        mon.close('o3-needed', dry('', o3), base, 1e-7, at)
        mon.close('o3-needed', dry('R18', None), base, 1e-7, at)
        k = str(rng.choice(ref.O3_MODELS))
        mon.close('o3-used', dry(k, o3), base + ref.o3_abs(k, p['t'], p['p'], f3[0], s_up(o3, s)), 1e-7, at, model=k)
    mon.state(m, comp, str(new))
    mon.sample = dict(scen.describe(s), override=[comp, new])


def s_up(a, s):
    return a if s['orient'] == 'up' else a[::-1]


def rejecting(case, mon):
    s = scen.make(case['seed'], 'std', nf=1, na=1, same=True, cloud=True, ozone=False, rt=False, orient='up')
    rng = s['rng']
    p, c = s['prof'], s['cloud']
    m = s['models']['h2o']
    lists = repo.AbsModel.implemented_models()
    mon.check('lists', sorted(lists) == ['Oxygen', 'Ozone', 'WaterVapour'] and set(lists['WaterVapour']) == set(ref.H2O_MODELS)
              and set(lists['Oxygen']) == set(ref.O2_MODELS) and set(lists['Ozone']) == set(ref.O3_MODELS),
              'published model lists changed', got=lists)
    comps = dict(h2o=(repo.H2OAbsModel, ref.H2O_MODELS), o2=(repo.O2AbsModel, ref.O2_MODELS), n2=(repo.N2AbsModel, ref.N2_MODELS),
                 liq=(repo.LiqAbsModel, ref.LIQ_MODELS), o3=(repo.O3AbsModel, ref.O3_MODELS))
    c['liq'][:] = np.where(np.arange(len(c['liq'])) == c['base'][0], .3, c['liq'])
    o3 = gen.o3_profile(rng, p['z'], p['p'], p['t'])

    def execute(cloudy, o3n):
        r = repo.TbCloudRTE(p['z'], p['p'], p['t'], p['rh'], s['frq'], s['ang'], cloudy=cloudy, o3n=o3n, from_sat=s['sat'])
        if cloudy:
            r.init_cloudy(c['cldh'], c['ice'], c['liq'])
        return r.execute()
    for comp, (cls, ok) in comps.items():
        every = sorted(set(JUNK + ref.H2O_MODELS + ref.O2_MODELS + ref.N2_MODELS + ref.LIQ_MODELS))
        bad = [b for b in every if b not in ok and not (comp in ('n2', 'o3') and b == '')]
        name = str(rng.choice(bad))
        with repo.quiet():
            scramble(rng)
            repo.select(m, m, m, m, 'R22' if comp == 'o3' else '', load=True)
            cls.model = name
            use_o3 = comp == 'o3'
            try:
                out = execute(comp == 'liq', o3 if use_o3 else None)
                raised = None
            except ERR as exc:
                raised = exc
            if comp == 'o3' and raised is None:
                # a name that is no ozone model at all is documented to leave ozone out
                want = out
                repo.O3AbsModel.model = ''
                mon.identical('o3-left-out', execute(False, o3)['tbtotal'].values, want['tbtotal'].values, name=name)
            else:
                mon.check('rejected', raised is not None, 'unknown model name produced numbers', component=comp, name=name)
                if comp in ('h2o', 'o2', 'o3'):
                    mon.check('rejected-kind', isinstance(raised, repo.AbsModelError), 'wrong exception', component=comp, name=name)
            if comp in ('h2o', 'o2', 'o3'):
                cls.model = name
                try:
                    cls.set_ll()
                    mon.fail('rejected-lines', 'line list loaded for an unknown name', component=comp, name=name)
                except repo.AbsModelError:
                    mon.count('evaluated:rejected-lines')
            # and a rejection does not stop the next valid selection from working
            good = str(rng.choice(ok))
            repo.select(m, m, m, m, '', load=False)
            cls.model = good
            df = execute(comp == 'liq', o3 if use_o3 else None)
            mon.check('accepted', np.isfinite(df['tbtotal'].values).all(), 'valid model refused', component=comp, name=good)
        mon.state('reject', comp, name)
    # a global choice needs every component: nothing may be substituted for one that does not exist
    every = sorted(set(JUNK + ref.H2O_MODELS + ref.O2_MODELS + ref.N2_MODELS + ref.LIQ_MODELS))
    for name in [str(x) for x in rng.choice(every, 4, replace=False)]:
        if name == '':
            continue
        cloudy, way = bool(rng.random() < .5), str(rng.choice(['init_absmdl', 'absmdl', 'WeightingFunctions']))
        # weighting functions always take oxygen from the newest model
        ok = name in ref.H2O_MODELS and (name in ref.O2_MODELS or way == 'WeightingFunctions') and name in ref.N2_MODELS and \
            (name in ref.LIQ_MODELS or not cloudy or way == 'WeightingFunctions')
        with repo.quiet():
            scramble(rng)
            repo.O3AbsModel.model = ''
            try:
                if way == 'WeightingFunctions':
                    from pyrtlib.weighting_functions import WeightingFunctions as W
                    w = W(p['z'] - p['z'][0], p['p'], p['t'], p['rh'], max(1., p['z'][-1] / 12))
                    w.frequencies, w.satellite, w.model = s['frq'], s['sat'], name
                    w.generate_wf()
                else:
                    r = repo.TbCloudRTE(p['z'], p['p'], p['t'], p['rh'], s['frq'], s['ang'], cloudy=cloudy, from_sat=s['sat'],
                                        **({'absmdl': name} if way == 'absmdl' else {}))
                    if way == 'init_absmdl':
                        r.init_absmdl(name)
                    if cloudy:
                        r.init_cloudy(c['cldh'], c['ice'], c['liq'])
                    r.execute()
                raised = None
            except ERR as exc:
                raised = exc
        mon.check('global-choice', (raised is None) == ok, 'a global choice of %r by %s was %s' % (name, way, 'refused' if raised else 'accepted'),
                  cloudy=cloudy)
        mon.state('global', name, way)
