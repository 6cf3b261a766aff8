"""C20 weighting functions are transmittance times absorption of the stated atmosphere and channel."""
import re
import numpy as np
from vlib import ref, gen, repo
from vlib.core import subseed

PROPERTY = 'C20'
RULE = ('one case = random profile x vertical step x frequencies x elevation x direction x model; the weighting functions are compared with '
        'transmittance x absorption from the reference model on the resampled profile, with their integral (one minus total transmittance), '
        'and channel by channel; the plots are captured and every curve is matched with its channel, label, band average and peak height.')
REQUIRE = {'wf': 150, 'wf:sat': 40, 'wf:ground': 40, 'integral': 30, 'channel': 100, 'plot-curve': 60, 'plot-label': 60, 'bandpass': 25,
           'grouped': 20, 'rejected': 60, 'profile listed downwards': 50, 'plot-legend': 60, 'plot-frame': 100, 'non-negative': 100}


def cases(tier, seed):
    n = 240 if tier == 'quick' else 3000
    return [dict(seed=subseed('C20', seed, i), kind=gen.KINDS[i % len(gen.KINDS)], plot=i % 3 == 0) for i in range(n)]


def evaluate(case, mon):
    from pyrtlib.weighting_functions import WeightingFunctions as W
    rng = np.random.default_rng(case['seed'])
    P = gen.profile(rng, case['kind'])
    if P['z'][0] < 0:
        P['z'] = P['z'] - P['z'][0]
    top = P['z'][-1]
    dz = float(rng.choice([1., 1., .5, .25, 2., .7])) if top < 60 else float(rng.choice([1., 2.]))
    if top / dz < 3:
        dz = top / 4
    elif rng.random() < .15:                       # fine steps
        dz = float(rng.choice([.02, .05, .1]))
        dz = max(dz, np.round(top / 400, 2))
    nf = int(rng.integers(1, 6))
    frq = gen.freqs(rng, nf)
    sat = bool(rng.random() < .6)
    ang = float(rng.choice([90., rng.uniform(15, 90)]))
    model = str(rng.choice(ref.COMMON_MODELS)) if rng.random() < .7 else None
    with repo.quiet():
        o = -1 if case['seed'] % 3 == 0 else 1         # listed downwards
        a = [P[q][::o] for q in ('z', 'p', 't', 'rh')]
        w = W(*a, dz) if dz != 1. or rng.random() < .5 else W(*a)
        if o < 0:
            mon.count('profile listed downwards')
        if case['seed'] % 5 == 0:
            no_order(mon, W, P, rng)
        w.frequencies = frq
        w.satellite = sat
        w.angle = ang
        if model:
            w.model = model
        if rng.random() < .3:
            w.emissivity = float(rng.uniform(0, 1))
        ctx = dict(kind=case['kind'], sat=sat, ang=ang, model=model or 'default', dz=dz)
        mon.identical('settings', w.frequencies, frq, **ctx)
        mon.check('settings', w.satellite is sat, 'direction not kept', **ctx)
        g = np.arange(0, top + dz, dz)
        at = lambda a: np.interp(g, P['z'], a)     # noqa: E731
        p, t, rh = at(P['p']), at(P['t']), at(P['rh'])
        e, _ = ref.vapor(t, rh)
        _, _, n = ref.refractivity(p, t, e)
        if ref.ray_trace(g, n, ang, 0.) is None:
            w.angle = ang = 90.
            mon.count('skipped: ducting')
        wf = w.generate_wf()
    mm = model or 'R24'
    last = 'R24'          # documented: oxygen always from the newest model
    Q = ref.simulate(g, p, t, rh, frq, [ang], dict(h2o=mm, o2=last, n2=mm, liq=mm), sat, 1., True)
    lay = Q['taulaywet'][:, 0] + Q['taulaydry'][:, 0]
    ab = Q['awet'][:, 0] + Q['adry'][:, 0]
    if (ab < 0).any():
        mon.count('skipped: negative absorption')
        return
    cum = np.cumsum(lay[:, ::-1], 1)[:, ::-1] if sat else np.cumsum(lay, 1)
    want = np.exp(-cum) * ab
    mon.check('shape', wf.shape == want.shape, 'shape %s, expected %s' % (wf.shape, want.shape), **ctx)
    mon.close('wf', wf, want, 1e-6 + 1e-8 * float(np.minimum(cum, 60).max()), 1e-30, **ctx)
    mon.count('wf:sat' if sat else 'wf:ground')
    mon.check('non-negative', np.all(wf >= 0) and np.all(np.isfinite(wf)), 'negative or undefined', **ctx)
    mon.check('at-sensor', np.allclose(wf[:, -1 if sat else 0], (np.exp(-lay) * ab)[:, -1 if sat else 0], 1e-6, 1e-30), 'attenuated at the sensor', **ctx)
    # integral over the path = what the atmosphere absorbs
    ds = Q['ds'][0][1:]
    for j in range(nf):
        if lay[j].max() < .15 and np.all(np.abs(np.log(ab[j][1:] / ab[j][:-1])) < .6) and lay[j].sum() > 1e-3:
            s = np.sum(.5 * (wf[j][1:] + wf[j][:-1]) * ds)
            mon.close('integral', s, 1 - np.exp(-lay[j].sum()), .12, **ctx)
    # channel by channel
    if nf > 1:
        k = int(rng.integers(nf))
        with repo.quiet():
            w.frequencies = frq[k:k + 1].copy()
            mon.close('channel', w.generate_wf()[0], wf[k], 1e-12, 1e-300, **ctx)
            w.frequencies = frq[::-1].copy()
            mon.close('channel', w.generate_wf()[::-1], wf, 1e-12, 1e-300, **ctx)
            w.frequencies = frq
    # switching direction and back
    with repo.quiet():
        w.satellite = not sat
        w.generate_wf()
        w.satellite = sat
        mon.identical('channel', w.generate_wf(), wf, what='direction restored', **ctx)
    for bad in ([50., 60.], 50.3, None):
        try:
            w.frequencies = bad
            mon.fail('rejected', 'frequencies %r accepted' % (bad,))
        except ValueError:
            mon.count('evaluated:rejected')
    for bad in (1, 'True', None):
        try:
            w.satellite = bad
            mon.fail('rejected', 'direction %r accepted' % (bad,))
        except ValueError:
            mon.count('evaluated:rejected')
    if case['plot']:
        plot(mon, w, wf, frq, sat, g, p, rng, ctx)
    mon.state(case['kind'], 'sat' if sat else 'ground', mm, dz)
    mon.sample = dict(ctx, frq=frq.tolist(), peak=[float(g[i]) for i in wf.argmax(1)])


def no_order(mon, W, P, rng):
    z = P['z'].copy()
    k = int(rng.integers(1, len(z)))
    z[k] = z[k - 1] - float(rng.choice([0., 1e-3, .2]))
    if k == len(z) - 1 == 1:
        return
    try:
        W(z, P['p'], P['t'], P['rh'], float(rng.choice([.5, 1.])))
        mon.fail('rejected', 'heights that are not monotonic accepted')
    except (ValueError, SystemExit):
        mon.count('evaluated:rejected')


def plot(mon, w, wf, frq, sat, g, pg, rng, ctx):
    import matplotlib.pyplot as plt
    show, plt.show = plt.show, lambda *a, **k: None
    try:
        nf = len(frq)

        def curves():
            ax = plt.gcf().axes[0]
            out = [ln for ln in ax.get_lines() if len(ln.get_xdata()) > 2]
            return ax, out
        keep = wf.copy()
        norm = bool(rng.random() < .4)
        band = None
        if nf > 1 and rng.random() < .6:
            band = []
            while sum(band) < nf:
                band.append(int(rng.integers(1, nf - sum(band) + 1)))
            band = np.array(band)
            w.bandpass = band
        lims = sorted(int(v) for v in rng.choice(len(g), 2, replace=False))
        ylim = limits(rng, g, lims)
        xlim = (0., float(rng.uniform(.1, 2))) if rng.random() < .5 else None
        count = nf if band is None else len(band)
        own = ['channel %d of %d' % (i + 1, count) for i in rng.permutation(count)] if rng.random() < .5 else None
        leg = bool(rng.random() < .7)
        w.legend_labels = own
        with repo.quiet():
            w.plot_wf(wf, 'T', legend=leg, normalized=norm, ylim=ylim, xlim=xlim)
        w.legend_labels = None
        ax, ln = curves()
        frame(mon, plt, pg, ax, ylim, xlim, g, ctx)
        box = ax.get_legend()
        if mon.check('plot-legend', (box is not None) == leg, 'legend %s' % ('missing' if leg else 'shown'), **ctx) and leg:
            texts = [q.get_text() for q in box.get_texts()]
            mon.check('plot-legend', texts == (own or [q.get_label() for q in ln]), 'legend %r' % (texts,), **ctx)
        if band is None:
            W_, F = wf, frq
        else:
            e = np.append(0, np.cumsum(band))
            W_ = np.array([wf[a:b].mean(0) for a, b in zip(e[:-1], e[1:])])
            F = np.array([frq[a:b].mean() for a, b in zip(e[:-1], e[1:])])
            mon.check('bandpass', len(ln) == len(band), '%d curves for %d channels' % (len(ln), len(band)), **ctx)
        mon.check('plot-curve', len(ln) == len(F), '%d curves for %d channels' % (len(ln), len(F)), **ctx)
        for i, (c, f) in enumerate(zip(ln, F)):
            x, y = np.asarray(c.get_xdata(), float), np.asarray(c.get_ydata(), float)
            want = W_[i, 1:] if sat else W_[i]
            if norm and sat:
                want = want / W_[i].max()
            mon.close('plot-curve', x, want, 1e-10, 1e-300, what='values', **ctx)
            mon.close('plot-curve', y, g[:-1] if sat else g, 1e-12, 1e-12, what='heights', **ctx)
            lab = c.get_label()
            m = re.match(r'\s*(-?[\d.]+)\s*GHz(?:\s+(-?[\d.]+)\s*km)?', lab)
            mon.check('plot-label', m is not None and abs(float(m.group(1)) - f) < .0051, 'curve of %.4f GHz is labelled %r' % (f, lab), **ctx)
            if sat and m is not None and m.group(2) is not None:
                pk = y[np.argmax(want)]
                mon.check('plot-label', abs(float(m.group(2)) - pk) < .51, 'peak %.2f km is labelled %r' % (pk, lab), **ctx)
        plt.close('all')
        w.bandpass = None
        grp = []
        while sum(grp) < nf:
            grp.append(int(rng.integers(1, nf - sum(grp) + 1)))
        names = ['g%d' % i for i in range(len(grp))]
        try:
            with repo.quiet():
                ylim = limits(rng, g, lims)
                w.plot_wf_grouped(wf, 'T', ylim=ylim, grouped_frequencies=grp, grouped_labels=names)
            mon.check('grouped', sat, 'grouped plot of a ground based sensor', **ctx)
            ax, ln = curves()
            frame(mon, plt, pg, ax, ylim, None, g, ctx)
            mon.check('grouped', len(ln) == nf, '%d curves for %d channels' % (len(ln), nf), **ctx)
            of = np.repeat(np.arange(len(grp)), grp)
            sh = []
            for i, c in enumerate(ln):
                d = np.asarray(c.get_xdata(), float) - wf[i, 1:]
                mon.close('grouped', d, np.full(len(d), d[0]), 0, 1e-9, what='shift', **ctx)
                mon.close('grouped', c.get_ydata(), g[:-1], 1e-12, 1e-12, **ctx)
                sh.append(d[0])
            same = [abs(sh[i] - sh[j]) < 1e-9 for i in range(nf) for j in range(nf) if of[i] == of[j]]
            apart = [sh[j] - sh[i] > .01 for i in range(nf) for j in range(nf) if of[i] < of[j]]
            mon.check('grouped', all(same) and all(apart), 'channels are shifted into the wrong group', **ctx)
            text = [q.get_text() for q in ax.texts]
            mon.check('grouped', text == names, 'group labels %s' % text, **ctx)
        except ValueError:
            mon.check('grouped', not sat, 'grouped plot refused', **ctx)
        mon.check('plot-curve', np.array_equal(keep, wf), 'plotting changed the data', **ctx)
    finally:
        plt.close('all')
        plt.show = show


def limits(rng, g, lims):
    k = rng.random()
    if k < .3:
        return None
    if k < .6:
        return g[lims[0]], g[lims[1]]
    a, b = sorted(rng.uniform(g[0], g[-1], 2))
    return float(a), float(g[-1] + rng.uniform(0, 10) if k > .9 else max(b, a + .5))


def frame(mon, plt, pg, ax, ylim, xlim, g, ctx):
    """limits and axes: the pressure axis covers the same layer as the height axis."""
    axes = plt.gcf().axes
    mon.check('plot-frame', ax.get_title() == 'T' and 'km' in ax.get_ylabel() and len(axes) == 2 and 'hPa' in axes[1].get_ylabel(), 'title or axes', **ctx)
    if ylim is not None:
        mon.close('plot-frame', ax.get_ylim(), ylim, 1e-9, 1e-9, what='height limits', **ctx)
    if xlim is not None:
        mon.close('plot-frame', ax.get_xlim(), xlim, 1e-9, 1e-9, what='limits', **ctx)
    a, b = ylim if ylim is not None else (g[0], g[-1])
    p = np.interp([a, b], g, pg)
    mon.close('plot-frame', axes[1].get_ylim(), p, 1e-6, what='pressure limits', **ctx)
