"""Executable reference model of what pyrtlib has to compute.

Written from the documentation, the published formulas and the line tables as
published with the library (pinned in data/lines.npz); it imports nothing from
pyrtlib.  Everything is vectorised over profile levels, one frequency at a time.
"""
import os
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
with np.load(os.path.join(HERE, '..', 'data', 'lines.npz')) as _fh:      # read now: the pool forks
    _LINES = {_k: _fh[_k] for _k in _fh.files}

# universal constants as documented by the library
C = dict(avogadro=6.022140857e+23, boltzmann=1.380658e-23, EarthRadius=6370.949,
         gravity=9.80665, light=299792458.0, Np2dB=4.342944819032518,
         planck=6.6260755e-34, Rdry=287.04, Rwatvap=461.52, Tcosmicbkg=2.728,
         R=8.31446261815324)

H2O_MODELS = ['R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD',
              'R21SD', 'R22SD', 'R23SD', 'R24', 'MWL24']
O2_MODELS = ['R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD',
             'R22', 'R23', 'R24']
O3_MODELS = ['R18', 'R22', 'R23']
N2_MODELS = ['R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD',
             'R21SD', 'R22', 'R22SD', 'R23', 'R23SD', 'R24', 'MWL24']
LIQ_MODELS = ['R98', 'R03', 'R16', 'R17', 'R19', 'R19SD', 'R20', 'R22SD', 'R23',
              'R23SD', 'R24']
# names accepted by every component, usable with init_absmdl / absmdl
COMMON_MODELS = [m for m in H2O_MODELS if m in O2_MODELS and m in N2_MODELS]

SQRTPI = 1.77245385090551603
H2O_MASS = 2.9915075e-23
LOG10_10 = np.log(10.0) * 0.1


# ------------------------------------------------------------------ line lists
def h2o_lines(model):
    g = 'h2o/%s/' % model
    m = _LINES[g + 'mtx']
    ctr = _LINES[g + 'ctr']
    L = dict(fl=m[:, 1], s1=m[:, 2], b2=m[:, 3], w0=m[:, 4] / 1000., x=m[:, 5],
             reftline=float(_LINES[g + 'reftline']), reftcon=float(ctr[0]),
             cf=float(ctr[1]), xcf=float(ctr[2]), cs=float(ctr[3]), xcs=float(ctr[4]))
    n = len(L['fl'])
    if model in ('R03', 'R16', 'R17'):
        L.update(sr=m[:, 6], w0s=m[:, 7] / 1000., xs=m[:, 8])
    else:
        L.update(w0s=m[:, 6] / 1000., xs=m[:, 7])
    if model not in ('R98', 'R03', 'R16', 'R17'):
        L.update(sh=m[:, 8] / 1000., xh=m[:, 9], shs=m[:, 10] / 1000., xhs=m[:, 11])
    L['aair'] = m[:, 12] if m.shape[1] > 12 else np.zeros(n)
    L['aself'] = m[:, 13] if m.shape[1] > 13 else np.zeros(n)
    if m.shape[1] > 14:
        L['w2'] = m[:, 14] / 1000.
        if m.shape[1] > 16:
            L.update(xw2=m[:, 15], w2s=m[:, 16] / 1000., xw2s=m[:, 17],
                     d2=m[:, 18] / 1000., d2s=m[:, 19] / 1000.)
        else:
            z = np.zeros(n)
            L.update(w2s=m[:, 15] / 1000., xw2=z, xw2s=z, d2=z.copy(), d2s=z.copy())
            if model == 'R20SD':      # quadratic shift of the 183 GHz line only
                L['d2'][1] = float(_LINES[g + 'd2air'])
                L['d2s'][1] = float(_LINES[g + 'd2self'])
    return {k: (np.array(v, dtype=float) if isinstance(v, np.ndarray) else v) for k, v in L.items()}


def o2_lines(model):
    g = 'o2/%s/' % model
    L = {}
    for k in _LINES:
        if k.startswith(g):
            v = _LINES[k]
            L[k[len(g):]] = float(v) if v.ndim == 0 else np.array(v, dtype=float)
    return L


def o3_lines(model):
    g = 'o3/%s/' % model
    m = _LINES[g + 'mtx']
    return dict(fl=m[:, 1].copy(), s1=m[:, 2].copy(), b=m[:, 3].copy(), w=m[:, 4] / 1000.,
                x=m[:, 5].copy(), sr=m[:, 6].copy(), reftline=float(_LINES[g + 'reftline']))


# ------------------------------------------------------------- complex error fn
_HA = [122.607931777104326, 214.382388694706425, 181.928533092181549,
       93.155580458138441, 30.180142196210589, 5.912626209773153, 0.564189583562615]
_HB = [122.607931773875350, 352.730625110963558, 457.334478783897737,
       348.703917719495792, 170.354001821091472, 53.992906912940207,
       10.479857114260399, 1.0]


def cerf(x, y):
    """Hui, Armstrong & Wray (1978): w(x+iy), all quadrants."""
    x = np.asarray(x, float)
    y = np.asarray(y, float)
    z = np.abs(y) - 1j * x
    num = np.polyval(_HA[::-1], z)
    den = np.polyval(_HB[::-1], z)
    w = num / den
    with np.errstate(over='ignore', invalid='ignore'):
        return np.where(y >= 0, w, 2.0 * np.exp(-(x + 1j * y) ** 2) - w)


def _speed_dep(width0, width2, df, delta2=0.0):
    """speed dependent (quadratic) shape: 2(1-sqrt(pi) u w(iu))/(w2 - i d2)."""
    cden = width2 - 1j * delta2
    xc = ((width0 - 1.5 * width2) + 1j * (df + 1.5 * delta2)) / cden
    u = np.sqrt(xc)
    pxw = SQRTPI * u * cerf(-u.imag, u.real)
    return 2.0 * (1.0 - pxw) / cden


# -------------------------------------------------------------- water vapour
_SELFCON = np.array([2.877e-21, 2.855e-21, 2.731e-21, 2.49e-21, 2.178e-21, 1.863e-21])
_SELFTEXP = np.array([6.413, 6.414, 6.275, 6.049, 5.789, 5.557])


def mtckd_self(f, t):
    """cubic (4 point) interpolation of the MT_CKD 4.1 self continuum."""
    th = 296. / t
    node = [6.532e+12 * s * th ** (e + 3.) for s, e in zip(_SELFCON, _SELFTEXP)]
    node = [node[1]] + node          # symmetric about zero frequency
    fj = f / 299.792458
    j = min(int(fj), 4)
    p = fj - j
    c = (3. - 2. * p) * p * p
    b = 0.5 * p * (1. - p)
    b1, b2 = b * (1. - p), b * p
    return -node[j] * b1 + node[j + 1] * (1. - c + b2) + node[j + 2] * (c + b1) - node[j + 3] * b2


def mwl24_self(f, t):
    atm = 1013.25
    virial = [-7.804242E+6, 8.345651E+4, -4.212794E+2, 1.242946, -2.409822E-3,
              3.017768E-6, -2.518957E-9, 1.350628E-12, -4.134191E-16, 5.530774E-20]
    b_t = np.polyval(virial[::-1], t) * -(100. / t) ** 6
    kbd = 4.7856E-4 * np.exp(1669.8 / t - 5.10485E-3 * t)
    kmd = ((b_t - 30.5) / (82.05746 * t) - kbd) / atm
    kbd = kbd / atm
    bd = (5.55E-8 / (434.8 ** 2 + (f - 219.5) ** 2) + 4.93E-10 / (21.06 ** 2 + f * f) + 1.34E-14) \
        * (268. / t) ** 10
    s2 = 1.E-13 * (4.06 + 7.12E-3 * f) / atm
    md = (s2 * (1 - 0.7) * (266. / t) ** 2.9 + 0.7 * bd / kbd) * kmd
    fw = 8.5E-15 * f ** 2.2 * (296. / t) ** 1.5
    return ((bd + md) * f ** 2 + fw) * 1.E5


SD_MODELS = ('R19SD', 'R20SD', 'R21SD', 'R22SD', 'R23SD', 'R24', 'MWL24')


def h2o_abs(model, p, t, e, f, L=None, split=False):
    """Water vapour power absorption (Np/km); p,e in hPa, t in K, f in GHz."""
    p, t, e = (np.asarray(a, float) for a in (p, t, e))
    L = L or h2o_lines(model)
    rvap = (0.01 * 8.31451) / 18.01528
    rho = e / (rvap * t)
    if model in ('R03', 'R16', 'R17', 'R98'):
        pv = rho * t / 217.0
    elif model in ('R22SD', 'R23SD', 'R24', 'MWL24'):
        pv = 461.52e-5 * rho * t
    else:
        pv = rho * t / 216.68
    pd = p - pv
    th_c = L['reftcon'] / t
    th = L['reftline'] / t
    # --- continuum
    if model in ('R98', 'R03'):
        con = (5.43e-10 * pd * th_c ** 3 + 1.8e-8 * pv * th_c ** 7.5) * pv * f * f
    elif model == 'MWL24':
        con = mwl24_self(f, t) * pv * pv + 7.1e-10 * (300. / t) ** 4.4 * f ** 1.96 * pd * pv
    elif model in ('R23SD', 'R24'):
        cself = L['cs'] * th_c ** L['xcs'] if L['cs'] > 0 else mtckd_self(f, t)
        con = (L['cf'] * th ** L['xcf'] * pd + cself * pv) * pv * f * f
    else:
        con = (L['cf'] * pd * th_c ** L['xcf'] + L['cs'] * pv * th_c ** L['xcs']) * pv * f * f
    # --- lines
    ln = np.log(th)
    tot = np.zeros_like(t)
    sd_model = model in SD_MODELS
    for i in range(len(L['fl'])):
        f0 = L['fl'][i]
        wf = L['w0'][i] * pd * th ** L['x'][i]
        w = wf + L['w0s'][i] * pv * th ** L['xs'][i]
        if model == 'R98':
            shift = np.zeros_like(t)
        elif model == 'R03':
            shift = L['sr'][i] * w
        elif model in ('R16', 'R17'):
            shift = L['sr'][i] * wf
        else:
            shift = L['sh'][i] * pd * (1. - L['aair'][i] * ln) * th ** L['xh'][i] + \
                L['shs'][i] * pv * (1. - L['aself'][i] * ln) * th ** L['xhs'][i]
        s = L['s1'][i] * th ** 2.5 * np.exp(L['b2'][i] * (1. - th))
        base = w / (562500.0 + w ** 2)
        dm = f - f0 - shift
        dp = f + f0 + shift
        if model in ('R98', 'R03', 'R16', 'R17'):
            inm, inp_ = np.abs(dm) <= 750., np.abs(dp) <= 750.
        else:
            inm, inp_ = np.abs(dm) < 750., np.abs(dp) < 750.
        with np.errstate(divide='ignore', invalid='ignore'):
            lm = np.where(inm, w / (dm ** 2 + w ** 2) - base, 0.)
            lp = np.where(inp_, w / (dp ** 2 + w ** 2) - base, 0.)
        if sd_model:
            if model in ('R19SD', 'R20SD'):
                w2 = L['w2'][i] * pd + L['w2s'][i] * pv
            elif L['w2'][i] > 0:
                w2 = L['w2'][i] * pd * th ** L['xw2'][i] + L['w2s'][i] * pv * th ** L['xw2s'][i]
            else:
                w2 = np.zeros_like(t)
            d2 = L['d2'][i] * pd + L['d2s'][i] * pv
            use = (w2 > 0) & (np.abs(dm) < 10 * w)
            if np.any(use):
                with np.errstate(all='ignore'):
                    sd = np.real(_speed_dep(w, np.where(use, w2, 1.), dm, np.where(use, d2, 0.))) - base
                lm = np.where(use, sd, lm)
        tot = tot + s * (lm + lp) * (f / f0) ** 2
    if model in ('R22SD', 'R23SD', 'R24'):
        lines = 1e-10 * rho * tot / (np.pi * H2O_MASS)
    else:
        den = (3.335e16 if model in ('R03', 'R16', 'R98') else 3.344e16) * rho
        lines = 3.1831e-5 * den * tot
    wet = e > 0
    lines = np.where(wet, lines, 0.)
    con = np.where(wet, con, 0.)
    return (lines, con) if split else lines + con


# ------------------------------------------------------------------- oxygen
def o2_abs(model, p, t, e, f, L=None):
    """Oxygen power absorption (Np/km), lines plus non resonant part."""
    p, t, e = (np.asarray(a, float) for a in (p, t, e))
    L = L or o2_lines(model)
    rvap = (0.01 * 8.314510) / 18.01528
    vapden = e / (rvap * t)
    th = 300.0 / t
    th1 = th - 1.0
    b = th ** L['x']
    old = model in ('R03', 'R16', 'R17', 'R18', 'R98')
    if old:
        pv = vapden * t / 217.0
    elif model in ('R22', 'R23', 'R24'):
        pv = 4.615228e-3 * vapden * t
    else:
        pv = vapden * t / 216.68
    pd = p - pv
    if model == 'R98':
        den = .001 * (pd + 1.1 * pv) * th
    elif model == 'R03':
        den = .001 * (pd * th ** 0.9 + 1.1 * pv * th)
    elif model == 'R16':
        den = .001 * (pd * b + 1.1 * pv * th)
    else:
        den = .001 * (pd * b + 1.2 * pv * th)
    dfnr = L['wb300'] * den
    nonres = 1.584e-17 * f * f * dfnr / (th * (f * f + dfnr ** 2))
    n = len(L['f'])
    fl, s3, be, w3 = L['f'], L['s300'], L['be'], L['w300']
    k37 = np.arange(n) <= 37
    if model in ('R98', 'R03', 'R17', 'R18', 'R19', 'R19SD'):
        tot = np.zeros_like(t) if old else nonres.copy()
        for k in range(n):
            df = w3[k] * den
            y = (.001 * p * b if model in ('R98', 'R03') else den) * (L['y300'][k] + L['v'][k] * th1)
            st = s3[k] * np.exp(-be[k] * th1)
            a = (df + (f - fl[k]) * y) / ((f - fl[k]) ** 2 + df * df)
            c = (df - (f + fl[k]) * y) / ((f + fl[k]) ** 2 + df * df)
            tot = tot + st * (a + c) * (f / fl[k]) ** 2
    elif model in ('R16', 'R20', 'R20SD', 'R22'):
        tot = np.zeros_like(t) if old else nonres.copy()
        p2 = den * den
        for k in range(n):
            df = w3[k] * den
            y = den * (L['y0'][k] + L['y1'][k] * th1)
            dnu = p2 * (L['dnu0'][k] + L['dnu1'][k] * th1)
            g = 1. + p2 * (L['g0'][k] + L['g1'][k] * th1)
            st = s3[k] * np.exp(-be[k] * th1)
            d1 = f - fl[k] - dnu
            d2 = f + fl[k] + dnu
            tot = tot + st * ((df * g + d1 * y) / (d1 * d1 + df * df) +
                              (df * g - d2 * y) / (d2 * d2 + df * df)) * (f / fl[k]) ** 2
    else:
        r24 = model == 'R24'
        pe1 = den if r24 else .99 * den
        pe2 = pe1 ** 2
        A = [s3[k] * np.exp(-be[k] * th1) * (th if r24 else 1.) / fl[k] ** 2 for k in range(n)]
        G = [L['g0'][k] + L['g1'][k] * th1 for k in range(n)]
        band = [k for k in range(n) if 0 < k <= 37]
        anorm = sum(A[k] for k in band)
        sumg = sum(A[k] * G[k] for k in band)
        if r24:
            Y = [.99 * (L['y300'][k] + L['y1'][k] * th1) for k in range(n)]
            wnr = L['wb300'] * pe1
            sumy = 1.584e-17 * L['wb300'] + sum(2. * A[k] * (w3[k] + Y[k] * fl[k]) for k in range(n) if k <= 37)
            bias = sumy / (2. * anorm)
            ratio = sumg / sum(A[k] ** 2 for k in band)
            for k in band:
                Y[k] = Y[k] - bias / fl[k]
                G[k] = G[k] - A[k] * ratio
            tot = 1.584e-17 * wnr / (f * f + wnr * wnr)
        else:
            Y = [L['y300'][k] + L['y1'][k] * th1 for k in range(n)]
            for k in band:
                G[k] = G[k] - sumg / anorm
            tot = (1.584e-17 / th) * dfnr / (f * f + dfnr ** 2)
        for k in range(n):
            w = w3[k] * (pe1 if r24 else den)
            y = pe1 * Y[k]
            g = 1. + pe2 * G[k] if k in band else np.ones_like(t)
            fc = fl[k] + pe2 * (L['dnu0'][k] + L['dnu1'][k] * th1)
            d1 = f - fc
            d2 = f + fc
            s1 = (w * g + d1 * y) / (d1 ** 2 + w ** 2)
            if k == 0:
                use = np.abs(d1) < 10. * w
                if np.any(use):
                    w2 = .076 * w
                    sd = np.real((1 + 1j * y) * _speed_dep(w, w2, d1))
                    s1 = np.where(use, sd, s1)
            s2 = (w * g - d2 * y) / (d2 ** 2 + w ** 2)
            tot = tot + A[k] * (s1 + s2)
            if not r24 and k == 37:
                tot = np.maximum(tot, 0.)
    if model in ('R03', 'R98'):
        out = 5.034e+11 * tot * pd * th ** 3 / 3.14159
    elif model == 'R23':
        out = 1.6097e+11 * tot * pd * f * f * th ** 3
    elif model == 'R24':
        out = 1.6097e+11 * tot * pd * (f * th) ** 2
    else:
        out = 1.6097e+11 * tot * pd * th ** 3
    if model != 'R98':
        out = np.maximum(out, 0.)
    if model in ('R20', 'R20SD', 'R22'):
        out = 1.004 * out
    if model in ('R98', 'R03'):
        out = out + 1.6e-17 * f * f * dfnr / (th * (f * f + dfnr ** 2)) * 5.034e+11 * pd * th ** 3 / 3.14159
    elif model in ('R16', 'R17', 'R18'):
        out = out + nonres * 1.6097e11 * pd * th ** 3
    return out


# ----------------------------------------------------------------- nitrogen
def n2_abs(model, t, pd, f):
    """collision induced absorption of dry air (Np/km); pd dry pressure hPa."""
    if not model:
        return np.zeros_like(np.asarray(t, float))
    t = np.asarray(t, float)
    th = 300. / t
    if model == 'MWL24':
        kt = 0.6950354549
        d0, dr = 108. / (kt * t), 108. / (kt * 300.)
        pot = (np.exp(d0) - (1 + d0)) / (np.exp(dr) - (1 + dr))
        m0 = np.polyval([1.8845e-10, 1.6182e-7, -0.0005385, 1.4359], f)
        aa = np.polyval([-5.738e-10, 1.131e-6, -0.0005165, 0.07988], f)
        spec = 1.754e-18 * .5 * (1 + 1.033 * (1 + .1510 / (1 + ((f - 358.) / 127.) ** 2)) /
                                 (1 + ((f - 44.) / 568.) ** 2) + .1420 * np.exp(-(f / 92. - 1) ** 2))
        return .84e5 * spec * th ** (m0 + aa * np.log(th)) * pot * (pd * .7500616827) ** 2 * f ** 2
    fd = .5 + .5 / (1. + (f / 450.) ** 2)
    if model == 'R98':
        return 6.4e-14 * pd * pd * f * f * th ** 3.55
    if model in ('R16', 'R17', 'R18', 'R19', 'R19SD'):
        return 1.34 * 6.5e-14 * fd * pd * pd * f * f * th ** 3.6
    if model == 'R03':
        return 1.29 * 6.5e-14 * fd * pd * pd * f * f * th ** 3.6
    return 9.95e-14 * fd * pd * pd * f * f * th ** 3.22


# -------------------------------------------------------------------- ozone
def o3_abs(model, t, p, f, o3n, L=None):
    """Ozone lines within 1 GHz (Np/km); o3n in molecules/m3."""
    t, p, o3n = (np.asarray(a, float) for a in (t, p, o3n))
    L = L or o3_lines(model)
    th = L['reftline'] / t
    qv = 1. - np.exp(-1008. / t)
    tot = np.zeros_like(t)
    for k in np.nonzero((L['fl'] >= f - 1.) & (L['fl'] <= f + 1.))[0]:
        f0 = L['fl'][k]
        wc = L['w'][k] * p * th ** L['x'][k]
        s = L['s1'][k] * np.exp(L['b'][k] * (1. - th))
        if model == 'R22':
            bd = .62065e-7 * f0 * np.sqrt(t)
            tot = tot + s * np.real(cerf((f0 - f) / bd, wc / bd)) / bd
        else:
            bd2 = 3.85e-15 * t * f0 ** 2
            w = .5346 * wc + np.sqrt(.2166 * wc * wc + .6931 * bd2)
            tot = tot + s * (f / f0) ** 2 * w / ((f - f0) ** 2 + w * w)
    a = (.56419e-4 if model == 'R22' else 3.183e-5) * tot * qv * th ** 2.5 * 1e-6 * o3n
    return np.where(o3n != 0, a, 0.)


def dry_abs(o2m, n2m, o3m, p, t, e, f, o3n=None, LO2=None, LO3=None):
    a = o2_abs(o2m, p, t, e, f, LO2) + n2_abs(n2m, t, np.asarray(p) - e, f)
    if o3n is not None and o3m in O3_MODELS:
        a = a + o3_abs(o3m, t, p, f, o3n, LO3)
    return a


# ------------------------------------------------------------------- clouds
def dilec(f, t):
    """liquid water permittivity (Patek / Ellison / Rosenkranz 2015)."""
    t = np.asarray(t, float)
    tc = t - 273.15
    z = 1j * f
    th = 300. / t
    k = -43.7527 * th ** .05 + 299.504 * th ** 1.47 - 399.364 * th ** 2.11 + 221.327 * th ** 2.31
    k = k - 80.69715 * np.exp(-tc / 226.45) * z / (1164.023 * np.exp(-651.4728 / (tc + 133.07)) + z)
    d = 4.008724 * np.exp(-tc / 103.05)
    f1 = 10.46012 + .1454962 * tc + .063267156 * tc ** 2 + .00093786645 * tc ** 3
    z1 = (-.75 + 1j) * f1
    z2 = -4500. + 2000j
    cn = np.log(z2 / z1)
    chi = .5 * d * (np.log((z - z2) / (z - z1)) / cn +
                    np.log((z - np.conj(z2)) / (z - np.conj(z1))) / np.conj(cn))
    return k + chi - d


def liq_abs(model, w, f, t):
    t = np.asarray(t, float)
    if model in ('R98', 'R03'):
        th1 = 1. - 300. / t
        e0 = 77.66 - 103.3 * th1
        e1 = .0671 * e0
        fp = 20.1 * np.exp(7.88 * th1) if model == 'R03' else (316. * th1 + 146.4) * th1 + 20.2
        fs = 39.8 * fp
        eps = (e0 - e1) / (1 + 1j * f / fp) + (e1 - 3.52) / (1 + 1j * f / fs) + 3.52
    else:
        eps = dilec(f, t)
    a = -.06286 * np.imag((eps - 1.) / (eps + 2.)) * f * np.asarray(w, float)
    return np.where(np.asarray(w) > 0, a, 0.)


def ice_abs(d, f):
    wave_cm = C['light'] * 100. / (f * 1e9)
    d = np.asarray(d, float)
    return np.where(d > 0, 8.18645 / wave_cm * d * .000959553 * LOG10_10, 0.)


# --------------------------------------------------------------- thermodynamics
def eswat(t):
    """Goff-Gratch saturation vapour pressure over water (hPa)."""
    y = 373.16 / np.asarray(t, float)
    return 10. ** (-7.90298 * (y - 1.) + 5.02808 * np.log10(y) - 1.3816e-7 * (10 ** (11.344 * (1. - 1. / y)) - 1.)
                   + 8.1328e-3 * (10 ** (-3.49149 * (y - 1.)) - 1.) + np.log10(1013.246))


def esice(t, t0=273.16):
    y = t0 / np.asarray(t, float)
    return 10. ** (-9.09718 * (y - 1.) - 3.56654 * np.log10(y) + .876793 * (1. - 1. / y) + np.log10(6.1071))


def vapor(t, rh, ice=False):
    t = np.asarray(t, float)
    es = np.where(t < 263.16, esice(t), eswat(t)) if ice else eswat(t)
    e = rh * es
    return e, e / (461.52e-5 * t)


def refractivity(p, t, e):
    """Thayer (1974): dry N, wet N, index."""
    p, t, e = (np.asarray(a, float) for a in (p, t, e))
    pa = p - e
    tc = t - 273.16
    rza = 1. + pa * (5.79e-7 * (1. + .52 / t) - 9.4611e-4 * tc / t ** 2)
    rzw = 1. + 1650. * e / t ** 3 * (1. - .01317 * tc + 1.75e-4 * tc ** 2 + 1.44e-6 * tc ** 3)
    wet = (64.79 * e / t + 377600. * e / t ** 2) * rzw
    dry = 77.6036 * pa / t * rza
    return dry, wet, 1. + (dry + wet) * 1e-6


# ------------------------------------------------------------------- geometry
def slant(z, angle):
    """plane parallel path increments; z above the antenna (km)."""
    return np.append(0., np.diff(z) / np.sin(angle * np.pi / 180.))


def ray_trace(z, n, angle, z0):
    """Dutton/Thayer/Westwater ray tracing; returns layer paths (km)."""
    nl = len(z)
    ds = np.zeros(nl)
    if 89 <= abs(angle) <= 91:
        ds[1:] = np.diff(z)
        return ds
    re = C['EarthRadius'] + z0
    th0 = angle * np.pi / 180.
    rs = re + z[0]
    a0 = 2. * np.sin(th0 / 2.) ** 2
    phi_l = tau_l = 0.
    r_l, tan_l = rs, np.tan(th0)
    for i in range(1, nl):
        r = re + z[i]
        n0, n1 = n[i - 1], n[i]
        nb = .5 * (n0 + n1) if (n0 == n1 or n0 == 1. or n1 == 1.) else 1. + (n0 - n1) / np.log((n0 - 1.) / (n1 - 1.))
        arg = z[i] / rs - (n[0] - n1) * np.cos(th0) / n1
        argth = .5 * (a0 + arg) / r
        if argth <= 0:
            return None          # ducting
        sint = np.sqrt(r * argth)
        th = 2. * np.arcsin(sint)
        if th - 2. * th0 <= 0.:
            den = 2. * (sint + np.sin(th0 / 2.)) * np.cos((th + th0) * .25)
            dth = 4. * np.arcsin((.5 * arg - z[i] * argth) / den)
            th = th0 + dth
        else:
            dth = th - th0
        tan_ = np.tan(th)
        dtau = .5 * (1. / tan_ + 1. / tan_l) * (n0 - n1) / nb
        tau = tau_l + dtau
        phi = dth + tau
        d = np.sqrt((z[i] - z[i - 1]) ** 2 + 4. * r * r_l * np.sin((phi - phi_l) / 2.) ** 2)
        if dtau != 0.:
            da = abs(tau - tau_l)
            d = d * da / (2. * np.sin(da / 2.))
        ds[i] = d
        phi_l, tau_l, r_l, tan_l = phi, tau, r, tan_
    return ds


# ---------------------------------------------------------------- integration
def layer_integral(x, ds, zero_avg=True):
    """exponential-profile layer integrals; element 0 belongs to no layer."""
    x = np.asarray(x, float)
    out = np.zeros(len(ds))
    for i in range(1, len(ds)):
        a, b = x[i - 1], x[i]
        if abs(b - a) < 1e-9:
            m = b
        elif a == 0. or b == 0.:
            m = .5 * (a + b) if zero_avg else 0.
        else:
            m = (b - a) / np.log(b / a)
        out[i] = m * ds[i]
    return out


# -------------------------------------------------------------- Planck and RTE
def hvk(f):
    return f * 1e9 * C['planck'] / C['boltzmann']


def planck_b(f, t):
    return 1. / np.expm1(hvk(f) / np.asarray(t, float))


def bright(f, b):
    if b == 0:
        return 0.
    return hvk(f) / np.log1p(1. / b)


EXPMAX = 125.0


def rte(f, t, tau, from_sat, emis):
    """tau[i]: opacity of the layer between level i-1 and i (tau[0]=0).

    returns dict: tb, tbatm, tmr, cumulated opacity and radiance profiles.
    """
    t = np.asarray(t, float)
    nl = len(t)
    B = planck_b(f, t)
    tr = np.exp(-tau)
    cum = np.zeros(nl)
    rad = np.zeros(nl)
    if from_sat:
        for i in range(nl - 2, -1, -1):
            lay = (B[i + 1] + B[i] * tr[i + 1]) / (1. + tr[i + 1])
            rad[i] = rad[i + 1] + lay * np.exp(-cum[i + 1]) * (1. - tr[i + 1])
            cum[i] = cum[i + 1] + tau[i + 1]
        atm, tot, bg = rad[0], cum[0], emis * B[0]
    else:
        for i in range(1, nl):
            lay = (B[i - 1] + B[i] * tr[i]) / (1. + tr[i])
            rad[i] = rad[i - 1] + lay * np.exp(-cum[i - 1]) * (1. - tr[i])
            cum[i] = cum[i - 1] + tau[i]
        atm, tot, bg = rad[-1], cum[-1], planck_b(f, C['Tcosmicbkg'])
    if tot < EXPMAX:
        total = atm + bg * np.exp(-tot)
        mr = atm / (1. - np.exp(-tot)) if tot > 0 else np.nan
    else:
        total, mr = atm, atm
    return dict(tb=bright(f, total), tbatm=bright(f, atm), tmr=bright(f, mr) if mr == mr else np.nan,
                cum=cum, rad=rad, tot=tot)


def cloud_tmr(f, base, top, cum, rad):
    if cum[base] > EXPMAX:
        return np.nan
    d = (rad[top] - rad[base]) * np.exp(cum[base])
    tc = cum[top] - cum[base]
    if not tc > EXPMAX:
        d = d / (1. - np.exp(-tc))
    return bright(f, d)


def cloud_layers(base, top):
    """upper levels of the layers inside at least one cloud: clouds may overlap, a layer counts once"""
    return sorted({j for b, tp in zip(base, top) for j in range(int(b) + 1, int(tp) + 1)})


# ------------------------------------------------------------------ end to end
def simulate(z, p, t, rh, frq, angles, models, from_sat=True, emis=1.0, ray_tracing=False,
             o3n=None, cloud=None, ice=False, lines=None):
    """Whole simulation. models: dict h2o,o2,n2,liq,o3. cloud: (cldh(2,n), denice, denliq).

    Heights may be ascending or descending, km amsl. Returns arrays [freq, angle].
    """
    z, p, t, rh = (np.asarray(a, float) for a in (z, p, t, rh))
    if z[0] > z[-1]:
        z, p, t, rh = z[::-1], p[::-1], t[::-1], rh[::-1]
        o3n = None if o3n is None else np.asarray(o3n)[::-1]
        if cloud is not None:
            cloud = (cloud[0], np.asarray(cloud[1])[::-1], np.asarray(cloud[2])[::-1])
    z0 = z[0]
    za = z - z0
    lines = lines or {}
    nf, na, nl = len(frq), len(angles), len(z)
    emis = np.broadcast_to(np.asarray(emis, float), (nf,))
    e, rho = vapor(t, rh, ice)
    dryn, wetn, idx = refractivity(p, t, e)
    R = {k: np.zeros((nf, na)) for k in ('tbtotal', 'tbatm', 'tmr', 'tmrcld', 'tauwet', 'taudry', 'tauliq', 'tauice')}
    for k in ('taulaywet', 'taulaydry', 'taulayliq', 'taulayice', 'awet', 'adry'):
        R[k] = np.zeros((nf, na, nl))
    for k in ('srho', 'swet', 'sdry', 'sliq', 'sice'):
        R[k] = np.zeros((1, na))
    R['ds'] = np.zeros((na, nl))
    aw, ad, al, ai = [], [], [], []
    for f in frq:
        aw.append(h2o_abs(models['h2o'], p, t, e, f, lines.get('h2o')))
        ad.append(dry_abs(models['o2'], models.get('n2'), models.get('o3'), p, t, e, f, o3n,
                          lines.get('o2'), lines.get('o3')))
        if cloud is not None:
            al.append(liq_abs(models.get('liq'), cloud[2], f, t))
            ai.append(ice_abs(cloud[1], f))
    lev = None
    if cloud is not None:
        lev = []
        for j in range(cloud[0].shape[1]):
            k = np.nonzero((za >= cloud[0][0, j] - z0) & (za <= cloud[0][1, j] - z0))[0]
            lev.append((int(k[0]), int(k[-1])) if len(k) else (0, 0))
        low = min(lev)
        layers = cloud_layers([b for b, _ in lev], [tp for _, tp in lev])
    for k, ang in enumerate(angles):
        ds = ray_trace(za, idx, ang, z0) if ray_tracing else slant(za, ang)
        R['ds'][k] = ds
        R['srho'][0, k] = .1 * layer_integral(rho, ds).sum()
        R['swet'][0, k] = .1 * layer_integral(wetn, ds).sum()
        R['sdry'][0, k] = .1 * layer_integral(dryn, ds).sum()
        if cloud is not None:
            for key, den in (('sliq', cloud[2]), ('sice', cloud[1])):
                R[key][0, k] = .1 * sum(ds[j] * .5 * (den[j] + den[j - 1]) for j in layers)
        for j, f in enumerate(frq):
            R['awet'][j, k], R['adry'][j, k] = aw[j], ad[j]
            R['taulaywet'][j, k] = layer_integral(aw[j], ds)
            R['taulaydry'][j, k] = layer_integral(ad[j], ds)
            if cloud is not None:
                R['taulayliq'][j, k] = layer_integral(al[j], ds, False)
                R['taulayice'][j, k] = layer_integral(ai[j], ds, False)
            lay = sum(R['taulay' + q][j, k] for q in ('wet', 'dry', 'liq', 'ice'))
            for q in ('wet', 'dry', 'liq', 'ice'):
                R['tau' + q][j, k] = R['taulay' + q][j, k].sum()
            s = rte(f, t, lay, from_sat, emis[j])
            R['tbtotal'][j, k], R['tbatm'][j, k], R['tmr'][j, k] = s['tb'], s['tbatm'], s['tmr']
            if cloud is not None:
                R['tmrcld'][j, k] = cloud_tmr(f, low[0], low[1], s['cum'], s['rad'])
    R['lev'] = lev
    return R
