"""Recommendation ITU-R P.835-6, written as tables of segments (independent of the code under test)."""
import numpy as np

poly = lambda *c: (lambda h: sum(k * h ** i for i, k in enumerate(c)))                    # noqa: E731
line = lambda t0, h0, g: (lambda h: t0 + g * (h - h0))                                    # noqa: E731
grow = lambda t0, h0, k: (lambda h: t0 * np.exp(k * (h - h0)))                            # noqa: E731
epol = lambda a, *c: (lambda h: a * np.exp(sum(k * h ** (i + 1) for i, k in enumerate(c))))  # noqa: E731

# (upper edge, function) ; value at an edge belongs to the upper segment
T = {
    ('low', 's'): [(17, poly(300.4222, -6.3533, .005886)), (47, line(194., 17, 2.533)), (52, line(270., 47, 0)),
                   (80, line(270., 52, -3.0714)), (100, line(184., 80, 0))],
    ('mid', 's'): [(13, poly(294.9838, -5.2159, -.07109)), (17, line(215.15, 0, 0)), (47, grow(215.15, 17, .008128)), (53, line(275., 0, 0)),
                   (80, lambda h: 275. + 20. * (1. - np.exp(.06 * (h - 53)))), (100, line(175., 0, 0))],
    ('mid', 'w'): [(10, poly(272.7241, -3.6217, -.1759)), (33, line(218., 0, 0)), (47, line(218., 33, 3.3571)), (53, line(265., 0, 0)),
                   (80, line(265., 53, -2.0370)), (100, line(210., 0, 0))],
    ('high', 's'): [(10, poly(286.8374, -4.7805, -.1402)), (23, line(225., 0, 0)), (48, grow(225., 23, .008317)), (53, line(277., 0, 0)),
                    (79, line(277., 53, -4.0769)), (100, line(171., 0, 0))],
    ('high', 'w'): [(8.5, poly(257.4345, 2.3474, -1.5479, .08473)), (30, line(217.5, 0, 0)), (50, line(217.5, 30, 2.125)),
                    (54, line(260., 0, 0)), (100, line(260., 54, -1.667))],
}
T['low', 'w'] = T['low', 's']
# (polynomial up to 10 km, decay to 72 km, decay above)
_P = {('low', 's'): ((1012.0306, -109.0338, 3.6316), .147, .165), ('mid', 's'): ((1012.8186, -111.5569, 3.8646), .147, .165),
      ('mid', 'w'): ((1018.8627, -124.2954, 4.8307), .147, .155), ('high', 's'): ((1008.0278, -113.2494, 3.9408), .140, .165),
      ('high', 'w'): ((1010.8828, -122.2411, 4.554), .147, .150)}
_P['low', 'w'] = _P['low', 's']
W = {('low', 's'): (15, epol(19.6542, -.2313, -.1122, .01351, -.0005923)), ('mid', 's'): (15, epol(14.3542, -.4174, -.02290, .001007)),
     ('mid', 'w'): (10, epol(3.4742, -.2697, -.03604, .0004489)), ('high', 's'): (15, epol(8.988, -.3614, -.005402, -.001955)),
     ('high', 'w'): (10, epol(1.2319, .07481, -.0981, .00281))}
W['low', 'w'] = W['low', 's']


def zone(lat):
    a = abs(lat)
    return 'low' if a < 22 else 'mid' if a < 45 else 'high'


def temperature(lat, h, season):
    seg = T[zone(lat), season[0]]
    out = np.full(len(h), np.nan)
    lo = 0.
    for hi, f in seg:
        m = (h >= lo) & ((h < hi) | ((hi == 100) & (h <= 100)))
        out[m] = f(h[m])
        lo = hi
    return out


def pressure(lat, h, season):
    c, k1, k2 = _P[zone(lat), season[0]]
    f = poly(*c)
    p10 = f(10.)
    p72 = p10 * np.exp(-k1 * 62.)
    return np.where(h <= 10, f(h), np.where(h <= 72, p10 * np.exp(-k1 * (h - 10)), p72 * np.exp(-k2 * (h - 72))))


def vapour(lat, h, season):
    top, f = W[zone(lat), season[0]]
    return np.where(h <= top, f(np.minimum(h, top)), 0.)


# reference standard atmosphere: geopotential segments (base, T base, lapse), pressures chained hydrostatically
_SEG = [(0., 288.15, -6.5), (11., 216.65, 0.), (20., 216.65, 1.), (32., 228.65, 2.8), (47., 270.65, 0.), (51., 270.65, -2.8), (71., 214.65, -2.)]
_TOP = 84.852
_PB = [1013.25, 226.3226, 54.74980, 8.680422, 1.109106, .6694167, .03956649]      # published base pressures


def geopotential(h):
    return 6356.766 * h / (6356.766 + h)


def standard_temperature(h):
    g = geopotential(h)
    out = np.full(len(h), np.nan)
    for b, t0, l in _SEG:
        out = np.where(g >= b, t0 + l * (g - b), out)
    out = np.where(g < 0, 288.15 - 6.5 * g, out)
    with np.errstate(invalid='ignore'):
        out = np.where(h >= 86, np.where(h <= 91, 186.8673, 263.1905 - 76.3232 * np.sqrt(1 - ((h - 91) / 19.9429) ** 2)), out)
    return out


def standard_pressure(h):
    g = geopotential(h)
    out = np.full(len(h), np.nan)
    for i, (b, t0, l) in enumerate(_SEG):
        top = _SEG[i + 1][0] if i + 1 < len(_SEG) else _TOP
        p0 = _PB[i]
        f = (lambda x: p0 * np.exp(-34.1632 * (x - b) / t0)) if l == 0 else (lambda x: p0 * (t0 / (t0 + l * (x - b))) ** (34.1632 / l))
        out = np.where(g >= b, f(np.clip(g, b, top)), out)
        assert i + 1 == len(_SEG) or abs(f(top) / _PB[i + 1] - 1) < 1e-4     # hydrostatic chain
    out = np.where(h >= 86, np.exp(95.571899 - 4.011801 * h + 6.424731e-2 * h ** 2 - 4.789660e-4 * h ** 3 + 1.340543e-6 * h ** 4), out)
    return out


def season(lat, month):
    if abs(lat) <= 20 or month not in (12, 1, 2, 6, 7, 8):
        return 'standard'
    return 'summer' if (month in (6, 7, 8)) == (lat > 0) else 'winter'
