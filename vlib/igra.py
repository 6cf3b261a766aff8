"""Archives of the IGRA2 format, written from known values (columns as in the format description, counted from 1)."""
from datetime import datetime, timedelta
import numpy as np

NAN = float('nan')


def put(line, first, last, text):
    text = str(text)
    assert len(text) <= last - first + 1, (first, last, text)
    text = text.rjust(last - first + 1)
    line[first - 1:last] = list(text)


def code(v, scale, missing):
    return missing if v is None else int(round(v * scale))


RAW = [('pressure', 10, 15, 100), ('height', 17, 21, 1), ('temperature', 23, 27, 10), ('relative_humidity', 29, 33, 10),
       ('dewpoint_depression', 35, 39, 10), ('direction', 41, 45, 1), ('speed', 47, 51, 10)]
DRVD = [('pressure', 100), ('reported_height', 1), ('calculated_height', 1), ('temperature', 10), ('temperature_gradient', 10),
        ('potential_temperature', 10), ('potential_temperature_gradient', 10), ('virtual_temperature', 10),
        ('virtual_potential_temperature', 10), ('vapor_pressure', 1000), ('saturation_vapor_pressure', 1000),
        ('reported_relative_humidity', 10), ('calculated_relative_humidity', 10), ('relative_humidity_gradient', 10), ('u_wind', 10),
        ('u_wind_gradient', 10), ('v_wind', 10), ('v_wind_gradient', 10), ('refractive_index', 1)]
DHEAD = [('precipitable_water', 38, 43, 100), ('inv_pressure', 44, 49, 100), ('inv_height', 50, 55, 1), ('inv_strength', 56, 61, 10),
         ('mixed_layer_pressure', 62, 67, 100), ('mixed_layer_height', 68, 73, 1), ('freezing_point_pressure', 74, 79, 100),
         ('freezing_point_height', 80, 85, 1), ('lcl_pressure', 86, 91, 100), ('lcl_height', 92, 97, 1), ('lfc_pressure', 98, 103, 100),
         ('lfc_height', 104, 109, 1), ('lnb_pressure', 110, 115, 100), ('lnb_height', 116, 121, 1), ('lifted_index', 122, 127, 1),
         ('showalter_index', 128, 133, 1), ('k_index', 134, 139, 1), ('total_totals_index', 140, 145, 1), ('cape', 146, 151, 1),
         ('convective_inhibition', 152, 157, 1)]


def station(rng):
    return ''.join(rng.choice(list('ABCDEFGHIJKLMNOPQRSTUVWXYZ'), 2)) + 'M000' + '%05d' % rng.integers(100000)


def maybe(rng, v, p):
    return None if rng.random() < p else v


def body_raw(rng, n, miss):
    out = []
    p = np.sort(rng.uniform(1, 1050, n))[::-1]
    for i in range(n):
        r = dict(lvltyp1=int(rng.integers(1, 4)), lvltyp2=int(rng.integers(0, 3)),
                 minutes=maybe(rng, int(rng.integers(0, 130)), miss), seconds=int(rng.integers(60)),
                 pressure=maybe(rng, round(float(p[i]), 2), miss * .3), height=maybe(rng, int(rng.integers(-300, 40000)), miss),
                 temperature=maybe(rng, round(float(rng.choice([rng.uniform(-90, 45), 0., -.1, -99.8])), 1), miss),
                 relative_humidity=maybe(rng, round(float(rng.uniform(0, 100)), 1), .5),
                 dewpoint_depression=maybe(rng, round(float(rng.choice([0., rng.uniform(0, 60)])), 1), miss),
                 direction=maybe(rng, int(rng.choice([0, 360, 90, 180, rng.integers(0, 361)])), miss),
                 speed=maybe(rng, round(float(rng.choice([0., rng.uniform(0, 120)])), 1), miss),
                 flags=[str(v) for v in rng.choice([' ', ' ', 'A', 'B'], 3)])
        if rng.random() < miss * .3:
            r.update(temperature=None, dewpoint_depression=None, direction=None, speed=None)
        r['removed'] = {k: bool(rng.random() < .4) for k in r}
        out.append(r)
    return out


def line_raw(r):
    s = [' '] * 51
    na = lambda k: -8888 if r['removed'].get(k) else -9999  # noqa: E731
    put(s, 1, 1, r['lvltyp1'])
    put(s, 2, 2, r['lvltyp2'])
    put(s, 4, 8, na('minutes') if r['minutes'] is None else '%d' % (r['minutes'] * 100 + r['seconds']))
    for k, a, b, sc in RAW:
        put(s, a, b, code(r[k], sc, -9999 if k == 'pressure' else na(k)))
    for c, f in zip((16, 22, 28), r['flags']):
        put(s, c, c, f)
    return ''.join(s) + '\n'


def body_drvd(rng, n, miss):
    out = []
    rg = {k: (-99, 999) for k, _ in DRVD}
    rg.update(pressure=(1, 1050), reported_height=(0, 40000), calculated_height=(0, 40000), temperature=(180, 320),
              vapor_pressure=(0, 40), saturation_vapor_pressure=(0, 60), refractive_index=(0, 400), reported_relative_humidity=(0, 100))
    for _ in range(n):
        r = {}
        for k, sc in DRVD:
            v = float(rng.uniform(*rg[k]))
            r[k] = maybe(rng, round(v * sc) / sc, 0. if k == 'pressure' else miss)
        if rng.random() < miss * .3:
            r.update(temperature=None, reported_relative_humidity=None, u_wind=None, v_wind=None)
        out.append(r)
    return out


def line_drvd(r):
    s = [' '] * 151
    for i, (k, sc) in enumerate(DRVD):
        put(s, 8 * i + 1, 8 * i + 7, code(r[k], sc, -99999))
    return ''.join(s) + '\n'


def header(rng, site, when, hour, n, derived):
    h = dict(site_id=site, year=when.year, month=when.month, day=when.day, hour=hour, number_levels=n)
    h['release'] = None if rng.random() < .2 else (int(rng.integers(24)), int(rng.integers(60)))
    if derived:
        for k, a, b, sc in DHEAD:
            v = float(rng.uniform(0, 1050) if 'pressure' in k else rng.uniform(-99, 999) if sc == 1 else rng.uniform(0, 60))
            h[k] = maybe(rng, round(v * sc) / sc, .3)
    else:
        h['latitude'] = round(float(rng.choice([rng.uniform(-90, 90), rng.uniform(-1, 1), rng.uniform(-.1, .1), 0.])), 4)
        h['longitude'] = round(float(rng.choice([rng.uniform(-180, 180), rng.uniform(-1, 1), rng.uniform(-.1, .1), 0., -179.9999])), 4)
        h['pressure_source_code'] = str(rng.choice(['ncdc6301', 'ncdc-gts', 'cdmp-amr', 'chn-wind']))
        h['non_pressure_source_code'] = str(rng.choice(['ncdc6301', 'ncdc-gts', '', 'cdmp-adp']))
    return h


def line_header(h, derived):
    s = [' '] * (157 if derived else 71)
    put(s, 1, 1, '#')
    put(s, 2, 12, h['site_id'])
    put(s, 14, 17, h['year'])
    put(s, 19, 20, '%02d' % h['month'])
    put(s, 22, 23, '%02d' % h['day'])
    put(s, 25, 26, '%02d' % h['hour'])
    put(s, 28, 31, '9999' if h['release'] is None else '%02d%02d' % h['release'])
    put(s, 33, 36, h['number_levels'])
    if derived:
        for k, a, b, sc in DHEAD:
            put(s, a, b, code(h[k], sc, -99999))
    else:
        put(s, 38, 45, h['pressure_source_code'].ljust(8))
        put(s, 47, 54, h['non_pressure_source_code'].ljust(8))
        put(s, 56, 62, int(round(h['latitude'] * 1e4)))
        put(s, 64, 71, int(round(h['longitude'] * 1e4)))
    return ''.join(s) + '\n'


def archive(rng, site, derived, nsound=None, ordered=True, many=0):
    """-> list of soundings (date, header, levels), text."""
    t = datetime(int(rng.integers(1990, 2024)), int(rng.integers(1, 13)), int(rng.integers(1, 28)))
    out, text = [], []
    miss = float(rng.choice([0., .1, .3]))
    for _ in range(nsound or int(rng.integers(1, 9))):
        t = t + timedelta(days=int(rng.choice([0, 1, 1, 2, 30])))
        known = rng.random() < .9
        hour = int(rng.choice([0, 6, 12, 18, 23, 3])) if known else 99
        when = datetime(t.year, t.month, t.day, hour if known else 0)
        if any(x['date'] == when for x in out):
            continue
        n = int(rng.choice([1, 2, rng.integers(3, 60)]))
        if many and not out:                      # a high resolution sounding
            n = many
        h = header(rng, site, when, hour, n, derived)
        b = (body_drvd if derived else body_raw)(rng, n, miss)
        out.append(dict(date=when, header=h, levels=b))
    if ordered:
        out.sort(key=lambda x: x['date'])
    for x in out:
        text.append(line_header(x['header'], derived))
        text += [(line_drvd if derived else line_raw)(r) for r in x['levels']]
    return out, ''.join(text)
