"""Pages of the Wyoming sounding service, written from known values."""
from datetime import datetime
import html
import numpy as np

HEAD = ('-' * 77 + '\n   PRES   HGHT   TEMP   DWPT   RELH   MIXR   DRCT   SKNT   THTA   THTE   THTV\n'
        '    hPa     m      C      C      %    g/kg    deg   knot     K      K      K \n' + '-' * 77 + '\n')
COLS = [('pressure', '%7.1f'), ('height', '%7d'), ('temperature', '%7.1f'), ('dewpoint', '%7.1f'), ('rh', '%7d'), ('mixr', '%7.2f'),
        ('drct', '%7d'), ('sknt', '%7d'), ('thta', '%7.1f'), ('thte', '%7.1f'), ('thtv', '%7.1f')]
NAMES = ['Pratica Di Mare', 'Sydney Airport Amo', 'Ny-Alesund Ii', 'St. John\'s', 'Amundsen-Scott', 'Udine/Rivolto', 'Buenos Aires & Ezeiza', 'X']


def sounding(rng):
    n = int(rng.choice([1, 3, rng.integers(5, 120)]))
    p = np.sort(np.round(rng.uniform(3, 1050, n), 1))[::-1]
    miss = float(rng.choice([0., .05, .3]))
    rows = []
    for i in range(n):
        t = round(float(rng.uniform(-90, 45)), 1)
        r = dict(pressure=float(p[i]), height=int(rng.integers(-100, 40000)), temperature=t, dewpoint=round(t - float(rng.uniform(0, 50)), 1),
                 rh=int(rng.integers(0, 101)), mixr=round(float(rng.uniform(0, 30)), 2), drct=int(rng.integers(0, 361)),
                 sknt=int(rng.integers(0, 150)), thta=round(float(rng.uniform(250, 900)), 1), thte=300.1, thtv=301.2)
        for k in r:
            if k != 'pressure' and rng.random() < miss:
                r[k] = None
        rows.append(r)
    stn = str(rng.choice(['LIRE', 'YSSY', 'ENAS', 'SAEZ', 'LIPI', ''])) if rng.random() < .9 else ''
    when = datetime(int(rng.integers(1975, 2024)), int(rng.integers(1, 13)), int(rng.integers(1, 29)), int(rng.choice([0, 6, 12, 18, 3])))
    return dict(rows=rows, station=stn, number=int(rng.choice([rng.integers(1000, 99999), 3005])), time=when,
                latitude=round(float(rng.choice([rng.uniform(-90, 90), -.05])), 2), longitude=round(float(rng.choice([rng.uniform(-180, 180), 0.])), 2),
                elevation=round(float(rng.choice([rng.uniform(-20, 4000), rng.uniform(0, 300), 0., rng.uniform(-60, -.5)])), 1), name=str(rng.choice(NAMES)))


def page(s):
    body = ''
    for r in s['rows']:
        body += ''.join(' ' * 7 if r[k] is None else f % r[k] for k, f in COLS).rstrip() + '\n'
    t = s['time']
    meta = [] if s['station'] == '' else ['%43s: %s' % ('Station identifier', s['station'])]
    meta += ['%43s: %05d' % ('Station number', s['number']), '%43s: %s' % ('Observation time', t.strftime('%y%m%d/%H%M')),
             '%43s: %.2f' % ('Station latitude', s['latitude']), '%43s: %.2f' % ('Station longitude', s['longitude']),
             '%43s: %.1f' % ('Station elevation', s['elevation']), '%43s: %.2f' % ('Showalter index', 5.2),
             '%43s: %.2f' % ('Lifted index', -1.2), '%43s: %.2f' % ('K index', 21.3)]
    title = title_of(s)
    return ('<HTML>\n<TITLE>University of Wyoming - Radiosonde Data</TITLE>\n<LINK REL="StyleSheet" HREF="/resources/select.css" TYPE="text/css">\n'
            '<BODY BGCOLOR="white">\n<H2>' + html.escape(title, False) + '</H2>\n<PRE>\n' + HEAD + body +
            '</PRE><H3>Station information and sounding indices</H3><PRE>\n' + '\n'.join(meta) + '\n</PRE>\n'
            '<P>Description of the \n<A HREF="/upperair/columns.html">data columns</A>\nor <A HREF="/upperair/indices.html">sounding indices</A>.\n'
            '<P>\n<FORM>\n<INPUT CLASS="button" TYPE="button" VALUE=" Close this window " onClick="window.close();">\n</FORM>\n</BODY>\n</HTML>\n')


def title_of(s):
    return '%05d %s %s Observations at %s' % (s['number'], s['station'], s['name'], s['time'].strftime('%HZ %d %b %Y'))


NODATA = ('<HTML>\n<TITLE>University of Wyoming - Radiosonde Data</TITLE>\n<BODY BGCOLOR="white">\n'
          "Can't get %s %s Observations at %s.\n</BODY>\n</HTML>\n")


def stations(rng):
    """-> list of (id, name), page."""
    out, text = [], '<HTML><BODY>\n<MAP NAME="raob">\n'
    for _ in range(int(rng.integers(1, 60))):
        sid = str(rng.choice(['%05d' % rng.integers(100000), ''.join(rng.choice(list('ABCDEFGHIJKLMNOPQRSTUVWXYZ'), 4))]))
        if sid in [a for a, _ in out]:
            continue
        nm = str(rng.choice(NAMES + ['', 'Kings Park']))
        xy = '%d,%d,%d' % tuple(rng.integers(0, 900, 3))
        if rng.random() < .1:
            text += '<AREA COORDS="%s" SHAPE="CIRCLE" HREF="javascript:g(\'x\')">\n' % xy
        out.append((sid, nm))
        text += '<AREA COORDS="%s" SHAPE="CIRCLE" HREF="javascript:g(\'%s\')" TITLE="%s">\n' % (xy, sid, html.escape((sid + '  ' + nm) if nm else sid))
    return out, text + '</MAP>\n</BODY></HTML>\n'
