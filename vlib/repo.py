"""The only place that imports the code under test (always from /repo)."""
import os
import sys
import io
import contextlib
import warnings
REPO = os.environ.get('VERIF_REPO', '/repo')
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
warnings.simplefilter('ignore')
import numpy as np  # noqa: E402
import pyrtlib  # noqa: E402
assert os.path.abspath(pyrtlib.__file__).startswith(REPO + '/'), pyrtlib.__file__
from pyrtlib.tb_spectrum import TbCloudRTE  # noqa: E402,F401
from pyrtlib.rt_equation import RTEquation  # noqa: E402,F401
from pyrtlib.absorption_model import (AbsModel, H2OAbsModel, O2AbsModel, N2AbsModel,  # noqa: E402,F401
                                      LiqAbsModel, O3AbsModel, AbsModelError)
from pyrtlib import utils  # noqa: E402,F401


def select(h2o=None, o2=None, n2=None, liq=None, o3='', load=True):
    """select every component explicitly (state is per process)."""
    H2OAbsModel.model = h2o
    O2AbsModel.model = o2
    N2AbsModel.model = n2
    LiqAbsModel.model = liq
    O3AbsModel.model = o3
    if load:
        if h2o:
            H2OAbsModel.set_ll()
        if o2:
            O2AbsModel.set_ll()
        if o3:
            O3AbsModel.set_ll()


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        yield


def run(z, p, t, rh, frq, angles, models, from_sat=True, emis=None, ray_tracing=False,
        o3n=None, cloud=None, ice=False, amu=None, full=True, via_absmdl=False):
    """one execution through the public API -> dict of [freq, angle] arrays + details."""
    with quiet():
        if not via_absmdl:
            select(models.get('h2o'), models.get('o2'), models.get('n2'), models.get('liq'), models.get('o3', ''),
                   load=False)
        r = TbCloudRTE(z, p, t, rh, frq, np.asarray(angles), o3n=o3n, amu=amu,
                       absmdl=via_absmdl if via_absmdl else '', ray_tracing=ray_tracing, from_sat=from_sat,
                       cloudy=cloud is not None)
        if emis is not None:
            r.emissivity = emis
        if ice:
            r.ice = True
        if cloud is not None:
            r.init_cloudy(*cloud)
        out = r.execute(only_bt=not full)
    df, det = out if full else (out, {})
    return unpack(df, det, frq, angles)


def unpack(df, det, frq, angles):
    nf, na = len(frq), len(angles)
    R = {}
    for c in ('tbtotal', 'tbatm', 'tmr', 'tmrcld', 'tauwet', 'taudry', 'tauliq', 'tauice', 'angle'):
        R[c] = np.asarray(df[c].values, dtype=float).reshape(na, nf).T
    for k, v in det.items():
        R[k] = np.asarray(v)
    return R
