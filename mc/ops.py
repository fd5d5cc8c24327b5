"""Alphabet of public operations over two small profiles, shared by the history checks."""
import numpy as np
from mc import impl, fix
import ref.physics as R

F2 = [23.84, 183.31]


def arrays():
    """Fresh copies of all inputs."""
    d = {}
    for n, k, z0 in (("P", 0, 0.0), ("Q", 4, 0.3)):
        a = fix.atm(k, 3, z0)
        for x in a:
            d[n + x] = a[x]
        c = fix.cloud(a["z"], 0, 1, 0.4, 0.2)
        for x in c:
            d[n + x] = c[x]
    d["F"] = np.array(F2)
    d["F3"] = np.array([110.85, 22.235, 57.3])      # the first one on an ozone line
    d["A"] = np.array([90.0, 40.0])
    d["A1"] = np.array([30.0])
    d["E"] = np.array([0.9, 0.6])
    for x in ("z", "p", "t", "rh", "o3n", "denice", "denliq"):      # the same profile top-down
        d["D" + x] = d["Q" + x][::-1].copy()
    d["Dcldh"] = d["Qcldh"].copy()
    d["Ns"] = np.array([0.0, 1.1])
    return d


def digest_sim(df, d):
    o = {c: df[c].values.copy() for c in df.columns}
    o.update({"dict " + k: np.array(v) for k, v in d.items()})
    o["columns"] = list(df.columns)
    o["n"] = len(df)
    return o


def sim(I, n="P", f="F", a="A", sat=True, ray=False, emis=None, o3=False, cloud=False, ice=False, amu=None, absmdl="", obj=None):
    rte = impl.TbCloudRTE(I[n + "z"], I[n + "p"], I[n + "t"], I[n + "rh"], I[f], I[a], o3n=I[n + "o3n"] if o3 else None, amu=amu,
                          absmdl=absmdl, ray_tracing=ray, from_sat=sat, cloudy=cloud)
    rte.ice = ice
    if emis is not None:
        rte.emissivity = I[emis] if isinstance(emis, str) else emis
    if cloud:
        rte.init_cloudy(I[n + "cldh"], I[n + "denice"], I[n + "denliq"])
    if obj is not None:
        obj.append(rte)
    return rte.execute(False)


def parameters(h2o=None, o2=None, o3=None):
    from pyrtlib.uncertainty import SpectroscopicParameter as SP
    p = {}
    if h2o:
        p.update(SP.water_parameters(h2o))
    if o2:
        p.update(SP.oxygen_parameters(o2))
    if o3:
        p.update(SP.ozono_parameters(o3))
    return p


def dump(p):
    return {k: (np.array(v.value, float), np.array(v.uncer, float), v.units, v.refer, v.name) for k, v in p.items()}


def perturb(p, what, mode, idx):
    from pyrtlib.uncertainty import SpectroscopicParameter as SP, AbsModUncertainty as U
    SP.set_parameters(p)
    return U.parameters_perturbation([what], mode, idx)


def h2o_abs(f, e=1.5, p=60.0, v=1.1):
    return np.array([float(np.squeeze(x)) for x in impl.H2OAbsModel().h2o_absorption(np.float64(p), np.float64(v), np.float64(e), np.float64(f))])


def o2_abs(f, e=1.0, p=60.0, v=1.1):
    return np.array([float(np.squeeze(x)) for x in impl.O2AbsModel().o2_absorption(np.float64(p), np.float64(v), np.float64(e), np.float64(f))])


def o3_abs(f, t=250.0, p=20.0, n=3e18):
    return float(np.squeeze(impl.O3AbsModel().o3_absorption(np.float64(t), np.float64(p), np.float64(f), np.float64(n))))


def n2_abs(f, t=270.0, p=800.0):
    return float(impl.N2AbsModel.n2_absorption(np.float64(t), np.float64(p), np.float64(f)))


def liq_abs(f, w=0.3, t=270.0):
    return float(np.squeeze(impl.LiqAbsModel.liquid_water_absorption(np.float64(w), np.float64(f), np.float64(t))))


def same(a, b, rtol=1e-12):
    """First difference between two results, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b) and sorted(a) != sorted(b):
            return "entries %s and %s" % (sorted(a), sorted(b))
        for k in a:
            r = same(a[k], b[k], rtol)
            if r:
                return "%s: %s" % (k, r)
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "lengths %d and %d" % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, rtol)
            if r:
                return "[%d] %s" % (i, r)
        return None
    if isinstance(a, (np.ndarray, float, int)) and isinstance(b, (np.ndarray, float, int)):
        x, y = np.asarray(a, float), np.asarray(b, float)
        if x.shape != y.shape:
            return "shapes %s and %s" % (x.shape, y.shape)
        ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= rtol * np.abs(y))
        return None if ok.all() else "%r instead of %r" % (x[~ok].ravel()[:3].tolist(), y[~ok].ravel()[:3].tolist())
    return None if a == b else "%r instead of %r" % (a, b)
