"""Thin access layer to the code under test (public names only)."""
import warnings
import numpy as np
from pyrtlib.tb_spectrum import TbCloudRTE
from pyrtlib.rt_equation import RTEquation
from pyrtlib.absorption_model import (AbsModel, H2OAbsModel, O2AbsModel, N2AbsModel, LiqAbsModel, O3AbsModel,
                                      AbsModelError)
SPECIES = {"H2O": H2OAbsModel, "O2": O2AbsModel, "N2": N2AbsModel, "LIQ": LiqAbsModel, "O3": O3AbsModel}


def select(sel):
    """Select models by name for the species given (None disables nitrogen)."""
    for k, v in sel.items():
        SPECIES[k].model = v


def selected():
    """Names currently selected (None where nothing was selected)."""
    out = {}
    for k, c in SPECIES.items():
        m = c.model
        out[k] = m if isinstance(m, str) else None
    return out


def quiet():
    c = warnings.catch_warnings()
    c.__enter__()
    warnings.simplefilter("ignore")
    return c


def run(o):
    """o: z,p,t,rh,frq,angles + sat, ray, emis, o3n, cloud, amu, sel, ice; returns (df, dict)."""
    if o.get("sel"):
        select(o["sel"])
    rte = TbCloudRTE(o["z"], o["p"], o["t"], o["rh"], o["frq"], o["angles"], o3n=o.get("o3n"), amu=o.get("amu"),
                     ray_tracing=o.get("ray", False), from_sat=o.get("sat", True), cloudy=o.get("cloud") is not None)
    if o.get("emis") is not None:
        rte.emissivity = o["emis"]
    if o.get("cloud") is not None:
        c = o["cloud"]
        rte.init_cloudy(c["cldh"], c["denice"], c["denliq"])
    return rte.execute(False)


def as_result(df, d, nf, na):
    """Real result in the reference's layout."""
    out = {}
    for c in ("tbtotal", "tbatm", "tmr", "tmrcld", "tauwet", "taudry", "tauliq", "tauice"):
        out[c] = np.asarray(df[c].values, float).reshape(na, nf).T
    out.update({k: np.asarray(v) for k, v in d.items()})
    return out
