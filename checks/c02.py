"""C02: no operation changes its inputs or earlier results, and changing returned objects changes nothing later."""
import itertools, os, pickle, hashlib
import numpy as np
PID = "C02"
LEVEL = "model_checking"
RULE = ("states: all histories of operations sharing one set of input arrays (contiguous / strided views with guard cells / integers / top-down / unusual values: angles beyond the zenith, emissivity above one and below zero, supersaturated and dry levels, unsorted frequencies); transitions: 26 operations covering simulations, "
        "kept objects, weighting functions, equations, conversions, extrapolation, parameters; all sequences of length 2 (thorough 3), quick also length 3 ending in a kept object. After each "
        "transition: every input and every earlier result bit for bit as before; in the second mode every result is overwritten by the caller and the next results must equal those of a fresh process")
NOTE = "exhaustive sequences of real calls in forked process snapshots; bitwise monitors on every input and every retained result, overwrite-everything mode"
ASSUMPTIONS = ["parameter sets registered with set_parameters are not overwritten by the caller afterwards (they are the stored set)"]
LAYOUTS = ["contig", "strided", "int", "down", "edge"]
SELN = dict(H2O="R22SD", O2="R22", N2="R20", LIQ="R20", O3="R22")
CTX = {}


def load(tier):
    global impl, fix, ops, hist, SP, UN, WF, WFM, U, RTE, AP, PE, A, OPS, plt, pd
    from mc import impl, fix, ops, hist
    import pandas as pd
    import matplotlib.pyplot as plt
    import pyrtlib.utils as U
    import pyrtlib.weighting_functions as WFM
    import pyrtlib.absorption_model as A
    from pyrtlib.rt_equation import RTEquation as RTE
    from pyrtlib.uncertainty import SpectroscopicParameter as SP, AbsModUncertainty as UN
    from pyrtlib.weighting_functions import WeightingFunctions as WF
    from pyrtlib.climatology import AtmosphericProfiles as AP, ProfileExtrapolation as PE
    OPS = alphabet()


def inputs(layout):
    """(arrays handed out, bases watched)"""
    d = {}
    for n, k, z0 in (("P", 0, 0.0), ("Q", 4, 0.5)):
        a = fix.atm(k, 3, z0)
        a["z"] = np.array([0.0, 2.0, 7.0]) + (1.0 if n == "Q" else 0.0)
        if layout == "int":
            a["p"], a["t"] = np.round(a["p"]), np.round(a["t"])
        for x in a:
            d[n + x] = a[x]
        c = fix.cloud(a["z"], 0, 1, 0.4, 0.2)
        for x in c:
            d[n + x] = c[x]
    if layout == "down":
        for x in ("z", "p", "t", "rh", "o3n", "denice", "denliq"):
            d["Q" + x] = d["Q" + x][::-1].copy()
    d["F"] = np.array([22.0, 60.0, 118.0])
    d["A"] = np.array([90.0, 30.0])
    d["E"] = np.array([0.9, 0.6, 0.75])
    d["mr"] = np.array([12.0, 4.0, 0.2])
    d["ds"] = np.array([0.0, 2.0, 5.0])
    d["tau"] = np.array([0.0, 0.1, 0.3])
    d["lb"] = np.array([0.0])
    d["lt"] = np.array([1.0])
    d["H"] = np.array([0.5, 12.0, 40.0])
    d["A2"] = d["A"].copy()
    if layout == "edge":
        d["A"] = np.array([150.0, 5.0])
        d["F"] = np.array([118.0, 22.0, 118.0])
        d["E"] = np.array([1.3, -0.2, 0.0])
        for n in "PQ":
            d[n + "rh"][:] = [1.2, 3e-11, 0.0]
            d[n + "t"][2] = 175.0
            d[n + "o3n"][:2] = [0.0, 2.0]
            d[n + "denliq"][:] = [0.2, 3e-9, 0.0]       # faint values: numerical noise a caller may well hand in
            d[n + "denice"][:] = [1e-15, 0.1, 2e-9]
        d["mr"][1:] = [1e-12, 0.0]
        d["H"] = np.array([-0.2, 99.0, 120.0])
    bases = {}
    for k, v in list(d.items()):
        if layout == "int" and np.array_equal(v, np.round(v)) and k != "E":
            v = v.astype(int)
        if layout == "strided":
            b = np.full([2 * n + 3 for n in v.shape], 777.125)
            w = b[tuple([slice(1, 2 * n + 1, 2) for n in v.shape])]
            w[...] = v
            bases[k], d[k] = b, w
        else:
            d[k] = v.copy()
            bases[k] = d[k]
    return d, bases


def amuset():
    p = ops.parameters(SELN["H2O"], SELN["O2"], SELN["O3"])
    p["gamma_a"].value = p["gamma_a"].value * 1.1
    return p


def sim(I, n="P", only=False, amu=None, keep=None, **k):
    rte = impl.TbCloudRTE(I[n + "z"], I[n + "p"], I[n + "t"], I[n + "rh"], I["F"], I["A2" if k.get("ray") else "A"], o3n=I[n + "o3n"] if k.get("o3") else None, amu=amu,
                          ray_tracing=k.get("ray", False), from_sat=k.get("sat", True), cloudy=k.get("cloud", False))
    rte.ice = k.get("ice", False)
    if k.get("emis"):
        rte.emissivity = I["E"]
    if k.get("cloud"):
        rte.init_cloudy(I[n + "cldh"], I[n + "denice"], I[n + "denliq"])
    if keep:
        CTX[keep] = rte
    return rte.execute(only)


def kept(I, which):
    if which == "Q":
        if "Q" not in CTX:
            return sim(I, "Q", keep="Q", cloud=True, o3=True, emis=True, sat=True)
        CTX["Q"].ray_tracing = not CTX["Q"].ray_tracing
        r = CTX["Q"].execute(False)
        CTX["Q"].ray_tracing = not CTX["Q"].ray_tracing     # leaves the object as it was built
        return r if False else CTX["Q"].execute(False)
    if "P" not in CTX:
        return sim(I, "P", keep="P", sat=False)
    return CTX["P"].execute(False)


def wf(I, keep, sat=True):
    if keep and "wf" in CTX:
        w = CTX["wf"]
    else:
        w = WF(I["Pz"], I["Pp"], I["Pt"], I["Prh"], 1.0)
        w.frequencies = I["F"]
        w.satellite = sat
        w.model = SELN["H2O"]
        w.bandpass = np.array([2, 1])
    if keep:
        CTX["wf"] = w
    g = w.generate_wf()
    if keep:
        before = g.copy()
        if hasattr(WFM, "plt"):
            WFM.plt = Silent()      # drawing itself is left out: what the caller gave must stay as it was
        for bp in (None, w.bandpass):
            w.bandpass, b0 = bp, w.bandpass
            for f in (lambda: w.plot_wf(g, "t", [0, 5], [0, 1], True, True, figsize=(2, 2), dpi=20),
                      lambda: w.plot_wf(g, figsize=(2, 2), dpi=20),
                      lambda: w.plot_wf_grouped(g, "", None, [2, 1], ["a", "b"], figsize=(2, 2), dpi=20)):
                f()
                if not hasattr(WFM, "plt"):
                    plt.close("all")
            w.bandpass = b0
        assert np.array_equal(g, before), "plotting changed the weighting functions handed to it"
    return g


class Silent:
    """Stands in for matplotlib.pyplot."""
    rcParams = {}

    def __getattr__(self, n):
        return self

    def __call__(self, *a, **k):
        return self


def conversions(I):
    p, t, mr, rh = I["Pp"], I["Pt"], I["mr"], I["Prh"]
    o = {}
    for tc in (None, 265.0):
        o["mr2rh", tc] = U.mr2rh(p, t, mr, tc)
        o["satmix", tc] = U.satmix(p, t, tc)
        o["satvap", tc] = U.satvap(t, tc)
    o.update(mr2rho=U.mr2rho(mr, t, p), mr2e=U.mr2e(p, mr), rho2rh=U.rho2rh(mr, t, p), rho2mr=U.rho2mr(mr, t, p), e2mr=U.e2mr(p, mr), w=U.eswat_goffgratch(t),
             i=U.esice_goffgratch(t), g=U.ppmv2gkg(mr, 1), b=U.tk2b_mod(mr, t), d=U.dilec12(30.0, t), tv=U.virtual_temperature(t, mr), thick=U.atmospheric_tickness(p, t, mr),
             th0=U.atmospheric_tickness(p, t), kg=U.kgkg_to_kgm3(mr, p, t), mol=U.ppmv_to_moleculesm3(mr, p, t), c=U.to_celsius(t), k=U.to_kelvin(mr), p2h=U.pressure_to_height(p),
             h2p=U.height_to_pressure(I["H"]), td=U.dewpoint2rh(I["mr"], I["mr"] + 3))
    return o


def equations(I):
    t, p, rh, z = I["Pt"], I["Pp"], I["Prh"], I["Pz"]
    e, rho = RTE.vapor(t, rh, False)
    e2 = RTE.vapor(t, rh, True)
    dn, wn, n = RTE.refractivity(p, t, e)
    o = dict(v=(e, rho), vi=e2, n=(dn, wn, n), ray=RTE.ray_tracing(z - z[0], n, 30.0, float(z[0])), raw=RTE.ray_tracing(z, n, 90.0, float(z[0])))
    for zf in (True, False):
        o["exp", zf] = RTE.exponential_integration(zf, I["mr"], I["ds"], 1, 3, 0.1)
    o["cld"] = RTE.cloud_integrated_density(I["Pdenliq"], I["ds"], I["lb"], I["lt"])
    for s in (True, False):
        RTE._from_sat = s
        RTE._emissivity = 0.8
        o["planck", s] = RTE.planck(I["F"][0], t, I["tau"])
    o["abs"] = RTE.cloudy_absorption(t, I["Pdenliq"], I["Pdenice"], I["F"][1])
    A.H2OAbsModel.set_ll()
    A.O2AbsModel.set_ll()
    A.O3AbsModel.set_ll()
    o["clr"] = RTE.clearsky_absorption(p, t, e, I["F"][1], I["Po3n"])
    return o


def extrapolation(I):
    z = I["Pz"]
    pe = PE()
    return dict(x=pe.profile_extrapolation(30.0, 7, z, (I["Pp"], I["Pt"], I["Prh"])), t=pe.temperature(30.0, I["H"]), p=pe.pressure(30.0, I["H"], "winter"),
                r=pe.water_vapour_density(70.0, I["H"]), st=pe.standard_temperature(I["H"], 288.15), sp=pe.standard_pressure(I["H"], 288.15, 1013.25),
                sr=pe.standard_water_vapour_density(I["H"], 2, 7.5), h=pe.height)


def catalogue(I):
    return dict(atm=AP.gl_atm(2), names=AP.atm_profiles(), minor=AP.gl_atm_minor(10), trace=AP.gl_atm_trace(29), inst=[U.get_frequencies(i) for i in ("hat", "mp3")],
                sat=[U.get_frequencies_sat(i) for i in ("ATMS", "MWS", "ICI")], models=A.AbsModel.implemented_models(), const=U.constants("avogadro"), clist=U.constants())


def perturbed(I, mode, store):
    if "T" not in CTX:
        CTX["T"] = None
    p = ops.parameters(SELN["H2O"], SELN["O2"])
    SP.set_parameters(p)
    CTX["stored"] = p
    CTX["stored copy"] = freeze(p)
    q = UN.parameters_perturbation(["gamma_a", "O2gamma"], mode, 1)
    return (q, sim(I, "P", amu=q)) if store else q


def stored_again(I):
    """Perturbs the set stored earlier (or a new one) without storing anything."""
    if "stored" not in CTX:
        return perturbed(I, "max", False)
    SP.set_parameters(CTX["stored"])
    return UN.parameters_perturbation(["gamma_a", "O2gamma"], "max", 1)


def alphabet():
    o = []

    def add(name, fn):
        o.append((name, fn))
    add("sat", lambda I, T: sim(I, "P"))
    add("ground table only", lambda I, T: sim(I, "P", only=True, sat=False))
    add("Q cloudy ozone emissivity", lambda I, T: sim(I, "Q", cloud=True, o3=True, emis=True))
    add("Q refracted ground ice", lambda I, T: sim(I, "Q", ray=True, sat=False, ice=True))
    add("shared perturbed parameters", lambda I, T: sim(I, "Q", amu=T, o3=True))
    add("kept P", lambda I, T: kept(I, "P"))
    add("kept Q", lambda I, T: kept(I, "Q"))
    add("wf", lambda I, T: wf(I, False))
    add("wf ground", lambda I, T: wf(I, False, False))
    add("kept wf and plots", lambda I, T: wf(I, True))
    add("conversions", lambda I, T: conversions(I))
    add("equations", lambda I, T: equations(I))
    add("extrapolation", lambda I, T: extrapolation(I))
    add("catalogue", lambda I, T: catalogue(I))
    add("water parameters", lambda I, T: SP.water_parameters("R19SD"))
    add("oxygen parameters", lambda I, T: SP.oxygen_parameters("R18"))
    add("ozone parameters", lambda I, T: SP.ozono_parameters("R18"))
    add("perturb max", lambda I, T: perturbed(I, "max", False))
    add("perturb min, simulate", lambda I, T: perturbed(I, "min", True))
    add("perturb the stored set", lambda I, T: stored_again(I))
    add("propagation", lambda I, T: [UN.uncertainty_propagation(f, I["mr"], I["Pp"], I["ds"], I["tau"], I["H"], 2.0, 3.0) for f in ("aA", "aA+bB", "A*B", "A/B", "A^a")])
    return o


LAST = ["kept P", "kept Q", "kept wf and plots", "perturb the stored set"]


# --------------------------------------------------------------------------- snapshots
def freeze(o, depth=0):
    """Deep immutable picture of a returned object, down to the bits."""
    if isinstance(o, np.ndarray):
        return ("A", str(o.dtype), o.shape, o.tobytes() if o.dtype != object else repr(o.tolist()))
    if isinstance(o, pd.DataFrame):
        return ("D", tuple(map(str, o.columns)), tuple(o.index), tuple(freeze(np.ascontiguousarray(o[c].values)) for c in o.columns))
    if isinstance(o, dict):
        return ("d", tuple((repr(k), freeze(v, depth + 1)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(freeze(v, depth + 1) for v in o))
    if hasattr(o, "uncer"):
        return ("P", freeze(o.value), freeze(o.uncer), o.units, o.refer, o.name)
    return ("S", type(o).__name__, repr(o))


def numbers(o):
    """Plain numbers of a result, for comparison with a tolerance."""
    if isinstance(o, np.ndarray):
        return np.array(o) if o.dtype != object else repr(o.tolist())
    if isinstance(o, pd.DataFrame):
        return {str(c): np.array(o[c].values) for c in o.columns}
    if isinstance(o, dict):
        return {repr(k): numbers(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [numbers(v) for v in o]
    if hasattr(o, "uncer"):
        return dict(v=numbers(o.value), u=numbers(o.uncer), t=[str(o.units), str(o.refer), str(o.name)])
    return float(o) if isinstance(o, (float, int, np.generic)) and not isinstance(o, bool) else repr(o)


def clobber(o):
    """What a caller may do with an object it owns."""
    if isinstance(o, np.ndarray):
        try:
            o[...] = 777 if o.dtype != object else None
        except (ValueError, TypeError):
            pass
    elif isinstance(o, pd.DataFrame):
        for c in list(o.columns):
            try:
                o[c].values[...] = 777
            except (ValueError, TypeError):
                pass
        o.loc[:, :] = 555
    elif isinstance(o, dict):
        for v in list(o.values()):
            clobber(v)
        o.clear()
    elif isinstance(o, (list, tuple)):
        for v in o:
            clobber(v)
        if isinstance(o, list):
            o[:] = [None]
    elif hasattr(o, "uncer"):
        clobber(o.value)
        clobber(o.uncer)
        o.value = o.uncer = 777.0


def names():
    return [o[0] for o in OPS]


def cases(tier):
    n = len(alphabet())
    return [dict(layout=l, mode=m, first=i, full=2 if tier == "quick" else 3) for l in LAYOUTS for m in ("watch", "overwrite") for i in range(n)
            if tier == "thorough" or not (l in ("int", "strided", "edge") and m == "overwrite")]


def start(layout):
    impl.select(SELN)
    CTX.clear()
    I, bases = inputs(layout)
    T = amuset()
    return I, bases, T


def expected(layout, i):
    p = os.path.join(os.environ["VERIF_SCRATCH"], "c02-%s-%d" % (layout, i))
    if not os.path.exists(p):
        def go():
            I, b, T = start(layout)
            return numbers(OPS[i][1](I, T))
        r = hist.forked(go)
        with open(p + ".%d" % os.getpid(), "wb") as f:
            pickle.dump(r, f)
        os.rename(p + ".%d" % os.getpid(), p)
    with open(p, "rb") as f:
        return pickle.load(f)


def evaluate(case, rep):
    layout, mode, full = case["layout"], case["mode"], case["full"]
    nm = names()

    def go():
        I, bases, T = start(layout)
        picture = {k: freeze(v) for k, v in bases.items()}
        tpic = freeze(T)
        out = []            # (path, message or None)
        held = []           # (op, object, picture)
        order = list(I)

        def rec(path, todo):
            for i in todo:
                def child(i=i):
                    res = []
                    p = path + (i,)
                    msg = []
                    try:
                        r = OPS[i][1](I, T)
                    except (Exception, SystemExit) as e:
                        return [(p, ["%s: %s %s" % (nm[i], type(e).__name__, e)])]
                    d = ops.same(numbers(r), EXP[i], 1e-11)
                    if d:
                        msg.append("%s gives %s in a fresh process" % (nm[i], d))
                    if mode == "overwrite":
                        clobber(r)
                    impl.select(SELN)
                    for k in order:
                        if freeze(bases[k]) != picture[k]:
                            msg.append("%s%s changed the input %s" % (nm[i], " (or overwriting its result)" if mode == "overwrite" else "", k))
                    if freeze(T) != tpic:
                        msg.append("%s changed the perturbed parameters handed to it" % nm[i])
                    if "stored" in CTX and freeze(CTX["stored"]) != CTX["stored copy"]:
                        msg.append("%s changed the stored parameter set" % nm[i])
                    for j, o, f in held:
                        if freeze(o) != f:
                            msg.append("%s changed what %s had returned" % (nm[i], nm[j]))
                    res.append((p, msg))
                    if msg:
                        return res
                    if mode == "watch":
                        held.append((i, r, freeze(r)))
                    nonlocal out
                    out = []
                    if len(p) < full:
                        rec(p, range(len(OPS)))
                    elif len(p) == full and full == 2 and layout in ("contig", "down"):
                        rec(p, [nm.index(x) for x in LAST if nm.index(x) in p])
                    return res + out
                out.extend(hist.forked(child))
        rec((), [case["first"]])
        return out
    EXP = {i: expected(layout, i) for i in range(len(OPS))}
    for p, msg in hist.forked(go):
        rep.count("states")
        rep.count("transitions")
        rep.count("traces")
        rep.outcome("%s %s %s" % (layout, mode, p))
        for m in msg:
            rep.bad("%s inputs, after %s: %s" % (layout, [nm[i] for i in p[:-1]], m))
    rep.sample(dict(operations=nm[:8]))
