"""C10: absorption coefficients of every listed model on a grid of states."""
import itertools
import numpy as np
PID = "C10"
LEVEL = "exploration"
RULE = ("every listed model x frequency (all line centres, flanks, wings, cut-off edges, 1-1000 GHz sweep) x temperature x pressure x vapour "
        "fraction through the real absorption routine, line and continuum parts compared separately with the reference model")
NOTE = "full product grid over all listed models of all species on the real routines against an independent line-by-line model"
TQ = [165.0, 190.0, 222.5, 260.0, 273.15, 300.0, 325.0]
PQ = [1e-4, 2e-2, 1.0, 30.0, 250.0, 700.0, 1013.25, 1090.0]
EQ = [0.0, 1e-7, 3e-3, 0.03, 0.2]
ASSUMPTIONS = ["temperatures %s K, pressures %s hPa, vapour fractions %s" % (TQ, PQ, EQ),
               "frequencies up to 1000 GHz (documented validity)", "values within 1e-8 of the reference; formulas with a cut-off are evaluated 1e-3 GHz "
               "and more away from the edge"]


def load(tier):
    global impl, R, fix, RTE, U, A
    from mc import impl, fix
    import ref.physics as R
    import pyrtlib.utils as U
    import pyrtlib.absorption_model as A
    RTE = impl.RTEquation


def freqs(sp, m):
    if sp == "H2O":
        fl = R.h2o_lines(m)["fl"]
        fl = fl[fl < 1800]
        f = [fl, fl + 0.05, fl - 0.7, fl + 12.0, fl - 40.0, fl + 749.9, fl - 749.9, fl + 750.2, fl - 750.2, 749.9 - fl, 750.2 - fl]
    elif sp == "O2":
        fl = R.o2_lines(m)["f"]
        f = [fl, fl + 0.004, fl - 0.03, fl + 0.4, fl - 1.7, [118.7503 + x for x in (-12, -8, 5, 9.5, 16, 25)]]
    else:
        fl = R.o3_lines(m)["fl"]
        f = [fl, fl + 0.002, fl - 0.31, fl + 0.995, fl - 0.995, fl + 1.005, fl - 1.005]
    f += [np.arange(1.0, 1000.0, 13.7), [0.6, 10.7, 23.8, 31.4, 89.0, 299.79, 299.8, 300.0, 599.5, 599.7, 899.37, 899.4, 1000.0]]
    f = np.unique(np.concatenate([np.asarray(x, float) for x in f]))
    return f[(f > 0.3) & (f <= 1000.0)]


def cases(tier):
    out = []
    t = TQ if tier == "quick" else TQ + [175.0, 205.0, 240.0, 250.0, 285.0, 292.0, 312.0]
    for m in R.ORDER["H2O"]:
        out += [dict(sp="H2O", m=m, t=x) for x in t]
    for m in R.ORDER["O2"]:
        out += [dict(sp="O2", m=m, t=x) for x in t]
    for m in R.ORDER["O3"]:
        out += [dict(sp="O3", m=m, t=x) for x in t]
    out += [dict(sp="N2", m=m) for m in R.N2_MODELS] + [dict(sp="LIQ", m=m) for m in R.LIQ_MODELS]
    out += [dict(sp="special")]
    out += [dict(sp="levels", h=h, o=o) for h, o in zip(R.ORDER["H2O"], R.ORDER["O2"] + R.ORDER["O2"][-2:])]
    return out


def weight(c):
    return {"H2O": 5, "O2": 4, "O3": 6}.get(c["sp"], 1)


def agree(g, w, scale):
    """Values are sums of terms; scale bounds the size of the largest term."""
    try:
        return bool(abs(float(g) - w) <= 1e-8 * abs(w) + 1e-13 * scale)
    except Exception:
        return False


def near(rep, g, w, scale, tag, known=None):
    rep.count("comparisons")
    if not agree(g, w, scale):
        rep.bad(lambda_msg(tag, g, w), known)


def lambda_msg(tag, g, w):
    return "%s: got %r, expected %r" % (tag, g, w)


def evaluate(case, rep):
    sp = case["sp"]
    if sp in ("H2O", "O2"):
        m, T = case["m"], case["t"]
        impl.select({sp: m})
        cls = A.H2OAbsModel if sp == "H2O" else A.O2AbsModel
        cls.set_ll()
        obj = cls()
        fn = obj.h2o_absorption if sp == "H2O" else obj.o2_absorption
        rf = R.h2o if sp == "H2O" else R.o2
        L = R.h2o_lines(m) if sp == "H2O" else R.o2_lines(m)
        th = 300.0 / T
        for ip, p in enumerate(PQ):
            for ie, x in enumerate(EQ):
                if x * p > 150 or (sp == "O2" and ie in (1, 2)):
                    continue
                e = x * p / 10.0
                pd = p / 10.0 - e
                for i, f in enumerate(freqs(sp, m)):
                    # every frequency with every second (T, P, e) combination, alternating
                    if (i + ip + ie) % 2:
                        continue
                    f = float(f)
                    g = fn(np.float64(pd), np.float64(th), np.float64(e), np.float64(f))
                    w = rf(m, pd, th, e, f, L)
                    rep.count("evaluations")
                    tag = "%s %s f=%r T=%g p=%g e=%g" % (sp, m, f, T, p, e * 10)
                    sc = abs(w[0]) + abs(w[1])
                    if sp == "O2":
                        sc = sc + 1e-4 * p * p * 1e-3
                    known = None
                    if sp == "O2" and m in ("R98", "R03") and agree(g[0], w[0], sc) and agree(g[1], w[1], sc):
                        # the special width of the 118-GHz line used for all lines: known finding
                        known, w = "oxygen-width", rf(m, pd, th, e, f, L, True)
                    elif sp == "O2" and m in ("R98", "R03"):
                        v = rf(m, pd, th, e, f, L, True)
                        if agree(g[0], v[0], sc) and agree(g[1], v[1], sc):
                            w = v
                    near(rep, g[0], w[0], sc, tag + " line", known)
                    near(rep, g[1], w[1], sc, tag + " continuum", known)
                    if not (sp == "O2" and m == "R98"):
                        # R98 has no lower limit; near-transparent wings may dip below zero
                        rep.check(g[0] >= (0 if sp == "O2" else -1e-6 * abs(w[1]) - 1e-300) and g[1] >= 0, lambda: tag + ": negative absorption %r" % (g,))
                    if sp == "H2O" and e == 0:
                        rep.check(g[0] == 0 and g[1] == 0, lambda: tag + ": absorption without vapour %r" % (g,))
                    if i % 16 == 0:
                        rep.outcome("%.9e %.9e" % (float(g[0]), float(g[1])))
        rep.sample(dict(species=sp, model=m, f=f, T=T, p=p, e=e, value=[float(v) for v in g]))
    elif sp == "O3":
        m, T = case["m"], case["t"]
        impl.select({"O3": m})
        A.O3AbsModel.set_ll()
        obj = A.O3AbsModel()
        L = R.o3_lines(m)
        fq = freqs("O3", m)
        for ip, (p, n) in enumerate([(1e-3, 1e14), (0.3, 3e16), (10.0, 4e18), (120.0, 2e18), (1013.0, 7e17), (50.0, 0.0)]):
            for i, f in enumerate(fq):
                if (i + ip) % 3:
                    continue
                f = float(f)
                g = obj.o3_absorption(T, p, f, np.float64(n))
                w = R.o3(m, T, p, f, n, L)
                rep.count("evaluations")
                tag = "O3 %s f=%r T=%g p=%g n=%g" % (m, f, T, p, n)
                near(rep, g, w, abs(w), tag)
                rep.check(g >= 0, tag + ": negative")
                if n == 0:
                    rep.check(g == 0, tag + ": absorption without ozone")
                if i % 16 == 0:
                    rep.outcome("%.9e" % float(g))
        rep.sample(dict(species=sp, model=m, f=f, T=T, p=p, n=n, value=float(g)))
    elif sp == "N2":
        m = case["m"]
        impl.select({"N2": m})
        fq = np.concatenate([[0.5, 1.0, 22.235, 60.0, 92.0, 358.0], np.arange(10.0, 1000.0, 31.0)])
        for T in TQ:
            for p in PQ:
                for f in fq:
                    g, w = A.N2AbsModel.n2_absorption(T, p, float(f)), R.n2(m, T, p, float(f))
                    rep.count("evaluations")
                    near(rep, g, w, abs(w), "N2 %s f=%g T=%g p=%g" % (m, f, T, p))
                    rep.check(g >= 0, "negative nitrogen absorption")
                    rep.outcome("%.9e" % float(g))
                rep.close(A.N2AbsModel.n2_absorption(np.full(3, T), np.array([p, 2 * p, p / 2]), 50.0),
                          [R.n2(m, T, q, 50.0) for q in (p, 2 * p, p / 2)], "N2 %s as arrays" % m)
        rep.check(A.N2AbsModel.n2_absorption(300.0, 0.0, 50.0) == 0, "nitrogen absorption without dry air")
    elif sp == "LIQ":
        m = case["m"]
        impl.select({"LIQ": m})
        for T in (233.0, 240.0, 253.0, 263.0, 270.0, 273.15, 280.0, 290.0, 300.0, 313.0):
            for f in np.concatenate([[0.5, 1.4, 6.9, 10.65, 23.8, 36.5, 89.0, 183.31], np.arange(15.0, 1000.0, 37.0), [1000.0]]):
                f = float(f)
                base = None
                for q in (0.0, 1e-8, 1e-3, 0.05, 0.3, 1.0, 6.0):
                    g, w = A.LiqAbsModel.liquid_water_absorption(q, f, T), R.liquid(m, q, f, T)
                    rep.count("evaluations")
                    near(rep, g, w, abs(w), "liquid %s f=%g T=%g w=%g" % (m, f, T, q))
                    if q == 0:
                        rep.check(g == 0, "cloud absorption without liquid")
                    else:
                        rep.check(g > 0, "cloud absorption must be positive")
                        base = base or g / q
                        near(rep, g / q, base, base, "liquid %s proportional to content" % m)
                    rep.outcome("%.9e" % float(g))
                rep.check(A.LiqAbsModel.liquid_water_absorption(-0.1, f, T) == 0, "negative liquid content must not absorb")
                near(rep, np.real(U.dilec12(f, T)), R.dielectric_2015(f, T).real, 1, "permittivity real part f=%g T=%g" % (f, T))
                near(rep, np.imag(U.dilec12(f, T)), R.dielectric_2015(f, T).imag, 1, "permittivity imaginary part f=%g T=%g" % (f, T))
    elif sp == "special":
        # complex error function in all quadrants against the exact function and the rational approximation
        from scipy.special import wofz
        for x in (-30.0, -4.2, -1.0, -1e-3, 0.0, 1e-6, 0.3, 2.0, 7.7, 100.0):
            for y in (-3.0, -0.5, -1e-3, 0.0, 1e-7, 0.02, 0.9, 3.3, 40.0):
                g = U._dcerror(x, y)
                w = complex(R.hui(complex(x, y)))
                rep.count("evaluations")
                with np.errstate(all="ignore"):
                    near(rep, g.real, w.real, abs(w), "error function (real) at %g %g" % (x, y))
                    near(rep, g.imag, w.imag, abs(w), "error function (imaginary) at %g %g" % (x, y))
                    e = wofz(complex(x, y))
                    if np.isfinite(e):
                        rep.check(abs(g - e) < 1e-5 * max(1, abs(e)), "accuracy of the error function at %g %g: %r" % (x, y, g - e))
                rep.outcome("%.9e" % g.real)
        # self continuum
        impl.select({"H2O": "R24"})
        A.H2OAbsModel.set_ll()
        for f in np.concatenate([np.arange(1.0, 1199.0, 7.7), [299.792458, 299.8, 599.58, 599.6, 899.3, 899.4]]):
            for T in TQ:
                g = A.H2OAbsModel().h2o_continuum(np.float64(f), 300.0 / T, 1)
                rep.count("evaluations")
                near(rep, np.ravel(g)[0], R.selfcont_mtckd(f, T), 0, "self continuum f=%g T=%g" % (f, T))
        impl.select({"H2O": "MWL24"})
        A.H2OAbsModel.set_ll()
        for f in np.arange(1.0, 1000.0, 9.3):
            for T in TQ:
                g = A.H2OAbsModel().h2o_continuum_mwl24(np.float64(f), 300.0 / T)
                rep.count("evaluations")
                near(rep, np.ravel(g)[0], R.selfcont_mwl24(f, T), 0, "MWL24 self continuum f=%g T=%g" % (f, T))
    elif sp == "levels":
        # whole profiles, level by level, with independent models per species and with ozone
        for k in (0, 4):
            a = fix.atm(k, 10)
            e = R.vapor(a["t"], a["rh"])[0]
            for n2 in ("R98", "MWL24", "R22SD", None):
                for o3 in (None,) + tuple(R.ORDER["O3"]):
                    sel = dict(H2O=case["h"], O2=case["o"], N2=n2, O3=o3 or "R18")
                    impl.select(sel)
                    A.H2OAbsModel.set_ll(), A.O2AbsModel.set_ll(), A.O3AbsModel.set_ll()
                    for f in (22.235, 110.836, 118.75, 364.43, 752.0):
                        w, d = RTE.clearsky_absorption(a["p"], a["t"], e, f, a["o3n"] if o3 else None)
                        ww, wd = R.clearsky(a["p"], a["t"], e, f, sel, a["o3n"] if o3 else None)
                        rep.count("evaluations")
                        rep.close(w, ww, "profile %s wet f=%g" % (sel, f), rtol=1e-8)
                        rep.close(d, wd, "profile %s dry f=%g" % (sel, f), rtol=1e-8, atol=1e-16)
                        rep.outcome("%.9e %.9e" % (w.sum(), d.sum()))
        rep.sample(dict(sel=sel, f=f, wet=w.tolist()[:3], dry=d.tolist()[:3]))
