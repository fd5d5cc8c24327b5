"""C08: humidity and refractivity on grids of thermodynamic states."""
import numpy as np
PID = "C08"
LEVEL = "exploration"
RULE = ("every (temperature, humidity, pressure) of the grid through vapor(), refractivity() and the humidity conversions, as whole arrays, "
        "as views and one state at a time; compared with independent formulas and with each other")
NOTE = "full product grid of thermodynamic states, ice option on and off, array/view/single forms, on the real functions"
T = np.concatenate([np.arange(165.0, 335.0, 2.5), [233.16, 263.15, 263.159999, 263.16, 263.160001, 263.17, 273.15, 273.16, 273.17, 373.16]])
RH = np.array([0.0, 1e-6, 0.01, 0.3, 0.65, 0.999, 1.0, 1.15, 1.6, 3.0])
P = np.array([0.5, 10.0, 100.0, 250.0, 500.0, 850.0, 1013.25, 1070.0])
ASSUMPTIONS = ["temperatures %g-%g K, relative humidity 0-3, pressure 0.5-1070 hPa (vapour pressure below total pressure)" % (T.min(), T.max()),
               "cross-function agreement to 0.2 per cent (the library rounds gas constants differently)"]


def load(tier):
    global impl, R, fix, RTE, U
    from mc import impl, fix
    import ref.physics as R
    import pyrtlib.utils as U
    RTE = impl.RTEquation


def cases(tier):
    return [dict(kind="vapor", ice=i, rh=float(r)) for i in (False, True) for r in RH] + \
        [dict(kind="refr", p=float(p)) for p in P] + [dict(kind="cross", p=float(p)) for p in P] + \
        [dict(kind="sim", atm=k, ice=i) for k in range(6) for i in (False, True)] + [dict(kind="monotone")] + \
        ([dict(kind="dense", t0=float(t)) for t in range(160, 340, 5)] if tier == "thorough" else [])


def evaluate(case, rep):
    k = case["kind"]
    if k == "vapor":
        ice = case["ice"]
        rh = np.full(T.shape, case["rh"])
        we, wr = R.vapor(T, rh, ice)
        for name, t in (("array", T), ("reversed", T[::-1]), ("strided", np.repeat(T, 2)[::2]), ("column", np.stack([T, T], 1)[:, 1])):
            tb = t.copy()
            e, rho = RTE.vapor(t, rh, ice)
            rep.count("evaluations", len(T))
            s = slice(None, None, -1) if name == "reversed" else slice(None)
            rep.close(e, we[s], "vapour pressure %s rh=%g ice=%s" % (name, case["rh"], ice))
            rep.close(rho, wr[s], "vapour density %s rh=%g ice=%s" % (name, case["rh"], ice))
            rep.check((t == tb).all(), "temperatures changed by vapor()")
        for i in range(len(T)):
            e, rho = RTE.vapor(T[i:i + 1], rh[:1], ice)
            rep.count("evaluations")
            rep.close(e, we[i:i + 1], "single level T=%r ice=%s" % (T[i], ice))
            rep.close(rho, wr[i:i + 1], "single level density T=%r ice=%s" % (T[i], ice))
            if not ice:
                e, rho = RTE.vapor(float(T[i]), case["rh"], False)
                rep.close(e, we[i], "scalar T=%r" % T[i])
                rep.close(rho, wr[i], "scalar density T=%r" % T[i])
            rep.outcome("%.9e" % we[i])
        ti = np.array([180, 200, 240, 260, 264, 280, 300])
        e, rho = RTE.vapor(ti, np.full(7, case["rh"]), ice)
        we, wr = R.vapor(ti.astype(float), np.full(7, case["rh"]), ice)
        rep.close(e, we, "integer temperatures ice=%s" % ice)
        rep.close(rho, wr, "integer temperatures density ice=%s" % ice)
        for t in (np.array([300.0, 290.0]), np.array([200.0, 210.0]), np.array([300.0, 250.0, 280.0])):   # none, all, one cold level in between
            e, rho = RTE.vapor(t, np.full(len(t), case["rh"]), ice)
            rep.close(e, R.vapor(t, np.full(len(t), case["rh"]), ice)[0], "levels %s ice=%s" % (t, ice))
        rep.sample(dict(T=T[:4].tolist(), e=we[:4].tolist()))
    elif k == "refr":
        for rh in RH:
            e = np.minimum(R.vapor(T, rh)[0], 0.9 * case["p"])
            if rh == 0:
                e = e * 0
            p = np.full(T.shape, case["p"])
            wd, ww, wn = R.refractivity(p, T, e)
            s = slice(None, None, -1)
            for name, a, q in (("array", (p, T, e), slice(None)), ("reversed", (p[s], T[s], e[s]), s)):
                d, w, n = RTE.refractivity(*a)
                rep.count("evaluations", len(T))
                rep.close(d, wd[q], "dry refractivity %s p=%g rh=%g" % (name, case["p"], rh))
                rep.close(w, ww[q], "wet refractivity %s p=%g rh=%g" % (name, case["p"], rh))
                rep.close(n, wn[q], "refractive index %s p=%g rh=%g" % (name, case["p"], rh), rtol=1e-14)
                rep.close((np.asarray(n) - 1) * 1e6, np.asarray(d) + w, "index is one plus the sum", rtol=1e-7, atol=1e-9)
            if rh == 0:
                rep.check((np.asarray(w) == 0).all(), "wet refractivity without vapour")
            for i in range(0, len(T), 3):
                d, w, n = RTE.refractivity(p[i:i + 1], T[i:i + 1], e[i:i + 1])
                rep.count("evaluations")
                rep.close([d[0], w[0], n[0]], [wd[i], ww[i], wn[i]], "single level")
                rep.outcome("%.9e" % n[0])
        d, w, n = RTE.refractivity(np.full(3, 10.0), np.array([200.0, 250.0, 300.0]), np.full(3, 10.0))
        rep.close(d, np.zeros(3), "dry refractivity without dry air", atol=1e-14)
    elif k == "cross":
        p = case["p"]
        for rh in RH:
            e, rho = R.vapor(T, rh)
            m = e < 0.5 * p
            t, e, rho = T[m], e[m], rho[m]
            if not m.any():
                continue
            re, rr = RTE.vapor(t, np.full(t.shape, rh))
            mr = U.e2mr(p, re)
            rep.count("evaluations", len(t))
            tag = "p=%g rh=%g" % (p, rh)
            a = dict(rtol=2e-3, atol=1e-12)
            rep.close(U.satvap(t) * rh, re, tag + " satvap", **a)
            rep.close(U.eswat_goffgratch(t) * rh, re, tag + " eswat", **a)
            rep.close(U.mr2e(p, mr), re, tag + " mr2e", **a)
            rep.close(U.mr2rho(mr, t, p), rr, tag + " mr2rho", **a)
            rep.close(U.mr2rh(p, t, mr)[0], np.full(t.shape, rh * 100), tag + " mr2rh", **a)
            rep.close(U.rho2mr(rr, t, p), mr, tag + " rho2mr", rtol=2e-3 * 2, atol=1e-12)
            rep.close(U.rho2rh(rr, t, p)[0], np.full(t.shape, rh * 100), tag + " rho2rh", **a)
            rep.close(U.mr2rh(p, t, mr)[1], 100 * mr / U.satmix(p, t), tag + " WMO humidity", **a)
            c = t < 263
            ei, _ = RTE.vapor(t, np.full(t.shape, rh), True)
            rep.close(U.satvap(t, 263.0)[c] * rh, np.asarray(ei)[c], tag + " over ice", **a)
            rep.close(U.esice_goffgratch(t)[c] * rh, np.asarray(ei)[c], tag + " over ice", **a)
            rep.close(rr, re * 100 / (461.52 * t) * 1000, tag + " gas law", rtol=1e-9)
            rep.outcome("%.9e" % re.sum())
    elif k == "dense":
        t = case["t0"] + np.linspace(0, 5, 2001)
        for rh in (0.3, 1.0):
            for ice in (False, True):
                e, rho = RTE.vapor(t, np.full(t.shape, rh), ice)
                we, wr = R.vapor(t, rh, ice)
                rep.count("evaluations", len(t))
                rep.close(e, we, "vapour pressure")
                rep.close(rho, wr, "vapour density")
            for p in P:
                ee = np.minimum(we, 0.9 * p)
                for g, w in zip(RTE.refractivity(np.full(t.shape, p), t, ee), R.refractivity(np.full(t.shape, p), t, ee)):
                    rep.close(g, w, "refractivity", rtol=1e-9)
            rep.outcome("%.9e" % e.sum())
    elif k == "monotone":
        t = np.arange(165.0, 330.0, 0.5)
        e = np.asarray(RTE.vapor(t, np.ones(t.shape))[0])
        ei = np.asarray(RTE.vapor(t, np.ones(t.shape), True)[0])
        rep.count("evaluations", 2 * len(t))
        rep.check((np.diff(e) > 0).all(), "saturation must grow with temperature")
        rep.check((ei <= e).all(), "saturation over ice must not exceed that over water")
        rep.check((ei[t < 263.16] < e[t < 263.16]).all() and (ei[t > 263.16] == e[t > 263.16]).all(), "ice formula used only below the threshold")
        rep.close(RTE.vapor(np.array([373.16]), np.ones(1))[0], [1013.246], "boiling point", rtol=1e-9)
        rep.close(RTE.vapor(np.array([273.16]), np.ones(1))[0], [6.1071], "triple point", rtol=2e-3)
    elif k == "sim":
        from pyrtlib.tb_spectrum import TbCloudRTE
        a = fix.atm(case["atm"], 10, z0=0.1)
        for sat in (True, False):
            rte = TbCloudRTE(a["z"], a["p"], a["t"], a["rh"], np.array([23.8, 183.31]), np.array([90.0, 30.0]), from_sat=sat)
            rte.init_absmdl("R19")
            rte.ice = case["ice"]
            df, d = rte.execute(False)
            w = R.simulate(a["z"], a["p"], a["t"], a["rh"], [23.8, 183.31], [90.0, 30.0], fix.sel("R19"), sat=sat, ice=case["ice"])
            rep.count("evaluations", 4)
            fix.compare(rep, impl.as_result(df, d, 2, 2), w, "simulation atm %d ice=%s" % (case["atm"], case["ice"]))
            rep.outcome("%.9e" % d["srho"][0, 0])
