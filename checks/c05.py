"""C05: layer integration and cloud terms on every small value pattern and every cloud level pair."""
import itertools
import numpy as np
PID = "C05"
LEVEL = "exploration"
RULE = ("every value tuple over the profile alphabet (length 4) x integration limits x zero rule, every cloud density pattern "
        "x cloud level pair, every liquid model x frequency x temperature x density, every cloud base/top combination of a simulation; "
        "distinct = different result digest")
NOTE = "all patterns of the stated alphabets on the real functions and whole simulations; independent reference model as oracle"
X = [0.0, 1e-12, 1e-10, 5e-10, 1e-6, 0.37, 1.0, 1.0 + 1e-12, 1.0 + 6e-10, 1.0 + 1e-6, 4.2e3]
NEG = [-1e-3, -1e-12]
ASSUMPTIONS = ["profile values from %s plus negative values at every position" % X,
               "cloud base and top coincide with profile levels (documented use)"]
DS = [np.array([0.0, 0.4, 1.3, 7.0]), np.array([0.0, 2.0, 0.0, 1e-3])]


def load(tier):
    global impl, R, fix, RTE
    from mc import impl, fix
    import ref.physics as R
    RTE = impl.RTEquation


def cases(tier):
    out = [dict(kind="int", first=i) for i in range(len(X))]
    out += [dict(kind="neg"), dict(kind="types"), dict(kind="content"), dict(kind="tmr")]
    if tier == "thorough":
        out += [dict(kind="int5", first=i, second=j) for i in range(len(X)) for j in range(len(X))]
    out += [dict(kind="abs", m=m) for m in R.LIQ_MODELS]
    for sat in (False, True):
        for ray in (False, True):
            for what in ("liq", "ice", "both", "none"):
                out.append(dict(kind="sim1", sat=sat, ray=ray, what=what))
                out.append(dict(kind="sim1", sat=sat, ray=ray, what=what, close=1))
            out.append(dict(kind="sim2", sat=sat, ray=ray))
            out.append(dict(kind="sim2", sat=sat, ray=ray, close=1))
    for m in R.LIQ_MODELS:
        out.append(dict(kind="simm", m=m))
    return out


def integ(rep, x, ds, zf, ibeg, factor):
    x = np.asarray(x)
    s, xs = RTE.exponential_integration(zf, x, ds, ibeg, len(ds), factor)
    rep.count("evaluations")
    ws, wxs = R.integrate(zf, [float(v) for v in x], ds, max(ibeg, 1), len(ds), factor)
    tag = "integration x=%s ds=%s zeroflg=%s ibeg=%d factor=%g" % (x.tolist(), ds.tolist(), zf, ibeg, factor)
    tol = np.zeros(len(ds))
    for i in range(1, len(ds)):
        d = abs(float(x[i]) - float(x[i - 1]))
        tol[i] = 1e-11 + (1e-15 * max(x[i], x[i - 1]) / d if d > 0 else 0)
    xs = np.asarray(xs, float)
    rep.check(xs.shape == (len(ds),), tag + " layer shape")
    bad = np.abs(xs - wxs) > tol * np.abs(wxs)
    rep.check(not bad.any(), lambda: tag + ": layers %s, expected %s" % (xs.tolist(), wxs.tolist()))
    rep.check(abs(s - ws) <= tol.max() * abs(ws), lambda: tag + ": total %r, expected %r" % (s, ws))
    if (x >= 0).all() and zf:
        lo, hi = np.minimum(x[1:], x[:-1]) * ds[1:], np.maximum(x[1:], x[:-1]) * ds[1:]
        k = slice(max(ibeg, 1) - 1, None)
        rep.check((xs[1:][k] >= lo[k] * (1 - tol[1:][k])).all() and (xs[1:][k] <= hi[k] * (1 + tol[1:][k]) + 1e-300).all(),
                  lambda: tag + ": layer outside its end values")
    rep.outcome("%.10e" % float(s))
    return s


def evaluate(case, rep):
    k = case["kind"]
    if k == "int":
        for rest in itertools.product(X, repeat=3):
            x = np.array((X[case["first"]],) + rest)
            for zf in (True, False):
                for ds, ibeg, factor in ((DS[0], 1, 1), (DS[0], 0, 0.1), (DS[1], 2, 3.0)):
                    integ(rep, x, ds, zf, ibeg, factor)
        rep.sample(dict(x=x.tolist(), total=float(integ(rep, x, DS[0], True, 1, 1))))
    elif k == "int5":
        ds = np.array([0.0, 0.4, 1.3, 7.0, 0.02])
        for rest in itertools.product(X, repeat=3):
            for zf in (True, False):
                integ(rep, np.array((X[case["first"]], X[case["second"]]) + rest), ds, zf, 1, 1)
    elif k == "neg":
        for pos in range(4):
            for neg in NEG:
                for base in ([1.0, 2.0, 3.0, 1.0], [0.0, 1.0, 0.0, 2.0], [1.0, 1.0, 1.0, 1.0]):
                    for zf in (True, False):
                        x = np.array(base)
                        x[pos] = neg
                        # integration stops at the first layer touching a negative value; what was integrated is kept
                        s, xs = RTE.exponential_integration(zf, x, DS[0], 1, 4, 1)
                        rep.count("evaluations")
                        ws, wx = R.integrate(zf, x, DS[0], 1, 4, 1)
                        rep.close(s, ws, "negative value at %d: total" % pos)
                        rep.close(xs, wx, "negative value at %d: layers" % pos)
                        rep.outcome("neg%r" % float(s))
    elif k == "types":
        for x in (np.array([3, 2, 1, 0]), np.array([4, 2, 2, 1], dtype=np.float32), np.array([5.0, 1.0, 2.0, 8.0])[::-1],
                  np.array([[1.0, 2.0], [2.0, 1.0], [3.0, 0.0], [9.0, 1.0]])[:, 0]):
            for zf in (True, False):
                for ibeg in (0, 1, 2):
                    xb = x.copy()
                    integ(rep, x, DS[0], zf, ibeg, 1) if x.dtype != np.float32 else rep.close(
                        RTE.exponential_integration(zf, x, DS[0], ibeg, 4, 1)[0],
                        R.integrate(zf, x.astype(float), DS[0], max(1, ibeg), 4, 1)[0], "single precision profile", rtol=1e-6)
                    rep.check((x == xb).all(), "profile changed by the integration")
        # additivity: splitting a layer stack at any level gives the same total
        for x in itertools.product([0.0, 0.5, 1.0, 2.0], repeat=4):
            x = np.array(x)
            full = RTE.exponential_integration(True, x, DS[0], 1, 4, 1)[0]
            parts = 0
            for i in range(1, 4):
                parts += RTE.exponential_integration(True, x[i - 1:i + 1], np.array([0.0, DS[0][i]]), 1, 2, 1)[0]
            rep.count("evaluations")
            rep.close(full, parts, "additivity of %s" % x.tolist(), rtol=1e-12)
    elif k == "content":
        ds = np.array([0.0, 0.5, 1.1, 2.0, 0.25])
        pairs = [(b, t) for b in range(5) for t in range(b, 5)]
        for den in itertools.product([0.0, 0.1, 2.0], repeat=5):
            den = np.array(den)
            for b, t in pairs:
                g = RTE.cloud_integrated_density(den, ds, np.array([float(b)]), np.array([float(t)]))
                rep.count("evaluations")
                w = R.cloud_content(den, ds, [b], [t])
                rep.check(abs(g - w) <= 1e-12 * abs(w), lambda: "content of %s between %d and %d: %r, expected %r" % (den, b, t, g, w))
                rep.outcome("%.9e" % g)
            for (b, t), (c, u) in itertools.product(pairs, pairs):
                if t < c:
                    g = RTE.cloud_integrated_density(den, ds, np.array([b, c]), np.array([t, u]))
                    rep.count("evaluations")
                    w = R.cloud_content(den, ds, [b, c], [t, u])
                    rep.check(abs(g - w) <= 1e-12 * abs(w), lambda: "content of two clouds %s: %r, expected %r" % (((b, t), (c, u)), g, w))
    elif k == "tmr":
        t = np.array([300.0, 285.0, 260.0, 255.0, 210.0])
        for sat in (False, True):
            RTE._from_sat, RTE._emissivity = sat, 0.7
            for tau in itertools.product([1e-4, 0.2, 3.0, 90.0, 130.0], repeat=4):
                tau = np.array((0.0,) + tau)
                for f in (22.235, 183.0):
                    tot, atm, mr, cum, hvk, B, bg = RTE.planck(f, t, tau)
                    r = R.rte(f, t, tau, sat, 0.7)
                    for b in range(4):
                        for u in range(b + 1, 5):
                            w = R.cloud_tmr(b, u, r["hvk"], r["cum"], r["atm"])
                            g = RTE.cloud_radiating_temperature(float(b), float(u), hvk, cum, atm)
                            rep.count("evaluations")
                            tag = "cloud temperature tau=%s sat=%s %d-%d" % (tau.tolist(), sat, b, u)
                            if w is None:
                                rep.check(g is None, tag + " must be undefined")
                                continue
                            # the cloud's radiance is a difference of accumulated radiances
                            d = abs(r["atm"][u] - r["atm"][b])
                            loss = 4e-16 * max(r["atm"]) / d if d > 0 else np.inf
                            if loss < 1e-4:
                                rep.close(g, w, tag, rtol=1e-9 + 4 * loss)
                                if loss < 1e-7:
                                    dtau = abs(cum[u] - cum[b])
                                    near = loss + 1e-15 / min(1, dtau)
                                    lo, hi = t[b:u + 1].min(), t[b:u + 1].max()
                                    if dtau < 125 or not sat:
                                        rep.check(lo * (1 - 1e-9 - 4 * near) <= g <= hi * (1 + 1e-9 + 4 * near),
                                                  lambda: tag + ": %r outside the cloud's temperatures" % g)
                                rep.outcome("%.7e" % g)
    elif k == "abs":
        m = case["m"]
        impl.select(dict(LIQ=m))
        den = np.array([0.0, 1e-7, 0.02, 0.3, 5.0, 0.0])
        for f in (1.4, 10.7, 23.8, 36.5, 89.0, 150.0, 183.31, 325.0, 664.0, 1000.0):
            for T in (233.0, 250.0, 263.0, 273.15, 283.0, 300.0, 313.0):
                t = T + np.arange(6.0)
                for dl, di in ((den, den[::-1]), (den * 0, den), (den, den * 0)):
                    al, ai = RTE.cloudy_absorption(t, dl, di, f)
                    rep.count("evaluations")
                    rep.close(al, [R.liquid(m, w, f, tt) for w, tt in zip(dl, t)], "%s liquid absorption f=%g T=%g" % (m, f, T))
                    rep.close(ai, R.ice_abs(f, di), "ice absorption f=%g" % f)
                    rep.outcome("%.9e %.9e" % (al.sum(), ai.sum()))
        rep.sample(dict(model=m, f=f, aliq=al.tolist()))
    elif k in ("sim1", "sim2"):
        a = fix.atm(1, 6, z0=0.35)
        n = 6
        if case.get("close"):
            # levels a decimetre to ten metres apart
            a["z"] = 2.35 + np.array([0.0, 1e-4, 1.1e-3, 4.3e-3, 0.0143, 0.0643])
        pairs = [(b, t) for b in range(n) for t in range(b + 1, n)]
        if k == "sim1":
            todo = [[x] for x in pairs]
        else:
            todo = [[x, y] for x in pairs for y in pairs if x[1] < y[0]]
        for cl in todo:
            dl, di = np.zeros(n), np.zeros(n)
            for i, (b, t) in enumerate(cl):
                s = slice(b, t + 1)
                if case.get("what") in ("liq", "both") or k == "sim2":
                    dl[s] = (0.2 + 0.3 * i) * (1 + 0.3 * np.arange(n))[s]
                if case.get("what") in ("ice", "both") or (k == "sim2" and i == 1):
                    di[s] = 0.15 * (2 + 0.5 * np.arange(n))[s]
            for rev in (False, True):
                if rev and (cl[0][0] + len(cl)) % 2:
                    continue
                c = dict(cldh=np.array([[a["z"][b] for b, t in cl], [a["z"][t] for b, t in cl]]),
                         denice=di[::-1].copy() if rev else di, denliq=dl[::-1].copy() if rev else dl)
                o = dict({q: (v[::-1].copy() if rev else v) for q, v in a.items()}, o3n=None, frq=np.array([31.4, 664.0]),
                         angles=np.array([90.0, 30.0]), sel=fix.sel("R19"), sat=case["sat"], ray=case["ray"], emis=0.8, cloud=c)
                df, d = impl.run(o)
                w = R.simulate(a["z"], a["p"], a["t"], a["rh"], o["frq"], o["angles"], o["sel"], sat=o["sat"], ray=o["ray"],
                               emis=0.8, cloud=dict(cldh=c["cldh"], denice=di, denliq=dl))
                rep.count("evaluations")
                g = impl.as_result(df, d, 2, 2)
                fix.compare(rep, g, w, "clouds %s %s sat=%s ray=%s rev=%s" % (cl, case.get("what"), case["sat"], case["ray"], rev))
                rep.outcome("%.9e %.9e %.9e" % (g["sliq"][0, 0], g["sice"][0, 0], g["tmrcld"][0, 0]))
    elif k == "simm":
        # contents above and below the cloud: absorbing everywhere, contents only between base and top
        for at in (0, 5):
            a = fix.atm(at, 10)
            c = fix.cloud(a["z"], 2, 5, outside=True)
            o = dict(a, o3n=None, frq=np.array([10.7, 89.0, 875.0]), angles=np.array([60.0]), sel=fix.sel("R20", liq=case["m"]),
                     sat=False, cloud=c)
            df, d = impl.run(o)
            w = R.simulate(a["z"], a["p"], a["t"], a["rh"], o["frq"], o["angles"], o["sel"], sat=False, cloud=c)
            rep.count("evaluations")
            fix.compare(rep, impl.as_result(df, d, 3, 1), w, "liquid model %s" % case["m"])
            rep.outcome("%.9e" % df.tauliq.values[0])
            # without a cloud flag all cloud terms are zero
            o["cloud"] = None
            df, d = impl.run(o)
            for q in ("tmrcld", "tauliq", "tauice"):
                rep.check((df[q].values == 0).all(), "%s of a clear simulation" % q)
            for q in ("sliq", "sice", "taulayliq", "taulayice"):
                rep.check((d[q] == 0).all(), "%s of a clear simulation" % q)
