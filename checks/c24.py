"""C24: questionable input is announced by a warning each time, sound input is not."""
import itertools, warnings
import numpy as np
PID = "C24"
LEVEL = "model_checking"
RULE = ("states: (profile kind, clouds on, liquid model selected) of a process and its objects; transitions: construct with a profile of one kind, attach clouds, switch clouds on/off, select a liquid model, execute. "
        "All sequences up to depth 5 (thorough 6), each with the exact list of announcements expected; plus all level counts 2-30 times top pressures around 10 hPa times both orientations; all trapped and escaping rays of a "
        "profile family times elevation angles (Snell invariant as oracle); all sign patterns of a profile up to 5 (6) levels in the integration; all base levels times frequencies for the cloud temperature; negative humidity at every level")
NOTE = "bounded exhaustive exploration of the real objects; oracle: the documented conditions, Snell's invariant and the returned layer opacities"
ASSUMPTIONS = ["warnings are observed with the filter 'always'; only UserWarning counts"]


def load(tier):
    global impl, fix, hist, R, ops, WF
    from mc import impl, fix, hist, ops
    import ref.physics as R
    from pyrtlib.weighting_functions import WeightingFunctions as WF


def cases(tier):
    deep = tier == "thorough"
    out = [dict(kind="grid", n=n) for n in range(2, 41 if deep else 31)]
    out += [dict(kind="hist", first=o, depth=6 if deep else 5) for o in range(len(OPS))]
    out += [dict(kind="duct", kink=k, deep=deep) for k in range(1, 5)]
    out += [dict(kind="signs", n=n) for n in range(2, 7 if deep else 6)]
    out += [dict(kind="deepcloud", sat=s, atm=a) for s in (True, False) for a in ((0, 1, 2, 4) if deep else (0, 2))]
    out += [dict(kind="negative", lev=i, sat=s) for i in range(6) for s in (True, False)]
    out += [dict(kind="wf")]
    return out


def caught(f):
    """(value or exception, UserWarnings issued)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            v = f()
        except (Exception, SystemExit) as e:
            v = e
    return v, [str(x.message) for x in w if issubclass(x.category, UserWarning)]


def prof(n, top, lo=1000.0):
    """n levels from lo hPa to exactly top hPa."""
    x = np.linspace(0, 1, n)
    p = np.exp(np.log(lo) * (1 - x) + np.log(top) * x)
    p[0], p[-1] = lo, top
    z = 7.0 * np.log(lo / p)
    t = np.maximum(210.0, 285.0 - 6.0 * z)
    rh = 0.5 * np.exp(-z / 3)
    return dict(z=z, p=p, t=t, rh=rh)


def make(a, flip=False, **k):
    b = {x: (v[::-1].copy() if flip else v.copy()) for x, v in a.items()}
    return impl.TbCloudRTE(b["z"], b["p"], b["t"], b["rh"], np.array([31.4]), np.array([90.0]), **k)


OPS = ["sound", "few", "low", "cloudy", "clear", "attach", "R98", "R03", "R16", "R24", "run"]


def play(seq, rep):
    """Sequence of operations on the current object; judges the warnings of every one."""
    st = dict(obj=None, kind=None, cloudy=True, attached=False, liq="R20")
    impl.select(fix.sel("R20", liq="R20"))
    seen = []
    for i, o in enumerate(seq):
        n = OPS[o]
        want = 0
        if n in ("sound", "few", "low"):
            a = {"sound": prof(25, 5.0), "few": prof(24, 5.0), "low": prof(25, 10.0)}[n]
            v, w = caught(lambda: make(a, cloudy=st["cloudy"]))
            st.update(obj=v, kind=n, attached=False, prof=a)
            want = 0 if n == "sound" else 1
        elif n in ("cloudy", "clear"):
            st["cloudy"] = n == "cloudy"
            v, w = caught(lambda: setattr(st["obj"], "cloudy", st["cloudy"]))
        elif n == "attach":
            c = fix.cloud(st["prof"]["z"], 2, 4)
            v, w = caught(lambda: st["obj"].init_cloudy(c["cldh"], c["denice"], c["denliq"]))
            want = 0 if st["cloudy"] else 1
            st["attached"] = st["attached"] or st["cloudy"]
        elif n == "run":
            v, w = caught(lambda: st["obj"].execute())
            want = 1 if st["cloudy"] and st["liq"] in ("R98", "R03") else 0
        else:
            impl.LiqAbsModel.model = n
            st["liq"] = n
            v, w = None, []
        rep.count("transitions")
        tag = " ".join(OPS[x] for x in seq[:i + 1])
        if isinstance(v, BaseException):
            rep.bad("%s: %s: %s" % (tag, type(v).__name__, v))
            return
        if (len(w) > 0) != (want > 0):
            rep.bad("%s: %d warnings %s, %s" % (tag, len(w), w[:2], "one was due" if want else "none was due"))
            return
        seen.append((n, st["kind"], st["cloudy"], st["attached"], st["liq"]))
    return seen


def legal(seq):
    """An object exists before it is used; executing with clouds on needs attached clouds."""
    obj = cloudy = att = False
    cloudy = True
    for o in seq:
        n = OPS[o]
        if n in ("sound", "few", "low"):
            obj, att = True, False
        elif n in ("cloudy", "clear"):
            if not obj:
                return False
            cloudy = n == "cloudy"
        elif n == "attach":
            if not obj:
                return False
            att = att or cloudy
        elif n == "run":
            if not obj or (cloudy and not att):
                return False
    return True


def evaluate(case, rep):
    k = case["kind"]
    globals()["ev_" + k](case, rep)
    rep.sample(case)


def ev_grid(case, rep):
    n = case["n"]
    for top in (0.01, 1.0, 9.0, 9.999999, 10.0, 10.000001, 11.0, 50.0, 300.0):
        for flip in (False, True):
            for kw in ({}, dict(from_sat=False), dict(cloudy=True), dict(ray_tracing=True), dict(absmdl="R20")):
                a = prof(n, top)
                v, w = caught(lambda: make(a, flip, **kw))
                rep.count("states")
                rep.count("transitions")
                if isinstance(v, BaseException):
                    rep.bad("%d levels to %g hPa: %r" % (n, top, v))
                    continue
                due = n < 25 or top >= 10
                rep.check((len(w) > 0) == due, "%d levels up to %r hPa%s %s: warnings %s, %s due" % (n, top, " top-down" if flip else "", kw, w, "one" if due else "none"))
                rep.outcome((n < 25, top >= 10, flip))
    rep.count("traces")


def ev_hist(case, rep):
    states = set()
    for d in range(1, case["depth"] + 1):
        for rest in itertools.product(range(len(OPS)), repeat=d - 1):
            seq = (case["first"],) + rest
            # only maximal or executing sequences: the others are their prefixes
            if not legal(seq):
                continue
            if d < case["depth"]:
                continue
            s = play(seq, rep)
            rep.count("traces")
            for x in s or ():
                states.add(x)
    rep.count("states", len(states))
    for x in states:
        rep.outcome(x)


def ev_duct(case, rep):
    """Ground-based refracted rays through a layer of falling refractivity: announced exactly if the ray is trapped."""
    kink = case["kink"]
    steps = (0.001, 0.003, 0.01, 0.03, 0.1, 0.3, 1.0, 2.0) if not case["deep"] else tuple(np.round(np.geomspace(0.001, 3.0, 20), 5))
    for dz in (0.02, 0.05, 0.1, 0.2):
        for drop in (0, 5, 10, 20, 31, 40, 60, 120, 170, 220, 500):
            N = 320.0 * np.exp(-np.array([0, 0.5, 1, 2, 5, 10.0]) / 8)
            z = np.array([0, 0.5, 1, 2, 5, 10.0])
            zz = np.sort(np.append(z, z[kink] + dz))
            i = int(np.argmax(zz > z[kink]))
            NN = np.interp(zz, z, N)
            NN[i] = max(NN[i - 1] - drop, 0.5)     # down to almost nothing: elevated ducts
            NN[i + 1:] = np.minimum(NN[i + 1:], NN[i])
            n = 1 + NN * 1e-6
            for z0 in (0.0, 2.0):
                for ang in steps + (5.0, 30.0, 89.5, 90.0):
                    r = 6370.949 + zz + z0
                    inv = n * r / (n[0] * r[0] * np.cos(np.radians(ang)))
                    if np.min(np.abs(inv[1:] - 1)) < 1e-9:
                        continue
                    due = bool(np.any(inv[1:] <= 1)) and ang < 89
                    v, w = caught(lambda: impl.RTEquation.ray_tracing(zz.copy(), n.copy(), ang, z0))
                    rep.count("states")
                    rep.count("transitions")
                    if isinstance(v, BaseException):
                        rep.bad("ray at %g deg: %r" % (ang, v))
                        continue
                    rep.check((len(w) > 0) == due, "elevation %g, %d N-units over %g km at level %d, observer at %g km: %s, the ray %s" %
                              (ang, drop, dz, kink, z0, "announced" if w else "not announced", "is trapped" if due else "escapes"))
                    rep.outcome((due, drop, dz))
    rep.count("traces")


def ev_signs(case, rep):
    n = case["n"]
    vals = (-0.5, 0.0, 0.7, 1.3)
    for x in itertools.product(vals, repeat=n):
        x = np.array(x)
        for ibeg in (0, 1):
            for flag in (True, False):
                v, w = caught(lambda: impl.RTEquation.exponential_integration(flag, x, np.append(0, np.ones(n - 1)), ibeg, n, 1.0))
                rep.count("states")
                rep.count("transitions")
                if isinstance(v, BaseException):
                    rep.bad("integration of %s: %r" % (x.tolist(), v))
                    continue
                rep.check((len(w) > 0) == bool((x < 0).any()), "integration of %s from %d: warnings %s" % (x.tolist(), ibeg, w))
    rep.outcome("signs %d" % n)
    rep.count("traces")


def ev_deepcloud(case, rep):
    a = fix.atm(case["atm"], 6)
    impl.select(fix.sel("R20", liq="R20"))
    F = np.array([22.235, 60.3, 183.31, 325.15, 380.2, 448.0, 556.94, 752.03])
    hit = 0
    for base in range(0, 5):
        c = fix.cloud(a["z"], base, base + 1, 0.3, 0.1)

        def go():
            rte = impl.TbCloudRTE(a["z"], a["p"], a["t"], a["rh"], F, np.array([90.0, 20.0]), from_sat=case["sat"], cloudy=True)
            rte.init_cloudy(c["cldh"], c["denice"], c["denliq"])
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                df, d = rte.execute(False)
            return df, d, [x for x in w if issubclass(x.category, UserWarning)]
        v, _ = caught(go)
        rep.count("states")
        rep.count("transitions")
        if isinstance(v, BaseException):
            rep.bad("cloud at level %d: %r" % (base, v))
            continue
        df, d, w = v
        lay = d["taulaywet"] + d["taulaydry"] + d["taulayliq"] + d["taulayice"]
        tau = np.cumsum(lay, axis=2)[:, :, base] if not case["sat"] else None
        if tau is None:
            # opacity between the level and the top
            tau = lay.sum(axis=2) - np.cumsum(lay, axis=2)[:, :, base]
        deep = tau > 125
        if np.any(np.abs(tau - 125) < 1e-6):
            continue
        hit += int(deep.sum())
        rep.check(len(w) >= 1 if deep.any() else len(w) == 0, "cloud from level %d: %d channels behind more than 125 Np, %d warnings" % (base, int(deep.sum()), len(w)))
        g = df["tmrcld"].values.reshape(2, len(F)).T
        rep.check(bool(np.all(~np.isfinite(g[deep]))), "cloud from level %d: a cloud temperature is reported behind more than 125 Np" % base)
        rep.outcome((base, deep.tolist()))
    rep.count("traces")


def ev_negative(case, rep):
    """A negative humidity is never silently integrated."""
    impl.select(fix.sel("R20"))
    a = fix.atm(0, 6)
    for v in (-0.01, -1e-6, 0.0, 1.5 * a["rh"][case["lev"]]):
        b = dict(a, rh=a["rh"].copy())
        b["rh"][case["lev"]] = v

        def go():
            rte = impl.TbCloudRTE(b["z"], b["p"], b["t"], b["rh"], np.array([22.235, 90.0]), np.array([90.0]), from_sat=case["sat"])
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                rte.execute(False)
            return [x for x in w if issubclass(x.category, UserWarning)]
        w, _ = caught(go)
        rep.count("states")
        rep.count("transitions")
        if isinstance(w, BaseException):
            # an error is an announcement too
            rep.check(v < 0, "humidity %g at level %d: %r" % (v, case["lev"], w))
            continue
        rep.check((len(w) > 0) == (v < 0), "humidity %g at level %d: %d warnings" % (v, case["lev"], len(w)))
        rep.outcome((v < 0, case["lev"]))
    rep.count("traces")


def ev_wf(case, rep):
    import matplotlib.pyplot as plt
    show = plt.show
    plt.show = lambda *a, **k: None
    try:
        a = fix.atm(0, 50)
        w = WF(a["z"], a["p"], a["t"], a["rh"])
        w.frequencies = np.array([50.5, 53.2, 54.35, 54.9])
        v, ws = caught(lambda: w.generate_wf())
        rep.check(not isinstance(v, BaseException), "weighting functions: %r" % (v,))
        for sizes in ([4], [1, 3], [2, 2], [1, 1, 1, 1]):
            _, ws = caught(lambda: w.plot_wf_grouped(v, "", None, sizes, ["g%d" % i for i in range(len(sizes))]))
            plt.close("all")
            rep.count("states")
            rep.count("transitions")
            rep.check(any("shift" in m for m in ws), "grouped plot %s: not announced that the functions are shifted: %s" % (sizes, ws))
            rep.outcome(repr(sizes))
    finally:
        plt.show = show
    rep.count("traces")
