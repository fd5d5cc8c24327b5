"""C03: profile order, refusal of non-monotonic heights, height offset."""
import itertools
import numpy as np
PID = "C03"
LEVEL = "model_checking"
RULE = ("all height patterns {0,1,2}^n for n = 2..5 (thorough 6) with three spacings and every single defect (equal, swapped, NaN) at every position of a 50-level profile in both orders: refused exactly when not strictly monotonic; "
        "the full product viewing direction x path x ozone x cloud x emissivity x ice x perturbed parameters x array form on ascending and descending input: identical results; offsets of the whole profile in the plane-parallel case")
NOTE = "exhaustive small height patterns and the full option product on the real code, each in both orders and compared"
ASSUMPTIONS = ["cloud bases and tops lie on levels", "heights are real numbers or NaN (NaN is not increasing)"]
F = np.array([22.235, 57.0, 110.85, 183.9])
ANG = np.array([90.0, 30.0])


def load(tier):
    global impl, fix, ops, R
    from mc import impl, fix, ops
    import ref.physics as R


def cases(tier):
    c = []
    for n in (2, 3, 4, 5) + ((6,) if tier == "thorough" else ()):
        for i, j in [(i, j) for i in range(3) for j in range(3)] if n >= 4 else [(None, None)]:
            c.append(dict(kind="pattern", n=n, first=None if i is None else [i, j]))
    c += [dict(kind="defect", pos=i) for i in range(0, 50, 10)]
    for sat, ray, o3, cl in itertools.product((True, False), repeat=4):
        c.append(dict(kind="order", sat=sat, ray=ray, o3=o3, cloud=cl, atm=list(range(6)) if tier == "thorough" else [(sat + 2 * ray + 3 * o3 + cl) % 6]))
    c += [dict(kind="offset", sat=s, cloud=cl) for s in (True, False) for cl in (True, False)]
    c += [dict(kind="long", atm=k) for k in range(6 if tier == "thorough" else 2)]
    return c


def weight(c):
    return {"order": 5, "long": 4, "offset": 3}.get(c["kind"], 1)


def attempt(z, p, t, rh):
    """None if refused, else the result."""
    try:
        rte = impl.TbCloudRTE(z, p, t, rh, np.array([31.4]), np.array([90.0]))
        return rte.execute()
    except (Exception, SystemExit):
        return None


def evaluate(case, rep):
    k = case["kind"]
    impl.select(fix.sel("R19"))
    if k == "pattern":
        n = case["n"]
        a = fix.atm(1, 6)
        for pat in itertools.product(range(3), repeat=n):
            if case["first"] and list(pat[:2]) != case["first"]:
                continue
            for scale in (1.0, 2.5, 0.004):
                z = np.array(pat, float) * scale + (0.3 if scale == 2.5 else 0.0)
                if scale == 1.0:
                    z = np.array(pat)
                up, down = bool(np.all(np.diff(z) > 0)), bool(np.all(np.diff(z) < 0))
                s = slice(None, None, -1) if down else slice(None)
                got = attempt(z, a["p"][:n][s].copy(), a["t"][:n][s].copy(), a["rh"][:n][s].copy())
                rep.count("states")
                rep.count("transitions")
                rep.count("traces")
                rep.outcome("%s %s" % (pat, got is not None))
                if up or down:
                    if rep.check(got is not None, "strictly monotonic heights %s are refused" % z.tolist()):
                        zz = z[s].astype(float)
                        w = R.simulate(zz, a["p"][:n], a["t"][:n], a["rh"][:n], [31.4], [90.0], fix.sel("R19"))
                        rep.close(got.tbtotal.values, w["tbtotal"][:, 0], "heights %s" % z.tolist(), rtol=1e-8)
                else:
                    rep.check(got is None, lambda: "heights %s give numbers: %s" % (z.tolist(), got.tbtotal.values))
    elif k == "defect":
        a = fix.atm(2, 50)
        for i in range(case["pos"], min(49, case["pos"] + 10)):
            for kind in ("equal", "swap", "nan", "dip", "tiny"):
                for down in (False, True):
                    z = a["z"].copy()
                    if kind == "equal":
                        z[i + 1] = z[i]
                    elif kind == "swap":
                        z[[i, i + 1]] = z[[i + 1, i]]
                    elif kind == "nan":
                        z[i] = np.nan
                    elif kind == "dip":
                        z[i + 1] = z[i] - 1e-9
                    else:
                        z[i + 1] = z[i] + 1e-9      # still increasing
                    s = slice(None, None, -1) if down else slice(None)
                    rep.count("states")
                    rep.count("transitions")
                    rep.count("traces")
                    try:
                        impl.TbCloudRTE(z[s], a["p"][s], a["t"][s], a["rh"][s], np.array([31.4]), np.array([90.0]))
                        ok = True
                    except (Exception, SystemExit):
                        ok = False
                    if ok and kind != "tiny":
                        # accepted by the constructor: must then fail in the computation
                        ok = attempt(z[s], a["p"][s], a["t"][s], a["rh"][s]) is not None
                    rep.check(ok == (kind == "tiny"), "%s at level %d (%s): %s" % (kind, i, "top-down" if down else "bottom-up", "accepted" if ok else "refused"))
                    rep.outcome("%s %d %s" % (kind, i, down))
    elif k == "order":
        for ia in case["atm"]:
            order(case, ia, rep)
    elif k == "offset":
        offsets(case, rep)
    else:
        long(case, rep)


def run(a, c, opt, down, form=None, amu=None):
    a = dict(a)
    c = dict(c) if c else None
    if down:
        for x in a:
            a[x] = a[x][::-1]
        if c:
            c["denice"], c["denliq"] = c["denice"][::-1], c["denliq"][::-1]
    if form == "copy":
        a = {x: a[x].copy() for x in a}
        c = c and {x: c[x].copy() for x in c}
    elif form == "column":
        a = {x: np.stack([v, v * 0 - 9], 1)[:, 0] for x, v in a.items()}
        c = c and {x: np.stack([v, v * 0 - 9], -1)[..., 0] for x, v in c.items()}
    rte = impl.TbCloudRTE(a["z"], a["p"], a["t"], a["rh"], F, ANG, o3n=a["o3n"] if opt["o3"] else None, amu=amu, ray_tracing=opt["ray"], from_sat=opt["sat"], cloudy=opt["cloud"])
    rte.ice = opt.get("ice", False)
    if opt.get("emis"):
        rte.emissivity = np.array([0.95, 0.5, 0.7, 0.85])
    if opt["cloud"]:
        rte.init_cloudy(c["cldh"], c["denice"], c["denliq"])
    if opt.get("late"):
        # the options of the run are set on the constructed object
        rte.satellite = not opt["sat"]
        rte.execute(False)
        rte.satellite = opt["sat"]
    return ops.digest_sim(*rte.execute(False))


def two_clouds(z):
    n = len(z)
    dl, di = np.zeros(n), np.zeros(n)
    dl[1:3], di[1:3] = [0.2, 0.4], [0.0, 0.1]
    dl[4:], di[4:] = 0.1, 0.3
    return dict(cldh=np.array([[z[1], z[4]], [z[2], z[5]]]), denliq=dl, denice=di)


def order(case, ia, rep):
    sel = fix.sel("R22SD", o="R22", o3="R22")
    for z0, ice, emis, cl, pert, late in itertools.product((0.0, 0.7), (False, True), (False, True), (0, 1), (False, True), (False, True)):
        if (cl and not case["cloud"]) or (emis and not case["sat"]) or (pert and (ice or late)) or (late and z0):
            continue
        a = fix.atm(ia, 6, z0)
        a["rh"] = a["rh"] * np.array([0.9, 1.0, 0.7, 1.1, 0.5, 1.0])
        c = None
        if case["cloud"]:
            c = two_clouds(a["z"]) if cl else fix.cloud(a["z"], 0, 2, 0.3, 0.2, outside=True)
        opt = dict(case, ice=ice, emis=emis, late=late)
        amu = None
        if pert:
            amu = ops.parameters("R22SD", "R22", "R22")
            amu["gamma_a"].value = amu["gamma_a"].value * 1.2
            amu["O2S"].value = amu["O2S"].value * 0.9
        impl.select(sel)
        base = run(a, c, opt, False, "copy", amu)
        for form, down in (("copy", True), (None, True), ("column", True), ("column", False)):
            g = run(a, c, opt, down, form, amu)
            d = ops.same(g, base, 1e-12)
            rep.count("states")
            rep.count("transitions", 2)
            rep.count("traces")
            rep.check(not d, lambda: "%s z0=%g atmosphere %d, %s arrays (%s): %s bottom-up" % ({x: v for x, v in opt.items() if x not in ("kind", "atm")}, z0, ia, "top-down" if down else "bottom-up", form, d))
        rep.outcome(base["tbtotal"].tobytes())
    rep.sample({k: v for k, v in case.items()})


def offsets(case, rep):
    impl.select(fix.sel("R19"))
    for ia in range(6):
        a = fix.atm(ia, 6)
        opt = dict(case, ray=False, o3=True)
        base = None
        for off in (0.0, 0.25, 1.0, 8.0, -0.3, 64.0, 0.1):
            b = dict(a, z=a["z"] + off)
            c = fix.cloud(b["z"], 1, 3, 0.3, 0.2) if case["cloud"] else None
            for down in (False, True):
                g = run(b, c, opt, down, "copy")
                rep.count("states")
                rep.count("transitions")
                rep.count("traces")
                if base is None:
                    base = g
                d = ops.same(g, base, 1e-9)
                rep.check(not d, lambda: "heights shifted by %g km (%s): %s" % (off, "top-down" if down else "bottom-up", d))
        rep.outcome(base["tbtotal"].tobytes())


def long(case, rep):
    """All 50 levels, all options at once."""
    impl.select(fix.sel("R20", o3="R18"))
    a = fix.atm(case["atm"], 50, 0.2)
    c = fix.cloud(a["z"], 3, 7, 0.2, 0.1)
    for sat, ray in itertools.product((True, False), repeat=2):
        opt = dict(sat=sat, ray=ray, o3=True, cloud=True, emis=True)
        base = run(a, c, opt, False, "copy")
        d = ops.same(run(a, c, opt, True, "copy"), base, 1e-12)
        rep.count("states")
        rep.count("transitions", 2)
        rep.count("traces")
        rep.check(not d, lambda: "50 levels top-down: %s bottom-up" % d)
        rep.outcome(base["tbtotal"].tobytes())
