"""C07: slant path lengths, plane-parallel and refracted, on a grid of geometries."""
import numpy as np
PID = "C07"
LEVEL = "exploration"
RULE = ("every refractive-index profile x height grid x elevation angle x observer height through the real ray_tracing(), compared with an "
        "independent implementation, with the exact geometry of uniform media and with a numerical Snell integral; whole simulations "
        "for every angle with and without ray tracing")
NOTE = "full product of the stated profiles, angles and observer heights on the real code against independent geometry"
ANG = [3.0, 5.0, 7.5, 10.0, 14.5, 20.0, 30.0, 42.0, 45.0, 60.0, 75.0, 85.0, 88.0, 88.99, 89.0, 89.5, 90.0, 90.5, 91.0]
Z0 = [0.0, 0.35, 2.0, 5.5, 12.0]
ASSUMPTIONS = ["elevation angles %s degrees" % ANG, "no ducting layers (gradient above -157 N/km) in the bounds and Snell comparison"]


def load(tier):
    global impl, R, fix, RTE
    from mc import impl, fix
    import ref.physics as R
    RTE = impl.RTEquation


def cases(tier):
    out = [dict(kind="ray", prof=p) for p in range(6 * 3 + 7)]
    out += [dict(kind="odd")]
    for k in range(6):
        for ray in (False, True):
            out.append(dict(kind="sim", atm=k, ray=ray))
    if tier == "thorough":
        out += [dict(kind="fine", prof=p) for p in range(6 * 3 + 7)]
    return out


def profile(i):
    """(name, z above observer, refractive index)"""
    if i < 18:
        k, n = divmod(i, 3)
        n = (6, 10, 50)[n]
        a = fix.atm(k, n)
        return "atm%d/%d" % (k, n), a["z"], R.refractivity(a["p"], a["t"], R.vapor(a["t"], a["rh"])[0])[2]
    z = np.array([0.0, 0.05, 0.3, 1.0, 2.5, 6.0, 11.0, 20.0, 40.0, 80.0])
    N = [np.zeros(10), np.full(10, 300e-6), 320e-6 * np.exp(-z / 7.0), 400e-6 * np.exp(-z / 4.0),
         np.where(z < 1, 330e-6 - 1e-5 * z, 280e-6 * np.exp(-z / 8)), 250e-6 + 1e-6 * np.sqrt(z),
         np.where(z > 30, 0.0, 300e-6 * np.exp(-z / 8))][i - 18]
    return ["vacuum", "uniform", "exp7", "exp4", "humid", "growing", "partly vacuum"][i - 18], z, 1 + N


def snell(z, n, ang, z0):
    """Layer path lengths from n r cos(theta) = const with logarithmic N in the layer, by Simpson's rule."""
    r0 = R.R_EARTH + z0
    c = n[0] * (r0 + z[0]) * np.cos(np.radians(ang))
    out = np.zeros(len(z))
    for i in range(1, len(z)):
        m = 401
        zz = np.linspace(z[i - 1], z[i], m)
        a, b = n[i - 1] - 1, n[i] - 1
        w = (zz - z[i - 1]) / (z[i] - z[i - 1])
        N = a * (b / a) ** w if a > 0 and b > 0 else a + (b - a) * w
        g = 1 / np.sqrt(1 - (c / ((1 + N) * (r0 + zz))) ** 2)
        h = (z[i] - z[i - 1]) / (m - 1)
        out[i] = h / 3 * (g[0] + g[-1] + 4 * g[1:-1:2].sum() + 2 * g[2:-1:2].sum())
    return out


def one(rep, name, z, n, ang, z0, deep=True):
    zb, nb = z.copy(), n.copy()
    g = RTE.ray_tracing(z, n, ang, z0)
    rep.count("evaluations")
    tag = "path %s angle=%g z0=%g" % (name, ang, z0)
    ex = R.raypath(z, n, ang, z0, exact=True)
    known = False
    with np.errstate(all="ignore"):
        right = g is not None and ex is not None and np.shape(g) == np.shape(ex) and np.allclose(g, ex, rtol=1e-7, atol=1e-12)
    if not right:
        df = R.raypath(z, n, ang, z0)
        rep.close(g, ex if df is None else df, tag, rtol=1e-7, atol=1e-12)
        known = True
        rep.bad(tag + ": elevation angle at the upper layer boundary", known_key="elevation-at-upper-boundary")
    rep.check((z == zb).all() and (n == nb).all(), tag + ": inputs changed")
    rep.outcome(np.asarray(g).round(8).tobytes())
    if g is None or not deep:
        return g
    dz = np.diff(z)
    d = np.asarray(g)[1:]
    rep.check(g[0] == 0, tag + ": first entry must be zero")
    rep.check((d >= dz * (1 - 1e-9)).all(), tag + ": shorter than the layer")
    if ang >= 89:
        rep.close(d, dz, tag + ": near vertical", rtol=1e-12)
    else:
        # Snell's law and the plane-parallel bound hold for the exact algorithm up to its layer discretisation (bending
        # distributed linearly over a layer); where the known finding applies they are checked on the reference
        grad = np.diff(n) / dz
        if (grad > -157e-6).all():
            d = ex[1:] if known else d
            s = snell(z, n, ang, z0)[1:]
            rel = np.abs(d - s) / s
            rep.check(rel.max() < 2e-3, lambda: tag + ": deviates from Snell's law by %g" % rel.max())
            rep.check((np.cumsum(d) <= np.cumsum(dz) / np.sin(np.radians(ang)) * (1 + 1e-6)).all(), tag + ": longer than plane parallel")
        if (n == n[0]).all():
            r0 = R.R_EARTH + z0 + z[0]
            p = r0 * np.cos(np.radians(ang))
            s = np.sqrt((R.R_EARTH + z0 + z) ** 2 - p ** 2)
            rep.close(d, np.diff(s), tag + ": straight ray", rtol=1e-7)
    return g


def evaluate(case, rep):
    k = case["kind"]
    if k == "ray":
        name, z, n = profile(case["prof"])
        for z0 in Z0:
            prev = None
            for ang in ANG:
                g = one(rep, name, z, n, ang, z0)
                if prev is not None and ang <= 89:      # in total: single layers are affected by the known finding
                    rep.check(g.sum() <= prev.sum() * (1 + 1e-6), "path of %s must not grow with elevation at %g" % (name, ang))
                prev = g
        rep.sample(dict(profile=name, angle=20.0, path=R.raypath(z, n, 20.0, 0.0).tolist()[:6]))
    elif k == "fine":
        name, z, n = profile(case["prof"])
        for z0 in np.linspace(0, 15, 31):
            for ang in np.arange(2.0, 92.1, 0.25):
                one(rep, name, z, n, float(ang), float(z0), deep=ang > 3 and ang <= 91)
    elif k == "odd":
        name, z, n = profile(20)
        for j in range(len(n)):
            m = n.copy()
            m[j] = 1 - 1e-6
            rep.check(RTE.ray_tracing(z, m, 30.0, 0.0) is None, "refractive index below one at level %d must be refused" % j)
            rep.count("evaluations")
        for ang in (-91.0, -90.0, -89.0):
            rep.close(RTE.ray_tracing(z, n, ang, 0.0), R.raypath(z, n, ang, 0.0), "downward vertical")
        for zz in (z + 0.5, z + 4.0):     # first level above the observer
            for ang in (10.0, 33.0, 70.0):
                rep.close(RTE.ray_tracing(zz, n, ang, 0.2), R.raypath(zz, n, ang, 0.2), "raised first level angle %g" % ang, rtol=1e-7)
        for zz, nn in ((z[:2], n[:2]), (z[::3], n[::3]), (z[::-1][::-1], n[::-1][::-1]), (np.arange(10), n)):
            for ang in (8.0, 33, 70.0, 90):
                rep.close(RTE.ray_tracing(zz, nn, ang, 0.2), R.raypath(zz, nn, ang, 0.2), "views angle %g" % ang, rtol=1e-7)
                rep.count("evaluations")
    elif k == "sim":
        for z0 in (0.0, 1.3):
            a = fix.atm(case["atm"], 10, z0=z0)
            ang = np.array([90.0, 89.2, 75.0, 42.0, 30.0, 15.0, 10.0, 5.0])
            for sat in (True, False):
                for aa in (ang, np.array([90, 30, 8])):
                    o = dict(a, o3n=None, frq=np.array([31.4]), angles=aa, sel=fix.sel("R98"), sat=sat, ray=case["ray"])
                    df, d = impl.run(o)
                    rep.count("evaluations", len(aa))
                    w = R.simulate(a["z"], a["p"], a["t"], a["rh"], [31.4], aa, o["sel"], sat=sat, ray=case["ray"])
                    fix.compare(rep, impl.as_result(df, d, 1, len(aa)), w, "atm %d ray=%s sat=%s z0=%g" % (case["atm"], case["ray"], sat, z0), tol=1e-7)
                    # each layer's path from the returned opacities: ratio to the vertical ray is the path ratio
                    tw = d["taulaydry"][0]
                    for j, x in enumerate(aa):
                        ds = R.raypath(a["z"] - z0, R.refractivity(a["p"], a["t"], R.vapor(a["t"], a["rh"])[0])[2], float(x), z0) if case["ray"] \
                            else R.plane_path(a["z"] - z0, float(x))
                        rep.close(tw[j, 1:] / tw[0, 1:], ds[1:] / np.diff(a["z"]), "path factor atm %d angle %g ray=%s" % (case["atm"], x, case["ray"]), rtol=1e-6)
                    rep.outcome("%.9e" % df.tauwet.values.sum())
