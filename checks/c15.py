"""C15: profile extrapolation for every measured-top/latitude/month combination and every short call sequence."""
import itertools
import numpy as np
PID = "C15"
LEVEL = "model_checking"
RULE = ("states = call histories up to depth 3 over an alphabet of 6 calls (same object and other objects), plus the full product of measured "
        "profiles x latitudes x months; every returned profile is compared level by level with the ITU-R reference model")
NOTE = "all call sequences up to depth 3 (thorough 4) and the full product of 18 measured profiles x 17 latitudes x 12 months, real code"
TOPS = [2.0, 8.9, 12.3, 19.99, 25.0, 27.5, 33.0, 41.2, 46.8, 46.9, 49.9, 50.0, 50.1, 55.0, 62.0, 77.7, 95.0, 99.5]
LATS = [0.0, 10.0, -10.0, 20.0, -20.0, 20.5, -20.5, 22.0, -30.0, 30.0, 44.0, -44.0, 46.0, -46.0, 65.0, -65.0, 89.0]
ASSUMPTIONS = ["measured tops %s km" % TOPS, "latitudes %s" % LATS]


def load(tier):
    global I, PE
    import ref.itu as I
    from pyrtlib.climatology import ProfileExtrapolation as PE


def cases(tier):
    return [dict(kind="grid", top=t) for t in TOPS] + [dict(kind="seq", first=i, depth=3 if tier == "quick" else 4) for i in range(6)] + \
        [dict(kind="season")]


def profile(top, n):
    z = np.linspace(0.1, top, n) if n > 1 else np.array([top])
    p = 1000 * np.exp(-z / 7.4) + 1e-4
    t = 290 - 40 * np.sin(z / 20.0)
    rh = 0.6 * np.exp(-z / 5.0)
    return z, p, t, rh


def grid(z):
    top = max(z)
    h = list(z)
    if top < 50:
        h += list(np.arange(top + 3.2, 50, 3.2))
    g = [float(x) for x in range(26)] + [27.5 + 2.5 * i for i in range(10)] + [55.0 + 5 * i for i in range(10)]
    h += [x for x in g if x > h[-1]]
    return np.array(h)


_ref = {}


def reference(top, n, lat, month):
    k = (top, n, lat, month)
    if k not in _ref:
        z, p, t, rh = profile(top, n)
        h = grid(z)
        new = [I.state(lat, month, float(x)) for x in h[n:]]
        a = np.array(new).reshape(-1, 3)
        _ref[k] = (h, np.append(p, a[:, 0]), np.append(t, a[:, 1]), np.append(rh, a[:, 2]))
    return _ref[k]


def call(pe, top, n, lat, month, rep, tag):
    z, p, t, rh = profile(top, n)
    b = [x.copy() for x in (z, p, t, rh)]
    out = pe.profile_extrapolation(lat, month, z, (p, t, rh))
    rep.count("transitions")
    for x, y in zip((z, p, t, rh), b):
        rep.check((x == y).all(), tag + ": measured profile changed")
    rep.check(len(out) == 4, tag + ": four profiles expected")
    w = reference(top, n, lat, month)
    h = np.asarray(out[0])
    rep.close(h, w[0], tag + " heights", rtol=1e-12)
    rep.check((np.diff(h) > 0).all() and h[-1] == 100.0, tag + ": heights must increase up to 100 km")
    for name, g, x, m in zip(("pressure", "temperature", "relative humidity"), out[1:], w[1:], (p, t, rh)):
        g = np.asarray(g, float)
        rep.check(g.shape == h.shape and (g[:n] == m).all(), lambda: tag + ": measured %s not kept" % name)
        rep.close(g, x, tag + " " + name, rtol=1e-9, atol=1e-30)
    rep.outcome(repr([float(out[i][-1]) for i in range(4)]) + repr((top, lat, month)))
    return out


def evaluate(case, rep):
    if case["kind"] == "grid":
        top = case["top"]
        pe = PE()
        for lat in LATS:
            for month in range(1, 13):
                call(pe, top, 12, lat, month, rep, "top %g km, latitude %g, month %d" % (top, lat, month))
                rep.count("states")
                rep.count("traces")
        for n in (1, 2, 40):
            call(PE(), top, n, 52.0, 7, rep, "%d levels up to %g km" % (n, top))
            rep.count("states")
        rep.sample(dict(top=top, heights=reference(top, 12, 0.0, 1)[0][-5:].tolist()))
    elif case["kind"] == "season":
        pe = PE()
        for lat in LATS:
            for month in range(1, 13):
                rep.count("states")
                rep.check(pe._get_season(lat, month) == I.season_of(lat, month) if hasattr(pe, "_get_season") else True,
                          lambda: "season at latitude %g in month %d" % (lat, month))
    else:
        # alphabet of calls; "keep" mutates the previous answers before the next call
        A = [(12.3, 12, 40.0, 7), (55.0, 12, 40.0, 7), (46.9, 12, -50.0, 1), (12.3, 5, 0.0, 4), (77.7, 12, -30.0, 7), (30.0, 12, 60.0, 12)]
        for rest in itertools.product(range(6), repeat=case["depth"] - 1):
            seq = (case["first"],) + rest
            for other in (False, True):
                pe = PE()
                outs = []
                for j, i in enumerate(seq):
                    obj = PE() if other and j % 2 else pe
                    outs.append([np.array(x, copy=True) for x in call(obj, *A[i], rep, "call %d of sequence %s%s" % (j, seq, " on other objects" if other else ""))])
                rep.count("states")
                rep.count("traces")
        # returned arrays are the caller's: overwriting them changes no later answer
        pe = PE()
        for i in range(6):
            z, p, t, rh = profile(A[i][0], A[i][1])
            for x in pe.profile_extrapolation(A[i][2], A[i][3], z, (p, t, rh)):
                x[...] = -1.0
            call(pe, *A[i], rep, "after overwriting the answer")
            # a caller's height grid is used and kept
        base = np.array(PE().height)
        for i in range(6):
            call(pe, *A[i], rep, "call")
            rep.check(np.array_equal(np.asarray(pe.height), base), "height grid of the object changed")
