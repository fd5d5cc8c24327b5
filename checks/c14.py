"""C14: reference-atmosphere formulas on a height grid covering every layer, both sides of every boundary."""
import numpy as np
PID = "C14"
LEVEL = "exploration"
RULE = ("every height of the grid (every layer, both sides of every boundary) x latitude x season x quantity, as single heights, integers, "
        "whole arrays, views and with array latitudes, compared with formulas written from ITU-R P.835-6")
NOTE = "full height/latitude/season product on the real functions against independent ITU-R P.835-6 formulas"
LAT = [0.0, 5.0, 19.9, 20.0, 21.99, 22.0, 22.01, 30.0, 44.99, 45.01, 60.0, 75.5, 90.0]
EDGE = [8.5, 10, 11, 13, 15, 17, 20, 23, 30, 32, 33, 47, 48, 50, 51, 52, 53, 54, 71, 72, 79, 80, 86, 91]
GEO = [11.019067, 20.063125, 32.161905, 47.350091, 51.412468, 71.801966]      # geometric heights of the standard layers
ASSUMPTIONS = ["heights 0-100 km; 85.9-86 km is skipped for the standard atmosphere (the published ranges leave a gap there)",
               "at exactly 45 degrees the zone is not checked (the Recommendation names it for neither zone unambiguously)",
               "the surface temperature and pressure arguments of the standard atmosphere are used at their reference values"]


def load(tier):
    global I, PE
    import ref.itu as I
    from pyrtlib.climatology import ProfileExtrapolation as PE


def heights(tier="quick"):
    h = set(np.round(np.arange(0, 100.01, 0.37 if tier == "quick" else 0.05), 4)) | {0.0, 100.0}
    for e in EDGE + GEO:
        h |= {e - 1e-3, e + 1e-3}
        if e in EDGE:
            h.add(float(e))
    return np.array(sorted(float(x) for x in h if 0 <= x <= 100))


def cases(tier):
    return [dict(lat=s * l, season=q, tier=tier) for l in LAT for s in ((1, -1) if l else (1,)) for q in ("summer", "winter")] + \
        [dict(std=True, tier=tier), dict(misc=True)]


def forms(h):
    yield "array", h, slice(None)
    yield "reversed", h[::-1], slice(None, None, -1)
    yield "strided", np.repeat(h, 2)[::2], slice(None)


def evaluate(case, rep):
    pe = PE()
    if "lat" in case:
        lat, s = case["lat"], case["season"]
        h = heights(case["tier"])
        want = {"temperature": [I.temperature(lat, x, s) for x in h], "pressure": [I.pressure(lat, x, s) for x in h],
                "water_vapour_density": [I.rho(lat, x, s) for x in h]}
        for q, w in want.items():
            w = np.array(w)
            for name, a, sl in forms(h):
                b = a.copy()
                rep.close(getattr(pe, q)(lat, a, s), w[sl], "%s at latitude %g in %s (%s)" % (q, lat, s, name), rtol=1e-10)
                rep.count("evaluations", len(h))
                rep.check((a == b).all(), "heights changed")
            for i, x in enumerate(h):
                g = getattr(pe, q)(lat, float(x), s)
                rep.count("evaluations")
                rep.close(g, w[i], "%s at latitude %g, height %r in %s" % (q, lat, x, s), rtol=1e-10)
                rep.outcome("%s%.10e" % (q, w[i]))
            hi = np.arange(0, 101, 5)
            wi = [{"temperature": I.temperature, "pressure": I.pressure, "water_vapour_density": I.rho}[q](lat, float(x), s) for x in hi]
            rep.close(getattr(pe, q)(lat, hi, s), wi, "%s with integer heights" % q, rtol=1e-10)
            if s == "summer":
                rep.close(getattr(pe, q)(lat, h), w, "%s: summer is the default" % q, rtol=1e-10)
            rep.close(getattr(pe, q)(-lat, h, s), getattr(pe, q)(lat, h, s), "%s must be symmetric in latitude" % q, rtol=0)
        rep.sample(dict(lat=lat, season=s, h=h[:3].tolist(), T=want["temperature"][:3]))
    elif "std" in case:
        h = heights(case["tier"])
        h = h[(h < 85.9) | (h >= 86)]
        fs = [("standard_temperature", lambda a: pe.standard_temperature(a, 288.15), I.std_t),
              ("standard_pressure", lambda a: pe.standard_pressure(a, 288.15, 1013.25), I.std_p),
              ("standard_temperature default", lambda a: pe.instance.standard_temperature(a), I.std_t),
              ("standard_pressure default", lambda a: pe.instance.standard_pressure(a), I.std_p)]
        for h0, r0 in ((2.0, 7.5), (2, 7.5), (1.5, 12.0), (3.3, 0.4)):
            fs.append(("standard_water_vapour_density", lambda a, h0=h0, r0=r0: pe.standard_water_vapour_density(a, h0, r0), lambda x, h0=h0, r0=r0: I.std_rho(x, h0, r0)))
            fs.append(("standard_water_vapour_pressure", lambda a, h0=h0, r0=r0: pe.standard_water_vapour_pressure(a, h0, r0), lambda x, h0=h0, r0=r0: I.std_e(x, h0, r0)))
        fs.append(("standard_water_vapour_pressure default", lambda a: pe.standard_water_vapour_pressure(a), I.std_e))
        for q, f, w in fs:
            ww = np.array([w(x) for x in h])
            for name, a, sl in forms(h):
                rep.close(f(a), ww[sl], "%s (%s)" % (q, name), rtol=1e-10)
                rep.count("evaluations", len(h))
            for i, x in enumerate(h):
                rep.close(f(float(x)), ww[i], "%s at %r" % (q, x), rtol=1e-10)
                rep.count("evaluations")
                rep.outcome("%s%.10e" % (q, ww[i]))
            hi = np.arange(0, 101, 5)
            hi = hi[hi != 85]
            rep.close(f(hi), [w(float(x)) for x in hi], "%s with integer heights" % q, rtol=1e-10)
        rep.sample(dict(h=h[:3].tolist(), T=[I.std_t(x) for x in h[:3]]))
    else:
        for q in ("temperature", "pressure", "water_vapour_density"):
            for bad in ("spring", "", None, "Summer ", "autumn", "standard", 1):
                for lat in (0.0, 30.0, -60.0):
                    rep.count("evaluations")
                    try:
                        getattr(pe, q)(lat, np.array([1.0, 2.0]), bad)
                    except Exception:
                        rep.count("comparisons")
                        continue
                    rep.bad("%s accepted the season %r" % (q, bad))
            # latitude arrays: element by element
            la = np.array([0.0, 30.0, -30.0, 60.0, -75.0, 21.0])
            ha = np.array([1.0, 12.5, 49.0, 75.0, 9.0, 60.0])
            for s in ("summer", "winter"):
                w = [{"temperature": I.temperature, "pressure": I.pressure, "water_vapour_density": I.rho}[q](a, b, s) for a, b in zip(la, ha)]
                rep.close(getattr(pe, q)(la, ha, s), w, "%s with arrays of latitudes" % q, rtol=1e-10)
                rep.outcome(repr(w))
        for bad in ("ITU-Annex2", "", None):
            try:
                PE(bad)
            except Exception:
                continue
            rep.bad("extrapolation mode %r accepted" % (bad,))
