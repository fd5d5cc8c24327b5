"""C16: unit conversions on grids of values, in every argument form, forth and back."""
import itertools
import numpy as np
PID = "C16"
LEVEL = "exploration"
RULE = ("every conversion over the full product of a pressure, temperature and humidity grid (and all gas identifiers, ice thresholds, "
        "dew-point methods), for whole arrays, views, 2-D arrays, integers and single values; compared with independent formulas and with "
        "the opposite conversion; layer thickness over all level-spacing patterns of up to 4 levels plus the standard atmospheres")
NOTE = "full product grids through every conversion in every argument form, independent formulas and inverse pairs"
P = np.array([0.3, 5.0, 70.0, 226.3, 500.0, 701.5, 1013.25, 1080.0])
T = np.array([170.0, 200.0, 233.1, 250.0, 259.9, 260.1, 269.9, 270.1, 273.0, 273.14, 273.17, 285.0, 300.0, 319.0])
W = np.array([1e-6, 1e-3, 0.05, 0.9, 3.3, 12.0, 40.0])
EPS, RV, RD = 0.621970585, 461.52, 287.04
RS, G, MD = 8.314462618, 9.80665, 28.96546e-3
ASSUMPTIONS = ["pressures 0.3-1080 hPa, temperatures 170-319 K, mixing ratios 1e-6-40 g/kg, dew points -60 to 40 C, heights -400 to 11000 m",
               "temperatures exactly at an ice threshold are avoided (the documentation says 'less than', the code includes it)",
               "gas identifiers 0-30 and 99 have a mass in the library; 31 is a known finding; others must be refused"]
# integer atomic masses of the HITRAN molecules in the identifier order of AtmosphericProfiles
FORMULA = ["H2O", "CO2", "O3", "N2O", "CO", "CH4", "O2", "NO", "SO2", "NO2", "NH3", "HNO3", "OH", "HF", "HCl", "HBr", "HI", "ClO",
           "OCS", "H2CO", "HOCl", "N2", "HCN", "CH3Cl", "H2O2", "C2H2", "C2H6", "PH3", "COF2", "SF6", "H2S"]
ATOM = dict(H=1, C=12, N=14, O=16, F=19, P=31, S=32, Cl=35, Br=80, I=127)
MP = 1.6726485e-27


def amu(s):
    import re
    return sum(ATOM[a] * int(n or 1) for a, n in re.findall(r"(Cl|Br|[A-Z])(\d*)", s))


def load(tier):
    global U, R
    import pyrtlib.utils as U
    import ref.physics as R


def es_w(t):
    return R.es_water(t)


def es_i(t):
    return R.es_ice(t, 273.15)


def sat(t, tc=None):
    return es_w(t) if not tc else np.where(np.asarray(t) <= tc, es_i(t), es_w(t))


def e_of(p, w):
    return p * w / (1000 * EPS + w)


def w_of(p, e):
    return 1000 * EPS * e / (p - e)


def rho_of(w, t, p):
    return w * p / (1000 * EPS + w) / (RV * 1e-5) / t


def w_rho(r, t, p):
    v = RV * 1e-5
    return r * 1000 * EPS * v / (p / t - v * r)


def height(p, lapse=0.0065):
    rd = RS / MD
    return 288.0 / lapse * (1 - (p / 1013.25) ** (rd * lapse / G))


def press(h, lapse=0.0065):
    rd = RS / MD
    return 1013.25 * (1 - h * lapse / 288.0) ** (G / (rd * lapse))


def tv(t, w):
    q = RD / RV
    return t * (w + q) / (q * (1 + w))


def thick(p, t, w=None):
    x = t if w is None else tv(t, w)
    d = -(RS / MD) / G * 0.5 * (x[1:] + x[:-1]) * np.diff(np.log(p)) / 1e3
    return np.concatenate([[0.0], np.cumsum(d)])


def cases(tier):
    c = [dict(kind="wet", p=float(p), tc=tc) for p in P for tc in (None, 260.0, 270.0, 281.0)]
    c += [dict(kind="gas", t=float(t)) for t in T] + [dict(kind="mass"), dict(kind="height"), dict(kind="dew"), dict(kind="temp"),
                                                    dict(kind="thick", n=2), dict(kind="thick", n=3), dict(kind="thick", n=4), dict(kind="thickatm"),
                                                    dict(kind="const")]
    if tier == "thorough":
        c += [dict(kind="wet", p=float(p), tc=tc) for p in np.linspace(1, 1090, 60) for tc in (None, 235.0, 250.0, 260.0, 270.0, 280.0, 400.0)]
        c += [dict(kind="thick", n=5)]
    return c


def call(rep, name, f, args, want, tol=1e-10):
    """f on the full arrays and in every other form the caller may use; want has the broadcast shape of args."""
    args = [np.array(a, dtype=float) for a in np.broadcast_arrays(*args)]
    want = np.broadcast_to(np.asarray(want, float), args[0].shape)
    keep = [a.copy() for a in args]

    def one(tag, a, w):
        rep.close(f(*a), w, "%s %s" % (name, tag), rtol=tol, atol=0)
    rep.count("evaluations", want.size)
    one("array", args, want)
    r = tuple([slice(None, None, -1)] * want.ndim)
    one("reversed view", [a[r] for a in args], want[r])
    one("two-dimensional", [np.stack([a, a[r]]) for a in args], np.stack([want, want[r]]))
    one("column view", [np.stack([a.ravel(), a.ravel()], 1)[:, 1] for a in args], want.ravel())
    for k in (1, 2, 3, 4):
        one("%d elements" % k, [a.ravel()[:k] for a in args], want.ravel()[:k])
    for i in range(0, want.size, max(1, want.size // 12)):
        a = [float(x.ravel()[i]) for x in args]
        w = want.ravel()[i]
        one("float %s" % a, a, w)
        one("numpy scalar %s" % a, [np.float64(x) for x in a], w)
        rep.outcome("%s%.10e" % (name, w))
    rep.check(all((a == b).all() for a, b in zip(args, keep)), name + " changed its arguments")


def evaluate(case, rep):
    k = case["kind"]
    if k == "wet":
        p, tc = np.array(case["p"]), case["tc"]
        t = T[:, None]
        e = np.minimum(np.array([1e-7, 1e-3, 0.1, 1.0, 7.0, 30.0])[None, :], 0.6 * p)
        w = W[None, :]
        pp = np.broadcast_to(p, (len(T), 1))
        call(rep, "mr2e", U.mr2e, (pp, w), e_of(pp, w))
        call(rep, "e2mr", U.e2mr, (pp, e), w_of(pp, e))
        call(rep, "mr2rho", U.mr2rho, (w, t, pp), rho_of(w, t, pp))
        r = rho_of(w, t, pp)
        call(rep, "rho2mr", U.rho2mr, (r, t, pp), w + 0 * t, tol=1e-8)
        call(rep, "rho2mr formula", U.rho2mr, (r, t, pp), w_rho(r, t, pp))
        call(rep, "e2mr(mr2e)", lambda a, b: U.e2mr(a, U.mr2e(a, b)), (pp, w), w + 0 * pp)
        call(rep, "rho2mr(mr2rho)", lambda a, b, c: U.rho2mr(U.mr2rho(a, b, c), b, c), (w, t, pp), w + 0 * t, tol=1e-8)
        call(rep, "mr2rho(rho2mr)", lambda a, b, c: U.mr2rho(U.rho2mr(a, b, c), b, c), (r, t, pp), r, tol=1e-8)
        es = sat(t, tc)
        ar = (tc,) if tc else ()
        for extra in ([ar] if tc else [(), (None,)]):
            call(rep, "satvap%s" % (extra,), lambda a: U.satvap(a, *extra), (T,), sat(T, tc))
            ok = (es_w(T) < 0.9 * p) & (sat(T, tc) < 0.9 * p)
            if not ok.any():
                continue
            tt = T[ok]
            pq = np.full(tt.shape, float(p))
            call(rep, "satmix%s" % (extra,), lambda a, b: U.satmix(a, b, *extra), (pq, tt), w_of(pq, sat(tt, tc)))
            t2, p2 = tt[:, None], pq[:, None]
            ww = W[None, :]
            rh1 = 100 * e_of(p2, ww) / sat(t2, tc)
            rh2 = 100 * ww / w_of(p2, sat(t2, tc))
            call(rep, "mr2rh%s" % (extra,), lambda a, b, c: U.mr2rh(a, b, c, *extra)[0], (p2, t2, ww), rh1)
            call(rep, "mr2rh WMO%s" % (extra,), lambda a, b, c: U.mr2rh(a, b, c, *extra)[1], (p2, t2, ww), rh2)
            call(rep, "mr2rh of satmix", lambda a, b: U.mr2rh(a, b, U.satmix(a, b, *extra), *extra)[0], (pq, tt), np.full(tt.shape, 100.0))
            call(rep, "mr2rh WMO of satmix", lambda a, b: U.mr2rh(a, b, U.satmix(a, b, *extra), *extra)[1], (pq, tt), np.full(tt.shape, 100.0))
            if not tc:
                rr = np.minimum(np.array([1e-6, 1e-3, 0.1, 1.0, 12.0])[None, :], 0.5 * p * 216.7 / t2)
                ev = rr * t2 / 216.7
                call(rep, "rho2rh", lambda a, b, c: U.rho2rh(a, b, c)[0], (rr, t2, p2), 100 * ev / es_w(t2))
                call(rep, "rho2rh WMO", lambda a, b, c: U.rho2rh(a, b, c)[1], (rr, t2, p2), 100 * w_of(p2, ev) / w_of(p2, es_w(t2)))
        call(rep, "eswat_goffgratch", U.eswat_goffgratch, (T,), es_w(T))
        call(rep, "esice_goffgratch", U.esice_goffgratch, (T,), es_i(T))
        call(rep, "kgkg_to_kgm3", U.kgkg_to_kgm3, (w / 1e3, pp, t), 100 * pp / (RD * (1 + (1 - EPS) / EPS * w / 1e3) * t))
        call(rep, "virtual_temperature", U.virtual_temperature, (t, w / 1e3), tv(t, w / 1e3))
        ti = np.array([200, 250, 280, 300])
        pi = np.full(4, 900)
        wi = np.array([1, 2, 3, 20])
        rep.close(U.mr2e(pi, wi), e_of(pi, wi), "mr2e integers")
        rep.close(U.mr2rho(wi, ti, pi), rho_of(wi, ti, pi), "mr2rho integers")
        rep.close(U.satvap(ti, *ar), sat(ti, tc), "satvap integers")
        rep.close(U.mr2rh(pi, ti, wi, *ar)[0], 100 * e_of(pi, wi) / sat(ti, tc), "mr2rh integers")
        rep.sample(dict(p=float(p), Tconvert=tc, satvap=sat(T, tc)[:3].tolist()))
    elif k == "gas":
        t = case["t"]
        for m in (1e-6, 0.3, 385.0, 2.1e5):
            for p in (30.0, 5e4, 101325.0):
                call(rep, "ppmv_to_moleculesm3", U.ppmv_to_moleculesm3, (np.array([m, 2 * m, 0.0]), np.array(p), np.array([t, t, t])),
                     R.N_A * p / (R.R_GAS * t) * np.array([m, 2 * m, 0]) * 1e-6)
        h = R.hvk_of(183.31)
        for f in (1.0, 23.8, 183.31, 900.0):
            hv = R.hvk_of(f)
            call(rep, "tk2b_mod", U.tk2b_mod, (np.array(hv), T), 1 / np.expm1(hv / T), tol=1e-7)
    elif k == "mass":
        for i, s in enumerate(FORMULA):
            rep.count("evaluations")
            rep.close(U.gas_mass(i), MP * amu(s), "mass of %s" % s, rtol=1e-12)
            rep.close(U.gas_mass(np.int64(i)), MP * amu(s), "mass of %s, numpy integer" % s, rtol=1e-12)
            v = np.array([0.0, 1e-3, 0.3, 380.0, 2.09e5])
            call(rep, "ppmv2gkg %s" % s, lambda a: U.ppmv2gkg(a, i), (v,), v * 1e-3 * amu(s) / 28.9402753669)
            rep.close(U.ppmv2gkg(np.array([1, 200, 30000]), i), np.array([1, 200, 30000]) * 1e-3 * amu(s) / 28.9402753669, "ppmv2gkg integers")
        rep.close(U.gas_mass(99), MP * 28.9402753669, "mass of air", rtol=1e-12)
        # CCl3F in the library's identifiers; the library's table ends with HCOOH there
        m = U.gas_mass(31)
        rep.close(m, MP * (12 + 3 * 35 + 19), "mass of CCl3F", rtol=1e-12, known_key="gas-mass-31" if m == MP * 46 else None)
        for g in list(range(32, 99)) + [-1, -99, 100, 1000]:
            rep.count("evaluations")
            try:
                m = U.gas_mass(g)
            except Exception:
                continue
            rep.bad("gas identifier %d has no mass but got %r" % (g, m))
    elif k == "height":
        h = np.concatenate([np.linspace(-400, 11000, 115), [0.0, 1.0, -1.0]])
        # the temperature falls by 6.5 K/km; with the known finding it rises, and the formulas are otherwise the same
        wrong = np.isclose(U.pressure_to_height(850.0), height(850.0, -0.0065), rtol=1e-9) and np.isclose(U.height_to_pressure(5000.0), press(5000.0, -0.0065), rtol=1e-9)
        rep.close(U.pressure_to_height(850.0), height(850.0), "height of 850 hPa in the standard atmosphere", rtol=1e-9, known_key="lapse-rate-sign" if wrong else None)
        rep.close(U.height_to_pressure(5000.0), press(5000.0), "pressure at 5 km in the standard atmosphere", rtol=1e-9, known_key="lapse-rate-sign" if wrong else None)
        sign = -0.0065 if wrong else 0.0065
        call(rep, "height_to_pressure", U.height_to_pressure, (h,), press(h, sign))
        pr = press(h, sign)
        call(rep, "pressure_to_height", U.pressure_to_height, (pr,), height(pr, sign), tol=1e-7)
        rep.close(U.pressure_to_height(U.height_to_pressure(h)), h, "height restored", rtol=1e-9, atol=1e-7)
        rep.close(U.height_to_pressure(U.pressure_to_height(pr)), pr, "pressure restored", rtol=1e-11)
        rep.close(U.pressure_to_height(1013.25), 0.0, "sea level", atol=1e-9)
        rep.check((np.diff(U.height_to_pressure(np.arange(0.0, 11000, 50))) < 0).all(), "pressure decreases with height")
        rep.close(U.height_to_pressure(np.array([0, 1000, 5000])), press(np.array([0, 1000, 5000.0]), sign), "integer heights")
        rep.close(U.pressure_to_height(np.array([1000, 500])), height(np.array([1000, 500.0]), sign), "integer pressures")
    elif k == "dew":
        td = np.array([-60.0, -30.0, -10.0, -0.1, 0.0, 5.0, 17.0, 39.0])
        t = np.array([-55.0, -20.0, -0.1, 0.0, 0.1, 10.0, 25.0, 40.0])
        a, b = td[:, None], t[None, :]
        for m, ice, x, y, base in [("arm", False, 17.625, 243.04, np.e), ("arm", None, 17.625, 243.04, np.e)] + \
                [("other", False, 7.5, 237.3, 10.0), ("other", True, 9.5, 265.5, 10.0), ("magnus", True, 9.5, 265.5, 10.0), ("magnus", False, 7.5, 237.3, 10.0)]:
            w = base ** (x * a / (y + a)) / base ** (x * b / (y + b))
            kw = dict(method=m) if ice is None else dict(method=m, ice=ice)
            call(rep, "dewpoint2rh %s" % kw, lambda c, d: U.dewpoint2rh(c, d, **kw), (a, b), w)
            rep.close(U.dewpoint2rh(td, td, **kw), np.ones(len(td)), "saturated when dew point equals temperature", rtol=1e-12)
            rep.close(U.dewpoint2rh(np.array([1, 5]), np.array([4, 5]), **kw), base ** (x * np.array([1, 5]) / (y + np.array([1, 5]))) /
                      base ** (x * np.array([4, 5]) / (y + np.array([4, 5]))), "integers", rtol=1e-10)
        rep.close(U.dewpoint2rh(a, b), np.exp(17.625 * a / (243.04 + a)) / np.exp(17.625 * b / (243.04 + b)), "default method")
    elif k == "temp":
        c = np.concatenate([np.linspace(-100, 60, 161), [-273.15, 0.0]])
        for name, f, s in (("to_kelvin", U.to_kelvin, 1), ("to_celsius", U.to_celsius, -1)):
            x = c if s > 0 else c + 273.15
            for tag, v in (("array", x), ("float", 12.5), ("two-dimensional", np.stack([x, x])), ("reversed", x[::-1]), ("integers", np.arange(-50, 50))):
                rep.count("evaluations", np.size(v))
                g = np.asarray(f(v), float)
                w = np.asarray(v) + s * 273.15
                wrong = g.shape == w.shape and np.allclose(g, np.asarray(v) + s * 273.25, rtol=0, atol=1e-9)
                rep.close(g, w, "%s %s" % (name, tag), rtol=0, atol=1e-9, known_key="celsius-offset-273.25" if wrong else None)
        rep.close(U.to_celsius(U.to_kelvin(c)), c, "Celsius restored", rtol=0, atol=1e-9)
        rep.close(U.to_kelvin(U.to_celsius(c)), c, "Kelvin restored", rtol=0, atol=1e-9)
        rep.outcome("t")
    elif k == "thick":
        # every pattern of level ratios, temperatures and humidities
        n = case["n"]
        rat = [0.999, 0.9, 0.5]
        tem = [220.0, 300.0] if n > 2 else [200.0, 250.0, 300.0]
        mrs = [0.0, 0.02]
        for r in itertools.product(rat, repeat=n - 1):
            p = 1000.0 * np.concatenate([[1.0], np.cumprod(r)])
            for t in itertools.product(tem, repeat=n):
                t = np.array(t)
                rep.count("evaluations")
                rep.close(U.atmospheric_tickness(p, t), thick(p, t), "thickness p=%s t=%s" % (p, t), atol=1e-13)
                for m in itertools.product(mrs, repeat=n):
                    m = np.array(m)
                    w = thick(p, t, m)
                    rep.count("evaluations")
                    g = U.atmospheric_tickness(p, t, m)
                    rep.close(g, w, "thickness p=%s t=%s mr=%s" % (p, t, m), atol=1e-13)
                    if n > 2 and m[0] == m[-1]:
                        a, b = U.atmospheric_tickness(p[:2], t[:2], m[:2])[-1], U.atmospheric_tickness(p[1:], t[1:], m[1:])[-1]
                        rep.close(a + b, g[-1], "thickness must be additive", rtol=1e-10)
                rep.outcome("%.9e" % w[-1])
            q = p[::-1].copy()
            rep.close(U.atmospheric_tickness(q, t), thick(q, t), "thickness downwards", atol=1e-13)
        rep.close(U.atmospheric_tickness(p[:1], t[:1]), [0.0], "single level")
    elif k == "thickatm":
        for name in R.PROFILES:
            a = R.profile(name)
            p, t, m = a[:, 1], a[:, 3], a[:, 4] * 1e-6 * EPS
            for j in range(1, 51, 7):
                rep.count("evaluations")
                rep.close(U.atmospheric_tickness(p[:j], t[:j], m[:j]), thick(p[:j], t[:j], m[:j]), "%s first %d levels" % (name, j), atol=1e-12)
                rep.close(U.atmospheric_tickness(p[::j], t[::j]), thick(p[::j], t[::j]), "%s every %d. level" % (name, j), atol=1e-12)
            g = U.atmospheric_tickness(p, t, m)
            rep.close(g[:20], a[:20, 0], "%s heights" % name, rtol=0.01, atol=0.02)
            rep.outcome("%.9e" % g[-1])
    else:
        want = {'avogadro': 6.022140857e+23, 'boltzmann': 1.380658e-23, 'EarthRadius': 6370.949, 'gravity': 9.80665, 'light': 299792458.0,
                'Np2dB': 10 / np.log(10), 'planck': 6.6260755e-34, 'Rdry': 287.04, 'Rwatvap': 461.52, 'Tcosmicbkg': 2.728, 'R': 8.31446261815324}
        names = U.constants()
        rep.check(sorted(names) == sorted(want), lambda: "constants listed: %s" % names)
        for n, v in want.items():
            for _ in range(2):
                rep.count("evaluations")
                g = U.constants(n)
                rep.close(g[0], v, "constant " + n, rtol=1e-12)
                rep.check(isinstance(g[1], str) and g[1].startswith("["), "unit of " + n)
                try:
                    g[0] = 0.0      # callers may change what they got
                except TypeError:
                    pass
            rep.outcome("%s%r" % (n, v))
        for b in ("Avogadro", "x", "rdry", " R"):
            try:
                U.constants(b)
            except ValueError:
                continue
            rep.bad("unknown constant %r accepted" % b)
