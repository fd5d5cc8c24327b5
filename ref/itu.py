"""Reference atmospheres of Recommendation ITU-R P.835-6, Annex 1, written from its tables, one height at a time."""
import math
from ref.physics import es_water


def _hp(h):
    return 6356.766 * h / (6356.766 + h)


def std_t(h):
    x = _hp(h)
    for top, base, t0, lapse in ((11, 0, 288.15, -6.5), (20, 11, 216.65, 0.0), (32, 20, 216.65, 1.0), (47, 32, 228.65, 2.8),
                                 (51, 47, 270.65, 0.0), (71, 51, 270.65, -2.8), (84.852, 71, 214.65, -2.0)):
        if x <= top:
            return t0 + lapse * (x - base)
    if h <= 91:
        return 186.8673
    return 263.1905 - 76.3232 * math.sqrt(1 - ((h - 91) / 19.9429) ** 2)


def std_p(h):
    x = _hp(h)
    g = 34.1632
    if x <= 11:
        return 1013.25 * (288.15 / (288.15 - 6.5 * x)) ** (-g / 6.5)
    if x <= 20:
        return 226.3226 * math.exp(-g * (x - 11) / 216.65)
    if x <= 32:
        return 54.74980 * (216.65 / (216.65 + (x - 20))) ** g
    if x <= 47:
        return 8.680422 * (228.65 / (228.65 + 2.8 * (x - 32))) ** (g / 2.8)
    if x <= 51:
        return 1.109106 * math.exp(-g * (x - 47) / 270.65)
    if x <= 71:
        return 0.6694167 * (270.65 / (270.65 - 2.8 * (x - 51))) ** (-g / 2.8)
    if x <= 84.852:
        return 0.03956649 * (214.65 / (214.65 - 2.0 * (x - 71))) ** (-g / 2.0)
    return math.exp(95.571899 + h * (-4.011801 + h * (6.424731e-2 + h * (-4.789660e-4 + h * 1.340543e-6))))


def std_rho(h, h0=2.0, rho0=7.5):
    return rho0 * math.exp(-h / h0)


def std_e(h, h0=2.0, rho0=7.5):
    return std_rho(h, h0, rho0) * std_t(h) / 216.7


E = math.exp
# zone/season -> ([(upper limit, exclusive except the last, temperature)], pressure polynomial, P10, P72, decay, decay72, vapour limit, vapour)
Z = {
 "low": ([(17, lambda h: 300.4222 - 6.3533 * h + 0.005886 * h * h), (47, lambda h: 194 + (h - 17) * 2.533), (52, lambda h: 270.0),
          (80, lambda h: 270 - (h - 52) * 3.0714), (101, lambda h: 184.0)],
         (1012.0306, -109.0338, 3.6316), 284.8526, 0.0313660, 0.147, 0.165, 15,
         lambda h: 19.6542 * E(-0.2313 * h - 0.1122 * h ** 2 + 0.01351 * h ** 3 - 0.0005923 * h ** 4)),
 "mid summer": ([(13, lambda h: 294.9838 - 5.2159 * h - 0.07109 * h * h), (17, lambda h: 215.15), (47, lambda h: 215.15 * E((h - 17) * 0.008128)),
                 (53, lambda h: 275.0), (80, lambda h: 275 + 20 * (1 - E((h - 53) * 0.06))), (101, lambda h: 175.0)],
                (1012.8186, -111.5569, 3.8646), 283.7096, 0.03124022, 0.147, 0.165, 15,
                lambda h: 14.3542 * E(-0.4174 * h - 0.02290 * h ** 2 + 0.001007 * h ** 3)),
 "mid winter": ([(10, lambda h: 272.7241 - 3.6217 * h - 0.1759 * h * h), (33, lambda h: 218.0), (47, lambda h: 218 + (h - 33) * 3.3571),
                 (53, lambda h: 265.0), (80, lambda h: 265 - (h - 53) * 2.0370), (101, lambda h: 210.0)],
                (1018.8627, -124.2954, 4.8307), 258.9787, 0.02851702, 0.147, 0.155, 10,
                lambda h: 3.4742 * E(-0.2697 * h - 0.03604 * h ** 2 + 0.0004489 * h ** 3)),
 "high summer": ([(10, lambda h: 286.8374 - 4.7805 * h - 0.1402 * h * h), (23, lambda h: 225.0), (48, lambda h: 225 * E((h - 23) * 0.008317)),
                  (53, lambda h: 277.0), (79, lambda h: 277 - (h - 53) * 4.0769), (101, lambda h: 171.0)],
                 (1008.0278, -113.2494, 3.9408), 269.6138, 0.04582115, 0.140, 0.165, 15,
                 lambda h: 8.988 * E(-0.3614 * h - 0.005402 * h ** 2 - 0.001955 * h ** 3)),
 "high winter": ([(8.5, lambda h: 257.4345 + 2.3474 * h - 1.5479 * h ** 2 + 0.08473 * h ** 3), (30, lambda h: 217.5), (50, lambda h: 217.5 + (h - 30) * 2.125),
                  (54, lambda h: 260.0), (101, lambda h: 260 - (h - 54) * 1.667)],
                 (1010.8828, -122.2411, 4.554), 243.8718, 0.02685355, 0.147, 0.150, 10,
                 lambda h: 1.2319 * E(0.07481 * h - 0.0981 * h ** 2 + 0.00281 * h ** 3)),
}


def zone(lat, season):
    lat = abs(lat)
    if lat < 22:
        return Z["low"]
    return Z[("mid " if lat < 45 else "high ") + season]


def temperature(lat, h, season):
    for top, f in zone(lat, season)[0]:
        if h < top:
            return f(h)


def pressure(lat, h, season):
    _, c, p10, p72, d, d72, _, _ = zone(lat, season)
    if h <= 10:
        return c[0] + c[1] * h + c[2] * h * h
    return p10 * E(-d * (h - 10)) if h <= 72 else p72 * E(-d72 * (h - 72))


def rho(lat, h, season):
    z = zone(lat, season)
    return z[7](h) if h <= z[6] else 0.0


def season_of(lat, month):
    if abs(lat) <= 20:
        return "standard"
    warm, cold = ((6, 7, 8), (12, 1, 2)) if lat > 0 else ((12, 1, 2), (6, 7, 8))
    return "summer" if month in warm else "winter" if month in cold else "standard"


def state(lat, month, h):
    """p, T, relative humidity (fraction) of the reference atmosphere at height h."""
    s = season_of(lat, month)
    if s == "standard":
        p, t, r = std_p(h), std_t(h), std_rho(h)
    else:
        p, t, r = pressure(lat, h, s), temperature(lat, h, s), rho(lat, h, s)
    e = r * t / 216.7
    return p, t, e / float(es_water(t))
