"""Reference model of the radiative transfer chain, written independently of pyrtlib (array expressions over
all lines at once, own copy of the coefficient tables).  No import of the code under test."""
import os
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))


def _read(name):
    """Everything at once: an open archive must not be shared by forked workers."""
    with np.load(os.path.join(HERE, "data", name)) as a:
        return {k: a[k] for k in a.files}


_L = _read("lines.npz")
_P = _read("profiles.npz")

ORDER = {"H2O": [str(x) for x in _L["order|h2o"]], "O2": [str(x) for x in _L["order|o2"]],
         "O3": [str(x) for x in _L["order|o3"]]}
N2_MODELS = ["R98", "R03", "R16", "R17", "R18", "R19", "R19SD", "R20", "R20SD", "R21SD", "R22", "R22SD",
             "R23", "R23SD", "R24", "MWL24"]
LIQ_MODELS = ["R98", "R03", "R16", "R17", "R19", "R19SD", "R20", "R22SD", "R23", "R23SD", "R24"]
SD = ["R19SD", "R20SD", "R21SD", "R22SD", "R23SD", "R24", "MWL24"]
PROFILES = ["tropical", "midlatitude_summer", "midlatitude_winter", "subarctic_summer", "subarctic_winter",
            "us_standard"]

LN10_10 = np.log(10.0) / 10.0
H_PLANCK, K_BOLTZ, T_COSMIC, C_LIGHT = 6.6260755e-34, 1.380658e-23, 2.728, 299792458.0
R_EARTH, RV, RD, N_A, R_GAS = 6370.949, 461.52, 287.04, 6.022140857e23, 8.31446261815324


def table(sp, model, name):
    return np.array(_L["%s|%s|%s" % (sp, model, name)])


def profile(name):
    return np.array(_P[name])


# ------------------------------------------------------------------ line lists
def h2o_lines(m):
    a = table("h2o", m, "mtx")
    c = table("h2o", m, "ctr")
    d = dict(fl=a[:, 1], s1=a[:, 2], b2=a[:, 3], w0=a[:, 4] / 1e3, x=a[:, 5],
             reftline=float(table("h2o", m, "reftline")),
             reftcon=c[0], cf=c[1], xcf=c[2], cs=c[3], xcs=c[4])
    if m in ("R03", "R16", "R17"):
        d.update(sr=a[:, 6], w0s=a[:, 7] / 1e3, xs=a[:, 8])
    else:
        d.update(w0s=a[:, 6] / 1e3, xs=a[:, 7])
    if m not in ("R98", "R03", "R16", "R17"):
        d.update(sh=a[:, 8] / 1e3, xh=a[:, 9], shs=a[:, 10] / 1e3, xhs=a[:, 11])
    if m not in ("R98", "R03", "R16", "R17", "R18"):
        d.update(aair=a[:, 12], aself=a[:, 13])
    if m in SD:
        d["w2"] = a[:, 14] / 1e3
        if m in ("R19SD", "R20SD"):
            d["w2s"] = a[:, 15] / 1e3
        else:
            d.update(xw2=a[:, 15], w2s=a[:, 16] / 1e3, xw2s=a[:, 17], d2=a[:, 18] / 1e3, d2s=a[:, 19] / 1e3)
    if m == "R20SD":
        d["d2air"] = float(table("h2o", m, "d2air"))
        d["d2self"] = float(table("h2o", m, "d2self"))
    return d


O2_V = ("R98", "R03", "R17", "R18", "R19", "R19SD")


def o2_lines(m):
    n = ["f", "s300", "be", "wb300", "x", "w300"]
    if m in O2_V:
        n += ["v", "y300"]
    elif m in ("R23", "R24"):
        n += ["y300", "y1", "g0", "g1", "dnu0", "dnu1"]
    else:
        n += ["y0", "y1", "g0", "g1", "dnu0", "dnu1"]
    d = {k: table("o2", m, k) for k in n}
    d["wb300"] = float(d["wb300"])
    d["x"] = float(d["x"])
    return d


def o3_lines(m):
    a = table("o3", m, "mtx")
    return dict(fl=a[:, 1], s1=a[:, 2], b=a[:, 3], w=a[:, 4] / 1e3, x=a[:, 5], sr=a[:, 6],
                reftline=float(table("o3", m, "reftline")))


_HA = np.array([0.564189583562615, 5.912626209773153, 30.180142196210589, 93.155580458138441,
                181.928533092181549, 214.382388694706425, 122.607931777104326])
_HB = np.array([1.0, 10.479857114260399, 53.992906912940207, 170.354001821091472, 348.703917719495792,
                457.334478783897737, 352.730625110963558, 122.607931773875350])


def hui(z):
    """w(z) = exp(-z^2) erfc(-iz) by the sixth-order rational approximation of Hui et al."""
    z = np.asarray(z, dtype=complex)
    zh = np.abs(z.imag) - 1j * z.real
    w = np.polyval(_HA, zh) / np.polyval(_HB, zh)
    with np.errstate(all="ignore"):
        return np.where(z.imag >= 0, w, 2 * np.exp(-z * z) - np.conj(w))


def _sd_shape(xc, w2c):
    """Speed-dependent resonant shape 2(1 - sqrt(pi) s w(is))/W2 with s = sqrt(xc)."""
    s = np.sqrt(xc)
    return np.real(2.0 * (1.0 - 1.77245385090551603 * s * hui(1j * s)) / w2c)


# ------------------------------------------------------------------ water vapour
def selfcont_mtckd(f, t):
    s = np.array([2.877e-21, 2.855e-21, 2.731e-21, 2.49e-21, 2.178e-21, 1.863e-21])
    n = np.array([6.413, 6.414, 6.275, 6.049, 5.789, 5.557])
    a = 6.532e12 * s * (296.0 / t) ** (n + 3.0)
    g = np.concatenate([[a[1]], a])
    u = f / 299.792458
    j = min(int(u), 4)
    p = u - j
    c = (3 - 2 * p) * p * p
    b = 0.5 * p * (1 - p)
    return -g[j] * b * (1 - p) + g[j + 1] * (1 - c + b * p) + g[j + 2] * (c + b * (1 - p)) - g[j + 3] * b * p


def selfcont_mwl24(f, t):
    coef = [-7.804242e6, 8.345651e4, -4.212794e2, 1.242946, -2.409822e-3, 3.017768e-6, -2.518957e-9,
            1.350628e-12, -4.134191e-16, 5.530774e-20]
    bt = -(100.0 / t) ** 6 * np.polyval(coef[::-1], t)
    kbd_atm = 4.7856e-4 * np.exp(1669.8 / t - 5.10485e-3 * t)
    kmd = ((bt - 30.5) / (82.05746 * t) - kbd_atm) / 1013.25
    kbd = kbd_atm / 1013.25
    bd = (5.55e-8 / (434.8 ** 2 + (f - 219.5) ** 2) + 4.93e-10 / (21.06 ** 2 + f * f) + 1.34e-14) * (268.0 / t) ** 10
    mono = 1e-13 * (4.06 + 7.12e-3 * f) / 1013.25
    md = kmd * (mono * (1 - 0.7) * (266.0 / t) ** 2.9 + 0.7 * bd / kbd)
    fw = 8.5e-15 * f ** 2.2 * (296.0 / t) ** 1.5
    return 1e5 * ((bd + md) * f * f + fw)


def h2o(m, pdry_kpa, theta, e_kpa, f, L=None):
    """(line, continuum) parts in ppm for scalar arguments."""
    L = L or h2o_lines(m)
    t = 300.0 / theta
    rv0 = 0.01 * 8.31451 / 18.01528
    rho = 10.0 * e_kpa / (rv0 * t)
    if rho == 0:
        return 0.0, 0.0
    p = 10.0 * (pdry_kpa + e_kpa)
    if m in ("R98", "R03", "R16", "R17"):
        pv = rho * t / 217.0
    elif m in ("R22SD", "R23SD", "R24", "MWL24"):
        pv = RV * 1e-5 * rho * t
    else:
        pv = rho * t / 216.68
    pd = p - pv
    tic = L["reftcon"] / t
    ti = L["reftline"] / t
    if m in ("R98", "R03"):
        con = pv * f * f * (5.43e-10 * pd * tic ** 3 + 1.8e-8 * pv * tic ** 7.5)
    elif m == "MWL24":
        con = selfcont_mwl24(f, t) * pv ** 2 + 7.1e-10 * (300.0 / t) ** 4.4 * f ** 1.96 * pd * pv
    elif m in ("R23SD", "R24"):
        cs = L["cs"] * ti ** L["xcs"] if L["cs"] > 0 else selfcont_mtckd(f, t)
        con = (L["cf"] * ti ** L["xcf"] * pd + cs * pv) * pv * f * f
    else:
        con = pv * f * f * (L["cf"] * pd * tic ** L["xcf"] + L["cs"] * pv * tic ** L["xcs"])
    wf = L["w0"] * pd * ti ** L["x"]
    w = wf + L["w0s"] * pv * ti ** L["xs"]
    if m == "R98":
        sh = np.zeros_like(w)
    elif m == "R03":
        sh = L["sr"] * w
    elif m in ("R16", "R17"):
        sh = L["sr"] * wf
    elif m == "R18":
        sh = L["sh"] * pd * ti ** L["xh"] + L["shs"] * pv * ti ** L["xhs"]
    else:
        lt = np.log(ti)
        sh = L["sh"] * pd * (1 - L["aair"] * lt) * ti ** L["xh"] + \
            L["shs"] * pv * (1 - L["aself"] * lt) * ti ** L["xhs"]
    s = L["s1"] * ti ** 2.5 * np.exp(L["b2"] * (1 - ti))
    base = w / (562500.0 + w * w)
    d = np.array([f - L["fl"] - sh, f + L["fl"] + sh])
    inside = np.abs(d) <= 750.0 if m in ("R98", "R03", "R16", "R17") else np.abs(d) < 750.0
    res = np.where(inside, w / (d * d + w * w) - base, 0.0)
    if m in SD:
        if m in ("R19SD", "R20SD"):
            w2 = L["w2"] * pd + L["w2s"] * pv
        else:
            w2 = np.where(L["w2"] > 0, L["w2"] * pd * ti ** L["xw2"] + L["w2s"] * pv * ti ** L["xw2s"], 0.0)
        if m == "R19SD":
            d2 = np.zeros_like(w2)
        elif m == "R20SD":
            d2 = np.zeros_like(w2)
            d2[1] = L["d2air"] * pd + L["d2self"] * pv
        else:
            d2 = L["d2"] * pd + L["d2s"] * pv
        k = (w2 > 0) & (np.abs(d[0]) < 10 * w)
        if k.any():
            w2c = w2[k] - 1j * d2[k]
            xc = (w[k] - 1.5 * w2[k] + 1j * (d[0][k] + 1.5 * d2[k])) / w2c
            res[0][k] = _sd_shape(xc, w2c) - base[k]
    summ = np.sum(s * (res[0] + res[1]) * (f / L["fl"]) ** 2)
    mass = 2.9915075e-23
    if m in ("R22SD", "R23SD", "R24"):
        lin = 1e-10 * rho * summ / (np.pi * mass)
    else:
        lin = 3.1831e-5 * (3.335e16 if m in ("R98", "R03", "R16") else 3.344e16) * rho * summ
    u = LN10_10 * 0.182 * f
    return lin / u, con / u


# ------------------------------------------------------------------ oxygen
def o2(m, pdry_kpa, theta, e_kpa, f, L=None, published=False):
    """published: R98 and R03 widen only the 118-GHz line by their special width (known finding C10 oxygen-width);
    otherwise all lines, as the library does."""
    L = L or o2_lines(m)
    t = 300.0 / theta
    th = 300.0 / t
    th1 = th - 1.0
    rho = 10.0 * e_kpa / (0.01 * 8.314510 / 18.01528 * t)
    p = 10.0 * (pdry_kpa + e_kpa)
    if m in ("R98", "R03", "R16", "R17", "R18"):
        pv = rho * t / 217.0
    elif m in ("R22", "R23", "R24"):
        pv = 4.615228e-3 * rho * t
    else:
        pv = rho * t / 216.68
    pd = p - pv
    b = th ** L["x"]
    if m == "R98":
        den = 1e-3 * (pd + 1.1 * pv) * th
    elif m == "R03":
        den = 1e-3 * (pd * th ** 0.9 + 1.1 * pv * th)
    elif m == "R16":
        den = 1e-3 * (pd * b + 1.1 * pv * th)
    else:
        den = 1e-3 * (pd * b + 1.2 * pv * th)
    wide = den
    if published and m in ("R98", "R03"):
        den = 1e-3 * (pd * b + 1.1 * pv * th)
    wnr = L["wb300"] * den
    nonres = 1.584e-17 * f * f * wnr / (th * (f * f + wnr * wnr))
    F, W = L["f"], L["w300"] * np.where(np.arange(len(L["f"])) == 0, wide, den)
    S = L["s300"] * np.exp(-L["be"] * th1)
    n = len(F)
    if m in ("R98", "R03"):
        y = 1e-3 * p * b * (L["y300"] + L["v"] * th1)
        summ = np.sum(S * (f / F) ** 2 * ((W + (f - F) * y) / ((f - F) ** 2 + W * W) +
                                          (W - (f + F) * y) / ((f + F) ** 2 + W * W)))
    elif m in ("R17", "R18", "R19", "R19SD"):
        y = den * (L["y300"] + L["v"] * th1)
        summ = np.sum(S * (f / F) ** 2 * ((W + (f - F) * y) / ((f - F) ** 2 + W * W) +
                                          (W - (f + F) * y) / ((f + F) ** 2 + W * W)))
        if m in ("R19", "R19SD"):
            summ += nonres
    elif m in ("R16", "R20", "R20SD", "R22"):
        y = den * (L["y0"] + L["y1"] * th1)
        fc = F + den * den * (L["dnu0"] + L["dnu1"] * th1)
        g = 1 + den * den * (L["g0"] + L["g1"] * th1)
        summ = np.sum(S * (f / F) ** 2 * ((W * g + (f - fc) * y) / ((f - fc) ** 2 + W * W) +
                                          (W * g - (f + fc) * y) / ((f + fc) ** 2 + W * W)))
        if m != "R16":
            summ += nonres
    else:
        G = L["g0"] + L["g1"] * th1
        band = slice(1, 38)
        if m == "R23":
            p1 = 0.99 * den
            A = S / F ** 2
            y = p1 * (L["y300"] + L["y1"] * th1)
            g = np.ones(n)
            off = np.sum(A[band] * G[band]) / np.sum(A[band])
            g[band] = 1 + p1 * p1 * (G[band] - off)
            nr = 1.584e-17 / th * wnr / (f * f + wnr * wnr)
        else:
            p1 = den
            A = S * th / F ** 2
            Y = 0.99 * (L["y300"] + L["y1"] * th1)
            bias = (1.584e-17 * L["wb300"] + np.sum(2 * A[:38] * (L["w300"][:38] + Y[:38] * F[:38]))) / \
                (2 * np.sum(A[band]))
            Y[band] -= bias / F[band]
            G[band] -= A[band] * np.sum(A[band] * G[band]) / np.sum(A[band] ** 2)
            y = p1 * Y
            g = np.ones(n)
            g[band] = 1 + p1 * p1 * G[band]
            nr = 1.584e-17 * wnr / (f * f + wnr * wnr)
        fc = F + p1 * p1 * (L["dnu0"] + L["dnu1"] * th1)
        s1 = (W * g + (f - fc) * y) / ((f - fc) ** 2 + W * W)
        s2 = (W * g - (f + fc) * y) / ((f + fc) ** 2 + W * W)
        if abs(f - fc[0]) < 10 * W[0]:
            w2 = 0.076 * W[0]
            xs = np.sqrt((W[0] - 1.5 * w2 + 1j * (f - fc[0])) / w2)
            s1[0] = np.real((1 + 1j * y[0]) * 2 * (1 - 1.77245385090551603 * xs * hui(1j * xs)) / w2)
        term = A * (s1 + s2)
        if m == "R23":
            summ = max(nr + np.sum(term[:38]), 0.0) + np.sum(term[38:])
        else:
            summ = nr + np.sum(term)
    if m in ("R98", "R03"):
        k = 5.034e11 * summ * pd * th ** 3 / 3.14159
        cont = 1.6e-17 * f * f * wnr / (th * (f * f + wnr * wnr)) * 5.034e11 * pd * th ** 3 / 3.14159
        if m == "R03":
            k = max(k, 0.0)
    else:
        k = 1.6097e11 * summ * pd * (f * f * th ** 3 if m == "R23" else (f * th) ** 2 if m == "R24" else th ** 3)
        k = max(k, 0.0)
        if m in ("R20", "R20SD", "R22"):
            k *= 1.004
        cont = nonres * 1.6097e11 * pd * th ** 3 if m in ("R16", "R17", "R18") else 0.0
    u = LN10_10 * 0.182 * f
    return k / u, cont / u


# ------------------------------------------------------------------ nitrogen, ozone, liquid, ice
def n2(m, t, pdry_mb, f):
    th = 300.0 / t
    if m == "MWL24":
        x, xr = 108.0 / (0.6950354549 * t), 108.0 / (0.6950354549 * 300.0)
        pot = (np.exp(x) - 1 - x) / (np.exp(xr) - 1 - xr)
        m0 = np.polyval([1.8845e-10, 1.6182e-7, -0.0005385, 1.4359], f)
        aa = np.polyval([-5.738e-10, 1.131e-6, -0.0005165, 0.07988], f)
        t1 = (1 + 0.1510 / (1 + ((f - 358.0) / 127.0) ** 2)) / (1 + ((f - 44.0) / 568.0) ** 2)
        spec = 1.754e-18 * 0.5 * (1 + 1.033 * t1 + 0.1420 * np.exp(-(f / 92.0 - 1) ** 2))
        return 0.84e5 * spec * th ** (m0 + aa * np.log(th)) * pot * (pdry_mb * 0.7500616827) ** 2 * f * f
    fd = 0.5 + 0.5 / (1 + (f / 450.0) ** 2)
    if m == "R98":
        return 6.4e-14 * pdry_mb ** 2 * f * f * th ** 3.55
    if m in ("R16", "R17", "R18", "R19", "R19SD"):
        return 1.34 * 6.5e-14 * fd * pdry_mb ** 2 * f * f * th ** 3.6
    if m == "R03":
        return 1.29 * 6.5e-14 * fd * pdry_mb ** 2 * f * f * th ** 3.6
    return 9.95e-14 * fd * pdry_mb ** 2 * f * f * th ** 3.22


def o3(m, t, p, f, n, L=None):
    if n == 0:
        return 0.0
    L = L or o3_lines(m)
    ti = L["reftline"] / t
    # the list is searched in ascending order up to the first line more than 1 GHz above f
    above = np.nonzero(L["fl"] > f + 1.0)[0]
    end = above[0] if len(above) else len(L["fl"])
    k = np.nonzero(L["fl"][:end] >= f - 1.0)[0]
    F = L["fl"][k]
    wc = L["w"][k] * p * ti ** L["x"][k]
    s = L["s1"][k] * np.exp(L["b"][k] * (1 - ti))
    q = (1 - np.exp(-1008.0 / t)) * ti ** 2.5 * 1e-6 * n
    if m == "R22":
        bd = 0.62065e-7 * F * np.sqrt(t)
        return 0.56419e-4 * q * np.sum(s * np.real(hui((F - f) / bd + 1j * wc / bd)) / bd)
    w = 0.5346 * wc + np.sqrt(0.2166 * wc * wc + 0.6931 * 3.85e-15 * t * F * F)
    return 3.183e-5 * q * np.sum(s * (f / F) ** 2 * w / ((f - F) ** 2 + w * w))


def dielectric_2015(f, t):
    tc = t - 273.15
    th = 300.0 / t
    st = -43.7527 * th ** 0.05 + 299.504 * th ** 1.47 - 399.364 * th ** 2.11 + 221.327 * th ** 2.31
    z = 1j * f
    eps = st - 80.69715 * np.exp(-tc / 226.45) * z / (1164.023 * np.exp(-651.4728 / (tc + 133.07)) + z)
    dl = 4.008724 * np.exp(-tc / 103.05)
    f1 = 10.46012 + 0.1454962 * tc + 0.063267156 * tc ** 2 + 0.00093786645 * tc ** 3
    z1, z2 = (-0.75 + 1j) * f1, -4500.0 + 2000.0j
    cn = np.log(z2 / z1)
    a = dl / 2 * np.log((z - z2) / (z - z1)) / cn
    b = dl / 2 * np.log((z - np.conj(z2)) / (z - np.conj(z1))) / np.conj(cn)
    return eps + a + b - dl


def liquid(m, w, f, t):
    if w <= 0:
        return 0.0
    if m in ("R98", "R03"):
        d = 1 - 300.0 / t
        e0 = 77.66 - 103.3 * d
        e1 = 0.0671 * e0
        fp = 20.1 * np.exp(7.88 * d) if m == "R03" else 20.2 + 146.4 * d + 316.0 * d * d
        eps = (e0 - e1) / (1 + 1j * f / fp) + (e1 - 3.52) / (1 + 1j * f / (39.8 * fp)) + 3.52
    else:
        eps = dielectric_2015(f, t)
    return -0.06286 * f * w * ((eps - 1) / (eps + 2)).imag


def ice_abs(f, d):
    wave = 100.0 * C_LIGHT / (1e9 * f)
    return np.where(np.asarray(d) > 0, 8.18645 / wave * np.asarray(d) * 0.000959553 * LN10_10, 0.0)


# ------------------------------------------------------------------ moisture, refractivity, geometry
def es_water(t):
    y = 373.16 / t
    return 10 ** (-7.90298 * (y - 1) + 5.02808 * np.log10(y) - 1.3816e-7 * (10 ** (11.344 * (1 - 1 / y)) - 1) +
                  8.1328e-3 * (10 ** (-3.49149 * (y - 1)) - 1) + np.log10(1013.246))


def es_ice(t, t0=273.16):
    y = t0 / t
    return 10 ** (-9.09718 * (y - 1) - 3.56654 * np.log10(y) + 0.876793 * (1 - 1 / y) + np.log10(6.1071))


def vapor(t, rh, ice=False):
    t = np.asarray(t, float)
    es = es_water(t)
    if ice:
        es = np.where(t < 263.16, es_ice(t), es)
    e = np.asarray(rh) * es
    return e, e / (RV * 1e-5 * t)


def refractivity(p, t, e):
    p, t, e = (np.asarray(a, float) for a in (p, t, e))
    pa = p - e
    tc = t - 273.16
    zd = 1 + pa * (5.79e-7 * (1 + 0.52 / t) - 9.4611e-4 * tc / t ** 2)
    zw = 1 + 1650.0 * e / t ** 3 * (1 - 0.01317 * tc + 1.75e-4 * tc ** 2 + 1.44e-6 * tc ** 3)
    wet = (64.79 * e / t + 377600.0 * e / t ** 2) * zw
    dry = 77.6036 * pa / t * zd
    return dry, wet, 1 + (dry + wet) * 1e-6


def raypath(z, n, angle, z0, exact=False):
    """Dutton-Thayer-Westwater layer path lengths; None if refractive index below one.
    exact=False reproduces the library's elevation angle at the upper layer boundary, which lacks the factor
    rs/r (known finding of C07, pinned by an existing test); exact=True is the published derivation."""
    z = np.asarray(z, float)
    n = np.asarray(n, float)
    if (n < 1).any():
        return None
    if 89 <= abs(angle) <= 91:
        return np.concatenate([[0.0], np.diff(z)])
    a = angle * np.pi / 180
    rs = R_EARTH + z[0] + z0
    sa = np.sin(a / 2)
    ds = np.zeros(len(z))
    phi_l = tau_l = 0.0
    r_l, tan_l = rs, np.tan(a)
    for i in range(1, len(z)):
        r = R_EARTH + z[i] + z0
        if n[i] == n[i - 1] or n[i] == 1.0 or n[i - 1] == 1.0:
            nb = 0.5 * (n[i] + n[i - 1])
        else:
            nb = 1 + (n[i - 1] - n[i]) / np.log((n[i - 1] - 1) / (n[i] - 1))
        q = z[i] / rs - (n[0] - n[i]) * np.cos(a) / n[i]
        arg = 0.5 * (2 * sa * sa + q) / r
        if arg <= 0:
            return ds
        st = np.sqrt((rs if exact else r) * arg)
        th = 2 * np.arcsin(st)
        if th - 2 * a <= 0:
            dth = 4 * np.arcsin((0.5 * q - z[i] * arg) / (2 * (st + sa) * np.cos((th + a) / 4)))
            th = a + dth
        else:
            dth = th - a
        dtau = 0.5 * (1 / np.tan(th) + 1 / tan_l) * (n[i - 1] - n[i]) / nb
        tau = tau_l + dtau
        phi = dth + tau
        ds[i] = np.sqrt((z[i] - z[i - 1]) ** 2 + 4 * r * r_l * np.sin((phi - phi_l) / 2) ** 2)
        if dtau != 0:
            # |tau - tau_l| rather than |dtau|: both are the layer's bending, up to rounding
            ds[i] *= abs(dtau) / (2 * np.sin(abs(dtau) / 2))
        phi_l, tau_l, r_l, tan_l = phi, tau, r, np.tan(th)
    return ds


def plane_path(z, angle):
    return np.concatenate([[0.0], np.diff(np.asarray(z, float)) / np.sin(angle * np.pi / 180)])


def layer_mean(a, b, zeroflg=True):
    if abs(b - a) < 1e-9:
        return b
    if a == 0 or b == 0:
        return (a + b) / 2 if zeroflg else 0.0
    return (b - a) / np.log(b / a)


def integrate(zeroflg, x, ds, ibeg, iend, factor):
    out = np.zeros(len(ds))
    tot = 0.0
    for i in range(ibeg, iend):
        if x[i - 1] < 0 or x[i] < 0:
            return tot, out           # documented: message and return what has been integrated so far
        out[i] = layer_mean(x[i - 1], x[i], zeroflg) * ds[i]
        tot += out[i]
    return tot * factor, out


# ------------------------------------------------------------------ radiative transfer
def planck_mod(hvk, t):
    return 1.0 / np.expm1(hvk / t)


def hvk_of(f):
    return f * 1e9 * H_PLANCK / K_BOLTZ


def bright(hvk, b):
    return hvk / np.log1p(1.0 / b) if b != 0 else 0.0


EXPMAX = 125.0


def rte(f, t, tau, sat, emis):
    """Discretised radiative transfer; returns a dict, or values None where undefined (no opacity)."""
    t = np.asarray(t, float)
    tau = np.asarray(tau, float)
    n = len(t)
    hvk = hvk_of(f)
    B = planck_mod(hvk, t)
    cum = np.zeros(n)     # opacity between antenna and level
    atm = np.zeros(n)     # emission between antenna and level
    if sat:
        for i in range(n - 2, -1, -1):
            d = tau[i + 1]
            x = np.exp(-d)
            cum[i] = cum[i + 1] + d
            atm[i] = atm[i + 1] + (B[i + 1] + B[i] * x) / (1 + x) * np.exp(-cum[i + 1]) * -np.expm1(-d)
        tot, em = cum[0], atm[0]
        bg = emis * planck_mod(hvk, t[0])
    else:
        for i in range(1, n):
            d = tau[i]
            x = np.exp(-d)
            cum[i] = cum[i - 1] + d
            atm[i] = atm[i - 1] + (B[i - 1] + B[i] * x) / (1 + x) * np.exp(-cum[i - 1]) * -np.expm1(-d)
        tot, em = cum[-1], atm[-1]
        bg = planck_mod(hvk, T_COSMIC)
    if tot < EXPMAX:
        back = bg * np.exp(-tot)
        mr = em / -np.expm1(-tot) if tot > 0 else None
    else:
        back, mr = 0.0, em
    return dict(hvk=hvk, B=B, cum=cum, atm=atm, tot=tot, back=back, total=back + em, mr=mr, em=em)


def cloud_tmr(base, top, hvk, cum, atm):
    base, top = int(base), int(top)
    if cum[base] > EXPMAX:
        return None
    b, d = atm[top] - atm[base], cum[top] - cum[base]
    if d > EXPMAX:
        return bright(hvk, b * np.exp(cum[base]))
    return bright(hvk, b * np.exp(cum[base]) / -np.expm1(-d))


def cloud_content(den, ds, base, top):
    s = 0.0
    for b, e in zip(base, top):
        for j in range(int(b) + 1, int(e) + 1):
            s += ds[j] * 0.5 * (den[j] + den[j - 1])
    return 0.1 * s


# ------------------------------------------------------------------ whole simulation
_cache = {}


def _lines(sp, m):
    k = (sp, m)
    if k not in _cache:
        _cache[k] = {"H2O": h2o_lines, "O2": o2_lines, "O3": o3_lines}[sp](m)
    return _cache[k]


def clearsky(p, t, e, f, sel, o3n=None, L=None):
    """Wet and dry absorption profiles (Np/km); sel = dict(H2O=, O2=, N2=, O3=)."""
    L = L or {}
    wet, dry = np.zeros(len(p)), np.zeros(len(p))
    u = 0.182 * f * LN10_10
    for i in range(len(p)):
        v, ek = 300.0 / t[i], e[i] / 10.0
        pk = p[i] / 10.0 - ek
        wet[i] = u * sum(h2o(sel["H2O"], pk, v, ek, f, L.get("H2O") or _lines("H2O", sel["H2O"])))
        dry[i] = u * sum(o2(sel["O2"], pk, v, ek, f, L.get("O2") or _lines("O2", sel["O2"])))
        if sel.get("N2"):
            dry[i] += n2(sel["N2"], t[i], pk * 10, f)
        if o3n is not None and sel.get("O3"):
            dry[i] += o3(sel["O3"], t[i], p[i], f, o3n[i], L.get("O3") or _lines("O3", sel["O3"]))
    return wet, dry


def simulate(z, p, t, rh, frq, angles, sel, sat=True, ray=False, emis=1.0, o3n=None, cloud=None, ice=False,
             L=None):
    """cloud = dict(cldh=(2,n) MSL, denice, denliq).  Returns dict of arrays [nf, nang] / [nf, nang, nl]."""
    z, p, t, rh = (np.asarray(a, float) for a in (z, p, t, rh))
    if cloud is not None:
        cl = {k: np.asarray(cloud[k], float) for k in ("cldh", "denice", "denliq")}
    if len(z) > 1 and z[1] < z[0]:
        z, p, t, rh = z[::-1], p[::-1], t[::-1], rh[::-1]
        o3n = None if o3n is None else np.asarray(o3n)[::-1]
        if cloud is not None:
            cl["denice"], cl["denliq"] = cl["denice"][::-1], cl["denliq"][::-1]
    z0 = z[0]
    h = z - z0
    nf, na, nl = len(frq), len(angles), len(z)
    es = np.broadcast_to(np.asarray(emis, float), (nf,))
    o = {k: np.zeros((nf, na)) for k in ("tbtotal", "tbatm", "tmr", "tmrcld", "tauwet", "taudry", "tauliq", "tauice")}
    o.update({k: np.zeros((nf, na, nl)) for k in ("taulaywet", "taulaydry", "taulayliq", "taulayice", "awet", "adry")})
    o.update({k: np.zeros((1, na)) for k in ("srho", "swet", "sdry", "sliq", "sice")})
    e, rho = vapor(t, rh, ice)
    dn, wn, n = refractivity(p, t, e)
    base = top = []
    if cloud is not None:
        lev = {float(x): i for i, x in enumerate(z)}
        base = [lev[float(x)] for x in cl["cldh"][0]]
        top = [lev[float(x)] for x in cl["cldh"][1]]
    absn = [clearsky(p, t, e, f, sel, o3n, L) for f in frq]
    for k in range(na):
        ds = raypath(h, n, angles[k], z0) if ray else plane_path(h, angles[k])
        o["srho"][0, k] = 0.1 * _full(rho, ds)
        o["swet"][0, k] = 0.1 * _full(wn, ds)
        o["sdry"][0, k] = 0.1 * _full(dn, ds)
        if cloud is not None:
            o["sliq"][0, k] = cloud_content(cl["denliq"], ds, base, top)
            o["sice"][0, k] = cloud_content(cl["denice"], ds, base, top)
        for j, f in enumerate(frq):
            o["awet"][j, k], o["adry"][j, k] = absn[j]
            o["tauwet"][j, k], o["taulaywet"][j, k] = integrate(True, absn[j][0], ds, 1, nl, 1)
            o["taudry"][j, k], o["taulaydry"][j, k] = integrate(True, absn[j][1], ds, 1, nl, 1)
            tau = o["taulaywet"][j, k] + o["taulaydry"][j, k]
            if cloud is not None:
                al = np.array([liquid(sel["LIQ"], w, f, tt) for w, tt in zip(cl["denliq"], t)])
                ai = ice_abs(f, cl["denice"])
                o["tauliq"][j, k], o["taulayliq"][j, k] = integrate(False, al, ds, 1, nl, 1)
                o["tauice"][j, k], o["taulayice"][j, k] = integrate(False, ai, ds, 1, nl, 1)
                tau = tau + o["taulayliq"][j, k] + o["taulayice"][j, k]
            r = rte(f, t, tau, sat, es[j])
            if cloud is not None:
                c = cloud_tmr(base[0], top[0], r["hvk"], r["cum"], r["atm"])
                o["tmrcld"][j, k] = np.nan if c is None else c
            o["tbtotal"][j, k] = bright(r["hvk"], r["total"])
            o["tbatm"][j, k] = bright(r["hvk"], r["em"])
            o["tmr"][j, k] = bright(r["hvk"], r["mr"]) if r["mr"] is not None else np.nan
    return o


def _full(x, ds):
    """Integral over all levels; the layer below the first level has depth zero."""
    return integrate(True, x, ds, 1, len(x), 1)[0]


COLUMNS = ["tbtotal", "tbatm", "tmr", "tmrcld", "tauwet", "taudry", "tauliq", "tauice", "angle"]
ENTRIES = ["taulaywet", "taulaydry", "taulayliq", "taulayice", "awet", "adry", "srho", "swet", "sdry", "sliq", "sice"]
