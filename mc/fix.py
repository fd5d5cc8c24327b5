"""Shared small profiles and option alphabets (numbers only, from the reference tables)."""
import numpy as np
import ref.physics as R

PIDX = {6: [0, 2, 5, 10, 20, 35], 5: [0, 3, 8, 15, 30], 10: [0, 1, 2, 3, 5, 8, 12, 20, 30, 40], 50: list(range(50)),
        4: [0, 4, 10, 25], 3: [0, 6, 20]}


def atm(k, n=6, z0=0.0):
    """Standard atmosphere k (0-5) on n of its levels: dict z,p,t,rh,o3n."""
    a = R.profile(R.PROFILES[k])
    i = PIDX[n]
    z, p, t, w, o = a[i, 0] + z0, a[i, 1].copy(), a[i, 3].copy(), a[i, 4], a[i, 6]
    e = p * w / (w + 1e6)
    return dict(z=z.copy(), p=p, t=t, rh=e / R.es_water(t), o3n=o * 1e-6 * R.N_A * p * 100 / (R.R_GAS * t))


def cloud(z, base=1, top=2, liq=0.3, ice=0.1, outside=False):
    z = np.asarray(z)
    n = len(z)
    dl = np.zeros(n)
    di = np.zeros(n)
    s = slice(None) if outside else slice(base, top + 1)
    dl[s] = liq * (1 + 0.25 * np.arange(n))[s]
    di[s] = ice * (1 + 0.5 * np.arange(n))[s]
    return dict(cldh=np.array([[z[base]], [z[top]]]), denice=di, denliq=dl)


def sel(h="R19", o=None, n=None, liq=None, o3=None):
    o = o or (h if h in R.ORDER["O2"] else "R20")
    n = n or (h if h in R.N2_MODELS else "R20")
    liq = liq or (h if h in R.LIQ_MODELS else "R20")
    return dict(H2O=h, O2=o, N2=n, LIQ=liq, O3=o3 or "R18")


CMP = ["tauwet", "taudry", "tauliq", "tauice", "taulaywet", "taulaydry", "taulayliq", "taulayice", "awet", "adry",
       "srho", "swet", "sdry", "sliq", "sice"]


def compare(rep, got, want, tag, tol=1e-8, tb=True, keys=None, sat=True):
    """Compare a real result (impl.as_result layout) with the reference simulation."""
    for k in (keys or CMP + (["tbtotal", "tbatm", "tmr", "tmrcld"] if tb else [])):
        at = 1e-13
        rt = tol
        if k in ("tmr", "tbatm", "tmrcld"):
            # ratio of two small numbers where the atmosphere is nearly transparent
            rt = max(tol, 1e-6)
        if k not in got:
            rep.bad("%s: entry %s missing" % (tag, k))
            continue
        if k == "tmrcld":
            g = np.where(np.isfinite(want[k]), got[k], np.nan) if np.shape(got[k]) == np.shape(want[k]) else got[k]
            rep.close(g, want[k], "%s %s" % (tag, k), rtol=rt, atol=1e-6)
        else:
            rep.close(got[k], want[k], "%s %s" % (tag, k), rtol=rt, atol=at)
