"""C12: weighting functions against the reference, band averaging and plotting."""
import itertools, os
import numpy as np
PID = "C12"
LEVEL = "model_checking"
RULE = ("all ordered subsets of up to 3 (thorough 4) of 5 channels x direction x angle x model x grid step x profile: the returned array against the reference absorption and opacity, non-negative, rows independent of the other channels, "
        "integral against one minus transmittance; all compositions of 1-5 channels into bands x direction x normalisation x legend: the plotted curves and labels; all compositions in the grouped plot; "
        "all sequences of 3 (thorough 4) operations out of 15 (settings, computation, the two plots) on one object, with the object and the result compared after each")
NOTE = "exhaustive enumeration of channel sets, partitions and operation sequences on the real object; matplotlib (Agg) figures are read back"
ASSUMPTIONS = ["ascending heights", "water vapour, nitrogen follow the model attribute; oxygen is the last implemented one, as the class documents",
               "plots in satellite mode may leave out one end of the grid"]
CH = [22.235, 57.3, 183.31, 118.75, 325.1]


def load(tier):
    global impl, fix, ops, R, WF, plt, TIER, REF
    from mc import impl, fix, ops
    import ref.physics as R
    from pyrtlib.weighting_functions import WeightingFunctions as WF
    import matplotlib.pyplot as plt
    TIER = tier
    REF = {}
    if tier == "quick":
        plt.tight_layout = lambda *a, **k: None     # three quarters of the time of a plot; moves margins only


PROFILES = [(0, 4, 0.0, 5.0), (4, 5, 0.0, 3.7), (2, 4, 0.3, 4.0), (1, 10, 0.0, 2.5), (0, 50, 0.0, 2.0), (3, 50, 0.0, 1.0)]


def compositions(n):
    if n == 0:
        return [[]]
    return [[k] + r for k in range(1, n + 1) for r in compositions(n - k)]


OPS = ([("frequencies", x) for x in ("ab", "ba", "c")] + [("satellite", True), ("satellite", False), ("angle", 90.0), ("angle", 40.0), ("model", "R24"), ("model", "R17"),
       ("bandpass", None), ("bandpass", "all"), ("emissivity", 0.5), ("plot", False), ("plot", True), ("grouped", None)])


def cases(tier):
    out = []
    n = 3 if tier == "quick" else 4
    for ip in range(len(PROFILES)):
        for sat in (True, False):
            for ang in (90.0, 35.0):
                out.append(dict(kind="compute", prof=ip, sat=sat, ang=ang, n=1 if ip >= 3 else n))
    for n2 in range(1, 6):
        cs = compositions(n2)
        for i in range(0, len(cs), 4):
            for sat in (True, False):
                out.append(dict(kind="bands", n=n2, parts=cs[i:i + 4], sat=sat))
    for n2 in range(1, 6):
        cs = compositions(n2)
        for i in range(0, len(cs), 4):
            out.append(dict(kind="grouped", n=n2, parts=cs[i:i + 4]))
    for i in range(len(OPS)):
        out.append(dict(kind="seq", first=i, n=3 if tier == "quick" else 4))
    out.append(dict(kind="refuse"))
    return out


def weight(c):
    return {"compute": 3 + c.get("prof", 0), "bands": 4, "grouped": 3, "seq": 5, "refuse": 1}[c["kind"]]


def make(ip):
    k, n, z0, step = PROFILES[ip]
    a = fix.atm(k, n, z0)
    return WF(a["z"].copy(), a["p"].copy(), a["t"].copy(), a["rh"].copy(), step) if step != 1.0 else WF(a["z"], a["p"], a["t"], a["rh"])


def reference(ip, f, sat, ang, model):
    """Correct weighting function of one channel, and the known defect of the satellite mode."""
    key = (ip, float(f), ang, model)
    if key not in REF:
        k, n, z0, step = PROFILES[ip]
        a = fix.atm(k, n, z0)
        z = np.arange(0, np.max(a["z"]) + step, step)
        p, t, rh = (np.interp(z, a["z"], a[x]) for x in ("p", "t", "rh"))
        s = R.simulate(z, p, t, rh, [f], [ang], dict(H2O=model, O2=R.ORDER["O2"][-1], N2=model, LIQ=model, O3=None), ray=True)
        e, _ = R.vapor(t, rh)
        ds = R.raypath(z - z[0], R.refractivity(p, t, e)[2], ang, z[0])
        REF[key] = z, p, (s["awet"] + s["adry"])[0, 0], (s["taulaywet"] + s["taulaydry"])[0, 0], ds
    z, p, al, tau, ds = REF[key]
    if not sat:
        c = np.cumsum(tau)
        w = al * np.exp(-c)
        return w, w
    c = np.cumsum(tau[::-1])[::-1]          # from the level below to the top
    return al * np.exp(-np.append(c[1:], 0.0)), al * np.exp(-c)


def expected(ip, frq, sat, ang, model):
    r = [reference(ip, f, sat, ang, model) for f in frq]
    return np.array([x[0] for x in r]), np.array([x[1] for x in r])


def judge(rep, got, ip, frq, sat, ang, model, tag):
    good, defect = expected(ip, frq, sat, ang, model)
    rep.count("states")
    rep.count("transitions")
    rep.outcome(np.asarray(got, float).tobytes())
    if np.shape(got) == good.shape and sat and not np.allclose(got, good, rtol=1e-8, atol=1e-300):
        if np.allclose(got, defect, rtol=1e-8, atol=1e-300):
            rep.bad("%s: attenuated from the level below" % tag, "satellite-weighting-attenuation")
            return
    rep.close(got, good, tag, rtol=1e-8, atol=1e-300)
    rep.check(bool(np.all(np.asarray(got) >= 0)), tag + ": negative values")


def snapshot(wf):
    out = {}
    for k, v in vars(wf).items():
        out[k] = np.array(v, copy=True) if isinstance(v, (np.ndarray, list)) and not (isinstance(v, list) and v and isinstance(v[0], str)) else v
    return out


def unchanged(rep, wf, before, tag):
    now = snapshot(wf)
    for k in before:
        rep.check(k in now and not ops.same(now[k], before[k], 0.0), lambda: "%s: attribute %s of the object became %r" % (tag, k, now.get(k)))


def evaluate(case, rep):
    try:
        {"compute": compute, "bands": bands, "grouped": grouped, "seq": sequences, "refuse": refuse}[case["kind"]](case, rep)
    finally:
        plt.close("all")


def compute(case, rep):
    ip, sat, ang = case["prof"], case["sat"], case["ang"]
    models = ["R24", "R17", "R98"] if ip < 3 else ["R24", "R20SD"]
    for model in models:
        if model not in R.N2_MODELS:
            continue
        single = {}
        wf = make(ip)
        k, n, z0, step = PROFILES[ip]
        a = fix.atm(k, n, z0)
        rep.close(wf.zinterp, np.arange(0, np.max(a["z"]) + step, step), "height grid", rtol=1e-14)
        for x in ("p", "t", "rh"):
            rep.close(getattr(wf, x + "interp"), np.interp(wf.zinterp, a["z"], a[x]), "interpolated " + x, rtol=1e-14)
        wf.satellite = sat
        wf.angle = ang
        if model != "R24":
            wf.model = model
        chan = range(5) if ip < 3 else range(3)
        sets = [c for r in range(1, case["n"] + 1) for c in itertools.permutations(chan, r)] + [(0, 0), (1, 2, 1)]
        if ip == 1 or TIER == "quick" and model == "R98":
            sets = [c for c in sets if len(c) <= 2]
        if ip >= 3:
            sets.append(tuple(chan))
        for c in sets:
            frq = np.array([CH[i] for i in c])
            wf.frequencies = frq
            before = snapshot(wf)
            got = wf.generate_wf()
            tag = "profile %s %s angle %g model %s channels %s" % (PROFILES[ip], "satellite" if sat else "ground", ang, model, frq.tolist())
            judge(rep, got, ip, frq, sat, ang, model, tag)
            before.pop("l0", None)
            unchanged(rep, wf, before, tag)
            rep.count("traces")
            got = np.array(got)
            if got.ndim == 2 and len(got) == len(c):
                for r, i in zip(got, c):
                    if i in single:
                        rep.close(r, single[i], tag + ": row of %g GHz depends on the other channels" % CH[i], rtol=1e-13)
                    single[i] = r
        # integral over the path against one minus transmittance, ground view
        if ip == 5 and not sat:
            for i, f in enumerate(CH[:3]):
                z, p, al, tau, ds = REF[(ip, f, ang, model)]
                w = single[i]
                one = 1 - np.exp(-tau.sum())
                if tau.max() < 0.3:
                    integral = np.sum(0.5 * (w[1:] + w[:-1]) * ds[1:])
                    rep.check(abs(integral - one) < 0.1 * one, "%s GHz angle %g: weighting function integrates to %r, one minus transmittance is %r" % (f, ang, integral, one))


# ------------------------------------------------------------------ plots
def figure(rep, n0, tag):
    """Axes with curves of the one figure that was drawn."""
    nums = plt.get_fignums()
    rep.check(len(nums) == 1, "%s: %d figures" % (tag, len(nums)))
    ax = [x for x in plt.figure(nums[-1]).axes if x.get_lines()]
    rep.check(len(ax) == 1, "%s: curves on %d axes" % (tag, len(ax)))
    return ax[0]


def curves(rep, ax, w, z, sat, tag):
    """Every row of w is drawn once, in order, on the height grid."""
    lines = ax.get_lines()
    if not rep.check(len(lines) == len(w), "%s: %d curves for %d channels" % (tag, len(lines), len(w))):
        return None
    out = []
    for i, l in enumerate(lines):
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        forms = [(w[i], z)]
        if sat:
            forms += [(w[i, 1:], z[:-1]), (w[i, 1:], z[1:]), (w[i, :-1], z[:-1])]
        ok = any(len(x) == len(a) and len(y) == len(b) and np.allclose(x, a, rtol=1e-12, atol=1e-300) and np.allclose(y, b, rtol=1e-12) for a, b in forms)
        rep.check(ok, lambda: "%s: curve %d is %s over %s, expected %s" % (tag, i, x[:5].tolist(), y[:3].tolist(), w[i][:6].tolist()))
        out.append((x, y, l.get_label()))
    return out


def average(w, part):
    out, k = [], 0
    for n in part:
        out.append(sum(w[k:k + n]) / n)
        k += n
    return np.array(out)


def plot(rep, wf, w, frq, part, sat, tag, normalized=False, labels=None, legend=True, ylim=None, **kw):
    keep = w.copy()
    before = snapshot(wf)
    plt.close("all")
    wf.plot_wf(w, "title", ylim=ylim, legend=legend, normalized=normalized, figsize=(4, 4), dpi=50, **kw)
    rep.check(np.array_equal(w, keep), tag + ": plotting changed the weighting functions")
    unchanged(rep, wf, before, tag)
    ax = figure(rep, 0, tag)
    x = average(w, part) if part else w
    mf = average(np.asarray(frq, float), part) if part else np.asarray(frq, float)
    if normalized:
        x = x / np.max(x, axis=1)[:, None]
    c = curves(rep, ax, x, np.asarray(wf.zinterp), sat, tag)
    if c:
        for i, (xx, yy, lab) in enumerate(c):
            want = "%.2f GHz" % mf[i]
            rep.check(lab.startswith(want) or lab.startswith("%.2f GHz" % np.nextafter(mf[i], 0)), lambda: "%s: label %r of the curve for %.4f GHz" % (tag, lab, mf[i]))
            if sat and lab[len(want):].strip():
                peak = "%.0f" % yy[np.argmax(xx)]
                rep.check(lab[len(want):].split() == [peak, "km"], lambda: "%s: label %r, maximum at %s km" % (tag, lab, peak))
    leg = ax.get_legend()
    rep.check((leg is not None) == legend, tag + ": legend %s" % legend)
    if leg is not None and c:
        texts = [t.get_text() for t in leg.get_texts()]
        rep.check(texts == (list(labels) if labels else [q[2] for q in c]), lambda: "%s: legend %s" % (tag, texts))
    if ylim:
        rep.close(ax.get_ylim(), ylim, tag + " height limits")
    tw = [q for q in ax.figure.axes if not q.get_lines()]
    if len(tw) == 1:
        lo, hi = ylim or (wf.zinterp[0], wf.zinterp[-1])
        rep.close(tw[0].get_ylim(), [np.interp(lo, wf.zinterp, wf.pinterp), np.interp(hi, wf.zinterp, wf.pinterp)], tag + " pressure axis", rtol=1e-9)
    rep.check(ax.get_title() == "title", tag + ": title")
    plt.close("all")
    rep.count("transitions")


def bands(case, rep):
    sat, n = case["sat"], case["n"]
    wf = make(0)
    wf.satellite = sat
    frq = np.array([57.3, 22.235, 183.31, 90.0, 118.75][:n])
    wf.frequencies = frq
    w = np.array(wf.generate_wf())
    for part in case["parts"]:
        for b, norm, form in itertools.product((True, False), (False, True), (0, 1)):
            if not b and part != [n]:
                continue
            nb = len(part) if b else n
            wf.bandpass = (np.array(part) if form else list(part)) if b else None
            labels = ["L%d" % i for i in range(nb)] if (norm == (form == 0)) else None
            wf.legend_labels = labels
            tag = "%s channels %s bands %s normalized %s labels %s" % ("satellite" if sat else "ground", frq.tolist(), part if b else None, norm, labels)
            plot(rep, wf, w.copy(), frq, part if b else None, sat, tag, norm, labels, legend=not (norm and form), ylim=[0, 20] if form else None)
            again = wf.generate_wf()
            rep.close(again, w, tag + ": result after plotting", rtol=1e-13)
            rep.close(wf.frequencies, frq, tag + ": frequencies after plotting", rtol=0)
            rep.count("states")
            rep.count("traces")


def grouped(case, rep):
    n = case["n"]
    wf = make(0)
    frq = np.array([57.3, 22.235, 183.31, 90.0, 118.75][:n])
    wf.frequencies = frq
    w = np.array(wf.generate_wf())
    for part in case["parts"]:
        for form in (0, 1):
            labels = ["group %d" % i for i in range(len(part))]
            tag = "grouped plot %s" % part
            plot_grouped(rep, wf, w.copy(), part, labels, tag, [0, 20] if form else None)
            rep.close(wf.generate_wf(), w, tag + ": result after plotting", rtol=1e-13)
            rep.count("states")
            rep.count("traces")


def plot_grouped(rep, wf, w, part, labels, tag, ylim=None):
    keep, before = w.copy(), snapshot(wf)
    plt.close("all")
    wf.plot_wf_grouped(w, "title", ylim=ylim, grouped_frequencies=part, grouped_labels=labels, figsize=(4, 4), dpi=50)
    rep.check(np.array_equal(w, keep), tag + ": plotting changed the weighting functions")
    unchanged(rep, wf, before, tag)
    ax = figure(rep, 0, tag)
    shift = np.repeat(0.4 * np.arange(len(part)), part)
    curves(rep, ax, w + shift[:, None], np.asarray(wf.zinterp), True, tag)
    texts = [t.get_text() for t in ax.texts]
    rep.check(texts == labels, lambda: "%s: group labels %s" % (tag, texts))
    if texts == labels:
        xs = [t.get_position()[0] for t in ax.texts]
        rep.check(all(0.4 * i <= x < 0.4 * (i + 1) or x - 0.4 * i < 0.4 for i, x in enumerate(xs)) and xs == sorted(xs), lambda: "%s: group labels at %s" % (tag, xs))
    plt.close("all")
    rep.count("transitions")


def sequences(case, rep):
    for rest in itertools.product(range(len(OPS)), repeat=case["n"] - 1):
        path = [OPS[case["first"]]] + [OPS[i] for i in rest]
        if TIER == "quick" and sum(x[0] in ("plot", "grouped") for x in path) > 1:
            continue
        if sum(x[0] in ("plot", "grouped") for x in path) and path[-1][0] not in ("plot", "grouped") and case["first"] % 2 and TIER == "quick":
            continue
        wf = make(0)
        s = dict(frequencies="ab", satellite=True, angle=90.0, model="R24", bandpass=None, emissivity=1.0)
        F = {"ab": np.array([CH[0], CH[1]]), "ba": np.array([CH[1], CH[0]]), "c": np.array([CH[2], 31.4, CH[3]])}
        wf.frequencies = F["ab"].copy()
        done = []
        w = None
        for k, v in path:
            done.append("%s=%s" % (k, v))
            tag = ", ".join(done)
            frq = F[s["frequencies"]]
            if k in ("plot", "grouped") and w is None:
                w = np.array(wf.generate_wf())
            if k == "plot":
                part = [len(frq)] if s["bandpass"] else None
                plot(rep, wf, w.copy(), frq, part, s["satellite"], tag, normalized=v, labels=None)
            elif k == "grouped":
                if s["satellite"]:
                    plot_grouped(rep, wf, w.copy(), [1] * len(frq), ["g%d" % i for i in range(len(frq))], tag)
                else:
                    try:
                        wf.plot_wf_grouped(w.copy(), grouped_frequencies=[1] * len(frq), grouped_labels=["g"] * len(frq))
                        rep.bad(tag + ": grouped plot in ground mode")
                    except ValueError:
                        pass
            else:
                s[k] = v
                if k == "frequencies":
                    wf.frequencies = F[v].copy()
                elif k == "bandpass":
                    wf.bandpass = np.array([len(frq)]) if v else None
                else:
                    setattr(wf, k, v)
            if s["bandpass"]:
                wf.bandpass = np.array([len(F[s["frequencies"]])])
            frq = F[s["frequencies"]]
            rep.close(wf.frequencies, frq, tag + ": frequencies", rtol=0)
            w = np.array(wf.generate_wf())
            judge(rep, w, 0, frq, s["satellite"], s["angle"], s["model"], tag)
        rep.count("traces")


def refuse(case, rep):
    wf = make(0)
    for bad in (22.2, [22.2, 31.4], None, "22", (22.2,)):
        try:
            wf.frequencies = bad
            rep.bad("frequencies %r accepted" % (bad,))
        except ValueError:
            rep.count("states")
    for bad in (1, 0, None, "True", 1.0):
        try:
            wf.satellite = bad
            rep.bad("satellite %r accepted" % (bad,))
        except ValueError:
            rep.count("states")
    wf.frequencies = np.array([22.2, 31.4])
    w = np.array(wf.generate_wf())
    # equal numbers, other types of numbers
    for f in (np.array([22.2, 31.4], np.float32).astype(float), np.array([22, 31])):
        wf.frequencies = f
        judge(rep, wf.generate_wf(), 0, f, True, 90.0, "R24", "frequencies %r" % f)
        rep.count("traces")
