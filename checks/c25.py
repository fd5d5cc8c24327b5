"""C25: an invalid setting is refused with an error and leaves everything as it was."""
import itertools, warnings
import numpy as np
from mc import ops
PID = "C25"
LEVEL = "model_checking"
RULE = ("states: the settings of an object (direction, emissivity, frequencies, height grid, parameter set); transitions: each valid and each invalid setting, execution. All sequences up to depth 5 (thorough 6) over the settings of a "
        "simulation and of a weighting-function object, each followed by an execution compared with a new object given the valid settings only; every setter times every invalid value; all strings within one edit of a valid season, "
        "constant, perturbation direction and propagation function; all gas numbers -10..60; perturbations of unknown names, line numbers outside the list, in every position of a list of names")
NOTE = "bounded exhaustive exploration of the real objects; oracle: a new object that never saw the invalid setting"
ASSUMPTIONS = ["integers and numpy booleans as direction or emissivity are left open"]

EM = [0.9, 0.35, np.array([0.9, 0.6]), np.array([0.2, 1.0])]
BADSAT = ["True", 1, "", None, 0, [True], (), 1.0, {}, 2.5, "ground", object()]
BADEM = ["0.9", None, [0.9, 0.6], (0.9,), {}, "", object()]
BADFRQ = [None, [22.0, 30.0], 22.0, "22", (22.0,), {}, 5]
BADH = [None, [0.0, 1.0], 5.0, "0", (1.0, 2.0), {}, 5]


def load(tier):
    global impl, fix, hist, WF, PE, AP, UT, SP, UN, AS
    from mc import impl, fix, hist
    from pyrtlib.weighting_functions import WeightingFunctions as WF
    from pyrtlib.climatology import ProfileExtrapolation as PE, AtmosphericProfiles as AP
    from pyrtlib import utils as UT
    from pyrtlib.uncertainty import SpectroscopicParameter as SP, AbsModUncertainty as UN


def cases(tier):
    d = 6 if tier == "thorough" else 5
    out = [dict(kind="sim", first=i, depth=d) for i in range(7)] + [dict(kind="wf", first=i, depth=4 if d == 5 else 5) for i in range(6)]
    out += [dict(kind="height", depth=d), dict(kind="setters"), dict(kind="season"), dict(kind="names"), dict(kind="gases")]
    out += [dict(kind="perturb", sets=s) for s in ("h2o", "o2", "both")] + [dict(kind="profile")]
    return out


def refused(rep, tag, f, *kinds):
    rep.count("transitions")
    try:
        v = f()
    except kinds or (Exception,):
        return True
    except Exception as e:
        rep.bad("%s: refused with %r" % (tag, e))
        return True
    rep.bad("%s: accepted (%s)" % (tag, str(v)[:60]))
    return False


def evaluate(case, rep):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["ev_" + case["kind"]](case, rep)
    rep.sample(case)
    rep.outcome(repr(case))


def near(name):
    """All strings within one edit of a name (and its spellings)."""
    out = {"", " ", name + " ", " " + name, name.upper(), name.capitalize(), name.swapcase(), name + name, name[::-1]}
    al = "aAbsSuxXyzR+-*/^ 0e"
    for i in range(len(name) + 1):
        out |= {name[:i] + name[i + 1:], name[:i], name[i:]}
        for c in al:
            out |= {name[:i] + c + name[i:], name[:i] + c + name[i + 1:]}
        if i + 1 < len(name):
            out.add(name[:i] + name[i + 1] + name[i] + name[i + 2:])
    return out


# --- a simulation object ----------------------------------------------------------------------------------------
def ev_sim(case, rep):
    impl.select(fix.sel("R98"))
    ok = [("sat", True), ("sat", False), ("em", 0), ("em", 2)]
    alpha = ok + [("badsat", None), ("badem", None), ("run", None)]
    memo = {}

    def new():
        I = ops.arrays()
        return impl.TbCloudRTE(I["Pz"], I["Pp"], I["Pt"], I["Prh"], I["F"], I["A1"])

    def want(st):
        if st not in memo:
            r = new()
            r.satellite = st[0]
            if st[1] is not None:
                r.emissivity = EM[st[1]]
            memo[st] = r.execute()["tbtotal"].values
        return memo[st]
    states, nb = set(), 0
    for d in range(1, case["depth"] + 1):
        for seq in itertools.product(range(7), repeat=d - 1):
            seq = (case["first"],) + seq
            if not any(alpha[i][0] in ("badsat", "badem") for i in seq) or alpha[seq[-1]][0] == "run":
                continue
            r = new()
            st = (True, None)
            for i in seq:
                k, v = alpha[i]
                rep.count("transitions")
                if k == "sat":
                    r.satellite = v
                    st = (v, st[1])
                elif k == "em":
                    r.emissivity = EM[v]
                    st = (st[0], v)
                elif k == "badsat":
                    b = BADSAT[nb % len(BADSAT)]
                    nb += 1
                    refused(rep, "direction %r" % (b,), lambda: setattr(r, "satellite", b), ValueError)
                elif k == "badem":
                    b = BADEM[nb % len(BADEM)]
                    nb += 1
                    refused(rep, "emissivity %r" % (b,), lambda: setattr(r, "emissivity", b), ValueError)
                else:
                    rep.close(r.execute()["tbtotal"].values, want(st), "%s" % ([alpha[x][0] for x in seq],), rtol=1e-12)
                e = np.ones(2) if st[1] is None else np.zeros(2) + EM[st[1]]
                rep.check(r.satellite is st[0] and np.array_equal(r.emissivity, e), lambda: "after %s: direction %r, emissivity %r" % ([alpha[x] for x in seq], r.satellite, r.emissivity))
            rep.close(r.execute()["tbtotal"].values, want(st), "%s" % ([alpha[x][0] for x in seq],), rtol=1e-12)
            states.add(st)
            rep.count("traces")
    rep.count("states", len(states))


def ev_wf(case, rep):
    import matplotlib.pyplot as plt
    show, fig = plt.show, plt.figure
    shown = []
    plt.show = lambda *a, **k: shown.append(1)
    F = [np.array([23.8, 54.4]), np.array([31.4])]
    alpha = [("sat", True), ("sat", False), ("f", 0), ("f", 1), ("bad", None), ("badplot", None)]
    memo = {}
    try:
        def new():
            I = ops.arrays()
            w = WF(np.array([0.0, 1.0, 3.0]), I["Pp"], I["Pt"], I["Prh"], 1.0)
            w.frequencies = F[0]
            return w

        def want(st):
            if st not in memo:
                w = new()
                w.satellite = st[0]
                w.frequencies = F[st[1]]
                memo[st] = w.generate_wf()
            return memo[st]
        nb, states = 0, set()
        for d in range(1, case["depth"] + 1):
            for seq in itertools.product(range(6), repeat=d - 1):
                seq = (case["first"],) + seq
                if alpha[seq[-1]][0] not in ("bad", "badplot"):
                    continue
                w, st = new(), (True, 0)
                for i in seq:
                    k, v = alpha[i]
                    rep.count("transitions")
                    if k == "sat":
                        w.satellite = v
                        st = (v, st[1])
                    elif k == "f":
                        w.frequencies = F[v]
                        st = (st[0], v)
                    elif k == "bad":
                        b = BADSAT[nb % len(BADSAT)]
                        c = BADFRQ[nb % len(BADFRQ)]
                        nb += 1
                        refused(rep, "direction %r" % (b,), lambda: setattr(w, "satellite", b), ValueError)
                        refused(rep, "frequencies %r" % (c,), lambda: setattr(w, "frequencies", c), ValueError)
                    elif not st[0]:
                        n = len(shown)
                        g = np.ones((len(F[st[1]]), 3))
                        refused(rep, "grouped plot for a ground observer", lambda: w.plot_wf_grouped(g, "", None, [len(g)], ["g"]), ValueError)
                        rep.check(len(shown) == n and not plt.get_fignums(), "grouped plot for a ground observer: something is drawn")
                    rep.check(w.satellite is st[0] and np.array_equal(w.frequencies, F[st[1]]), lambda: "after %s: direction %r frequencies %r" % ([alpha[x] for x in seq], w.satellite, w.frequencies))
                states.add(st)
                rep.close(w.generate_wf(), want(st), "%s" % ([alpha[x] for x in seq],), rtol=1e-12)
                rep.count("traces")
        rep.count("states", len(states))
    finally:
        plt.show = show
        plt.close("all")


def ev_height(case, rep):
    """Height grid of the extrapolation: every sequence of valid and invalid settings, then an extrapolation."""
    G = [np.arange(0.0, 101.0, 5.0), np.array([0.0, 10.0, 40.0, 80.0])]
    I = ops.arrays()
    memo = {}

    def want(g):
        if g not in memo:
            e = PE()
            if g is not None:
                e.height = G[g]
            memo[g] = [np.array(v) for v in e.profile_extrapolation(45.0, 6, I["Pz"], (I["Pp"], I["Pt"], I["Prh"]))]
        return memo[g]
    nb = 0
    default = PE().height.copy()
    for d in range(1, case["depth"] + 1):
        for seq in itertools.product((0, 1, "bad"), repeat=d):
            e, g = PE(), None
            for x in seq:
                if x == "bad":
                    b = BADH[nb % len(BADH)]
                    nb += 1
                    refused(rep, "height %r" % (b,), lambda: setattr(e, "height", b), ValueError)
                else:
                    e.height = G[x]
                    g = x
                    rep.count("transitions")
                rep.check(np.array_equal(e.height, default if g is None else G[g]), lambda: "height after %s" % (seq,))
            got = e.profile_extrapolation(45.0, 6, I["Pz"], (I["Pp"], I["Pt"], I["Prh"]))
            for a, b in zip(got, want(g)):
                rep.close(a, b, "extrapolation after %s" % (seq,), rtol=1e-12)
            rep.count("traces")
    rep.count("states", 3)


def ev_setters(case, rep):
    """Every invalid value for every setter, from every valid state."""
    impl.select(fix.sel("R98"))
    I = ops.arrays()
    for sat in (True, False):
        for em in range(len(EM)):
            r = impl.TbCloudRTE(I["Pz"], I["Pp"], I["Pt"], I["Prh"], I["F"], I["A1"], from_sat=sat)
            r.emissivity = EM[em]
            for b in BADSAT:
                refused(rep, "direction %r" % (b,), lambda: setattr(r, "satellite", b), ValueError)
                rep.check(r.satellite is sat, "direction after %r" % (b,))
            for b in BADEM:
                refused(rep, "emissivity %r" % (b,), lambda: setattr(r, "emissivity", b), ValueError)
                rep.check(np.array_equal(r.emissivity, np.zeros(2) + EM[em]), "emissivity after %r" % (b,))
            q = impl.TbCloudRTE(I["Pz"], I["Pp"], I["Pt"], I["Prh"], I["F"], I["A1"], from_sat=sat)
            q.emissivity = EM[em]
            rep.close(r.execute()["tbtotal"].values, q.execute()["tbtotal"].values, "after all invalid settings", rtol=1e-12)
            rep.count("states")
            rep.count("traces")
    w = WF(I["Pz"], I["Pp"], I["Pt"], I["Prh"])
    for b in BADFRQ:
        refused(rep, "frequencies %r" % (b,), lambda: setattr(w, "frequencies", b), ValueError)
    for b in BADSAT:
        refused(rep, "direction %r" % (b,), lambda: setattr(w, "satellite", b), ValueError)
    e = PE()
    for b in BADH:
        refused(rep, "height %r" % (b,), lambda: setattr(e, "height", b), ValueError)
    for b in sorted(near("ITU-Annex1") - {"ITU-Annex1"}) + [None, 1, "ITU-Annex2"]:
        refused(rep, "extrapolation %r" % (b,), lambda: PE(b), ValueError)
    rep.count("traces")


def ev_season(case, rep):
    e = PE()
    h = np.array([0.0, 8.0, 20.0, 60.0])
    bad = sorted((near("summer") | near("winter") | {"spring", "autumn", "july", "annual"}) - {"summer", "winter"}) + [None, 1, 0, True]
    for name in ("temperature", "pressure", "water_vapour_density"):
        for lat in (0.0, 30.0, 60.0, -60.0):
            f = getattr(e, name)
            ref = {s: np.array(f(lat, h, s)) for s in ("summer", "winter")}
            for b in bad:
                refused(rep, "%s season %r" % (name, b), lambda: f(lat, h, b), ValueError)
            for s in ref:
                rep.close(f(lat, h, s), ref[s], "%s %s after refusals" % (name, s), rtol=1e-14)
            rep.count("states")
    rep.count("traces")


def ev_names(case, rep):
    valid = UT.constants()
    if not rep.check(len(valid) >= 11, "names of constants: %s" % (valid,)):
        return
    for n in valid:
        ref = list(UT.constants(n))
        for b in sorted(near(n) - set(valid) - {""}):
            refused(rep, "constant %r" % b, lambda: UT.constants(b), ValueError)
        rep.check(list(UT.constants(n)) == ref, "constant %s after refusals" % n)
        rep.count("states")
    funs = ("aA", "aA+bB", "aA-bB", "A*B", "A/B", "A^a")
    for n in funs:
        ref = UN.uncertainty_propagation(n, 2.0, 3.0, 0.1, 0.2, 1.5, 0.5, 0.01)
        for b in sorted(near(n) - set(funs)) + [None, 1]:
            refused(rep, "propagation %r" % (b,), lambda: UN.uncertainty_propagation(b, 2.0, 3.0, 0.1, 0.2, 1.5, 0.5, 0.01), ValueError)
        rep.check(UN.uncertainty_propagation(n, 2.0, 3.0, 0.1, 0.2, 1.5, 0.5, 0.01) == ref, "propagation %s after refusals" % n)
        rep.count("states")
    rep.count("traces")


def ev_gases(case, rep):
    """Numbers of gases and profiles the library does not have; what it has is unchanged by the refusals."""
    fs = {"profile": (AP.gl_atm, range(0, 6)), "minor gas": (AP.gl_atm_minor, range(7, 28)), "trace gas": (AP.gl_atm_trace, range(28, 44)),
          "mass of gas": (UT.gas_mass, list(range(0, 32)) + [99])}
    for name, (f, have) in fs.items():
        have = list(have)
        ref = {n: f(n) for n in have}
        for n in list(range(-70, 130)) + [10 ** 6, -10 ** 6]:
            # 32 to 43 have a profile but no mass: either is refused or known, not part of this property
            if n in have or (name == "mass of gas" and 32 <= n <= 43):
                continue
            refused(rep, "%s %d" % (name, n), lambda: f(n), Exception)
            rep.count("states")
        for n in have:
            rep.check(ops.same(list(np.atleast_1d(f(n))) if not isinstance(f(n), tuple) else list(f(n)),
                               list(np.atleast_1d(ref[n])) if not isinstance(ref[n], tuple) else list(ref[n])) is None, "%s %d after refusals" % (name, n))
    rep.count("traces")


def ev_perturb(case, rep):
    s = case["sets"]
    p = ops.parameters("R19" if s != "o2" else None, "R19" if s != "h2o" else None)
    names = list(p)
    SP.set_parameters(p)
    before = ops.dump(p)

    def unchanged(tag):
        d = ops.same(ops.dump(p), before) or ops.same(ops.dump(SP.SP), before)
        rep.check(d is None, "%s: the stored parameters changed: %s" % (tag, d))
    modes = sorted((near("max") | near("min") | near("non") | {"ran", "plus", "both"}) - {"max", "min", "non", ""}) + ["", None, 1, True]
    array = [n for n in names if isinstance(p[n].value, np.ndarray) and isinstance(p[n].uncer, np.ndarray)]
    for m in modes:
        for n in ([names[0]], [names[-1], names[0]], names[:3]):
            refused(rep, "perturbation %r of %s" % (m, n), lambda: UN.parameters_perturbation(n, m, 0), ValueError, NotImplementedError)
        rep.count("states")
    unchanged("unknown directions")
    for m in ("max", "min", "non"):
        for b in ("gamma_x", "", "GAMMA_A", "o2gamma", None, 0):
            for k in range(3):
                what = [names[0], names[1]]
                what.insert(k, b)
                refused(rep, "perturbation of %r" % (what,), lambda: UN.parameters_perturbation(what, m, 0), KeyError, AttributeError)
        unchanged("unknown names")
        if m != "non":
            for n in array:
                ln = len(p[n].value)
                for i in (ln, ln + 1, -ln - 1, 10 ** 6, "0", 1.5):
                    refused(rep, "perturbation of line %r of %s (%d lines)" % (i, n, ln), lambda: UN.parameters_perturbation([n], m, i), IndexError, TypeError)
                unchanged("line outside %s" % n)
                rep.count("states")
    # after all refusals a valid perturbation is exactly one step
    for n in names:
        q = UN.parameters_perturbation([n], "max", 0)
        v, u = np.array(p[n].value, float), np.array(p[n].uncer, float)
        w = v.copy()
        if w.ndim and u.ndim:
            w[0] += u[0]
        else:
            w = v + u
        rep.close(np.asarray(q[n].value, float), w, "%s after refusals" % n, rtol=1e-12)
    unchanged("valid perturbations")
    rep.count("traces")


def ev_profile(case, rep):
    """Unordered profiles are refused; the same arrays put in order then give the ordinary result."""
    impl.select(fix.sel("R98"))
    I = ops.arrays()
    ref = impl.TbCloudRTE(I["Pz"], I["Pp"], I["Pt"], I["Prh"], I["F"], I["A1"]).execute()["tbtotal"].values
    n = len(I["Pz"])
    for perm in itertools.permutations(range(n)):
        perm = list(perm)
        if perm in (list(range(n)), list(range(n))[::-1]):
            continue
        J = ops.arrays()
        try:
            impl.TbCloudRTE(J["Pz"][perm], J["Pp"][perm], J["Pt"][perm], J["Prh"][perm], J["F"], J["A1"])
            rep.bad("levels in the order %s accepted" % perm)
        except (SystemExit, ValueError):
            pass
        rep.count("transitions")
        rep.count("states")
        r = impl.TbCloudRTE(J["Pz"], J["Pp"], J["Pt"], J["Prh"], J["F"], J["A1"])
        rep.close(r.execute()["tbtotal"].values, ref, "after refusing the order %s" % perm, rtol=1e-12)
    rep.count("traces")
