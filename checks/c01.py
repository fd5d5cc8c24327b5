"""C01: every operation, after every history of operations, gives the result of a fresh process."""
import itertools, os, pickle, sys, hashlib
import numpy as np
PID = "C01"
LEVEL = "model_checking"
RULE = ("states: digest of every module attribute, class attribute and default argument of the library plus a kept simulation and weighting-function object; "
        "transitions: every operation of the alphabet (41 operations: selections, simulations with all options, failing simulations, perturbed "
        "simulations, weighting functions, direct absorption calls, parameter queries) applied in a forked copy of the process in that state; level by level "
        "to the depth, states with equal digest merged; every result compared with the one computed in a fresh process with the same selection; quick: all sequences of length 2 from three "
        "starting histories, and all of length 3 whose second operation selects models; thorough: all of length 3, then 4 where the third selects; besides, for every model of every species and every model "
        "used before it, direct absorption at reference points after calls at all points that differ in one argument by 3e-8 to 30 per cent")
NOTE = "explicit-state search over the real process (forked snapshots), all operation sequences to the depth, differential oracle: a fresh process"
ASSUMPTIONS = ["the selection of models is an input: the fresh process is given the names selected at that moment",
               "weighting functions and parameter queries select models (documented); other operations must leave the selection alone",
               "a fresh process is a fork taken after importing the library and before any call into it"]
A = dict(H2O="R98", O2="R98", N2="R98", LIQ="R98")
B = dict(H2O="R22SD", O2="R22", N2="R22", LIQ="R24")
FULL = 2
LAST = ["sat", "ground ozone", "sat cloudy", "perturbed ground", "direct absorption", "kept simulation", "weighting function ground R98",
        "water parameters R23SD", "execute the first of two"]      # operations of the last, restricted level
CTX = {}        # objects kept between operations of one history


def load(tier):
    global impl, fix, ops, hist, SP, WF, R
    from mc import impl, fix, ops, hist
    import ref.physics as R
    from pyrtlib.uncertainty import SpectroscopicParameter as SP
    from pyrtlib.weighting_functions import WeightingFunctions as WF
    global OPS
    OPS = alphabet()


def wf(sat, model=None, f=(23.8, 54.4), dt=0.0):
    I = ops.arrays()
    I["Pt"][1] += dt
    z = np.array([0.0, 1.0, 3.0])
    w = WF(z, I["Pp"], I["Pt"], I["Prh"], 1.0)
    w.frequencies = np.array(f)
    w.satellite = sat
    if model:
        w.model = model
    return w.generate_wf()


def direct():
    """Absorption routines called directly for the selected models."""
    impl.H2OAbsModel.set_ll()
    impl.O2AbsModel.set_ll()
    r = dict(h2o=[ops.h2o_abs(f) for f in (22.235, 90.0)], o2=[ops.o2_abs(f) for f in (60.3, 118.75)], n2=ops.n2_abs(90.0), liq=ops.liq_abs(90.0))
    if isinstance(impl.O3AbsModel.model, str):
        impl.O3AbsModel.set_ll()
        r["o3"] = ops.o3_abs(110.85)
    return r


def amu_selected(sat):
    h, o = impl.H2OAbsModel.model, impl.O2AbsModel.model
    p = ops.parameters(h, o)
    p["gamma_a"].uncer = p["gamma_a"].value * 0.1
    p["O2S"].uncer = p["O2S"].value * 0.05
    q = ops.perturb(p, "gamma_a", "max", 0)
    df = ops.digest_sim(*ops.sim(ops.arrays(), sat=sat, amu=q))
    SP.set_parameters(q)
    from pyrtlib.uncertainty import AbsModUncertainty as U
    q2 = U.parameters_perturbation(["O2S"], "min", 5)
    return [df, ops.digest_sim(*ops.sim(ops.arrays(), sat=sat, amu=q2))]


def kept_object(toggle):
    """A simulation object that lives through the whole history."""
    if "rte" not in CTX:
        I = ops.arrays()
        r = impl.TbCloudRTE(I["Qz"], I["Qp"], I["Qt"], I["Qrh"], I["F"], I["A"], o3n=I["Qo3n"], from_sat=True, cloudy=True)
        r.init_cloudy(I["Qcldh"], I["Qdenice"], I["Qdenliq"])
        r.emissivity = 0.7
        CTX["rte"] = r
    r = CTX["rte"]
    r.satellite = not toggle
    r.ray_tracing = toggle
    return ops.digest_sim(*r.execute(False))


def pair(execute=None):
    """Two simulation objects of different direction, profile and options alive at once; one of them may be executed."""
    if "pair" not in CTX:
        I = ops.arrays()
        s = impl.TbCloudRTE(I["Pz"], I["Pp"], I["Pt"], I["Prh"], I["F"], I["A"], from_sat=True)
        g = impl.TbCloudRTE(I["Qz"], I["Qp"], I["Qt"], I["Qrh"], I["F3"], I["A1"], o3n=I["Qo3n"], from_sat=False, cloudy=True, ray_tracing=True)
        g.init_cloudy(I["Qcldh"], I["Qdenice"], I["Qdenliq"])
        CTX["pair"] = s, g
    if execute is not None:
        return ops.digest_sim(*CTX["pair"][execute].execute(False))


def import_list():
    """The documented direct way of reading another model's line list."""
    from pyrtlib.utils import import_lineshape
    impl.H2OAbsModel.model = "R17"
    impl.H2OAbsModel.h2oll = import_lineshape("h2oll")
    impl.O2AbsModel.model = "R17"
    impl.O2AbsModel.o2ll = import_lineshape("o2ll")


def kept_wf():
    if "wf" not in CTX:
        I = ops.arrays()
        w = WF(np.array([0.0, 1.0, 3.0]), I["Pp"], I["Pt"], I["Prh"], 1.0)
        w.frequencies = np.array([183.31, 31.4])
        w.model = "R20"
        CTX["wf"] = w
    return CTX["wf"].generate_wf()


def broken_amu():
    p = ops.parameters(impl.H2OAbsModel.model, impl.O2AbsModel.model)
    p["gamma_a"].value = p["gamma_a"].value * 1.3
    del p["O2gamma"]            # water vapour absorption is perturbed before the missing oxygen parameter is noticed
    return ops.sim(ops.arrays(), amu=p)


def short_ozone():
    I = ops.arrays()
    I["Po3n"] = I["Po3n"][:1]
    impl.TbCloudRTE(I["Pz"], I["Pp"], I["Pt"], I["Prh"], I["F"], I["A"], o3n=I["Po3n"], from_sat=False).execute(False)


def neighbour(what, at=1, **k):
    """Runs that differ from the plain one in a single inner value, by little and by very little."""
    r = []
    for factor, plus in ((1.01 if what != "F" else 1.0001, 0.003), (1 + 1e-7, 0.0)):
        I = ops.arrays()
        I[what][at] = I[what][at] * factor + plus
        r.append(ops.digest_sim(*ops.sim(I, **k)))
    return r


def zigzag():
    I = ops.arrays()
    I["Pz"][1] = 99.0
    return ops.sim(I)


def alphabet():
    """(name, function, species the operation may leave selected and to what)"""
    S = lambda **k: (lambda: ops.digest_sim(*ops.sim(ops.arrays(), **k)))
    o = []

    def add(name, fn, post=None):
        o.append((name, fn, post or {}))
    add("select A", lambda: impl.select(A), A)
    add("select B", lambda: impl.select(B), B)
    add("select mixed", lambda: impl.select(dict(H2O="R17", O2="R19SD")), dict(H2O="R17", O2="R19SD"))
    add("select O3 R18", lambda: impl.select(dict(O3="R18")), dict(O3="R18"))
    add("select O3 R22", lambda: impl.select(dict(O3="R22")), dict(O3="R22"))
    add("select unlisted oxygen", lambda: impl.select(dict(O2="R99")), dict(O2="R99"))
    add("sat", S())
    add("ground", S(sat=False))
    add("sat emissivity, refracted", S(n="Q", emis="E", ray=True))
    add("ground ozone", S(sat=False, o3=True, f="F3", a="A1"))
    add("sat cloudy", S(cloud=True, emis=0.5))
    add("ground ice", S(n="Q", sat=False, ice=True, f="F3"))
    add("top-down", S(n="D", cloud=True, o3=True))
    add("absmdl R20", S(absmdl="R20"), dict(H2O="R20", O2="R20", N2="R20", LIQ="R20"))
    add("perturbed sat", lambda: amu_selected(True))
    add("perturbed ground", lambda: amu_selected(False))
    add("perturbed, parameter missing", broken_amu)
    add("ozone too short", short_ozone)
    add("heights not monotonic", zigzag)
    for x in ("Pz", "Pp", "Pt", "Prh", "F", "A"):
        add("sat, one value of %s changed" % x, lambda x=x: neighbour(x))
    add("cloudy, one liquid value changed", lambda: neighbour("Pdenliq", cloud=True, emis=0.5))
    add("ozone, one value changed", lambda: neighbour("Po3n", sat=False, o3=True, f="F3", a="A1"))
    add("weighting function sat, one value changed", lambda: wf(True, dt=2.0), dict(H2O="R24", O2="R24", N2="R24", LIQ="R24"))
    add("weighting function sat", lambda: wf(True), dict(H2O="R24", O2="R24", N2="R24", LIQ="R24"))
    add("weighting function ground R98", lambda: wf(False, "R98"), dict(H2O="R98", O2="R24", N2="R98", LIQ="R98"))
    add("direct absorption", direct)
    add("water parameters R23SD", lambda: ops.dump(ops.parameters(h2o="R23SD")), dict(H2O="R23SD"))
    add("oxygen parameters R20", lambda: ops.dump(ops.parameters(o2="R20")), dict(O2="R20"))
    add("ozone parameters R23", lambda: ops.dump(ops.parameters(o3="R23")), dict(O3="R23"))
    add("kept simulation", lambda: kept_object(False))
    add("kept simulation, other way", lambda: kept_object(True))
    add("two objects alive", pair)
    add("execute the first of two", lambda: pair(0))
    add("execute the second of two", lambda: pair(1))
    add("import line lists", import_list, dict(H2O="R17", O2="R17"))
    add("kept weighting function", kept_wf, dict(H2O="R20", O2="R24", N2="R20", LIQ="R20"))
    return o


def run_op(i):
    """Result or ("error", type) of one operation."""
    try:
        r = OPS[i][1]()
        return ("ok", r)
    except (Exception, SystemExit) as e:
        return ("error", type(e).__name__)


def fresh(sel, i):
    """Result of operation i in a fresh process with the selection (cached across workers of this run)."""
    key = hashlib.blake2b(repr((sorted(sel.items(), key=repr), i)).encode(), digest_size=10).hexdigest()
    p = os.path.join(os.environ["VERIF_SCRATCH"], "fresh-" + key)
    if os.path.exists(p):
        with open(p, "rb") as f:
            return pickle.load(f)

    def go():
        impl.select({k: v for k, v in sel.items() if v is not None})
        return run_op(i)
    r = hist.forked(go)
    with open(p + ".%d" % os.getpid(), "wb") as f:
        pickle.dump(r, f)
    os.rename(p + ".%d" % os.getpid(), p)
    return r


def state():
    return hist.library_state({k: CTX[k] for k in sorted(CTX)})


def step(task):
    """Reaches the state of a path in a fork, applies every operation to it in forks of that."""
    level, path = task
    ids = range(len(OPS)) if level < FULL else [i for i, o in enumerate(OPS) if o[0] in LAST]

    def outer():
        for i in path:
            run_op(i)
        sel = impl.selected()
        out = []
        for i in ids:
            def inner(i=i):
                r = run_op(i)
                return r, impl.selected(), state()
            try:
                out.append((i,) + hist.forked(inner))
            except RuntimeError as e:
                out.append((i, ("error", "process: %s" % e), sel, None))
        return sel, state(), out
    sel, dig, out = hist.forked(outer)
    succ = []
    for i, r, after, dg in out:
        msgs = []
        name, _, post = OPS[i]
        try:
            w = fresh(sel, i)
        except RuntimeError as e:
            w = ("error", str(e))
        if r[0] != w[0]:
            msgs.append("%s: %s here, %s in a fresh process" % (name, brief(r), brief(w)))
        elif r[0] == "error":
            if r[1] != w[1]:
                msgs.append("%s fails with %s, in a fresh process with %s" % (name, r[1], w[1]))
        else:
            d = ops.same(r[1], w[1])
            if d:
                msgs.append("%s: %s of a fresh process" % (name, d))
        for k, v in after.items():
            if v != sel[k] and v != post.get(k):
                msgs.append("%s left %s model %r selected (before: %r)" % (name, k, v, sel[k]))
        if name.startswith("select"):
            for k, v in post.items():
                if after[k] != v:
                    msgs.append("%s did not select %s" % (name, v))
        succ.append((i, dg, msgs))
    return dig, succ


def brief(r):
    return "a result" if r[0] == "ok" else str(r[1])


POINTS = {"H2O": [(22.2, 1.5, 60.0, 1.1), (183.0, 0.3, 20.0, 1.3), (547.0, 2.2, 95.0, 1.02)],
          "O2": [(60.3, 1.0, 60.0, 1.1), (118.76, 0.2, 5.0, 1.3), (487.3, 0.4, 30.0, 1.2)],
          "O3": [(110.85, 250.0, 20.0, 3e18), (231.3, 220.0, 3.0, 1e18)],
          "N2": [(90.0, 270.0, 800.0), (300.0, 220.0, 200.0)],
          "LIQ": [(90.0, 0.3, 270.0), (31.4, 0.05, 250.0)]}


def listed(sp):
    return list(R.ORDER[sp]) if sp in R.ORDER else list(R.N2_MODELS if sp == "N2" else R.LIQ_MODELS)


def use(sp, m):
    impl.SPECIES[sp].model = m
    if sp in ("H2O", "O2", "O3"):
        impl.SPECIES[sp].set_ll()


def at(sp, x):
    return getattr(ops, {"H2O": "h2o_abs", "O2": "o2_abs", "O3": "o3_abs", "N2": "n2_abs", "LIQ": "liq_abs"}[sp])(*x)


def nearby(x):
    """Points that differ from x in one argument, by very little, little, or much."""
    for i, f in itertools.product(range(len(x)), (1 - 3e-8, 1 + 1e-7, 1 + 2e-5, 1.003, 1.3)):
        yield x[:i] + (x[i] * f,) + x[i + 1:]


def direct_pairs(case, rep):
    """Absorption at a point after absorption at neighbouring points, with the same and every other model of the species."""
    sp, m = case["sp"], case["model"]

    def fresh_values():
        use(sp, m)
        return [at(sp, x) for x in POINTS[sp]]

    def after():
        out = []
        for other in [m] + [o for o in listed(sp) if o != m]:
            use(sp, other)
            for x in POINTS[sp]:
                for y in nearby(x):
                    at(sp, y)
            use(sp, m)
            out.append((other, [at(sp, x) for x in POINTS[sp]]))
        return out
    want = [hist.forked(lambda x=x: (use(sp, m), at(sp, x))[1]) for x in POINTS[sp]]
    rep.count("states", 1 + len(want))
    w = ops.same(hist.forked(fresh_values), want)
    rep.check(not w, lambda: "%s %s: one point after the other: %s" % (sp, m, w))
    for x, w in zip(POINTS[sp], want):
        for y in nearby(x):
            got = hist.forked(lambda: (use(sp, m), at(sp, y), at(sp, x))[2])
            rep.count("transitions", 2)
            rep.count("traces", 1)
            d = ops.same(got, w)
            rep.check(not d, lambda: "%s absorption of %s at %s after a call at %s: %s of a fresh process" % (sp, m, x, y, d))
    for other, got in hist.forked(after):
        rep.count("transitions", len(POINTS[sp]) * (1 + 5 * len(POINTS[sp][0])))
        rep.count("traces", 1)
        w = ops.same(got, want)
        rep.check(not w, lambda: "%s absorption of %s after calls of %s at neighbouring points: %s of a fresh process" % (sp, m, other, w))


def cases(tier):
    return [dict(full=2 if tier == "quick" else 3)] + [dict(kind="direct", sp=sp, model=m) for sp in POINTS for m in listed(sp)]


def evaluate(case, rep):
    if case.get("kind") == "direct":
        return direct_pairs(case, rep)
    names = [o[0] for o in OPS]
    n = len(OPS)
    ix = {x: i for i, x in enumerate(names)}
    roots = [(), (ix["select A"], ix["select O3 R18"], ix["sat"]), (ix["select B"], ix["select O3 R22"], ix["ground ozone"], ix["two objects alive"])]
    if "path" in case:
        _, succ = step((0, tuple(case["path"])))
        for o, _, msgs in succ:
            for m in msgs:
                rep.bad("after %s: %s" % ([names[i] for i in case["path"]], m))
        return
    global FULL
    FULL = case["full"]
    r = hist.search(roots, step, FULL + 1, 8, keep=lambda l, p: l < FULL or names[p[-1]].startswith("select"))
    rep.count("states", r["states"])
    rep.count("transitions", r["transitions"])
    rep.count("traces", r["transitions"])
    rep.count("depth", len(r["levels"]))
    for i in range(n):
        rep.outcome(names[i])
    rep.sample(dict(levels=r["levels"], operations=names))
    for path, op, msg in r["violations"]:
        if path and not rep.viol:
            rep.case["path"] = list(path)       # makes the replay re-run exactly this state
        rep.bad("after %s: %s" % ([names[i] for i in path], msg))
