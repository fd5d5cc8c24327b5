"""C26: simulations and queries running in several threads give the results they give alone."""
import itertools, os, sys
import numpy as np
PID = "C26"
LEVEL = "model_checking"
RULE = ("states: positions of the threads in the real code; transitions: context switches before a source line of the package. Eleven thread bodies (upwelling with emissivity, refracted downwelling, cloudy with ozone over ice, "
        "perturbed parameters, kept object executed twice, direct absorption calls, parameter queries, conversions, extrapolation, catalogues, reanalysis file); each is preempted once before each of its source "
        "lines by a thread that runs others to the end, and then goes on: the last visit of every line with everything used before, the first visit in a process in which nothing was used yet (lazily filled tables); pairs of bodies with two preemptions at the entries of all functions; thorough: every visit, all the others in two orders, all ordered pairs, every line for two preemptions, three threads. "
        "Each thread's result must equal its result alone, no exception, no deadlock, and the netCDF library, which is not safe for threads, is never entered by two threads without a common lock")
NOTE = "stateless exploration of the real code under a controlled scheduler (one running thread, preemption before source lines, locks known to the scheduler), preemption bound 1 and 2; oracle: each thread alone; lock-set monitor on netCDF files"
ASSUMPTIONS = ["no thread selects absorption models or stores parameter sets meanwhile (both are process-wide settings; weighting-function objects and queries of the parameters of another model select models)",
               "preemption within a source line is not explored; numpy and pandas themselves are safe for threads"]
SELS = [dict(H2O="R22SD", O2="R22", N2="R20", LIQ="R20", O3="R22"), dict(H2O="R98", O2="R98", N2="R98", LIQ="R98", O3="R18"), dict(H2O="R24", O2="R24", N2="R24", LIQ="R24", O3="R22")]
CTX = {}


def load(tier):
    global impl, fix, ops, hist, core, sched, SP, UN, U, A, AP, PE, ERA, BODY
    from mc import sched, core
    sched.locks()
    sched.import_all()
    from mc import impl, fix, ops, hist
    import pyrtlib.utils as U
    import pyrtlib.absorption_model as A
    from pyrtlib.uncertainty import SpectroscopicParameter as SP, AbsModUncertainty as UN
    from pyrtlib.climatology import AtmosphericProfiles as AP, ProfileExtrapolation as PE
    from pyrtlib.apiwebservices import ERA5Reanalysis as ERA
    watch()
    BODY = bodies()
    from checks import c18
    c18.load(tier)
    CTX["era"] = os.path.join(os.environ["VERIF_SCRATCH"], "c26.nc")
    if not os.path.exists(CTX["era"]):
        c18.write(CTX["era"], [40.0, 41.0], [10.0, 11.0], c18.LEVELS[:3], [1051898])


def watch():
    """Every opening and closing of a netCDF file in a scheduled thread is recorded with the locks held."""
    import netCDF4
    for m in [m for n, m in sys.modules.items() if n.startswith("pyrtlib") or n == "netCDF4"]:
        D = vars(m).get("Dataset")
        if D is None or getattr(D, "_watched", False):
            continue

        def make(D):
            def opened(*a, **k):
                note()
                return D(*a, **k)
            opened._watched = True
            return opened
        m.Dataset = make(D)


ACC = []


def note():
    c = sched.current()
    if c:
        ACC.append((c[1], frozenset(id(x) for x in c[0].held[c[1]])))


def bodies():
    F1, A1 = np.array([22.235]), np.array([30.0])

    def sim(k, F, ang, o3=False, cloud=False, emis=None, ice=False, twice=False, amu=False, **kw):
        a = CTX["atm", k]
        r = impl.TbCloudRTE(a["z"], a["p"], a["t"], a["rh"], F, ang, o3n=a["o3n"] if o3 else None, amu=CTX["amu"] if amu else None, cloudy=cloud, **kw)
        if emis is not None:
            r.emissivity = emis
        r.ice = ice
        if cloud:
            c = CTX["cloud", k]
            r.init_cloudy(c["cldh"], c["denice"], c["denliq"])
        o = ops.digest_sim(*r.execute(False))
        if twice:
            r.satellite = not r.satellite
            return [o, ops.digest_sim(*r.execute(False))]
        return o
    B = {}
    B["upwelling"] = lambda: sim(0, np.array([31.4]), np.array([90.0]), emis=0.55, from_sat=True)
    B["downwelling refracted"] = lambda: sim(1, F1, np.array([12.0]), ray_tracing=True, from_sat=False)
    B["cloudy ozone ice"] = lambda: sim(2, np.array([110.8]), A1, o3=True, cloud=True, ice=True, from_sat=True, emis=np.array([0.9]))
    B["perturbed"] = lambda: sim(0, np.array([60.0]), np.array([90.0]), amu=True, from_sat=False)
    # counterparts differing in every input, run by the preempting thread
    B["cloudy downwelling"] = lambda: sim(3, np.array([36.5]), np.array([60.0]), cloud=True, from_sat=False)
    B["refracted upwelling"] = lambda: sim(4, np.array([157.0]), np.array([35.0]), ray_tracing=True, emis=0.7, from_sat=True)
    B["twice"] = lambda: sim(3, np.array([183.0]), np.array([50.0]), twice=True, emis=0.8)

    def direct():
        impl.H2OAbsModel.set_ll()
        impl.O2AbsModel.set_ll()
        impl.O3AbsModel.set_ll()
        return dict(h=ops.h2o_abs(23.0), o=ops.o2_abs(118.75), n=ops.n2_abs(90.0), l=ops.liq_abs(90.0), z=ops.o3_abs(110.85))
    B["direct"] = direct

    def params():
        return [ops.dump(p) for p in (SP.water_parameters(CTX["sel"]["H2O"]), SP.oxygen_parameters(CTX["sel"]["O2"]), SP.ozono_parameters(CTX["sel"]["O3"]), UN.parameters_perturbation(["gamma_a", "O2gamma"], "max", 1))]
    B["parameters"] = params

    def conv():
        t, p, mr = np.array([260.0, 285.0]), np.array([500.0, 900.0]), np.array([1.0, 8.0])
        return [U.mr2rh(p, t, mr)[0], U.satmix(p, t), U.rho2rh(mr, t, p), U.rho2mr(mr, t, p), U.mr2e(p, mr), U.ppmv2gkg(mr, 1), U.atmospheric_tickness(p[::-1], t, mr), U.virtual_temperature(t, mr),
                U.dewpoint2rh(mr, mr + 3), U.kgkg_to_kgm3(mr, p, t), U.ppmv_to_moleculesm3(mr, p, t), U.pressure_to_height(p), U.height_to_pressure(mr), U.satvap(t)]
    B["conversions"] = conv

    def extrap():
        a = CTX["atm", 0]
        e = PE()
        return [np.asarray(x) for x in e.profile_extrapolation(30.0, 7, a["z"], (a["p"], a["t"], a["rh"]))] + [e.temperature(60.0, np.array([12.0, 50.0]), "winter"), e.standard_pressure(np.array([12.0]), 288.15, 1013.25)]
    B["extrapolation"] = extrap

    def cat():
        z, p, d, t, md = AP.gl_atm(AP.US_STANDARD)
        return [z, p, d, t, md, AP.gl_atm_minor(10), AP.gl_atm_trace(29), U.get_frequencies("hat"), U.get_frequencies_sat("ATMS"), impl.AbsModel.implemented_models(), U.constants("avogadro")[0], sorted(AP.atm_profiles().items())]
    B["catalogue"] = cat

    def era():
        d = ERA.read_data(CTX["era"], (10.9, 40.2))
        return {c: d[c].values.copy() if d[c].dtype != object and "time" not in c else [str(x) for x in d[c]] for c in d.columns}
    B["reanalysis"] = era
    for n, l in ALL.items():
        B[n] = lambda l=l: {x: B[x]() for x in l}
    return B


SIMS = ["upwelling", "downwelling refracted", "cloudy ozone ice", "perturbed", "twice"]


def setup(sel):
    CTX["sel"] = sel
    impl.select(sel)
    for k in range(5):
        a = {x: v[:2 + k // 4].copy() for x, v in fix.atm(k, 3, 0.0).items()}
        if k == 3:
            a = {x: v[::-1].copy() for x, v in a.items()}
        CTX["atm", k] = a
        z = a["z"]
        CTX["cloud", k] = fix.cloud(z, 0, 1, 0.3, 0.2)
    p = ops.parameters(sel["H2O"], sel["O2"])
    p["gamma_a"].value = p["gamma_a"].value * 1.05
    CTX["amu"] = p
    CTX["stored"] = ops.parameters("R19", "R22")
    ready()


def ready():
    SP.set_parameters(CTX["stored"])
    impl.select(CTX["sel"])        # parameter queries select the model they ask for


NAMES = ["upwelling", "downwelling refracted", "cloudy ozone ice", "perturbed", "twice", "direct", "parameters", "conversions", "extrapolation", "catalogue", "reanalysis"]
ALL = {"some": ["conversions", "parameters", "direct", "cloudy ozone ice", "downwelling refracted"],
       "others": ["extrapolation", "catalogue", "reanalysis", "perturbed", "cloudy downwelling", "refracted upwelling"],
       "all": NAMES + ["cloudy downwelling"], "all backwards": ["refracted upwelling"] + NAMES[::-1]}


def cases(tier):
    deep = tier == "thorough"
    out = []
    for s in range(len(SELS)):
        for a in NAMES:
            for b in ALL if deep else ("some", "others"):
                if deep or s == 0 and a != "twice" or (a in ("direct", "perturbed") and b == "some") or (s == 1 and a == "twice"):
                    out.append(dict(kind="one", sel=s, a=a, b=b, visits=1 if not deep else 10 ** 9))
        for a, b in itertools.product(NAMES, repeat=2):
            if deep:
                out.append(dict(kind="one", sel=s, a=a, b=b, visits=4))
            if deep or (s == 0 and (a, b) in QUICK2):
                out.append(dict(kind="two", sel=s, a=a, b=b, grain="function" if deep else "first"))
            if deep and a in SIMS[:3] and b in SIMS[:3] and s == 0:
                out += [dict(kind="two", sel=s, a=a, b=b, grain="line", part=[i, 16]) for i in range(16)]
    if deep:
        out += [dict(kind="three", sel=0, first=i, names=t) for t in ([SIMS[:3], ["direct", "perturbed", "cloudy ozone ice"], ["parameters", "extrapolation", "catalogue"]]) for i in range(3)]
    for a in NAMES:
        for b in ALL if deep else ("all",):
            n = 8 if deep else 2
            out += [dict(kind="cold", sel=1, a=a, b=b, visits=4 if deep else 2, part=i, parts=n) for i in range(n)]
    return out


QUICK2 = [("upwelling", "downwelling refracted"), ("downwelling refracted", "upwelling"), ("direct", "direct"), ("direct", "parameters"), ("extrapolation", "extrapolation"),
          ("catalogue", "direct"), ("conversions", "conversions"), ("reanalysis", "direct"), ("parameters", "parameters")]


def weight(c):
    w = {"upwelling": 5, "downwelling refracted": 5, "cloudy ozone ice": 6, "perturbed": 5, "twice": 10, "direct": 3, "some": 8, "others": 8, "all": 12, "all backwards": 12}
    n = w.get(c.get("a"), 1) * (w.get(c.get("a"), 1) + w.get(c.get("b"), 1))
    return n * (3 if c["kind"] == "two" else 1) if c["kind"] != "three" else 200


def alone(n):
    """(result, source lines passed)"""
    r = sched.Run([BODY[n]], record=True)
    ok, v = r.run()[0]
    if not ok:
        raise RuntimeError("%s alone: %s" % (n, v))
    return v, r.trace[0]


def points(trace, visits, final=True):
    """Steps at which to preempt: the first visits-1 visits and (final) the last visit of every line."""
    seen, last = {}, {}
    out = set()
    for i, l in enumerate(trace):
        seen[l] = seen.get(l, 0) + 1
        if seen[l] < visits:
            out.add(i)
        last[l] = i
    return sorted(out | set(last.values() if final else ()))


def entries(trace, only_first=False):
    """First and last visit of the lines at which control enters or returns to a function."""
    out, first = set(), {}
    for i, l in enumerate(trace):
        if i == 0 or trace[i - 1][:2] != l[:2]:
            first.setdefault(l, []).append(i)
    for l, v in first.items():
        out |= {v[0]} if only_first else {v[0], v[-1]}
    return sorted(out)


def judge(rep, names, want, run, out, plan):
    rep.count("traces")
    rep.count("states", run.switches)
    rep.count("transitions", run.switches + len(names))
    where = lambda: ", ".join("%s preempted at step %d" % (names[t], s) for t in plan for s in plan[t])
    for i, n in enumerate(names):
        ok, v = out[i]
        if not ok:
            return rep.bad("threads %s: %s: %s raises %s" % (names, where(), n, v))
        d = ops.same(v, want[n])
        if d:
            return rep.bad("threads %s: %s: %s: %s" % (names, where(), n, d))
    for t, held in ACC:
        for t2, held2 in ACC:
            if t != t2 and not held & held2:
                return rep.bad("threads %s: %s: %s and %s read netCDF files without a common lock" % (names, where(), names[t], names[t2]))
    return True


def go(rep, names, want, plan, first=0):
    ACC.clear()
    r = sched.Run([BODY[n] for n in names], plan)
    try:
        out = r.run(first)
    except sched.Deadlock as e:
        return rep.bad("threads %s, plan %s: %s" % (names, plan, e))
    return judge(rep, names, want, r, out, plan)


def merge(rep, p):
    for k, v in p["counts"].items():
        rep.count(k, v)
    rep.outcomes |= p["outcomes"]
    for x in p["samples"]:
        rep.sample(x)
    for m in p["viol"]:
        rep.bad(m)


def apart(rep, case, fn, timeout=600):
    """Runs fn(reporter) in a forked copy of this process."""
    def inner():
        r = core.Reporter(case, rep.known)
        try:
            fn(r)
        except core.TooMany:
            pass
        return r.payload()
    try:
        p = hist.forked(inner, timeout)
    except RuntimeError as e:
        return rep.bad(str(e))
    merge(rep, p)


def evaluate(case, rep):
    (cold if case["kind"] == "cold" else lambda case, rep: apart(rep, case, lambda r: warm(case, r)))(case, rep)


def cold(case, rep):
    """Nothing has been used in this process: every schedule starts in a copy of it (lazily filled tables and caches are empty)."""
    def inputs():
        setup(SELS[case["sel"]])
        return {k: v for k, v in CTX.items() if k != "era"}
    CTX.update(hist.forked(inputs))
    ready()
    names = [case["a"], case["b"]]
    want, tr = {}, {}
    for n in names:
        want[n], tr[n] = hist.forked(lambda: alone(n))
    for s in points(tr[names[0]], case["visits"], False)[case["part"]::case["parts"]]:
        apart(rep, case, lambda r: go(r, names, want, {0: {s: 1}}))
    rep.outcome((names, len(tr[names[0]])))
    rep.sample(dict(case, lines=len(tr[names[0]])))


def warm(case, rep):
    setup(SELS[case["sel"]])
    names = case.get("names") or [case["a"], case["b"]]
    want, tr = {}, {}
    for n in sorted(set(names)):
        BODY[n]()
        want[n], tr[n] = alone(n)
    if case["kind"] == "one":
        for s in points(tr[names[0]], case["visits"]):
            go(rep, names, want, {0: {s: 1}})
        rep.outcome((names, len(tr[names[0]])))
    elif case["kind"] == "two":
        pa, pb = (entries(tr[n], case["grain"] == "first") if case["grain"] != "line" else points(tr[n], 2) for n in names)
        if case.get("part"):
            pa = pa[case["part"][0]::case["part"][1]]
        for s, t in itertools.product(pa, pb):
            go(rep, names, want, {0: {s: 1}, 1: {t: 0}})
        rep.outcome((names, len(pa), len(pb)))
    else:
        f = case["first"]
        o = [i for i in range(3) if i != f]
        for s in entries(tr[names[f]]):
            for x, y in (o, o[::-1]):
                for t in entries(tr[names[x]])[::4]:
                    go(rep, names, want, {f: {s: x}, x: {t: y}}, f)
        rep.outcome((names, f))
    for n in set(names):
        d = ops.same(BODY[n](), want[n])
        rep.check(not d, "%s after the schedules: %s" % (n, d))
    rep.sample(dict(case, lines=len(tr[names[0]])))
