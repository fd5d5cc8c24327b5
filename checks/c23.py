"""C23: objects alive at the same time: every interleaving of their steps gives each the results it gets alone."""
import hashlib, itertools, os, pickle
import numpy as np
PID = "C23"
LEVEL = "model_checking"
RULE = ("states: position of each object's program plus the process state reached; transitions: the next step of one of the objects (construct, set options, attach clouds, select models, "
        "execute, perturb, change a returned object). Ten programs of 4-6 steps (upwelling, downwelling, cloudy, refracted, perturbed, model-switching, weighting functions, direct calls, "
        "extrapolation, a failing one); all pairs of programs (also of one program with itself), all interleavings of each pair; thorough: also all triples of six programs with merged states. "
        "Every step's result is compared with the one of the same program run alone in a fresh process with the models then selected; earlier results are compared bit for bit at the end")
NOTE = "stateless enumeration of all interleavings on the real objects (forked process at each choice); oracle: each program alone in a fresh process"
ASSUMPTIONS = ["the models selected at the moment of an execution are an input (documented); registering a parameter set and perturbing it is one step"]


def load(tier):
    global impl, fix, ops, hist, SP, UN, WF, PE, AP, PROG
    from mc import impl, fix, ops, hist
    from pyrtlib.uncertainty import SpectroscopicParameter as SP, AbsModUncertainty as UN
    from pyrtlib.weighting_functions import WeightingFunctions as WF
    from pyrtlib.climatology import ProfileExtrapolation as PE, AtmosphericProfiles as AP
    PROG = programs()


A = dict(H2O="R98", O2="R98", N2="R98", LIQ="R98")
B = dict(H2O="R19SD", O2="R20", N2="R20", LIQ="R24", O3="R22")
START = dict(H2O="R17", O2="R19", N2="R19", LIQ="R16", O3="R18")


def mk(I, n, F="F", Ang="A", **k):
    o3 = k.pop("o3", False)
    return impl.TbCloudRTE(I[n + "z"], I[n + "p"], I[n + "t"], I[n + "rh"], I[F], I[Ang], o3n=I[n + "o3n"] if o3 else None, **k)


def ex(o):
    return ops.digest_sim(*o["r"].execute(False))


def programs():
    """name -> (list of steps; each takes the program's own dictionary; a step's value is compared if not None)"""
    P = {}

    def sat():
        def s0(o):
            o["I"] = ops.arrays()
            o["r"] = mk(o["I"], "P", from_sat=True)
        def s1(o):
            o["r"].emissivity = o["I"]["E"]
        def s2(o):
            return ex(o)
        def s3(o):
            o["r"].satellite = False
        return [s0, s1, s2, s3, s2]

    def cloud():
        def s0(o):
            o["I"] = ops.arrays()
            o["r"] = mk(o["I"], "Q", "F3", "A1", from_sat=False, cloudy=True, o3=True)
        def s1(o):
            o["r"].init_cloudy(o["I"]["Qcldh"], o["I"]["Qdenice"], o["I"]["Qdenliq"])
        def s2(o):
            return ex(o)
        def s3(o):
            o["r"].ray_tracing = True
            o["r"].ice = True
        return [s0, s1, s2, s3, s2]

    def topdown():
        def s0(o):
            o["I"] = ops.arrays()
            o["r"] = mk(o["I"], "D", ray_tracing=True, cloudy=True)
        def s1(o):
            o["r"].init_cloudy(o["I"]["Dcldh"], o["I"]["Ddenice"], o["I"]["Ddenliq"])
            o["r"].emissivity = 0.4
        def s2(o):
            return ex(o)
        def s3(o):
            o["r"].cloudy = False
        return [s0, s1, s2, s3, s2]

    def perturbed():
        def s0(o):
            p = ops.parameters("R19", "R22")
            p["gamma_a"].uncer = p["gamma_a"].value * 0.1
            o["p"] = p
        def s1(o):
            o["q"] = ops.perturb(o["p"], "gamma_a", "max", 0)
            return ops.dump(o["q"])
        def s2(o):
            o["I"] = ops.arrays()
            o["r"] = mk(o["I"], "P", from_sat=False, amu=o["q"])
            impl.select(dict(H2O="R19", O2="R22"))
            return ex(o)
        def s3(o):
            o["q2"] = ops.perturb(o["p"], "gamma_a", "min", 1)
            o["r"].set_amu(o["q2"])
        def s4(o):
            impl.select(dict(H2O="R19", O2="R22"))
            return ex(o)
        return [s0, s1, s2, s3, s4]

    def models():
        def s0(o):
            o["I"] = ops.arrays()
            o["r"] = mk(o["I"], "P", absmdl="R20")
        def s1(o):
            return ex(o)
        def s2(o):
            o["r"].init_absmdl("R03")
        def s3(o):
            impl.select(B)
        return [s0, s1, s2, s1, s3, s1]

    def wf():
        def s0(o):
            I = ops.arrays()
            o["w"] = WF(np.array([0.0, 1.0, 3.0]), I["Pp"], I["Pt"], I["Prh"], 1.0)
            o["w"].frequencies = np.array([23.8, 54.4])
        def s1(o):
            return o["w"].generate_wf()
        def s2(o):
            o["w"].satellite = False
            o["w"].model = "R98"
            o["w"].angle = 40.0
        return [s0, s1, s2, s1]

    def direct():
        def s0(o):
            impl.select(A)
        def s1(o):
            impl.H2OAbsModel.set_ll()
            impl.O2AbsModel.set_ll()
            impl.O3AbsModel.set_ll()
            return dict(h=[ops.h2o_abs(f) for f in (22.235, 90.0)], o=[ops.o2_abs(f) for f in (60.3, 118.75)], n=ops.n2_abs(90.0), l=ops.liq_abs(90.0), z=ops.o3_abs(110.85))
        def s2(o):
            impl.select(B)
        return [s0, s1, s2, s1]

    def extrap():
        def s0(o):
            o["e"] = PE()
            o["e"].height = np.array([0.0, 20.0, 51.5, 66.0, 90.0])
            o["f"] = PE()
            I = ops.arrays()
            o["x"] = (I["Pz"], (I["Pp"], I["Pt"], I["Prh"]))
        def s1(o):
            r = [np.array(v) for v in o["e"].profile_extrapolation(45.0, 1, *o["x"])]
            r += [np.array(v) for v in o["f"].profile_extrapolation(-33.0, 1, *o["x"])]
            r += [np.array(o["e"].height), np.array(o["f"].height)]
            return r
        def s2(o):
            z, p, d, t, md = AP.gl_atm(3)
            r = dict(z=z.copy(), md=md.copy())
            md[...] = t[...] = z[...] = -1.0
            o["f"].height = np.array([0.0, 52.5, 99.0])
            return r
        return [s0, s1, s2, s1]

    def broken():
        def s0(o):
            o["I"] = ops.arrays()
            o["p"] = ops.parameters("R98", "R98")
            del o["p"]["O2gamma"]
            o["r"] = mk(o["I"], "Q", from_sat=False, amu=o["p"])
            o["r"].emissivity = 0.2
        def s1(o):
            try:
                o["r"].execute()
            except KeyError:
                return "KeyError"
        def s2(o):
            o["r"].set_amu(None)
            o["r"]._uncertainty = False
            o["r"].satellite = True
        def s3(o):
            return ex(o)
        return [s0, s1, s2, s3]

    def owner():
        """A caller who overwrites everything it was handed or had handed over."""
        def s0(o):
            o["I"] = ops.arrays()
            o["r"] = mk(o["I"], "Q")
        def s1(o):
            df, d = o["r"].execute(False)
            r = ops.digest_sim(df, d)
            df.loc[:, :] = 555.0
            for k in d:
                d[k][...] = 777.0
            return r
        def s2(o):
            o["p"] = ops.parameters("R98", "R98", "R18")
            for v in o["p"].values():
                if isinstance(v.value, np.ndarray):
                    v.value[...] = 9.0
            impl.H2OAbsModel.implemented_models()["WaterVapour"][:] = []
        return [s0, s1, s2, s1]
    for f in (sat, cloud, topdown, perturbed, models, wf, direct, extrap, broken, owner):
        P[f.__name__] = f()
    return P


PAIRS = list(itertools.combinations_with_replacement(["sat", "cloud", "topdown", "perturbed", "models", "wf", "direct", "extrap", "broken", "owner"], 2))
TRIPLES = list(itertools.combinations_with_replacement(["sat", "cloud", "perturbed", "models", "wf", "broken"], 3))


def cases(tier):
    out = []
    for a, b in PAIRS:
        for first in ((0,) if a == b else (0, 1)):
            out.append(dict(progs=[a, b], first=first))
    if tier == "thorough":
        out += [dict(progs=list(t), first=None) for t in TRIPLES]
    return out


def weight(c):
    return len(c["progs"])


def alone(name, i, sel):
    """Value of step i of a program run alone in a fresh process, with the models selected at that step."""
    key = hashlib.blake2b(repr((name, i, sorted(sel.items(), key=repr))).encode(), digest_size=10).hexdigest()
    p = os.path.join(os.environ["VERIF_SCRATCH"], "c23-" + key)
    if not os.path.exists(p):
        def go():
            impl.select(START)
            o = {}
            for j in range(i):
                PROG[name][j](o)
            impl.select({k: v for k, v in sel.items() if v is not None})
            return outcome(name, i, o)
        r = hist.forked(go)
        with open(p + ".%d" % os.getpid(), "wb") as f:
            pickle.dump(r, f)
        os.rename(p + ".%d" % os.getpid(), p)
    with open(p, "rb") as f:
        return pickle.load(f)


def outcome(name, i, o):
    try:
        return ("ok", PROG[name][i](o))
    except (Exception, SystemExit) as e:
        return ("error", "%s %s" % (type(e).__name__, str(e)[:80]))


def bits(v):
    h = hashlib.blake2b(digest_size=10)
    hist._feed(h, v, 0, set())
    return h.hexdigest()


def step(progs, st, who, kept, rep_bad, tag):
    """Executes the next step of one object and judges it."""
    name, i = progs[who], st["pos"][who]
    sel = impl.selected()
    r = outcome(name, i, st["obj"][who])
    w = alone(name, i, sel)
    if r[0] != w[0] or (r[0] == "error" and r[1] != w[1]):
        rep_bad("%s: step %d of %s: %s instead of %s" % (tag, i, name, r[1] if r[0] == "error" else "a result", w[1] if w[0] == "error" else "a result"))
    elif r[0] == "ok" and (r[1] is not None or w[1] is not None):
        d = ops.same(r[1], w[1])
        if d:
            rep_bad("%s: step %d of %s: %s alone" % (tag, i, name, d))
    for n, v, b in kept:
        if bits(v) != b:
            rep_bad("%s: step %d of %s changed an earlier result of %s" % (tag, i, name, n))
    st["pos"][who] += 1
    if r[0] == "ok" and r[1] is not None:
        kept.append((name, r[1], bits(r[1])))


def evaluate(case, rep):
    progs = case["progs"]
    length = [len(PROG[n]) for n in progs]

    def go():
        impl.select(START)
        st = dict(pos=[0] * len(progs), obj=[{} for _ in progs])
        kept, count, viol, ends = [], 0, [], 0
        seen = set()

        def rec(path):
            nonlocal count, ends
            todo = [w for w in range(len(progs)) if st["pos"][w] < length[w]]
            if not path and case["first"] is not None:
                todo = [case["first"]]
            if not path and len(set(progs)) == 1:
                todo = todo[:1]
            if not todo:
                ends += 1
                return
            for w in todo:
                # the last possible choice needs no fork of its own
                def child(w=w):
                    out = []
                    p = path + (w,)
                    step(progs, st, w, kept, out.append, "schedule %s" % "".join(map(str, p)))
                    nonlocal count, ends, viol
                    count, ends, viol = 1, 0, out
                    dig = None
                    if len(progs) > 2:
                        dig = (tuple(st["pos"]), hist.library_state(st["obj"]))
                    if not viol and len(progs) == 2:
                        rec(p)
                    return count, ends, viol[:3], dig
                c, e, v, dig = hist.forked(child)
                count += c
                ends += e
                viol.extend(v)
                if len(viol) > 3:
                    return
        rec(())
        return count, ends, viol
    if len(progs) == 2:
        count, ends, viol = hist.forked(go)
        rep.count("states", count)
        rep.count("transitions", count)
        rep.count("traces", ends)
    else:
        # merged states: breadth first over schedules, equal (positions, digest) expanded once
        def reach(path):
            def run():
                impl.select(START)
                st = dict(pos=[0] * len(progs), obj=[{} for _ in progs])
                kept = []
                for w in path:
                    step(progs, st, w, kept, lambda m: None, "")
                out = []
                for w in range(len(progs)):
                    if st["pos"][w] >= length[w]:
                        continue

                    def child(w=w):
                        bad = []
                        step(progs, st, w, kept, bad.append, "schedule %s" % "".join(map(str, path + (w,))))
                        return bad, (tuple(st["pos"]), hist.library_state(st["obj"]))
                    out.append((w,) + hist.forked(child))
                return out
            return hist.forked(run)
        seen, frontier, viol, n = set(), [()], [], 0
        while frontier and len(viol) < 4:
            nxt = []
            for path in frontier:
                for w, bad, dig in reach(path):
                    n += 1
                    viol += bad
                    if dig not in seen:
                        seen.add(dig)
                        nxt.append(path + (w,))
            frontier = nxt
        rep.count("states", len(seen))
        rep.count("transitions", n)
        rep.count("traces", n)
    for v in viol[:4]:
        rep.bad("%s: %s" % (" + ".join(progs), v))
    rep.outcome("+".join(progs))
    rep.sample(dict(programs=progs))
