"""C11: spectroscopic perturbations, parameter by parameter and line by line, and all short histories of them."""
import copy
import itertools
import numpy as np
PID = "C11"
LEVEL = "model_checking"
RULE = ("(a) every model x parameter x line index x mode through set_parameters/parameters_perturbation, the returned and the stored set compared entry by entry with the specification; (b) the same perturbations "
        "through the absorption routines against the reference model with that one coefficient changed; (c) simulations with neutral and perturbed sets against the reference; (d) all sequences of length 3 over 14 "
        "operations (store, perturb, perturb the perturbed, simulate, query) against a map-valued state machine; (e) the propagation formulas on a grid")
NOTE = "explicit enumeration of parameters x lines x modes and of all perturbation histories to depth 3 on the real code, reference model with the coefficient changed"
ASSUMPTIONS = ["oxygen lines from the 35th on are governed by the *_NL parameters, the others by the plain ones (as their names say)",
               "an index is given for parameters with an uncertainty per line; parameters with a single uncertainty are perturbed as a whole",
               "perturbations of coefficients the published model does not contain (R98 shift ratio, continuum coefficients of R98, R03, MWL24) change nothing"]
H_MAP = dict(con_Xf=("xcf", 1), con_Xs=("xcs", 1), FL=("fl", 1), S=("s1", 1), B2=("b2", 1), gamma_a=("w0", 1e-3), gamma_w=("w0s", 1e-3), n_a=("x", 1), n_w=("xs", 1),
             delta_a=("sh", 1e-3), delta_w=("shs", 1e-3), n_da=("xh", 1), n_dw=("xhs", 1), SR=("sr", 1), con_Cf=("cf", 1), con_Cs=("cs", 1))
O_MAP = dict(O2FL="f", O2S="s300", O2BE="be", WB300="wb300", X05="x", y0="y0", y1="y1", dnu0="dnu0", dnu1="dnu1")
NL = dict(O2gamma="w300", Y300="y300", O2_V="v")
Z_MAP = dict(O3_FL="fl", O3_S1="s1", O3_B="b", O3_W="w", O3_X="x", O3_SR="sr")
OLD = ("R98", "R03", "R16", "R17")
INERT = ("w2a", "Snr", "X11", "X16", "O2_nS", "wv_nS")


def load(tier):
    global impl, fix, ops, hist, R, SP, UN, A, TIER
    from mc import impl, fix, ops, hist
    import ref.physics as R
    import pyrtlib.absorption_model as A
    from pyrtlib.uncertainty import SpectroscopicParameter as SP, AbsModUncertainty as UN
    TIER = tier

    def go():
        try:
            UN.parameters_perturbation(["gamma_a"], "max", 0)
        except Exception:
            return True
    global UNSET
    UNSET = hist.forked(go)     # in a process that has stored nothing


def cases(tier):
    c = [dict(kind=k, sp=sp, m=m) for k in ("dict", "abs") for sp in ("H2O", "O2", "O3") for m in R.ORDER[sp]]
    c += [dict(kind="sim", h=h, o=o, z=R.ORDER["O3"][i % 3]) for i, (h, o) in enumerate(zip(R.ORDER["H2O"], list(R.ORDER["O2"]) + ["R17", "R03"]))]
    c += [dict(kind="seq", first=i, depth=3 if tier == "quick" else 4) for i in range(14)]
    c += [dict(kind="prop"), dict(kind="errors")]
    return c


def weight(c):
    return {"abs": 6 if c.get("sp") == "O2" else 3, "sim": 4, "seq": 5}.get(c["kind"], 1)


def query(sp, m):
    return {"H2O": SP.water_parameters, "O2": SP.oxygen_parameters, "O3": SP.ozono_parameters}[sp](m)


def lines(sp, m):
    return {k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in {"H2O": R.h2o_lines, "O2": R.o2_lines, "O3": R.o3_lines}[sp](m).items()}


def refparams(sp, m):
    """Name -> value of the parameters that belong to coefficients of the model."""
    L = lines(sp, m)
    out = {}
    if sp == "H2O":
        for k, (a, f) in H_MAP.items():
            if a in L:
                out[k] = L[a] / f
        if m == "R98":
            out["SR"] = np.zeros(len(L["fl"]))
        out["con_Cf_factr"], out["con_Cs_factr"] = (1.11, 0.79) if m in OLD else (1, 1)
    elif sp == "O2":
        for k, a in O_MAP.items():
            if a in L:
                out[k] = L[a]
        for k, a in NL.items():
            if a in L:
                out[k] = out[k + "_NL"] = L[a]
    else:
        for k, a in Z_MAP.items():
            out[k] = L[a]
    return out


def fromparams(sp, m, v):
    """Line list of the model for the parameter values v."""
    L = lines(sp, m)
    if sp == "H2O":
        for k, (a, f) in H_MAP.items():
            if k in v and a in L:
                L[a] = v[k] * f
        if m in OLD:
            L["cf"], L["cs"] = v["con_Cf"] * v["con_Cf_factr"], v["con_Cs"] * v["con_Cs_factr"]
    elif sp == "O2":
        for k, a in O_MAP.items():
            if k in v and a in L:
                L[a] = v[k]
        for k, a in NL.items():
            if k in v and a in L:
                L[a] = np.concatenate([np.asarray(v[k])[:34], np.asarray(v[k + "_NL"])[34:]])
    else:
        for k, a in Z_MAP.items():
            L[a] = v[k]
    return L


def values(p):
    return {k: (np.array(x.value, float) if isinstance(x.value, np.ndarray) else float(x.value)) for k, x in p.items()}


def pic(p):
    return {k: (np.array(x.value, float), np.array(x.uncer, float), x.units, x.refer, x.name) for k, x in p.items()}


def size(v):
    return len(v) if isinstance(v, np.ndarray) and v.ndim else 0


def give_uncertainty(p, per_line=True):
    """Non-zero, distinct uncertainties for every parameter; per line where the library has one per line."""
    for j, (k, x) in enumerate(sorted(p.items())):
        v = np.asarray(x.value, float)
        s = float(np.max(np.abs(v))) or 1.0
        if size(x.uncer) and per_line:
            x.uncer = (1e-3 + 1e-4 * np.arange(len(x.uncer))) * s * (1 + 0.01 * j)
        else:
            x.uncer = 2e-3 * s * (1 + 0.01 * j)


def spec(values0, uncer0, what, mode, index):
    out = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in values0.items()}
    sg = {"max": 1, "min": -1, "non": 0}[mode]
    for k in what:
        if isinstance(uncer0[k], float) or not size(out[k]):
            out[k] = out[k] + sg * uncer0[k]
        elif sg:
            out[k][index] += sg * uncer0[k][index]
    return out


def uncers(p):
    return {k: (np.array(x.uncer, float) if size(x.uncer) else float(x.uncer)) for k, x in p.items()}


def cmp(rep, got, want, tag):
    rep.check(sorted(got) == sorted(want), lambda: "%s: parameters %s instead of %s" % (tag, sorted(got), sorted(want)))
    for k in want:
        if k in got:
            rep.close(got[k].value, want[k], "%s: value of %s" % (tag, k), rtol=1e-13, atol=0)


H_ST = [(22.3, 1.5, 60.0, 1.1), (183.2, 0.4, 20.0, 1.3), (325.0, 2.2, 95.0, 1.02), (90.0, 2.0, 80.0, 0.98)]
O_ST = [(60.31, 1.0, 60.0, 1.1), (118.76, 0.2, 5.0, 1.3), (54.9, 1.0, 99.0, 1.04), (424.7, 0.4, 30.0, 1.2)]


def absorb(sp, m, amu, near=None):
    if sp == "H2O":
        o = impl.H2OAbsModel()
        st = H_ST if near is None else [(near, 1.2, 70.0, 1.05), (near * 1.003 + 0.6, 0.5, 30.0, 1.2), (31.4, 2.0, 80.0, 0.98)]
        return np.array([[float(np.squeeze(x)) for x in o.h2o_absorption(np.float64(p), np.float64(v), np.float64(e), np.float64(f), amu)] for f, e, p, v in st])
    if sp == "O2":
        o = impl.O2AbsModel()
        st = O_ST if near is None else [(near, 1.0, 40.0, 1.1), (near + 0.3, 0.2, 10.0, 1.25), (56.1, 1.0, 99.0, 1.04)]
        return np.array([[float(np.squeeze(x)) for x in o.o2_absorption(np.float64(p), np.float64(v), np.float64(e), np.float64(f), amu)] for f, e, p, v in st])
    o = impl.O3AbsModel()
    fs = [110.836, 101.737, 195.43] if near is None else [near, near + 0.013, near - 0.4]
    return np.array([float(np.squeeze(o.o3_absorption(np.float64(240.0), np.float64(15.0), np.float64(f), np.float64(4e18), amu))) for f in fs])


def ref_absorb(sp, m, L, near=None):
    if sp == "H2O":
        st = H_ST if near is None else [(near, 1.2, 70.0, 1.05), (near * 1.003 + 0.6, 0.5, 30.0, 1.2), (31.4, 2.0, 80.0, 0.98)]
        return np.array([R.h2o(m, p, v, e, f, L) for f, e, p, v in st], float)
    if sp == "O2":
        st = O_ST if near is None else [(near, 1.0, 40.0, 1.1), (near + 0.3, 0.2, 10.0, 1.25), (56.1, 1.0, 99.0, 1.04)]
        return np.array([R.o2(m, p, v, e, f, L) for f, e, p, v in st], float)
    fs = [110.836, 101.737, 195.43] if near is None else [near, near + 0.013, near - 0.4]
    return np.array([R.o3(m, 240.0, 15.0, f, 4e18, L) for f in fs])


def perturb(p, what, mode, idx):
    SP.set_parameters(p)
    return UN.parameters_perturbation(what, mode, idx)


def evaluate(case, rep):
    k = case["kind"]
    if k == "dict":
        sp, m = case["sp"], case["m"]
        p = query(sp, m)
        w = refparams(sp, m)
        for n in w:
            if not rep.check(n in p, "%s %s: parameter %s missing" % (sp, m, n)):
                continue
            rep.close(p[n].value, w[n], "%s %s: value of %s" % (sp, m, n), rtol=1e-12)
        for per_line in (True, False):
            p = query(sp, m)
            give_uncertainty(p, per_line)
            v0, u0 = values(p), uncers(p)
            before = pic(p)
            for n in p:
                ix = [None] + list(range(size(p[n].value))) if size(p[n].uncer) else [None, 0, 3]      # no index: all lines
                for mode, i in itertools.product(("max", "min", "non"), ix):
                    rep.count("states")
                    rep.count("transitions")
                    q = perturb(p, [n], mode, i)
                    tag = "%s %s %s %s[%s]" % (sp, m, mode, n, i)
                    cmp(rep, q, spec(v0, u0, [n], mode, i), tag)
                    d = ops.same(pic(p), before)
                    rep.check(not d, lambda: "%s changed the stored set: %s" % (tag, d))
                    if i in (None, 0):
                        bq = {x: y[1:] for x, y in pic(q).items()}
                        d = ops.same(bq, {x: y[1:] for x, y in before.items()})
                        rep.check(not d, lambda: "%s changed uncertainties or texts: %s" % (tag, d))
                        for x in q:
                            for a in ("value", "uncer"):
                                g, s = getattr(q[x], a), getattr(p[x], a)
                                if isinstance(g, np.ndarray) and isinstance(s, np.ndarray) and np.shares_memory(g, s):
                                    rep.bad("%s: %s of %s shares memory with the stored set" % (tag, a, x))
            # several parameters at once, all at once
            arr = [n for n in p if size(p[n].uncer)]
            sets = [list(c) for c in itertools.combinations(sorted(p), 2)][:: 1 if TIER == "thorough" else 3] + [[]]
            n0 = min([size(p[n].value) for n in arr] or [1])
            for what, mode in itertools.product(sets, ("max", "min")):
                i = (len(what) * 5 + len(what and what[0] or "")) % n0
                q = perturb(p, list(what), mode, i)
                rep.count("transitions")
                cmp(rep, q, spec(v0, u0, what or sorted(p), mode, i), "%s %s %s %s[%s]" % (sp, m, mode, what or "everything", i))
            # a name given twice must not keep the others from being perturbed
            for a, b in itertools.permutations(sorted(p)[:5], 2):
                for what in ([a, a, b], [a, b, a], [b, a, a]):
                    q = perturb(p, list(what), "max", 0)
                    rep.count("transitions")
                    once, twice = spec(v0, u0, [a, b], "max", 0), spec(v0, u0, what, "max", 0)
                    for k in once:
                        ok = any(not ops.same(np.asarray(q[k].value, float), np.asarray(w[k], float), 1e-13) for w in (once, twice))
                        rep.check(ok, lambda: "%s %s perturbing %s: value of %s is not the perturbed one" % (sp, m, what, k))
            d = ops.same(pic(p), before)
            rep.check(not d, lambda: "stored set changed: %s" % d)
            rep.outcome("%s %s %s" % (sp, m, sorted(p)))
        # each query is independent of the other, and of what is done to it
        a, b = query(sp, m), query(sp, m)
        for x in a:
            if isinstance(a[x].value, np.ndarray) and np.shares_memory(a[x].value, b[x].value):
                rep.bad("%s %s: two queries share the values of %s" % (sp, m, x))
            elif size(a[x].value):
                a[x].value[:] = -1.0
        for x, y in query(sp, m).items():
            rep.close(y.value, b[x].value, "%s %s: %s after a caller changed an earlier query" % (sp, m, x), rtol=0)
    elif k == "abs":
        sp, m = case["sp"], case["m"]
        p = query(sp, m)
        impl.select({sp: m})
        impl.SPECIES[sp].set_ll()
        if sp == "H2O":
            for x in ("con_Cf_factr", "con_Cs_factr"):
                p[x].value = 1.0
        L0 = lines(sp, m)
        base = absorb(sp, m, None)
        rep.close(base, ref_absorb(sp, m, L0), "%s %s without perturbation" % (sp, m), rtol=1e-8, atol=1e-14)
        rep.close(absorb(sp, m, p), base, "%s %s with unperturbed parameters" % (sp, m), rtol=1e-11, atol=1e-16)
        if sp == "H2O":
            for x in ("con_Cf_factr", "con_Cs_factr"):
                p[x].value = 1.2
            if m in OLD:
                rep.close(absorb(sp, m, p), ref_absorb(sp, m, fromparams(sp, m, values(p))), "%s %s continuum factors" % (sp, m), rtol=1e-8, atol=1e-14)
        give_uncertainty(p)
        for n in p:
            p[n].uncer = p[n].uncer * (3 if n in ("FL", "O2FL", "O3_FL") else 40)
        fl = np.asarray(L0["fl"] if sp != "O2" else L0["f"], float)
        v0, u0 = values(p), uncers(p)
        for j, n in enumerate(sorted(p)):
            ix = list(range(size(p[n].value))) if size(p[n].uncer) else [None]
            if sp == "O3" and len(ix) > 1:
                ix = sorted(set(ix[::5 if TIER == "quick" else 1] + [0, len(ix) - 1]))
            if n.endswith("FL"):
                # a per-line shift of 0.03 GHz; a common one where the uncertainty is a single number
                p[n].uncer = np.full(len(fl), 0.03) if size(p[n].uncer) else 0.03
                u0 = uncers(p)
            for i in ix:
                for mode in (("max", "min") if TIER == "thorough" or i is None else (("max", "min")[(i + j) % 2],)):
                    q = perturb(p, [n], mode, i)
                    near = None if i is None else float(fl[i])
                    if near is not None and near > 990:
                        near = None
                    got = absorb(sp, m, q, near)
                    w = spec(v0, u0, [n], mode, i)
                    L = fromparams(sp, m, w)
                    want = ref_absorb(sp, m, L, near)
                    tag = "%s %s %s %s[%s]" % (sp, m, mode, n, i)
                    rep.count("states")
                    rep.count("transitions")
                    rep.count("traces")
                    if n in INERT:
                        same = bool(np.all(np.abs(got - want) <= 1e-8 * np.abs(want) + 1e-14))
                        if same:
                            rep.bad("%s %s %s has no effect on the absorption" % (sp, m, n), "inert-parameters")
                        elif n == "w2a" and not np.allclose(got, want, rtol=0.02):
                            rep.bad("%s: got %s, expected a small change of %s" % (tag, got.tolist(), want.tolist()))
                    else:
                        rep.close(got, want, tag, rtol=1e-8, atol=1e-14)
                    if i in (None, 1):
                        rep.close(absorb(sp, m, None), base, "%s: unperturbed absorption afterwards" % tag, rtol=1e-13)
                    rep.outcome(got.tobytes())
        rep.close(absorb(sp, m, None), base, "%s %s: unperturbed absorption after all perturbations" % (sp, m), rtol=1e-13)
        d = ops.same({x: y.value for x, y in query(sp, m).items() if x in refparams(sp, m)}, refparams(sp, m), 1e-12)
        rep.check(not d, lambda: "%s %s: parameters after all perturbations: %s" % (sp, m, d))
    elif k == "sim":
        simulations(case, rep)
    elif k == "seq":
        sequences(case, rep)
    elif k == "prop":
        propagation(rep)
    else:
        errors(rep)


F = [22.3, 57.6, 110.836, 183.4]
CH = [("H2O", "gamma_a", 0), ("H2O", "S", 1), ("H2O", "n_w", 1), ("H2O", "con_Cs", None), ("H2O", "con_Xf", None), ("H2O", "FL", 1), ("H2O", "delta_a", 0), ("O2", "O2gamma", 12), ("O2", "O2S", 0),
      ("O2", "Y300", 5), ("O2", "y0", None), ("O2", "y1", None), ("O2", "X05", None), ("O2", "WB300", None), ("O2", "O2gamma_NL", None), ("O3", "O3_S1", 40), ("O3", "O3_W", 40)]


def simulations(case, rep):
    sel = dict(H2O=case["h"], O2=case["o"], O3=case["z"], N2="R20", LIQ="R20")
    a = fix.atm(1, 3)
    c = fix.cloud(a["z"], 0, 1, 0.2, 0.1)

    def run(opt, amu=None, late=False):
        rte = impl.TbCloudRTE(a["z"], a["p"], a["t"], a["rh"], np.array(F), np.array([90.0, 35.0]), o3n=a["o3n"] if opt["o3"] else None, amu=None if late else amu,
                              ray_tracing=opt["ray"], from_sat=opt["sat"], cloudy=opt["cloud"])
        if late:
            rte.set_amu(amu)
        if opt["cloud"]:
            rte.init_cloudy(c["cldh"], c["denice"], c["denliq"])
        return impl.as_result(*rte.execute(False), len(F), 2)

    def ref(opt, L=None):
        return R.simulate(a["z"], a["p"], a["t"], a["rh"], F, [90.0, 35.0], sel, sat=opt["sat"], ray=opt["ray"], o3n=a["o3n"] if opt["o3"] else None, cloud=c if opt["cloud"] else None, L=L)
    opts = [dict(sat=s, ray=r, o3=o, cloud=q) for s, r, o, q in [(True, False, True, False), (False, False, True, True), (True, True, False, True), (False, True, False, False)]]
    keys = ["tbtotal", "tauwet", "taudry", "awet", "adry"]
    for io, opt in enumerate(opts):
        def params():
            p = {}
            for s in ("H2O", "O2", "O3"):
                p.update(query(s, sel[s]))
            p["con_Cf_factr"].value = p["con_Cs_factr"].value = 1.0
            impl.select(sel)
            return p
        p = params()
        before = pic(p)
        plain = run(opt)
        tag = "%s %s" % (sel, opt)
        fix.compare(rep, plain, ref(opt), tag + " without perturbation", keys=keys)
        for late in (False, True):
            g = run(opt, p, late)
            for x in keys:
                rep.close(g[x], plain[x], "%s unperturbed parameters (%s): %s" % (tag, "set_amu" if late else "amu", x), rtol=1e-11, atol=1e-16)
        rep.check(not ops.same(pic(p), before), tag + ": parameters changed by the simulation")
        give_uncertainty(p)
        for j, (s, n, i) in enumerate(CH):
            if n not in p or (TIER == "quick" and (j + io) % 4):
                continue
            if s == "O3" and not opt["o3"]:
                continue
            if n in ("FL",):
                p[n].uncer = np.full(len(p[n].value), 0.05)
            else:
                p[n].uncer = p[n].uncer * 50
            if size(p[n].uncer) and i is None:
                i = 36
            v0, u0 = values(p), uncers(p)
            q = perturb(p, [n], "max", i)
            before = pic(q)
            g = run(opt, q, late=bool(j % 2))
            w = spec(v0, u0, [n], "max", i)
            L = {x: fromparams(x, sel[x], w) for x in ("H2O", "O2", "O3")}
            rep.count("states")
            rep.count("transitions", 2)
            rep.count("traces")
            fix.compare(rep, g, ref(opt, L), "%s %s[%s] perturbed" % (tag, n, i), keys=keys)
            rep.check(not ops.same(pic(q), before), "%s %s: perturbed parameters changed by the simulation" % (tag, n))
            after = run(opt)
            for x in keys:
                rep.close(after[x], plain[x], "%s after a simulation with %s[%s] perturbed: %s" % (tag, n, i, x), rtol=1e-13)
            rep.outcome(g["tbtotal"].tobytes())


SM, SO = "R19", "R20"


def seq_ops():
    o = [("store", 0), ("store", 1)]
    for n, mode, i in (("gamma_a", "max", 0), ("gamma_a", "min", 3), ("con_Xs", "max", None), ("O2S", "min", 0), ("O2gamma", "max", 7), ("X05", "min", None)):
        o.append(("perturb", n, mode, i))
    o += [("perturb", "gamma_w+O2S", "max", 2), ("store perturbed",), ("simulate perturbed",), ("simulate",), ("query",), ("edit perturbed",)]
    return o


def sequences(case, rep):
    """All histories of the given depth; one stored set, one set returned last."""
    O = seq_ops()
    a = fix.atm(1, 3)
    f = [22.3, 60.3]
    sel = dict(H2O=SM, O2=SO, N2="R20", LIQ="R20")
    refs = {}

    base = {**query("H2O", SM), **query("O2", SO)}

    def fresh(which):
        p = copy.deepcopy(base)
        give_uncertainty(p)
        if which:
            p["gamma_a"].value = p["gamma_a"].value * 1.2
            p["O2S"].uncer = 1e-18
        return p

    def simulate(amu):
        rte = impl.TbCloudRTE(a["z"], a["p"], a["t"], a["rh"], np.array(f), np.array([90.0]), amu=amu, from_sat=False)
        return np.asarray(rte.execute().tbtotal.values, float)

    def expect(v):
        key = b"" if v is None else b"".join(np.asarray(v[n], float).tobytes() for n in sorted(v))
        if key not in refs:
            L = None if v is None else {x: fromparams(x, sel[x], v) for x in ("H2O", "O2")}
            refs[key] = R.simulate(a["z"], a["p"], a["t"], a["rh"], f, [90.0], sel, sat=False, L=L)["tbtotal"][:, 0]
        return refs[key]

    def run(path):
        """Real run and specification side by side; returns the signature of the final state."""
        impl.select(sel)
        stored = last = None
        S = Lv = Lu = Su = None         # specification: values and uncertainties
        p = fresh(0)
        SP.set_parameters(p)
        stored, S, Su = p, values(p), uncers(p)
        for step, i in enumerate(path):
            op = O[i]
            tag = "history %s" % [O[x] for x in path[:step + 1]]
            final = step == len(path) - 1
            if op[0] == "store":
                stored = fresh(op[1])
                SP.set_parameters(stored)
                S, Su = values(stored), uncers(stored)
            elif op[0] == "perturb":
                what = op[1].split("+")
                last = UN.parameters_perturbation(what, op[2], op[3])
                Lv, Lu = spec(S, Su, what, op[2], op[3]), Su
            elif op[0] == "store perturbed":
                if last is None:
                    return None
                SP.set_parameters(last)
                stored, S, Su = last, Lv, Lu
            elif op[0] == "edit perturbed":
                if last is None:
                    return None
                if stored is last:
                    return None
                last["gamma_w"].value[:] = last["gamma_w"].value * 1.01
                Lv = dict(Lv, gamma_w=Lv["gamma_w"] * 1.01)
            elif op[0] == "query":
                g = {**query("H2O", SM), **query("O2", SO)}
                if True:
                    w = {**refparams("H2O", SM), **refparams("O2", SO)}
                    for n in w:
                        rep.close(g[n].value, w[n], tag + " " + n, rtol=1e-12)
            elif op[0] == "simulate":
                rep.close(simulate(None), expect(None), tag, rtol=1e-9)
            elif last is not None:
                rep.close(simulate(last), expect(Lv), tag, rtol=1e-9)
            if final:
                if last is not None:
                    cmp(rep, last, Lv, tag + ": returned set")
                cmp(rep, stored, S, tag + ": stored set")
        return repr((sorted((k, np.asarray(v).tobytes()) for k, v in S.items()), Lv and sorted((k, np.asarray(v).tobytes()) for k, v in Lv.items())))
    seen = set()
    for d in [case["depth"]]:
        for rest in itertools.product(range(len(O)), repeat=d - 1):
            s = run((case["first"],) + rest)
            rep.count("transitions", d)
            rep.count("traces")
            if s is not None:
                seen.add(s)
    rep.count("states", len(seen))
    for s in seen:
        rep.outcome(s)


def propagation(rep):
    P = UN.uncertainty_propagation
    A_ = [0.3, 2.0, 11.0, -4.0]
    for a_, b_, sa, sb, a, b in itertools.product(A_, [0.7, -3.0, 5.0], [0.0, 0.1, 0.5], [0.2, 0.4], [1.0, -2.0, 3.0, 0.5], [1.0, 2.5]):
        for cov in (0.0, 0.01, -0.005):
            w = dict()
            w["aA"] = (a * a_, abs(a) * sa)
            w["aA+bB"] = (a * a_ + b * b_, a * a * sa * sa + b * b * sb * sb + 2 * a * b * cov)
            w["aA-bB"] = (a * a_ - b * b_, a * a * sa * sa + b * b * sb * sb - 2 * a * b * cov)
            w["A*B"] = (a_ * b_, (sa / a_) ** 2 + (sb / b_) ** 2 + 2 * cov / (a_ * b_))
            w["A/B"] = (a_ / b_, (sa / a_) ** 2 + (sb / b_) ** 2 - 2 * cov / (a_ * b_))
            if a_ > 0:
                w["A^a"] = (a_ ** a, abs(a) * a_ ** (a - 1) * sa)
            for fun, (f, s) in w.items():
                if fun in ("aA+bB", "aA-bB", "A*B", "A/B"):
                    if s < 0:
                        continue
                    s = np.sqrt(s) * (abs(f) if fun in ("A*B", "A/B") else 1)
                rep.count("states")
                rep.count("transitions")
                g = P(fun, a_, b_, sa, sb, a, b, cov)
                tag = "%s A=%g B=%g sA=%g sB=%g a=%g b=%g cov=%g" % (fun, a_, b_, sa, sb, a, b, cov)
                rep.close(g[0], f, tag, rtol=1e-12)
                rep.close(g[1], s, tag + " uncertainty", rtol=1e-9, atol=1e-15)
                x = P(fun, np.array([a_, a_]), np.array([b_, b_]), np.array([sa, sa]), np.array([sb, sb]), a, b, cov)
                rep.close(x[0], [f, f], tag + " arrays", rtol=1e-12)
                rep.close(x[1], [s, s], tag + " arrays uncertainty", rtol=1e-9, atol=1e-15)
    g = P("aA", np.array([2.0]), np.array([3.0]), np.array([0.1]), np.array([0.2]))
    rep.close(g[0], [2.0], "defaults", rtol=0)
    rep.close(P("aA+bB", 2.0, 3.0, 0.3, 0.4)[1], 0.5, "defaults", rtol=1e-12)
    for bad in ("", "A-B", "a*A", None):
        refuse(rep, lambda: P(bad, 1.0, 1.0, 0.1, 0.1), "propagation function %r" % (bad,))


def refuse(rep, f, tag):
    rep.count("transitions")
    try:
        f()
    except (Exception, SystemExit):
        return
    rep.bad("%s is not refused" % tag)


def errors(rep):
    if not UNSET:
        rep.bad("perturbing before any parameters are stored is not refused")
    p = query("H2O", "R19")
    SP.set_parameters(p)
    rep.count("states")
    for w, mode, i in ((["gamma_a"], "up", 0), (["nothing"], "max", 0), (["gamma_a"], "ran", 0), (["gamma_a"], "max", 99)):
        refuse(rep, lambda: UN.parameters_perturbation(w, mode, i), "perturbation %s %s %s" % (w, mode, i))
        d = ops.same(pic(p), pic(query("H2O", "R19")))
        rep.check(not d, "stored set changed by a refused perturbation: %s" % d)
    rep.outcome("errors")
