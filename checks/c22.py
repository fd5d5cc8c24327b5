"""C22: every combination of simulation options, and every short history of option changes, against the composed reference."""
import itertools
import numpy as np
PID = "C22"
LEVEL = "model_checking"
RULE = ("states: option vectors (direction, path, clouds, ozone, emissivity, observer height, perturbed parameters, ice saturation, model set); the full product is run with the options given at construction and again with "
        "every option set on an object constructed and executed with the opposite ones; all sequences of 2 (thorough 3) of 17 option changes on one object with an execution after each, all triples of 6 toggles, "
        "all interleavings of two live objects; table columns, rows, entries and shapes for 1-3 frequencies x 1-3 angles x 2-5 levels")
NOTE = "explicit product and history enumeration on the real objects; specification: the option vector decides the result, computed by the independent reference"
ASSUMPTIONS = ["clouds lie on levels of the profile", "perturbed parameters belong to the selected models", "ozone profiles are set together with an ozone model"]
F = [22.235, 110.836]
ANG = [90.0, 35.0]
MODELS = {"A": dict(H2O="R19", O2="R19SD", N2="R03", LIQ="R16", O3="R22"),
          "B": dict(H2O="R17", O2="R17", N2="R17", LIQ="R17", O3="R18"),
          "C": dict(H2O="R24", O2="R24", N2="R24", LIQ="R24", O3="R23")}
EMIS = {"one": None, "half": 0.5, "array": np.array([0.9, 0.3])}
OPTS = dict(sat=(True, False), ray=(False, True), cloud=(None, 0, 1), o3=(False, True), emis=("one", "half", "array"), ice=(False, True), amu=(False, True), model=("A", "B", "C"))
N = 4


def load(tier):
    global impl, fix, ops, R, c11, TIER, REF, ABS
    from mc import impl, fix, ops
    import ref.physics as R
    from checks import c11
    c11.load(tier)
    TIER = tier
    REF, ABS = {}, {}


CHANGES = ([("sat", True), ("sat", False), ("ray", True), ("ray", False), ("cloud", None), ("cloud", 0), ("cloud", 1), ("o3", True), ("o3", False),
            ("emis", "half"), ("emis", "array"), ("ice", True), ("ice", False), ("amu", True), ("amu", False), ("model", "A"), ("model", "C")])
TOGGLES = ["sat", "ray", "cloud", "o3", "ice", "emis"]


def cases(tier):
    out = []
    for m, amu, o3, z0 in itertools.product("ABC", (False, True), (False, True), (0.0, 0.7)):
        for cl in (None, 0, 1):
            if cl == 1 and tier == "quick" and z0 == 0.0:
                continue
            out.append(dict(kind="product", model=m, amu=amu, o3=o3, z0=z0, cloud=cl))
    n = 2 if tier == "quick" else 3
    for i in range(len(CHANGES)):
        out.append(dict(kind="seq", first=i, n=n, z0=0.7 * (i % 2)))
    for t in itertools.product(range(6), repeat=1 if tier == "quick" else 2):
        out.append(dict(kind="toggle", first=list(t), n=3 if tier == "quick" else 4))
    out += [dict(kind="pair", i=i) for i in range(6)]
    out += [dict(kind="shape", nf=f, na=a) for f in (1, 2, 3) for a in (1, 2, 3)]
    return out


def weight(c):
    return {"product": 3, "seq": 4, "toggle": 4, "pair": 2, "shape": 2}[c["kind"]]


def prof(z0):
    return fix.atm(3, N, z0)


def clouds(z, which):
    if which == 0:
        return fix.cloud(z, 0, 1, 0.25, 0.1)
    n = len(z)
    return dict(cldh=np.array([[z[1]], [z[n - 1]]]), denliq=np.linspace(0.05, 0.2, n), denice=np.linspace(0.3, 0.02, n))


_amu = {}


def amu(m):
    """Parameters of the model set with several perturbed, and the line lists they mean."""
    s = MODELS[m]
    p = {}
    keep = impl.selected()
    for x in ("H2O", "O2", "O3"):
        p.update(c11.query(x, s[x]))
    impl.select({k: v for k, v in keep.items() if v})
    p["con_Cf_factr"].value = p["con_Cs_factr"].value = 1.0
    p["gamma_a"].value = p["gamma_a"].value * 1.2
    p["con_Cf"].value = p["con_Cf"].value * 1.3
    p["WB300"].value = p["WB300"].value * 1.05
    p["O2S"].value = p["O2S"].value * 0.9
    p["O3_W"].value = p["O3_W"].value * 1.4
    v = c11.values(p)
    return p, {x: c11.fromparams(x, s[x], v) for x in ("H2O", "O2", "O3")}


def want(o, z0):
    key = (tuple(sorted(o.items(), key=str)), z0)
    if key not in REF:
        a = prof(z0)
        L = None
        if o["amu"]:
            if o["model"] not in _amu:
                _amu[o["model"]] = amu(o["model"])[1]
            L = _amu[o["model"]]
        REF[key] = R.simulate(a["z"], a["p"], a["t"], a["rh"], F, ANG, MODELS[o["model"]], sat=o["sat"], ray=o["ray"], emis=1.0 if EMIS[o["emis"]] is None else EMIS[o["emis"]],
                              o3n=a["o3n"] if o["o3"] else None, cloud=None if o["cloud"] is None else clouds(a["z"], o["cloud"]), ice=o["ice"], L=L)
    return REF[key]


def setopt(rte, a, o, k):
    """Sets option k of the vector o on a live object."""
    if k == "sat":
        rte.satellite = o["sat"]
    elif k == "ray":
        rte.ray_tracing = o["ray"]
    elif k == "ice":
        rte.ice = o["ice"]
    elif k == "emis":
        e = EMIS[o["emis"]]
        rte.emissivity = 1.0 if e is None else (e.copy() if isinstance(e, np.ndarray) else e)
    elif k == "cloud":
        rte.cloudy = o["cloud"] is not None
        if rte.cloudy:
            c = clouds(a["z"], o["cloud"])
            rte.init_cloudy(c["cldh"], c["denice"], c["denliq"])
    elif k == "o3":
        rte.o3n = a["o3n"].copy() if o["o3"] else None
    elif k in ("amu", "model"):
        if k == "model" and len(set(MODELS[o["model"]][x] for x in ("H2O", "O2", "N2", "LIQ"))) == 1:
            rte.init_absmdl(MODELS[o["model"]]["H2O"])
            impl.select({"O3": MODELS[o["model"]]["O3"]})
        else:
            impl.select(MODELS[o["model"]])
        rte.set_amu(amu(o["model"])[0] if o["amu"] else None)


def construct(a, o, form=0):
    s = MODELS[o["model"]]
    same = len(set(s[x] for x in ("H2O", "O2", "N2", "LIQ"))) == 1
    p = amu(o["model"])[0] if o["amu"] else None
    if same:
        impl.select(MODELS["A"])
        impl.select({"O3": s["O3"]})
    else:
        impl.select(s)
    kw = dict(o3n=a["o3n"].copy() if o["o3"] else None, amu=p, absmdl=s["H2O"] if same else "", ray_tracing=o["ray"], from_sat=o["sat"], cloudy=o["cloud"] is not None)
    if form:
        # defaults are left out
        kw = {k: v for k, v in kw.items() if not (v is None or (isinstance(v, str) and v == "") or (k in ("ray_tracing", "cloudy") and v is False) or (k == "from_sat" and v is True))}
    rte = impl.TbCloudRTE(a["z"].copy(), a["p"].copy(), a["t"].copy(), a["rh"].copy(), np.array(F), np.array(ANG), **kw)
    if o["ice"]:
        rte.ice = True
    if o["emis"] != "one":
        setopt(rte, a, o, "emis")
    if o["cloud"] is not None:
        setopt(rte, a, o, "cloud")
    return rte


def judge(rep, rte, o, z0, tag):
    df, d = rte.execute(False)
    layout(rep, df, d, F, ANG, N, tag)
    fix.compare(rep, impl.as_result(df, d, len(F), len(ANG)), want(o, z0), tag, keys=KEYS)
    rep.count("states")
    rep.count("transitions")
    rep.outcome(df.tbtotal.values.tobytes())


KEYS = ["tbtotal", "tbatm", "tmr", "tmrcld", "tauwet", "taudry", "tauliq", "tauice", "taulaywet", "taulaydry", "taulayliq", "taulayice", "awet", "adry", "srho", "swet", "sdry", "sliq", "sice"]


def layout(rep, df, d, frq, ang, nl, tag):
    nf, na = len(frq), len(ang)
    rep.check(list(df.columns) == R.COLUMNS, lambda: "%s: columns %s" % (tag, list(df.columns)))
    rep.check(len(df) == nf * na, lambda: "%s: %d rows for %d frequencies and %d angles" % (tag, len(df), nf, na))
    rep.close(df["angle"].values, np.repeat(np.asarray(ang, float), nf), tag + " angle column")
    rep.check(sorted(d) == sorted(R.ENTRIES), lambda: "%s: entries %s" % (tag, sorted(d)))
    for k in d:
        w = (1, na) if k in ("srho", "swet", "sdry", "sliq", "sice") else (nf, na, nl)
        rep.check(np.shape(d[k]) == w, lambda: "%s: shape of %s is %s" % (tag, k, np.shape(d[k])))


def opposite(o):
    return dict(sat=not o["sat"], ray=not o["ray"], cloud=0 if o["cloud"] is None else (None if o["cloud"] == 1 else 1), o3=not o["o3"],
                emis={"one": "array", "half": "one", "array": "half"}[o["emis"]], ice=not o["ice"], amu=not o["amu"], model={"A": "B", "B": "C", "C": "A"}[o["model"]])


def evaluate(case, rep):
    k = case["kind"]
    if k == "product":
        z0 = case["z0"]
        a = prof(z0)
        i = 0
        for sat, ray, emis, ice in itertools.product(*(OPTS[x] for x in ("sat", "ray", "emis", "ice"))):
            o = dict(sat=sat, ray=ray, emis=emis, ice=ice, **{x: case[x] for x in ("model", "amu", "o3", "cloud")})
            tag = "%s z0=%g" % (o, z0)
            judge(rep, construct(a, o, i % 2), o, z0, tag + " at construction")
            p = opposite(o)
            rte = construct(a, p)
            if TIER == "thorough" or i % 2:
                judge(rep, rte, p, z0, "%s z0=%g before the change" % (p, z0))
            order = ["model", "sat", "cloud", "o3", "ray", "emis", "amu", "ice"]
            if i % 3 == 1:
                order = order[::-1]
            for x in order:
                setopt(rte, a, o, x)
            judge(rep, rte, o, z0, tag + " set afterwards")
            if i % 5 == 0:
                t = rte.execute()
                rep.check(hasattr(t, "columns") and list(t.columns) == R.COLUMNS, tag + ": execute() does not return the table")
                rep.close(t["tbtotal"].values, want(o, z0)["tbtotal"].T.ravel(), tag + ": execute() after execute(False)", rtol=1e-8)
            rep.count("traces", 2)
            i += 1
    elif k == "seq":
        for rest in itertools.product(range(len(CHANGES)), repeat=case["n"] - 1):
            path = [CHANGES[case["first"]]] + [CHANGES[j] for j in rest]
            o = dict(sat=True, ray=False, cloud=None, o3=False, emis="one", ice=False, amu=False, model="B") if case["first"] % 2 else \
                dict(sat=False, ray=True, cloud=1, o3=True, emis="half", ice=True, amu=True, model="A")
            walk(rep, path, o, case["z0"])
    elif k == "toggle":
        for rest in itertools.product(range(6), repeat=case["n"] - len(case["first"])):
            o = dict(sat=False, ray=False, cloud=None, o3=False, emis="one", ice=False, amu=False, model="C")
            path, cur = [], dict(o)
            for j in list(case["first"]) + list(rest):
                x = TOGGLES[j]
                cur[x] = opposite(cur)[x]
                path.append((x, cur[x]))
            walk(rep, path, o, 0.0)
    elif k == "pair":
        pairs(case, rep)
    else:
        shapes(case, rep)


def walk(rep, path, o, z0):
    a = prof(z0)
    o = dict(o)
    rte = construct(a, o)
    if path[0][0] in ("sat", "cloud", "amu"):
        judge(rep, rte, o, z0, "%s first execution" % o)
    done = []
    for x, v in path:
        o[x] = v
        setopt(rte, a, o, x)
        done.append("%s=%s" % (x, v))
        judge(rep, rte, o, z0, "z0=%g after %s; options %s" % (z0, ", ".join(done), o))
    rep.count("traces")


def pairs(case, rep):
    """Two live objects: every interleaving of (change, execute) of one with (change, execute) of the other."""
    base = [dict(sat=True, ray=False, cloud=0, o3=True, emis="array", ice=False, amu=False, model="A"), dict(sat=False, ray=True, cloud=1, o3=False, emis="half", ice=True, amu=False, model="A")]
    ch = [[("sat", False), ("ray", True)], [("cloud", None), ("sat", False)], [("emis", "one"), ("emis", "array")], [("o3", False), ("o3", True)], [("ice", True), ("cloud", 0)], [("ray", True), ("sat", True)]][case["i"]]
    a = [prof(0.0), prof(0.7)]
    z0 = [0.0, 0.7]
    steps = [("set", 0), ("run", 0), ("set", 1), ("run", 1)]
    for perm in itertools.permutations(range(4)):
        if perm.index(0) > perm.index(1) and perm.index(2) > perm.index(3):
            continue
        o = [dict(b) for b in base]
        rte = [construct(a[i], o[i]) for i in (0, 1)]
        tag = " ".join("%s%d" % steps[i] for i in perm)
        for i in perm:
            what, j = steps[i]
            if what == "set":
                o[j][ch[j][0]] = ch[j][1]
                setopt(rte[j], a[j], o[j], ch[j][0])
            else:
                judge(rep, rte[j], o[j], z0[j], "two objects, %s, changes %s: %s%d" % (tag, ch, what, j))
        for j in (0, 1):
            judge(rep, rte[j], o[j], z0[j], "two objects, %s, changes %s: last execution %d" % (tag, ch, j))
        rep.count("traces")


def shapes(case, rep):
    s = MODELS["B"]
    for nl in (2, 3, 4, 5):
        a = fix.atm(2, 5)
        a = {x: v[:nl].copy() for x, v in a.items()}
        frq = np.array([664.0, 23.84, 387.3])[:case["nf"]]
        ang = np.array([45.2, 90.0, 12.0])[:case["na"]]
        for sat, cl, dt in itertools.product((True, False), (False, True), (0, 1)):
            impl.select(s)
            c = fix.cloud(a["z"], 0, 1) if cl else None
            f, g = (frq, ang) if dt == 0 else (np.round(frq).astype(int), np.round(ang).astype(int))
            rte = impl.TbCloudRTE(a["z"], a["p"], a["t"], a["rh"], f, g, from_sat=sat, cloudy=cl)
            if cl:
                rte.init_cloudy(c["cldh"], c["denice"], c["denliq"])
            df, d = rte.execute(False)
            tag = "%d frequencies, %d angles, %d levels, %s cloud %s dtype %s" % (len(f), len(g), nl, sat, cl, f.dtype)
            layout(rep, df, d, f, g, nl, tag)
            w = R.simulate(a["z"], a["p"], a["t"], a["rh"], f, g, s, sat=sat, cloud=c)
            fix.compare(rep, impl.as_result(df, d, len(f), len(g)), w, tag, keys=KEYS)
            rep.count("states")
            rep.count("transitions")
            rep.count("traces")
            rep.outcome(df.tbtotal.values.tobytes())
