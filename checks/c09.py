"""C09: model selection as a state machine: whatever was selected before, the selected name decides every coefficient."""
import itertools, os, pickle, hashlib
import numpy as np
PID = "C09"
LEVEL = "model_checking"
RULE = ("states: the name selected for each species (listed names and names not listed); transitions: a selection (attribute, constructor argument, init_absmdl, parameter query). "
        "Per species all ordered pairs of names (thorough: triples) as one de Bruijn walk in a live process; all water-vapour x oxygen pairs; all sequences of 2 (thorough 3) of 32 selections "
        "with an object that was constructed before. After each transition absorption, line list, parameters and a whole simulation are compared with the reference model of the selected names")
NOTE = "explicit enumeration of selection sequences on the real process; specification: a map species -> name, coefficients and results from the reference tables"
ASSUMPTIONS = ["a name for the liquid model is only used (and refused) when a cloud contains liquid, a name for ozone only when an ozone profile is given",
               "direct absorption calls follow set_ll(), as documented"]
BAD = {"H2O": ["R99", "r98", "R98 ", "", "R2", "R19sd"], "O2": ["R99", "r20", " R20", "", "R21SD", "R22SD", "MWL24"], "O3": ["R98", "R24", "r22", "R"],
       "N2": ["R99", "r98", "", "R2", "R24 "], "LIQ": ["R99", "R18", "R21SD", "MWL24", "", "r24"]}
ATTR = {"H2O": "h2oll", "O2": "o2ll", "O3": "o3ll"}
OTHERS = dict(H2O="R17", O2="R19", O3="R18", N2="R03", LIQ="R16")


def load(tier):
    global impl, fix, ops, hist, R, A, TIER
    from mc import impl, fix, ops, hist
    import ref.physics as R
    import pyrtlib.absorption_model as A
    TIER = tier


def listed(sp):
    return list(R.ORDER[sp]) if sp in R.ORDER else (R.N2_MODELS if sp == "N2" else R.LIQ_MODELS)


def debruijn(k, n):
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


SEL = ([("set", "H2O", m) for m in ("R98", "R17", "R22SD", "R24", "MWL24", "R99")] + [("set", "O2", m) for m in ("R98", "R19SD", "R24", "R21SD")] +
       [("set", "O3", m) for m in ("R18", "R23", "R98")] + [("set", "N2", m) for m in ("R98", "R22SD", "R2")] + [("set", "LIQ", m) for m in ("R98", "R24", "R18")] +
       [("init", m) for m in ("R98", "R20", "R22SD", "R99")] + [("ctor", m) for m in ("R03", "R24")] +
       [("init clear", "R16"), ("ctor clear", "R21SD"), ("ctor clear", "R23"), ("ctor late", "R17")] + [("query", "H2O", "R23SD"), ("query", "O2", "R22"), ("query", "O3", "R22")])


def cases(tier):
    out = []
    n = 2 if tier == "quick" else 3
    for sp in ("H2O", "O2", "O3", "N2", "LIQ"):
        names = listed(sp) + BAD[sp]
        seq = debruijn(len(names), n)
        step = 90 if n == 2 else 400
        for i in range(0, len(seq) - n + 1, step):
            out.append(dict(kind="walk", sp=sp, names=[names[j] for j in seq[i:i + step + n - 1]]))
    ho = [(h, o) for h in R.ORDER["H2O"] for o in R.ORDER["O2"]]
    for i in range(0, len(ho), 14):
        out.append(dict(kind="mix", pairs=[list(x) for x in ho[i:i + 14]], first=i))
    out += [dict(kind="seq", first=i, n=n) for i in range(len(SEL))]
    out += [dict(kind="never", sp=sp) for sp in ("H2O", "O2", "N2", "LIQ")]
    return out


def weight(c):
    return {"walk": 5, "mix": 3, "seq": 4, "never": 1}[c["kind"]]


STATES = {"H2O": [(22.2, 1.5, 60.0, 1.1), (183.0, 0.3, 20.0, 1.3), (547.0, 2.2, 95.0, 1.02), (90.0, 2.0, 80.0, 0.98)],
          "O2": [(60.3, 1.0, 60.0, 1.1), (118.9, 0.2, 5.0, 1.3), (52.0, 1.0, 99.0, 1.04), (487.3, 0.4, 30.0, 1.2)]}


def finger(sp):
    if sp == "H2O":
        return np.array([ops.h2o_abs(f, e, p, v) for f, e, p, v in STATES[sp]])
    if sp == "O2":
        return np.array([ops.o2_abs(f, e, p, v) for f, e, p, v in STATES[sp]])
    if sp == "O3":
        return np.array([ops.o3_abs(f) for f in (110.85, 101.74, 195.4, 90.0)])
    if sp == "N2":
        return np.array([ops.n2_abs(f) for f in (30.0, 300.0)] + [ops.n2_abs(90.0, 210.0, 300.0)])
    return np.array([ops.liq_abs(f) for f in (30.0, 300.0)] + [ops.liq_abs(90.0, 0.2, 285.0)])


def want(sp, m):
    if sp == "H2O":
        return np.array([R.h2o(m, p, v, e, f) for f, e, p, v in STATES[sp]], float)
    if sp == "O2":
        return np.array([R.o2(m, p, v, e, f) for f, e, p, v in STATES[sp]], float)
    if sp == "O3":
        return np.array([R.o3(m, 250.0, 20.0, f, 3e18) for f in (110.85, 101.74, 195.4, 90.0)])
    if sp == "N2":
        return np.array([R.n2(m, 270.0, 800.0, f) for f in (30.0, 300.0)] + [R.n2(m, 210.0, 300.0, 90.0)])
    return np.array([R.liquid(m, 0.3, f, 270.0) for f in (30.0, 300.0)] + [R.liquid(m, 0.2, 90.0, 285.0)])


def lines(sp):
    """Numbers and names the library exposes for the selected line list."""
    o = getattr(impl.SPECIES[sp], ATTR[sp], None)
    d = vars(o) if hasattr(o, "__dict__") else {}
    out = {}
    for k, v in d.items():
        if k.startswith("_"):
            continue
        if isinstance(v, (int, float, np.generic, np.ndarray)):
            try:
                out[k] = np.array(v, float)
            except Exception:
                pass
    return out


def clear(**k):
    """A clear-sky satellite simulation object without ozone."""
    a, _ = profile()
    return impl.TbCloudRTE(a["z"], a["p"], a["t"], a["rh"], F[:1], np.array([90.0]), **k)


def query(sp, m):
    return ops.dump(ops.parameters(**{{"H2O": "h2o", "O2": "o2", "O3": "o3"}[sp]: m}))


def fresh(sp, m):
    p = os.path.join(os.environ["VERIF_SCRATCH"], "c09-%s-%s" % (sp, m))
    if not os.path.exists(p):
        def go():
            impl.select({sp: m})
            impl.SPECIES[sp].set_ll()
            a = lines(sp)
            return a, query(sp, m)
        r = hist.forked(go)
        with open(p + ".%d" % os.getpid(), "wb") as f:
            pickle.dump(r, f)
        os.rename(p + ".%d" % os.getpid(), p)
    with open(p, "rb") as f:
        return pickle.load(f)


def use(sp):
    if sp in ATTR:
        impl.SPECIES[sp].set_ll()
    return finger(sp)


def walk(sp, names, ways):
    """Runs in a fork: selects each name in turn, returns what is observed."""
    impl.select(OTHERS)
    other = [o for o in OTHERS if o != sp]
    for o in other:
        use(o)
    out = []
    for i, m in enumerate(names):
        rec = {}
        try:
            if ways and sp in ATTR and m and i % 2:
                rec["query"] = query(sp, m)
            else:
                impl.select({sp: m})
            rec["abs"] = use(sp)
            if sp in ATTR:
                rec["lines"] = lines(sp)
        except (Exception, SystemExit) as e:
            rec["error"] = (type(e).__name__, str(e))
        rec["others"] = {o: finger(o) for o in other}
        out.append(rec)
    return out


def names_problem(msg, m):
    s = msg.lower()
    return (m and m.lower() in s) or "model" in s or "avail" in s


def profile():
    a = fix.atm(1, 3)
    c = fix.cloud(a["z"], 0, 1, 0.4, 0.1)
    return a, c


F = np.array([22.0, 60.8, 110.85, 400.0])


def build(**k):
    a, c = profile()
    late = k.pop("late", False)
    r = impl.TbCloudRTE(a["z"], a["p"], a["t"], a["rh"], F, np.array([90.0]), o3n=a["o3n"], from_sat=False, cloudy=not late, **k)
    r.cloudy = True
    r.init_cloudy(c["cldh"], c["denice"], c["denliq"])
    return r


_ref = {}


def refsim(sel):
    key = tuple(sorted(sel.items()))
    if key not in _ref:
        a, c = profile()
        _ref[key] = R.simulate(a["z"], a["p"], a["t"], a["rh"], F, [90.0], sel, sat=False, o3n=a["o3n"], cloud=c)
    return _ref[key]


def observe(r):
    try:
        return ("ok", impl.as_result(*r.execute(False), len(F), 1))
    except (Exception, SystemExit) as e:
        return ("error", type(e).__name__, str(e))


def judge(rep, got, sel, tag):
    wrong = [(s, m) for s, m in sel.items() if m not in listed(s)]
    if wrong:
        if got[0] == "ok":
            rep.bad("%s: numbers although %r is not a listed model of %s" % (tag, wrong[0][1], wrong[0][0]))
        else:
            rep.check(any(names_problem(got[2], m) for _, m in wrong), "%s: error does not name the problem: %s %s" % (tag, got[1], got[2]))
    elif got[0] != "ok":
        rep.bad("%s: %s %s" % (tag, got[1], got[2]))
    else:
        fix.compare(rep, got[1], refsim(sel), tag, keys=["tbtotal", "tauwet", "taudry", "tauliq", "awet", "adry"])
    rep.outcome(repr(sorted(sel.items())))


def apply(op, kept):
    if op[0] == "set":
        impl.select({op[1]: op[2]})
    elif op[0] == "init":
        kept.init_absmdl(op[1])
    elif op[0] == "ctor":
        build(absmdl=op[1])
    elif op[0] == "init clear":
        clear().init_absmdl(op[1])
    elif op[0] == "ctor clear":
        clear(absmdl=op[1])
    elif op[0] == "ctor late":
        build(absmdl=op[1], late=True)
    else:
        query(op[1], op[2])


def spec(op, sel):
    s = dict(sel)
    if op[0] in ("set", "query"):
        s[op[1]] = op[2]
    else:
        for k in ("H2O", "O2", "N2", "LIQ"):
            s[k] = op[1]
    return s


START = dict(H2O="R19", O2="R20", N2="R17", LIQ="R20", O3="R22")


def evaluate(case, rep):
    k = case["kind"]
    if k == "walk":
        sp, names = case["sp"], case["names"]
        recs = hist.forked(lambda: walk(sp, names, True))
        rep.count("states", len(set(names)))
        ok = listed(sp)
        for i, (m, r) in enumerate(zip(names, recs)):
            rep.count("transitions")
            rep.count("traces")
            tag = "%s %r after %r" % (sp, m, names[max(0, i - 3):i])
            if m not in ok:
                if "error" not in r:
                    rep.bad("%s: no error for a name that is not listed" % tag)
                else:
                    rep.check(names_problem(r["error"][1], m), "%s: error does not name the problem: %s" % (tag, r["error"]))
            elif "error" in r:
                rep.bad("%s: %s" % (tag, r["error"]))
            else:
                rep.close(r["abs"], want(sp, m), tag + ": absorption", rtol=1e-8, atol=1e-14)
                if sp in ATTR:
                    fl, fq = fresh(sp, m)
                    d = ops.same(r["lines"], fl)
                    rep.check(not d, "%s: line list: %s in a fresh process" % (tag, d))
                    if "query" in r:
                        d = ops.same(r["query"], fq)
                        rep.check(not d, "%s: parameters: %s in a fresh process" % (tag, d))
                rep.outcome("%s %s %s" % (sp, m, r["abs"].tobytes()))
            for o, v in r["others"].items():
                rep.close(v, want(o, OTHERS[o]), "%s: absorption of %s" % (tag, o), rtol=1e-8, atol=1e-14)
        rep.sample(dict(walk=names[:12]))
    elif k == "mix":
        def go():
            out = []
            kept = build()
            for j, (h, o) in enumerate(case["pairs"]):
                i = case["first"] + j
                s = dict(H2O=h, O2=o, N2=R.N2_MODELS[(i * 5) % len(R.N2_MODELS)], LIQ=R.LIQ_MODELS[(i * 3) % len(R.LIQ_MODELS)], O3=R.ORDER["O3"][i % 3])
                impl.select(s)
                out.append((s, observe(kept if i % 2 else build())))
            return out
        rep.count("states", len(case["pairs"]))
        for s, got in hist.forked(go):
            rep.count("transitions")
            rep.count("traces")
            judge(rep, got, s, "selection %s" % s)
    elif k == "seq":
        n = case["n"]

        def go():
            impl.select(START)
            kept = build()
            out = []

            def rec(path, first):
                for i in ([first] if first is not None else range(len(SEL))):
                    def child(i=i):
                        o2 = []
                        try:
                            apply(SEL[i], kept)
                            e = None
                        except (Exception, SystemExit) as x:
                            e = (type(x).__name__, str(x))
                        p = path + (i,)
                        if sum(p) % 2 == 0 or len(p) == n:
                            o2.append((p, e, observe(kept)))
                        else:
                            o2.append((p, e, None))
                        nonlocal out
                        out = []
                        if len(p) < n:
                            rec(p, None)
                        return o2 + out
                    out.extend(hist.forked(child))
            rec((), case["first"])
            return out
        st = set()
        for p, e, got in hist.forked(go):
            rep.count("transitions")
            s = START
            for i in p:
                s = spec(SEL[i], s)
            st.add(repr(sorted(s.items())))
            tag = "selections %s" % [SEL[i] for i in p]
            last = SEL[p[-1]]
            if e is not None:
                # refusing an unlisted name at once is as good as at the simulation
                bad = last[0].split()[0] in ("init", "ctor") and any(last[1] not in listed(q) for q in ("H2O", "O2", "N2", "LIQ")) or last[0] == "set" and last[2] not in listed(last[1])
                if not bad:
                    rep.bad("%s: %s" % (tag, e))
                continue
            if got is not None:
                rep.count("traces")
                judge(rep, got, s, tag)
        rep.count("states", len(st))
    else:
        # nothing selected for one species: an error, no numbers
        sp = case["sp"]

        def go():
            impl.select({x: v for x, v in START.items() if x != sp})
            return observe(build())
        got = hist.forked(go)
        rep.count("states")
        rep.count("transitions")
        rep.count("traces")
        rep.check(got[0] == "error", "numbers although no model is selected for %s" % sp)
        rep.outcome(repr(got)[:60])
