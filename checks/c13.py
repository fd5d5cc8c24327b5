"""C13: standard atmospheres and gas profiles, after every history of calls and changes by the caller."""
import itertools
import numpy as np
PID = "C13"
LEVEL = "model_checking"
RULE = ("states: which profiles the caller has fetched and overwritten; transitions: fetch-and-overwrite any atmosphere or gas; every delivered "
        "array is compared with the published table after every transition; all call sequences up to the depth, all identifiers -200..200 "
        "and non-integers")
NOTE = "all fetch/overwrite sequences up to a depth over all atmospheres, all gas identifiers in and outside the tables, on the real code"
ASSUMPTIONS = ["published tables: the AFGL (Anderson et al. 1986) values, held in a copy of the tables made from the reviewed tree",
               "density agrees with the gas law to 3.5 per cent up to 100 km and 8 per cent above (the published tables are rounded)"]
MINOR = ["NO", "SO2", "NO2", "NH3", "HNO3", "OH", "HF", "HCL", "HBR", "HI", "CLO", "OCS", "H2CO", "HOCL", "N2", "HCN", "CH3CL", "H2O2", "C2H2", "C2H6", "PH3"]
TRACE = ["COF2", "SF6", "H2S", "CCL3F", "CCL2F2", "CCLF3", "CF4", "CHCl2F", "CHCLF2", "C2CL3F3", "C2CL2F4", "C2CLF5", "CCL4", "CLONO2", "N2O5", "HNO4"]
MAIN = ["H2O", "CO2", "O3", "N2O", "CO", "CH4", "O2"]
ATM = ["TROPICAL", "MIDLATITUDE_SUMMER", "MIDLATITUDE_WINTER", "SUBARCTIC_SUMMER", "SUBARCTIC_WINTER", "US_STANDARD"]
TITLE = ['Tropical', 'Midlatitude Summer', 'Midlatitude Winter', 'Subarctic Summer', 'Subarctic Winter', 'US Standard']


def load(tier):
    global A, R
    from pyrtlib.climatology import AtmosphericProfiles as A
    import ref.physics as R


def want_atm(k):
    m = R.profile(R.PROFILES[k])
    return m[:, 0], m[:, 1], m[:, 2], m[:, 3], m[:, 4:11]


def want_gas(kind, g):
    return R.profile("gas_minor")[:, g - 7] if kind == "minor" else R.profile("gas_trace")[:, g - 28]


ALPHA = [("atm", k) for k in range(6)] + [("minor", 7), ("minor", 20), ("minor", 27), ("trace", 28), ("trace", 43)]


def cases(tier):
    d = 4 if tier == "quick" else 5
    return [dict(kind="seq", first=i, depth=d) for i in range(len(ALPHA))] + [dict(kind="ids"), dict(kind="all"), dict(kind="names")]


def fetch(op):
    k, g = op
    return list(A.gl_atm(g)) if k == "atm" else [A.gl_atm_minor(g) if k == "minor" else A.gl_atm_trace(g)]


def expect(op):
    k, g = op
    return list(want_atm(g)) if k == "atm" else [want_gas(k, g)]


def same(rep, got, op, tag):
    w = expect(op)
    rep.check(len(got) == len(w), "%s: number of arrays" % tag)
    for i, (a, b) in enumerate(zip(got, w)):
        rep.close(a, b, "%s %s array %d" % (tag, op, i), rtol=1e-12)


def evaluate(case, rep):
    k = case["kind"]
    if k == "seq":
        states = set()
        for seq in itertools.product(range(len(ALPHA)), repeat=case["depth"] - 1):
            seq = (case["first"],) + seq
            kept = []
            for i, s in enumerate(seq):
                op = ALPHA[s]
                got = fetch(op)
                rep.count("transitions")
                same(rep, got, op, "after %s" % [ALPHA[x] for x in seq[:i]])
                for o, g, c in kept:
                    rep.check(all(np.array_equal(x, y) for x, y in zip(g, c)), "profile fetched earlier changed")
                for j, a in enumerate(got):
                    # overwrite in place, differently for each array
                    if a.flags.writeable:
                        a *= 0
                        a += -(j + 1.0 + s)
                kept.append((op, got, [x.copy() for x in got]))
                states.add(tuple(sorted(set(seq[:i + 1]))))
            rep.count("traces")
        rep.count("states", len(states))
        for s in states:
            rep.outcome(repr(s))
        rep.sample(dict(sequence=[ALPHA[x] for x in seq]))
    elif k == "ids":
        for g in list(range(-200, 201)) + [0.5, 7.5, 28.5, None, "NO", "28", [7], 1e9]:
            for kind, f, lo, hi in (("minor", A.gl_atm_minor, 7, 27), ("trace", A.gl_atm_trace, 28, 43)):
                rep.count("transitions")
                rep.count("states")
                ok = isinstance(g, int) and lo <= g <= hi
                try:
                    got = f(g)
                except Exception as e:
                    rep.check(not ok, "%s gas %r refused: %r" % (kind, g, e))
                    continue
                if not rep.check(ok, "%s gas identifier %r accepted" % (kind, g)):
                    continue
                rep.close(got, want_gas(kind, g), "%s gas %d" % (kind, g), rtol=1e-12)
                rep.close(f(np.int64(g)), want_gas(kind, g), "%s gas %d as numpy integer" % (kind, g), rtol=1e-12)
                rep.outcome("%s%d" % (kind, g))
            ok = isinstance(g, int) and 0 <= g <= 5
            rep.count("transitions")
            try:
                got = A.gl_atm(g)
            except BaseException as e:
                rep.check(not ok, "atmosphere %r refused: %r" % (g, e))
                continue
            if rep.check(ok, "atmosphere %r accepted" % (g,)):
                same(rep, list(got), ("atm", g), "identifier scan")
        rep.count("traces")
    elif k == "all":
        z0 = None
        for i in range(6):
            a, p, d, t, md = A.gl_atm(i)
            rep.count("transitions")
            rep.count("states")
            same(rep, [a, p, d, t, md], ("atm", i), "atmosphere")
            rep.check(a.shape == (50,) and a[0] == 0 and a[-1] == 120 and (np.diff(a) > 0).all(), "height grid 0-120 km")
            z0 = a if z0 is None else z0
            rep.check(np.array_equal(a, z0), "all atmospheres share the height grid")
            rep.check((np.diff(p) < 0).all() and (p > 0).all(), "pressure decreases upwards")
            rep.check((np.diff(d) < 0).all(), "density decreases upwards")
            rep.check((t > 100).all() and (t < 500).all(), "temperatures in kelvin")
            rep.check(md.shape == (50, 7) and (md > 0).all(), "gas table")
            gl = p * 100 / (1.380658e-23 * t) * 1e-6
            rep.close(d[a <= 100], gl[a <= 100], "density against the gas law", rtol=0.035)
            rep.close(d, gl, "density against the gas law", rtol=0.08)
            for j, n in enumerate(MAIN):
                rep.close(md[:, getattr(A, n)], R.profile(R.PROFILES[i])[:, 4 + j], "%s of atmosphere %d" % (n, i), rtol=1e-12)
            rep.check(1.9e5 < md[0, A.O2] < 2.2e5 and 300 < md[0, A.CO2] < 420 and md[0, A.H2O] > 100 and md[:, A.O3].argmax() in range(20, 40), "columns belong to their gases")
            rep.outcome("%.6e" % p[0])
        rep.count("traces")
        for kind, names, f in (("minor", MINOR, A.gl_atm_minor), ("trace", TRACE, A.gl_atm_trace)):
            for i, n in enumerate(names):
                rep.count("transitions")
                g = getattr(A, n)
                rep.close(f(g), R.profile("gas_" + kind)[:, i], "%s by name" % n, rtol=1e-12)
                rep.check(f(g).shape == (50,), "one value per level")
                rep.outcome(n)
    else:
        for i, n in enumerate(MAIN):
            rep.check(getattr(A, n) == i, "identifier of " + n)
        for i, n in enumerate(MINOR):
            rep.check(getattr(A, n) == 7 + i, "identifier of " + n)
        for i, n in enumerate(TRACE):
            rep.check(getattr(A, n) == 28 + i, "identifier of " + n)
        for i, n in enumerate(ATM):
            rep.check(getattr(A, n) == i, "identifier of " + n)
        rep.check(A.AIR == 99, "identifier of air")
        for _ in range(2):
            d = A.atm_profiles()
            rep.count("transitions")
            rep.check(d == dict(enumerate(TITLE)), lambda: "titles %s" % d)
            d.clear()
        rep.count("states")
        rep.count("traces")
