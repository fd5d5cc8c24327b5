"""C17: channel lists of the instruments after every history of calls and changes by the caller."""
import itertools
import numpy as np
PID = "C17"
LEVEL = "model_checking"
RULE = ("states: which instruments have been asked for and overwritten by the caller; transitions: ask for any instrument in any spelling "
        "(all 2^n letter cases) and overwrite the answer; after every transition the answer is compared with the documented channel table; "
        "all sequences up to the depth; all single-letter corruptions of every name must be refused")
NOTE = "all instruments, all letter cases, all name corruptions, all ask/overwrite sequences up to a depth, against documented channel tables"
ASSUMPTIONS = ["documented channels: instrument specifications (SAPHIR, AMSU-B, ATMS G/W-band, MWI, MWS, ICI; HATPRO, MP-3000, ARM MWRP, TEMPERA, KIT/2-channel W-band) as "
               "centre and offsets", "values compared to 1e-6 GHz"]


def sym(c, *off):
    """c-last ... c-first, c+first ... c+last"""
    return [c - x for x in off[::-1]] + [c + x for x in off]


C = 183.31
GROUND = {
    "hat": [22.24, 23.04, 23.84, 25.44, 26.24, 27.84, 31.4, 51.26, 52.28, 53.86, 54.94, 56.66, 57.3, 58.0],
    "mp3": [22.234, 22.5, 23.034, 23.834, 25.0, 26.234, 28.0, 30.0, 51.248, 51.76, 52.28, 52.804, 53.336, 53.848, 54.4, 54.94, 55.5, 56.02, 56.66, 57.288, 57.964, 58.8],
    "arm": [22.235, 23.035, 23.835, 26.235, 30.0, 51.25, 52.28, 53.85, 54.94, 56.66, 57.29, 58.8],
    "tem": [51.25, 51.75, 52.25, 52.85, 53.35, 53.85, 54.4, 54.9, 55.4, 56.0, 56.5, 57.0],
    "k2w": [23.84, 31.4, 72.5, 82.5, 90.0, 150.0]}
MWS = [23.8, 31.4, 50.3, 52.8]
for c, o in ((53.246, 0.08), (53.596, 0.115), (53.948, 0.081)):
    MWS += [c - o, c + o]
MWS += [54.4, 54.94, 55.5, 57.290344] + sym(57.290344, 0.217)
for o in (0.048, 0.022, 0.010, 0.0045):
    MWS += [57.290344 + s * 0.3222 + q * o for s in (-1, 1) for q in (-1, 1)]
MWS += [89.0] + sym(165.5, 0.725) + sym(C, 1.0, 1.8, 3.0, 4.5, 7.0) + [229.0]
SAT = {"SAPHIR": sym(C, 0.2, 1.1, 2.8, 4.2, 6.8, 11.0), "AMSU": [89.0, 150.0] + sym(C, 1, 3, 7), "ATMS": [88.2, 165.5] + sym(C, 1, 1.8, 3, 4.5, 7),
       "MWI": [18.7, 23.8, 31.4, 50.3, 52.61, 53.24, 53.75, 89.0] + sym(118.7503, 1.2, 1.4, 2.1, 3.2) + sym(165.5, 0.725) + sym(C, 2.0, 3.4, 4.9, 6.1, 8.4),
       "MWS": MWS,
       "ICI": sym(C, 0.2, 2.0, 3.4, 7.0) + sym(243.2, 2.5) + sym(325.15, 1.5, 3.5, 9.5) + sym(448.0, 1.4, 3.0, 7.2) + sym(664.0, 4.2)}
COUNT = dict(hat=14, mp3=22, arm=12, tem=12, k2w=6, SAPHIR=12, AMSU=8, ATMS=12, MWI=28, MWS=46, ICI=24)
ALL = [(0, n) for n in GROUND] + [(1, n) for n in SAT]


def load(tier):
    global F
    from pyrtlib.utils import get_frequencies, get_frequencies_sat
    F = [get_frequencies, get_frequencies_sat]


def table(w, n):
    return (SAT if w else GROUND)[n]


def cases(tier):
    d = 4 if tier == "quick" else 5
    return [dict(kind="seq", first=i, depth=d) for i in range(len(ALL))] + [dict(kind="spell", i=i) for i in range(len(ALL))] + [dict(kind="bad"), dict(kind="default")]


def same(rep, w, n, got, tag):
    t = table(w, n)
    rep.close(got, t, "%s %s" % (tag, n), rtol=0, atol=1e-6)
    g = np.asarray(got, float)
    rep.check(len(g) == COUNT[n], "%s: number of channels" % n)
    rep.check(len(np.unique(np.round(g, 7))) == len(g), "%s: duplicates" % n)


def evaluate(case, rep):
    k = case["kind"]
    if k == "seq":
        states = set()
        for seq in itertools.product(range(len(ALL)), repeat=case["depth"] - 1):
            seq = (case["first"],) + seq
            kept = []
            for i, s in enumerate(seq):
                w, n = ALL[s]
                got = F[w](n)
                rep.count("transitions")
                same(rep, w, n, got, "after %s" % [ALL[x][1] for x in seq[:i]])
                rep.check(all(np.array_equal(a, b) for a, b in kept), "list fetched earlier changed")
                for j in range(len(got)):
                    got[j] = -1.0 - s
                kept.append((got, np.array(got)))
                states.add(tuple(sorted(set(seq[:i + 1]))))
            rep.count("traces")
        rep.count("states", len(states))
        for s in states:
            rep.outcome(repr(s))
        rep.sample(dict(sequence=[ALL[x][1] for x in seq]))
    elif k == "spell":
        w, n = ALL[case["i"]]
        for bits in itertools.product((0, 1), repeat=len(n)):
            s = "".join(c.upper() if b else c.lower() for c, b in zip(n, bits))
            rep.count("transitions")
            rep.count("states")
            same(rep, w, n, F[w](s), "spelled %s" % s)
            rep.outcome(s)
        rep.count("traces")
    elif k == "default":
        for _ in range(2):
            got = F[0]()
            rep.count("transitions")
            same(rep, 0, "hat", got, "default")
            got[0] = 1.0
        rep.count("states")
        rep.count("traces")
    else:
        names = [set(GROUND), set(SAT)]
        low = [{x.lower() for x in s} for s in names]
        cand = set()
        for _, n in ALL:
            for i in range(len(n) + 1):
                for c in "abcxyz019 _-":
                    cand |= {n[:i] + c + n[i:], n[:i] + c + n[i + 1:]}
                cand |= {n[:i], n[i:], n[:i] + n[i + 1:]}
        cand |= {"", " ", "hatpro", "AMSU-B", "AMSU-A", "MHS", "SSMIS", "all"} | {n for _, n in ALL}
        for s in sorted(cand):
            for w in (0, 1):
                rep.count("transitions")
                rep.count("states")
                ok = s.lower() in low[w]
                try:
                    got = F[w](s)
                except Exception as e:
                    rep.check(not ok, "%r refused: %r" % (s, e))
                    continue
                rep.check(ok, "unknown instrument %r accepted with %d channels" % (s, np.size(got)))
        rep.count("traces")
        rep.outcome(str(len(cand)))
