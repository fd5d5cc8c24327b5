"""Writes DESIGN.md: the prose below, the rules and assumptions stated in the check modules, and the table of planted bugs
(tools/bugs.json: id -> caught by, as recorded by tools/seedcheck.py)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import importlib

HEAD = """# Deciding the properties of pyrtlib by bounded exhaustive exploration

*(written by tools/gen_design.py from the text there, the check modules and tools/bugs.json)*

## The system and what is worth deciding

pyrtlib simulates microwave brightness temperatures: a profile (height, pressure, temperature, humidity, clouds, ozone) goes through
humidity and refractivity formulas, a path model, line-by-line absorption with selectable models, layer integration and a
radiative-transfer integral. Around it are spectroscopic uncertainties, weighting functions, climatologies, unit conversions,
instrument tables and readers for three archives. It is a library of one process with **a large amount of process-wide state**: the
selected models are class attributes, their coefficients are attributes of (re)loaded modules, viewing direction and emissivity are
handed to the solver through class attributes, perturbed parameters are stored in a class attribute, and objects can be reconfigured
between executions. That state is what model checking is good at and unit tests are not: the guarantees have to hold after every
history of calls, for every combination of options and for every server answer.

The properties (properties.jsonl) come in four groups: history and isolation (C01, C02, C09, C11, C22, C23, C25, C26), the numerical
contract of the simulation (C03-C08, C10, C12, C24), reference data and conversions (C13-C17), and the archive readers (C18-C21).

## Method

Every check explores a bounded space exhaustively on **the real code** of /repo's working tree (no model of the code is trusted in its
place); nothing is sampled. VERIF_SEED only permutes the order in which cases are handed to worker processes. Three forms are used:

* *explicit-state search over the live process* (C01, C02, C09, C11, C12, C22, C23, C24, C25): a state is the process itself. A state is kept as a
  forked process, or re-reached by replaying its history in a fork, and each operation is applied in a forked child, so that every operation starts from exactly
  that state. Where states are merged, the digest covers every module attribute, class attribute, default argument, closure and
  cache of the library and the objects kept by the history (mc/hist.py). The oracle is differential (a fresh process, an object that was used alone,
  an object that never saw the invalid setting) or the reference model.
* *exhaustive enumeration of a bounded input or configuration product* against an independent reference (C03-C08, C10, C13-C20). The
  reference implementations (ref/physics.py, ref/itu.py, ref/igra.py, ref/wyoming.py) are written from the published formulas and formats, not from
  the code; the coefficient tables they use are in ref/data, a reviewed snapshot (tools/snapshot.py).
* *exhaustive fault injection* (C21): every cut, every damage and every status of every server answer, injected below the HTTP library.

Binding: since the deciding step always executes the implementation, a transition of a specification (the map of selected models in
C09, the option vector in C22, the stored parameter set in C11, the structured sounding in C19 and C20) is compared with the implementation
at every transition; there is no unvalidated abstraction. The counts in the evidence files (`states`, `transitions`, `traces`, or
`evaluations`) are counts of real executions.

Unexpected exceptions, wrong shapes, missing entries and dead workers count as violations. Comparisons use tolerances (1e-12 for
differential checks, 1e-8 to 1e-9 against the reference, larger ones where the statement itself is approximate), so that a
reordering of floating-point operations stays quiet. Only public entry points are used, plus the class attributes that the documentation tells users to set.

A violation is written to evidence/replay/<id>-<n>.json (the case and its messages); `run_check.py <id> --replay FILE` runs that case alone.

Levels: *model_checking* where histories, interleavings or option sequences are enumerated and the states compared; *fault_enumeration* for C21;
*exploration* for the pure input grids (C04, C05, C07, C08, C10, C14, C16, C18), where the space of real numbers is cut down to a finite alphabet
chosen so that every branch, boundary and special case of the formulas occurs. These grids decide the property on the grid only; the
alphabets contain both sides of every threshold that appears in the published formulas or the code.

The quick tier of all checks together takes about ten minutes on 8 cores; the thorough tier (VERIF_TIER=thorough) deepens
every bound (one more operation, one more level, finer grids).

Machinery: run_check.py and mc/core.py (cases, worker processes, known findings, evidence), mc/hist.py (forked snapshots, digests, search), mc/ops.py
(alphabet of operations), mc/fix.py (profiles), mc/impl.py (access to the code), mc/web.py and mc/fastnc.py (stand-ins for the network and for netCDF
files), ref/ (reference models). tools/: setup.py, snapshot.py, plant.py and seedcheck.py (planted bugs), gen_*.py (this file, properties, manifest, known findings).
"""

P = {
 "C01": ("Oracle: the same operation in a fresh process that was given only the models selected at that moment. Bounds: depth 2-3 (quick) and 3-4 (thorough) over 41 operations. Includes neighbours: operations that differ from another one in a single value in the middle of an array, so that a cache keyed too coarsely is caught.",
         "A test suite runs each call once in one order; stale line lists, cached results and left-over direction or emissivity show only after particular predecessors."),
 "C02": ("Oracle: the inputs and retained results before the operation, bit for bit; in the overwriting mode a fresh process. Layouts: contiguous, strided with guard cells, integers, top-down, unusual values (angles beyond the zenith, negative and supersaturated humidity, emissivity outside 0-1).",
         "No test looks at its inputs afterwards or keeps a result while calling again."),
 "C03": ("Oracle: the ascending run of the real code (differential) and the definition of strict monotonicity.", "Tests use ascending profiles only."),
 "C04": ("Oracle: the layer recursion of the radiative transfer equation in the reference model, and its limits (isothermal, transparent, opaque, black surface).", "Tests compare a few totals; mean radiating temperature, opaque and transparent limits are not reached."),
 "C05": ("Oracle: independent integration rules and cloud definitions.", "One cloudy test compares one column."),
 "C06": ("Oracle: the single-channel, single-angle run of the real code.", "Tests use one frequency grid and one angle."),
 "C07": ("Oracle: independent ray tracing, uniform media geometry, and a numerical Snell integral.", "One angle is tested."),
 "C08": ("Oracle: Goff-Gratch and Thayer formulas written from the literature, and mutual agreement of the library's functions.", "Single points, never with ice."),
 "C09": ("Specification: a map species -> name; coefficients and absorption from the reference tables of that name.", "Tests select a handful of models in one order."),
 "C10": ("Oracle: independent line-by-line models for every listed name. Bounds: grids over frequency (all line centres, flanks, cut-off edges), temperature, pressure, humidity.", "Stored tables cover a few atmospheres below 200 GHz."),
 "C11": ("Specification: a map parameter -> value per line with the perturbation rule; reference absorption with the one coefficient changed.", "One parameter in one direction is tested."),
 "C12": ("Oracle: reference absorption and opacity; figures are read back from matplotlib.", "Tests check that plotting does not fail."),
 "C13": ("Oracle: the published tables (reviewed copy) and the gas law.", "Spot values only, never after modification of a returned array."),
 "C14": ("Oracle: ITU-R P.835-6 formulas written from the recommendation.", "A handful of heights."),
 "C15": ("Oracle: the measured part itself and the reference formulas.", "One profile, one call."),
 "C16": ("Oracle: independent formulas, inverse pairs, element-wise evaluation.", "Single values."),
 "C17": ("Oracle: documented channel tables.", "Lengths or single values."),
 "C18": ("Oracle: brute-force nearest point, and the values written into the file.", "One file, one point."),
 "C19": ("Oracle: the structured soundings from which the file was rendered.", "Network-dependent tests that are skipped here."),
 "C20": ("Oracle: the structured answer from which the page was rendered.", "Network-dependent tests that are skipped here."),
 "C21": ("Oracle: the answer decoded by the independent specification, or an exception; never anything else.", "Faults are never injected."),
 "C22": ("Oracle: the independent reference simulation of the option vector.", "About a dozen option sets."),
 "C23": ("Oracle: each life cycle alone in a fresh process. Stateless: no state merging for pairs, every interleaving is executed.", "Every test uses one object at a time."),
 "C24": ("Oracle: the documented conditions; Snell's invariant for trapping; returned opacities for hidden clouds.", "No test looks at warnings."),
 "C25": ("Oracle: objects that never saw the invalid setting.", "Single invalid values, the object is not looked at afterwards."),
 "C26": ("Oracle: each thread alone. The scheduler (mc/sched.py) lets one thread run at a time and switches before a chosen source line of the package; locks are known to it.", "No test uses a thread."),
}

TAIL = """
## Not decided

* **C31** (live downloads) needs the services; not applicable offline.
* *Threads that select models*: the selected models are process-wide by documentation (class attributes), and weighting-function objects and queries of another model's parameters select models.
  C26 therefore excludes threads that select models or store parameter sets meanwhile; steps of several objects that do so are interleaved in C23 (one thread).
* `apiwebservices/eps_sandbox.py` is not exported, needs `eumdac` (not installed) and is not covered.

## Genuine defects repaired

Each is one minimal `fix:` commit; the list with the properties is in known_findings.json (section `fixed`). The check named there reports the defect again if the commit is reverted.
One commit (49aeb02, nearest point of a reanalysis grid) was taken back by 586561c because two existing tests pin the old behaviour; it is the known finding C18 below.

%(fixed)s

## Known findings (not repaired)

They are pinned by existing tests or need a decision about meaning. The checks print `KNOWN-FINDING` for exactly the stated input or call site and still report everything else.

%(findings)s

## Out of the domain of the properties (looked at and left alone)

* `standard_temperature`/`standard_pressure` accept `T_0`, `P_0` and do not use them.
* A cloud base or top that lies on no profile level is silently taken as the lowest level (documented use: on levels).
* The reflected downwelling radiance is not part of the upwelling calculation (emission term only), as the code comments say.
* Mean radiating temperature of zero total opacity is 0/0. Ozone profile without a selected ozone model: no ozone (documented order of calls).
* Perturbed sets without ozone parameters together with an ozone profile: KeyError. `h2o_continuum` fails above about 1199 GHz.
* ITU formulas for heights between 85.99995 and 86 km and for exactly 45 degrees latitude (the recommendation leaves it open).
* `satvap` uses ice for t <= Tconvert where the text says "less than"; `esice_goffgratch` and `vapor` use 273.15/273.16; `rho2rh` divides by 216.7.
* Wyoming pages with single lines of the station metadata missing; a cut station map; IGRA text cut inside an intact archive or with a level count smaller than the lines present.
* Weighting functions need ascending heights. O3 model R23 uses the non-Voigt shape. `dewpoint2rh(method='arm')` ignores `ice`.
* Negative absorption in the integration returns a partial sum, ducting a partial path: both with a warning (C24).
* Reanalysis files with several times raise ValueError (accepted as loud). IGRA hour 99 is read as hour 0; raw levels without temperature, dew point depression and wind are dropped.

## False alarms met while building, and what was changed

* C09: the harness built an object after a selection it meant to come before (construction selects models): harness corrected.
* C10: R98 oxygen goes below zero far from the lines; its published form has no lower limit: statement narrowed to exclude it.
* C10: cut-off edges: the reference and the code fall on different sides by rounding; points nearer than 1e-3 GHz to an edge are not compared.
* C08: agreement of different humidity functions to 0.2 per cent, not to rounding: they use differently rounded constants.
* C15/C14: boundaries of layers given in geopotential height are approached from both sides rather than hit.
* C24: a humidity of 50 per cent at 70 km means a vapour pressure above the total pressure; the grid now scales the profile's own humidity.
* C09: a planted change that put a suffix behind a model name was no violation (the KeyError still names the model): change dropped.
* C20: names in the station map are compared stripped.

## Planted bugs

`/verif/seeded/<id>/` holds changes that break one property, pass the stable tests and fail their demonstration. They were written from the statements and the code. "first missed" means that the
check of that time did not see it and was extended; every change of the list was run against the current quick check of its property with tools/seedcheck.py.

%(bugs)s
"""


def main():
    out = [HEAD, "\n## The properties\n"]
    for l in open(V + "/properties.jsonl"):
        p = json.loads(l)
        pid = p["id"]
        if pid not in P:
            continue
        m = importlib.import_module("checks." + pid.lower())
        out.append("### %s %s\n" % (pid, p["title"]))
        out.append("*Level %s.* %s\n" % (m.LEVEL, P[pid][0]))
        out.append("Enumerated: %s.\n" % m.RULE.strip().rstrip("."))
        out.append("Assumptions: %s.\n" % "; ".join(a.rstrip(".") for a in m.ASSUMPTIONS))
        out.append("Beyond the tests: %s\n" % P[pid][1])
        c = COST.get(pid)
        if c:
            out.append("Cost: %s s (quick, 8 cores, otherwise idle)%s.\n" % (c[0], ", %s s thorough" % c[1] if len(c) > 1 else ""))
    k = json.load(open(V + "/known_findings.json"))
    fx = "\n".join("* " + x.replace("fixed: property=", "", 1) for x in k["fixed"])
    fd = "\n".join("* **%s** `%s`: %s" % (x["property"], x["key"], x["what"]) for x in k["findings"])
    b = json.load(open(V + "/tools/bugs.json"))
    rows = ["| id | property | needs | caught by | note |", "|---|---|---|---|---|"]
    for i in sorted(os.listdir(V + "/seeded")):
        j = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
        e = b.get(i, {})
        rows.append("| %s | %s | %s | %s | %s |" % (i, j["property"], j["needs"], e.get("caught", "?"), e.get("note", "")))
    open(V + "/DESIGN.md", "w").write("\n".join(out) + TAIL % dict(fixed=fx, findings=fd, bugs="\n".join(rows)))


COST = json.load(open(V + "/tools/cost.json")) if os.path.exists(V + "/tools/cost.json") else {}
if __name__ == "__main__":
    os.environ["MPLBACKEND"] = "Agg"
    from mc import core
    core.setup_env()
    main()
