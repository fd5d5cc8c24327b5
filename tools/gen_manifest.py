"""Writes MANIFEST.json from the check modules present in checks/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NA = {"C31": "Needs the live archives; there is no network and no closed model of their current data exists."}
TECH = {
 "C01": "explicit-state DFS over operation histories of the real process (fork snapshots), every operation compared with the fresh-process result of the same selection",
 "C02": "explicit-state DFS over operation histories with mutation monitors on every input and returned object",
 "C03": "exhaustive enumeration of height patterns and orderings on the real simulation, differential oracle",
 "C04": "exhaustive bounded enumeration of layer structures on the real solver against an independent reference model",
 "C05": "exhaustive bounded enumeration of value patterns and cloud level pairs against an independent reference model",
 "C06": "exhaustive enumeration of all ordered channel/angle selections, differential oracle against single-channel runs",
 "C07": "exhaustive bounded grid of geometries against an independent ray-tracing model and Snell integral",
 "C08": "exhaustive bounded grid of thermodynamic states against independent formulas",
 "C09": "explicit-state exploration of all model-selection sequences (all ordered pairs of listed and unlisted names) against a selection model",
 "C10": "exhaustive bounded grid of states for every listed model against an independent line-by-line reference model",
 "C11": "exhaustive enumeration of perturbations and of perturbation/simulation histories against an independent model",
 "C12": "enumeration of all compute/plot/reconfigure sequences up to a depth against a reference weighting-function model",
 "C13": "exhaustive enumeration of all profile/gas selections and mutation histories against published tables",
 "C14": "exhaustive bounded height/latitude/season grid against independent ITU-R P.835-6 formulas",
 "C15": "enumeration of measured-profile shapes and call sequences against an independent ITU-R model",
 "C16": "exhaustive bounded value grids for every conversion against independent formulas and inverse pairs",
 "C17": "enumeration of all instruments, spellings and call/mutation sequences against documented channel tables",
 "C18": "exhaustive enumeration of small reanalysis grids and requested points against a reference reader",
 "C19": "enumeration of generated archive files and period boundaries against a reference decoder model",
 "C20": "enumeration of generated archive answers against the generating model",
 "C21": "exhaustive fault injection: every error status, truncation point and damaged structure of a good answer, followed by a good request",
 "C22": "full product of simulation options plus all option-change sequences up to a depth against a reference model",
 "C23": "stateless exploration of all interleavings of the life cycles of pairs of objects on the real process (fork at each choice), differential oracle: each alone",
 "C24": "enumeration of all operation sequences up to a depth and of bounded input families, each announcement compared with the documented condition",
 "C25": "enumeration of all sequences of valid and invalid settings up to a depth on the real objects, differential oracle: objects that never saw the invalid ones",
 "C26": "stateless exploration of thread schedules of the real code under a controlled scheduler (preemption before every source line, bound 1 and 2), differential oracle: each thread alone, lock-set monitor for the netCDF library"}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    pid = p["id"]
    f = "%s/checks/%s.py" % (V, pid.lower())
    if os.path.exists(f):
        src = open(f).read()
        level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
        note = re.search(r'^NOTE = "(.*)"', src, re.M)
        cmd = "%s run_check.py %s" % (PY, pid)
        checks.append(dict(property=pid, quick_cmd=cmd, thorough_cmd="VERIF_TIER=thorough " + cmd,
                           technique=TECH[pid], level=level,
                           level_note=note.group(1) if note else re.search(r'RULE = \(?"(.*?)"', src).group(1)))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "check under construction")))
m = dict(version=1, setup_cmd=PY + " tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every check imports the working tree of /repo as it is. Known findings are listed in known_findings.json.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
