"""Engine shared by all checks: bounded exhaustive enumeration with an oracle.

A check module defines
    PID, LEVEL, RULE, EXHAUSTIVE, ASSUMPTIONS
    cases(tier)            -> list of JSON-serialisable case descriptors; every one is evaluated
    evaluate(case, rep)    -> runs the real code on every point of the case and compares it with the oracle

All cases are evaluated (no sampling, VERIF_SEED only permutes the order in which they are handed to
the worker processes).  Anything unexpected - an exception out of the code under test, a wrong shape, a
missing attribute, a dead worker - is reported as a violation of the property: on a tree where the
property holds none of it happens.
"""
import hashlib, json, os, random, sys, time, traceback, warnings, select, signal, struct, pickle, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYRTLIB_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(EVID, "replay")


def setup_env():
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["HDF5_USE_FILE_LOCKING"] = "FALSE"
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)


class TooMany(Exception):
    pass


class Reporter:
    """Collects the outcome of one case."""
    LIMIT = 5

    def __init__(self, case, known=None):
        self.case = case
        self.viol = []          # [msg]
        self.known_hits = {}    # key -> first message
        self.counts = {}
        self.outcomes = set()
        self.samples = []
        self.known = known or {}

    # -- counting -----------------------------------------------------------
    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def outcome(self, obj):
        """Registers an observed, non-trivial outcome (hashed) for the evidence file."""
        if not isinstance(obj, (bytes, str)):
            obj = repr(obj)
        if isinstance(obj, str):
            obj = obj.encode()
        self.outcomes.add(hashlib.blake2b(obj, digest_size=8).digest())

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    # -- verdicts -----------------------------------------------------------
    def bad(self, msg, known_key=None):
        if known_key is not None and known_key in self.known:
            self.known_hits.setdefault(known_key, str(msg)[:300])
            return False
        self.viol.append(str(msg)[:2000])
        if len(self.viol) >= self.LIMIT:
            raise TooMany()
        return False

    def check(self, cond, msg, known_key=None):
        self.count("comparisons")
        if not cond:
            return self.bad(msg() if callable(msg) else msg, known_key)
        return True

    def close(self, got, want, msg, rtol=1e-9, atol=0.0, known_key=None):
        """Element-wise comparison of got with want; NaN only where want is NaN."""
        import numpy as np
        self.count("comparisons")
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception as e:
            return self.bad("%s: not numeric (%r): %r" % (msg, e, got), known_key)
        if g.shape != w.shape:
            return self.bad("%s: shape %s, expected %s" % (msg, g.shape, w.shape), known_key)
        with np.errstate(all="ignore"):
            ok = (np.abs(g - w) <= atol + rtol * np.abs(w)) | (np.isnan(g) & np.isnan(w)) | (g == w)
        if not np.all(ok):
            i = tuple(int(a) for a in np.argwhere(~ok)[0]) if ok.ndim else ()
            return self.bad("%s: at %s got %r, expected %r (%d of %d values differ)" %
                            (msg, i, float(g[i]), float(w[i]), int((~ok).sum()), max(1, ok.size)), known_key)
        return True

    def payload(self):
        return dict(viol=self.viol, known=self.known_hits, counts=self.counts,
                    outcomes=self.outcomes, samples=self.samples)


def digest(*arrays):
    """Digest of numeric arrays rounded to 9 significant digits (for outcome counting only)."""
    import numpy as np
    h = hashlib.blake2b(digest_size=8)
    for a in arrays:
        a = np.asarray(a, dtype=float)
        with np.errstate(all="ignore"):
            h.update(np.char.mod("%.8e", a.ravel()).tobytes() if a.size < 64 else np.float32(a).tobytes())
    return h.digest()


def read_known(pid):
    """known_findings.json: [{property,key,what}] (kind finding) suppress exactly their key."""
    path = os.path.join(VERIF, "known_findings.json")
    out = {}
    if os.path.exists(path):
        for f in json.load(open(path))["findings"]:
            if f["property"] == pid:
                out[f["key"]] = f["what"]
    return out


def _run_case(mod, case, known):
    rep = Reporter(case, known)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.evaluate(case, rep)
    except TooMany:
        pass
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException:
        rep.viol.append("case could not be evaluated: " + traceback.format_exc(limit=-6))
    return rep.payload()


def _worker(mod, cases, idx_r, res_w, known):
    """Reads case indices from idx_r, writes pickled results to res_w."""
    with os.fdopen(idx_r, "rb") as fi, os.fdopen(res_w, "wb") as fo:
        while True:
            b = fi.read(4)
            if len(b) < 4:
                break
            i = struct.unpack("<i", b)[0]
            if i < 0:
                break
            r = pickle.dumps(_run_case(mod, cases[i], known))
            fo.write(struct.pack("<iq", i, len(r)) + r)
            fo.flush()


def run_parallel(mod, cases, known, nproc, deadline, order):
    """Evaluates all cases in nproc forked workers, one at a time per worker."""
    results = {}
    todo = list(order)[::-1]
    workers = {}

    def spawn():
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(w1), os.close(r2)
                for o in workers.values():
                    os.close(o["w"]), os.close(o["r"])
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                if not os.environ.get("VERIF_DEBUG"):
                    os.dup2(dn, 2)
                _worker(mod, cases, r1, w2, known)
            except BaseException:
                code = 3
            os._exit(code)
        os.close(r1), os.close(w2)
        workers[r2] = dict(pid=pid, w=w1, r=r2, cur=None, buf=b"")
        feed(workers[r2])

    def feed(w):
        if todo:
            w["cur"] = todo.pop()
            os.write(w["w"], struct.pack("<i", w["cur"]))
        else:
            w["cur"] = None
            os.write(w["w"], struct.pack("<i", -1))

    for _ in range(min(nproc, max(1, len(cases)))):
        spawn()
    while workers:
        left = deadline - time.time()
        if left <= 0:
            for w in workers.values():
                os.kill(w["pid"], signal.SIGKILL)
                os.waitpid(w["pid"], 0)
                if w["cur"] is not None:
                    results[w["cur"]] = dict(viol=["case did not finish before the time limit of the check"],
                                             known={}, counts={}, outcomes=set(), samples=[])
            for i in todo:
                results[i] = None
            return results
        rd, _, _ = select.select(list(workers), [], [], min(left, 5))
        for fd in rd:
            w = workers[fd]
            b = os.read(fd, 1 << 20)
            if b:
                w["buf"] += b
                while len(w["buf"]) >= 12:
                    i, n = struct.unpack("<iq", w["buf"][:12])
                    if len(w["buf"]) < 12 + n:
                        break
                    results[i] = pickle.loads(w["buf"][12:12 + n])
                    w["buf"] = w["buf"][12 + n:]
                    feed(w)
            else:
                os.close(w["r"]), os.close(w["w"])
                del workers[fd]
                _, st = os.waitpid(w["pid"], 0)
                if w["cur"] is not None:   # died inside a case
                    results[w["cur"]] = dict(viol=["process died while evaluating the case (wait status %d)" % st],
                                             known={}, counts={}, outcomes=set(), samples=[])
                    if todo:
                        spawn()
    return results


def jsonable(o):
    try:
        import numpy as np
        if isinstance(o, np.ndarray):
            return o.tolist()
        if isinstance(o, np.generic):
            return o.item()
    except ImportError:
        pass
    if isinstance(o, (set, tuple)):
        return list(o)
    if isinstance(o, bytes):
        return o.decode("latin1")
    return repr(o)


def main(pid, argv):
    setup_env()
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "0"))
    except ValueError:
        seed = 0
    limit = float(os.environ.get("VERIF_LIMIT", "780" if tier == "quick" else "6000"))
    scratch = tempfile.mkdtemp(prefix="pyrtlib-check-")
    os.environ["MPLCONFIGDIR"] = scratch
    os.environ["VERIF_SCRATCH"] = scratch
    os.makedirs(REPLAY, exist_ok=True)
    rc = 1
    try:
        rc = _main(pid, argv, tier, seed, t0, t0 + limit)
    finally:
        if scratch.startswith(tempfile.gettempdir() + "/pyrtlib-check-"):
            shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    return rc


def _violation(pid, n, case, msgs):
    path = os.path.join(REPLAY, "%s-%d.json" % (pid, n))
    with open(path, "w") as f:
        json.dump({"property": pid, "case": case, "messages": msgs,
                   "rerun": "/opt/venv/bin/python /verif/run_check.py %s --replay %s" % (pid, path)},
                  f, indent=1, default=jsonable)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    for m in msgs[:3]:
        print("  " + m.replace("\n", "\n  ")[:1500])


def _main(pid, argv, tier, seed, t0, deadline):
    import importlib
    known = read_known(pid)
    for k in sorted(known):
        pass
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if tier == "quick":
                from mc import fastnc
                fastnc.install()
            mod = importlib.import_module("checks." + pid.lower())
            if hasattr(mod, "load"):
                mod.load(tier)          # imports the code under test, builds reference data
            allcases = mod.cases(tier)
    except BaseException:
        tb = traceback.format_exc(limit=-8)
        _violation(pid, 0, None, ["the code under test could not be loaded: " + tb])
        write_evidence(pid, None, tier, seed, {}, time.time() - t0, 1, [], 0, 0)
        return 1
    if "--replay" in argv:
        case = json.load(open(argv[argv.index("--replay") + 1]))["case"]
        r = _run_case(mod, case, known)
        print(json.dumps(dict(violations=r["viol"], known=r["known"], counts=r["counts"]), indent=1))
        return 1 if r["viol"] else 0
    order = list(range(len(allcases)))
    if seed:
        random.Random(seed).shuffle(order)
    # long cases first, if the module says so
    if hasattr(mod, "weight"):
        order.sort(key=lambda i: -mod.weight(allcases[i]))
    nproc = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
    results = run_parallel(mod, allcases, known, nproc, deadline, order)
    counts, outcomes, samples, nviol, done, hits = {}, set(), [], 0, 0, {}
    for i, case in enumerate(allcases):
        r = results.get(i)
        if r is None:
            continue
        done += 1
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        outcomes |= r["outcomes"]
        for k, v in r["known"].items():
            hits.setdefault(k, v)
        if len(samples) < 6 and r["samples"]:
            samples.append({"case": case, "observed": r["samples"][0]})
        if r["viol"]:
            nviol += 1
            if nviol <= 5:
                _violation(pid, nviol, case, r["viol"])
    if done < len(allcases) and nviol == 0:
        nviol += 1
        _violation(pid, 0, None, ["time limit reached after %d of %d cases" % (done, len(allcases))])
    for k in sorted(hits):
        print("KNOWN-FINDING: property=%s %s [%s] observed: %s" % (pid, known[k], k, hits[k]))
    wall = time.time() - t0
    write_evidence(pid, mod, tier, seed, counts, wall, nviol, samples, len(outcomes), done, len(allcases))
    print("%s %s: %d/%d cases, %s, %d distinct outcomes, %.1f s, %d violating cases" %
          (pid, tier, done, len(allcases), counts, len(outcomes), wall, nviol))
    return 1 if nviol else 0


def write_evidence(pid, mod, tier, seed, counts, wall, nviol, samples, nout, done, total=0):
    level = getattr(mod, "LEVEL", "exploration")
    cov = {}
    c = dict(counts)
    if level == "model_checking":
        cov["states"] = c.pop("states", 0)
        cov["transitions"] = c.pop("transitions", 0)
        cov["traces_validated_against_impl"] = c.pop("traces", 0)
        cov["distinct_outcomes"] = nout
    else:
        cov["evaluations"] = c.pop("evaluations", 0)
        cov["distinct_nontrivial"] = nout
        c.pop("states", None); c.pop("transitions", None); c.pop("traces", None)
    cov["rule"] = getattr(mod, "RULE", "")
    cov["oracle_comparisons"] = c.pop("comparisons", 0)
    cov["case_blocks"] = done
    cov.update({"n_" + k: v for k, v in c.items()})
    cov["samples"] = json.loads(json.dumps(samples or ["none"], default=jsonable))[:6]
    cov["exhaustive"] = bool(mod is not None and done == total)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(wall, 2),
              violations=nviol, assumptions=getattr(mod, "ASSUMPTIONS", []))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=jsonable)
