"""Histories of the real process: forked snapshots, digests of the library's process-wide state and a
level-synchronous explicit-state search over operations."""
import gc, hashlib, os, pickle, sys, types, signal, select as _sel, struct, traceback, warnings


def forked(fn, timeout=300):
    """Runs fn() in a forked copy of this process and returns its result; exceptions are re-raised as RuntimeError."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    out = (True, fn())
                b = pickle.dumps(out)
            except BaseException:
                b = pickle.dumps((False, traceback.format_exc(limit=-6)))
            with os.fdopen(w, "wb") as f:
                f.write(b)
        except BaseException:
            code = 3
        os._exit(code)
    os.close(w)
    buf = b""
    with os.fdopen(r, "rb") as f:
        buf = f.read()
    _, st = os.waitpid(pid, 0)
    if not buf:
        raise RuntimeError("forked process died (wait status %d)" % st)
    ok, v = pickle.loads(buf)
    if not ok:
        raise RuntimeError(v)
    return v


def _feed(h, v, depth, seen):
    import numpy as np
    if depth > 6:
        return
    if isinstance(v, np.ndarray):
        h.update(("A%s%s" % (v.dtype, v.shape)).encode())
        h.update(v.tobytes() if v.dtype != object else repr(v.tolist()).encode())
    elif isinstance(v, (int, float, complex, str, bytes, bool, type(None), np.generic)):
        h.update(("S%s%r" % (type(v).__name__, v)).encode())
    elif isinstance(v, (list, tuple)):
        h.update(b"L%d" % len(v))
        for x in v:
            _feed(h, x, depth + 1, seen)
    elif type(v).__name__ == "deque":
        _feed(h, list(v), depth + 1, seen)
    elif hasattr(v, "cache_info") and callable(v):
        h.update(("K%r" % (v.cache_info(),)).encode())
    elif isinstance(v, (set, frozenset)):
        h.update(repr(sorted(map(repr, v))).encode())
    elif isinstance(v, dict):
        h.update(b"D%d" % len(v))
        for k in sorted(v, key=repr):
            h.update(repr(k)[:80].encode())
            _feed(h, v[k], depth + 1, seen)
    elif isinstance(v, types.ModuleType):
        h.update(("M" + v.__name__).encode())
        if "_lineshape" in v.__name__ and id(v) not in seen:
            seen.add(id(v))
            _feed(h, {k: x for k, x in vars(v).items() if not k.startswith("__")}, depth + 1, seen)
    elif isinstance(v, (staticmethod, classmethod)):
        _feed(h, v.__func__, depth, seen)
    elif isinstance(v, types.FunctionType):
        h.update(b"F")
        _feed(h, v.__defaults__, depth + 1, seen)
        _feed(h, v.__kwdefaults__, depth + 1, seen)
        _feed(h, {k: x for k, x in vars(v).items() if not k.startswith("__")}, depth + 1, seen)
        for c in v.__closure__ or ():
            try:
                _feed(h, c.cell_contents, depth + 1, seen)
            except ValueError:
                pass
    elif isinstance(v, type):
        h.update(("C" + v.__qualname__).encode())
        if (v.__module__ or "").startswith("pyrtlib") and v not in seen:
            seen.add(v)
            _feed(h, {k: x for k, x in vars(v).items() if not (k.startswith("__") and k.endswith("__"))}, depth + 1, seen)
    elif isinstance(v, types.SimpleNamespace) or (type(v).__module__ or "").startswith("pyrtlib"):
        if id(v) in seen:
            return
        seen.add(id(v))
        h.update(("O" + type(v).__name__).encode())
        try:
            _feed(h, dict(vars(v)), depth + 1, seen)
        except TypeError:
            pass
    else:
        h.update(("T" + type(v).__name__).encode())


def library_state(*extra):
    """Digest of everything process-wide the library holds: module and class attributes, default arguments."""
    h = hashlib.blake2b(digest_size=12)
    seen = set()
    for n in sorted(m for m in sys.modules if m == "pyrtlib" or m.startswith("pyrtlib.")):
        if ".tests" in n:
            continue
        h.update(n.encode())
        for k, v in sorted(vars(sys.modules[n]).items(), key=lambda x: x[0]):
            if k.startswith("__"):
                continue
            h.update(k.encode())
            _feed(h, v, 0, seen)
    for e in extra:
        _feed(h, e, 0, seen)
    return h.hexdigest()


class Pool:
    """Pristine forked workers, each evaluating fn(task) for one task at a time."""

    def __init__(self, fn, n):
        self.w = []
        for _ in range(n):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(w1), os.close(r2)
                    for o in self.w:
                        os.close(o[1]), os.close(o[2])
                    with os.fdopen(r1, "rb") as fi, os.fdopen(w2, "wb") as fo:
                        while True:
                            b = fi.read(8)
                            if len(b) < 8:
                                break
                            t = pickle.loads(fi.read(struct.unpack("<q", b)[0]))
                            try:
                                v = (True, fn(t))
                            except BaseException:
                                v = (False, traceback.format_exc(limit=-6))
                            p = pickle.dumps(v)
                            fo.write(struct.pack("<q", len(p)) + p)
                            fo.flush()
                finally:
                    os._exit(0)
            os.close(r1), os.close(w2)
            self.w.append((pid, w1, r2))

    def map(self, tasks):
        out = [None] * len(tasks)
        todo = list(range(len(tasks)))[::-1]
        cur, buf = {}, {}

        def send(o):
            i = todo.pop()
            p = pickle.dumps(tasks[i])
            d = struct.pack("<q", len(p)) + p
            while d:
                d = d[os.write(o[1], d):]
            cur[o[2]] = (i, o)
            buf[o[2]] = b""
        for o in self.w:
            if todo:
                send(o)
        while cur:
            rd, _, _ = _sel.select(list(cur), [], [], 600)
            if not rd:
                raise RuntimeError("workers do not answer")
            for fd in rd:
                b = os.read(fd, 1 << 20)
                if not b:
                    raise RuntimeError("a worker died at task %r" % (tasks[cur[fd][0]],))
                buf[fd] += b
                if len(buf[fd]) >= 8:
                    n = struct.unpack("<q", buf[fd][:8])[0]
                    if len(buf[fd]) >= 8 + n:
                        i, o = cur.pop(fd)
                        out[i] = pickle.loads(buf[fd][8:8 + n])
                        if todo:
                            send(o)
        return out

    def close(self):
        for pid, w, r in self.w:
            for fd in (w, r):
                try:
                    os.close(fd)
                except OSError:
                    pass
        for pid, w, r in self.w:
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except (OSError, ChildProcessError):
                pass


def search(roots, step, depth, nproc, keep=None):
    """Breadth-first search.  roots: list of paths (tuples of op numbers); step((level, path)) expands the state reached
    by a path: returns (digest, [(op, digest, [violations])]) with every op of that level applied to it once.
    keep(level, path) says which of the new states are expanded further (default all).
    Returns dict(states, transitions, violations=[(path, op, msg)], levels, complete)."""
    gc.collect()
    gc.freeze()         # keeps forked copies from touching the pages of existing objects
    pool = Pool(step, nproc)
    seen, viol, levels, trans, frontier, complete = set(), [], [], 0, list(roots), True
    try:
        for d in range(depth):
            res = pool.map([(d, p) for p in frontier])
            nxt = []
            for path, (ok, v) in zip(frontier, res):
                if not ok:
                    viol.append((path, None, v))
                    continue
                dig, succ = v
                seen.add(dig)
                for op, dg, msgs in succ:
                    trans += 1
                    for m in msgs:
                        viol.append((path, op, m))
                    if dg is not None and dg not in seen:
                        seen.add(dg)
                        new = tuple(path) + (op,)
                        if keep is None or keep(d + 1, new):
                            nxt.append(new)
                        else:
                            complete = False
            levels.append(len(frontier))
            if len(viol) > 20:
                complete = False
                break
            frontier = nxt
            if not frontier:
                break
        fix = not frontier
    finally:
        pool.close()
    return dict(states=len(seen), transitions=trans, violations=viol, levels=levels, complete=complete, fixpoint=fix)
