"""Quick tier only: the line-list netCDF files are opened once per process instead of at every model selection.

Opening a file costs more than the simulation that follows.  Read-only opens of files below the package's
_lineshape folder return one dataset that is kept open (re-opened when the file changes); everything that is read
from it is read again, as fresh arrays.  All other files and modes use the real class.  The thorough tier runs
without this module.
"""
import atexit, os
import netCDF4

Real = netCDF4.Dataset
_cache = {}


class _Open(Real):
    """An open dataset whose close() is a no-op."""

    def close(self):
        return None

    def __exit__(self, *a):
        return None


class _Meta(type):
    def __call__(cls, filename=None, mode="r", *a, **kw):
        name = os.fspath(filename) if isinstance(filename, (str, os.PathLike)) else ""
        if os.path.basename(os.path.dirname(name)) == "_lineshape" and mode == "r" and not a and not kw and os.path.exists(name):
            s = os.stat(name)
            k = (os.path.realpath(name), s.st_mtime_ns, s.st_size)
            if k not in _cache:
                with open(name, "rb") as f:
                    _cache[k] = _Open("inmemory.nc", "r", memory=f.read())
            d = _cache[k]
            d.set_auto_maskandscale(True)
            return d
        return Real(filename, mode, *a, **kw)

    def __instancecheck__(cls, x):
        return isinstance(x, Real)

    def __getattr__(cls, name):
        return getattr(Real, name)


class Dataset(metaclass=_Meta):
    pass


def install():
    netCDF4.Dataset = Dataset
    # opened here, before the worker processes are forked
    d = os.path.join(os.environ.get("PYRTLIB_REPO", "/repo"), "pyrtlib", "_lineshape")
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.endswith(".nc"):
            Dataset(os.path.join(d, f))


def _close():
    for d in list(_cache.values()):
        Real.close(d)
    _cache.clear()


atexit.register(_close)
