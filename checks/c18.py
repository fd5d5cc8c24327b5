"""C18: reanalysis files: nearest column, orientation, units, height, time."""
import itertools, os, hashlib
import numpy as np
PID = "C18"
LEVEL = "exploration"
RULE = ("all grids of 1-4 x 1-4 points x ascending/descending latitudes and longitudes x regional/irregular/global/date-line coordinates, every target at and around every grid point (9 positions), each file with values unique per variable, "
        "time, level and point: the whole returned table against a brute-force nearest point by great-circle distance; level counts 1-6, value types (float32, float64, packed), times of day, files with two times; all ordered pairs of reads")
NOTE = "exhaustive enumeration of small grids and targets, written as netCDF files and read back by the real reader"
ASSUMPTIONS = ["pressure levels are stored top-down as the service delivers them", "one time per file as requested by the library; a file with several times is either refused or its first time returned",
               "equidistant points (within 1e-7 rad) are interchangeable"]
VARS = dict(t=(210.0, 1), r=(40.0, 1), clwc=(2e-5, 1), ciwc=(3e-5, 1), crwc=(4e-6, 1), cswc=(5e-6, 1), o3=(6e-6, 1), q=(0.004, 1))
UNITS = {'p': 'hPa', 'z': 'km', 't': 'K', 'rh': 'fraction', 'clwc': 'kg kg-1', 'ciwc': 'kg kg-1', 'crwc': 'kg kg-1', 'cswc': 'kg kg-1', 'o3': 'kg kg-1', 'q': 'kg kg-1'}
GRIDS = {"regional": ([38.0, 38.25, 38.5, 38.75], [15.5, 15.75, 16.0, 16.25]),
         "south": ([-35.5, -35.0, -34.5, -34.0], [-58.5, -58.0, -57.5, -57.0]),
         "irregular": ([10.0, 10.1, 12.0, 17.0], [100.0, 103.0, 103.2, 109.0]),
         "polar": ([80.0, 84.0, 87.0, 88.5], [0.0, 60.0, 120.0, 170.0]),
         "dateline": ([-5.0, 0.0, 5.0, 10.0], [177.0, 179.0, 181.0, 183.0]),
         "world": ([-60.0, -20.0, 25.0, 66.0], [-170.0, -80.0, 10.0, 95.0])}
LEVELS = [50.0, 200.0, 500.0, 850.0, 925.0, 1000.0]


def load(tier):
    global ERA, nc4, pd, thick, SCR
    import netCDF4 as nc4
    import pandas as pd
    from pyrtlib.apiwebservices import ERA5Reanalysis as ERA
    from checks import c16
    thick = c16.thick
    SCR = os.environ["VERIF_SCRATCH"]


def cases(tier):
    out = []
    for g in GRIDS:
        for a in range(1, 5):
            for b in range(1, 5):
                if tier == "quick" and a != b and g not in ("regional", "world"):
                    continue
                for da, db in itertools.product((False, True), repeat=2):
                    if (a == 1 and da) or (b == 1 and db):
                        continue
                    out.append(dict(kind="grid", grid=g, na=a, nb=b, da=da, db=db))
    out += [dict(kind="levels", n=n) for n in range(1, 7)] + [dict(kind="times"), dict(kind="pairs"), dict(kind="request")]
    return out


def weight(c):
    return c.get("na", 3) * c.get("nb", 3) if c["kind"] == "grid" and c["na"] == c["nb"] else 3


def values(nt, nl, na, nb):
    """Value of every variable, unique per time, level and point."""
    i = np.arange(nt * nl * na * nb).reshape(nt, nl, na, nb)
    lev = np.arange(nl)[None, :, None, None]
    out = {}
    for j, (k, (base, _)) in enumerate(VARS.items()):
        u = (i * 37 + j * 5) % 521
        v = base * (1 + 0.0007 * u)
        if k == "r":
            v = -1.0 + 0.3 * u          # packing makes slightly negative values, over ice there are more than 100 per cent
        elif k in ("clwc", "ciwc", "crwc", "cswc"):
            v = base * (u - 4.0) / 400
        elif k == "t":
            v = v + 12.0 * lev
        out[k] = v
    return out


def write(path, lat, lon, lev, hours, dt="f4"):
    v = values(len(hours), len(lev), len(lat), len(lon))
    if os.path.exists(path):
        os.unlink(path)
    d = nc4.Dataset(path, "w")
    for n, x, t in (("longitude", lon, "f4"), ("latitude", lat, "f4"), ("level", lev, "i4"), ("time", hours, "i4")):
        d.createDimension(n, len(x))
        d.createVariable(n, t, (n,))[:] = np.asarray(x)
    stored = {}
    for k in v:
        if dt == "i2":
            x = d.createVariable(k, "i2", ("time", "level", "latitude", "longitude"))
            lo, hi = v[k].min(), v[k].max()
            x.scale_factor = (hi - lo) / 60000 or 1.0
            x.add_offset = (hi + lo) / 2
            x[:] = v[k]
            stored[k] = np.round((v[k] - x.add_offset) / x.scale_factor) * x.scale_factor + x.add_offset
        else:
            d.createVariable(k, dt, ("time", "level", "latitude", "longitude"))[:] = v[k]
            stored[k] = v[k].astype(dt).astype(float)
    d.close()
    return stored


def dist(a, b, c, d):
    a, b, c, d = map(np.radians, (a, b, c, d))
    return 2 * np.arcsin(np.sqrt(np.clip(np.sin((c - a) / 2) ** 2 + np.cos(a) * np.cos(c) * np.sin((d - b) / 2) ** 2, 0, 1)))


COLS = ["p", "z", "t", "rh", "clwc", "ciwc", "crwc", "cswc", "o3", "q"]


def table(stored, lev, hours, it, ia, ib):
    o = {"p": np.asarray(lev, float)[::-1]}
    for k in VARS:
        o["rh" if k == "r" else k] = stored[k][it, ::-1, ia, ib] / (100 if k == "r" else 1)
    o["z"] = thick(o["p"], o["t"], o["q"])
    return o


def matches(df, want, time, tol=3e-6):
    """None if the table is the wanted one."""
    if list(df.columns) != ["p", "z", "t", "rh", "clwc", "ciwc", "crwc", "cswc", "o3", "q", "time"]:
        return "columns %s" % list(df.columns)
    for c in COLS:
        g = np.asarray(df[c].values, float)
        w = want[c]
        if g.shape != w.shape:
            return "%d rows for %d levels" % (len(g), len(w))
        if c == "z":
            alt = thick(want["p"], want["t"], want["q"] / (1 - want["q"]))
            if not (np.allclose(g, w, rtol=1e-4, atol=1e-6) or np.allclose(g, alt, rtol=1e-4, atol=1e-6)) or g[0] != 0:
                return "heights %s, expected %s" % (g.tolist(), w.tolist())
        elif not np.allclose(g, w, rtol=tol, atol=0):
            return "%s is %s, expected %s" % (c, g.tolist(), w.tolist())
    if not all(pd.Timestamp(x) == time for x in df["time"]):
        return "time %s, expected %s" % (df["time"].tolist()[:2], time)
    if dict(df.attrs.get("units", {})) != UNITS:
        return "units %s" % df.attrs.get("units")
    if list(df.index) != list(range(len(df))):
        return "index %s" % list(df.index)
    return None


def stamp(h):
    return pd.Timestamp("1900-01-01") + pd.Timedelta(hours=int(h))


def judge(rep, path, stored, lat, lon, lev, hours, target, tag, form=tuple, tol=3e-6):
    rep.count("evaluations")
    lat, lon = np.asarray(lat, np.float32).astype(float), np.asarray(lon, np.float32).astype(float)
    d = dist(target[1], target[0], lat[:, None], lon[None, :])
    near = np.argwhere(d <= d.min() + 1e-7)
    try:
        df = ERA.read_data(path, form(target))
    except ValueError as e:
        if len(lat) != len(lon):
            return rep.bad("%s: %s" % (tag, str(e)[:80]), "non-square-grid")
        return rep.bad("%s target %s: %r" % (tag, target, e))
    why = None
    for ia, ib in near:
        why = matches(df, table(stored, lev, hours, 0, ia, ib), stamp(hours[0]), tol)
        if why is None:
            rep.outcome(np.asarray(df.t.values).tobytes())
            return True
    key = None
    if len(lat) == len(lon):
        dd = np.diagonal(d)
        for i in np.argwhere(dd <= dd.min() + 1e-7)[:, 0]:
            if matches(df, table(stored, lev, hours, 0, i, i), stamp(hours[0]), tol) is None:
                key = "nearest-on-diagonal"
                rep.outcome(np.asarray(df.t.values).tobytes())
    rep.bad("%s target %s: not the nearest point (%s): %s" % (tag, target, [(lat[a], lon[b]) for a, b in near], why), key)


def evaluate(case, rep):
    k = case["kind"]
    path = os.path.join(SCR, "era-%d.nc" % os.getpid())
    if k == "grid":
        la, lo = GRIDS[case["grid"]]
        lat, lon = la[:case["na"]], lo[:case["nb"]]
        if case["da"]:
            lat = lat[::-1]
        if case["db"]:
            lon = lon[::-1]
        lev, hours = LEVELS[2:5], [1043148]
        stored = write(path, lat, lon, lev, hours)
        tag = "%s grid lat %s lon %s" % (case["grid"], lat, lon)
        sa, so = np.min(np.abs(np.diff(la))), np.min(np.abs(np.diff(lo)))
        for a, b in itertools.product(lat, lon):
            for da, do in itertools.product((-0.41, 0.0, 0.37), (-0.39, 0.0, 0.43)):
                t = (b + do * so, min(max(a + da * sa, -89.9), 89.9))
                judge(rep, path, stored, lat, lon, lev, hours, t, tag)
        for t in ((lon[0] - 3 * so, lat[0] + 0.1 * sa), (lon[-1] + 2.2 * so, lat[-1] - 3 * sa), (lon[0] + 360.0, lat[0]), (lon[-1] - 360.0 + 0.1 * so, lat[0] + 0.2 * sa)):
            t = (t[0], min(max(t[1], -89.9), 89.9))
            judge(rep, path, stored, lat, lon, lev, hours, t, tag, form=lambda x: list(x))
    elif k == "levels":
        n = case["n"]
        for lev in itertools.combinations(LEVELS, n):
            for dt in ("f4", "f8", "i2"):
                lat, lon, hours = [46.0, 45.0, 44.0], [10.0, 11.0, 12.0], [1000003]
                stored = write(path, lat, lon, lev, hours, dt)
                for i in range(3):
                    judge(rep, path, stored, lat, lon, lev, hours, (lon[i] + 0.2, lat[i] - 0.1), "levels %s %s" % (lev, dt), tol=3e-6 if dt != "i2" else 1e-4)
    elif k == "times":
        lat, lon, lev = [46.0, 45.0], [10.0, 11.0], LEVELS[:4]
        for h in list(range(1043136, 1043136 + 25)) + [0, 1, 876576, 1100000]:
            stored = write(path, lat, lon, lev, [h])
            judge(rep, path, stored, lat, lon, lev, [h], (11.0, 45.0), "time %d" % h)
        for hs in ([1043136, 1043142], [1043142, 1043136], [1, 2, 3]):
            stored = write(path, lat, lon, lev, hs)
            rep.count("evaluations")
            try:
                df = ERA.read_data(path, (10.0, 46.0))
            except Exception:
                continue
            rep.check(matches(df, table(stored, lev, hs, 0, 0, 0), stamp(hs[0])) is None, "file with times %s: rows of different times are mixed" % hs)
    elif k == "pairs":
        # reads do not influence each other and leave the files alone
        files = []
        for i, g in enumerate(GRIDS):
            f = os.path.join(SCR, "era-pair-%d-%d.nc" % (os.getpid(), i))
            lat, lon = GRIDS[g][0][:i % 3 + 2], GRIDS[g][1][:i % 3 + 2]
            lev = LEVELS[i % 3:i % 3 + 3]
            files.append((f, write(f, lat, lon, lev, [1000000 + i]), lat, lon, lev, [1000000 + i], hashlib.sha1(open(f, "rb").read()).hexdigest()))
        for a, b in itertools.product(files, repeat=2):
            for x in (a, b):
                j = len(x[2]) // 2
                judge(rep, *x[:6], (x[3][j] + 0.01, x[2][j]), "reads of %s, %s" % (files.index(a), files.index(b)))
        for x in files:
            rep.check(hashlib.sha1(open(x[0], "rb").read()).hexdigest() == x[6], "reading changed the file")
            os.unlink(x[0])
    else:
        request(rep)


def request(rep):
    """What is asked from the reanalysis service: date, hour, region around the point, and the returned path."""
    import datetime
    import pyrtlib.apiwebservices.erafive as M
    calls = []

    class Client:
        def __init__(self, *a, **k):
            pass

        def retrieve(self, name, req, target=None):
            calls.append((name, req, target))

    class Stub:
        pass
    Stub.Client = Client
    old = getattr(M, "cdsapi", None)
    M.cdsapi = Stub
    try:
        for (y, m, d), h in itertools.product(((2020, 2, 22), (2019, 12, 1), (2021, 1, 31)), (0, 6, 12, 23)):
            for lonlat in ((15.8158, 38.2663), (-58.5, -34.5), (0.0, 0.0)):
                for kw in ({}, dict(resolution=0.5, offset=1.0), dict(offset=0.3)):
                    rep.count("evaluations")
                    calls.clear()
                    t = datetime.datetime(y, m, d, h)
                    got = ERA.request_data(SCR, t, lonlat, **kw)
                    if not rep.check(len(calls) == 1, "%d requests" % len(calls)):
                        continue
                    name, q, target = calls[0]
                    tag = "request %s %s %s" % (t, lonlat, kw)
                    rep.check(target == got and os.path.dirname(got) == SCR, "%s: stored in %s, returned %s" % (tag, target, got))
                    one = lambda x: x[0] if isinstance(x, (list, tuple)) and len(x) == 1 else x
                    rep.check((int(one(q["year"])), int(one(q["month"])), int(one(q["day"]))) == (y, m, d), "%s: date %s" % (tag, [q[x] for x in ("year", "month", "day")]))
                    rep.check(str(one(q["time"])).split(":")[0].zfill(2) == "%02d" % h and str(one(q["time"])).endswith(":00"), "%s: time %s" % (tag, q["time"]))
                    o, r = kw.get("offset", 0.4), kw.get("resolution", 0.25)
                    rep.close(q["area"], [lonlat[1] + o, lonlat[0] - o, lonlat[1] - o, lonlat[0] + o], tag + " area", atol=1e-12)
                    rep.close(q["grid"], [r, r], tag + " grid")
                    want = {'relative_humidity', 'specific_cloud_ice_water_content', 'specific_cloud_liquid_water_content', 'specific_humidity', 'specific_rain_water_content',
                            'specific_snow_water_content', 'ozone_mass_mixing_ratio', 'temperature'}
                    rep.check(set(q["variable"]) == want, "%s: variables %s" % (tag, q["variable"]))
                    rep.check(name == "reanalysis-era5-pressure-levels" and q.get("product_type") in ("reanalysis", ["reanalysis"]), "%s: data set %s" % (tag, name))
                    rep.outcome(repr(calls))
        a = {ERA.request_data(SCR, datetime.datetime(2020, 1, d, h), (1.0, 2.0)) for d in (1, 2) for h in (0, 12)}
        rep.check(len(a) == 4, "different times are stored in the same file")
    finally:
        M.cdsapi = old
