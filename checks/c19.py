"""C19: radiosonde archive files: soundings of the requested period, rows, units, missing values."""
import itertools, datetime
import numpy as np
PID = "C19"
LEVEL = "model_checking"
RULE = ("all files of up to three soundings over 6 dates (two without hour) x level counts 1-3 (three soundings: chronological order in the quick tier, all orders in the thorough tier) x all single requested times and all periods over 9 instants; "
        "every field over its alphabet of values (extremes, full width, signs, flags, missing codes) one at a time, every pair of neighbouring fields over their alphabets, in files of one level and of all levels; "
        "every header field likewise; raw, recent and derived data sets")
NOTE = "files are rendered from structured soundings and decoded by the real reader behind a stand-in for the network; the structured values are the specification; states are files, transitions requests"
ASSUMPTIONS = ["levels that report neither temperature, humidity depression (derived: relative humidity) nor wind are dropped, as the reader documents (remove empty rows)",
               "a missing hour (99) counts as hour 0, as the reader does", "wind components of the raw format are rounded to one decimal"]
MISS = (-9999, -8888)


def load(tier):
    global IG, I, W, pd, TIER
    import ref.igra as I
    from mc import web as W
    import pandas as pd
    from pyrtlib.apiwebservices import IGRAUpperAir as IG
    TIER = tier


def D(s):
    y, m, d, h = map(int, s.split())
    return datetime.datetime(y, m, d, h)


DATES = ["1998 12 31 23", "2020 02 29 00", "2020 02 29 12", "2020 02 29 99", "2020 03 01 00", "2021 01 01 99"]
TIMES = ["1990 01 01 00", "1998 12 31 23", "2020 02 28 23", "2020 02 29 00", "2020 02 29 06", "2020 02 29 12", "2020 03 01 00", "2021 01 01 00", "2022 05 05 05"]

RAWALPHA = dict(lvltyp1=[1, 2, 3], lvltyp2=[0, 1, 2], etime=[(0, 0), (0, 5), (0, 59), (1, 0), (10, 0), (12, 34), (99, 59), (123, 45), (999, 59), -9999, -8888],
                pressure=[0, 1, 99, 100, 2000, 85000, 99999, 100000, 108812, -9999, -8888], pflag=[" ", "A", "B"], height=[0, 1, -12, -430, 999, 15400, 48123, 99999, -9999, -8888],
                zflag=[" ", "A", "B"], temperature=[0, 1, -1, 9, -9, 123, -456, -999, 600, -9999, -8888], tflag=[" ", "A", "B"], relative_humidity=[0, 1, 55, 999, 1000, -9999, -8888],
                dewpoint_depression=[0, 1, 49, 300, 1234, -9999, -8888], direction=[0, 1, 90, 180, 225, 359, 360, -9999, -8888], speed=[0, 1, 5, 123, 999, 1500, -9999, -8888])
BASE = dict(lvltyp1=2, lvltyp2=0, etime=(3, 7), pressure=70010, pflag="B", height=3012, zflag="A", temperature=-57, tflag=" ", relative_humidity=431, dewpoint_depression=62, direction=233, speed=87)
DALPHA = [0, 1, -1, 7, -35, 123, -1234, 12345, -99998, 100000, 108812, 999999, -99999]
HALPHA = [0, 1, -7, 35, -123, 1234, 98765, -9998, -99999]      # -9999 and -8888 are not codes of this format and not plausible values either


def base_drv():
    return dict(zip(I.DRV, [70010, 3012, 3009, 2675, -65, 2961, 41, 2688, 2972, 2134, 3456, 617, 618, -103, 35, -12, -47, 13, 259]))


def base_head(date, **kw):
    y, m, d, h = map(int, date.split())
    o = dict(site_id="ITM00016245", year=y, month=m, day=d, hour=h, release="2330", psrc="ncdc-nws", npsrc="ncdc-gts", lat=416667, lon=124333)
    o.update(zip(I.HDRV, [1234, 92511, 751, 35, 95022, 543, 60033, 4211, 90044, 987, 40055, 7654, 20066, 12098, -3, 5, 30, 45, 1203, -51]))
    o.update(kw)
    return o


def cases(tier):
    out = []
    for kind in ("raw", "recent", "derived"):
        for first in range(len(DATES)):
            out.append(dict(kind="period", fmt=kind, first=first))
    for kind in ("raw", "derived"):
        out.append(dict(kind="single", fmt=kind))
        out.append(dict(kind="heads", fmt=kind))
        n = len(RAWALPHA) if kind == "raw" else 19
        for i in range(n):
            for j in (range(i + 1, n) if tier == "thorough" else range(i + 1, min(i + 2 + (kind == "raw"), n))):
                out.append(dict(kind="pairs", fmt=kind, i=i, j=j))
    out += [dict(kind="hpairs", i=i) for i in range(0, 20, 2)] + [dict(kind="long", fmt=f) for f in ("raw", "derived")]
    return out


def weight(c):
    return {"period": 9, "heads": 6, "hpairs": 4, "pairs": 3, "single": 5, "long": 2}[c["kind"]]


def level(k, fmt):
    """Distinct ordinary level number k."""
    if fmt != "derived":
        r = dict(BASE)
        r.update(pressure=100000 - 37 * k, height=100 + 11 * k, temperature=200 - 7 * k, direction=(40 + 13 * k) % 360, speed=10 + k, dewpoint_depression=3 + k, etime=(k // 60, k % 60))
    else:
        r = base_drv()
        r.update(pressure=100000 - 37 * k, reported_height=100 + 11 * k, temperature=2930 - 7 * k, u_wind=3 * k - 40, reported_relative_humidity=900 - k)
    return r


def render(soundings, fmt):
    """soundings: list of (head, levels)."""
    d = fmt == "derived"
    lines = []
    for h, lv in soundings:
        lines.append((I.drv_head if d else I.raw_head)(h, len(lv)))
        lines += [(I.drv_line if d else I.raw_line)(r) for r in lv]
    return "\n".join(lines) + "\n"


def when(h):
    return datetime.datetime(h["year"], h["month"], h["day"], h["hour"] if h["hour"] < 24 else 0)


def request(text, fmt, period, site="ITM00016245"):
    with W.Server(lambda url: (200, "application/zip", W.zipped(text))) as s:
        t = period[0] if period[0] == period[1] and len(period) == 2 else list(period)
        out = IG.request_data(t, site, beg2021=fmt == "recent", derived=fmt == "derived")
    return out


def column(df, c):
    return df[c].tolist()


def equal(a, b, tol=1e-9):
    if isinstance(b, str):
        return a == b
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    return a == b or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= tol * max(1.0, abs(b))


def judge(rep, got, soundings, fmt, lo, hi, tag):
    d = fmt == "derived"
    rep.count("transitions")
    sel = [(h, lv) for h, lv in soundings if lo <= when(h) <= hi]
    body, head = got
    rows = []
    for h, lv in sel:
        for r in lv:
            v = (I.drv_value if d else I.raw_value)(r)
            if v is not None:
                rows.append(dict(v, date=when(h)))
    want = (I.DRV + ["date"]) if d else I.RAWCOLS
    if not rep.check(sorted(body.columns) == sorted(want), lambda: "%s: columns %s" % (tag, list(body.columns))):
        return
    if not rep.check(len(body) == len(rows), lambda: "%s: %d levels, expected %d" % (tag, len(body), len(rows))):
        return
    rep.check(list(body.index) == list(range(len(rows))), tag + ": row numbers")
    for c in want:
        g = column(body, c)
        if c == "date":
            rep.check([pd.Timestamp(x) for x in g] == [pd.Timestamp(r["date"]) for r in rows], lambda: "%s: dates %s" % (tag, g[:6]))
            continue
        tol = 0.0501 if c in ("u_wind", "v_wind") and not d else 1e-9
        bad = [i for i, r in enumerate(rows) if not (equal(g[i], r[c]) if tol < 1e-6 else (np.isnan(g[i]) and np.isnan(r[c])) or abs(g[i] - r[c]) <= tol)]
        rep.check(not bad, lambda: "%s: %s of level %d is %r, expected %r" % (tag, c, bad[0], g[bad[0]], rows[bad[0]][c]))
    heads = [I.head_value(h, len(lv), d) for h, lv in sel]
    for h, (x, _) in zip(heads, sel):
        h["date"] = when(x)
    hcols = list(heads[0]) if heads else []
    if not rep.check(sorted(head.columns) == sorted(hcols), lambda: "%s: header columns %s" % (tag, list(head.columns))):
        return
    if not rep.check(len(head) == len(heads), lambda: "%s: %d headers, expected %d" % (tag, len(head), len(heads))):
        return
    for c in hcols:
        g = column(head, c)
        if c == "date":
            rep.check([pd.Timestamp(x) for x in g] == [pd.Timestamp(h["date"]) for h in heads], lambda: "%s: header dates %s" % (tag, g[:6]))
        else:
            bad = [i for i, h in enumerate(heads) if not equal(g[i], h[c])]
            rep.check(not bad, lambda: "%s: header %s of sounding %d is %r, expected %r" % (tag, c, bad[0], g[bad[0]], heads[bad[0]][c]))
    u, w = body.attrs.get("units", {}), I.UNITS_DRV if d else I.UNITS_RAW
    rep.check(all(u.get(k) == v for k, v in w.items()), lambda: "%s: units %s" % (tag, u))
    u, w = head.attrs.get("units", {}), I.UNITS_HDRV if d else I.UNITS_HEAD
    rep.check(all(u.get(k) == v for k, v in w.items()), lambda: "%s: header units %s" % (tag, u))
    rep.outcome("%s %s" % (tag, len(rows)))


def whole(rep, soundings, fmt, tag):
    lo, hi = min(when(h) for h, _ in soundings), max(when(h) for h, _ in soundings)
    rep.count("states")
    rep.count("traces")
    judge(rep, request(render(soundings, fmt), fmt, (lo, hi)), soundings, fmt, lo, hi, tag)


def evaluate(case, rep):
    k, fmt = case["kind"], case.get("fmt")
    if k == "period":
        periods(case, rep)
    elif k == "single":
        alpha = RAWALPHA if fmt == "raw" else {n: DALPHA for n in I.DRV}
        base = BASE if fmt == "raw" else base_drv()
        rows = []
        for f, vals in alpha.items():
            for v in vals:
                r = dict(base, **{f: v})
                rows.append(r)
                # the same value as the only level, and before / after an ordinary level
                whole(rep, [(base_head(DATES[1]), [r])], fmt, "%s=%r alone" % (f, v))
                whole(rep, [(base_head(DATES[1]), [level(1, fmt), r, level(2, fmt)])], fmt, "%s=%r in the middle" % (f, v))
        whole(rep, [(base_head(DATES[1]), rows)], fmt, "all field values in one sounding")
        whole(rep, [(base_head(DATES[i]), rows[i::5]) for i in range(5)], fmt, "all field values in five soundings")
        # all patterns of missing values in the fields that decide whether a level is empty
        sub = ["temperature", "relative_humidity", "dewpoint_depression", "direction", "speed", "pressure", "height"] if fmt == "raw" else ["temperature", "reported_relative_humidity", "u_wind", "v_wind", "pressure"]
        code = (-9999, -8888) if fmt == "raw" else (-99999,)
        rows = []
        for pat in itertools.product(range(1 + len(code)), repeat=len(sub)):
            rows.append(dict(base, **{f: code[p - 1] for f, p in zip(sub, pat) if p}))
        for i in range(0, len(rows), 60):
            whole(rep, [(base_head(DATES[1]), rows[i:i + 60] + [level(3, fmt)])], fmt, "missing value patterns %d" % i)
        for r in rows[:: 7 if TIER == "quick" else 1]:
            if (I.raw_value if fmt == "raw" else I.drv_value)(r):
                whole(rep, [(base_head(DATES[1]), [r])], fmt, "missing value pattern alone %s" % r)
    elif k == "pairs":
        alpha = RAWALPHA if fmt == "raw" else {n: DALPHA for n in I.DRV}
        base = BASE if fmt == "raw" else base_drv()
        f, g = list(alpha)[case["i"]], list(alpha)[case["j"]]
        rows = [dict(base, **{f: a, g: b}) for a, b in itertools.product(alpha[f], alpha[g])]
        whole(rep, [(base_head(DATES[2]), rows)], fmt, "all values of %s x %s" % (f, g))
        whole(rep, [(base_head(DATES[i % 6], hour=i % 24, day=1 + i // 24, month=3), [r]) for i, r in enumerate(rows)], fmt, "all values of %s x %s, one sounding each" % (f, g))
    elif k == "heads":
        hs = []
        for rel in ("0000", "0005", "0059", "   5", "  59", "0100", "1000", "1234", "2359", "9999", " 930"):
            hs.append(dict(release=rel))
        if fmt == "raw":
            for lat in (0, 1, 99, 999, 1000, -1, -999, -1000, 12345, -12345, 416667, 900000, -900000):
                for lon in (0, 5, 500, -5, -500, 5000, -5000, 124333, 1800000, -1800000, -1799999):
                    hs.append(dict(lat=lat, lon=lon))
            for s in ("ncdc-gts", "ncdc6210", "", "x"):
                hs += [dict(psrc=s), dict(npsrc=s), dict(psrc=s, npsrc=s)]
        else:
            for f in I.HDRV:
                hs += [{f: v} for v in HALPHA] + ([{f: 101325}] if f.endswith("pressure") else [])
        for sid in ("AEM00041217", "USM00070026", "ZZXUAICE001", "ACM00078861"):
            hs.append(dict(site_id=sid))
        snd = []
        for i, h in enumerate(hs):
            s = (base_head("2020 %02d %02d %02d" % (1 + i // (24 * 27), 1 + i // 24 % 27, i % 24), **h), [level(i % 5 + j, fmt) for j in range(i % 3 + 1)])
            snd.append(s)
            whole(rep, [s], fmt, "header %s" % h)
            if i % 3 == 0:
                whole(rep, [(base_head(DATES[0]), [level(9, fmt)]), s, (base_head(DATES[5]), [level(8, fmt)] * 2)], fmt, "header %s between others" % h)
        whole(rep, snd, fmt, "all header values")
    elif k == "hpairs":
        fmt = "derived"
        for i in (case["i"], case["i"] + 1):
            if i + 1 >= len(I.HDRV):
                continue
            f, g = I.HDRV[i], I.HDRV[i + 1]
            snd = [(base_head("2020 03 %02d %02d" % (1 + j // 24, j % 24), **{f: a, g: b}), [level(j % 7, fmt)]) for j, (a, b) in enumerate(itertools.product(HALPHA, HALPHA))]
            whole(rep, snd, fmt, "all values of %s x %s" % (f, g))
    else:
        # many levels, several soundings, repeated requests on the same archive
        for ns in ((5, 120), (1, 999), (300, 2, 300), (1, 1000)):
            snd = [(base_head(DATES[i + 1]), [level(j % 200 + i, fmt) for j in range(n)]) for i, n in enumerate(ns)]
            text = render(snd, fmt)
            for h, _ in snd + snd[::-1]:
                judge(rep, request(text, fmt, (when(h), when(h))), snd, fmt, when(h), when(h), "level counts %s, sounding %s" % (ns, when(h)))
            whole(rep, snd, fmt, "level counts %s" % (ns,))


def periods(case, rep):
    fmt = case["fmt"]
    T = [D(x) for x in TIMES]
    ps = [(a, a) for a in T] + [(a, b) for a, b in itertools.combinations(T, 2)]
    full = TIER == "thorough"
    files = []
    for n in (1, 2, 3):
        for ds in itertools.product(range(len(DATES)), repeat=n):
            if ds[0] != case["first"] or len(set(ds)) < len(ds) or (n == 3 and not full and list(ds) != sorted(ds)):
                continue
            for cnt in itertools.product((1, 2, 3) if n == 1 else (1, 2), repeat=n):
                if n == 3 and not full and (sum(cnt) + ds[1]) % 2:
                    continue
                files.append((ds, cnt))
    for ds, cnt in files:
        rep.count("states")
        rep.count("traces")
        snd = [(base_head(DATES[i], release="%02d15" % (j + 3), lat=100000 + j, inv_pressure=90000 + j), [level(20 * j + m, fmt) for m in range(c)]) for j, (i, c) in enumerate(zip(ds, cnt))]
        text = render(snd, fmt)
        for lo, hi in (ps if fmt != "recent" or len(ds) < 3 else ps[::3]):
            hit = any(lo <= when(h) <= hi for h, _ in snd)
            tag = "%s file with %s, %s levels, period %s - %s" % (fmt, [DATES[i] for i in ds], cnt, lo, hi)
            try:
                got = request(text, fmt, (lo, hi))
            except ValueError as e:
                rep.check(not hit, "%s: %r" % (tag, e))
                rep.count("transitions")
                continue
            if rep.check(hit, "%s: data although no sounding lies in the period" % tag):
                judge(rep, got, snd, fmt, lo, hi, tag)
