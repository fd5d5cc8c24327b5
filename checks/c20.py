"""C20: Wyoming soundings and station lists are decoded exactly."""
import itertools, datetime, html
import numpy as np
import ref.wyoming as Y
PID = "C20"
LEVEL = "model_checking"
RULE = ("all answers of 0-3 (thorough 4) levels over an alphabet of 11 kinds of level lines (complete, height only, wind only, no dew point, no wind, no humidity, extreme values, full-width fields) with and without trailing blanks; "
        "every presence pattern of the eleven fields (2^11) and every value of every field; station with and without identifier x numbers x positions x elevations x times; all station maps of up to 3 (thorough 4) entries over an alphabet of 12")
NOTE = "answers are rendered from structured soundings and decoded by the real reader behind a stand-in for the network; states are answers, transitions requests"
ASSUMPTIONS = ["the list of an answer has columns of seven characters", "an answer without any complete level may be refused"]
COLS = ["pressure", "height", "temperature", "dewpoint", "rh", "mixr"]
ALL = COLS + ["station", "station_number", "time", "latitude", "longitude", "elevation", "title"]
UNITS = {'pressure': 'hPa', 'height': 'meter', 'temperature': 'degC', 'dewpoint': 'degC', 'rh': '%', 'mixr': 'g/kg', 'station': None, 'station_number': None, 'time': None,
         'latitude': 'degrees', 'longitude': 'degrees', 'elevation': 'meter'}
FULL = ["998.0", "106", "26.2", "20.2", "69", "15.21", "260", "11", "299.5", "344.2", "302.2"]
META = dict(station="LIRE", number="16245", time="220622/1200", lat="41.65", lon="12.43", elev="12.0")
KINDS = {"complete": FULL,
         "height": ["1000.0", "96"] + [None] * 9,
         "wind": ["850.0", "1500"] + [None] * 4 + ["90", "10"] + [None] * 3,
         "nodew": ["10.0", "31300", "-42.9", None, None, None, "95", "29", "859.0", None, "859.0"],
         "nowind": ["700.0", "3088", "4.4", "-9.6", "36", "2.59", None, None, "310.9", "319.9", "311.4"],
         "nohum": ["500.0", "5790", "-10.0", "-30.0", None, None, "270", "40", "325.0", None, None],
         "bare": ["300.0", "9500", "-40.0", "-60.0"] + [None] * 7,
         "cold": ["5.1", "38011", "-95.9", "-105.9", "1", "0.00", "0", "229", "1859.0", "1859.1", "1859.0"],
         "hot": ["1085.6", "-430", "49.9", "35.0", "100", "38.12", "360", "0", "315.0", "440.4", "322.0"],
         "noheight": ["925.0", None, "10.0", "5.0", "71", "5.93", "180", "20", "290.0", "307.3", "291.0"],
         "notemp": ["400.0", "7300", None, "-40.0", None, None, "280", "50", None, None, None]}
VALUES = dict(pressure=["1000.0", "999.9", "1085.6", "5.0", "0.1", "100.0"], height=["0", "1", "-5", "-430", "99", "9999", "31300", "100000"],
              temperature=["0.0", "-0.1", "-9.9", "-99.9", "-100.5", "49.9"], dewpoint=["0.0", "-0.1", "-9.9", "-99.9", "-105.5", "30.0"], rh=["0", "1", "99", "100", "103"],
              mixr=["0.00", "0.01", "9.99", "38.12", "100.00"], drct=["0", "5", "360"], sknt=["0", "8", "229"], thta=["250.1", "1859.0"], thte=["250.2", "1859.1"], thtv=["250.3", "1859.2"])
AREAS = [("16245", "LIRE Pratica Di Mare"), ("16320", "LIBR Brindisi"), ("03005", "Lerwick"), ("BGTL", "Thule Afb"), ("89009", "Amundsen-Scott (South Pole)"), ("61998", "FXXX Port-aux-Francais (Iles Kerguelen)"),
         ("07145", "Trappes &amp; Co"), None, ("16245", "LIRE Pratica Di Mare"), ("04018", "BIKF Keflavikurflugvollur #2, 1st"),
         ("71600", "Sable Island  NS"), ("01001", " Jan Mayen  ")]


def load(tier):
    global WY, W, pd, TIER
    from mc import web as W
    import pandas as pd
    from pyrtlib.apiwebservices import WyomingUpperAir as WY
    TIER = tier


def cases(tier):
    ks = list(KINDS)
    out = [dict(kind="levels", first=k, n=3 if tier == "quick" else 4) for k in ks] + [dict(kind="nolevels")]
    out += [dict(kind="presence", hi=h) for h in range(8)] + [dict(kind="values"), dict(kind="meta"), dict(kind="order")]
    out += [dict(kind="stations", first=i, n=3 if tier == "quick" else 4) for i in range(len(AREAS))] + [dict(kind="nostations")]
    return out


def weight(c):
    return {"levels": 5, "stations": 3, "presence": 4}.get(c["kind"], 2)


def when(t):
    return datetime.datetime.strptime(t, "%y%m%d/%H%M")


def expected(rows):
    out = []
    for r in rows:
        if r[2] is not None and r[3] is not None:
            out.append([np.nan if x is None else float(x) for x in r[:6]])
    return out


def ask(text, meta=META, site=None):
    with W.Server(lambda u: (200, "text/html; charset=UTF-8", text.encode("utf-8"))):
        return WY.request_data(when(meta["time"]), site or meta.get("station") or int(meta["number"]))


def judge(rep, rows, meta=META, tag="", pad=False, title="16245 LIRE Pratica Di Mare Observations at 12Z 22 Jun 2022", indices=True):
    rep.count("states")
    rep.count("traces")
    rep.count("transitions")
    want = expected(rows)
    try:
        df = ask(Y.page(rows, meta, html.escape(title), pad, indices), meta)
    except Exception as e:
        if want:
            rep.bad("%s: %r for a complete answer with levels %s" % (tag, e, rows))
        return
    compare(rep, df, want, meta, tag, title)


def compare(rep, df, want, meta, tag, title=None):
    if not rep.check(all(c in df.columns for c in ALL), lambda: "%s: columns %s" % (tag, list(df.columns))):
        return
    if not rep.check(len(df) == len(want), lambda: "%s: %d levels, expected %d: %s" % (tag, len(df), len(want), df[COLS].values.tolist()[:3])):
        return
    if want:
        rep.close(df[COLS].values.astype(float), want, tag, rtol=1e-12)
    rep.check(list(df.index) == list(range(len(want))), tag + ": row numbers")
    m = dict(station=(meta.get("station") or "").strip(), station_number=int(meta["number"]), latitude=float(meta["lat"]), longitude=float(meta["lon"]), elevation=float(meta["elev"]))
    if title is not None:
        m["title"] = title
    for c, v in m.items():
        rep.check(all(x == v for x in df[c]), lambda: "%s: %s is %r, expected %r" % (tag, c, df[c].tolist()[:1], v))
    rep.check(all(pd.Timestamp(x) == when(meta["time"]) for x in df["time"]), lambda: "%s: time %s, expected %s" % (tag, df["time"].tolist()[:1], meta["time"]))
    u = df.attrs.get("units", {})
    rep.check(all(k in u and u[k] == v for k, v in UNITS.items()), lambda: "%s: units %s" % (tag, u))
    rep.outcome(df[COLS].values.astype(float).tobytes() + repr(m).encode())


def evaluate(case, rep):
    k = case["kind"]
    if k == "levels":
        for n in range(0, case["n"]):
            for rest in itertools.product(KINDS, repeat=n):
                ks = (case["first"],) + rest
                i = sum(map(len, ks))
                judge(rep, [KINDS[x] for x in ks], dict(META, station=None) if i % 3 == 0 else META, "levels %s" % (ks,), pad=bool(i % 2))
    elif k == "nolevels":
        for m in (META, dict(META, station=None)):
            judge(rep, [], m, "no levels")
    elif k == "presence":
        # every pattern of present fields in one line, alone and between complete lines
        for pat in itertools.product((True, False), repeat=8):
            p = [bool(case["hi"] >> j & 1) for j in range(3)] + list(pat)
            p = p[3:] + p[:3]           # the first eight fields vary within the case
            r = [x if y else None for x, y in zip(FULL, p)]
            if r[0] is None:
                continue                # every line of an answer has a pressure
            judge(rep, [KINDS["hot"], r, KINDS["nowind"]], META, "fields %s" % "".join(".x"[y] for y in p), pad=bool(sum(p) % 2))
            if sum(p) % 3 == 0:
                judge(rep, [r], META, "fields %s alone" % "".join(".x"[y] for y in p))
    elif k == "values":
        rows = []
        for i, (f, vs) in enumerate(VALUES.items()):
            for v in vs:
                r = list(FULL)
                r[i] = v
                rows.append(r)
                judge(rep, [r], META, "%s=%s alone" % (f, v))
                for j in range(11):
                    q = list(r)
                    if j > i and j > 3:
                        q[j:] = [None] * (11 - j)
                        judge(rep, [KINDS["complete"], q], META, "%s=%s followed by %d fields" % (f, v, j - i - 1))
        judge(rep, rows, META, "all values")
        judge(rep, rows * 4 + [KINDS["nodew"]] * 5, META, "long answer")
        for (i, a), (j, b) in itertools.combinations(list(enumerate(VALUES.values())), 2):
            if j == i + 1:
                rs = []
                for x, y in itertools.product(a, b):
                    r = list(FULL)
                    r[i], r[j] = x, y
                    rs.append(r)
                judge(rep, rs, META, "all values of columns %d and %d" % (i, j))
    elif k == "meta":
        for st, num, lat, lon in itertools.product((None, "LIRE", "BGTL", "X1"), ("16245", "03005", "1", "99999"), ("41.65", "-41.65", "0.00", "-0.05", "90.0", "-90.00"), ("12.43", "-12.43", "179.99", "-180.00", "0.0")):
            judge(rep, [FULL], dict(META, station=st, number=num, lat=lat, lon=lon), "station %s %s at %s %s" % (st, num, lat, lon), title="%s %s Somewhere Observations at 12Z 22 Jun 2022" % (num, st or ""))
        for el, t in itertools.product(("12.0", "0.0", "-430.0", "5.0", "3812.5"), ("220622/1200", "220622/0000", "000229/2359", "191231/2300", "680101/0600", "730101/0600", "240229/1215")):
            for st in (None, "LIRE"):
                for ind in (True, False):
                    judge(rep, [FULL, KINDS["height"]], dict(META, station=st, elev=el, time=t), "elevation %s time %s station %s" % (el, t, st), indices=ind or el != "12.0")
        for title in ("Vlissingen & Co <X> Observations", "72357 OUN Norman Observations at 00Z 01 Jan 2020", "x"):
            judge(rep, [FULL], META, "title " + title, title=title)
    elif k == "order":
        # the levels are returned in the order of the answer
        rows = [["%.1f" % p, "%d" % h, "%.1f" % t, "%.1f" % d] + FULL[4:] for p, h, t, d in ((900, 1000, 10, 5), (1000, 100, 15, 9), (950, 500, 12, 11), (900, 1000, 10, 5))]
        for perm in itertools.permutations(range(4)):
            judge(rep, [rows[i] for i in perm], META, "order %s" % (perm,))
        # one answer after the other
        for a, b in itertools.permutations(KINDS, 2):
            judge(rep, [KINDS[a], FULL], META, "first of %s %s" % (a, b))
            judge(rep, [KINDS[b]], dict(META, station=None, number="89009", lat="-90.0"), "second of %s %s" % (a, b))
    else:
        combos = [()] if k == "nostations" else [(case["first"],) + r for n in range(case["n"]) for r in itertools.product(range(len(AREAS)), repeat=n)]
        for c in combos:
            es = [AREAS[i] for i in c]
            text = Y.stations(es)
            region = ("europe", "naconf", "ant")[len(c) % 3]
            with W.Server(lambda u: (200, "text/html", text.encode())):
                df = WY.get_stations(region) if region != "europe" or len(c) % 2 else WY.get_stations()
            rep.count("states")
            rep.count("traces")
            rep.count("transitions")
            want = []
            for e in es:
                if e is not None and (e[0], html.unescape(e[1]).strip()) not in want:
                    want.append((e[0], html.unescape(e[1]).strip()))
            tag = "station map %s" % es
            if rep.check(list(df.columns) == ["station_id", "station_name"], lambda: "%s: columns %s" % (tag, list(df.columns))):
                rep.check([tuple(x) for x in df.values.tolist()] == want, lambda: "%s: %s" % (tag, df.values.tolist()))
            rep.outcome(repr(want))
