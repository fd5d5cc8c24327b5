"""C21: failures of the sounding servers surface as errors; requests go to the right address; recovery."""
import itertools, datetime, urllib.parse, io, zipfile
import numpy as np
PID = "C21"
LEVEL = "fault_enumeration"
RULE = ("every pair of server answers (good, twelve error statuses with html, text and sounding bodies, no-data page, empty, foreign page, damaged archive, cut answer, four connection failures) over six kinds of requests and two "
        "stations, each followed by a good answer, and (thorough) every triple followed by a good one; every prefix of every payload and every single-byte damage (3 masks, thorough 8) of the archives; every subset of the blocks of a page; "
        "addresses of every hour of two years, every region, and all data sets x stations x periods")
NOTE = "faults are injected at the transport below requests; an answer must be exactly the data that belongs to the request (decoded by an independent specification) or an exception"
ASSUMPTIONS = ["the payload of the radiosonde archive is the zip file, so its checksum is intact whenever its text is", "a cut station map cannot be told from a short one and is not a fault here",
               "which exception is raised is free"]
KINDS = ["single", "period", "recent", "derived", "wyoming", "stations"]
SITES = {"igra": ("ITM00016245", "SPM00060018"), "wyoming": ("LIRE", 16320), "stations": ("europe", "samer")}
BASE = "www.ncei.noaa.gov/data/integrated-global-radiosonde-archive/access/"
STATUS = [204, 206, 301, 304, 400, 401, 403, 404, 429, 500, 502, 503]


def load(tier):
    global A, B, Y, W, requests, IG, WY, TIER, ERRORS
    TIER = tier
    import checks.c19 as A
    import checks.c20 as B
    A.load(tier)
    B.load(tier)
    from mc import web as W
    import ref.wyoming as Y
    import requests
    from pyrtlib.apiwebservices import IGRAUpperAir as IG, WyomingUpperAir as WY
    ERRORS = [requests.ConnectionError("refused"), requests.exceptions.ConnectTimeout("slow"), requests.exceptions.ReadTimeout("slow"), requests.exceptions.SSLError("certificate")]


# ---- what each request asks for, and the good answer ---------------------------------------
def soundings(kind, s):
    fmt = "derived" if kind == "derived" else "raw"
    return [(A.base_head(d, site_id=SITES["igra"][s], release="%02d15" % (j + 3 + s)), [A.level(30 * s + 10 * j + m, fmt) for m in range(2)]) for j, d in enumerate(("2021 03 01 00", "2021 03 01 12", "2021 03 02 00"))]


def wyoming(s):
    return ([B.KINDS["complete"], B.KINDS["nodew"], B.KINDS["cold"] if s else B.KINDS["hot"]],
            dict(B.META, station="LIRE") if s == 0 else dict(B.META, station=None, number="16320", lat="-40.65", lon="17.95", elev="10.0"))


def names(s):
    return [[("16245", "LIRE Pratica Di Mare"), ("03005", "Lerwick")], [("87576", "SAEZ Ezeiza Aero"), ("82332", "SBMN Manaus (Aeroporto)"), ("85442", "Antofagasta")]][s]


def good(kind, s):
    if kind == "wyoming":
        return (200, "text/html; charset=UTF-8", Y.page(*wyoming(s), "%s somewhere" % s).encode())
    if kind == "stations":
        return (200, "text/html", Y.stations(names(s)).encode())
    fmt = kind if kind in ("recent", "derived") else "raw"
    return (200, "application/zip", W.zipped(A.render(soundings(kind, s), fmt)))


def ask(kind, s):
    if kind == "wyoming":
        return WY.request_data(B.when(B.META["time"]), SITES["wyoming"][s])
    if kind == "stations":
        return WY.get_stations(SITES["stations"][s])
    a, b = span(kind)
    return IG.request_data(a if a == b else [a, b], SITES["igra"][s], beg2021=kind == "recent", derived=kind == "derived")


def span(kind):
    a = datetime.datetime(2021, 3, 1, 12)
    return (a, a) if kind != "period" else (a, datetime.datetime(2021, 3, 2, 0))


def address(kind, s):
    if kind == "wyoming":
        return ("weather.uwyo.edu/cgi-bin/sounding", dict(TYPE=["TEXT:LIST"], YEAR=["2022"], MONTH=["06"], FROM=["2212"], TO=["2212"], STNM=[str(SITES["wyoming"][s])]))
    if kind == "stations":
        return ("weather.uwyo.edu/upperair/%s.html" % SITES["stations"][s], {})
    return (BASE + {"recent": "data-y2d/%s-data-beg2021.txt.zip", "derived": "derived-por/%s-drvd.txt.zip"}.get(kind, "data-por/%s-data.txt.zip") % SITES["igra"][s], {})


def parts(url):
    u = urllib.parse.urlsplit(url)
    q = urllib.parse.parse_qs(u.query, keep_blank_values=True)
    q.pop("region", None)           # the archive selects by station alone
    return (u.netloc + u.path.rstrip("/"), q)


def verify(rep, got, kind, s, tag):
    if kind == "wyoming":
        rows, meta = wyoming(s)
        B.compare(rep, got, B.expected(rows), meta, tag, "%s somewhere" % s)
    elif kind == "stations":
        rep.check(list(got.columns) == ["station_id", "station_name"] and [tuple(x) for x in got.values.tolist()] == names(s), lambda: "%s: stations %s" % (tag, got.values.tolist()))
    else:
        a, b = span(kind)
        A.judge(rep, got, soundings(kind, s), "derived" if kind == "derived" else "raw", a, b, tag)


# ---- faults --------------------------------------------------------------------------------
def faults(kind, s, every):
    """Named answers that are not good ones."""
    g = good(kind, s)
    out = [("empty", (200, g[1], b""))] if kind != "stations" else []
    page = b"<html><head><title>Service</title></head><body><h2>Maintenance</h2><p>Back soon.</p></body></html>"
    for c in STATUS if every else (204, 301, 404, 503):
        out.append(("status %d html" % c, (c, "text/html", page)))
        if every:
            out.append(("status %d text" % c, (c, "text/plain", b"failed")))
            out.append(("status %d no type" % c, (c, None, b"failed")))
            out.append(("status %d empty" % c, (c, "text/html", b"")))
        if every or c in (404, 503):
            out.append(("status %d with a sounding" % c, (c,) + g[1:]))
    out += [(type(e).__name__, e) for e in (ERRORS if every else ERRORS[:1])]
    if kind in ("single", "period", "recent", "derived"):
        out += [("maintenance page", (200, "text/html", page)), ("archive without a file", (200, g[1], emptyzip())), ("archive with an empty file", (200, g[1], W.zipped(""))),
                ("archive of a page", (200, g[1], W.zipped(page.decode()))), ("first half", (200, g[1], g[2][:len(g[2]) // 2])), ("second half", (200, g[1], g[2][len(g[2]) // 2:])), ("soundings of another period", (200, g[1], other(kind, s)))]
    if kind == "wyoming":
        out += [("no data", (200, g[1], Y.NODATA.encode())), ("maintenance page", (200, "text/html", page)), ("first half", (200, g[1], g[2][:len(g[2]) // 2]))]
        if every:
            out += [("no data, other wording", (200, g[1], Y.NODATA.replace("Can't get 99999  Observations at", "Sorry, Can't get 16245 LIRE Pratica Di Mare Observations at").encode())),
                    ("no data after a title", (200, g[1], Y.NODATA.replace("Can't", "<H2>x</H2><PRE>Can't").encode()))]
    return out


def emptyzip():
    b = io.BytesIO()
    zipfile.ZipFile(b, "w").close()
    return b.getvalue()


def other(kind, s):
    d = kind == "derived"
    return W.zipped(A.render([(A.base_head(x), [A.level(1, "derived" if d else "raw")]) for x in ("2021 02 28 12", "2021 03 02 12")], "derived" if d else "raw"))


def attempt(rep, kind, s, answer, tag, isgood=False):
    """One request; returns True if it ended in an error."""
    rep.count("evaluations")
    with W.Server(lambda url: answer) as srv:
        try:
            got = ask(kind, s)
        except Exception as e:
            got = e
    rep.check(len(srv.urls) > 0 and all(parts(u) == address(kind, s) for u in srv.urls), lambda: "%s: asked %s, expected %s" % (tag, srv.urls, address(kind, s)))
    if isinstance(got, Exception):
        rep.check(not isgood, lambda: "%s: %r for a good answer" % (tag, got))
        rep.outcome("%s %s %s" % (kind, type(got).__name__, str(got)[:30]))
        return True
    return got


def must_fail(rep, kind, s, answer, tag):
    got = attempt(rep, kind, s, answer, tag)
    rep.check(got is True, lambda: "%s: no error but %s" % (tag, str(got)[:300]))


def must_work(rep, kind, s, tag):
    got = attempt(rep, kind, s, good(kind, s), tag, True)
    if got is not True:
        verify(rep, got, kind, s, tag)


def fail_or_right(rep, kind, s, answer, tag):
    got = attempt(rep, kind, s, answer, tag)
    if got is not True:
        verify(rep, got, kind, s, tag + " (answered)")
    return got is True


def step(rep, kind, s, name, answer, tag):
    if answer is None:
        must_work(rep, kind, s, tag + " good answer")
    else:
        must_fail(rep, kind, s, answer, tag + " " + name)


def cases(tier):
    out = [dict(kind="each", what=k) for k in KINDS]
    out += [dict(kind="pairs", what=k, then=j) for k in KINDS for j in KINDS]
    if tier == "thorough":
        out += [dict(kind="triples", what=k, then=j, last=l) for k in KINDS for j in KINDS for l in KINDS]
    out += [dict(kind="cut", what=k, part=p) for k in KINDS[:5] for p in range(4)]
    out += [dict(kind="bytes", what=k, part=p) for k in KINDS[:4] for p in range(4)]
    out += [dict(kind="blocks")] + [dict(kind="hours", year=y, part=p) for y in ((2020, 2021) if tier == "quick" else (1973, 2000, 2020, 2021, 2024)) for p in range(2)] + [dict(kind="addresses")]
    return out


def weight(c):
    return {"pairs": 3, "triples": 9, "hours": 5, "cut": 6 if c.get("what") == "wyoming" else 2, "bytes": 4}.get(c["kind"], 2)


def evaluate(case, rep):
    k, what = case["kind"], case.get("what")
    if k == "each":
        # every fault, each followed by a good answer of the same address
        for s in (0, 1):
            must_work(rep, what, s, "%s first" % what)
            for name, a in faults(what, s, True):
                must_fail(rep, what, s, a, "%s, %s" % (what, name))
                must_work(rep, what, s, "%s after %s" % (what, name))
    elif k in ("pairs", "triples"):
        ks = [what, case["then"]] + ([case["last"]] if k == "triples" else [])
        alpha = [[("good", None)] + faults(x, 0, False) for x in ks]
        for names_ in itertools.product(*[range(len(a)) for a in alpha]):
            for same in (True, False):
                done = "history"
                for i, (x, j) in enumerate(zip(ks, names_)):
                    s = 0 if same else i % 2
                    name, a = ([("good", None)] + faults(x, s, False))[j] if s else alpha[i][j]
                    step(rep, x, s, name, a, done)
                    done += " / %s %s" % (x, name)
                for x in dict.fromkeys(ks):
                    must_work(rep, x, 0, done + " / %s then" % x)
    elif k == "cut":
        n = 0
        g = good(what, case["part"] % 2)
        for i in range(case["part"], len(g[2]), 4):
            n += fail_or_right(rep, what, case["part"] % 2, (200, g[1], g[2][:i]), "%s cut after %d of %d bytes" % (what, i, len(g[2])))
            if what != "wyoming" and i < len(g[2]) - 22:
                must_fail(rep, what, case["part"] % 2, (200, g[1], g[2][:i]), "%s cut after %d of %d bytes" % (what, i, len(g[2])))
        must_work(rep, what, 0, "%s after all cut answers" % what)
    elif k == "bytes":
        g = good(what, 0)
        masks = (1, 0x20, 0xff) if TIER == "quick" else (1, 2, 4, 8, 16, 32, 64, 128, 255)
        for i in range(case["part"], len(g[2]), 4):
            for m in masks:
                b = bytearray(g[2])
                b[i] ^= m
                fail_or_right(rep, what, 0, (200, g[1], bytes(b)), "%s with byte %d of %d changed by %#x" % (what, i, len(b), m))
            fail_or_right(rep, what, 0, (200, g[1], g[2][:i] + g[2][i + 1:]), "%s without byte %d" % (what, i))
            fail_or_right(rep, what, 0, (200, g[1], g[2][:i] + b"\0" + g[2][i:]), "%s with a byte inserted at %d" % (what, i))
        must_work(rep, what, 0, "%s after all damaged answers" % what)
    elif k == "blocks":
        # a page of which any of the parts is missing or repeated
        rows, meta = wyoming(0)
        p = Y.page(rows, meta, "0 somewhere")
        i = [p.index("<H2>"), p.index("<PRE>"), p.index("</PRE><H3>"), p.index("<H3>"), p.index("<PRE>", p.index("<H3>")), p.index("</PRE>\n<P>")]
        bl = [p[:i[0]], p[i[0]:i[1]], p[i[1]:i[3]], p[i[3]:i[4]], p[i[4]:i[5]], p[i[5]:]]
        assert "".join(bl) == p
        for pat in itertools.product((0, 1), repeat=6):
            t = "".join(b for b, y in zip(bl, pat) if y)
            f = fail_or_right(rep, "wyoming", 0, (200, "text/html; charset=UTF-8", t.encode()), "page with blocks %s" % (pat,))
            if not (pat[1] and pat[2] and pat[4]):
                rep.check(f, lambda: "page with blocks %s: no error" % (pat,))
        for perm in itertools.permutations((1, 2, 4)):
            t = bl[0] + "".join(bl[j] for j in perm) + bl[5]
            if perm.index(2) > perm.index(4):
                must_fail(rep, "wyoming", 0, (200, "text/html", t.encode()), "page with blocks in order %s" % (perm,))
        for n in range(0, 14):
            t = Y.page(rows, meta, "0 somewhere").splitlines(True)
            fail_or_right(rep, "wyoming", 0, (200, "text/html", "".join(t[:len(t) - n]).encode()), "page without its last %d lines" % n)
        # archives: fewer or more levels than announced at the end of the file, several files
        for kind in KINDS[:4]:
            fmt = "derived" if kind == "derived" else "raw"
            t = A.render(soundings(kind, 0), fmt).splitlines(True)
            for n in range(0, len(t)):
                fail_or_right_cut(rep, kind, t, n)
            # more levels announced than there are before the next sounding or the end of the file
            for more in (1, 2, 3, 9):
                x = list(t)
                j = 6 if kind == "period" else 3
                assert x[j][0] == "#" and x[j][31:36] == "    2", x[j]
                x[j] = x[j][:31] + "%5d" % (2 + more) + x[j][36:]
                must_fail(rep, kind, 0, (200, "application/zip", W.zipped("".join(x))), "%s with %d levels announced and 2 present" % (kind, 2 + more))
    elif k == "hours":
        hours(case, rep)
    else:
        addresses(rep)


def fail_or_right_cut(rep, kind, t, n):
    """The archive ends after n whole lines."""
    got = attempt(rep, kind, 0, (200, "application/zip", W.zipped("".join(t[:n]))), "%s of %d lines" % (kind, n))
    # 9 lines, sounding of the request is lines 4-6, of the period lines 4-9
    need = 9 if kind == "period" else 6
    if got is True:
        rep.check(n < need, "%s of %d lines: error although the sounding is complete" % (kind, n))
        return
    if kind == "period" and 6 <= n < 7:      # the last sounding is missing altogether: not visible
        sel = soundings(kind, 0)[:2]
        A.judge(rep, got, sel, "raw", *span(kind), "%s of %d lines" % (kind, n))
    else:
        verify(rep, got, kind, 0, "%s of %d lines" % (kind, n))


def hours(case, rep):
    """Address of every hour of a year."""
    t = datetime.datetime(case["year"], 1 + 6 * case["part"], 1)
    end = datetime.datetime(case["year"] + case["part"], 7 if not case["part"] else 1, 1)
    sites = ("LIRE", "16245", 72357, "BGTL", 3005)
    urls = []
    with W.Server(lambda u: urls.append(u) or (200, "text/html", Y.NODATA.encode())):
        i = 0
        while t < end:
            st = sites[i % 5]
            del urls[:]
            try:
                WY.request_data(t + datetime.timedelta(minutes=i % 60, seconds=i % 7), st)
                rep.bad("no error for a page without data at %s" % t)
            except Exception:
                pass
            want = ("weather.uwyo.edu/cgi-bin/sounding", dict(TYPE=["TEXT:LIST"], YEAR=["%04d" % t.year], MONTH=["%02d" % t.month], FROM=["%02d%02d" % (t.day, t.hour)], TO=["%02d%02d" % (t.day, t.hour)], STNM=[str(st)]))
            rep.check(urls and all(parts(u) == want for u in urls), lambda: "%s %s: asked %s" % (t, st, urls))
            rep.count("evaluations")
            rep.outcome(repr(want))
            t += datetime.timedelta(hours=1)
            i += 1


def addresses(rep):
    T = [datetime.datetime(*x) for x in ((1940, 1, 1), (1999, 12, 31, 23), (2021, 1, 1), (2021, 6, 15, 12), (2024, 2, 29, 6), (2030, 1, 1))]
    for site in ("ITM00016245", "SPM00060018", "USM00072357", "AYM00094014", "ZZXUAICE001"):
        for beg in (False, True, None):
            for der in (False, True, None):
                want = BASE + ("derived-por/%s-drvd.txt.zip" if der else "data-y2d/%s-data-beg2021.txt.zip" if beg else "data-por/%s-data.txt.zip") % site
                for period in [t for t in T] + [list(x) for x in itertools.combinations(T, 2)] + [tuple(x) for x in itertools.combinations(T, 2)]:
                    kw = {}
                    if beg is not None:
                        kw["beg2021"] = beg
                    if der is not None:
                        kw["derived"] = der
                    with W.Server(lambda u: (404, "text/html", b"")) as srv:
                        try:
                            IG.request_data(period, site, **kw)
                            rep.bad("no error for status 404")
                        except Exception:
                            pass
                    rep.count("evaluations")
                    rep.check(srv.urls and all(parts(u) == (want, {}) for u in srv.urls), lambda: "%s beg2021=%s derived=%s %s: asked %s" % (site, beg, der, period, srv.urls))
    regions = ["naconf", "samer", "pac", "nz", "ant", "np", "europe", "africa", "seasia", "mideast"]
    for a, b in itertools.product(regions + [None], repeat=2):
        for r in (a, b):
            with W.Server(lambda u: (200, "text/html", Y.stations(names(0)).encode())) as srv:
                WY.get_stations(r) if r else WY.get_stations()
            rep.count("evaluations")
            rep.check(srv.urls and all(parts(u) == ("weather.uwyo.edu/upperair/%s.html" % (r or "europe"), {}) for u in srv.urls), lambda: "region %s: asked %s" % (r, srv.urls))
            rep.outcome(repr(srv.urls))
