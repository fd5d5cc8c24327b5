"""Pages of the Wyoming sounding archive, rendered from structured soundings."""
W = 7
HEAD = """<HTML>
<TITLE>University of Wyoming - Radiosonde Data</TITLE>
<LINK REL="StyleSheet" HREF="/resources/select.css" TYPE="text/css">
<BODY BGCOLOR="white">
<H2>%s</H2>
<PRE>
-----------------------------------------------------------------------------
   PRES   HGHT   TEMP   DWPT   RELH   MIXR   DRCT   SKNT   THTA   THTE   THTV
    hPa     m      C      C      %%    g/kg    deg   knot     K      K      K 
-----------------------------------------------------------------------------
"""
INDICES = """                            Showalter index: 3.33
                               Lifted index: -1.04
                   Precipitable water [mm] for entire sounding: 28.57
"""
TAIL = """
<P>Description of the 
<A HREF="/upperair/columns.html">data columns</A>
or <A HREF="/upperair/indices.html">sounding indices</A>.
</BODY>
</HTML>
"""
NODATA = """<HTML>
<TITLE>University of Wyoming - Radiosonde Data</TITLE>
<BODY BGCOLOR="white">
Can't get 99999  Observations at 12Z 22 Jun 2022.
</BODY></HTML>
"""


def line(v, pad=True):
    """v: 11 texts or None; trailing empty fields are left out unless pad."""
    s = "".join("%*s" % (W, "" if x is None else x) for x in v)
    assert len(s) == 77, s
    return s if pad else s.rstrip()


def page(rows, meta, title="16245 LIRE Pratica Di Mare Observations at 12Z 22 Jun 2022", pad=False, indices=True):
    m = ""
    if meta.get("station") is not None:
        m += "%43s: %s\n" % ("Station identifier", meta["station"])
    m += "%43s: %s\n" % ("Station number", meta["number"])
    m += "%43s: %s\n" % ("Observation time", meta["time"])
    m += "%43s: %s\n" % ("Station latitude", meta["lat"])
    m += "%43s: %s\n" % ("Station longitude", meta["lon"])
    m += "%43s: %s\n" % ("Station elevation", meta["elev"])
    return HEAD % title + "".join(line(r, pad) + "\n" for r in rows) + "</PRE><H3>Station information and sounding indices</H3><PRE>\n" + m + (INDICES if indices else "") + "</PRE>" + TAIL


def stations(entries):
    """entries: (identifier, name) or None for an area without title."""
    a = ""
    for i, e in enumerate(entries):
        a += '<AREA COORDS="%d,%d,3" SHAPE="CIRCLE"%s HREF="javascript:g(%r)" >\n' % (10 + i, 20 + i, "" if e is None else ' TITLE="%s %s"' % e, "" if e is None else e[0])
    return '<HTML><HEAD><TITLE>Soundings</TITLE></HEAD><BODY><MAP NAME="raob">\n%s</MAP><IMG SRC="/upperair/europe.gif" USEMAP="#raob"></BODY></HTML>\n' % a
