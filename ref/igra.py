"""Radiosonde archive (IGRA 2) files: rendering of soundings in the fixed-width formats and the values they mean."""
import numpy as np

MISS = (-9999, -8888)
# name, width, decoded value of an integer (or text) field
RAW = ["lvltyp1", "lvltyp2", "etime", "pressure", "pflag", "height", "zflag", "temperature", "tflag", "relative_humidity", "dewpoint_depression", "direction", "speed"]
RAWCOLS = ["lvltyp1", "lvltyp2", "etime", "pressure", "pflag", "height", "zflag", "temperature", "tflag", "relative_humidity", "direction", "speed", "date", "u_wind", "v_wind", "dewpoint"]
DRV = ['pressure', 'reported_height', 'calculated_height', 'temperature', 'temperature_gradient', 'potential_temperature', 'potential_temperature_gradient', 'virtual_temperature',
       'virtual_potential_temperature', 'vapor_pressure', 'saturation_vapor_pressure', 'reported_relative_humidity', 'calculated_relative_humidity', 'relative_humidity_gradient',
       'u_wind', 'u_wind_gradient', 'v_wind', 'v_wind_gradient', 'refractive_index']
DRVDIV = dict(pressure=100., reported_height=1., calculated_height=1., refractive_index=1., vapor_pressure=1000., saturation_vapor_pressure=1000.)
HDRV = ['precipitable_water', 'inv_pressure', 'inv_height', 'inv_strength', 'mixed_layer_pressure', 'mixed_layer_height', 'freezing_point_pressure', 'freezing_point_height', 'lcl_pressure',
        'lcl_height', 'lfc_pressure', 'lfc_height', 'lnb_pressure', 'lnb_height', 'lifted_index', 'showalter_index', 'k_index', 'total_totals_index', 'cape', 'convective_inhibition']
HDIV = {k: 100. for k in HDRV if k.endswith("pressure") or k == "precipitable_water"}
HDIV["inv_strength"] = 10.
UNITS_RAW = {'etime': 'second', 'pressure': 'hPa', 'height': 'meter', 'temperature': 'degC', 'dewpoint': 'degC', 'direction': 'degrees', 'speed': 'meter / second', 'u_wind': 'meter / second',
             'v_wind': 'meter / second'}
UNITS_DRV = {'pressure': 'hPa', 'reported_height': 'meter', 'calculated_height': 'meter', 'temperature': 'Kelvin', 'temperature_gradient': 'Kelvin / kilometer', 'potential_temperature': 'Kelvin',
             'potential_temperature_gradient': 'Kelvin / kilometer', 'virtual_temperature': 'Kelvin', 'virtual_potential_temperature': 'Kelvin', 'vapor_pressure': 'hPa',
             'saturation_vapor_pressure': 'hPa', 'reported_relative_humidity': 'percent', 'calculated_relative_humidity': 'percent', 'relative_humidity_gradient': 'percent / kilometer',
             'u_wind': 'meter / second', 'v_wind': 'meter / second', 'refractive_index': 'unitless'}
UNITS_HEAD = {'release_time': 'second', 'latitude': 'degrees', 'longitude': 'degrees'}
UNITS_HDRV = {'release_time': 'second', 'precipitable_water': 'millimeter', 'inv_pressure': 'hPa', 'inv_height': 'meter', 'inv_strength': 'Kelvin', 'mixed_layer_pressure': 'hPa',
              'mixed_layer_height': 'meter', 'freezing_point_pressure': 'hPa', 'freezing_point_height': 'meter', 'lcl_pressure': 'hPa', 'lcl_height': 'meter', 'lfc_pressure': 'hPa',
              'lfc_height': 'meter', 'lnb_pressure': 'hPa', 'lnb_height': 'meter', 'lifted_index': 'degC', 'showalter_index': 'degC', 'k_index': 'degC', 'total_totals_index': 'degC',
              'cape': 'Joule / kilogram', 'convective_inhibition': 'Joule / kilogram'}


def fit(x, w):
    s = "%*s" % (w, x)
    assert len(s) == w, (x, w)
    return s


def raw_line(r):
    """r: dict of RAW; etime None (missing) or (minutes, seconds); flags ' ', 'A', 'B'."""
    e = r["etime"]
    e = e if isinstance(e, int) else "%d%02d" % e if e[0] else "%d" % e[1]
    return "%s%s %s %s%s%s%s%s%s%s %s %s %s" % (fit(r["lvltyp1"], 1), fit(r["lvltyp2"], 1), fit(e, 5), fit(r["pressure"], 6), fit(r["pflag"], 1), fit(r["height"], 5), fit(r["zflag"], 1),
                                              fit(r["temperature"], 5), fit(r["tflag"], 1), fit(r["relative_humidity"], 5), fit(r["dewpoint_depression"], 5), fit(r["direction"], 5), fit(r["speed"], 5))


def num(x, d=1.0, miss=MISS):
    return np.nan if x in miss else x / d


def raw_value(r):
    """Meaning of a level: dict, or None if it reports neither temperature, humidity depression nor wind."""
    o = dict(lvltyp1=r["lvltyp1"], lvltyp2=r["lvltyp2"])
    o["etime"] = np.nan if r["etime"] in MISS else r["etime"][0] * 60 + r["etime"][1]
    o["pressure"] = num(r["pressure"], 100.)
    for f in ("pflag", "zflag", "tflag"):
        o[f] = {" ": 0, "A": 1, "B": 2}[r[f]]
    o["height"] = num(r["height"])
    for f in ("temperature", "relative_humidity"):
        o[f] = num(r[f], 10.)
    dd = num(r["dewpoint_depression"], 10.)
    o["direction"] = num(r["direction"])
    o["speed"] = num(r["speed"], 10.)
    o["dewpoint"] = o["temperature"] - dd
    o["u_wind"] = -o["speed"] * np.sin(np.deg2rad(o["direction"]))
    o["v_wind"] = -o["speed"] * np.cos(np.deg2rad(o["direction"]))
    if all(np.isnan(x) for x in (o["temperature"], dd, o["direction"], o["speed"])):
        return None
    return o


def drv_line(r):
    return " ".join(fit(r[k], 7) for k in DRV)


def drv_value(r):
    o = {k: num(r[k], DRVDIV.get(k, 10.), (-99999,)) for k in DRV}
    if all(np.isnan(o[k]) for k in ("temperature", "reported_relative_humidity", "u_wind", "v_wind")):
        return None
    return o


def start(h):
    return "#%s %4d %02d %02d %02d %s" % (fit(h["site_id"], 11), h["year"], h["month"], h["day"], h["hour"], fit(h["release"], 4))


def raw_head(h, n):
    return start(h) + " %s %s %s %s %s" % (fit(n, 4), "%-8s" % h["psrc"], "%-8s" % h["npsrc"], fit(h["lat"], 7), fit(h["lon"], 8))


def drv_head(h, n):
    return start(h) + fit(n, 5) + " " + "".join(fit(h[k], 6) for k in HDRV)


def head_value(h, n, derived):
    o = {k: h[k] for k in ("site_id", "year", "month", "day", "hour")}
    rel = int(h["release"])
    o["release_time"] = np.nan if rel == 9999 else rel // 100 * 3600 + rel % 100 * 60
    o["number_levels"] = n
    if derived:
        for k in HDRV:
            o[k] = num(h[k], HDIV.get(k, 1.), (-99999,))
    else:
        o["pressure_source_code"], o["non_pressure_source_code"] = h["psrc"].strip() or np.nan, h["npsrc"].strip() or np.nan
        o["latitude"], o["longitude"] = h["lat"] / 1e4, h["lon"] / 1e4
    return o
