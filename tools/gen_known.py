"""Writes known_findings.json: findings (suppressing exactly their key) and the list of repaired defects."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []
def f(p, key, what): F.append(dict(property=p, key=key, what=what))
f("C12", "satellite-weighting-attenuation", "WeightingFunctions.generate_wf with satellite=True attenuates the absorption at level i with the layer below it included (alpha(z_i)*exp(-tau from z_(i-1) to the top)) instead of the transmittance between z_i and the antenna; the values are pinned by tests/test_wf.py")
f("C16", "celsius-offset-273.25", "to_kelvin() and to_celsius() use 273.25 instead of 273.15 as offset; pinned by tests/test_utils.py")
f("C18", "nearest-on-diagonal", "ERA5Reanalysis.read_data (read through AbstractReanalysis) searches the nearest grid point among the diagonal points (lat[i], lon[i]) only and takes lat[i], lon[i] from it; pinned by two ERA5 tests")
f("C18", "non-square-grid", "reading a reanalysis file whose numbers of latitudes and longitudes differ fails with ValueError (the two axes are stacked)")
f("C07", "elevation-at-upper-boundary", "RTEquation.ray_tracing computes the elevation angle at a level as 2*arcsin(sqrt(r*argth)) instead of 2*arcsin(sqrt(rs*argth)): off Snell's law by up to 29 % in single layers at 5 degrees (3e-3 at 30 degrees), even in a vacuum; pinned by tests/test_main_sat.py test_pyrtlib_sat_no_raytracing")
f("C10", "oxygen-width", "the oxygen models R98 and R03 use the special width of their 118.75-GHz line (temperature exponents 1 and 0.9) for all lines and for the non-resonant term, where the published models use the exponent x=0.8 (the two branches of the loop, 'if k == 0 ... else', are identical: den was overwritten); up to 1.4 K at 0-180 GHz; pinned by four tests (R03 and R98 in test_main_ground.py, test_main_sat.py)")
f("C16", "lapse-rate-sign", "pressure_to_height() and height_to_pressure() use a lapse rate of -0.0065 K/m in formulas that expect +0.0065 (temperature rises with height): 850 hPa gives 1506 m instead of 1456 m and 5000 m gives 577.6 hPa instead of 540 hPa; pinned by tests/test_utils.py")
f("C16", "gas-mass-31", "gas_mass(31) gives the mass of HCOOH (46 amu) although identifier 31 is CCL3F (136 amu) in AtmosphericProfiles; pinned by tests/test_utils.py test_gas_mass")
f("C11", "inert-parameters", "the spectroscopic parameters w2a, Snr, X11, X16, O2_nS and wv_nS are delivered, can be perturbed and are passed on, but no absorption routine uses them (the formulas carry the numbers literally), so that perturbing them changes nothing")
FIX = [("C02", "do not shift the caller's height profile"), ("C03", "flip descending profiles"), ("C02", "return copies of the intermediate"),
 ("C04", "atmospheric brightness temperature"), ("C05", "include the top layer"), ("C08", "vapor() over ice"), ("C22", "execute() no longer reports"),
 ("C22", "the absmdl option"), ("C11", "perturbed spectroscopic parameters leaked"), ("C11", "spectroscopic parameters of R98"),
 ("C09", "coefficients of the previous model"), ("C02", "spectroscopic parameters shared memory"), ("C09", "use the ozone line list"),
 ("C10", "temperature exponent of the water vapour"), ("C12", "plot_wf changed"), ("C15", "profile extrapolation failed"),
 ("C15", "extrapolated relative humidity"), ("C18", "relative humidity of the reanalysis"), ("C19", "release time of radiosonde"),
 ("C19", "decode station coordinates"), ("C19", "select exactly the soundings"), ("C21", "address of the derived"),
 ("C17", "side bands of MWS"), ("C13", "refuse gas identifiers"), ("C16", "saturation over ice"), ("C19", "unit of the vapour pressures"),
 ("C21", "refuse a Wyoming answer cut"), ("C12", "plot_wf ignored normalized"), ("C19", "column ranges of the inversion"), ("C20", "read the Wyoming list by its column widths"), ("C21", "incomplete IGRA sounding"),
 ("C26", "reading line lists and files in several threads"), ("C26", "simulations in several threads used"), ("C10", "complex error function below")]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "052ca7e..HEAD"], capture_output=True, text=True).stdout.splitlines() if os.path.isdir("/repo/.git") else []
fixed = []
for p, t in FIX:
    for l in log:
        h, s = l.split(" ", 1)
        if s.startswith("fix: " + t):
            fixed.append("fixed: property=%s %s %s" % (p, h, s[5:]))
            break
    else:
        raise SystemExit("no commit for " + t)
json.dump(dict(findings=F, fixed=fixed), open(V + "/known_findings.json", "w"), indent=1)
print(len(F), len(fixed))
