"""Fills tools/bugs.json from the seeded directory: caught by the property's own check; notes for those first missed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = """c01-linelist-reload-skipped c09-liquid-model-only-if-cloudy c02-angle-folded-in-place c01-saturation-table-by-end-points c20-stations-by-name
c02-normalised-plot-in-place c24-duct-below-observer-only c11-negative-line-index c26-cloud-wavelength-on-class c06-close-angles-share-path c08-supersaturation-clipped
c16-mixing-ratio-of-ice-below-switch c25-satellite-numpy-bool c02-faint-cloud-cleared c01-continuum-by-rounded-temperature c11-all-parameters-share-index-none
c18-supersaturation-cut c22-ice-of-flipped-cloud c23-grid-shared-by-extrapolations c05-cloud-levels-by-tolerance""".split()
MISSED = []
p = V + "/tools/bugs.json"
b = {}
for i in sorted(os.listdir(V + "/seeded")):
    j = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    b[i] = dict(caught="missed" if i in MISSED else j["property"], note="missed at first, check strengthened" if i in FIRST else "")
json.dump(b, open(p, "w"), indent=0, sort_keys=True)
