"""Run once on the reviewed tree: copies the published coefficient and profile tables that the reference
model works from into /verif/ref/data (the checks never read the repository's copies for their oracle)."""
import os, sys, numpy as np
from netCDF4 import Dataset
R = os.environ.get("PYRTLIB_REPO", "/repo"); L = R + "/pyrtlib/_lineshape/"
out = {}
order = {}
for sp in ("h2o", "o2", "o3"):
    nc = Dataset(L + sp + "_lineshape.nc")
    order[sp] = list(nc.groups)
    for g in nc.groups:
        for v in nc.groups[g].variables:
            out["%s|%s|%s" % (sp, g, v)] = np.array(nc.groups[g].variables[v][:].data, dtype=float)
    nc.close()
for sp in order: out["order|" + sp] = np.array(order[sp])
np.savez_compressed("/verif/ref/data/lines.npz", **out)
from glob import glob
tab = {}
for f in sorted(glob(R + "/pyrtlib/climatology/**/*.dat", recursive=True)):
    print(f)
for k in sorted(out): print(k, out[k].shape) if k.count('|')==1 or 'R98' in k or 'R20SD' in k else None
C = R + "/pyrtlib/climatology/"
for f in ("tropical", "midlatitude_summer", "midlatitude_winter", "subarctic_summer", "subarctic_winter",
          "us_standard", "gas_minor", "gas_trace"):
    tab[f] = np.array([[float(x) for x in l.split()] for l in open(C + f + ".dat") if l.strip() and not l.startswith("#")])
    print(f, tab[f].shape)
np.savez_compressed("/verif/ref/data/profiles.npz", **tab)
