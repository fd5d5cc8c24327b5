"""C04: radiative transfer - planck() and bright() on every small layer structure, and the simulation's
tb columns recomputed from the layer opacities it returns."""
import itertools
import numpy as np
PID = "C04"
LEVEL = "exploration"
RULE = ("every layer-opacity tuple over the opacity alphabet x temperature pattern x frequency x direction x emissivity "
        "is run through the real planck()/bright(); a case is distinct by the digest of the radiances it produced")
ASSUMPTIONS = ["opacity alphabet %s, up to 3 layers (quick) / 4 layers (thorough) plus 10-49 layer stacks"]
ALPHA = [0.0, 1e-12, 1e-6, 3e-3, 0.4, 2.0, 30.0, 124.0, 126.0, 800.0]
ALPHA4 = [0.0, 1e-5, 0.3, 5.0, 130.0]
TPAT = {2: [(250., 250.), (300., 200.), (180., 330.)],
        3: [(280., 280., 280.), (300., 250., 200.), (200., 290., 240.)],
        4: [(270.,) * 4, (303., 280., 240., 190.), (190., 270., 230., 310.)],
        5: [(303., 280., 240., 190., 240.)]}
FRQ = [1.0, 22.235, 183.31, 901.5]
ASSUMPTIONS = ["opacities from %s (three layers), %s (four layers), plus stacks of 9, 29 and 49 layers" % (ALPHA, ALPHA4),
               "mean radiating temperature is undefined for zero opacity and not checked there"]


def load(tier):
    global impl, R, fix, RTE
    from mc import impl, fix
    import ref.physics as R
    RTE = impl.RTEquation


def cases(tier):
    out = []
    for f in FRQ:
        for sat, es in [(False, 1.0), (True, 1.0), (True, 0.35), (True, 0.0)]:
            out.append(dict(kind="grid", f=f, sat=sat, es=es, n=1))
            out.append(dict(kind="grid", f=f, sat=sat, es=es, n=2))
            for first in ALPHA:
                out.append(dict(kind="grid", f=f, sat=sat, es=es, n=3, first=first))
            if tier == "thorough":
                for first in ALPHA:
                    out.append(dict(kind="grid", f=f, sat=sat, es=es, n=4, first=first, alpha="full"))
            else:
                out.append(dict(kind="grid", f=f, sat=sat, es=es, n=4, alpha="small"))
            out.append(dict(kind="long", f=f, sat=sat, es=es))
    out.append(dict(kind="bright"))
    for k in range(6):
        for ray in (False, True):
            out.append(dict(kind="sim", atm=k, ray=ray))
    for k in (0, 4):
        out.append(dict(kind="phys", atm=k))
    return out


def one(rep, f, t, tau, sat, es):
    RTE._from_sat, RTE._emissivity = sat, es
    t, tau = np.array(t), np.array(tau)
    tot, atm, mr, cum, hvk, B, bg = RTE.planck(f, t, tau)
    r = R.rte(f, t, tau, sat, es)
    rep.count("evaluations")
    tag = "f=%g t=%s tau=%s sat=%s es=%g" % (f, t.tolist(), tau.tolist(), sat, es)
    n = len(t)
    bmax = r["B"].max()
    rep.close(hvk, r["hvk"], tag + " hvk")
    rep.close(cum, r["cum"], tag + " opacity profile", rtol=1e-11)
    rep.close(B, r["B"], tag + " Planck", rtol=1e-9)
    rep.close(atm, r["atm"], tag + " atmospheric radiance", rtol=1e-9, atol=3e-16 * n * bmax)
    rep.close(bg, r["back"], tag + " background", rtol=1e-9, atol=1e-50)
    rep.close(tot, r["total"], tag + " total radiance", rtol=1e-9, atol=3e-16 * n * bmax)
    if r["mr"] is not None:
        tt = r["tot"]
        rep.close(mr, r["mr"], tag + " mean radiance", rtol=1e-9 + 1e-15 * n / min(1, tt))
        if tt > 1e-5:
            tm = RTE.bright(hvk, mr)
            rep.check(t.min() - 1e-5 <= tm <= t.max() + 1e-5, lambda: tag + ": mean radiating temperature %r outside the profile" % tm)
            if t.min() == t.max() and tt > 200 and (not sat or es == 1.0):
                rep.close(RTE.bright(hvk, tot), t[0], tag + ": opaque isothermal atmosphere", rtol=1e-9)
    rep.close(RTE.bright(hvk, tot), R.bright(r["hvk"], r["total"]), tag + " brightness temperature",
              rtol=1e-9 + (6e-16 * n * bmax / r["total"] if r["total"] > 0 else 0))
    rep.outcome(b"%.9e" % float(tot) + b"%.9e" % float(atm[0] + atm[-1]))


def evaluate(case, rep):
    k = case["kind"]
    if k == "grid":
        n, f, sat, es = case["n"], case["f"], case["sat"], case["es"]
        al = ALPHA4 if case.get("alpha") == "small" else ALPHA
        for tau in itertools.product(*([[case["first"]]] if "first" in case else [al]), *([al] * (n - 1))):
            for t in TPAT[n + 1]:
                one(rep, f, t, (0.0,) + tau, sat, es)
        rep.sample(dict(t=t, tau=tau, sat=sat, es=es, tb=float(RTE.bright(R.hvk_of(f), RTE.planck(f, np.array(t), np.array((0.0,) + tau))[0]))))
    elif k == "long":
        for n in (10, 30, 50):
            x = np.arange(n)
            for t in (300 - 2.0 * x, 210 + 1.7 * x, 250 + 30 * np.sin(x), np.full(n, 270.0)):
                for tau in (1e-4 * np.ones(n), 2.0 * np.exp(-x / 5.0), 5 * np.exp(-((x - n / 2.0) / 3) ** 2),
                            30.0 * np.ones(n), 1e-3 * x, np.where(x % 7 == 3, 1.0, 0.0), np.where(x == n - 1, 200.0, 0.01),
                            np.where(x == 1, 200.0, 0.01), np.zeros(n)):
                    one(rep, case["f"], t, np.concatenate([[0.0], tau[1:]]), case["sat"], case["es"])
    elif k == "bright":
        for f in (0.5, 1.0, 22.235, 90.0, 183.31, 325.0, 664.0, 901.5, 1000.0):
            h = R.hvk_of(f)
            for T in (2.0, 2.728, 2.736, 5.0, 10.0, 50.0, 100.0, 150.0, 200.0, 250.0, 280.0, 300.0, 330.0, 400.0):
                from pyrtlib.utils import tk2b_mod
                b = tk2b_mod(h, T)
                rep.count("evaluations")
                # exp(x)-1 loses relative precision eps/x, whichever way it is evaluated
                rep.close(b, R.planck_mod(h, T), "Planck f=%g T=%g" % (f, T), rtol=1e-9 + 4e-16 * T / h)
                rep.close(RTE.bright(h, b), T, "inverse Planck f=%g T=%g" % (f, T), rtol=1e-9 + 1e-15 * T / h)
                rep.close(tk2b_mod(h, np.array([T, T + 1]))[1], R.planck_mod(h, T + 1), "Planck array", rtol=1e-9 + 4e-16 * T / h)
                rep.outcome("%.12e" % b)
            rep.check(RTE.bright(h, 0.0) == 0, "no radiance must give zero temperature at f=%g" % f)
    elif k == "sim":
        a = fix.atm(case["atm"], 10, z0=0.3)
        frq, ang = np.array([10.7, 22.235, 60.3, 118.75, 183.31, 448.0, 874.4]), np.array([90.0, 42.0, 12.0])
        es = np.array([1.0, 0.9, 0.2, 0.0, 0.55, 0.7, 1.0])
        for sat in (True, False):
            for cl in (None, fix.cloud(a["z"], 1, 3), fix.cloud(a["z"], 1, 3, liq=40.0)):
                o = dict(a, frq=frq, angles=ang, sel=fix.sel("R20"), sat=sat, ray=case["ray"], emis=es, cloud=cl, o3n=None)
                df, d = impl.run(o)
                g = impl.as_result(df, d, len(frq), len(ang))
                for j in range(len(frq)):
                    for i in range(len(ang)):
                        tau = sum(d[x][j, i] for x in ("taulaywet", "taulaydry", "taulayliq", "taulayice"))
                        r = R.rte(frq[j], a["t"], tau, sat, es[j])
                        tag = "atm %d f=%g ang=%g sat=%s" % (case["atm"], frq[j], ang[i], sat)
                        rep.count("evaluations")
                        rep.close(g["tbtotal"][j, i], R.bright(r["hvk"], r["total"]), tag + " tbtotal", rtol=1e-9)
                        rep.close(g["tbatm"][j, i], R.bright(r["hvk"], r["em"]), tag + " tbatm", rtol=1e-8)
                        rep.close(g["tmr"][j, i], R.bright(r["hvk"], r["mr"]), tag + " tmr", rtol=1e-8)
                        tt = sum(g[x][j, i] for x in ("tauwet", "taudry", "tauliq", "tauice"))
                        rep.close(tt, r["tot"], tag + " sum of layer opacities", rtol=1e-9)
                        for x in ("wet", "dry", "liq", "ice"):
                            rep.close(g["tau" + x][j, i], d["taulay" + x][j, i].sum(), tag + " integrated opacity " + x, rtol=1e-10, atol=1e-16)
                        rep.outcome("%.9e" % g["tbtotal"][j, i])
        rep.sample(dict(tbtotal=g["tbtotal"][:, 0]))
    elif k == "phys":
        # isothermal atmosphere: total = T for emissivity one, atmosphere's mean temperature = T everywhere
        a = fix.atm(case["atm"], 10)
        frq, ang = np.array([22.235, 60.3, 183.31, 557.0]), np.array([90.0, 20.0])
        for T in (200.0, 260.0, 300.0):
            o = dict(a, t=np.full(10, T), frq=frq, angles=ang, sel=fix.sel("R19"), sat=True, o3n=None, emis=1.0)
            df, d = impl.run(o)
            rep.close(df.tbtotal.values, np.full(8, T), "isothermal atmosphere at %g K over a black surface" % T, rtol=1e-9)
            rep.close(df.tmr.values, np.full(8, T), "isothermal mean radiating temperature", rtol=1e-7)
            o["sat"] = False
            df, d = impl.run(o)
            rep.close(df.tmr.values, np.full(8, T), "isothermal mean radiating temperature from the ground", rtol=1e-7)
            tau = (df.tauwet + df.taudry).values
            op = tau > 45
            rep.close(df.tbtotal.values[op], np.full(op.sum(), T), "opaque isothermal atmosphere seen from the ground", rtol=1e-9)
            rep.check((df.tbtotal.values <= T + 1e-9).all() and (df.tbtotal.values >= 2.728).all(), "brightness temperature between background and atmosphere")
            rep.count("evaluations", 16)
