"""C27: tidal and limiting radii against independently differentiated potentials and recomputed density profiles."""
import numpy as np
from galpy import potential
from galpy.util import conversion
from ctv import gen, derived, pick, pots
import clustertools as ct

RULE = ("Random clusters (20-250 stars, every unit system incl. AMUSE and Cartesian origin, random ro/vo and orbital positions off the plane) in eight galactic potentials; rtidal with and without iteration, selection, rgc/zgc, "
        "from_centre; rlimiting 3D/projected with random bin numbers; function and method; compared with tidal radii from finite differences of the potential and crossings of recomputed density profiles; distinct by options/case.")
REQUIRE = {"rtidal": 150, "iterated": 60, "mass removed by iteration": 15, "selection": 60, "rgc": 40, "zgc": 20, "from_centre": 40, "rlimiting": 150, "crossing": 40, "projected": 40, "method": 100, "galaxy origin": 80, "projected cluster": 60, "amuse": 10, "off plane": 100}
ASSUMPTIONS = ["galpy's potential and density values (not its tidal radius) are trusted", "a manually set rgc without zgc is the galactocentric distance, taken in the plane",
               "for projected profiles the background is its density times 4/3 of the outermost radius, as the code documents by construction", "iteration may stop at either radius of the converged pair"]
L = derived.plain


def place(mon, rng, T, kpc, zk):
    mu = 1.0
    T.gc = np.array(kpc) * 1000.0


def where(T, fc):
    """cylindrical galactocentric position in galpy's natural units"""
    p = (T.gc + (T.c if fc else 0)) / 1000. / T.ro
    return float(np.hypot(p[0], p[1])), float(p[2])


def options(mon, rng, T):
    kw = {}; fc = bool(rng.random() < .3); R, z = where(T, fc)
    if fc: kw["from_centre"] = True; mon.ev("from_centre")
    if rng.random() < .3:
        kw["rgc"] = float(rng.uniform(1, 25)); R, z = kw["rgc"] / T.ro, 0.; mon.ev("rgc")
        if rng.random() < .5: kw["zgc"] = float(rng.uniform(-5, 5)); z = kw["zgc"] / T.ro; mon.ev("zgc")
    mon.ev("off plane", z != 0)
    return kw, R, z


def setup(mon, rng):
    n = int(rng.choice([20, int(rng.integers(20, 250))])); sc = 10 ** rng.uniform(0, 4)
    orig = gen.truth

    def heavy(r, **kw):
        T = orig(r, **kw); T.m = T.m * sc; T.pos = T.pos * 10 ** r.uniform(0, 1.3); d = r.normal(0, 1, 3); T.gc = d / np.linalg.norm(d) * 1000 * 10 ** r.uniform(.2, 1.5); T.c = T.c * r.choice([1, 30]); return T
    gen.truth = heavy
    try: return pick.cluster(mon, rng, n, kind=str(rng.choice(["plummer", "gauss", "clumpy"])), amuse=.1, energies=False)
    finally: gen.truth = orig


def w_rt(mon, rng):
    T, cl, units, origin, am, A = setup(mon, rng)
    fr = "centre" if origin == "galaxy" else origin; r = np.sqrt(np.sum(T.frame(fr)[0] ** 2, 1)); mo = conversion.mass_in_msol(vo=T.vo, ro=T.ro); Lu = T.dims(units)[0]
    for rep in range(3):
        pn = str(rng.choice(pots.NAMES)); pot = pots.POTS[pn]; kw, R, z = options(mon, rng, T)
        it = int(rng.choice([0, 0, 1, 3, 10])); conv = float(rng.choice([.9, .9, .99, .5])); sel = np.ones(T.n, bool)
        if it: kw["rtiterate"] = it; mon.ev("iterated")
        if conv != .9: kw["rtconverge"] = conv
        if rng.random() < .4: sel = rng.random(T.n) < rng.choice([.5, .9]); sel[0] = True; kw["indx"] = sel.copy(); mon.ev("selection")
        d1, d2 = pots.radial(pot, R, z); den = d1 / np.hypot(R, z) - d2
        if den <= 1e-3 * abs(d2): continue
        f = lambda m: (m / mo / den) ** (1 / 3.) * T.ro * 1000
        seq = [f(T.m[sel].sum())]; q = sel.copy(); amb = False
        for i in range(it):
            amb |= bool(np.any(np.abs(r[q] / seq[-1] - 1) < 1e-4))
            q = q & (r < seq[-1]); seq.append(f(T.m[q].sum()))
            if seq[-1] == 0: break
            if abs(seq[-1] / seq[-2] / conv - 1) < 1e-4: amb = True
            if seq[-1] / seq[-2] >= conv: break
        mon.ev("mass removed by iteration", len(seq) > 1 and seq[-1] < seq[0] * .999)
        meth = bool(rng.random() < .4); arg = kw.get("indx"); 
        got = cl.rtidal(pot=pot, **kw) if meth else ct.rtidal(cl, pot=pot, **kw); g = float(L(got)) * Lu
        msg = "rtidal(%s, %s) in %s/%s" % (pn, {k: v for k, v in kw.items() if k != "indx"}, units, origin)
        mon.log(msg); mon.seen(msg, T.n)
        if arg is not None: mon.ok(np.array_equal(arg, sel), "rtidal:argument", "%s: the selection given was changed" % msg)
        if meth: mon.close(L(cl.rt), L(got), "rtidal:stored", 0, 0); mon.ev("method")
        if amb: continue
        mon.ev("rtidal")
        allow = seq[:1] if not it else ([0.] if seq[-1] == 0 else seq[-2:])
        mon.ok(any(abs(g - a) <= 2e-4 * a for a in allow), "rtidal:%s" % ("iterated" if it else "direct") + ("" if "rgc" not in kw else ":rgc"), "%s: %r pc, expected one of %r (sequence %r)" % (msg, g, allow, seq))
    mon.sample(dict(n=T.n, units=units, origin=origin, pot=pn, last=str({k: v for k, v in kw.items() if k != "indx"})))


def w_rl(mon, rng):
    T, cl, units, origin, am, A = setup(mon, rng)
    fr = "centre" if origin == "galaxy" else origin; P = T.frame(fr)[0]; Lu = T.dims(units)[0]
    for rep in range(3):
        pn = str(rng.choice(pots.NAMES)); pot = pots.POTS[pn]; kw, R, z = options(mon, rng, T); proj = bool(rng.random() < .4); k = int(rng.choice([20, 20, 5, 8, 40])); kw["projected"] = proj; mon.ev("projected", proj)
        if k != 20: kw["nrad"] = k
        r = np.sqrt(np.sum((P[:, :2] if proj else P) ** 2, 1)); er = A["er"] * Lu if origin == "galaxy" else 1e-12 * r.max(); rho0 = float(potential.evaluateDensities(pot, R, z, use_physical=False)) * conversion.dens_in_msolpc3(vo=T.vo, ro=T.ro)
        lo, up = pick.numbins(r, k); M = pick.member(r, lo, up); mid = np.array([r[q].mean() for q in M]); d = 2 if proj else 3
        ms = np.array([T.m[q].sum() for q in M])
        if A["kw"] is not None: ms = np.array([T.m[q & (A["kw"] >= 0) & (A["kw"] <= 15)].sum() for q in M])
        vol = (np.pi if proj else 4 / 3. * np.pi) * (up ** d - lo ** d); rho = ms / vol; bg = rho0 * (4 * mid[-1] / 3 if proj else 1)
        if np.any(np.abs(rho / bg - 1) < 1e-4) or np.any(vol < 1e4 * d * er * up ** (d - 1)): continue
        if rho[-1] > bg: want = mid[-1]
        elif rho[0] < bg: want = 0.
        else:
            i = int(np.argmax(rho < bg)); want = mid[i - 1] + (bg - rho[i - 1]) * (mid[i] - mid[i - 1]) / (rho[i] - rho[i - 1]); mon.ev("crossing")
        meth = bool(rng.random() < .4); got = cl.rlimiting(pot=pot, **kw) if meth else ct.rlimiting(cl, pot=pot, **kw)
        msg = "rlimiting(%s, %s) in %s/%s" % (pn, kw, units, origin); mon.log(msg); mon.seen(msg, T.n)
        mon.ev("rlimiting"); mon.close(float(L(got)) * Lu, want, "rlimiting:%s" % ("2d" if proj else "3d") + ("" if "rgc" not in kw else ":rgc"), 1e-3, 1e-3 * mid[0], msg)
        if meth: mon.close(L(cl.rl), L(got), "rlimiting:stored", 0, 0); mon.ev("method")


WORKLOADS = [("rtidal", w_rt, 130, 3000), ("rlimiting", w_rl, 130, 3000)]
