"""C28: sampled model clusters against independently solved limepy models and independently read catalogues."""
import os
import numpy as np
from galpy.orbit import Orbit
from limepy import limepy
from ctv import gen, derived
from ctv.derived import plain
import clustertools as ct

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ctv", "data")
RULE = ("Random lowered-isothermal models (central potential .5-9, g 0-2, every radius keyword, model objects, every unit system, origin and orbit specification) and Galactic clusters (both catalogues, every kind of name and letter case) are sampled; "
        "radii and speeds are compared with an independently solved model by Kolmogorov-Smirnov and six-sigma moment bounds, orbits with galpy's own; concentration conversions over the whole table; distinct by model/radius/units/origin.")
REQUIRE = {"models": 60, "radius rt": 5, "radius rh": 5, "radius rv": 5, "radius r0": 5, "default radius": 3, "model object": 5, "origin galaxy": 15, "orbit": 15, "orbit file": 5, "units amuse": 3, "units nbody": 3, "units galpy": 3, "units WDunits": 3, "units kpckms": 3,
           "catalogue deBoer": 10, "catalogue Harris": 10, "other name": 5, "lower case": 5, "conversions": 100, "King models": 5, "load_cluster": 20, "no such cluster": 3}
ASSUMPTIONS = ["limepy solves and galpy tabulates correctly", "sampling deviations beyond KS=3/sqrt(N) or six standard errors do not occur by chance", "the catalogues in ctv/data are the published ones"]
CASE_LIMIT = 100

def table(name, skip):
    return [l.split() for l in open(os.path.join(HERE, name)).read().splitlines()[skip:] if l.split()]
DB = {l[0].upper(): dict(W=float(l[1]), g=float(l[3]), rt=float(l[5]), M=float(l[7])) for l in table("deBoer2019.dat", 1)}
HA = [dict(n=l[0], n2=l[1], M=float(l[2]), rc=float(l[3]), rh=float(l[4]), rt=float(l[5])) for l in table("harris2010.dat", 2)]
NO_ORBIT = None


def grav(units): return {"pckms": gen.G, "amuse": gen.G, "kpckms": gen.G / 1e3, "pcmyr": gen.G * gen.KMS_PCMYR ** 2, "kpcgyr": gen.G / 1e3 * gen.KMS_PCMYR ** 2}.get(units, 1.0)


def sampled(mon, r, v, m, md, mech, msg):
    """stars are a fair sample of the model: all in the model's units"""
    n = len(r); R = np.sort(np.sqrt(np.sum(r ** 2, 1))); F = np.interp(R, md.r, md.mc / md.mc[-1]); d = max(np.max(np.abs(F - np.arange(1, n + 1) / n)), np.max(np.abs(F - np.arange(n) / n)))
    mon.ok(d <= 3 / np.sqrt(n), mech + ":radii", "%s: radii differ from the model's, KS %.3f for %d stars (half-mass radius %r, model %r)" % (msg, d, n, np.median(R), md.rh))
    mon.ok(R[-1] <= md.rt * (1 + 1e-6), mech + ":radii", "%s: star at %r beyond the truncation radius %r" % (msg, R[-1], md.rt))
    v2 = np.sum(v ** 2, 1); se = np.std(v2) / np.sqrt(n); mon.ok(abs(np.mean(v2) - 2 * md.K / md.M) <= 6 * se + .01 * np.mean(v2), mech + ":velocities", "%s: mean square speed %r, model %r" % (msg, np.mean(v2), 2 * md.K / md.M))
    # local: escape speed and shape of the velocity profile
    e = np.interp(np.sqrt(np.sum(r ** 2, 1)), md.r, md.phi); mon.ok(np.all(v2 <= 2 * e * (1 + 1e-3) + 1e-9 * np.max(v2)), mech + ":velocities", msg + ": star faster than the escape speed of the model")
    rr = np.sqrt(np.sum(r ** 2, 1)); loc = np.interp(rr, md.r, md.v2); k = loc > 1e-3 * np.max(loc); q = v2[k] / loc[k]
    mon.ok(abs(np.mean(q) - 1) <= 6 * np.std(q) / np.sqrt(max(k.sum(), 1)) + .02, mech + ":velocities", "%s: velocity dispersion does not follow the model's profile (%r)" % (msg, np.mean(q)))
    s = np.std(r) / np.sqrt(n); mon.ok(np.all(np.abs(np.mean(r, 0)) <= 6 * s), mech + ":centred", "%s: mean position %r, standard error %r" % (msg, np.mean(r, 0), s))
    s = np.std(v) / np.sqrt(n); mon.ok(np.all(np.abs(np.mean(v, 0)) <= 6 * s), mech + ":centred", "%s: mean velocity %r, standard error %r" % (msg, np.mean(v, 0), s))
    u = r / rr[:, None]; mon.ok(np.all(np.abs(np.mean(u, 0)) <= 6 / np.sqrt(3 * n)) and np.all(np.abs(np.mean(u ** 2, 0) - 1 / 3.) <= 6 * .3 / np.sqrt(n)), mech + ":isotropic", msg + ": directions of the stars")
    vr = np.sum(u * v, 1) ** 2; w = vr / v2; mon.ok(abs(np.mean(w) - 1 / 3.) <= 6 * .3 / np.sqrt(n), mech + ":isotropic", "%s: radial share of v^2 %r" % (msg, np.mean(w)))


def stars(cl): return np.c_[plain(cl.x), plain(cl.y), plain(cl.z)], np.c_[plain(cl.vx), plain(cl.vy), plain(cl.vz)]


def frame(mon, cl, units, origin, L, V, gc, mech, msg):
    """labels, orbital position, centre; returns the stars relative to the cluster"""
    mon.ok(cl.units == units and cl.origin == origin and cl.ctype == "limepy", mech + ":labels", "%s units %r origin %r ctype %r" % (msg, cl.units, cl.origin, cl.ctype))
    g = np.array([float(gen.val(getattr(cl, a), "V" if a[0] == "v" else "L")) for a in gen.GC]); e = np.r_[gc[:3] / L, gc[3:] / V]; mon.close(g, e, mech + ":orbit", 1e-6, 1e-6 * (np.max(np.abs(e[:3])) + 1e-12), msg + " orbital position")
    x, v = stars(cl)
    if origin == "galaxy": x, v = x - e[:3], v - e[3:]
    c = np.array([float(plain(getattr(cl, a))) for a in gen.C0])
    if origin == "centre": x, v = x + c[:3], v + c[3:]
    return x, v, c


def orb(rng, ro, vo):
    R, ph = rng.uniform(2, 20), rng.uniform(0, 2 * np.pi)
    return Orbit([R / 8, rng.normal(0, .3), rng.uniform(.3, 1.2), rng.normal(0, .3), rng.normal(0, .3), ph], ro=8., vo=220., solarmotion=[-11.1, 24., 7.25])


def w_model(mon, rng):
    W, g = float(rng.uniform(.5, 9)), float(rng.choice([0, 1, 2, round(rng.uniform(.3, 2.2), 2)])); N = int(rng.integers(300, 2500)); M = float(10 ** rng.uniform(2, 6)) if rng.random() < .7 else float(N)
    units = str(rng.choice(["pckms", "pckms", "kpckms", "pcmyr", "kpcgyr", "nbody", "galpy", "WDunits", "amuse"])); origin = str(rng.choice(["cluster", "cluster", "centre", "galaxy", "galaxy"]))
    kpc = units in ("kpckms", "kpcgyr", "WDunits"); size = float(10 ** rng.uniform(-.3, 1.3)) * (1e-3 if kpc else 1e-4 if units == "galpy" else 1); G = grav(units)
    T = gen.truth(rng, n=1, scale=False, solar=False); kw = dict(units=units, origin=origin, g=g, M=M, N=N)
    if rng.random() < .5: T.ro, T.vo = 8.1, 225.; kw.update(ro=8.1, vo=225.)
    kw["W0" if rng.random() < .3 else "phi0"] = W
    how = str(rng.choice(["rt", "rh", "rv", "r0", "rm", "rc", "none", "object"])); msg = "limepy W0=%.2f g=%.1f M=%.3g %s=%.3g N=%d %s %s" % (W, g, M, how, size, N, units, origin)
    par = dict(rt="rt", rh="rh", rv="rv", r0="r0", rm="rh", rc="r0").get(how)
    if how == "none": md = limepy(W, g, G=G, M=M, rv=1.0); mon.ev("default radius")
    elif how == "object": md = limepy(W, g, G=G, M=M, rh=size); kw = {k: v for k, v in kw.items() if k not in ("g", "M", "W0", "phi0")}; kw["model"] = md; mon.ev("model object")
    else: md = limepy(W, g, G=G, M=M, **{par: size}); kw[how] = size; mon.ev("radius " + how)
    if "N" in kw and how != "object" and abs(M / N - 1) < 1e-12 and rng.random() < .5: kw.pop("N")          # one solar mass each
    elif how != "object" and rng.random() < .3: kw["mbar"] = M / N * (1 + 1e-9); kw.pop("N"); N = int(M / kw["mbar"])
    L, V = T.dims("pckms" if units == "amuse" else units)[:2]; gc = np.zeros(6); mode = int(rng.choice([0, 0, 1, 1, 2]))
    mon.log(msg); mon.seen(how, units, origin, mode, round(W), g); mon.ev("models"); mon.ev("units " + units); mon.ev("origin " + origin)
    f = None
    if mode == 1:
        o = orb(rng, T.ro, T.vo); kw["orbit"] = o; gc = 1000. * np.array([o.x(), o.y(), o.z(), 0, 0, 0]) + np.array([0, 0, 0, o.vx(), o.vy(), o.vz()]); mon.ev("orbit")
    elif mode == 2:
        import tempfile
        gc = np.r_[T.gc, T.vgc]; f = tempfile.NamedTemporaryFile("w", suffix=".orb"); f.write("0.0 " + " ".join("%.17g" % k for k in np.r_[gc[:3] / 1000, gc[3:]]) + "\n"); f.flush(); kw.update(ofile=open(f.name), ounits="kpckms"); mon.ev("orbit file")
    if rng.random() < .4: cl = ct.load_cluster("limepy", **kw); mon.ev("load_cluster")
    else: cl = ct.setup_cluster(**kw)
    if f is not None: f.close(); kw["ofile"].close()
    if not mon.ok(cl.ntot == N and len(cl.x) == N, "number", "%s: %r stars" % (msg, cl.ntot)): return
    m = plain(cl.m); mon.close(np.sum(m), md.M, "mass", 1e-6, 0, msg + " total mass"); mon.ok(np.ptp(m) <= 1e-9 * np.max(m), "mass", msg + " stars of different mass"); mon.ok(len(set(np.asarray(cl.id).tolist())) == N, "ids", msg + " ids repeat")
    x, v, c = frame(mon, cl, units, origin, L, V, gc, "model", msg)
    if origin != "galaxy" or mode == 0: pass
    else: x = x + 0
    tol = 1e-6 * np.max(np.abs(gc[:3])) / L if origin == "galaxy" else 0
    if tol < .01 * md.rh: sampled(mon, x, v, m, md, "model", msg)
    s = 6 * np.std(x, 0) / np.sqrt(N); mon.ok(np.all(np.abs(c[:3]) <= 3 * md.rh), "model:centre", "%s: centre found at %r" % (msg, c[:3]))
    derived.check(mon, cl, "derived", msg)
    mon.sample(msg + ": half-mass radius %.4g (model %.4g)" % (float(plain(cl.rm)), md.rh))


def canon(name):
    """Harris row of any name"""
    n = name.upper()
    for h in HA:
        if n == h["n"].upper() or (n == h["n2"].upper() and n != "NA"): return h
    return None


def known(name):
    global NO_ORBIT
    import galpy.orbit as go
    if NO_ORBIT is None: Orbit.from_name("NGC104"); NO_ORBIT = True
    import galpy.orbit.Orbits as O
    return O._named_objects_key_formatting(name) in O._known_objects


def w_gc(mon, rng):
    k = rng.random()
    if k < .35: h = HA[int(rng.integers(len(HA)))]; name = h["n"]
    elif k < .7: b = [h for h in HA if h["n2"] != "na"]; h = b[int(rng.integers(len(b)))]; name = h["n2"]; mon.ev("other name")
    else: name = sorted(DB)[int(rng.integers(len(DB)))]; h = canon(name)
    row = DB.get(h["n"].upper()) or DB.get(h["n2"].upper()) if h else DB[name]
    src = str(rng.choice(["default", "default", "harris", "Harris", "deboer", "deBoer"])); N = int(rng.integers(300, 1500))
    if not known(h["n"] if h else name): mon.ev("no orbit known"); return
    if rng.random() < .3: name = name.lower(); mon.ev("lower case")
    if "arris" in src or row is None: row = None
    if row is None and h is None: return
    if row is None and src.lower() == "deboer":
        cl = ct.setup_cluster(gcname=name, source=src, citation=False, N=N); mon.ev("no such cluster"); mon.ok(cl.ntot == 0, "catalogue:absent", "%s is not in de Boer et al. but %d stars were made" % (name, cl.ntot)); return
    units = str(rng.choice(["pckms", "pckms", "kpckms", "pcmyr", "kpcgyr", "galpy", "WDunits", "amuse"])); origin = str(rng.choice(["cluster", "centre", "galaxy"])); kw = dict(units=units, origin=origin)
    msg = "gcname=%s source=%s %s %s" % (name, src, units, origin); mon.log(msg)
    if row is not None: md = limepy(row["W"], row["g"], M=row["M"], rt=row["rt"]); mon.ev("catalogue deBoer")
    else: md = limepy(float(np.interp(np.log10(h["rt"] / h["rc"]), CONC, W0S)), 1, M=h["M"], rt=h["rt"]); mon.ev("catalogue Harris")
    byN = rng.random() < .7
    if byN: kw["N"] = N
    else: kw["mbar"] = md.M / N * (1 + 1e-9); N = int(md.M / kw["mbar"])
    if src != "default" or rng.random() < .5: kw["source"] = src
    cl = ct.load_cluster("limepy", gcname=name, citation=bool(rng.random() < .5), **kw) if rng.random() < .4 else ct.setup_cluster(gcname=name, citation=False, **kw)
    mon.seen("gc", name, src, units, origin)
    if not mon.ok(cl.ntot == N, "catalogue:number", "%s: %r stars of %d" % (msg, cl.ntot, N)): return
    o = Orbit.from_name(h["n"] if h else name, ro=8.275, vo=239.23725, solarmotion=[-11.1, 12.24, 7.25]); gc = 1000. * np.array([o.x(), o.y(), o.z(), 0, 0, 0]) + np.array([0, 0, 0, o.vx(), o.vy(), o.vz()])
    T = gen.Truth([1.], np.zeros((1, 3)), np.zeros((1, 3))); L, V, Mu = T.dims(units)[:3]
    x, v, c = frame(mon, cl, units, origin, L, V, gc, "catalogue", msg); m = plain(cl.m); mon.close(np.sum(m) * Mu, md.M, "catalogue:mass", 1e-6, 0, msg + " total mass")
    tol = 1e-6 * np.max(np.abs(gc[:3])) if origin == "galaxy" else 0
    sampled(mon, x * L, v * V, m, md, "catalogue", msg)
    mon.sample(msg + ": %d stars, mass %.4g, rh %.3g" % (N, md.M, md.rh))


# concentration (tidal over King radius) of King models, solved independently
W0S = np.linspace(.35, 18, 600); CONC = np.array([np.log10(q.rt / q.r0) for q in (limepy(float(w), 1, M=1., rh=1.) for w in W0S)])


def w_conv(mon, rng):
    w = np.r_[rng.uniform(.3, 19.5, 30), np.round(rng.uniform(.4, 19.4, 4), 1), .3, 19.5]; c = np.array([float(ct.w0_to_c(k)) for k in w]); mon.ev("conversions", len(w))
    mon.close([float(ct.c_to_w0(k)) for k in c], w, "conversion:inverse", 1e-8, 1e-8, "c_to_w0(w0_to_c(W0))"); mon.close([float(ct.c_to_w0(k, invert=True)) for k in w], c, "conversion:inverse", 1e-12, 0, "c_to_w0(invert=True)")
    o = np.argsort(w); u = np.diff(w[o]) > 1e-9; mon.ok(np.all(np.diff(c[o])[u] > 0), "conversion:monotonic", "concentration does not grow with W0")
    c2 = rng.uniform(np.log10(1.00471), np.log10(22709.7), 30); w2 = np.array([float(ct.c_to_w0(k)) for k in c2]); mon.close([float(ct.w0_to_c(k)) for k in w2], c2, "conversion:inverse", 1e-8, 1e-8, "w0_to_c(c_to_w0(c))"); mon.ev("conversions", 30)
    k = (w > .4) & (w < 17.9); mon.close(c[k], np.interp(w[k], W0S, CONC), "conversion:model", 0, 6e-3, "concentration of King models"); mon.ev("King models", k.sum()); mon.seen("conv", round(w[0], 3))


QF = 4; TF = 4
WORKLOADS = [("models", w_model, 160, 2400), ("catalogue", w_gc, 90, 1200), ("conversions", w_conv, 8, 100)]
