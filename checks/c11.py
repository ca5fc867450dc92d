"""C11: relaxation times against their cited formulae, in every unit system and frame."""
import numpy as np
from ctv import gen, derived
import clustertools as ct

RULE = ("Random clusters (20-120 stars) in every unit system (AMUSE included) and Cartesian origin; relaxation_time (with and without rad), half_mass_relaxation_time and core_relaxation_time with random "
        "coulomb/projected, function and method, compared with the formulae evaluated on independently kept star data; distinct by options and case.")
REQUIRE = {"relaxation": 150, "relaxation with rad": 70, "half-mass": 120, "core": 80, "projected": 100, "method": 150, "galaxy origin": 80, "amuse": 10, "cluster.projected": 20}
ASSUMPTIONS = ["pc/(km/s) is converted to Myr with any year between 365 and 365.25 days (tolerance 0.2%)", "stars have distinct positions",
               "the velocity dispersion entering relaxation_time is the mean square (projected) speed of all stars", "core radius as returned by rcore, decided by C09"]
L = derived.plain
PCKMS_MYR = 3.0856775814913673e13 / (3600 * 24 * 365.25 * 1e6)
TOL = 2.5e-3


def half(r, m):
    o = np.argsort(r, kind="stable"); c = np.cumsum(m[o]); return r[o][np.argmax(c >= .5 * np.sum(m) * (1 - 1e-12))]


def halves(r, m):
    """half-mass radius candidates: the two stars around a cumulative mass equal to exactly one half"""
    o = np.argsort(r, kind="stable"); c = np.cumsum(m[o]) / np.sum(m); i = int(np.argmax(c >= .5 * (1 - 1e-12))); out = [r[o][i]]
    if abs(c[i] - .5) < 1e-9 and i + 1 < len(r): out.append(r[o][i + 1])
    return out


def w_call(mon, rng):
    T = gen.truth(rng, n=int(rng.integers(20, 120)), kind=str(rng.choice(["plummer", "gauss", "clumpy"])))
    units = str(rng.choice(gen.UNITS)); origin = str(rng.choice(gen.ORIGINS)); amuse = gen.HAVE_AMUSE and rng.random() < .08
    if amuse: units = "pckms"
    cl = T.build(units, origin, sort=bool(rng.random() < .5))
    if amuse: cl.to_amuse(); mon.ev("amuse")
    fr = "centre" if origin == "galaxy" else origin
    p, v = T.frame(fr); m = T.m; n = T.n; Lu, Vu, Mu, Tu = T.dims(units)
    far = np.max(np.abs(T.gc)) * 1e-15 / np.median(np.abs(p)) if origin == "galaxy" else 0
    for rep in range(3):
        which = str(rng.choice(["trelax", "trelax", "trh", "trc"])); proj = bool(rng.random() < .4); meth = bool(rng.random() < .5)
        coul = float(rng.choice([.4, .4, .11, float(rng.uniform(.1, 1))])); kw = dict(projected=proj)
        if coul != .4 or rng.random() < .3: kw["coulomb"] = coul
        lnl = np.log(coul * n); q, w = (p[:, :2], v[:, :2]) if proj else (p, v)
        r = np.sqrt(np.sum(q ** 2, axis=1)); s = np.sqrt(np.sum(w ** 2, axis=1))
        sticky = meth and rng.random() < .25
        if sticky: cl.projected = proj; kw.pop("projected"); mon.ev("cluster.projected")
        if which == "trelax":
            rads = halves(r, m)
            if rng.random() < .5:
                o = np.sort(r); k = int(rng.integers(3, n)); rads = [.5 * (o[k - 1] + o[k]) if k < n else o[-1] * 1.1]; x = rads[0] / Lu
                kw["rad"] = x if not amuse else x | gen.u.parsec; mon.ev("relaxation with rad")
            got = cl.relaxation_time(**kw) if meth else ct.relaxation_time(cl, **kw)
            want = []
            for rad in rads:
                for eps in (1e-9,):
                    inn = r <= rad * (1 + eps); dens = inn.sum() / (4 / 3. * np.pi * rad ** 3)
                    want.append(np.mean(s ** 2) ** 1.5 / (15.4 * gen.G ** 2 * np.mean(m[inn]) ** 2 * dens * lnl))
            mon.ev("relaxation"); stored = "trelax"
        elif which == "trh":
            got = cl.half_mass_relaxation_time(**kw) if meth else ct.half_mass_relaxation_time(cl, **kw)
            want = [.138 * np.sqrt(np.sum(m)) * rh ** 1.5 / (np.mean(m) * np.sqrt(gen.G) * lnl) for rh in halves(r, m)]
            mon.ev("half-mass"); stored = "trh"
        else:
            rc = float(L(ct.rcore(cl, projected=proj))) * Lu
            got = cl.core_relaxation_time(**kw) if meth else ct.core_relaxation_time(cl, **kw)
            want = [.39 / lnl * np.sqrt(rc ** 3 / (gen.G * np.sum(m))) * n * np.sqrt(rc * rh) / (rc + rh) for rh in halves(r, m)]
            mon.ev("core"); stored = "trc"
        if sticky: cl.projected = False
        g = float(gen.val(got, "T")) if amuse else float(L(got)) * Tu
        want = np.array(want) * PCKMS_MYR
        b = want[np.argmin(np.abs(want - g))]
        txt = "%s(%s) in %s/%s" % (stored, {k: str(x) for k, x in kw.items()}, "amuse" if amuse else units, origin)
        mon.log(txt, "method" if meth else "function")
        mon.close(g, b, "%s:%s%s" % (stored, "2d" if proj else "3d", ":rad" if "rad" in kw else ""), TOL + 10 * far, 0, txt)
        if meth: mon.close(L(getattr(cl, stored)), L(got), stored + ":stored", 0, 0, "cluster." + stored); mon.ev("method")
        mon.ev("projected", proj); mon.ev("galaxy origin", origin == "galaxy"); mon.seen(units, origin, amuse, stored, proj, coul, "rad" in kw, n)
        T.compare(mon, cl, "amuse" if amuse else units, origin, "left:" + stored, slack=100, msg="after " + txt)
    mon.sample(dict(last=txt, n=n))


def w_same(mon, rng):
    """the same physical time whatever the unit system, to the precision of the arithmetic (not of the constants)"""
    T = gen.truth(rng, n=int(rng.integers(20, 80)), kind="plummer"); T.c = np.zeros(3); T.vc = np.zeros(3); T.m = T.m * rng.uniform(.9, 1.1, T.n)
    out = {}
    for un in gen.UNITS:
        cl = T.build(un, str(rng.choice(gen.ORIGINS[:2])))
        rad = float(np.sort(np.sqrt(np.sum(T.pos ** 2, axis=1)))[T.n // 3]) * 1.0001 / T.dims(un)[0]
        out[un] = np.array([float(f) for f in (ct.relaxation_time(cl), ct.relaxation_time(cl, rad=rad), ct.half_mass_relaxation_time(cl), ct.relaxation_time(cl, projected=True), ct.half_mass_relaxation_time(cl, projected=True))]) * T.dims(un)[3]
    for un in gen.UNITS:
        mon.close(out[un], out["pckms"], "units", 1e-6, 0, "relaxation times in %s and pckms" % un); mon.ev("same physical time")
    mon.ev("relaxation"); mon.seen("same", T.n)


WORKLOADS = [("call", w_call, 260, 6000), ("same", w_same, 25, 500)]
