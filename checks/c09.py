"""C09: Lagrange, virial and core radii and nearest-neighbour distances against their definitions."""
import numpy as np
from ctv import gen, derived
import clustertools as ct

RULE = ("Random clusters (1-80 stars, 5 shapes, equal and unequal masses, every unit system including AMUSE, every Cartesian origin) with random nlagrange/mfrac/projected/full/H/overdens/nneighbour "
        "options, function and method; each returned radius compared with its definition on independently kept star positions; distinct by option tuple and case.")
REQUIRE = {"lagrange": 200, "mfrac": 80, "virial inverse": 120, "virial critical": 60, "closest": 120, "rcore casertano": 80, "rcore isothermal": 30, "projected": 150,
           "galaxy origin": 80, "projected cluster": 100, "cluster's own projection": 60, "cluster's own projection: projected": 15, "method": 150, "amuse": 10}
ASSUMPTIONS = ["stars have distinct positions", "from a galactocentric origin radii are about the cluster's centre", "sky coordinates are excluded",
               "the local density of rcore's default method is the mass of the nneighbour-1 nearest stars including the star itself over the (nneighbour-1)-th neighbour's volume"]


def frame(T, units, origin, centre=False):
    fr = "centre" if (origin == "galaxy" or centre) else origin
    e = T.expect(units, fr)
    slack = 1e-9
    if origin == "galaxy" or centre:
        slack = 1e-12 * 30 * (np.max(np.abs(T.gc)) + np.max(np.abs(T.c))) / max(np.max(np.abs(T.frame(fr)[0])), 1e-300) + 1e-9
    return e["pos"], e["m"], slack


def setup(mon, rng, n=None, kind=None, centre_zero=.2):
    T = gen.truth(rng, n=n, kind=kind)
    if rng.random() < centre_zero: T.c = np.zeros(3); T.vc = np.zeros(3)
    units = str(rng.choice(gen.UNITS)); origin = str(rng.choice(gen.ORIGINS)); amuse = gen.HAVE_AMUSE and rng.random() < .07
    if amuse: units = "pckms"
    pj = bool(rng.random() < .3); cl = T.build(units, origin, sort=bool(rng.random() < .5), projected=pj); mon.ev("projected cluster", pj)
    if amuse: cl.to_amuse(); mon.ev("amuse")
    mon.ev("galaxy origin", origin == "galaxy")
    return T, cl, units, origin, amuse


def leave(mon, rng, cl, kw, meth):
    """methods take the projection from the cluster when none is given"""
    if meth and kw["projected"] == cl.projected and rng.random() < .5:
        kw.pop("projected"); mon.ev("cluster's own projection"); mon.ev("cluster's own projection: projected", cl.projected)


def L(q):
    return derived.plain(q)


def reach(mon, val, r, m, frac, mech, msg, slack):
    """val is the distance of a star, the stars within it hold at least frac of the mass and without the last one less"""
    sc = np.max(r) + 1e-300; tol = slack * sc
    mon.ok(np.min(np.abs(r - val)) <= tol, mech, "%s=%r is not a star's radius" % (msg, val))
    inc = np.sum(m[r <= val + tol]); exc = np.sum(m[r < val - tol]); tot = np.sum(m)
    mon.ok(inc >= frac * tot * (1 - 1e-9) and exc <= frac * tot * (1 + 1e-9), mech, "%s=%r: mass within %r, strictly inside %r, fraction %r of %r" % (msg, val, inc, exc, frac, tot))


def w_lagrange(mon, rng):
    T, cl, units, origin, amuse = setup(mon, rng)
    p, m, slack = frame(T, units, origin)
    for rep in range(3):
        proj = bool(rng.random() < .4); meth = bool(rng.random() < .5); kw = dict(projected=proj)
        r = np.sqrt(np.sum((p[:, :2] if proj else p) ** 2, axis=1))
        if rng.random() < .35:
            f = float(rng.choice([.1, .5, .9, 1.0, float(rng.uniform(.001, 1)), float(rng.integers(1, 10)) / 10])); kw["mfrac"] = f; leave(mon, rng, cl, kw, meth)
            got = cl.rlagrange(**kw) if meth else ct.rlagrange(cl, **kw)
            reach(mon, float(L(got)), r, m, f, "mfrac", "rlagrange(%s) in %s/%s" % (kw, units, origin), slack); mon.ev("mfrac")
        else:
            k = int(rng.choice([10, 10, 1, 2, 3, int(rng.integers(4, 40))])); kw["nlagrange"] = k
            if k == 10 and rng.random() < .5: kw.pop("nlagrange")
            leave(mon, rng, cl, kw, meth)
            got = cl.rlagrange(**kw) if meth else ct.rlagrange(cl, **kw)
            g = np.array([float(L(v)) for v in got]) if not amuse else np.asarray(L(got), float)
            mon.ok(len(g) == k, "lagrange:count", "%d radii for nlagrange=%d" % (len(g), k))
            mon.ok(np.all(np.diff(g) >= 0), "lagrange:order", "%r" % g.tolist())
            for i in range(1, len(g) + 1):
                reach(mon, g[i - 1], r, m, i / float(k), "lagrange:%s" % ("2d" if proj else "3d"), "r_%d/%d (%s) in %s/%s" % (i, k, kw, units, origin), slack)
            if k % 2 == 0 and origin != "galaxy":
                mon.close(g[k // 2 - 1], float(L(cl.rmpro if proj else cl.rm)), "lagrange:rm", 1e-9 if m.std() > 0 else 1, 0, "half-mass radius is the middle Lagrange radius")
            mon.ev("lagrange")
        if meth:
            mon.close(L(cl.rn), L(got), "lagrange:stored", 0, 0, "cluster.rn"); mon.ev("method")
        mon.ev("projected", proj); mon.seen("lag", units, origin, sorted(kw.items()), T.n, meth)
    mon.sample(dict(n=T.n, units=units, origin=origin, last=str(kw)))


def w_virial(mon, rng):
    T, cl, units, origin, amuse = setup(mon, rng, n=int(rng.choice([2, 5, int(rng.integers(3, 60))])))
    p, m, slack = frame(T, units, origin)
    for rep in range(2):
        proj = bool(rng.random() < .4); full = bool(rng.random() < .6); meth = bool(rng.random() < .5)
        q = p[:, :2] if proj else p
        d = np.sqrt(np.sum((q[:, None, :] - q[None, :, :]) ** 2, axis=2)); np.fill_diagonal(d, np.inf)
        w = np.sum(m) ** 2 / np.sum(m[:, None] * m[None, :] / d)
        kw = dict(projected=proj, full=full)
        if rng.random() < .5: kw["method"] = "inverse_distance"
        leave(mon, rng, cl, kw, meth)
        got = cl.virial_radius(**kw) if meth else ct.virial_radius(cl, **kw)
        prec = max(1e-9, slack * np.max(np.abs(p)) / np.min(d))
        mon.close(float(L(got)), w, "virial:inverse:%s:%s" % ("2d" if proj else "3d", "full" if full else "loop"), min(prec, 1e-3), 0, "virial_radius(%s) in %s/%s" % (kw, units, origin))
        if meth: mon.close(L(cl.rv), L(got), "virial:stored", 0, 0, "cluster.rv"); mon.ev("method")
        mon.ev("virial inverse"); mon.ev("projected", proj); mon.seen("vir", units, origin, proj, full, T.n)


def w_critical(mon, rng):
    T, cl, units, origin, amuse = setup(mon, rng, n=int(rng.integers(10, 80)))
    fr = "centre" if origin == "galaxy" else origin
    p = T.frame(fr)[0]; m = T.m          # in pc and Msun
    slack = frame(T, units, origin)[2]
    for rep in range(2):
        proj = bool(rng.random() < .3); meth = bool(rng.random() < .5)
        r = np.sqrt(np.sum((p[:, :2] if proj else p) ** 2, axis=1)); o = np.argsort(r); r = r[o]; dens = np.cumsum(m[o]) / (4 / 3. * np.pi * r ** 3)
        H = float(rng.choice([70.0, float(rng.uniform(50, 90))])); crit = 3 * (H * 1e-6) ** 2 / (8 * np.pi * gen.G)
        target = float(np.exp(rng.uniform(np.log(dens[-1]), np.log(np.max(dens)))))
        if rng.random() < .15: target = 200.0 * crit
        over = target / crit
        kw = dict(method="critical_density", H=H, overdens=over, projected=proj); leave(mon, rng, cl, kw, meth)
        got = cl.virial_radius(**kw) if meth else ct.virial_radius(cl, **kw)
        v = float(L(got)) * T.dims(units)[0]
        down = np.where((dens[:-1] > target * 1.003) & (dens[1:] < target * .997))[0]
        edge = np.any(np.abs(dens / target - 1) < 3e-3)
        if len(down) and not edge:
            lo = np.interp(v * (1 - 1e-6 - slack), r, dens); hi = np.interp(v * (1 + 1e-6 + slack), r, dens)
            mid = np.interp(v, r, dens)
            mon.ok(r[0] <= v <= r[-1] and (abs(mid / target - 1) < 4e-3 or min(lo, hi) * .996 <= target <= max(lo, hi) * 1.004), "virial:critical",
                   "mean density at r_v=%r is %r, wanted %r (%s, units %s/%s)" % (v, mid, target, kw, units, origin))
            mon.ev("virial critical")
        elif np.all(dens > target * 1.003) and np.all(np.diff(dens) < 0):
            mon.close(v, r[-1], "virial:critical:beyond", max(1e-9, 10 * slack), 0, "whole cluster is denser than the threshold"); mon.ev("virial critical beyond")
        if meth: mon.close(L(cl.rv), L(got), "virial:stored", 0, 0, "cluster.rv"); mon.ev("method")
        mon.ev("projected", proj); mon.seen("crit", units, origin, proj, T.n, over)


def w_closest(mon, rng):
    T, cl, units, origin, amuse = setup(mon, rng, n=int(rng.integers(2, 60)))
    proj = bool(rng.random() < .4); meth = bool(rng.random() < .5); arg = bool(rng.random() < .5)
    x = np.c_[L(cl.x), L(cl.y), L(cl.z)]; q = x[:, :2] if proj else x
    d = np.sqrt(np.sum((q[:, None, :] - q[None, :, :]) ** 2, axis=2)); np.fill_diagonal(d, np.inf)
    kw = dict(projected=proj, argument=arg) if arg else dict(projected=proj)
    leave(mon, rng, cl, kw, meth)
    got = cl.closest_star(**kw) if meth else ct.closest_star(cl, **kw)
    if arg:
        got, a = got
        a = np.asarray(a)
        mon.ok(a.shape == (T.n,) and np.all(a != np.arange(T.n)), "closest:self", "a star is its own neighbour")
        mon.close(d[np.arange(T.n), a], np.min(d, axis=1), "closest:arg", 1e-9, 1e-12 * np.max(np.abs(x)), "distance to the returned neighbour")
    mon.close(L(got), np.min(d, axis=1), "closest:%s" % ("2d" if proj else "3d"), 1e-9, 1e-12 * np.max(np.abs(x)), "closest_star in %s/%s" % (units, origin))
    if meth: mon.close(L(cl.dclosest), L(got), "closest:stored", 0, 0); mon.ev("method")
    mon.ev("closest"); mon.ev("projected", proj); mon.seen("closest", units, origin, proj, T.n)


def casertano(p, m, k):
    d = np.sqrt(np.sum((p[:, None, :] - p[None, :, :]) ** 2, axis=2)); o = np.argsort(d, axis=1)[:, :k]
    rad = np.take_along_axis(d, o, axis=1)[:, -1]
    return np.sum(m[o[:, :-1]], axis=1) / rad ** p.shape[1]


def w_core(mon, rng):
    T, cl, units, origin, amuse = setup(mon, rng, n=int(rng.integers(12, 80)), kind=str(rng.choice(["plummer", "gauss", "clumpy"])))
    e, m, slack = frame(T, units, origin, centre=True)
    for rep in range(2):
        proj = bool(rng.random() < .4); k = int(rng.choice([6, 6, 3, 9])); meth = bool(rng.random() < .5)
        p = e
        if origin != "centre" and not np.any(T.c):
            rho = casertano(e, m, 6); p = e - np.sum(rho[:, None] * e, axis=0) / np.sum(rho)      # the density centre
            if origin == "galaxy" and np.any(T.gc): pass
        q = p[:, :2] if proj else p
        rho = casertano(q, m, k); r2 = np.sum(q ** 2, axis=1)
        w = np.sqrt(np.sum(rho ** 2 * r2) / np.sum(rho ** 2))
        kw = dict(projected=proj)
        if k != 6: kw["nneighbour"] = k
        if rng.random() < .5: kw["method"] = "casertano"
        got = cl.rcore(**kw) if meth else ct.rcore(cl, **kw)
        d = np.sqrt(np.sum((e[:, None, :2] - e[None, :, :2]) ** 2, axis=2)); np.fill_diagonal(d, np.inf)
        prec = 1e-8 + 100 * slack * np.max(np.abs(e)) / np.min(np.partition(d, k - 2, axis=1)[:, k - 2]) if origin != "centre" else 1e-8
        mon.close(float(L(got)), w, "rcore:casertano:%s" % ("2d" if proj else "3d"), min(prec, 1e-2), 0, "rcore(%s) in %s/%s" % (kw, units, origin))
        if meth: mon.close(L(cl.rc), L(got), "rcore:stored", 0, 0, "cluster.rc"); mon.ev("method")
        mon.ev("rcore casertano"); mon.ev("projected", proj); mon.seen("rc", units, origin, proj, k, T.n)
        T.compare(mon, cl, "amuse" if amuse else units, origin, "rcore:left", slack=100, msg="after rcore")


def w_isothermal(mon, rng):
    T, cl, units, origin, amuse = setup(mon, rng, n=int(rng.integers(150, 400)), kind="plummer", centre_zero=0)
    proj = bool(rng.random() < .4); mf = float(rng.choice([.1, .2, .05])); meth = bool(rng.random() < .5)
    ref = T.build(units, "centre"); r, rho, n = ct.rho_prof(ref, nrad=int(np.ceil(1. / mf)), projected=proj)
    level = rho[0] / (2.0 if proj else 3.0); i = int(np.argmax(rho < level))
    if not np.any(rho < level): return
    w = r[i - 1] + (level - rho[i - 1]) * (r[i] - r[i - 1]) / (rho[i] - rho[i - 1])
    kw = dict(method="isothermal", mfrac=mf, projected=proj)
    got = cl.rcore(**kw) if meth else ct.rcore(cl, **kw)
    mon.close(float(L(got)), w, "rcore:isothermal:%s" % ("2d" if proj else "3d"), 1e-5, 0, "rcore(%s) in %s/%s" % (kw, units, origin))
    mon.ok(np.interp(float(L(got)), r, rho) <= rho[0] and r[0] < float(L(got)) < r[-1], "rcore:isothermal:range", "outside the profile")
    mon.ev("rcore isothermal"); mon.ev("projected", proj); mon.seen("iso", units, origin, proj, mf)
    T.compare(mon, cl, "amuse" if amuse else units, origin, "rcore:left", slack=100, msg="after isothermal rcore")


WORKLOADS = [("lagrange", w_lagrange, 160, 4000), ("virial", w_virial, 90, 2500), ("critical", w_critical, 70, 2500), ("closest", w_closest, 150, 4000), ("core", w_core, 70, 2000), ("isothermal", w_isothermal, 45, 600)]
