"""C15: coordinate transforms against independent geometry and their own inverses."""
import numpy as np
from ctv import gen, sky
from clustertools.util import coordinates as C

RULE = ("Random phase-space points in all octants over 12 decades, scalars and arrays, near-axis points, through every transform and its inverse; "
        "clusters in every unit system and origin through sphere_coords/cyl_coords/sky_coords; distinct by (transform, form, octant mix).")
REQUIRE = {"spherical points": 1000, "cylindrical points": 1000, "sky points": 200, "cluster spherical": 40, "cluster cylindrical": 40, "cluster sky": 40, "radec start": 10}
ASSUMPTIONS = ["points lie off the z axis and origin, where the angles are undefined"]


def pts(rng, n):
    p = rng.normal(0, 1, (n, 3)) * 10 ** rng.uniform(-6, 6)
    k = rng.random(n); p[k < .1, 2] = 0; p[(k > .1) & (k < .2), 0] *= 1e-5; p[(k > .2) & (k < .3), 1] = 0
    bad = np.hypot(p[:, 0], p[:, 1]) < 1e-9 * np.max(np.abs(p)); p[bad, 0] += np.max(np.abs(p))
    return p, rng.normal(0, 1, (n, 3)) * 10 ** rng.uniform(-3, 3)


def w_points(mon, rng):
    n = int(rng.choice([1, 2, 7, 40])); p, v = pts(rng, n)
    sc = bool(n == 1 and rng.random() < .6)
    a = [float(c[0]) for c in (*p.T, *v.T)] if sc else [c.copy() for c in (*p.T, *v.T)]
    src = [np.array(c, copy=True) for c in a]
    S, V = np.max(np.abs(p)), np.max(np.abs(v))
    R = np.sqrt((p ** 2).sum(1)); rc = np.hypot(p[:, 0], p[:, 1])
    out = [np.atleast_1d(c) for c in C.cart_to_sphere(*a)]
    r, ph, th, vr, vp, vt = out
    c = lambda g, w, m, s: mon.close(g, w, m, 1e-9, 1e-12 * s, m)
    c(r, R, "sphere:r", S); c(np.cos(th), p[:, 2] / R, "sphere:theta", 1); c(r * np.sin(th) * np.cos(ph), p[:, 0], "sphere:phi", 1e3 * S); c(r * np.sin(th) * np.sin(ph), p[:, 1], "sphere:phi", 1e3 * S)
    mon.ok(np.all((th >= 0) & (th <= np.pi)) and np.all(np.abs(ph) <= np.pi + 1e-12), "sphere:range", "angle range")
    c(vr, (p * v).sum(1) / R, "sphere:vr", V); c(vp, (p[:, 0] * v[:, 1] - p[:, 1] * v[:, 0]) / rc, "sphere:vphi", 1e3 * V)
    rho = (p[:, 0] * v[:, 0] + p[:, 1] * v[:, 1]) / rc
    c(vt, (rho * p[:, 2] - v[:, 2] * rc) / R, "sphere:vtheta", 1e3 * V)
    c(vr ** 2 + vp ** 2 + vt ** 2, (v ** 2).sum(1), "sphere:speed", 1e3 * V * V)
    back = C.sphere_to_cart(*[float(k[0]) for k in out]) if sc else C.sphere_to_cart(*out)
    for k, (g, w) in enumerate(zip(back, src)): mon.close(np.atleast_1d(g), np.atleast_1d(w), "sphere:inverse", 1e-9, 1e-9 * (S if k < 3 else V), "sphere_to_cart(cart_to_sphere)")
    mon.ev("spherical points", n)
    out = [np.atleast_1d(k) for k in C.cart_to_cyl(*a)]
    Rr, ph, z, vR, vT, vz = out
    c(Rr, rc, "cyl:R", S); c(Rr * np.cos(ph), p[:, 0], "cyl:phi", 1e3 * S); c(Rr * np.sin(ph), p[:, 1], "cyl:phi", 1e3 * S); c(z, p[:, 2], "cyl:z", S)
    c(vR, rho, "cyl:vR", 1e3 * V); c(vT, (p[:, 0] * v[:, 1] - p[:, 1] * v[:, 0]) / rc, "cyl:vT", 1e3 * V); c(vz, v[:, 2], "cyl:vz", V)
    back = C.cyl_to_cart(*[float(k[0]) for k in out]) if sc else C.cyl_to_cart(*out)
    for k, (g, w) in enumerate(zip(back, src)): mon.close(np.atleast_1d(g), np.atleast_1d(w), "cyl:inverse", 1e-9, 1e-9 * (S if k < 3 else V), "cyl_to_cart(cart_to_cyl)")
    # starting from the curvilinear side
    r0, f0, t0 = 10 ** rng.uniform(-3, 3), rng.uniform(-3.1, 3.1), rng.uniform(.05, 3.09); w0 = rng.normal(0, 5, 3)
    mon.close(C.cart_to_sphere(*C.sphere_to_cart(r0, f0, t0, *w0)), [r0, f0, t0, *w0], "sphere:inverse2", 1e-8, 1e-8)
    mon.close(C.cart_to_cyl(*C.cyl_to_cart(r0, f0, t0, *w0)), [r0, f0, t0, *w0], "cyl:inverse2", 1e-8, 1e-8)
    mon.ok(all(np.array_equal(np.asarray(x), y) for x, y in zip(a, src)), "input-modified", "input arrays changed"); mon.ev("cylindrical points", n)
    mon.seen("points", n, sc, tuple(np.sign(p[0])))


def w_sky(mon, rng):
    n = int(rng.choice([1, 5, 20])); p = rng.normal(0, 1, (n, 3)) * [9, 9, 3]; v = rng.normal(0, 150, (n, 3))
    kw = {}
    ro, vo, zo, sm = 8.275, 8.275 * 30.39 - 12.24, .0208, [-11.1, 12.24, 7.25]
    if rng.random() < .6:
        ro, vo, sm = float(rng.uniform(7.5, 8.6)), float(rng.uniform(200, 250)), [float(rng.uniform(-14, -8)), float(rng.uniform(5, 25)), float(rng.uniform(4, 9))]
        kw = dict(ro=ro, vo=vo, solarmotion=sm)
    sc = n == 1 and rng.random() < .5
    g = C.cart_to_sky(*([float(c[0]) for c in (*p.T, *v.T)] if sc else [c.copy() for c in (*p.T, *v.T)]), **kw)
    sky.close_sky(mon, np.array([np.atleast_1d(k) for k in g]).T, sky.radec(p, v, ro, vo, zo, sm), "cart_to_sky", 1e-6, "cart_to_sky"); mon.ev("sky points", n); mon.seen("sky", n, sc, bool(kw))


def w_cluster(mon, rng):
    T = gen.truth(rng, n=int(rng.integers(2, 20)), kind="gauss"); u = str(rng.choice(gen.UNITS)); o = str(rng.choice(gen.ORIGINS))
    cl = T.build(u, o)
    rad = rng.random() < .4
    if rad and rng.random() < .7:
        cl.to_radec()
        if rng.random() < .5: cl.to_sky()
        mon.ev("radec start")
    else: rad = False
    u0, o0 = cl.units, cl.origin
    w = sky.radec(T.frame("galaxy")[0] / 1000, T.frame("galaxy")[1], T.ro, T.vo, T.zo, T.sm)
    g = C.sky_coords(cl)
    sky.close_sky(mon, np.array(g).T, w, "sky_coords", 1e-6, "sky_coords from %s/%s" % (u0, o0)); mon.ev("cluster sky")
    mon.ok(cl.units == u0 and cl.origin == o0, "frame-left", "left in %s/%s" % (cl.units, cl.origin))
    if rad and o0 != "sky":
        return
    un, og = (u, o) if not rad else ("kpckms", "galaxy")
    e = T.expect(un, og); p, v = e["pos"], e["vel"]
    R = np.sqrt((p ** 2).sum(1)); rc = np.hypot(p[:, 0], p[:, 1]); S, V = R.max(), np.abs(v).max()
    r, ph, th, vr, vp, vt = C.sphere_coords(cl)
    rt = 1e-7 * (1 + R.max() / rc.min()); at = 1e-7
    mon.close(r, R, "sphere_coords:r", 1e-8, at * S); mon.close(r * np.sin(th) * np.cos(ph), p[:, 0], "sphere_coords:pos", 1e-8, at * S); mon.close(r * np.cos(th), p[:, 2], "sphere_coords:pos", 1e-8, at * S)
    mon.close(r * np.sin(th) * np.sin(ph), p[:, 1], "sphere_coords:pos", 1e-8, at * S)
    mon.close(vr, (p * v).sum(1) / R, "sphere_coords:vr", rt, rt * V); mon.close(vp, (p[:, 0] * v[:, 1] - p[:, 1] * v[:, 0]) / rc, "sphere_coords:vphi", rt, rt * V)
    mon.close(vr ** 2 + vp ** 2 + vt ** 2, (v ** 2).sum(1), "sphere_coords:speed", rt, rt * V * V); mon.ev("cluster spherical")
    Rc, ph, z, vR, vT, vz = C.cyl_coords(cl)
    mon.close(Rc, rc, "cyl_coords:R", 1e-8, at * S); mon.close(Rc * np.cos(ph), p[:, 0], "cyl_coords:phi", 1e-8, at * S); mon.close(Rc * np.sin(ph), p[:, 1], "cyl_coords:phi", 1e-8, at * S); mon.close(z, p[:, 2], "cyl_coords:z", 1e-8, at * S); mon.close(vz, v[:, 2], "cyl_coords:vz", 1e-8, at * V)
    mon.close(vT, (p[:, 0] * v[:, 1] - p[:, 1] * v[:, 0]) / rc, "cyl_coords:vT", rt, rt * V); mon.close(vR, (p[:, 0] * v[:, 0] + p[:, 1] * v[:, 1]) / rc, "cyl_coords:vR", rt, rt * V); mon.ev("cluster cylindrical")
    mon.ok(cl.units == u0 and cl.origin == o0, "frame-left", "left in %s/%s" % (cl.units, cl.origin)); mon.seen("cluster", u0, o0, T.n)
    # the returned arrays belong to the caller: changing them leaves the cluster alone
    for k in (z, vz): k += 1.0
    if not rad: T.compare(mon, cl, u, o, "after", 1e-8, "after editing the returned coordinates")


QF = 8
WORKLOADS = [("points", w_points, 400, 12000), ("sky", w_sky, 60, 1200), ("cluster", w_cluster, 100, 1500)]
