"""C01: unit conversions against an independent physical shadow state, along random histories."""
import importlib
import itertools
import numpy as np
from ctv import gen, sky

RULE = ("Random clusters (1-60 stars, five shapes, random centre, orbit, N-body scale, ro/vo) pushed through random chains of unit "
        "conversions, plus every ordered pair and triple of unit systems; a case is distinct by (start units, origin, chain).")
UN = gen.UNITS + (["amuse"] if gen.HAVE_AMUSE else [])
REQUIRE = {"conversions": 500, "noop conversions": 20, "pairs": len(UN) ** 2, "returns": 50, "orbits added": 50, "orbit on the sky": 10}


def conv(cl, rng, to, mon=None):
    how = rng.integers(0, 4)
    if how == 0:
        cl.to_units(to)
    elif how == 1 and to not in ("nbody",):
        getattr(cl, "to_" + to)(analyze=False)
        cl.analyze()
    elif how == 2:
        op = importlib.import_module("clustertools.cluster.operations")
        getattr(op, "to_" + to)(cl)
    else:
        getattr(cl, "to_" + to)()


def w_pairs(mon, rng):
    """every ordered pair of unit systems in every origin, then back"""
    T = gen.truth(rng)
    for a, b in itertools.product(UN, UN):
        for origin in gen.ORIGINS:
            if a == "amuse":
                cl = T.build("pckms", origin); cl.to_amuse()
            else:
                cl = T.build(a, origin)
            T.compare(mon, cl, a, origin, "build", msg="freshly built " + a)
            conv(cl, rng, b)
            T.compare(mon, cl, b, origin, "convert:%s>%s" % (a, b), msg="%s->%s in %s" % (a, b, origin))
            conv(cl, rng, a)
            T.compare(mon, cl, a, origin, "roundtrip:%s>%s>%s" % (a, b, a), msg="%s->%s->%s in %s" % (a, b, a, origin))
            mon.ev("conversions", 2); mon.ev("returns")
            if a == b:
                mon.ev("noop conversions")
        mon.ev("pairs"); mon.seen("pair", a, b)


def w_chain(mon, rng):
    T = gen.truth(rng)
    a = str(rng.choice(gen.UNITS)); origin = str(rng.choice(gen.ORIGINS))
    cl = T.build(a, origin)
    hist = [a]
    for _ in range(int(rng.integers(3, 14))):
        b = str(rng.choice(UN))
        mon.log("to", b)
        if b == hist[-1]:
            before = [np.array(gen.val(getattr(cl, k), "L" if "v" not in k else "V"), copy=True) for k in gen.STAR]
            conv(cl, rng, b)
            for k, o in zip(gen.STAR, before):
                mon.close(gen.val(getattr(cl, k), "L" if "v" not in k else "V"), o, "noop", 0, 0, "no-op conversion to %s" % b)
            mon.ev("noop conversions")
        else:
            conv(cl, rng, b)
        hist.append(b)
        if not T.compare(mon, cl, b, origin, "chain:%s>%s" % (hist[-2], b), msg=">".join(hist) + " in " + origin):
            return
        mon.ev("conversions")
    conv(cl, rng, a)
    T.compare(mon, cl, a, origin, "chain-return", msg="return to " + a)
    mon.ev("returns")
    mon.seen(a, origin, tuple(hist)); mon.sample(dict(n=T.n, origin=origin, chain=hist, scale=T.scale, ro=T.ro))


def w_untouched(mon, rng):
    """a cluster with no units is left alone; N-body scale and centre untouched by conversions"""
    import clustertools as ct
    T = gen.truth(rng)
    cl = T.build(str(rng.choice(gen.UNITS)), "cluster")
    sc = (cl.zmbar, cl.rbar, cl.vbar, cl.tbar)
    for _ in range(4):
        conv(cl, rng, str(rng.choice(UN)))
    mon.ok((cl.zmbar, cl.rbar, cl.vbar, cl.tbar) == sc, "scale-changed", "N-body scale factors changed by unit conversion")
    c2 = ct.StarCluster(1.0, units=None, origin="cluster")
    c2.add_stars(*[T.pos[:, 0], T.pos[:, 1], T.pos[:, 2], T.vel[:, 0], T.vel[:, 1], T.vel[:, 2]], m=T.m)
    for b in gen.UNITS:
        c2.to_units(b)
    mon.close(c2.x, T.pos[:, 0], "none-units", 0, 0); mon.ok(c2.units is None, "none-units", "units invented")
    mon.ev("conversions", 4)


def w_orbit(mon, rng):
    """add_orbit with its own units lands in the cluster's units, with the right time"""
    T = gen.truth(rng)
    cu = str(rng.choice(gen.UNITS)); ou = str(rng.choice(gen.UNITS + ["radec"])); origin = str(rng.choice(gen.ORIGINS))
    cl = T.build(cu, origin)
    g = rng.normal(0, 8000, 3); v = rng.normal(0, 150, 3); t = float(rng.uniform(1, 12000))
    mon.log("add_orbit", ou, "into", cu)
    given = rng.random() < 0.5; r, a = 1e-9, (0, 0)
    if ou == "radec":
        TT = 1000.; o = sky.radec(g / 1000., v, T.ro, T.vo, T.zo, T.sm)[0]; D = T.dims(cu); r, a = 0, (1e-5 * (np.abs(g).max() + 8000) / D[0], 1e-4 * (np.abs(v).max() + 500) / D[1]); mon.ev("orbit on the sky")
    else:
        L, V, M, TT = T.dims(ou); o = np.r_[g / L, v / V]
    cl.add_orbit(*[float(k) for k in o], ounits=ou, tphys=(t / TT if given else None))
    T.gc, T.vgc = g, v
    p, w = T.expect(cu, "galaxy")["gc"], T.expect(cu, "galaxy")["vgc"]
    mech = "add_orbit:%s>%s" % (ou, cu)
    mon.close([cl.xgc, cl.ygc, cl.zgc], p, mech, r, a[0], mech)
    mon.close([cl.vxgc, cl.vygc, cl.vzgc], w, mech, r, a[1], mech + " velocity")
    if given:
        mon.close(cl.tphys, t / T.dims(cu)[3], mech + ":time", 1e-9, 0, mech)
    mon.ev("orbits added"); mon.seen("orbit", ou, cu, given)


WORKLOADS = [("pairs", w_pairs, 2, 12), ("chain", w_chain, 120, 3000), ("untouched", w_untouched, 6, 60), ("orbit", w_orbit, 150, 2000)]
