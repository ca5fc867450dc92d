"""C02: origin changes as rigid shifts, along random histories interleaved with unit changes."""
import importlib
import numpy as np
from ctv import gen

RULE = ("Random clusters with non-zero centre and orbit walked through random sequences of origin changes, unit changes, no-op changes "
        "and changes through methods, functions and to_origin; compared after every step with the independent shadow state; distinct by walk.")
REQUIRE = {"origin changes": 500, "noop origin": 40, "unit changes": 100, "pairs": 9}
ASSUMPTIONS = ["centre_method is only relevant to sky coordinates (C16)"]


def move(cl, rng, o):
    how = rng.integers(0, 5)
    ss = bool(rng.random() < 0.8)
    op = importlib.import_module("clustertools.cluster.operations")
    if how == 0:
        cl.to_origin(o, sortstars=ss)
    elif how == 1 and o == "centre":
        cl.to_center(sortstars=ss)
    elif how == 1 and o == "centre":
        cl.to_origin("center")
    elif how == 2:
        getattr(op, "to_" + o)(cl)
    elif how == 3 and o == "centre":
        op.to_center(cl)
    else:
        getattr(cl, "to_" + o)(sortstars=ss)


def w_pairs(mon, rng):
    T = gen.truth(rng)
    for a in gen.ORIGINS:
        for b in gen.ORIGINS:
            for units in gen.UNITS + (["amuse"] if gen.HAVE_AMUSE else []):
                if units == "amuse":
                    cl = T.build("pckms", a); cl.to_amuse()
                else:
                    cl = T.build(units, a)
                move(cl, rng, b)
                T.compare(mon, cl, units, b, "move:%s>%s" % (a, b), msg="%s->%s in %s" % (a, b, units))
                move(cl, rng, a)
                T.compare(mon, cl, units, a, "return:%s>%s" % (a, b), msg="%s->%s->%s in %s" % (a, b, a, units))
                mon.ev("origin changes", 2)
            mon.ev("pairs"); mon.seen(a, b)


def w_walk(mon, rng):
    T = gen.truth(rng)
    un = str(rng.choice(gen.UNITS)); o = str(rng.choice(gen.ORIGINS))
    cl = T.build(un, o)
    walk = [un, o]
    for _ in range(int(rng.integers(4, 16))):
        if rng.random() < 0.3:
            un = str(rng.choice(gen.UNITS)); cl.to_units(un); walk.append(un); mon.ev("unit changes"); mon.log(un)
        else:
            n = str(rng.choice(gen.ORIGINS))
            if n == o:
                b = [np.array(getattr(cl, k)) for k in gen.STAR]
                move(cl, rng, n); mon.ev("noop origin")
                for k, v in zip(gen.STAR, b):
                    mon.close(getattr(cl, k), v, "noop", 0, 0, "no-op move to " + n)
            else:
                move(cl, rng, n)
            o = n; walk.append(n); mon.ev("origin changes"); mon.log(n)
        if not T.compare(mon, cl, un, o, "walk", msg=">".join(walk)):
            return
    mon.seen(tuple(walk)); mon.sample(dict(n=T.n, walk=walk))


def w_reanchor(mon, rng):
    """the centre and orbit in use are the current ones, also after they are replaced"""
    T = gen.truth(rng)
    un = str(rng.choice(gen.UNITS))
    cl = T.build(un, "cluster")
    for _ in range(3):
        cl.to_origin(str(rng.choice(gen.ORIGINS)))
        cl.to_cluster()
        T.c = rng.normal(0, 5, 3); T.vc = rng.normal(0, 2, 3); T.gc = rng.normal(0, 6000, 3); T.vgc = rng.normal(0, 100, 3)
        L, V, M, TT = T.dims(un)
        cl.xc, cl.yc, cl.zc = (float(k) for k in T.c / L); cl.vxc, cl.vyc, cl.vzc = (float(k) for k in T.vc / V)
        cl.add_orbit(*[float(k) for k in T.gc / L], *[float(k) for k in T.vgc / V])
        for o in ("centre", "galaxy", "cluster", "galaxy", "centre"):
            move(cl, rng, o)
            T.compare(mon, cl, un, o, "reanchor", msg="after replacing centre and orbit, " + o)
            mon.ev("origin changes")


WORKLOADS = [("pairs", w_pairs, 2, 12), ("walk", w_walk, 150, 4000), ("reanchor", w_reanchor, 15, 300)]
