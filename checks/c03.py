"""C03: after every operation of a random history, every derived attribute is recomputed from the star arrays."""
import numpy as np
from ctv import gen, derived

RULE = ("Random operation histories (add stars, units, origin, virialize, rotation, analysis calls, in-place edits followed by analyze, "
        "subclusters) on random clusters; all derived attributes recomputed from scratch after each step; distinct by operation sequence.")
REQUIRE = {"steps": 500, "op:add_stars": 20, "op:units": 50, "op:origin": 50, "op:virialize": 10, "op:rotation": 10, "op:edit": 20,
           "op:analysis": 30, "op:sub_cluster": 10, "luminous": 20}


def step(mon, rng, cl):
    op = str(rng.choice(["add_stars", "units", "units", "origin", "origin", "origin", "virialize", "rotation", "edit", "analysis", "analysis",
                         "sub_cluster", "nosort", "recentre"]))
    mon.log(op)
    if op == "add_stars":
        k = int(rng.integers(1, 6)); sc = np.std(cl.x) + 1e-9; sv = np.std(cl.vx) + 1e-9
        cl.add_stars(*[rng.normal(np.mean(getattr(cl, a)), sc, k) for a in "xyz"], *[rng.normal(0, sv, k) for _ in range(3)],
                     m=rng.uniform(.1, 2, k) * np.mean(cl.m), sortstars=True)
        if len(cl.kw) > 0:
            cl.add_sse(rng.integers(0, 15, k), rng.normal(0, 1, k), rng.normal(0, 1, k)); cl.analyze()
    elif op == "units":
        u = str(rng.choice(gen.UNITS)); mon.log(u); cl.to_units(u)
    elif op == "origin":
        o = str(rng.choice(gen.ORIGINS)); mon.log(o)
        if rng.random() < .5:
            cl.to_origin(o)
        else:
            getattr(cl, "to_" + o)()
    elif op == "virialize":
        if cl.ntot < 2:
            return op
        cl.virialize(qvir=float(rng.uniform(.2, 1)))
    elif op == "rotation":
        cl.add_rotation(float(rng.random()))
    elif op == "edit":
        a = str(rng.choice(["x", "y", "z", "vx", "m"]))
        arr = getattr(cl, a); arr[rng.permutation(len(arr))] = arr.copy(); arr *= rng.uniform(.5, 1.5, len(arr))
        cl.analyze() if rng.random() < .5 else (cl.analyse() if rng.random() < .5 else cl.key_params())
    elif op == "nosort":
        getattr(cl, "to_" + str(rng.choice(gen.ORIGINS)))(sortstars=False); cl.analyze()
    elif op == "recentre":
        if cl.units == "radec" or cl.ntot < 5:
            return op
        cl.to_cluster(); cl.find_centre_of_mass(); cl.to_centre()
    elif op == "analysis":
        k = int(rng.integers(0, 6))
        if k == 0 and cl.ntot > 1: cl.energies()
        elif k == 1: cl.rlagrange(nlagrange=int(rng.integers(2, 11)), projected=bool(rng.random() < .5))
        elif k == 2 and cl.ntot > 2: cl.half_mass_relaxation_time(projected=bool(rng.random() < .5))
        elif k == 3 and cl.ntot > 2: cl.virial_radius(projected=bool(rng.random() < .5))
        elif k == 4: cl.save_cluster(); cl.to_galaxy(); cl.to_pckms(); cl.return_cluster()
        else: cl.subset(rmax=cl.rm)
    elif op == "sub_cluster":
        import clustertools as ct
        sub = ct.sub_cluster(cl, rmax=float(np.max(cl.r)) * float(rng.uniform(.4, 1.01)) + 1e-12)
        if sub.ntot > 0:
            derived.check(mon, sub, "sub", "sub_cluster")
    return op


def w_history(mon, rng):
    T = gen.truth(rng)
    u, o = str(rng.choice(gen.UNITS)), str(rng.choice(gen.ORIGINS))
    cl = T.build(u, o)
    lum = rng.random() < .4
    if lum:
        cl.add_sse(rng.integers(0, 15, T.n), rng.normal(0, 1, T.n), rng.normal(0, 1, T.n)); cl.analyze(); mon.ev("luminous")
    derived.check(mon, cl, "fresh", "fresh cluster")
    hist = [u, o]
    for _ in range(int(rng.integers(4, 14))):
        op = step(mon, rng, cl); hist.append(op); mon.ev("op:" + op); mon.ev("steps")
        if not derived.check(mon, cl, op, ">".join(hist)):
            return
    mon.seen(tuple(hist), T.n); mon.sample(dict(n=T.n, luminous=lum, history=hist))


def w_amuse(mon, rng):
    if not gen.HAVE_AMUSE:
        return
    T = gen.truth(rng)
    cl = T.build("pckms", "cluster")
    for k in range(4):
        cl.to_amuse(); derived.check(mon, cl, "amuse", "in amuse units")
        cl.to_origin(str(rng.choice(gen.ORIGINS))); derived.check(mon, cl, "amuse", "in amuse units")
        cl.to_units(str(rng.choice(gen.UNITS))); derived.check(mon, cl, "amuse", "after amuse units")
        mon.ev("steps", 3)


WORKLOADS = [("history", w_history, 160, 3500), ("amuse", w_amuse, 6, 60)]
