"""C07: every energies() call against an independent O(N^2) pairwise computation."""
import numpy as np
from ctv import gen, derived
from ctv.energy import oracle, grav
import clustertools as ct

RULE = ("Random clusters (1-60 stars, unequal masses, all units and origins) and random option combinations "
        "(full/serial loop, ids as int/list/array/mask, softening, projected, specific, function or method); distinct by option tuple and case.")
REQUIRE = {"calls": 400, "ids": 80, "full": 80, "loop": 50, "projected": 80, "softened": 80, "nonspecific": 80, "galaxy origin": 50, "method": 80, "amuse": 5}
ASSUMPTIONS = ["stars have distinct positions", "the gravitational constant is compared with 4.302e-3 pc (km/s)^2/Msun to 0.3%"]


def pick_ids(mon, rng, T):
    n = T.n; k = int(rng.integers(1, n + 1)); sel = rng.permutation(n)[:k]
    how = int(rng.integers(0, 6))
    mask = np.zeros(n, bool); mask[sel] = True
    if how == 0:
        i = int(sel[0]); mask[:] = False; mask[i] = True
        return int(T.ids[i]), mask, "int"
    if how == 1:
        return [int(T.ids[j]) for j in sel], mask, "list"
    if how == 2:
        return np.array(T.ids[sel]), mask, "array"
    if how == 3:
        i = int(sel[0]); mask[:] = False; mask[i] = True
        return T.ids[i], mask, "np.int64"
    return mask.copy(), mask, "mask"


def w_call(mon, rng):
    T = gen.truth(rng)
    units = str(rng.choice(gen.UNITS)); origin = str(rng.choice(gen.ORIGINS))
    amuse = gen.HAVE_AMUSE and rng.random() < 0.06
    if amuse:
        units = "pckms"
    cl = T.build(units, origin)
    if amuse:
        cl.to_amuse(); mon.ev("amuse")
    e = T.expect(units, "cluster" if origin == "galaxy" else origin)
    # the stars as the cluster itself holds them: no loss of digits from the galactocentric offset
    if origin == "galaxy":
        off = np.array(T.expect(units, "galaxy")["gc"]); voff = np.array(T.expect(units, "galaxy")["vgc"])
        if not amuse:
            e["pos"] = np.c_[cl.x, cl.y, cl.z] - off; e["vel"] = np.c_[cl.vx, cl.vy, cl.vz] - voff
    for rep in range(3):
        proj = bool(rng.random() < .35); spec = bool(rng.random() < .6); meth = bool(rng.random() < .5)
        eps = 0.0 if rng.random() < .5 else float(10 ** rng.uniform(-3, 0.5) * np.std(e["pos"]) + 1e-12)
        full = bool(rng.random() < .6)
        ids = mask = None; kind = "all"
        kw = dict(specific=spec, projected=proj, softening=eps, full=full)
        if rng.random() < .4:
            ids, mask, kind = pick_ids(mon, rng, T)
            kw["i_d" if rng.random() < .2 else "ids"] = ids
            ids0 = np.array(ids, copy=True)
        if meth:
            if rng.random() < .5 and proj:
                kw.pop("projected"); cl.projected = True
            kin, pot = cl.energies(**kw); cl.projected = False
        else:
            kin, pot = ct.energies(cl, **kw)
        kin, pot = derived.plain(kin), derived.plain(pot)
        K, P = oracle(e["pos"], e["vel"], e["m"], eps, proj, spec)
        g = grav(T, units)
        sel = np.ones(T.n, bool) if mask is None else mask
        tag = "%s:%s:%s" % ("ids" if mask is not None else ("full" if full else "loop"), "2d" if proj else "3d", "soft" if eps else "hard")
        mon.log(units, origin, kw, "method" if meth else "function")
        # galactocentric coordinates limit the precision of the shifted ones
        big = 1.0 if origin != "galaxy" else 1.0 + np.max(np.abs(T.gc)) / (np.min(np.abs(np.diff(np.sort(T.pos[:, 0])))) + 1e-12) if T.n > 1 else 1.0
        rt = min(1e-9 * max(1.0, 1e-4 * big), 1e-4)
        mon.ok(len(kin) == sel.sum() and len(pot) == sel.sum(), tag + ":count", "returned %d values for %d stars" % (len(kin), sel.sum()))
        mon.close(kin, K[sel], tag + ":kin", max(rt, 1e-9), 1e-9 * np.max(K), "kin " + tag + (" specific" if spec else ""))
        w = P[sel] * g
        mon.close(pot, w, tag + ":pot-scale", 3e-3, 0, "pot " + tag + " G in " + units)
        if np.any(w != 0):
            f = np.median(pot[w != 0] / w[w != 0])
            mon.close(pot, w * f, tag + ":pot", max(rt, 1e-9), 0, "pot " + tag + (" specific" if spec else ""))
        if meth:
            Kf = np.zeros(T.n); Pf = np.zeros(T.n); Kf[sel] = kin; Pf[sel] = pot
            mon.close(derived.plain(cl.kin), Kf, "stored:kin", 1e-12, 0, "cluster.kin"); mon.close(derived.plain(cl.pot), Pf, "stored:pot", 1e-12, 0, "cluster.pot")
            mon.close(derived.plain(cl.etot), Kf + Pf, "stored:etot", 1e-12, 1e-12 * np.max(np.abs(Pf) + Kf), "cluster.etot")
            mon.close(derived.plain(cl.ektot), Kf.sum(), "stored:ektot", 1e-9, 0); mon.close(derived.plain(cl.ptot), Pf.sum() / 2, "stored:ptot", 1e-9, 0)
            if Pf.sum() != 0:
                mon.close(derived.plain(cl.qvir), 2 * Kf.sum() / Pf.sum(), "stored:qvir", 1e-9, 0)
            mon.ev("method")
        if mask is not None:
            mon.ok(np.array_equal(ids0, np.array(ids)), "ids-mutated", "the ids argument was modified"); mon.ev("ids"); mon.ev("ids as " + kind)
        elif full: mon.ev("full")
        else: mon.ev("loop")
        mon.ev("calls"); mon.ev("projected", proj); mon.ev("softened", eps > 0); mon.ev("nonspecific", not spec); mon.ev("galaxy origin", origin == "galaxy")
        mon.ok(cl.units == ("amuse" if amuse else units) and cl.origin == origin, "frame-left", "units/origin changed by energies")
        mon.seen(units, origin, tag, spec, meth, kind, T.n)
    mon.sample(dict(n=T.n, units=units, origin=origin, last=str(kw)))


def w_frame(mon, rng):
    """row order, rigid shifts of the frame: a star's energy depends only on its companions"""
    T = gen.truth(rng, n=int(rng.integers(3, 30)))
    a = T.build("pckms", "cluster"); kin, pot = a.energies(specific=True)
    p = rng.permutation(T.n)
    T2 = gen.Truth(T.m[p], T.pos[p], T.vel[p], T.c, T.vc, T.gc, T.vgc, T.tphys, T.scale, T.ro, T.vo, T.zo, T.sm, T.ids[p])
    b = T2.build("pckms", "cluster"); k2, p2 = b.energies(specific=True)
    mon.close(k2, np.asarray(kin)[p], "permute:kin", 1e-9, 0); mon.close(p2, np.asarray(pot)[p], "permute:pot", 1e-9, 0)
    a.to_centre(); k3, p3 = a.energies(specific=True)
    mon.close(p3, pot, "shift:pot", 1e-8, 0, "potential in centre frame")
    mon.close(k3, 0.5 * np.sum((T.vel - T.vc) ** 2, axis=1), "shift:kin", 1e-9, 1e-12, "kinetic energy in centre frame")
    a.to_galaxy(); k4, p4 = a.energies(specific=True)
    mon.close(p4, pot, "shift:pot", 1e-5, 0, "potential in galaxy frame")
    mon.ev("calls", 4); mon.ev("galaxy origin")


def w_large(mon, rng):
    T = gen.truth(rng, n=int(rng.integers(200, 500)), kind="plummer")
    cl = T.build("nbody", "centre")
    e = T.expect("nbody", "centre"); K, P = oracle(e["pos"], e["vel"], e["m"])
    for full in (True, False):
        kin, pot = cl.energies(full=full)
        f = np.median(np.asarray(pot) / P)
        mon.close(f, 1.0, "large:scale", 3e-3, 0); mon.close(pot, P * f, "large:pot", 1e-9, 0); mon.close(kin, K, "large:kin", 1e-9, 0)
        mon.ev("calls"); mon.ev("full" if full else "loop")


WORKLOADS = [("call", w_call, 260, 6000), ("frame", w_frame, 40, 600), ("large", w_large, 3, 60)]
