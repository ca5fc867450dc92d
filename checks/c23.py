"""C23: postconditions of virialize, reset_nbody_scale and add_rotation along random histories."""
import numpy as np
from ctv import gen, derived
from ctv.energy import oracle, grav
import clustertools as ct

RULE = ("Random clusters (3-60 stars, all units and origins) and histories mixing virialize, reset_nbody_scale and add_rotation with conversions and repeats; each call followed by an "
        "independent recomputation of virial ratio, scale factors or cylindrical velocity components; distinct by history and options.")
REQUIRE = {"virialize": 250, "virialize from galaxy": 40, "virialize repeated": 60, "reset": 150, "reset in nbody units": 20, "rvirial": 50, "half-mass": 25, "projected cluster": 80, "rotation": 200,
           "rotation stars reversed": 500, "rotation from galaxy": 40, "fraction sample": 3}
ASSUMPTIONS = ["virial ratio is the one energies(specific=...) defines: sum of the stars' kinetic energies over half the sum of their potentials",
               "from the cluster or centre origin velocities are scaled about that frame's zero, from any other about the cluster's centre",
               "stars have distinct positions"]


def work_frame(origin):
    return origin if origin in ("cluster", "centre") else "centre"


def state(cl, T, units, origin):
    """star phase space of the real cluster, in pc and km/s relative to the cluster frame used by the scaling operations"""
    L, V, M, _ = T.dims(units)
    p = np.c_[derived.plain(cl.x), derived.plain(cl.y), derived.plain(cl.z)] * L; v = np.c_[derived.plain(cl.vx), derived.plain(cl.vy), derived.plain(cl.vz)] * V
    if origin == "galaxy":
        p = p - T.gc - T.c; v = v - T.vgc - T.vc
    return p, v, derived.plain(cl.m) * M


def sync(T, cl, units, origin, v):
    """adopt new velocities into the shadow (given relative to the working frame)"""
    T.vel = v + (T.vc if work_frame(origin) == "centre" else 0.0)


def do_virialize(mon, rng, cl, T, units, origin, hist):
    q = float(rng.choice([0.5, 0.5, 0.1, 0.9, 1.0, float(rng.uniform(.05, 3))])); spec = bool(rng.random() < .6); full = bool(rng.random() < .7); proj = bool(rng.random() < .2)
    eps = 0.0 if rng.random() < .7 else float(10 ** rng.uniform(-2, 0) * np.std(T.pos) / T.dims(units)[0])
    p0, v0, m0 = state(cl, T, units, origin)
    kw = dict(qvir=q, specific=spec, full=full, projected=proj, softening=eps)
    if rng.random() < .3: kw = dict(qvir=q); spec, full, proj, eps = True, True, bool(cl.projected), 0.0
    cl.virialize(**kw); hist.append("virialize%r" % sorted(kw.items())); mon.log(hist[-1])
    p1, v1, m1 = state(cl, T, units, origin)
    sc = np.max(np.abs(v0)); big = np.max(np.abs(T.vgc)) if origin == "galaxy" else 0.0
    pb = np.max(np.abs(T.gc)) if origin == "galaxy" else 0.0
    mon.close(p1, p0, "virialize:positions", 1e-9, 1e-11 * (np.max(np.abs(p0)) + pb), "positions"); mon.close(m1, m0, "virialize:masses", 1e-12, 0)
    k = np.unravel_index(np.argmax(np.abs(v0)), v0.shape); f = v1[k] / v0[k]
    mon.close(v1, f * v0, "virialize:onefactor", 1e-8, 1e-10 * (sc * abs(f) + big), "velocities scaled by one factor"); mon.ok(f > 0, "virialize:sign", "factor %r" % f)
    K, P = oracle(p1 / T.dims(units)[0], f * v0 / T.dims(units)[1], m1 / T.dims(units)[2], eps, proj, spec)
    g = grav(T, units)
    # from galactocentric coordinates the separations carry the rounding of the offset
    rt = 4e-3 if origin != "galaxy" else 2e-2
    mon.close(K.sum() / (0.5 * np.abs(P.sum()) * g), q, "virialize:ratio", rt, 0, "virial ratio after virialize(%s) in %s/%s" % (kw, units, origin))
    # and exactly, with the constant the code itself uses
    cl.energies(specific=spec, full=full, projected=proj, softening=eps)
    if origin in ("cluster", "centre"):
        mon.close(abs(float(derived.plain(cl.qvir))), q, "virialize:own-ratio", 1e-7, 0, "cluster.qvir recomputed after virialize")
    sync(T, cl, units, origin, f * v0)
    mon.ev("virialize"); mon.ev("virialize from galaxy", origin == "galaxy"); mon.ev("virialize repeated", sum("virialize" in h for h in hist) > 1)


def virial_radius(p, m, projected):
    """harmonic-mean definition of the (projected) virial radius: M^2 / (2 sum_{i<j} m_i m_j / r_ij)"""
    q = p[:, :2] if projected else p
    d = np.sqrt(np.sum((q[:, None, :] - q[None, :, :]) ** 2, axis=2)); np.fill_diagonal(d, np.inf)
    return np.sum(m) ** 2 / np.sum(m[:, None] * m[None, :] / d)


def do_reset(mon, rng, cl, T, units, origin, hist):
    kw = {}
    if rng.random() < .5: kw["rvirial"] = bool(rng.random() < .5)
    if rng.random() < .2: kw["mass"] = False
    if rng.random() < .2: kw["radii"] = False
    proj = bool(cl.projected)
    if rng.random() < .3: proj = bool(rng.random() < .6); kw["projected"] = proj
    old = (cl.zmbar, cl.rbar)
    cl.reset_nbody_scale(**kw); hist.append("reset%r" % sorted(kw.items())); mon.log(hist[-1])
    m = T.m; fr = work_frame(origin); p = T.frame(fr)[0]
    want_m = np.sum(m) if kw.get("mass", True) else old[0]
    mon.close(cl.zmbar, want_m, "reset:zmbar", 1e-8, 0, "zmbar in Msun")
    if not kw.get("radii", True):
        mon.close(cl.rbar, old[1], "reset:rbar", 1e-12, 0, "rbar kept")
    elif kw.get("rvirial", True):
        rt = 1e-8 if origin != "galaxy" else 1e-4
        w = virial_radius(p, m, proj)
        mon.close(cl.rbar, w, "reset:rbar", rt, 0, "rbar = virial radius in pc (%s) units %s" % (kw, units)); mon.ev("rvirial")
    else:
        r = np.sqrt(np.sum(p ** 2, axis=1))
        derived.enclosing(mon, cl.rbar * 3 / 4, r, m, .5, "reset:rbar", "rbar = 4/3 rm", 1e-6); mon.ev("half-mass")
    mon.close(cl.vbar, np.sqrt(gen.G * cl.zmbar / cl.rbar), "reset:vbar", 2e-3, 0, "vbar so that G=1")
    mon.close(cl.tbar, cl.rbar / (gen.KMS_PCMYR * cl.vbar), "reset:tbar", 2e-3, 0, "tbar = rbar/vbar in Myr")
    T.scale = (float(cl.zmbar), float(cl.rbar), float(cl.vbar), float(cl.tbar))
    T.compare(mon, cl, units, origin, "reset:state", msg="after reset_nbody_scale(%s) in %s/%s" % (kw, units, origin), slack=100)
    u0 = cl.units
    cl.to_nbody(); derived.check(mon, cl, "reset:derived", "nbody after reset")
    if kw.get("mass", True): mon.close(np.sum(cl.m), 1.0, "reset:unitmass", 1e-9, 0, "total mass in nbody units")
    if kw.get("radii", True) and kw.get("rvirial", True):
        mon.close(virial_radius(np.c_[cl.x, cl.y, cl.z], cl.m, proj), 1.0, "reset:unitradius", 1e-5, 0, "virial radius in nbody units")
    cl.to_units(u0)
    mon.ev("reset"); mon.ev("reset in nbody units", units == "nbody")


def do_rotation(mon, rng, cl, T, units, origin, hist):
    q = float(rng.choice([0, 1, .5, float(rng.random())]))
    p0, v0, m0 = state(cl, T, units, origin)
    big = np.max(np.abs(T.vgc)) if origin == "galaxy" else 0.0; pb = np.max(np.abs(T.gc)) if origin == "galaxy" else 0.0
    cl.add_rotation(q); hist.append("rotation(%g)" % q); mon.log(hist[-1])
    p1, v1, m1 = state(cl, T, units, origin)
    av = 1e-9 * (np.max(np.abs(v0)) + big); ap = 1e-11 * (np.max(np.abs(p0)) + pb)
    mon.close(p1, p0, "rotation:positions", 1e-9, ap, "positions"); mon.close(m1, m0, "rotation:mass", 1e-12, 0)
    R = np.hypot(p0[:, 0], p0[:, 1]); c, s = p0[:, 0] / R, p0[:, 1] / R
    good = R > 1e3 * (ap + 1e-12 * np.max(R))
    vr0, vt0 = v0[:, 0] * c + v0[:, 1] * s, -v0[:, 0] * s + v0[:, 1] * c
    vr1, vt1 = v1[:, 0] * c + v1[:, 1] * s, -v1[:, 0] * s + v1[:, 1] * c
    # frame offsets make the azimuth itself uncertain by ap/R
    tol = av + 10 * ap / R * np.max(np.abs(v0)) + 1e-9 * np.max(np.abs(v0))
    mon.close(v1[:, 2], v0[:, 2], "rotation:vz", 1e-9, av, "vertical velocities")
    mon.ok(np.all(np.abs(vr1 - vr0)[good] <= tol[good]), "rotation:vr", lambda: "radial velocities changed by up to %g" % np.max(np.abs(vr1 - vr0)[good]))
    mon.ok(np.all(np.abs(np.abs(vt1) - np.abs(vt0))[good] <= tol[good]), "rotation:speed", "azimuthal speeds changed")
    mon.ok(np.all((np.abs(vt1 - vt0) <= tol)[good & (vt0 > 0)]), "rotation:prograde", "a prograde star was reversed")
    flip = good & (vt0 < -tol) & (vt1 > 0)
    if q == 0: mon.ok(not np.any(flip), "rotation:none", "stars reversed with qrot=0")
    if q == 1: mon.ok(not np.any(good & (vt0 < -tol) & (vt1 < 0)), "rotation:all", "retrograde stars left with qrot=1")
    mon.close(cl.qrot, q, "rotation:qrot", 0, 0)
    fv = v0.copy(); fv[flip, 0] = vr0[flip] * c[flip] + vt0[flip] * s[flip]; fv[flip, 1] = vr0[flip] * s[flip] - vt0[flip] * c[flip]
    sync(T, cl, units, origin, fv)
    mon.ev("rotation"); mon.ev("rotation stars reversed", int(flip.sum())); mon.ev("rotation from galaxy", origin == "galaxy")


def w_history(mon, rng):
    kind = str(rng.choice(["plummer", "gauss", "clumpy"]))
    T = gen.truth(rng, n=int(rng.choice([3, 8, int(rng.integers(5, 60))])), kind=kind)
    units = str(rng.choice(gen.UNITS)); origin = str(rng.choice(gen.ORIGINS))
    pj = bool(rng.random() < .3); cl = T.build(units, origin, sort=bool(rng.random() < .5), projected=pj); mon.ev("projected cluster", pj); hist = ["%s/%s" % (units, origin)]
    for step in range(int(rng.integers(2, 6))):
        op = str(rng.choice(["v", "v", "r", "a", "a", "u", "o"]))
        if op == "u":
            units = str(rng.choice(gen.UNITS)); cl.to_units(units); hist.append(units)
        elif op == "o":
            origin = str(rng.choice(gen.ORIGINS)); cl.to_origin(origin); hist.append(origin)
        else:
            {"v": do_virialize, "r": do_reset, "a": do_rotation}[op](mon, rng, cl, T, units, origin, hist)
            T.compare(mon, cl, units, origin, "state:" + op, rtol=1e-6, slack=1e5, msg=str(hist))
            derived.check(mon, cl, "derived:" + op, str(hist), orders=bool(rng.random() < .3))
    mon.seen(*hist); mon.sample(dict(n=T.n, history=hist))


def w_fraction(mon, rng):
    """the fraction of reversed retrograde stars is qrot, within 6 sigma"""
    n = 20000; q = float(rng.uniform(.05, .95))
    v = rng.normal(0, 1, (n, 3)); p = rng.normal(0, 1, (n, 3))
    cl = ct.StarCluster(0., units="pckms", origin="cluster")
    cl.add_stars(*p.T.copy(), *v.T.copy(), m=np.ones(n))
    vt0 = p[:, 0] * v[:, 1] - p[:, 1] * v[:, 0]; cl.add_rotation(q); vt1 = p[:, 0] * cl.vy - p[:, 1] * cl.vx
    nr = int(np.sum(vt0 < 0)); fl = int(np.sum((vt0 < 0) & (vt1 > 0)))
    mon.ok(abs(fl - q * nr) < 6 * np.sqrt(nr * q * (1 - q)), "rotation:fraction", "%d of %d retrograde stars reversed for qrot=%g" % (fl, nr, q))
    mon.ev("fraction sample")


WORKLOADS = [("history", w_history, 420, 9000), ("fraction", w_fraction, 4, 40)]
