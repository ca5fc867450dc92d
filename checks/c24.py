"""C24: every unit helper against the shadow state's own unit table and against conversion of the cluster itself."""
import itertools
import numpy as np
from ctv import gen
from clustertools.util import units as U

RULE = ("All ordered pairs of the seven plain unit systems (and AMUSE, both ways) with random N-body scale and ro/vo; scalars, ints, arrays and "
        "0-d arrays; each helper compared with the cluster's own conversion, inverted, and its argument checked for modification; distinct by (helper, pair, kind).")
UN = gen.UNITS + (["amuse"] if gen.HAVE_AMUSE else [])
REQUIRE = {"pairs": len(UN) ** 2, "values": 1500, "inverses": 1500, "differential": 300, "radec lengths": 8, "radec masses and times": 8, "radec densities": 4, "amuse particles": 4}
POW = {"length": (1, 0, 0, 0), "velocity": (0, 1, 0, 0), "square_velocity": (0, 2, 0, 0), "mass": (0, 0, 1, 0), "time": (0, 0, 0, 1),
       "density": (-3, 0, 1, 0), "projected": (-2, 0, 1, 0)}


def helper(kind, x, units, cl):
    if kind == "projected": return U._convert_density(x, units, cl, projected=True)
    return getattr(U, "_convert_" + kind)(x, units, cl)


def unit(kind):
    u = gen.u
    return {"length": u.parsec, "velocity": u.kms, "square_velocity": u.kms * u.kms, "mass": u.MSun, "time": u.Myr,
            "density": u.MSun / u.parsec ** 3, "projected": u.MSun / u.parsec ** 2}[kind]


def w_pairs(mon, rng):
    T = gen.truth(rng, n=3, scale=True)
    for a, b in itertools.product(UN, UN):
        cl = T.build("pckms" if b == "amuse" else b, "cluster")
        if b == "amuse": cl.to_amuse()
        da, db = np.array(T.dims(a)), np.array(T.dims(b))
        mon.ev("pairs")
        for kind, p in POW.items():
            f = np.prod((da / db) ** np.array(p, float))
            form = str(rng.choice(["float", "array", "np.float64", "0d", "int", "neg"]))
            x = {"float": float(rng.uniform(.1, 9)), "array": rng.uniform(.1, 9, 4), "np.float64": rng.uniform(.1, 9), "0d": np.array(rng.uniform(.1, 9)),
                 "int": int(rng.integers(1, 9)), "neg": -rng.uniform(.1, 9, 3)}[form]
            x0 = np.array(x, float, copy=True)
            arg = x if a != "amuse" else (np.array(x, float) if form != "float" else x) | unit(kind)
            mech = "%s:%s>%s" % (kind, a, b)
            got = helper(kind, arg, a, cl)
            if b == "amuse":
                mon.ok(hasattr(got, "value_in"), mech + ":type", "no AMUSE quantity returned")
                g = np.asarray(got.value_in(unit(kind)), float) if hasattr(got, "value_in") else got
            else:
                mon.ok(not hasattr(got, "value_in"), mech + ":type", "AMUSE quantity returned for %s" % b); g = got
            mon.close(g, x0 * f, mech, 1e-9, 0, "%s of %s from %s to %s" % (kind, form, a, b)); mon.ev("values")
            now = np.array(arg.value_in(unit(kind)) if hasattr(arg, "value_in") else arg, float)
            mon.ok(np.array_equal(now, x0), "modified:%s" % kind, lambda: "%s modified the value passed (%s %s>%s): %r -> %r" % (kind, form, a, b, x0, now))
            cla = T.build("pckms" if a == "amuse" else a, "cluster")
            if a == "amuse": cla.to_amuse()
            back = helper(kind, got, b, cla)
            back = np.asarray(back.value_in(unit(kind)), float) if hasattr(back, "value_in") else back
            mon.close(back, x0, mech + ":inverse", 1e-9, 0, "%s there and back %s>%s" % (kind, a, b)); mon.ev("inverses"); mon.seen(kind, a, b, form)
    mon.sample(dict(ro=T.ro, vo=T.vo, scale=T.scale))


def w_diff(mon, rng):
    """a length, velocity, mass and time carried along with a cluster converts as the cluster does"""
    T = gen.truth(rng, n=4)
    a, b = (str(k) for k in rng.choice(gen.UNITS, 2))
    cl = T.build(a, str(rng.choice(gen.ORIGINS)))
    x, v, m, t = cl.x.copy(), cl.vx.copy(), cl.m.copy(), cl.tphys
    s2, d3 = np.sum(v * v), np.sum(m) / np.prod(np.abs(x) + 1e-3 * np.max(np.abs(x))) ** (3. / len(x))
    cl.to_units(b)
    ax = np.max(np.abs(cl.x)) * 1e-9
    mon.close(U._convert_length(x, a, cl), cl.x, "diff:length:%s>%s" % (a, b), 1e-9, ax); mon.close(U._convert_velocity(v, a, cl), cl.vx, "diff:velocity:%s>%s" % (a, b), 1e-9, 0)
    mon.close(U._convert_mass(m, a, cl), cl.m, "diff:mass:%s>%s" % (a, b), 1e-9); mon.close(U._convert_time(t, a, cl), cl.tphys, "diff:time:%s>%s" % (a, b), 1e-9)
    mon.close(U._convert_square_velocity(s2, a, cl), np.sum(cl.vx ** 2), "diff:v2:%s>%s" % (a, b), 1e-9)
    L = np.prod(np.abs(cl.x) + 1e-3 * np.max(np.abs(cl.x))) ** (3. / len(x))
    mon.close(U._convert_density(d3, a, cl), np.sum(cl.m) / L, "diff:density:%s>%s" % (a, b), 1e-9)
    mon.ev("differential", 6); mon.seen("diff", a, b)


def w_radec(mon, rng):
    """lengths in sky coordinates are the angle subtended at the cluster's distance"""
    T = gen.truth(rng, n=3, kind="gauss")
    cl = T.build("pckms", "galaxy"); cl.to_radec()
    for a in gen.UNITS:
        x = float(rng.uniform(.1, 9)); kpc = x * T.dims(a)[0] / 1000.
        mon.close(U._convert_length(x, a, cl), np.degrees(np.arctan2(kpc, cl.zgc)), "radec:" + a, 1e-9, 0, "length from %s" % a); mon.ev("radec lengths")
        # masses and times of clusters on the sky are in Msun and Gyr; densities are per square or cubic degree (arctan(1 kpc) is used for the size of a kpc)
        M, Ti = T.dims(a)[2], T.dims(a)[3] / 1000.; o = T.build(a, "cluster"); m, t = rng.uniform(.1, 9, 2)
        mon.close(U._convert_mass(m, a, cl), m * M, "radec:mass:" + a, 1e-9, 0, "mass from %s" % a); mon.close(U._convert_mass(m, "radec", o), m / M, "radec:mass:" + a, 1e-9, 0, "mass to %s" % a)
        mon.close(U._convert_time(t, a, cl), t * Ti, "radec:time:" + a, 1e-9, 0, "time from %s" % a); mon.close(U._convert_time(t, "radec", o), t / Ti, "radec:time:" + a, 1e-9, 0, "time to %s" % a)
        for proj, q in ((False, 3), (True, 2)):
            deg = np.degrees(T.dims(a)[0] / 1000. / cl.zgc); far = q / cl.zgc ** 2 / 3 * 1.5 + 1e-9
            if far < .1: mon.close(U._convert_density(m, a, cl, projected=proj), m * M / deg ** q, "radec:density:" + a, far, 0, "density from %s, projected=%s" % (a, proj)); mon.ev("radec densities")
        mon.ev("radec masses and times")


def w_particles(mon, rng):
    if not gen.HAVE_AMUSE:
        return
    from amuse.datamodel import Particles
    T = gen.truth(rng, n=5)
    p = Particles(5); u = gen.u
    p.mass = T.m | u.MSun
    for k, a in enumerate("xyz"):
        setattr(p, a, T.pos[:, k] | u.parsec); setattr(p, "v" + a, T.vel[:, k] | u.kms)
    for b in ("pckms", "kpckms", "pcmyr", "kpcgyr", "nbody", "galpy", "WDunits"):
        out = U._convert_amuse(p, T.build(b, "cluster"))
        e = T.expect(b, "cluster")
        for k in range(3):
            # AMUSE's own year and parsec differ from the documented 1.0227 in the sixth digit
            mon.close(out[k], e["pos"][:, k], "particles:" + b, 1e-5, 0); mon.close(out[3 + k], e["vel"][:, k], "particles:" + b, 1e-4, 0)
        mon.close(out[6], e["m"], "particles:" + b, 1e-5); mon.ok(list(out[7]) == list(p.key), "particles:id", "ids"); mon.ev("amuse particles")


WORKLOADS = [("pairs", w_pairs, 4, 60), ("diff", w_diff, 120, 3000), ("radec", w_radec, 3, 30), ("particles", w_particles, 3, 20)]
