"""C17: galpy orbits start at the cluster's/stars' phase-space position; interpolation follows an independently integrated trajectory."""
import numpy as np
from galpy.util import conversion
from galpy.potential import PlummerPotential
from ctv import gen, derived, pots, orb, sky
import clustertools as ct

RULE = ("Random clusters (1-60 stars, every unit system incl. AMUSE and sky, every origin, random ro/vo/zo/solar motion); orbits initialised from the cluster, its centre and its stars; orbits interpolated by functions, methods and aliases "
        "for random times (forwards, backwards, zero) in eight galactic potentials and in cluster potentials; compared with the input phase-space positions and with DOP853 trajectories; distinct by units/origin/potential/options.")
REQUIRE = {"sky orbit from_centre": 5, "orbit": 80, "orbit from_centre": 20, "star orbits": 60, "sky orbit": 20, "sky star orbits": 10, "moved cluster": 60, "moved stars": 40, "stars in cluster potential": 15, "backwards": 20, "zero time": 10, "default time": 4, "there and back": 10,
           "method": 40, "alias": 10, "amuse": 10, "galaxy origin": 30, "energy conserved": 80, "other sun": 80, "sky stars moved": 30, "sky cluster moved": 30, "sky backwards": 10, "sky in frame": 10, "sky method": 30}
ASSUMPTIONS = ["galpy's forces and potentials (not its integrators) are trusted", "ro, vo, zo and solar motion are the cluster's own or those given to the call, which set the potential's natural units and the observer, not where stars are; for clusters in sky coordinates only their own", "stars are integrated in their current origin",
               "trajectories agree to 1e-3 of the orbit's size, which galpy's fixed-step integrators meet for the times driven"]
L = derived.plain


def build(mon, rng, n=None, amuse=.08):
    T = gen.truth(rng, n=n, kind=str(rng.choice(["plummer", "gauss", "clumpy", "flat"])))
    d = rng.normal(0, 1, 3); d[2] *= .6; T.gc = d / np.linalg.norm(d) * 1000 * 10 ** rng.uniform(.4, 1.4); e = rng.normal(0, 1, 3); e -= e @ d * d / (d @ d); T.vgc = e / np.linalg.norm(e) * rng.uniform(80, 260) + rng.normal(0, 40, 3)
    units = str(rng.choice(gen.UNITS)); origin = str(rng.choice(gen.ORIGINS)); am = gen.HAVE_AMUSE and rng.random() < amuse
    if am: units = "pckms"
    cl = T.build(units, origin, analyze=bool(rng.random() < .8))
    if am: cl.to_amuse(); units = "amuse"; mon.ev("amuse")
    mon.ev("galaxy origin", origin == "galaxy")
    return T, cl, units, origin


def state(o):
    """(n,6) kpc and km/s of a galpy orbit at its initial time"""
    return np.array([np.atleast_1d(np.asarray(f(), float)) for f in (o.x, o.y, o.z, o.vx, o.vy, o.vz)]).T


def sames(mon, got, P, V, mech, msg, rt=1e-9):
    mon.close(got[:, :3], P, mech + ":pos", rt, rt * np.max(np.abs(P)) + 1e-30, msg + " position (kpc)")
    mon.close(got[:, 3:], V, mech + ":vel", rt, rt * (np.max(np.abs(V)) + np.max(np.abs(got[:, 3:]))) + 1e-30, msg + " velocity (km/s)")


def w_init(mon, rng):
    T, cl, units, origin = build(mon, rng); issky = units != "amuse" and rng.random() < .3
    if issky: cl.to_sky(); units, origin = "radec", "sky"
    fc = bool(rng.random() < .3); meth = bool(rng.random() < .5); msg = "initialize_orbit(from_centre=%s) in %s/%s" % (fc, units, origin); mon.log(msg); mon.seen(msg, T.n)
    ov = {}; Q = gen.other_sun(rng, T, ov); mon.ev("other sun", bool(ov)); msg += " %r" % sorted(ov)
    o = cl.initialize_orbit(from_centre=fc, **ov) if meth else ct.initialize_orbit(cl, from_centre=fc, **ov)
    if meth: mon.ok(cl.orbit is o, "orbit:stored", msg + ": cluster.orbit is not the returned orbit"); mon.ev("method")
    P, V = (T.gc + (T.c if fc else 0)) / 1000., T.vgc + (T.vc if fc else 0)
    if not (issky and ov): sames(mon, state(o), P[None], V[None], "orbit" + (":centre" if fc else "") + (":sky" if issky else ""), msg, 1e-6 if issky else 1e-9)
    mon.ev("orbit"); mon.ev("orbit from_centre", fc); mon.ev("sky orbit", issky); mon.ev("sky orbit from_centre", issky and fc)
    g = np.array([[float(np.ravel(f())[0]) for f in (o.ra, o.dec, o.dist, o.pmra, o.pmdec, o.vlos)]])
    sky.close_sky(mon, g, sky.radec(P, V, *((T.ro, T.vo, T.zo, T.sm) if issky else (Q.ro, Q.vo, Q.zo, Q.sm))), "orbit:observer", 1e-5, msg + " as seen from the Sun")
    if not issky: T.compare(mon, cl, units, origin, "orbit:cluster", msg=msg)
    # stars
    meth = bool(rng.random() < .5); msg = "initialize_orbits in %s/%s" % (units, origin); mon.log(msg)
    ov = {}; Q = gen.other_sun(rng, T, ov) if not issky else T; mon.ev("other sun", bool(ov)); msg += " %r" % sorted(ov)
    os = cl.initialize_orbits(**ov) if meth else ct.initialize_orbits(cl, **ov)
    if meth: mon.ok(cl.orbits is os, "orbits:stored", msg); mon.ev("method")
    P, V = T.frame("galaxy" if issky else origin); got = state(os)
    if mon.ok(got.shape == (T.n, 6), "orbits:count", "%s: %d orbits for %d stars" % (msg, len(got), T.n)):
        sames(mon, got, P / 1000., V, "orbits" + (":sky" if issky else ""), msg, 3e-6 if issky else 1e-9); mon.ev("star orbits"); mon.ev("sky star orbits", issky)
        if origin == "galaxy": sky.close_sky(mon, np.array([np.atleast_1d(np.asarray(f(), float)) for f in (os.ra, os.dec, os.dist, os.pmra, os.pmdec, os.vlos)]).T, sky.radec(P / 1000., V, Q.ro, Q.vo, Q.zo, Q.sm), "orbits:observer", 1e-5, msg + " as seen from the Sun")
    if not issky: T.compare(mon, cl, units, origin, "orbits:cluster", msg=msg)
    mon.sample(dict(units=units, origin=origin, n=T.n))


def req_time(T, units, myr):
    t = myr / T.dims("pckms" if units == "amuse" else units)[3]
    if units == "amuse":
        import amuse.units.units as u
        return t | u.Myr
    return t


def out6(T, units, res):
    """returned (x..vz) in kpc, km/s as (n,6)"""
    Lu, Vu = T.dims(units)[:2]
    return np.array([np.atleast_1d(gen.val(a, "L")) * Lu / 1000. for a in res[:3]] + [np.atleast_1d(gen.val(a, "V")) * Vu for a in res[3:]]).T


def follow(mon, T, pot, P, V, myr, mech, got, msg):
    """got (n,6) kpc, km/s is the state of P, V (kpc, km/s) after myr"""
    nat = lambda p, v: (p / T.ro, v / T.vo)
    p, v = nat(P, V); tr = orb.move(pot, p, v, np.linspace(0, myr / 1000. / orb.gyr(T), 80)); rr = np.linalg.norm(tr[:, :, :3], axis=2)
    fine = np.min(rr, 0) > .1 * np.max(rr, 0)        # fixed-step integrators do not resolve passages close to the centre
    if not fine.any(): mon.ev("passes too close to the centre"); return False
    p, v, got, ref = p[fine], v[fine], got[fine], tr[-1][fine]
    ok = True; tol = 1e-3 if myr else 1e-7
    size = np.maximum(np.linalg.norm(p, axis=1), np.linalg.norm(ref[:, :3], axis=1)); vs = np.maximum(np.linalg.norm(v, axis=1), np.linalg.norm(ref[:, 3:], axis=1)) + 1e-12
    dp = np.linalg.norm(got[:, :3] / T.ro - ref[:, :3], axis=1) / size; dv = np.linalg.norm(got[:, 3:] / T.vo - ref[:, 3:], axis=1) / vs
    ok &= mon.ok(np.max(dp) <= tol, mech + ":pos", "%s: position off by %.3g of the orbit's size after %g Myr (got %r kpc, expected %r)" % (msg, np.max(dp), myr, got[np.argmax(dp), :3].tolist(), (ref[np.argmax(dp), :3] * T.ro).tolist()))
    ok &= mon.ok(np.max(dv) <= 5 * tol, mech + ":vel", "%s: velocity off by %.3g after %g Myr" % (msg, np.max(dv), myr))
    e0, l0 = orb.energy(pot, p, v); e1, l1 = orb.energy(pot, got[:, :3] / T.ro, got[:, 3:] / T.vo); sc = np.maximum(.5 * vs ** 2, np.abs(e0 - .5 * np.sum(v ** 2, 1)))
    mon.ok(np.max(np.abs(e1 - e0) / sc) <= tol, mech + ":energy", "%s: energy changed by %.3g" % (msg, np.max(np.abs(e1 - e0) / sc)))
    mon.ok(np.max(np.abs(l1 - l0) / (size * vs)) <= tol, mech + ":lz", "%s: angular momentum changed" % msg); mon.ev("energy conserved")
    return ok


def w_cluster(mon, rng):
    T, cl, units, origin = build(mon, rng); pn = str(rng.choice(pots.NAMES)); pot = pots.POTS[pn]; fc = bool(rng.random() < .2)
    dflt = rng.random() < .04; zero = not dflt and rng.random() < .15; myr = 12000. if dflt else 0. if zero else float(rng.choice([-1, 1], p=[.3, .7]) * 10 ** rng.uniform(0, 2.8)); nt = 8000 if dflt else int(rng.choice([1000, int(rng.integers(100, 2000))]))
    how = str(rng.choice(["function", "method", "alias", "alias function"], p=[.4, .4, .1, .1])); kw = dict(pot=pot, nt=nt)
    if "alias function" == how: fc = False
    if fc: kw["from_centre"] = True
    if not dflt: kw["tfinal"] = req_time(T, units, myr)
    Q = gen.other_sun(rng, T, kw); mon.ev("other sun", any(k in kw for k in ("ro", "vo")))
    msg = "interpolate_orbit(%s, %g Myr, nt=%d, from_centre=%s, %r) as %s in %s/%s" % (pn, myr, nt, fc, {k: kw[k] for k in ("ro", "vo") if k in kw}, how, units, origin); mon.log(msg); mon.seen(msg, T.n)
    P, V = (T.gc + (T.c if fc else 0)) / 1000., T.vgc + (T.vc if fc else 0)
    if how in ("function", "alias function"):
        res = (ct.interpolate_orbit if how == "function" else ct.orbit_interpolate)(cl, **kw)
    else: res = (cl.interpolate_orbit if how == "method" else cl.orbit_interpolate)(**kw)
    if res is None and how == "alias": res = [getattr(cl, k) for k in gen.GC]
    got = out6(T, units, res)
    if dflt and not np.all(np.isfinite(got)): return
    mon.ev("moved cluster"); mon.ev("backwards", myr < 0); mon.ev("zero time", zero); mon.ev("default time", dflt); mon.ev("method", how == "method"); mon.ev("alias", "alias" in how)
    if dflt:
        e0, l0 = orb.energy(pot, P[None] / Q.ro, V[None] / Q.vo); e1, l1 = orb.energy(pot, got[:, :3] / Q.ro, got[:, 3:] / Q.vo)
        ok = True
        ref = orb.move(pot, P / Q.ro, V / Q.vo, np.array([12. / orb.gyr(Q)]))[0][0]
        rr = np.linalg.norm(orb.move(pot, P / Q.ro, V / Q.vo, np.linspace(0, 1. / orb.gyr(Q), 200))[:, 0, :3], axis=1)
        if rr.min() > .2 * rr.max(): mon.ok(np.linalg.norm(got[0, :3] / Q.ro - ref[:3]) <= .03 * np.linalg.norm(ref[:3]), "cluster:default time", "%s: %r kpc, expected %r" % (msg, got[0, :3].tolist(), (ref[:3] * Q.ro).tolist()))
    else: ok = follow(mon, Q, pot, P[None], V[None], myr, "cluster" + (":zero" if zero else ""), got, msg)
    if how in ("function", "alias function"):
        T.compare(mon, cl, units, origin, "cluster:untouched", msg=msg)
    elif not fc:
        T.gc, T.vgc = got[0, :3] * 1000., got[0, 3:]
        T.compare(mon, cl, units, origin, "cluster:stored", msg=msg); derived.check(mon, cl, "cluster:derived", msg, orders=False)
        if ok and not zero and not dflt and rng.random() < .6:
            kw["tfinal"] = req_time(T, units, -myr); back = out6(T, units, cl.interpolate_orbit(**kw))
            mon.ok(np.linalg.norm(back[0, :3] - P) <= 2e-3 * (np.linalg.norm(P) + np.linalg.norm(got[0, :3])), "cluster:return", "%s: integrating back gives %r kpc, started at %r" % (msg, back[0, :3].tolist(), P.tolist())); mon.ev("there and back")
    mon.sample(dict(units=units, origin=origin, pot=pn, myr=myr, how=how))


def w_stars(mon, rng):
    T, cl, units, origin = build(mon, rng, n=int(rng.integers(1, 15)))
    if origin == "galaxy": pn = str(rng.choice(pots.NAMES)); pot = pots.POTS[pn]; tm = 10 ** rng.uniform(0, 2.5)
    else:
        pn = "cluster plummer"; b = float(np.median(np.linalg.norm(T.frame(origin)[0], axis=1)) + .1); M = float(10 ** rng.uniform(3, 5.5))
        pot = PlummerPotential(amp=M / conversion.mass_in_msol(vo=T.vo, ro=T.ro), b=b / 1000. / T.ro); tm = float(rng.uniform(.1, 3)) * np.sqrt(b ** 3 / (gen.G * M))
        T.vel = (T.vel - T.vc) / np.std(T.vel - T.vc if T.n > 1 else 1.) * np.sqrt(gen.G * M / b) * .5 + T.vc if T.n > 1 else T.vel
        cl = T.build("pckms" if units == "amuse" else units, origin)
        if units == "amuse": cl.to_amuse()
        mon.ev("stars in cluster potential")
    zero = rng.random() < .12; myr = 0. if zero else float(tm * rng.choice([-1, 1], p=[.3, .7])); nt = int(rng.choice([1000, int(rng.integers(200, 1500))]))
    how = str(rng.choice(["function", "method", "alias", "alias function"], p=[.35, .45, .1, .1])); kw = dict(pot=pot, nt=nt, tfinal=req_time(T, units, myr)); Q = gen.other_sun(rng, T, kw); mon.ev("other sun", any(k in kw for k in ("ro", "vo")))
    msg = "interpolate_orbits(%s, %g Myr, nt=%d) as %s in %s/%s" % (pn, myr, nt, how, units, origin); mon.log(msg); mon.seen(msg, T.n)
    P, V = T.frame(origin)
    if how in ("function", "alias function"): res = (ct.interpolate_orbits if how == "function" else ct.orbits_interpolate)(cl, **kw)
    else:
        res = (cl.interpolate_orbits if how == "method" else cl.orbits_interpolate)(**kw)
        if res is None and how == "alias": res = [getattr(cl, k) for k in gen.STAR]
    got = out6(T, units, res)
    if not mon.ok(got.shape == (T.n, 6), "stars:count", "%s: shape %r" % (msg, got.shape)): return
    mon.ev("moved stars"); mon.ev("backwards", myr < 0); mon.ev("zero time", zero); mon.ev("method", how == "method"); mon.ev("alias", "alias" in how)
    # stars whose pericentre is far inside the orbit's start defeat fixed steps
    keep = np.linalg.norm(np.cross(P, V), axis=1) > .15 * np.linalg.norm(P, axis=1) * np.linalg.norm(V, axis=1)
    if keep.any(): follow(mon, Q, pot, P[keep] / 1000., V[keep], myr, "stars" + (":zero" if zero else ""), got[keep], msg)
    if how in ("function", "alias function"): T.compare(mon, cl, units, origin, "stars:untouched", msg=msg)
    else:
        T.pos, T.vel = got[:, :3] * 1000., got[:, 3:]
        if origin == "centre": T.pos, T.vel = T.pos + T.c, T.vel + T.vc
        if origin == "galaxy":
            g = out6(T, units, [getattr(cl, k) for k in gen.GC]); follow(mon, Q, pot, T.gc[None] / 1000., T.vgc[None], myr, "stars:orbit", g, msg + " orbital position")
            T.gc, T.vgc = g[0, :3] * 1000., g[0, 3:]; T.pos, T.vel = T.pos - T.gc, T.vel - T.vgc
        T.compare(mon, cl, units, origin, "stars:stored", msg=msg, slack=10); derived.check(mon, cl, "stars:derived", msg)
    mon.sample(dict(units=units, origin=origin, pot=pn, myr=myr, how=how, n=T.n))


def skyout(res):
    return np.array([np.atleast_1d(np.asarray(a, float)) for a in res]).T


def w_sky(mon, rng):
    """the same, for a cluster that is expressed in sky coordinates"""
    T, cl, units, origin = build(mon, rng, n=int(rng.integers(1, 15)), amuse=0); so = str(rng.choice(["sky", "cluster", "centre"], p=[.7, .15, .15])); pn = str(rng.choice(pots.NAMES)); pot = pots.POTS[pn]
    stars = so == "sky" and rng.random() < .55; zero = rng.random() < .1; myr = 0. if zero else float(10 ** rng.uniform(0, 2.5) * rng.choice([-1, 1], p=[.3, .7])); nt = int(rng.integers(200, 1500))
    cl.to_sky()
    if so != "sky": cl.to_origin(so)
    how = str(rng.choice(["function", "method", "alias", "alias function"], p=[.35, .45, .1, .1])); kw = dict(pot=pot, nt=nt, tfinal=myr / 1000.)
    fn = ("interpolate_orbits" if stars else "interpolate_orbit") if "alias" not in how else ("orbits_interpolate" if stars else "orbit_interpolate")
    msg = "%s(%s, %g Myr, nt=%d) as %s in radec/%s" % (fn, pn, myr, nt, how, so); mon.log(msg); mon.seen(msg, T.n)
    P, V = T.frame("galaxy") if stars else (T.gc[None], T.vgc[None]); nat = lambda p, v: (p / 1000. / T.ro, v / T.vo); sun = (T.ro, T.vo, T.zo, T.sm)
    def ends(P, V):
        tr = orb.move(pot, *nat(P, V), np.linspace(0, myr / 1000. / orb.gyr(T), 80)); rr = np.linalg.norm(tr[:, :, :3], axis=2)
        return tr[-1][:, :3] * T.ro * 1000, tr[-1][:, 3:] * T.vo, np.min(rr, 0) > .1 * np.max(rr, 0)
    # path lengths and angles a distant observer can resolve: stars that come close to the Sun move across the whole sky
    def near(p): return np.linalg.norm(p / 1000. - np.array([T.ro, 0, T.zo]), axis=1) < .05 * np.linalg.norm(p / 1000., axis=1) + .2
    p1, v1, fine = ends(P, V); fine &= ~near(p1)
    res = getattr(ct, fn)(cl, **kw) if "function" in how else getattr(cl, fn)(**kw)
    mon.ev("sky stars moved" if stars else "sky cluster moved"); mon.ev("sky backwards", myr < 0); mon.ev("sky in frame", so != "sky")
    if res is not None and (so == "sky" or "function" in how):
        got = skyout(res)
        if mon.ok(got.shape == (len(P), 6), "skyorbit:count", "%s: shape %r" % (msg, got.shape)) and fine.any():
            sky.close_sky(mon, got[fine], sky.radec(p1[fine] / 1000., v1[fine], *sun), "skyorbit:result" + (":stars" if stars else ""), .2 if myr else 1e-4, msg)
    if "function" in how:
        mon.ok((cl.units, cl.origin) == ("radec", so), "skyorbit:frame", "%s leaves the cluster in %s/%s" % (msg, cl.units, cl.origin))
    else:
        g1, w1, gf = ends(T.gc[None], T.vgc[None]); gf &= ~near(g1); mon.ev("sky method")
        if stars: T.pos, T.vel = p1 - g1, v1 - w1
        if gf.all() and so == "sky":
            sky.close_sky(mon, [[float(getattr(cl, k)) for k in gen.GC]], sky.radec(g1 / 1000., w1, *sun), "skyorbit:stored gc", .2 if myr else 1e-4, msg + ": stored orbital position")
            sky.close_sky(mon, [[float(getattr(cl, k)) for k in ("ra_gc", "dec_gc", "dist_gc", "pmra_gc", "pmdec_gc", "vlos_gc")]], sky.radec(g1 / 1000., w1, *sun), "skyorbit:stored ra_gc", .2 if myr else 1e-4, msg + ": ra_gc.. of the orbital position")
        if not stars: p1, v1 = g1 + T.pos, w1 + T.vel; fine = gf & ~near(p1)
        if so == "sky" and fine.any():
            sky.close_sky(mon, np.c_[cl.ra, cl.dec, cl.dist, cl.pmra, cl.pmdec, cl.vlos][fine], sky.radec(p1[fine] / 1000., v1[fine], *sun), "skyorbit:stored stars", .2 if myr else 1e-4, msg + ": stored stars")
    cl.to_galaxy(); cl.to_pckms(); x = np.c_[cl.x, cl.y, cl.z]; g = np.array([cl.xgc, cl.ygc, cl.zgc], float); P0 = T.pos if "function" in how or not stars else None
    if P0 is not None: mon.close(x - g, P0, "skyorbit:relative", 0, 1e-6 * np.max(np.linalg.norm(g)) + 1e-6 * np.max(np.abs(P0)), msg + ": stars relative to the cluster afterwards")
    if "function" in how: mon.close(g, T.gc, "skyorbit:untouched", 1e-6, 1e-6 * np.max(np.abs(T.gc)), msg + ": orbital position afterwards")
    elif fine.any() and gf.all():
        d = np.linalg.norm(x[fine] - p1[fine], axis=1) / (np.linalg.norm(p1[fine], axis=1) + np.linalg.norm(P[0])); mon.ok(np.max(d) < 2e-3 if myr else np.max(d) < 1e-6, "skyorbit:moved", "%s: back in Cartesian coordinates stars are off by %.3g of the orbit's size" % (msg, np.max(d)))
    mon.sample(dict(origin=so, pot=pn, myr=myr, how=how, n=T.n, stars=bool(stars)))


QF = 4
WORKLOADS = [("initialise", w_init, 150, 3000), ("cluster", w_cluster, 150, 2200), ("stars", w_stars, 110, 1700), ("sky", w_sky, 90, 1400)]
