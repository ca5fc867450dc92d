"""C16: sky coordinates after arbitrary histories against astropy's Galactocentric frame, and lossless return."""
import numpy as np
from ctv import gen, sky
import clustertools as ct

RULE = ("Random histories mixing conversions to and from sky coordinates with unit/origin changes, orbit initialisation, add_orbit, virialisation "
        "and added stars; at every visit to radec the stars, centre and orbital position are compared with astropy, at every return with the shadow state; "
        "distinct by history.")
REQUIRE = {"sky visits": 200, "method given": 60, "returns": 100, "stale candidates": 60, "relative frames": 60, "across RA 0": 20, "orthographic": 10, "VandeVen": 10, "stars added": 20, "orbit changed": 20}
ASSUMPTIONS = ["astropy's Galactocentric transformation is the reference"]


def want(T):
    p, v = T.frame("galaxy")
    tr = lambda a, b: sky.radec(np.asarray(a) / 1000., b, T.ro, T.vo, T.zo, T.sm)
    return tr(p, v), tr(T.gc, T.vgc)[0], tr(T.gc + T.c, T.vgc + T.vc)[0]


def cols(cl, names):
    return np.array([np.asarray(getattr(cl, k), float) for k in names]).T


def relative(S, C, method):
    """stars S about sky position C, as documented for each centre method"""
    d = np.radians(S[:, 1]); d0 = np.radians(C[1]); da = np.radians(S[:, 0] - C[0])
    out = S - C
    if method is None:
        out[:, 0] = ((S[:, 0] - C[0] + 180) % 360 - 180) * np.cos(d0)
        return out
    out[:, 0] = np.degrees(np.cos(d) * np.sin(da)); out[:, 1] = np.degrees(np.sin(d) * np.cos(d0) - np.cos(d) * np.sin(d0) * np.cos(da))
    if method == "orthographic":
        out[:, 3] = S[:, 3] * np.cos(da) - S[:, 4] * np.sin(d) * np.sin(da) - C[3]
        out[:, 4] = S[:, 3] * np.sin(d0) * np.sin(da) + S[:, 4] * (np.cos(d) * np.cos(d0) + np.sin(d) * np.sin(d0) * np.cos(da)) - C[4]
    return out


def check_sky(mon, cl, T, hist):
    msg = ">".join(hist)
    S, Gc, C = want(T)
    ok = mon.ok(cl.units == "radec" and cl.origin in ("sky", "cluster", "centre"), "tag", "%s/%s after %s" % (cl.units, cl.origin, msg))
    if not ok: return False
    if not mon.ok(len(cl.ra) == T.n, "count", "%d sky positions for %d stars: %s" % (len(cl.ra), T.n, msg)): return False
    ok &= sky.close_sky(mon, cols(cl, ["ra", "dec", "dist", "pmra", "pmdec", "vlos"]), S, "stars", 1e-6, "stars " + msg)
    ok &= sky.close_sky(mon, np.ravel(cols(cl, ["ra_gc", "dec_gc", "dist_gc", "pmra_gc", "pmdec_gc", "vlos_gc"])), Gc, "orbit", 1e-6, "orbital position " + msg)
    ok &= sky.close_sky(mon, np.ravel(cols(cl, ["xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc"])), Gc, "orbit", 1e-6, "xgc.. " + msg)
    ok &= sky.close_sky(mon, np.ravel(cols(cl, ["xc", "yc", "zc", "vxc", "vyc", "vzc"])), C, "centre", 1e-6, "centre " + msg)
    X = cols(cl, gen.STAR)
    if cl.origin == "sky":
        ok &= sky.close_sky(mon, X, S, "x-in-sky", 1e-6, "x.. " + msg)
    else:
        mon.ev("across RA 0", np.ptp(S[:, 0]) > 180)
        R = relative(S, C if cl.origin == "centre" else Gc, cl.centre_method)
        for k in range(6):
            mon.close(X[:, k], R[:, k], "relative:%s:%s:%d" % (cl.centre_method, cl.origin, k), 1e-6, 3e-6 * max(1, np.max(np.abs(S[:, k]))) if k > 1 else 2e-6, "column %d about %s (%s): %s" % (k, cl.origin, cl.centre_method, msg))
        mon.ev("relative frames"); mon.ev(str(cl.centre_method))
    mon.ok(np.array_equal(np.asarray(cl.id), T.ids), "id", "ids"); mon.close(cl.m, T.m, "mass", 1e-9, 0, "mass in radec " + msg)
    mon.close(cl.tphys, T.tphys / 1000., "time", 1e-9, 0, "tphys in radec")
    mon.ev("sky visits")
    return ok


def near_zero(T, rng):
    """a galactocentric position (pc) whose stars lie on both sides of right ascension zero"""
    d = float(10 ** rng.uniform(.3, 1.5)); s = np.degrees(max(float(np.std(T.pos)), 1e-3) / (1000. * d))
    return sky.position(float(rng.normal(0, .5 * s)), float(rng.uniform(-70, 70)), d, T.ro, T.vo, T.zo, T.sm) * 1000.


def w_history(mon, rng):
    T = gen.truth(rng, n=int(rng.integers(1, 15)), kind=str(rng.choice(["gauss", "plummer", "clumpy"])), nmax=20)
    if rng.random() < .4: T.gc = near_zero(T, rng)
    u, o = str(rng.choice(gen.UNITS)), str(rng.choice(gen.ORIGINS))
    cl = T.build(u, o, centre_method=[None, "orthographic", "VandeVen"][int(rng.integers(0, 3))])
    hist = [u, o, str(cl.centre_method)]; visited = False; n0 = T.n
    for _ in range(int(rng.integers(4, 12))):
        insky = cl.units == "radec"
        op = str(rng.choice(["radec", "radec", "back", "origin", "initorbit", "initorbits", "add_orbit", "scale", "add_stars"]))
        if insky and op not in ("back", "origin", "radec"): op = str(rng.choice(["back", "origin"]))
        if op == "radec":
            how = int(rng.integers(0, 3))
            cm = str(rng.choice(["orthographic", "VandeVen"])) if how != 1 and not insky and rng.random() < .4 else None; kw = {} if cm is None else dict(centre_method=cm)
            [lambda: cl.to_radec(**kw), lambda: cl.to_units("radec"), lambda: cl.to_sky(**kw)][how]()
            hist.append(["to_radec", "units:radec", "to_sky"][how] + (" " + cm if cm else ""))
            mon.ok(cm is None or cl.origin == "sky" or cl.centre_method == cm, "method", "centre_method=%r after %s" % (cl.centre_method, hist[-1])); mon.ev("method given", cm is not None)
        elif op == "back":
            u, o = str(rng.choice(gen.UNITS + (["amuse"] if gen.HAVE_AMUSE else []))), str(rng.choice(gen.ORIGINS)); hist.append(u + "/" + o)
            if insky and rng.random() < .5:
                cl.to_galaxy(); cl.to_units(u); cl.to_origin(o)
            else:
                cl.to_units(u); cl.to_origin(o)
            mon.ev("returns", insky)
        elif op == "origin":
            if insky:
                q = str(rng.choice(["sky", "cluster", "centre", "center"])); cm = str(rng.choice(["orthographic", "VandeVen"])) if q != "sky" and rng.random() < .5 else None
                kw = {} if cm is None else dict(centre_method=cm); fn = rng.random()
                if fn < .4 and q != "center": cl.to_origin(q, **kw)
                elif fn < .7: getattr(cl, "to_" + q)(**kw)
                else: getattr(ct, "to_" + q)(cl, **kw)
                hist.append("sky:%s %s" % (q, cm))
                mon.ok(cm is None or cl.centre_method == cm, "method", "centre_method=%r after asking for %r" % (cl.centre_method, cm)); mon.ev("method given", cm is not None)
            else:
                o = str(rng.choice(gen.ORIGINS)); cl.to_origin(o); hist.append(o)
        elif op == "initorbit": cl.initialize_orbit(); hist.append(op)
        elif op == "initorbits": cl.initialize_orbits(); hist.append(op)
        elif op == "add_orbit":
            if cl.units == "amuse": cl.to_pckms(); u = "pckms"
            o = "cluster"; cl.to_cluster()
            T.gc = rng.normal(0, 6000, 3) if rng.random() < .6 else near_zero(T, rng); T.vgc = rng.normal(0, 150, 3)
            e = T.expect(u, o); cl.add_orbit(*[float(k) for k in np.r_[e["gc"], e["vgc"]]]); hist.append(op); mon.ev("orbit changed"); mon.ev("stale candidates", visited)
        elif op == "scale":
            if cl.units == "amuse": cl.to_pckms(); u = "pckms"
            o = "cluster"; cl.to_cluster()
            f = float(rng.uniform(.5, 2)); T.pos *= f; cl.x *= f; cl.y *= f; cl.z *= f; cl.analyze(); hist.append(op); mon.ev("stale candidates", visited)
        elif op == "add_stars":
            if cl.units == "amuse": cl.to_pckms(); u = "pckms"
            o = "cluster"; cl.to_cluster()
            k = int(rng.integers(1, 4)); L, V, M, _ = T.dims(u)
            P, W, m = rng.normal(0, 5, (k, 3)), rng.normal(0, 5, (k, 3)), rng.uniform(.1, 2, k); ids = 10 ** 6 + T.n + np.arange(k)
            T.add(m, P, W, ids); cl.add_stars(*(P / L).T, *(W / V).T, m=m / M, id=ids, analyze=True); hist.append(op); mon.ev("stars added"); mon.ev("stale candidates", visited)
        mon.log(hist[-1])
        if cl.units == "radec":
            visited = True
            if not check_sky(mon, cl, T, hist): return
        else:
            u = cl.units; o = cl.origin
            if not T.compare(mon, cl, u, o, "return", 1e-7, ">".join(hist), slack=2000.): return
    mon.seen(tuple(hist)); mon.sample(dict(n=n0, history=hist))


QF = 8
WORKLOADS = [("history", w_history, 120, 2500)]
