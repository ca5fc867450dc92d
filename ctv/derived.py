"""Recompute-from-scratch oracle for every derived attribute of a StarCluster."""
import numpy as np


def plain(q):
    if hasattr(q, "value_in"):
        return np.asarray(q.number, dtype=float)
    a = np.asarray(q)
    if a.dtype == object:
        return np.array([float(e.number) if hasattr(e, "number") else float(e) for e in a.ravel()]).reshape(a.shape)
    return a.astype(float)


def enclosing(mon, val, r, w, frac, mech, msg, tol=1e-9):
    """val is the radius at which the cumulative weight first reaches frac of the total"""
    tot = np.sum(w)
    scale = max(np.max(np.abs(r)), 1e-300)
    hit = np.min(np.abs(r - val)) <= 1e-9 * scale
    mon.ok(hit, mech, "%s=%r is not the radius of any star" % (msg, float(val)))
    inc = np.sum(w[r <= val + 1e-9 * scale]); exc = np.sum(w[r < val - 1e-9 * scale])
    mon.ok(inc >= frac * tot * (1 - tol) and exc <= frac * tot * (1 + tol) + 1e-300, mech,
           "%s=%r: weight within %r, strictly inside %r, wanted to reach %r of %r" % (msg, float(val), inc, exc, frac, tot))


def check(mon, cl, mech="derived", msg="", orders=True, projected=True):
    x, y, z, vx, vy, vz, m = (plain(getattr(cl, k)) for k in ("x", "y", "z", "vx", "vy", "vz", "m"))
    n = len(x)
    r = np.sqrt(x * x + y * y + z * z); rp = np.sqrt(x * x + y * y)
    v = np.sqrt(vx * vx + vy * vy + vz * vz); vp = np.sqrt(vx * vx + vy * vy)
    c = lambda name, want: mon.close(plain(getattr(cl, name)), want, mech + ":" + name, 1e-9, 1e-12 * (np.max(np.abs(want)) + 1e-300), msg + " " + name)
    ok = mon.ok(cl.ntot == n, mech + ":ntot", "%s ntot=%r for %d rows" % (msg, cl.ntot, n))
    ok &= c("r", r) & c("rpro", rp) & c("v", v) & c("vpro", vp)
    ok &= c("mtot", np.sum(m)) & c("mmean", np.mean(m)) & c("rmean", np.mean(r)) & c("rmax", np.max(r))
    ok &= c("rmeanpro", np.mean(rp)) & c("rmaxpro", np.max(rp))
    mon.ok(cl.analyze_units == cl.units and cl.analyze_origin == cl.origin, mech + ":tag", msg + " analyze_units/origin stale")
    if orders:
        todo = [("rorder", r, (("rm", .5), ("r10", .1)))]
        if projected:
            todo.append(("rproorder", rp, (("rmpro", .5), ("r10pro", .1))))
        for name, rad, marks in todo:
            o = np.asarray(getattr(cl, name))
            if not mon.ok(o.shape == (n,) and np.array_equal(np.sort(o), np.arange(n)), mech + ":" + name, msg + " %s is not a permutation of the rows" % name):
                continue
            s = rad[o]
            mon.ok(np.all(np.diff(s) >= -1e-9 * max(np.max(rad), 1e-300)), mech + ":" + name,
                   lambda: "%s %s does not sort the current radii: %r" % (msg, name, s[:12].tolist()))
            for at, f in marks:
                enclosing(mon, float(plain(getattr(cl, at))), rad, m, f, mech + ":" + at, msg + " " + at)
        lum = np.asarray(cl.lum, float)
        if len(lum) == n:
            for at, rad, f in (("rh", r, .5), ("rh10", r, .1)) + ((("rhpro", rp, .5), ("rh10pro", rp, .1)) if projected else ()):
                enclosing(mon, float(plain(getattr(cl, at))), rad, lum, f, mech + ":" + at, msg + " " + at)
    return ok
