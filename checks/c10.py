"""C10: cluster centres against definitions, reference implementations and translation/permutation relations."""
import numpy as np
from ctv import gen, derived
import clustertools as ct

RULE = ("Random clusters (clump of known position inside a background, or single shapes) in every unit system and origin; find_centre (density harfst/casertano, sigma-clipped mass centre), "
        "find_centre_of_density, find_centre_of_mass as function or method with random nsphere/rmin/rmax/nmax/nneighbour/indx/starts/reset_centre; distinct by options and case.")
REQUIRE = {"mass centre": 120, "clipped mass centre": 80, "harfst": 120, "casertano": 120, "translated": 60, "permuted": 60, "clump": 30, "method": 150, "galaxy origin": 100, "moved to centre": 150,
           "no orbit yet": 20, "reset_centre": 20, "amuse": 8, "amuse reset": 15, "amuse no orbit": 10, "indx": 40}
ASSUMPTIONS = ["the iterative density centre follows a translation of the stars together with its starting point", "sky coordinates are excluded"]
L = derived.plain


def raw(cl):
    return np.c_[L(cl.x), L(cl.y), L(cl.z)], np.c_[L(cl.vx), L(cl.vy), L(cl.vz)], L(cl.m)


def ref_com(p, v, m):
    return np.r_[m @ p, m @ v] / np.sum(m)


def ref_clip(p, v, m, start, nsigma, nsphere, sel):
    idx = np.where(sel)[0]; x = p[idx] - start; r = np.sqrt(np.sum(x ** 2, axis=1))
    first = True
    while len(r) > nsphere:
        keep = r < nsigma * np.std(r)
        if keep.all() and not first: break
        first = False
        if keep.sum() > nsphere:
            idx = idx[keep]; x = x[keep] - np.mean(x[keep], axis=0); r = np.sqrt(np.sum(x ** 2, axis=1))
        else: break
    return ref_com(p[idx], v[idx], m[idx])


def ref_harfst(p, v, m, start, vstart, nsphere, rmin, rmax, nmax, sel):
    """centre, the same with the outermost star counted in the first sphere (it lies exactly on it), iterations done"""
    out = []
    for far in (False, True):
        x = p[sel] - start; w = v[sel] - vstart; mm = m[sel]
        c = np.array(start, float); cv = np.array(vstart, float)
        rlim = rmax if rmax is not None else np.max(np.sqrt(np.sum(x ** 2, axis=1))); n = 0
        while rlim > rmin and n < nmax:
            inn = np.sqrt(np.sum(x ** 2, axis=1)) < rlim
            if far and rmax is None and n == 0: inn[:] = True
            if inn.sum() <= nsphere: break
            d = mm[inn] @ x[inn] / mm[inn].sum(); dv = mm[inn] @ w[inn] / mm[inn].sum()
            x = x - d; w = w - dv; c = c + d; cv = cv + dv
            rlim *= .8; n += 1
        out.append(np.r_[c, cv]); it = n if not far else min(it, n)
    return out[0], out[1], it


def ref_casertano(p, v, m, k):
    d = np.sqrt(np.sum((p[:, None, :] - p[None, :, :]) ** 2, axis=2)); o = np.argsort(d, axis=1)[:, :k]
    rho = np.sum(m[o[:, :-1]], axis=1) / np.take_along_axis(d, o, axis=1)[:, -1] ** 3
    return np.r_[rho @ p, rho @ v] / np.sum(rho)


def clump(rng, n):
    """compact clump at a random place inside a diffuse background"""
    k = int(.6 * n); rs = 10 ** rng.uniform(-.5, .5); cen = rng.normal(0, 8 * rs, 3); cv = rng.normal(0, 5, 3)
    pos = np.r_[cen + rng.normal(0, rs, (k, 3)), rng.normal(0, 20 * rs, (n - k, 3))]
    vel = np.r_[cv + rng.normal(0, 1, (k, 3)), rng.normal(0, 5, (n - k, 3))]
    p = rng.permutation(n)
    T = gen.truth(rng, n=n); T.pos = pos[p]; T.vel = vel[p]; T.m = rng.uniform(.5, 1.5, n)
    return T, cen, cv, rs


def call(mon, rng, cl, T, units, big):
    """one random request; returns got, reference value, option dict, whether it was the method"""
    p, v, m = raw(cl); n = T.n
    which = str(rng.choice(["com", "clip", "harfst", "casertano", "harfst2", "casertano2"])); meth = bool(rng.random() < .55)
    kw = {}
    if which == "com":
        got = cl.find_centre_of_mass() if meth else ct.find_centre_of_mass(cl)
        return got, [ref_com(p, v, m)], "find_centre_of_mass", kw, meth, True
    scale = np.std(p)
    sel = np.ones(n, bool)
    if which in ("clip", "harfst", "harfst2") and rng.random() < .25 and n > 4:
        sel = rng.random(n) < .7; sel[:2] = True; kw["indx"] = sel.copy(); mon.ev("indx")
    if which == "clip":
        kw.update(density=False, nsphere=int(rng.choice([1, 5, 100, 20])), nsigma=float(rng.choice([1.0, 2.0, 3.0])))
        start = np.zeros(3)
        if rng.random() < .6 or big: start = np.mean(p, axis=0) + rng.normal(0, .3 * scale, 3); kw.update(xstart=start[0], ystart=start[1], zstart=start[2])
        iterated = True; w = ref_clip(p, v, m, start, kw["nsigma"], kw["nsphere"], sel); w = [w]; mon.ev("clipped mass centre")
    elif which.startswith("harfst"):
        start = np.zeros(3); vstart = np.zeros(3); rmax = None
        if rng.random() < .5 or big:
            start = np.mean(p, axis=0) + rng.normal(0, .3 * scale, 3); vstart = np.mean(v, axis=0); kw.update(xstart=start[0], ystart=start[1], zstart=start[2], vxstart=vstart[0], vystart=vstart[1], vzstart=vstart[2])
        ns = int(rng.choice([100, 3, 10, 20])); rmin = float(rng.choice([.1, .01 * scale, .5 * scale])); nmax = int(rng.choice([100, 3, 20]))
        if rng.random() < .3: rmax = float(scale * rng.uniform(1, 4)); kw["rmax"] = rmax
        if rng.random() < .8: kw.update(nsphere=ns, rmin=rmin, nmax=nmax)
        else: ns, rmin, nmax = 100, .1, 100
        if rng.random() < .4: kw["method"] = "harfst"
        a, b, it = ref_harfst(p, v, m, start, vstart, ns, rmin, rmax, nmax, sel); w = [a, b]; iterated = it > 0 and rmin < scale; mon.ev("harfst")
    else:
        k = int(rng.choice([6, 6, 3, 8])); k = min(k, n); kw["method"] = "casertano"
        if k != 6: kw["nneighbour"] = k
        w = [ref_casertano(p, v, m, k)]; iterated = True; mon.ev("casertano")
    name = "find_centre_of_density" if which.endswith("2") else "find_centre"
    got = getattr(cl, name)(**kw) if meth else getattr(ct, name)(cl, **kw)
    return got, w, name, kw, meth, iterated


def w_call(mon, rng):
    T = clump(rng, int(rng.integers(20, 90)))[0] if rng.random() < .5 else gen.truth(rng, n=int(rng.choice([2, 7, int(rng.integers(7, 60))])))
    noorbit = bool(rng.random() < .12)
    if noorbit: T.pos = T.pos + T.gc; T.vel = T.vel + T.vgc; T.gc = np.zeros(3); T.vgc = np.zeros(3); T.c = np.zeros(3); T.vc = np.zeros(3)
    units = str(rng.choice(gen.UNITS)); origin = str(rng.choice(gen.ORIGINS)) if not noorbit else "galaxy"
    cl = T.build(units, origin); amuse = False
    if rng.random() < .5: cl.analyze(sortstars=True)
    p0, v0, m0 = raw(cl)
    got, ws, name, kw, meth, iterated = call(mon, rng, cl, T, units, origin == "galaxy")
    got = np.array([float(L(g)) for g in got])
    w = min(ws, key=lambda q: np.max(np.abs(q - got) / (np.abs(q) + 1e-300)))
    ap, av = 1e-11 * np.max(np.abs(p0)), 1e-11 * np.max(np.abs(v0))
    mech = "%s:%s" % (name, kw.get("method", "mass" if (kw.get("density") is False or name.endswith("mass")) else "default"))
    txt = "%s(%s) in %s/%s" % (name, {k: v for k, v in kw.items() if k != "indx"}, units, origin)
    mon.log(txt, "method" if meth else "function")
    mon.close(got[:3], w[:3], mech + ":position", 1e-8, 100 * ap, txt); mon.close(got[3:], w[3:], mech + ":velocity", 1e-8, 100 * av, txt)
    lo, hi = p0.min(axis=0), p0.max(axis=0)
    if iterated: mon.ok(np.all(got[:3] >= lo - 10 * ap - 1e-9 * (hi - lo)) and np.all(got[:3] <= hi + 10 * ap + 1e-9 * (hi - lo)), mech + ":inside", "centre %r outside the stars" % got.tolist())
    if name == "find_centre_of_mass": mon.ev("mass centre")
    mon.ev("galaxy origin", origin == "galaxy"); mon.seen(units, origin, mech, sorted(str(k) for k in kw), T.n, meth)
    p1, v1, m1 = raw(cl)
    mon.close(p1, p0, mech + ":moved", 1e-12, 2 * ap, "stars moved"); mon.ok(cl.units == units and cl.origin == origin, mech + ":frame", "left in %s/%s" % (cl.units, cl.origin))
    if not meth:
        T.compare(mon, cl, units, origin, mech + ":function-stores", msg=txt); return
    mon.ev("method")
    Lu, Vu = T.dims(units)[:2]
    if origin == "cluster":
        T.c = got[:3] * Lu; T.vc = got[3:] * Vu
    elif origin == "galaxy":
        if noorbit: T.gc = got[:3] * Lu; T.vgc = got[3:] * Vu; T.pos = T.pos - T.gc; T.vel = T.vel - T.vgc; mon.ev("no orbit yet")
        else: T.c = got[:3] * Lu - T.gc; T.vc = got[3:] * Vu - T.vgc
    T.compare(mon, cl, units, origin, mech + ":stored", msg=txt, slack=100)
    # afterwards the found centre is the zero of the frame
    if origin != "centre":
        if rng.random() < .4: units = str(rng.choice(gen.UNITS)); cl.to_units(units)
        cl.to_centre()
        T.compare(mon, cl, units, "centre", mech + ":to_centre", msg=txt + " then to_centre", slack=100, rtol=1e-8)
        f = np.r_[(p0 - got[:3]) * Lu, ]
        mon.close(np.c_[L(cl.x), L(cl.y), L(cl.z)] * T.dims(units)[0], f, mech + ":zero", 1e-7, 1e3 * ap * Lu, "star positions relative to the found centre"); mon.ev("moved to centre")
        o2 = str(rng.choice(["cluster", "galaxy"])); cl.to_origin(o2); T.compare(mon, cl, units, o2, mech + ":back", msg=txt + " then back to " + o2, slack=100, rtol=1e-8)
    mon.sample(dict(call=txt, n=T.n))


def w_reset(mon, rng):
    """reset_centre makes the found centre the orbital position"""
    T = gen.truth(rng, n=int(rng.integers(7, 60))); units = str(rng.choice(gen.UNITS)); cl = T.build(units, "galaxy")
    kw = dict(method="casertano") if rng.random() < .5 else dict(density=False, nsphere=1000)
    L_, V_ = T.dims(units)[:2]; name = str(rng.choice(["find_centre", "find_centre_of_mass", "find_centre_of_density"]))
    if name == "find_centre_of_mass": kw = {}
    elif name == "find_centre_of_density": kw = dict(method="casertano", nneighbour=int(rng.integers(2, 6)))
    am = bool(gen.HAVE_AMUSE and rng.random() < .3)
    if am: units = "pckms"; cl.to_pckms(); L_, V_ = T.dims(units)[:2]; cl.to_amuse(); mon.ev("amuse reset")
    got = getattr(cl, name)(reset_centre=True, **kw); got = np.r_[[float(gen.val(k, "L")) for k in got[:3]], [float(gen.val(k, "V")) for k in got[3:]]] if am else np.array(got)
    if am: cl.to_pckms()
    T.pos = T.pos + T.gc - got[:3] * L_; T.vel = T.vel + T.vgc - got[3:] * V_; T.gc = got[:3] * L_; T.vgc = got[3:] * V_; T.c = np.zeros(3); T.vc = np.zeros(3)
    T.compare(mon, cl, units, "galaxy", "reset", slack=100); cl.to_cluster(); T.compare(mon, cl, units, "cluster", "reset", slack=100); cl.to_centre(); T.compare(mon, cl, units, "centre", "reset", slack=100)
    # a second search finds the same place: the previous centre must not survive
    cl.to_galaxy(); cl.xc = cl.yc = cl.zc = 3.0 / L_
    g2 = np.array(getattr(cl, name)(**kw)); mon.close(g2, got, "reset:again", 1e-7, 1e-9 * np.max(np.abs(got)))
    cl.to_centre(); T.compare(mon, cl, units, "centre", "reset:stale", slack=1e3, rtol=1e-7)
    mon.ev("reset_centre"); mon.ev("galaxy origin"); mon.seen("reset", units, T.n, name, am)


def w_relations(mon, rng):
    """translation and permutation of the stars; a clump is found"""
    T, cen, cv, rs = clump(rng, int(rng.integers(60, 200))); units = str(rng.choice(gen.UNITS)); U = T.dims(units)
    cl = T.build(units, "cluster")
    opts = [dict(density=False, nsphere=20), dict(nsphere=15, rmin=.1 * rs / U[0]), dict(method="casertano")]
    base = [np.array(ct.find_centre(cl, **k)) for k in opts]
    s = rng.normal(0, 50 * rs, 3); sv = rng.normal(0, 30, 3)
    T2 = gen.Truth(T.m, T.pos + s, T.vel + sv, T.c, T.vc, T.gc, T.vgc, T.tphys, T.scale, T.ro, T.vo, T.zo, T.sm, T.ids); c2 = T2.build(units, "cluster")
    a, av = s / U[0], sv / U[1]
    P, W, M = raw(cl); r1, r2, it = ref_harfst(P, W, M, np.zeros(3), np.zeros(3), 15, .1 * rs / U[0], None, 100, np.ones(T.n, bool))
    sharp = np.allclose(r1, r2, rtol=1e-9)
    for k, b in zip(opts, base):
        if "rmin" in k and not sharp: continue
        kk = dict(k)
        if kk.get("method") != "casertano": kk.update(xstart=a[0], ystart=a[1], zstart=a[2], vxstart=av[0], vystart=av[1], vzstart=av[2])
        g = np.array(ct.find_centre(c2, **kk)); sc = np.max(np.abs(T2.pos)) / U[0]; sw = np.max(np.abs(T2.vel)) / U[1]
        mon.close(g[:3] - a, b[:3], "translate", 1e-7, 1e-9 * sc, str(k)); mon.close(g[3:] - av, b[3:], "translate", 1e-7, 1e-9 * sw, str(k)); mon.ev("translated")
    q = rng.permutation(T.n)
    T3 = gen.Truth(T.m[q], T.pos[q], T.vel[q], T.c, T.vc, T.gc, T.vgc, T.tphys, T.scale, T.ro, T.vo, T.zo, T.sm, T.ids[q]); c3 = T3.build(units, "cluster")
    P, W, M = raw(cl); r1, r2, it = ref_harfst(P, W, M, np.zeros(3), np.zeros(3), 15, .1 * rs / U[0], None, 100, np.ones(T.n, bool))
    sharp = np.allclose(r1, r2, rtol=1e-9)
    for k, b in zip(opts, base):
        if "rmin" in k and not sharp: continue
        g = np.array(ct.find_centre(c3, **k)); mon.close(g, b, "permute", 1e-8, 1e-10 * np.max(np.abs(b)), str(k)); mon.ev("permuted")
    g = base[2][:3] * U[0]
    mon.ok(np.sqrt(np.sum((g - cen) ** 2)) < 1.5 * rs, "clump", lambda: "casertano centre %r, clump at %r of size %r" % (g, cen, rs))
    h = np.array(ct.find_centre_of_density(cl, nsphere=15, rmin=.1 * rs / U[0], nmax=200))[:3] * U[0]
    inn = np.sum(np.sum((T.pos - h) ** 2, axis=1) < (20 * rs) ** 2)
    mon.ok(inn >= 10, "clump", "iterative centre %r has %d stars nearby" % (h, inn))
    mon.ev("clump"); mon.seen("rel", units, T.n)


def w_amuse(mon, rng):
    T = gen.truth(rng, n=int(rng.integers(7, 40))); origin = str(rng.choice(gen.ORIGINS)); cl = T.build("pckms", origin); p, v, m = raw(cl)
    noorbit = bool(origin == "galaxy" and rng.random() < .5)
    if noorbit:
        T.pos = T.pos + T.gc + T.c; T.vel = T.vel + T.vgc + T.vc; T.gc = np.zeros(3); T.vgc = np.zeros(3); T.c = np.zeros(3); T.vc = np.zeros(3); cl = T.build("pckms", origin); p, v, m = raw(cl); mon.ev("amuse no orbit")
    cl.to_amuse()
    for name, kw, w in (("find_centre_of_mass", {}, ref_com(p, v, m)), ("find_centre", dict(method="casertano"), ref_casertano(p, v, m, 6)), ("find_centre", dict(density=False, nsphere=1000), ref_com(p, v, m))):
        g = getattr(ct, name)(cl, **kw); g = np.r_[[gen.val(k, "L") for k in g[:3]], [gen.val(k, "V") for k in g[3:]]]
        mon.close(g[:3], w[:3], "amuse:" + name, 1e-8, 1e-9 * np.max(np.abs(p))); mon.close(g[3:], w[3:], "amuse:" + name, 1e-8, 1e-9 * np.max(np.abs(v)))
    g = cl.find_centre(method="casertano"); g = np.r_[[gen.val(k, "L") for k in g[:3]], [gen.val(k, "V") for k in g[3:]]]
    if origin == "cluster": T.c = g[:3]; T.vc = g[3:]
    elif noorbit: T.gc = g[:3]; T.vgc = g[3:]; T.pos = T.pos - T.gc; T.vel = T.vel - T.vgc
    elif origin == "galaxy": T.c = g[:3] - T.gc; T.vc = g[3:] - T.vgc
    cl.to_pckms(); T.compare(mon, cl, "pckms", origin, "amuse:stored", slack=100)
    mon.ev("amuse"); mon.ev("method")


WORKLOADS = [("call", w_call, 1100, 20000), ("reset", w_reset, 30, 800), ("relations", w_relations, 40, 1000)] + ([("amuse", w_amuse, 20, 200)] if gen.HAVE_AMUSE else [])
