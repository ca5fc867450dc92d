"""C18: orbital/tail paths against DOP853 trajectories, nearest-point oracles for star matching, rigid-rotation monitor for to_tail."""
import numpy as np
from ctv import gen, derived, pots, orb, sky, pick
import clustertools as ct

RULE = ("Random clusters with stars strewn along and around their orbit (5-120 stars, every unit system incl. AMUSE and Cartesian origin); orbital_path for random and default times, in space and on the sky, from the cluster or its centre; "
        "orbital_path_match/tail_path/tail_path_match with computed or given paths, projections, distances to points or to the path, fixed/equal-number/roaming bins and cuts; to_tail for random directions of motion; distinct by options/units/origin.")
REQUIRE = {"sky tail match": 20, "across RA 0": 20, "sky to_path": 15, "cluster on the sky": 60, "sky dmax": 5, "orbital_path": 60, "sky path": 15, "path from_centre": 10, "default time": 6, "orbit returned": 10, "match": 60, "given path": 25, "computed path": 25, "to_path": 15, "do_full": 8, "projected": 15, "sky match": 8, "tail_path": 60,
           "roaming": 10, "num bins": 15, "dmax": 12, "sky tail": 8, "tail match": 30, "to_tail": 60, "method": 60, "legacy dt": 8, "other sun": 40, "amuse": 10, "galaxy origin": 60}
ASSUMPTIONS = ["galpy's forces (not its integrators) are trusted", "ro, vo, zo and solar motion are the cluster's own or (except for matches and tails on the sky) those given to the call", "distances on the sky are differences of the coordinates in degrees, as documented",
               "AMUSE clusters on the sky excluded (an existing test fixes that behaviour)"]
L = derived.plain


def own(units):
    """unit system of the lengths, speeds and times that go with a cluster's units: clusters on the sky count time in Gyr"""
    return {"amuse": "pckms", "radec": "kpckms"}.get(units, units)


def intact(mon, T, cl, units, origin, mech, msg, slack=1.0):
    if units != "radec": return T.compare(mon, cl, units, origin, mech, msg=msg, slack=slack)
    if not mon.ok(cl.units == "radec" and cl.origin == T.sky[0], mech + ":units", "%s units=%r origin=%r" % (msg, cl.units, cl.origin)): return
    for k, w in T.sky[1].items(): mon.close(np.asarray(getattr(cl, k), float), w, mech + ":" + k, 1e-7, 1e-7, msg)


def build(mon, rng, strew=True, amuse=.08, radec=.12):
    n = int(rng.integers(5, 120)); T = gen.truth(rng, n=n, kind=str(rng.choice(["plummer", "gauss"])))
    d = rng.normal(0, 1, 3); d[2] *= .6; d /= np.linalg.norm(d); T.gc = d * 1000 * 10 ** rng.uniform(.5, 1.4); e = rng.normal(0, 1, 3); e -= e @ d * d; T.vgc = e / np.linalg.norm(e) * rng.uniform(100, 250) + d * rng.normal(0, 60)
    T.c *= rng.choice([.01, 1, 30]); pn = str(rng.choice(pots.NAMES)); pot = pots.POTS[pn]; myr = float(10 ** rng.uniform(.7, 2.3))
    if strew:
        t = rng.uniform(-.9, .9, n) * myr / 1000. / orb.gyr(T); S = orb.move(pot, T.gc / 1000. / T.ro, T.vgc / T.vo, t)[:, 0]
        w = np.linalg.norm(T.vgc) * myr * rng.choice([.003, .03, .1])
        T.pos = S[:, :3] * T.ro * 1000 - T.gc + rng.normal(0, w, (n, 3)); T.vel = S[:, 3:] * T.vo - T.vgc + rng.normal(0, 2, (n, 3))
    units = str(rng.choice(gen.UNITS)); origin = str(rng.choice(gen.ORIGINS)); am = gen.HAVE_AMUSE and rng.random() < amuse
    if am: units = "pckms"
    cl = T.build(units, origin, analyze=bool(rng.random() < .8))
    if am: cl.to_amuse(); units = "amuse"; mon.ev("amuse")
    if not am and rng.random() < radec:
        cl.to_radec(); units = "radec"; T.sky = (cl.origin, {k: np.array(getattr(cl, k), float) for k in ("x", "y", "z", "vx", "vy", "vz", "xgc", "ygc", "zgc", "ra", "dec", "tphys", "m")}); mon.ev("cluster on the sky")
    mon.ev("galaxy origin", origin == "galaxy")
    return T, cl, units, origin, pn, pot, myr


def req(T, units, x, kind):
    i = {"L": 0, "V": 1, "T": 3}[kind]; q = x / T.dims(own(units))[i]
    if units == "amuse":
        import amuse.units.units as u
        return q | (u.pc, u.kms, 0, u.Myr)[i]
    return q


def phys(T, units, x, kind):
    """returned quantity in pc, km/s, Myr"""
    return np.asarray(gen.val(x, kind) if units == "amuse" and hasattr(x, "value_in") else L(x) if units != "amuse" else np.array([float(gen.val(q, kind)) for q in np.atleast_1d(x)]), float) * T.dims(own(units))[{"L": 0, "V": 1, "T": 3}[kind]]


def start(T, fc, Q):
    return (T.gc + (T.c if fc else 0)) / 1000. / Q.ro, (T.vgc + (T.vc if fc else 0)) / Q.vo


def timeargs(mon, rng, T, units, myr, pdef=.06):
    if rng.random() < pdef: mon.ev("default time"); return {}, 100.
    if rng.random() < .12: mon.ev("legacy dt"); return {"dt": req(T, units, myr, "T")}, myr
    return {"tfinal": req(T, units, myr, "T")}, myr


def w_path(mon, rng):
    T, cl, units, origin, pn, pot, myr = build(mon, rng, strew=False)
    fc = bool(rng.random() < .25); skyp = bool(units == "radec" or units != "amuse" and rng.random() < .3); ini = bool(rng.random() < .3); nt = int(rng.choice([1000, int(rng.integers(50, 800))])); kw, myr = timeargs(mon, rng, T, units, myr)
    kw.update(pot=pot, nt=nt)
    if fc: kw["from_centre"] = True
    if skyp: kw["skypath"] = True
    if ini: kw["initialize"] = True
    Q = gen.other_sun(rng, T, kw, 0 if units == "radec" else .3); mon.ev("other sun", any(k in kw for k in ("ro", "vo")))
    meth = bool(rng.random() < .5); msg = "orbital_path(%s, %.4g Myr, %r) in %s/%s" % (pn, myr, sorted(kw), units, origin); mon.log(msg); mon.seen(msg)
    out = (cl.orbital_path if meth else lambda **k: ct.orbital_path(cl, **k))(**kw)
    mon.ev("orbital_path"); mon.ev("method", meth); mon.ev("path from_centre", fc); mon.ev("sky path", skyp); mon.ev("orbit returned", ini)
    o = None
    if ini and not meth: o = out[7]
    if ini and meth: o = cl.orbit
    if meth:
        for a, k in zip(out, ("tpath", "xpath", "ypath", "zpath", "vxpath", "vypath", "vzpath")): mon.close(L(getattr(cl, k)), L(a), "path:stored", 0, 0, msg)
    t = phys(T, units, out[0], "T")
    if not mon.ok(len(t) == nt and all(len(a) == nt for a in out[1:7]), "path:length", msg + ": %d points" % len(t)): return
    mon.close(t, np.linspace(-myr, myr, nt), "path:times", 1e-8, 1e-8 * myr, msg + " times (Myr)"); mon.ok(np.all(np.diff(t) > 0), "path:ordered", msg)
    P, V = start(T, fc, Q); ref = orb.move(pot, P, V, np.linspace(-myr, myr, nt) / 1000. / orb.gyr(Q))[:, 0]; rr = np.linalg.norm(ref[:, :3], axis=1)
    if rr.min() < .1 * rr.max(): mon.ev("passes too close to the centre"); return
    if skyp:
        w = sky.radec(ref[:, :3] * Q.ro, ref[:, 3:] * Q.vo, Q.ro, Q.vo, Q.zo, Q.sm); g = np.array([L(a) for a in out[1:7]]).T; near = w[:, 2] > .02 * Q.ro
        sky.close_sky(mon, g[near], w[near], "path:sky", 5e-3, msg)
    else:
        S = np.max(np.linalg.norm(ref[:, :3], axis=1)); W = np.max(np.linalg.norm(ref[:, 3:], axis=1))
        for i in range(3):
            mon.close(phys(T, units, out[1 + i], "L") / 1000. / Q.ro, ref[:, i], "path:pos", 0, 1e-3 * S, msg + " position"); mon.close(phys(T, units, out[4 + i], "V") / Q.vo, ref[:, 3 + i], "path:vel", 0, 5e-3 * W, msg + " velocity")
    if o is not None:
        tt = np.array([-.8, 0, .6]) * myr / 1000. / orb.gyr(Q); r = orb.move(pot, P, V, tt)[:, 0]; g = np.array([o.x(tt), o.y(tt), o.z(tt)]).T / Q.ro
        mon.close(g, r[:, :3], "path:orbit", 0, 1e-3 * np.max(np.linalg.norm(r[:, :3], axis=1)), msg + " returned orbit")
    intact(mon, T, cl, units, origin, "path:cluster", msg); mon.sample(dict(units=units, origin=origin, pot=pn, myr=myr))


def match_oracle(mon, T, units, got, tp, X, stars, proj, to_path, mech, msg, V=None, sk=False, odd=True):
    """tp Myr, X (k,3) path points, stars (n,3) in the same physical length (or degrees)"""
    d = 2 if proj else 3; D = np.sqrt(np.sum((X[None, :, :d] - stars[:, None, :d]) ** 2, 2)); mn = D.min(1); sc = np.max(np.abs(X[:, :d])) + np.max(np.abs(stars[:, :d])); eps = 1e-9 * sc
    ts = phys(T, units, got[0], "T"); dprog, dpath = (np.asarray(got[1], float), np.asarray(got[2], float)) if sk else (phys(T, units, got[1], "L"), phys(T, units, got[2], "L"))
    if not mon.ok(len(ts) == len(stars) and len(dprog) == len(stars) and len(dpath) == len(stars), mech + ":length", msg): return None
    j = np.argmin(np.abs(ts[:, None] - tp[None, :]), 1); span = tp[-1] - tp[0]
    mon.ok(np.max(np.abs(ts - tp[j])) <= 1e-9 * span, mech + ":tstar", msg + ": a star's time is not a time of the path")
    rows = np.arange(len(stars)); off = D[rows, j] - mn
    mon.ok(np.max(off) <= eps, mech + ":nearest", "%s: star %d matched to a point %.6g further than the nearest" % (msg, np.argmax(off), np.max(off)))
    seg = np.sqrt(np.sum(np.diff(X[:, :d], axis=0) ** 2, 1)); s = np.r_[0, np.cumsum(seg)]; z = np.argmin(np.abs(tp)); alt = [z] + [q for q in (z - 1, z + 1) if 0 <= q < len(tp) and abs(abs(tp[q]) - abs(tp[z])) < 1e-9 * span]
    mon.ok(min(np.max(np.abs(dprog - (s[j] - s[q]))) for q in alt) <= 1e-8 * s[-1] + eps, mech + ":dprog", "%s: distance along the path off by %.6g of %.6g" % (msg, min(np.max(np.abs(dprog - (s[j] - s[q]))) for q in alt), s[-1]))
    if to_path:
        dx = np.diff(X[:, :d], axis=0); dx = np.r_[dx, dx[-1:]][j]; sv = X[j, :d] - stars[:, :d]; L2 = np.sum(dx ** 2, 1); L2[L2 == 0] = 1; want = np.linalg.norm(sv - (np.sum(sv * dx, 1) / L2)[:, None] * dx, axis=1)
        q = np.abs(np.abs(dpath) - want) <= 1e-6 * mn + 1e-7 * sc
        mon.ok(bool(np.all(q)), mech + ":to_path", "%s: distance to the path %r, expected %r" % (msg, np.abs(dpath)[~q][:1], want[~q][:1]))
    else: mon.close(np.abs(dpath), mn, mech + ":dpath", 1e-6, eps, msg + " distance to the path point")
    if V is not None and not proj:
        lz = np.cross(X[j], V[j]); sv = stars - X[j]; dot = np.sum(sv * lz, 1); big = (np.abs(dot) > 1e-4 * np.linalg.norm(sv, axis=1) * np.linalg.norm(lz, axis=1)) & (np.abs(dpath) > 1e-6 * sc)
        mon.ok(np.all(np.sign(dpath[big]) == np.sign(dot[big])), mech + ":side", msg + ": sign is not the side of the orbital plane")
    return j


def path_of(T, units, p, sk=False):
    t = phys(T, units, p[0], "T")
    if sk: return t, np.array([L(a) for a in p[1:4]]).T, np.array([L(a) for a in p[4:7]]).T
    return t, np.array([phys(T, units, a, "L") for a in p[1:4]]).T, np.array([phys(T, units, a, "V") for a in p[4:7]]).T


def options(mon, rng, units):
    kw = {}; skyp = units == "radec" or units != "amuse" and rng.random() < .2; proj = rng.random() < .25; tp = rng.random() < .3; full = tp and rng.random() < .5
    if skyp: kw["skypath"] = True
    if proj: kw["projected"] = True
    if tp: kw["to_path"] = True
    if full: kw["do_full"] = True
    return kw, bool(skyp), bool(proj or skyp), bool(tp), bool(full)


def starpos(T, skyp):
    P = T.frame("galaxy")
    if not skyp: return P[0]
    return sky.radec(P[0] / 1000., P[1], T.ro, T.vo, T.zo, T.sm)[:, :3]


def wraps(X, S):
    return np.ptp(np.r_[X[:, 0], S[:, 0]]) > 170


def gap(X, S, d, sk):
    """from each star to each point of the path; right ascension the short way around"""
    D = X[None, :, :d] - S[:, None, :d]
    if sk: D[:, :, 0] = (D[:, :, 0] + 180) % 360 - 180
    return np.sqrt(np.sum(D ** 2, 2))


def steps(X):
    d = np.diff(X[:, :2], axis=0); d[:, 0] = (d[:, 0] + 180) % 360 - 180
    return d


def sky_oracle(mon, T, units, got, t, X, S, top, mech, msg, sign=True):
    # rounding of the sky conversion decides between neighbouring points, so allow it
    g = [L(a) for a in got]; D = gap(X, S, 2, True); ts = phys(T, units, got[0], "T"); j = np.argmin(np.abs(ts[:, None] - t[None]), 1); mn = D.min(1)
    mon.ok(np.max(D[np.arange(T.n), j] - mn) <= 1e-4, mech + ":nearest", msg + ": not the nearest point on the sky")
    if not top: mon.close(np.abs(g[2]), mn, mech + ":dpath", 1e-5, 1e-4, msg + " distance (deg)")
    else:
        e = steps(X); e = np.r_[e, e[-1:]][j]; h = np.hypot(*e.T); v = X[j, :2] - S[:, :2]; v[:, 0] = (v[:, 0] + 180) % 360 - 180; q = h > 1e-3
        mon.close(np.abs(g[2])[q], np.abs(v[q, 0] * e[q, 1] - v[q, 1] * e[q, 0]) / h[q], mech + ":to_path", 1e-5, 1e-4, msg + " distance to the path (deg)"); mon.ev("sky to_path")
    s = np.r_[0, np.cumsum(np.hypot(*steps(X).T))]; z = np.argmin(np.abs(t)); alt = [z] + [q for q in (z - 1, z + 1) if 0 <= q < len(t) and abs(abs(t[q]) - abs(t[z])) < 1e-9 * (t[-1] - t[0])]
    mon.ok(min(np.max(np.abs(g[1] - (s[j] - s[q]))) for q in alt) <= 1e-6 * s[-1] + 1e-9, mech + ":dprog", msg + " distance along the path (deg)")


def w_match(mon, rng):
    T, cl, units, origin, pn, pot, myr = build(mon, rng); opt, skyp, proj, top, full = options(mon, rng, units); nt = int(rng.choice([201, 501, 200, int(rng.integers(30, 400))])); kw, tm = timeargs(mon, rng, T, units, myr, .05); fc = bool(rng.random() < .15)
    if fc: opt["from_centre"] = True
    given = bool(rng.random() < .55); base = dict(pot=pot, nt=nt); base.update(kw); base.update({k: v for k, v in opt.items() if k in ("skypath", "from_centre")}); gen.other_sun(rng, T, base, 0 if skyp else .3); mon.ev("other sun", any(k in base for k in ("ro", "vo")))
    p = ct.orbital_path(cl, **base); arg = dict(base); arg.update({k: v for k, v in opt.items()})
    if given:
        if not skyp and rng.random() < .5 and units != "amuse":        # any curve will do
            k = int(rng.integers(5, 60)); idx = np.sort(rng.choice(nt, k, replace=False)) if k < nt else np.arange(nt); p = tuple(np.array(L(a))[idx] * (1 if i in (0, 4, 5, 6) else 1.02) for i, a in enumerate(p))
        keep = [L(a).copy() for a in p]; arg["path"] = p
    meth = bool(rng.random() < .5); msg = "orbital_path_match(%s, %.4g Myr, %r) in %s/%s" % (pn, tm, sorted(arg), units, origin); mon.log(msg); mon.seen(msg)
    got = (cl.orbital_path_match if meth else lambda **k: ct.orbital_path_match(cl, **k))(**arg)
    if given: mon.ok(all(np.array_equal(L(a), b) for a, b in zip(p, keep)), "match:argument", msg + ": the path given was changed")
    if meth:
        for a, k in zip(got, ("tstar", "dprog", "dpath")): mon.ok(np.array_equal(L(getattr(cl, k)), L(a), equal_nan=True), "match:stored", msg)
    t, X, V = path_of(T, units, p, skyp); S = starpos(T, skyp)
    intact(mon, T, cl, units, origin, "match:cluster", msg, slack=50); mon.sample(dict(units=units, origin=origin, pot=pn, myr=tm, opt=sorted(opt)))
    mon.ev("across RA 0", skyp and wraps(X, S))
    mon.ev("match"); mon.ev("given path" if given else "computed path"); mon.ev("to_path", top); mon.ev("do_full", full); mon.ev("projected", proj and not skyp); mon.ev("sky match", skyp); mon.ev("method", meth)
    if skyp:
        sky_oracle(mon, T, units, got, t, X, S, top, "match:sky", msg)
    else: match_oracle(mon, T, units, got, t, X, S, proj, top, "match", msg, V)


def bins(tp, nt, ntail, bt):
    if bt == "fix":
        if ntail > nt: d = (tp[-1] - tp[0]) / nt; lo = np.linspace(tp[0], tp[-1] - d, ntail); up = lo + d; up[-1] = tp[-1]; return lo, up
        e = np.linspace(tp[0], tp[-1], nt + 1); return e[:-1], e[1:]
    if ntail > nt: return None
    return pick.numbins(tp, nt)


def w_tail(mon, rng):
    T, cl, units, origin, pn, pot, myr = build(mon, rng); opt, skyp, proj, top, full = options(mon, rng, units); kw, tm = timeargs(mon, rng, T, units, myr, .05); no = int(rng.choice([301, 1000, int(rng.integers(100, 500))])); nt = int(rng.choice([5, 10, 23, 37])); roam = bool(rng.random() < .3)
    ntail = int(nt * rng.uniform(1.2, 3)) + 1 if roam else int(rng.integers(1, nt + 1)); bt = str(rng.choice(["fix", "num"])); opt.pop("do_full", None)
    base = dict(pot=pot, no=no, nt=nt, ntail=ntail, bintype=bt); base.update(kw); base.update(opt); sun = {}; gen.other_sun(rng, T, sun, 0 if skyp else .3); base.update(sun); mon.ev("other sun", any(k in base for k in ("ro", "vo")))
    p = ct.orbital_path(cl, pot=pot, nt=no, skypath=skyp, **kw, **sun); t, X, V = path_of(T, units, p, skyp); S = starpos(T, skyp); mon.ev("across RA 0", skyp and wraps(X, S))
    d = 2 if proj else 3; D = gap(X, S, d, skyp); j = np.argmin(D, 1); mn = D.min(1); srt = np.sort(D, 1); amb = (srt[:, 1] - srt[:, 0]) < (1e-4 if skyp else 1e-7 * np.max(np.abs(X)))
    keep = np.ones(T.n, bool)
    if not top and rng.random() < .4:
        q = np.sort(mn); i = int(rng.integers(T.n // 2, T.n)); dm = float(.5 * (q[i - 1] + q[i]))
        # on the sky the distances are angles: those of clusters in other units are seen at the distance of the cluster
        base["dmax"] = (dm if units == "radec" else req(T, units, np.tan(np.radians(dm)) * 1000 * sky.radec(T.gc[None] / 1000., T.vgc[None], T.ro, T.vo, T.zo, T.sm)[0, 2], "L")) if skyp else req(T, units, dm, "L"); mon.ev("sky dmax", skyp); keep = mn <= dm; amb |= np.abs(mn - dm) < 1e-7 * dm
    meth = bool(rng.random() < .5); msg = "tail_path(%s, %.4g Myr, %s bins %d/%d of %d, %r) in %s/%s" % (pn, tm, bt, nt, ntail, no, sorted(base), units, origin); mon.log(msg); mon.seen(msg)
    got = (cl.tail_path if meth else lambda **k: ct.tail_path(cl, **k))(**base)
    intact(mon, T, cl, units, origin, "tail:cluster", msg, slack=50)
    mon.ev("tail_path"); mon.ev("roaming", roam); mon.ev("num bins", bt == "num"); mon.ev("dmax", "dmax" in base); mon.ev("sky tail", skyp); mon.ev("method", meth)
    if meth:
        for a, k in zip(got, ("tpath", "xpath", "ypath", "zpath", "vxpath", "vypath", "vzpath")): mon.close(L(getattr(cl, k)), L(a), "tail:stored", 0, 0, msg)
    gt = phys(T, units, got[0], "T"); mon.ok(all(len(a) == len(gt) for a in got), "tail:length", msg); mon.ok(np.all(np.diff(gt) > 0), "tail:ordered", msg + ": times are not increasing")
    mon.ok(np.all(np.abs(gt) <= tm * (1 + 1e-6)), "tail:range", "%s: times %r..%r Myr outside +/- %r" % (msg, gt.min() if len(gt) else 0, gt.max() if len(gt) else 0, tm))
    B = bins(t, nt, ntail, bt)
    if B is not None:
        lo, up = B; ts = t[j]; tol = 1e-9 * (t[-1] - t[0]); P, W = T.frame("galaxy"); want_t = .5 * (lo + up) if bt == "fix" else np.array([t[m].mean() for m in pick.member(t, lo, up)]); seen = np.zeros(len(gt), bool)
        for b in range(len(lo)):
            if bt == "num" and not roam: inside = (ts >= lo[b]) & ((ts < up[b]) | (b == len(lo) - 1)); doubt = amb & (np.abs(ts - lo[b]) < 2 * tm) if amb.any() else amb
            else: inside = (ts >= lo[b]) & (ts <= up[b]); doubt = amb | (np.abs(ts - lo[b]) < tol) & (ts > t[0] + tol) | (np.abs(ts - up[b]) < tol) & (ts < t[-1] - tol)
            inside &= keep; k = np.flatnonzero(np.abs(gt - want_t[b]) <= 1e-7 * tm)
            if doubt.any():
                seen[k] = True; continue
            if not inside.any(): mon.ok(len(k) == 0, "tail:empty", "%s: a point at %g Myr although no star is matched to its bin" % (msg, want_t[b])); continue
            if not mon.ok(len(k) == 1, "tail:bins", "%s: %d points at %g Myr where %d stars are matched" % (msg, len(k), want_t[b], inside.sum())): continue
            k = k[0]; seen[k] = True; mp, mv = P[inside].mean(0), W[inside].mean(0)
            if skyp: sky.close_sky(mon, [[float(L(a)[k]) for a in got[1:7]]], sky.radec(mp / 1000., mv, T.ro, T.vo, T.zo, T.sm), "tail:sky", 1e-5, msg)
            else:
                for i in range(3):
                    mon.close(phys(T, units, got[1 + i], "L")[k], mp[i], "tail:pos", 1e-8, 1e-8 * np.max(np.abs(P)), msg + " mean position (pc)"); mon.close(phys(T, units, got[4 + i], "V")[k], mv[i], "tail:vel", 1e-8, 1e-8 * np.max(np.abs(W)), msg + " mean velocity")
        mon.ok(bool(np.all(seen)), "tail:extra", "%s: points at %r Myr belong to no bin" % (msg, gt[~seen][:3]))
    # matching to the tail path
    if len(gt) < 3: return
    opt2 = {k: v for k, v in opt.items() if k in ("skypath", "projected", "to_path")}
    if opt2.get("projected") or opt2.get("to_path"): path = ct.tail_path(cl, **{k: v for k, v in base.items() if k not in ("projected", "to_path")})
    else: path = got
    if len(path[0]) < 3: return
    meth = bool(rng.random() < .5); arg = dict(base); arg["path"] = path
    mode = int(rng.integers(0, 2)); 
    if mode: arg.pop("path")
    msg = "tail_path_match(%r) in %s/%s" % (sorted(arg), units, origin); mon.log(msg)
    res = (cl.tail_path_match if meth else lambda **k: ct.tail_path_match(cl, **k))(**arg); mon.ev("method", meth)
    if meth:
        for a, k in zip(res, ("tstar", "dprog", "dpath")): mon.ok(np.array_equal(L(getattr(cl, k)), L(a), equal_nan=True), "tailmatch:stored", msg)
    intact(mon, T, cl, units, origin, "tailmatch:cluster", msg, slack=50)
    t, X, V = path_of(T, units, path, skyp)
    mon.ev("tail match")
    if skyp: sky_oracle(mon, T, units, res, t, X, S, top, "tailmatch:sky", msg); mon.ev("sky tail match")
    elif len(t) > 2: match_oracle(mon, T, units, res, t, X, S, proj, top, "tailmatch", msg, V)
    mon.sample(dict(units=units, origin=origin, pot=pn, myr=tm, opt=sorted(opt), bins=[bt, nt, ntail]))


def w_totail(mon, rng):
    T, cl, units, origin, pn, pot, myr = build(mon, rng, strew=False, radec=0); r = rng.random()
    if r < .15: k = int(rng.integers(0, 3)); T.vgc = np.zeros(3); T.vgc[k] = rng.choice([-1, 1]) * 120.; cl = T.build("pckms" if units == "amuse" else units, origin); (cl.to_amuse() if units == "amuse" else None)
    msg = "to_tail for velocity %r in %s/%s" % (T.vgc.round(3).tolist(), units, origin); mon.log(msg); mon.seen(msg)
    meth = bool(rng.random() < .5)
    if meth: cl.to_tail(); out = [getattr(cl, k + "_tail") for k in gen.STAR]; mon.ev("method")
    else: out = ct.to_tail(cl)
    Q = np.array([phys(T, units, a, "L") for a in out[:3]]).T; U = np.array([phys(T, units, a, "V") for a in out[3:]]).T; fr = "centre" if origin == "galaxy" else origin; P, W = T.frame(fr)
    ep = 1e-11 * (np.max(np.abs(T.gc)) + np.max(np.abs(P))); ev = 1e-11 * (np.max(np.abs(T.vgc)) + np.max(np.abs(W))); mp, mv = np.max(np.linalg.norm(P, axis=1)), np.max(np.linalg.norm(W, axis=1))
    mon.close(Q @ Q.T, P @ P.T, "to_tail:rigid", 1e-9, 3 * mp * (ep + 1e-10 * mp), msg + " positions"); mon.close(U @ U.T, W @ W.T, "to_tail:rigid", 1e-9, 3 * mv * (ev + 1e-10 * mv), msg + " velocities")
    mon.close(Q / mp @ U.T / mv, P / mp @ W.T / mv, "to_tail:one rotation", 0, 1e-9 + 3 * ep / mp + 3 * ev / mv, msg + " positions against velocities")
    trip = lambda A: np.linalg.det(A[:3]) if len(A) > 2 else 0
    if T.n > 2: mon.close(trip(Q), trip(P), "to_tail:handed", 1e-6, 1e-6 * mp ** 3, msg + " handedness")
    vh = T.vgc / np.linalg.norm(T.vgc); want = P @ vh; wantv = W @ vh; tol = 1e-9 * mp + 3 * ep; good = np.max(np.abs(Q[:, 0] - want)) <= tol and np.max(np.abs(U[:, 0] - wantv)) <= 1e-9 * mv + 3 * ev
    # the rotation applied the other way round: the x axis (instead of the direction of motion) turned onto ... , i.e. x_tail is the component along (vx,-vy,-vz)
    inv = vh * [1, -1, -1]; other = np.max(np.abs(Q[:, 0] - P @ inv)) <= tol and np.max(np.abs(U[:, 0] - W @ inv)) <= 1e-9 * mv + 3 * ev
    mon.ok(good, "to_tail:inverse-rotation" if other else "to_tail:aligned", "%s: the direction of motion does not end up along x (stars moving along it would get x component %r)" % (msg, float(vh @ inv)))
    if meth:
        mon.close(L(cl.r_tail) * T.dims(own(units))[0], np.linalg.norm(P, axis=1), "to_tail:r", 1e-9, 3 * ep, msg); mon.close(L(cl.v_tail) * T.dims(own(units))[1], np.linalg.norm(W, axis=1), "to_tail:v", 1e-9, 3 * ev, msg)
    T.compare(mon, cl, units, origin, "to_tail:cluster", msg=msg); mon.ev("to_tail"); mon.sample(dict(units=units, origin=origin))


QF = 5
WORKLOADS = [("orbital_path", w_path, 90, 1500), ("match", w_match, 110, 2000), ("tail", w_tail, 110, 2000), ("to_tail", w_totail, 90, 2500)]
