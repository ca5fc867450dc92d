"""C19: everything written is parsed back from the bytes on disk and reloaded, against a shadow cluster."""
import os, tempfile
import numpy as np
from ctv import gen, derived
import clustertools as ct

RULE = ("Random clusters (1-40 stars, every unit system and origin incl. sky) written by snapout (energies, types, sky columns, in all combinations), fortout (with evolution file, with rescaling), sseout and gyrout (softening scalar/array, own units); "
        "the bytes are parsed independently and compared with the shadow state, the file is reloaded with load_cluster through random file layouts and written again; distinct by writer/units/origin/options.")
REQUIRE = {"length scale reset": 8, "length scale kept": 4, "snapout": 120, "fortout": 60, "sseout": 30, "gyrout": 60, "reloaded": 200, "energies": 30, "radec columns": 30, "sky files": 15, "no types": 40, "written twice": 100, "converted after reload": 80, "one star": 5,
           "rescaled": 10, "eps": 25, "evolution file": 20}
ASSUMPTIONS = ["fortran-style evolution files carry six decimals", "AMUSE clusters are converted to plain units before they are written", "a file holds no scale factors: they are given again on loading"]


class Dir(object):
    def __enter__(self): self.d = tempfile.mkdtemp(prefix="ctv-"); return self.d
    def __exit__(self, *a):
        for r, ds, fs in os.walk(self.d, topdown=False):
            for f in fs: os.remove(os.path.join(r, f))
            os.rmdir(r)


def draw(rng, **k):
    if "n" not in k and rng.random() < .5: k["n"] = int(rng.integers(2, 40))
    T = gen.truth(rng, **k)
    if rng.random() < .3: T.c[:] = 0; T.vc[:] = 0
    return T


def decorate(cl, T, rng):
    n = T.n; kw = rng.integers(0, 16, n); ep = rng.uniform(0, 100, n); sp = rng.uniform(0, 50, n)
    cl.add_sse(kw.copy(), rng.normal(0, 1, n), rng.normal(0, 1, n), ep.copy(), sp.copy())
    return kw, ep, sp


def unchanged(mon, cl, before, mech, msg):
    big = {a: max(np.max(np.abs(before[k]), initial=0) for k in ks) for a, ks in (("v", ("vx", "vy", "vz", "vxgc", "vygc", "vzgc", "vxc", "vyc", "vzc")), ("x", ("x", "y", "z", "xgc", "ygc", "zgc", "xc", "yc", "zc")))}
    for k, w in before.items():
        g = getattr(cl, k)
        if isinstance(w, str): mon.ok(g == w, mech, "%s changed %s to %r" % (msg, k, g))
        else: mon.close(derived.plain(g), w, mech, 1e-9, 1e-12 * (0 if k in ("m", "id", "kw") else big["v"] if k[0] == "v" else big["x"]), "%s changed %s" % (msg, k))


def state(cl):
    s = {k: derived.plain(getattr(cl, k)).copy() for k in gen.STAR + ["m", "id", "kw"] + gen.GC + gen.C0}; s.update(units=cl.units, origin=cl.origin); return s


def layout(rng, d, name):
    """a file location and the keywords that lead to it"""
    w = int(rng.integers(4)); sub = "snaps"
    if w == 0: return os.path.join(d, name), dict(filename=os.path.join(d, name))
    if w == 1: return os.path.join(d, name), dict(filename=name, wdir=d + ("/" if rng.random() < .5 else ""))
    os.makedirs(os.path.join(d, sub))
    if w == 2: return os.path.join(d, sub, name), dict(filename=name, wdir=d, snapdir=sub + ("/" if rng.random() < .5 else ""))
    k = int(rng.integers(0, 300)); z = int(rng.choice([1, 3, 5])); return os.path.join(d, sub, "run" + str(k).zfill(z) + ".snap"), dict(wdir=d, snapdir=sub, snapbase="run", snapend=".snap", nsnap=k, nzfill=z)


def w_snap(mon, rng):
    T = draw(rng, n=1) if rng.random() < .06 else draw(rng); units = str(rng.choice(gen.UNITS)); origin = str(rng.choice(gen.ORIGINS)); mon.ev("one star", T.n == 1)
    cl = T.build(units, origin); kw = None
    types = rng.random() < .6; energies = T.n > 1 and rng.random() < .4; radec = rng.random() < .4; sky = rng.random() < .2 and T.n > 1
    if types: kw = decorate(cl, T, rng)[0]
    if energies: cl.energies(); E = [derived.plain(x).copy() for x in (cl.kin, cl.pot, cl.etot)]
    if sky: cl.to_radec(); units, origin = cl.units, cl.origin; mon.ev("sky files")
    if radec: S = np.array(ct.sky_coords(cl), float)
    before = state(cl); msg = "snapout(%s%s) of %s/%s%s" % ("energies " if energies else "", "radec" if radec else "", units, origin, " with types" if types else ""); mon.log(msg); mon.seen("snap", units, origin, types, energies, radec, T.n == 1)
    dims = T.dims("kpckms" if sky else units); sx = 1e-12 * (np.max(np.abs(T.pos)) + np.max(np.abs(T.gc))) / dims[0]; sv = 1e-12 * (np.max(np.abs(T.vel)) + np.max(np.abs(T.vgc))) / dims[1]
    slack = lambda k: (0. if not radec or k in ("id", "kw") else 1e-9 if sky else sv if k[0] == "v" else 0. if k == "m" else sx)
    with Dir() as d:
        path, kws = layout(rng, d, "s.dat")
        ct.snapout(cl, path, energies=energies, radec=radec); mon.ev("snapout")
        unchanged(mon, cl, before, "snapout:state", msg)
        raw = np.loadtxt(path, ndmin=2); names = ["m", "x", "y", "z", "vx", "vy", "vz", "id"] + (["kw"] if types else []) + (["kin", "pot", "etot"] if energies else []) + (["ra", "dec", "dist", "pmra", "pmdec", "vlos"] if radec else [])
        mon.ev("energies", energies); mon.ev("radec columns", radec); mon.ev("no types", not types)
        if not mon.ok(raw.shape == (T.n, len(names)), "snapout:shape", "%s wrote %r, expected %d stars x %d columns" % (msg, raw.shape, T.n, len(names))): return
        for i, k in enumerate(names[:8]): mon.close(raw[:, i], before[k], "snapout:" + k, 1e-12 if radec else 1e-14, slack(k), msg + " column " + k)
        if not sky:
            e = T.expect(units, origin); mon.close(raw[:, 1:4], e["pos"], "snapout:truth", 1e-9, 1e-11 * np.max(np.abs(e["pos"])) + (10 * sx if radec else 0), msg); mon.close(raw[:, 0], e["m"], "snapout:truth", 1e-12, 0, msg); mon.ok(np.array_equal(raw[:, 7], T.ids), "snapout:truth", msg + " ids")
        c = 8
        if types: mon.ok(np.array_equal(raw[:, 8], kw), "snapout:kw", msg); c = 9
        if energies: mon.close(raw[:, c:c + 3].T, E, "snapout:energies", 1e-14, 0, msg); c += 3
        if radec: mon.close(raw[:, c:c + 6].T, S, "snapout:radec", 1e-12, 1e-12, msg)
        # reload: columns asked for in any order
        cols = ["m", "x", "y", "z", "vx", "vy", "vz", "id"] + (["kw"] if types else []); o = [int(k) for k in rng.permutation(len(cols))]
        full = not sky and rng.random() < .5
        new = ct.load_cluster("snapshot", units=units, origin=origin, col_names=[cols[k] for k in o], col_nums=o, ro=T.ro, vo=T.vo, zo=T.zo, solarmotion=T.sm, analyze=full, **kws); mon.ev("reloaded")
        mon.ok(new.units == units and new.origin == origin and new.ntot == T.n, "reload:labels", "%s reloaded as %r %r with %r stars" % (msg, new.units, new.origin, new.ntot))
        if new.ntot != T.n: return
        for k in cols: mon.close(derived.plain(getattr(new, k)), before[k], "reload:" + k, 1e-12, 1e-12 * np.max(np.abs(before[k])) + slack(k), "%s reloaded %s" % (msg, k))
        if T.n > 1 and not sky and units != "nbody":
            ref = T.expect("pckms", origin); new.to_pckms(); mon.ev("converted after reload")
            P = np.c_[new.x, new.y, new.z]; mon.close(P, ref["pos"], "reload:physical", 1e-9, 1e-10 * np.max(np.abs(ref["pos"])), msg + " reloaded and converted"); mon.close(np.c_[new.vx, new.vy, new.vz], ref["vel"], "reload:physical", 1e-9, 1e-10 * np.max(np.abs(ref["vel"])), msg); mon.close(new.m, ref["m"], "reload:physical", 1e-9, 0, msg)
            new.to_units(units)
        p2 = os.path.join(d, "again"); ct.snapout(new, p2); b = np.loadtxt(p2, ndmin=2); mon.ev("written twice")
        mon.close(b, raw[:, :b.shape[1]], "rewrite", 1e-12, 1e-11 * np.max(np.abs(raw[:, :7])), msg + " written again"); mon.ok(b.shape[1] == len(cols), "rewrite", "%s written again has %d columns" % (msg, b.shape[1]))
    mon.sample(dict(writer="snapout", units=units, origin=origin, n=T.n, columns=names))


def w_fort(mon, rng):
    T = draw(rng); units = str(rng.choice(gen.UNITS)); origin = str(rng.choice(gen.ORIGINS)); cl = T.build(units, origin); sse = rng.random() < .5; m0 = 10 ** rng.uniform(-1, 2, T.n); reset = T.n > 2 and rng.random() < .35
    if sse: kw, ep, sp = decorate(cl, T, rng); cl.m0 = m0.copy()
    kr = {k: bool(rng.random() < .5) for k in ("reset_nbody_mass", "reset_nbody_radii") if rng.random() < .5} if reset else {}; old = (cl.zmbar, cl.rbar)
    msg = "fortout(sse=%r, reset=%r, %r) of %s/%s" % (sse, reset, kr, units, origin); mon.log(msg); mon.seen("fort", units, origin, sse, reset); before = state(cl)
    with Dir() as d:
        cl.wdir = d + ("/" if rng.random() < .6 else "")
        ct.fortout(cl, filename="fort.10", sse=sse, sse_filename="fort.12", reset_nbody=reset, **kr); mon.ev("fortout")
        if not mon.ok(os.path.isfile(os.path.join(d, "fort.10")), "fortout:where", "%s with wdir=%r wrote no fort.10 there: %r" % (msg, cl.wdir, os.listdir(d))): return
        raw = np.loadtxt(os.path.join(d, "fort.10"), ndmin=2); mon.ok(raw.shape == (T.n, 7), "fortout:shape", "%s %r" % (msg, raw.shape))
        if reset:
            mon.ev("rescaled"); T.scale = (cl.zmbar, cl.rbar, cl.vbar, cl.tbar); wm = np.sum(T.m) if kr.get("reset_nbody_mass", True) else old[0]
            mon.close(cl.zmbar, wm, "fortout:reset", 1e-9, 0, msg); mon.close(raw[:, 0].sum() * wm, np.sum(T.m), "fortout:reset", 1e-9, 0, msg + " total mass")
            if not kr.get("reset_nbody_radii", True): mon.close(cl.rbar, old[1], "fortout:reset", 1e-12, 0, msg + " length scale kept"); mon.ev("length scale kept")
            elif not cl.projected:
                p = T.pos; D = np.sqrt(np.sum((p[:, None, :] - p[None, :, :]) ** 2, axis=2)); np.fill_diagonal(D, np.inf)
                mon.close(cl.rbar, np.sum(T.m) ** 2 / np.sum(T.m[:, None] * T.m[None, :] / D), "fortout:reset", 1e-4 if origin in ("galaxy", "sky") else 1e-7, 0, msg + " length scale"); mon.ev("length scale reset")
        e = T.expect("nbody", "centre")
        want = np.c_[e["m"], e["pos"], e["vel"]]; big = (np.max(np.abs(T.pos)) + np.max(np.abs(T.gc))) / T.scale[1]; bv = (np.max(np.abs(T.vel)) + np.max(np.abs(T.vgc))) / T.scale[2]
        mon.close(raw[:, 0], want[:, 0], "fortout:m", 1e-9, 0, msg); mon.close(raw[:, 1:4], want[:, 1:4], "fortout:pos", 1e-9, 1e-11 * big, msg); mon.close(raw[:, 4:], want[:, 4:], "fortout:vel", 1e-9, 1e-11 * bv, msg)
        if reset: T.compare(mon, cl, units, origin, "fortout:state", msg=msg)
        else: unchanged(mon, cl, before, "fortout:state", msg)
        if sse:
            mon.ev("evolution file"); s = np.loadtxt(os.path.join(d, "fort.12"), ndmin=2)
            mon.close(s, np.c_[m0, kw, T.m, ep, sp], "fortout:evolution", 1e-9, 1e-6, msg)
        new = ct.load_cluster("snapshot", units="nbody", origin="centre", filename="fort.10", wdir=d, analyze=bool(rng.random() < .5)); mon.ev("reloaded")
        zm, rb, vb, tb = T.scale; new.add_nbody6(rbar=rb, zmbar=zm, vbar=vb, tbar=tb); new.xcn = new.ycn = new.zcn = None
        mon.close(np.c_[new.m, new.x, new.y, new.z, new.vx, new.vy, new.vz], raw, "fortout:reload", 1e-14, 0, msg)
        new.to_pckms(analyze=False); mon.ev("converted after reload"); e = T.expect("pckms", "centre")
        mon.close(np.c_[new.x, new.y, new.z], e["pos"], "fortout:physical", 1e-9, 1e-11 * big * rb, msg); mon.close(np.c_[new.vx, new.vy, new.vz], e["vel"], "fortout:physical", 1e-9, 1e-11 * bv * vb, msg); mon.close(new.m, e["m"], "fortout:physical", 1e-9, 0, msg)


def w_gyr(mon, rng):
    T = draw(rng); units = str(rng.choice(gen.UNITS)); origin = str(rng.choice(gen.ORIGINS)); cl = T.build(units, origin); before = state(cl); k = {}; eps = None; L = T.dims(units)[0]
    if rng.random() < .6:
        mon.ev("eps"); eps = 10 ** rng.uniform(-3, 0, T.n) if rng.random() < .5 else 10 ** rng.uniform(-3, 0)
        eu = str(rng.choice(["", "pckms", "kpckms", "nbody"])); k["eps"] = eps / (T.dims(eu)[0] if eu else L)
        if np.ndim(eps) == 0 and rng.random() < .4: k["eps"] = int(rng.choice([1, 2])); eps = k["eps"] * (T.dims(eu)[0] if eu else L)
        if eu: k["epsunits"] = eu
        if np.ndim(eps): given = k["eps"].copy()
    msg = "gyrout(%s) of %s/%s" % ({a: b if np.ndim(b) == 0 else "array" for a, b in k.items()}, units, origin); mon.log(msg); mon.seen("gyr", units, origin, sorted(k), np.ndim(eps) if eps is not None else -1)
    with Dir() as d:
        p = os.path.join(d, "init.nemo.dat"); ct.gyrout(cl, filename=p, **k); mon.ev("gyrout"); unchanged(mon, cl, before, "gyrout:state", msg)
        if eps is not None and np.ndim(eps): mon.ok(np.array_equal(k["eps"], given), "gyrout:eps-argument", msg + " changed the softening lengths it was given")
        raw = np.loadtxt(p, ndmin=2)
        if not mon.ok(raw.shape == (T.n, 8 if k else 7), "gyrout:shape", "%s wrote %r" % (msg, raw.shape)): return
        if k: mon.close(raw[:, 7], np.ones(T.n) * eps / 1000., "gyrout:eps", 1e-9, 0, msg)
        new = ct.load_cluster("snapshot", units="WDunits", origin="galaxy", filename=p, ro=T.ro, vo=T.vo, analyze=bool(rng.random() < .5)); mon.ev("reloaded")
        e = T.expect("pckms", "galaxy"); new.to_pckms(analyze=False); mon.ev("converted after reload")
        ap = 1e-10 * (np.max(np.abs(e["pos"])) + np.max(np.abs(T.gc))); av = 1e-10 * (np.max(np.abs(e["vel"])) + np.max(np.abs(T.vgc)))
        mon.close(np.c_[new.x, new.y, new.z], e["pos"], "gyrout:pos", 1e-9, ap, msg); mon.close(np.c_[new.vx, new.vy, new.vz], e["vel"], "gyrout:vel", 1e-9, av, msg + " velocities"); mon.close(new.m, e["m"], "gyrout:m", 1e-9, 0, msg)


def w_sse(mon, rng):
    T = draw(rng); units = str(rng.choice(gen.UNITS)); origin = str(rng.choice(gen.ORIGINS)); cl = T.build(units, origin); kw, ep, sp = decorate(cl, T, rng); m0 = 10 ** rng.uniform(-1, 2, T.n); cl.m0 = m0.copy(); before = state(cl); msg = "sseout of %s/%s" % (units, origin)
    with Dir() as d:
        p = os.path.join(d, "s"); ct.sseout(cl, p); mon.ev("sseout"); mon.seen("sse", units, origin); unchanged(mon, cl, before, "sseout:state", msg)
        raw = np.loadtxt(p, ndmin=2); mon.ok(raw.shape == (T.n, 5), "sseout:shape", msg)
        mon.close(raw, np.c_[m0, kw, T.m, ep, sp], "sseout:columns", 1e-9, 1e-6, msg); mon.close(cl.m0, m0, "sseout:state", 1e-12, 0, msg)


WORKLOADS = [("snap", w_snap, 180, 2600), ("fort", w_fort, 80, 1300), ("gyr", w_gyr, 80, 1300), ("sse", w_sse, 40, 500)]
