"""C22: NBODY6 / NBODY6++ / hdf5 output written by independent writers, loaded and compared with the simulated state."""
import os, shutil, tempfile
import numpy as np
from ctv import nbfiles as nf, derived
import clustertools as ct

RULE = ("Synthetic simulations (1-25 singles, 0-8 binaries varying from snapshot to snapshot, random ids, random header scalings) written in the NBODY6 (OUT3, OUT33, fort.82, fort.83), NBODY6++ (conf.3, bev.82, sev.83) and hdf5 layouts, "
        "loaded (and advanced to the end), compared with the simulated state in N-body units and after conversion to physical units; distinct by format, numbers of stars and files present.")
REQUIRE = {"snapshots": 250, "component radii": 200, "nbody6": 60, "nbody6++": 60, "hdf5": 60, "no binaries": 50, "one binary": 20, "many binaries": 30, "evolution files": 100, "without evolution files": 20, "physical": 150, "end reached": 40, "NaN luminosities": 10, "sorted": 40, "no header": 10, "components": 30}
ASSUMPTIONS = ["record layouts as in the NBODY6 and NBODY6++ output files in the documentation (4-byte record markers, single precision)", "a binary's row carries the type of a component or of its centre of mass",
               "stars whose luminosity is written as NaN count with log L = 0"]


def rows(s):
    """what every row should be: binaries first"""
    return dict(m=np.r_[s.mb, s.m], x=np.r_[s.xb, s.x], v=np.r_[s.vb_, s.v], id=np.r_[s.id1, s.id].astype(int))


def check(mon, cl, s, fmt, se, msg, header=True, zn=True, short=False, rtol=1e-6):
    mon.ev("snapshots"); mon.ev(fmt); mon.ev("no binaries" if s.nb == 0 else "one binary" if s.nb == 1 else "many binaries"); mon.ev("evolution files" if se else "without evolution files")
    mon.seen(fmt, s.ns, s.nb, se, header); n = s.ns + s.nb; r = rows(s)
    if not mon.ok(cl.ntot == n and len(cl.x) == n, fmt + ":number", "%s: %r stars (%d rows), expected %d singles + %d binaries" % (msg, cl.ntot, len(cl.x), s.ns, s.nb)): return
    mon.ok(cl.units == "nbody" and cl.origin == "cluster", fmt + ":labels", "%s units %r origin %r" % (msg, cl.units, cl.origin))
    if fmt != "nbody6" or se: mon.ok(cl.nb == s.nb and cl.ns == s.ns, fmt + ":counts", "%s nb=%r ns=%r, expected %d and %d" % (msg, cl.nb, cl.ns, s.nb, s.ns))
    mon.close(cl.tphys, s.t, fmt + ":time", 1e-6, 0, msg)
    mon.ok(np.array_equal(np.asarray(cl.id), r["id"]), fmt + ":id", "%s ids %r expected %r" % (msg, list(cl.id)[:6], list(r["id"])[:6]))
    if header:
        mon.close([cl.zmbar, cl.rbar, cl.vbar, cl.tbar], [s.zmbar, s.rbar, s.vbar, s.tbar], fmt + ":scale", 1e-7, 0, msg)
        mon.close([cl.rtide, cl.rc, cl.rscale], s.alist[[4, 12, 17]], fmt + ":header", 1e-7, 0, msg); mon.close([cl.xc, cl.yc, cl.zc], s.alist[6:9], fmt + ":header", 1e-6, 0, msg + " density centre")
        mon.close(cl.m, r["m"], fmt + ":m", rtol, 0, msg); mon.close(np.c_[cl.x, cl.y, cl.z], r["x"], fmt + ":x", rtol, 1e-6, msg); mon.close(np.c_[cl.vx, cl.vy, cl.vz], r["v"], fmt + ":v", rtol, 1e-6, msg)
        mon.close(np.sum(cl.m), np.sum(r["m"]), fmt + ":total", 1e-6, 0, msg)
    if se:
        kw = np.asarray(cl.kw); mon.ok(len(kw) == n, fmt + ":types", "%s has %d stellar types for %d stars" % (msg, len(kw), n))
        if len(kw) == n:
            mon.ok(np.array_equal(kw[s.nb:], s.kw), fmt + ":types", "%s types of singles %r expected %r" % (msg, list(kw[s.nb:])[:6], list(s.kw)[:6]))
            mon.ok(all(kw[i] in (s.kw1[i], s.kw2[i], s.kcm[i]) for i in range(s.nb)), fmt + ":types", msg + " types of binaries")
        nl = np.where(s.nan, 0, s.logl) if zn else s.logl; nb = (np.where(s.nanb, 2., 10.0 ** s.logl1 + 10.0 ** s.logl2) if zn else 10.0 ** s.logl1 + 10.0 ** s.logl2) if not short else np.full(s.nb, 2.)
        if mon.ok(len(cl.lum) == n, fmt + ":luminosity", "%s has %d luminosities for %d stars" % (msg, len(cl.lum), n)): mon.close(cl.lum, np.r_[nb, 10.0 ** nl], fmt + ":luminosity", 1e-9, 0, msg)
        mon.close(cl.ltot, np.sum(nb) + np.sum(10.0 ** nl), fmt + ":luminosity", 1e-9, 0, msg + " total"); mon.ev("NaN luminosities", zn and (s.nan.any() or s.nanb.any()))
        for a, w in (("id1", s.id1), ("id2", s.id2), ("kw1", s.kw1), ("kw2", s.kw2), ("kcm", s.kcm)): mon.ok(np.array_equal(np.asarray(getattr(cl, a)), w), fmt + ":binaries", "%s %s" % (msg, a))
        mon.close(cl.ecc, s.ecc, fmt + ":binaries", 1e-9, 0, msg + " eccentricity")
        if fmt != "hdf5":
            z = (lambda x, f: np.where(f, 0., x)) if zn else (lambda x, f: x)
            mon.close(cl.logr[s.nb:], z(s.logr, s.nan), fmt + ":radius", 1e-9, 0, msg + " radii")
            for a, w in (("logl1", s.logl1), ("logl2", s.logl2), ("logr1", s.logr1), ("logr2", s.logr2)):
                if not short and len(getattr(cl, a, ())): mon.close(getattr(cl, a), z(w, s.nanb), fmt + ":components", 1e-9, 0, msg + " " + a); mon.ev("component radii", s.nb > 0)


def binaries(mon, cl, s, fmt, msg):
    """orbital elements in days and solar radii / AU, masses in Msun, after conversion"""
    if not s.nb: return
    if fmt == "hdf5": cl.to_audays(); ms = (s.m1 * s.zmbar, s.m2 * s.zmbar)
    else: cl.to_sudays(); ms = (s.m1s, s.m2s)
    mon.close(cl.semi, 10.0 ** s.loga, fmt + ":semi", 1e-6, 0, msg + " in " + cl.bunits); mon.close(cl.pb, 10.0 ** s.logp, fmt + ":period", 1e-6, 0, msg); mon.close(cl.m1, ms[0], fmt + ":m1", 1e-6, 0, msg); mon.close(cl.m2, ms[1], fmt + ":m2", 1e-6, 0, msg)


def physical(mon, cl, s, fmt, msg, rng):
    u = str(rng.choice(["pckms", "kpckms", "pcmyr"])); L = {"pckms": 1, "kpckms": 1e-3, "pcmyr": 1}[u]; V = {"pckms": 1, "kpckms": 1, "pcmyr": 1.022712165045695}[u]; r = rows(s)
    cl.to_units(u); mon.ev("physical")
    mon.close(cl.m, r["m"] * s.zmbar, fmt + ":physical", 1e-6, 0, msg + " mass in " + u); mon.close(np.c_[cl.x, cl.y, cl.z], r["x"] * s.rbar * L, fmt + ":physical", 1e-6, 1e-6 * s.rbar * L, msg + " position in " + u); mon.close(np.c_[cl.vx, cl.vy, cl.vz], r["v"] * s.vbar * V, fmt + ":physical", 1e-6, 1e-6 * s.vbar, msg + " velocity in " + u)
    return u


def sortchk(mon, cl, s, fmt, full):
    if full and cl.ntot:
        r = derived.plain(cl.r); mon.ev("sorted"); mon.ok(np.all(np.diff(r[np.asarray(cl.rorder)]) >= 0) and len(cl.rorder) == cl.ntot, fmt + ":order", "rorder does not sort the stars by radius")


class Dir(object):
    def __enter__(self): self.d = tempfile.mkdtemp(prefix="ctv-"); return self.d
    def __exit__(self, *a): shutil.rmtree(self.d)


def where(rng, d):
    """a directory for the files and the keywords that lead to it"""
    if rng.random() < .5: return d, dict(wdir=d + ("/" if rng.random() < .5 else ""))
    os.mkdir(os.path.join(d, "out")); return os.path.join(d, "out"), dict(wdir=d, snapdir="out")


def end(mon, cl, fmt, msg):
    mon.ev("end reached"); mon.ok(cl.ntot == 0 and len(cl.x) == 0, fmt + ":end", "%s: %r stars after the last snapshot" % (msg, cl.ntot))


def w_nbody6(mon, rng):
    n = int(rng.integers(1, 4)); snaps = nf.sim(rng, n, singles=0 if rng.random() < .15 else 1); se = rng.random() < .7; bf = any(s.nb for s in snaps) or rng.random() < .6
    with Dir() as d:
        p, kw = where(rng, d); nf.nbody6(p, snaps, se, bf); full = bool(rng.random() < .6)
        cl = ct.load_cluster("nbody6", analyze=full, verbose=False, **kw)
        for k, s in enumerate(snaps):
            msg = "NBODY6 snapshot %d (%d singles, %d binaries%s)" % (k, s.ns, s.nb, ", SSE/BSE files" if se else ""); mon.log(msg)
            check(mon, cl, s, "nbody6", se, msg); sortchk(mon, cl, s, "nbody6", full)
            if bf and s.nb: mon.close([cl.xgc, cl.ygc, cl.zgc, cl.vxgc, cl.vygc, cl.vzgc], s.gc, "nbody6:orbit", 1e-6, 0, msg)
            if s.ns and rng.random() < .6:
                u = physical(mon, cl, s, "nbody6", msg, rng)
                if se: binaries(mon, cl, s, "nbody6", msg)
            cl = ct.advance_cluster(cl, analyze=full, **kw)
        end(mon, cl, "nbody6", "NBODY6")


def w_pp(mon, rng):
    s = nf.sim(rng, 1, singles=0 if rng.random() < .2 else 1, nan=False)[0]; se = rng.random() < .75; short = se and rng.random() < .2
    with Dir() as d:
        p, kw = where(rng, d); label = int(rng.choice([0, 0, 3, 20])); nf.conf3(p, s, label); full = bool(rng.random() < .6)
        if se: nf.ev(p, s, label, rng, short)
        msg = "NBODY6++ conf.3_%d (%d singles, %d binaries%s)" % (label, s.ns, s.nb, ", bev/sev files" if se else ""); mon.log(msg)
        cl = ct.load_cluster(str(rng.choice(["nbody6pp", "nbody6++"])), nsnap=label, analyze=full, verbose=False, **kw)
        check(mon, cl, s, "nbody6++", se, msg, short=short); sortchk(mon, cl, s, "nbody6++", full)
        if cl.ntot == s.ns + s.nb:
            mon.close(cl.pot, np.r_[s.pot1 + s.pot2, s.pot], "nbody6++:potential", 1e-6, 0, msg); mon.close(cl.rhos, np.r_[s.rho1 + s.rho2, s.rho], "nbody6++:rho", 1e-6, 0, msg)
            if cl.units == "nbody":
                r = rows(s); mon.close(cl.kin, .5 * r["m"] * np.sum(r["v"] ** 2, 1), "nbody6++:kinetic", 1e-5, 1e-9, msg); mon.close(cl.etot, np.asarray(cl.kin) + np.asarray(cl.pot), "nbody6++:kinetic", 1e-9, 1e-9, msg + " total energy")
            physical(mon, cl, s, "nbody6++", msg, rng)
            if se: binaries(mon, cl, s, "nbody6++", msg)
        cl = ct.advance_cluster(cl, **kw); end(mon, cl, "nbody6++", "NBODY6++")


def w_h5(mon, rng):
    n = int(rng.integers(1, 4)); snaps = nf.sim(rng, n, nan=False); header = rng.random() < .6
    with Dir() as d:
        p, kw = where(rng, d); nf.hdf5(p, snaps, 0); full = bool(rng.random() < .6)
        if header: nf.conf3(p, snaps[0], 0)
        else: mon.ev("no header")
        cl = ct.load_cluster("nbody6++", hdf5=True, analyze=full, verbose=False, **kw); sc = None
        for k, s in enumerate(snaps):
            msg = "NBODY6++ hdf5 group %d (%d singles, %d binaries%s)" % (k, s.ns, s.nb, "" if header else ", no header"); mon.log(msg)
            if k: s.alist[[4, 6, 7, 8, 12, 17]] = snaps[0].alist[[4, 6, 7, 8, 12, 17]]      # one header per file
            check(mon, cl, s, "hdf5", True, msg, header, zn=False, rtol=1e-5); sortchk(mon, cl, s, "hdf5", full)
            if not header:
                if sc is None: sc = (cl.zmbar, cl.rbar, cl.vbar, cl.tbar)
                mon.close([cl.zmbar, cl.rbar, cl.vbar, cl.tbar], sc, "hdf5:scale", 1e-9, 0, msg + " changed the scaling"); mon.close(cl.zmbar, np.sum(rows(snaps[0])["m"]) * s.zmbar, "hdf5:scale", 1e-6, 0, msg + " mass scale")
                mon.close(cl.vbar ** 2 * cl.rbar / cl.zmbar, 4.302e-3, "hdf5:scale", 2e-3, 0, msg + " G=1")
            if cl.ntot == s.ns + s.nb:
                mon.close(cl.pot, np.r_[s.pot1, s.pot], "hdf5:potential", 1e-6, 0, msg)
                if s.nb:
                    m1, m2 = s.m1[:, None], s.m2[:, None]; mon.ev("components")
                    for a, q in (("", (s.x1 - s.x2) * s.rbar), ("v", (s.v1 - s.v2) * s.vbar)):
                        A, B = [np.c_[[getattr(cl, a + c + k) for c in ("xb", "yb", "zb")]].T for k in "12"]; f = np.sqrt(np.sum((A - B) ** 2) / np.sum(q ** 2))
                        mon.close((A - B) / f, q, "hdf5:components", 1e-6, 1e-9 * np.max(np.abs(q)), msg + " separation of the components"); mon.close(m1 * A, -m2 * B, "hdf5:components", 1e-6, 1e-9 * np.max(np.abs(m1 * A)), msg + " components about their centre of mass")
                physical(mon, cl, s, "hdf5", msg, rng); binaries(mon, cl, s, "hdf5", msg)
            cl = ct.advance_cluster(cl, analyze=full, **kw)
        end(mon, cl, "hdf5", "hdf5")


WORKLOADS = [("nbody6", w_nbody6, 60, 900), ("nbody6pp", w_pp, 110, 1600), ("hdf5", w_h5, 60, 900)]
