"""Generated input files, orbit specifications and settings for the loading checks, with the comparison of what was loaded."""
import os, shutil, tempfile
import numpy as np
from galpy.orbit import Orbit
from galpy.util import conversion
from ctv import gen, derived, pots
import clustertools as ct

L = derived.plain
STATE = ["x", "y", "z", "vx", "vy", "vz", "m", "id", "kw", "tphys", "xc", "yc", "zc", "vxc", "vyc", "vzc", "xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc", "ntot", "mtot", "rm", "rmean", "r", "v", "rorder", "nb", "ns", "lum", "pot", "ecc", "semi", "zmbar", "rbar", "vbar", "tbar"]


class Dir(object):
    def __enter__(self): self.d = tempfile.mkdtemp(prefix="ctv-"); return self.d
    def __exit__(self, *a): shutil.rmtree(self.d)


def same(mon, a, b, mech, msg, skip=(), rt=1e-9):
    """two clusters have the same public state"""
    for k in STATE:
        if k in skip: continue
        p, q = getattr(a, k, None), getattr(b, k, None)
        if p is None or q is None:
            mon.ok(p is None and q is None, mech, "%s: %s is %r, directly loaded %r" % (msg, k, p, q)); continue
        p, q = L(p), L(q)
        if not mon.ok(np.shape(p) == np.shape(q), mech, "%s: %s has shape %s, directly loaded %s" % (msg, k, np.shape(p), np.shape(q))): continue
        if np.size(q): mon.close(p, q, mech, rt, rt * np.max(np.abs(np.asarray(q, float))), "%s: %s against direct load" % (msg, k))
    for k in ("units", "origin", "ctype"): mon.ok(getattr(a, k) == getattr(b, k), mech, "%s: %s is %r, directly loaded %r" % (msg, k, getattr(a, k), getattr(b, k)))
    mon.ev("direct load")


class Settings(object):
    def __init__(self, rng, nbody=False):
        self.kw = {}; self.want = {}
        if rng.random() < .6:
            for k, v in (("ro", float(rng.uniform(7.5, 9))), ("vo", float(rng.uniform(200, 250))), ("zo", float(rng.uniform(0, .1))), ("solarmotion", list(rng.normal(0, 10, 3)))):
                if rng.random() < .8: self.kw[k] = v
        if rng.random() < .3: self.kw["centre_method"] = str(rng.choice(["orthographic", "VandeVen"]))

    def check(self, mon, cl, msg, **more):
        for k, v in dict(self.kw, **more).items():
            a = getattr(cl, {"ro": "_ro", "vo": "_vo", "zo": "_zo", "solarmotion": "_solarmotion"}.get(k, k))
            mon.ok(np.array_equal(a, v) if not isinstance(v, str) else a == v, "settings:" + k, "%s: %s is %r, was loaded with %r" % (msg, k, a, v)); mon.ev("settings")


class Orb(object):
    """orbit information given on every call: a file (handle or name) or a galpy orbit"""
    def __init__(self, mon, rng, S, nsnap, units, dirs, time=None, galpy=True, p=.6, nofile=False, dt=None, name=True):
        self.kind = None; self.rows = None; self.kw = {}; self.handle = None; self.T = gen.Truth([1.], [[0, 0, 0]], [[0, 0, 0]], ro=S.kw.get("ro", 8.275), vo=S.kw.get("vo", 239.23725)); self.units = units; self.mon = mon
        if rng.random() > p or units is None: return
        if galpy and rng.random() < .25 or nofile:
            if not galpy: return
            self.kind = "orbit"; self.o = Orbit([rng.uniform(.5, 2), rng.normal(0, .2), rng.uniform(.7, 1.2), rng.normal(0, .2), rng.normal(0, .2), rng.uniform(0, 6)], ro=self.T.ro, vo=self.T.vo, solarmotion="schoenrich")
            if time is not None:
                self.o.integrate(np.linspace(0, max(time) / 1000. / conv_gyr(self.T) * 1.001 + 1e-6, 2001), pots.POTS["log"])
            self.time = time; mon.ev("galpy orbit"); return
        self.kind = "file"; self.ou = str(rng.choice(["pckms", "kpckms", "pcmyr", "kpcgyr", "galpy", "WDunits"])) if rng.random() < .5 or units == "amuse" else None   # numbers have no AMUSE units of their own
        self.otime = bool(rng.random() < .4); k = nsnap + int(rng.integers(0, 3)); self.rows = np.c_[np.arange(k) * 1.5 + rng.uniform(0, 1), rng.normal(0, 8, (k, 3)), rng.normal(0, 150, (k, 3))]
        names = ["t", "x", "y", "z", "vx", "vy", "vz"]; perm = np.arange(7)
        if rng.random() < .4:
            perm = rng.permutation(7); self.kw["ocol_names"] = [names[j] for j in perm]
            if rng.random() < .5: q = rng.permutation(9)[:7]; self.kw["ocol_nums"] = [int(j) for j in q]
        nums = self.kw.get("ocol_nums", list(range(7))); w = np.full((k, 9), -777.)
        for j, c in zip(perm, nums): w[:, c] = self.rows[:, j]
        if "ocol_nums" not in self.kw: w = w[:, :7]
        for d in dirs: np.savetxt(os.path.join(d, "gc_orbit.dat"), w)
        self.dir = dirs[0]; self.name = bool(name and rng.random() < .5); self.again = bool(rng.random() < .5)
        if self.ou: self.kw["ounits"] = self.ou; mon.ev("orbit units")
        if self.otime: self.kw["otime"] = True; mon.ev("orbit time")
        mon.ev("orbit file")

    def load(self, wdir=True):
        kw = dict(self.kw)
        if self.kind == "orbit": kw["orbit"] = self.o
        if self.kind == "file":
            if self.name: kw["ofilename"] = "gc_orbit.dat" if wdir else os.path.join(self.dir, "gc_orbit.dat")
            else: kw["ofile"] = self.handle = open(os.path.join(self.dir, "gc_orbit.dat"))
        return kw

    def step(self, again=True):
        kw = dict(self.kw)
        if self.kind == "orbit": kw["orbit"] = self.o
        if again and self.kind == "file" and not self.name and self.again and not self.handle.closed: kw["ofile"] = self.handle
        if self.kind == "file" and self.name and self.again: kw["ofilename"] = "gc_orbit.dat"; self.mon.ev("orbit file named again")
        return kw

    def direct(self):
        kw = dict(self.kw)
        if self.kind == "orbit": kw["orbit"] = self.o
        if self.kind == "file": kw["ofile"] = open(os.path.join(self.dir, "gc_orbit.dat"))
        return kw

    def check(self, cl, k, msg, t=None):
        mon = self.mon
        if self.kind is None: return
        g = np.array([float(np.ravel(gen.val(getattr(cl, a), "V" if "v" in a else "L"))[0]) for a in gen.GC]); Lu, Vu, _, Tu = self.T.dims(self.units)
        if self.kind == "file":
            r = self.rows[k]; s = (1, 1, 1)
            if self.ou: d = self.T.dims(self.ou); s = (d[0] / Lu, d[1] / Vu, d[3] / Tu)
            mon.close(g, np.r_[r[1:4] * s[0], r[4:7] * s[1]], "orbit:row", 1e-8, 0, msg + " orbit (row %d of the file)" % k)
            if self.otime: mon.close(gen.val(cl.tphys, "T"), r[0] * s[2], "orbit:time", 1e-8, 0, msg + " time from the orbit file")
        else:
            o = self.o; tt = (0. if t is None else t) / 1000. / (conv_gyr(self.T)); p = np.array([float(np.ravel(f(tt))[0]) for f in (o.x, o.y, o.z)]) * 1000 / Lu; v = np.array([float(np.ravel(f(tt))[0]) for f in (o.vx, o.vy, o.vz)]) / Vu
            mon.close(g, np.r_[p, v], "orbit:galpy", 1e-6, 1e-9 * np.max(np.abs(p)), msg + " galpy orbit at %r Myr" % t)


def conv_gyr(T):
    return conversion.time_in_Gyr(vo=T.vo, ro=T.ro)


def meddle(mon, rng, cl, p=.6):
    """what a user does with a snapshot before going on"""
    if rng.random() > p or cl.ntot == 0: return
    mon.ev("user operations"); names = []
    for k in range(int(rng.integers(1, 4))):
        w = str(rng.choice(["units", "origin", "analyze", "energies", "rlagrange", "sub"]))
        if w == "units" and cl.units not in (None, "amuse"): cl.to_units(str(rng.choice(["pckms", "kpckms", "galpy", "pcmyr"])))
        elif w == "origin" and cl.origin is not None: cl.to_origin(str(rng.choice(gen.ORIGINS)))
        elif w == "analyze": cl.analyze()
        elif w == "energies" and cl.ntot > 1 and cl.units is not None: cl.energies(parallel=False)
        elif w == "rlagrange" and cl.origin is not None: cl.rlagrange(nlagrange=3)
        elif w == "sub": ct.sub_cluster(cl)
        names.append(w)
    mon.log("user:", *names)


def stars(rng, k, n):
    """rows of a snapshot, every value unique"""
    a = np.c_[rng.uniform(.1, 5, n), rng.normal(0, 3, (n, 3)), rng.normal(0, 2, (n, 3))]
    return np.array([[float("%.9g" % q) for q in r] for r in a])


def check(mon, cl, rows, ids, units, origin, mech, msg, kw=None):
    mon.ev("steps"); mon.ev("one star", len(rows) == 1)
    if not mon.ok(cl.ntot == len(rows) and len(cl.x) == len(rows), mech + ":count", "%s: %r stars, the snapshot has %d" % (msg, cl.ntot, len(rows))): return False
    mon.ok(cl.units == units and cl.origin == origin, mech + ":labels", "%s: units %r origin %r, loaded as %r %r" % (msg, cl.units, cl.origin, units, origin))
    year = mech.startswith("amuse") and units in ("pcmyr", "kpcgyr"); sx = 1e-6 * (np.max(np.abs(rows[:, 1:4])) if origin != "galaxy" else np.max(np.abs(rows[:, 1:4])) + 1e-5 * np.linalg.norm(gen.val(cl.xgc, "L"))); g = L(cl.m) if units != "amuse" else np.array([float(gen.val(q, "M")) for q in cl.m])
    ok = mon.close(g, rows[:, 0], mech + ":stars", 1e-9, 0, msg + " masses")
    for j, a in enumerate(gen.STAR):
        g = getattr(cl, a); g = L(g) if units != "amuse" else np.array([float(gen.val(q, "V" if "v" in a else "L")) for q in g]); ok &= mon.close(g, rows[:, 1 + j], mech + ":stars", 1e-4 if year and "v" in a else 1e-8, sx, msg + " " + a)
    if ids is not None: mon.ok(np.array_equal(np.asarray(cl.id).astype(np.int64), np.asarray(ids).astype(np.int64)), mech + ":ids", "%s: ids %r expected %r" % (msg, list(cl.id)[:5], list(ids)[:5]))
    if kw is not None: mon.ok(np.array_equal(L(cl.kw), kw), mech + ":kw", msg + ": stellar types")
    return ok


def layout(mon, rng, d, n, start, cont=.3, snapdir=.35):
    """directory of every snapshot (a cont directory holds the later ones) and keywords"""
    sd = "snaps" if rng.random() < snapdir else ""; j = int(rng.integers(1, n)) if n > 1 and rng.random() < cont else n
    dirs = []
    for k in range(n):
        p = d if k < j else os.path.join(d, "cont"); q = os.path.join(p, sd); os.makedirs(q, exist_ok=True); dirs.append((p, q))
    kw = dict(wdir=d + ("/" if rng.random() < .6 else ""))
    if sd: kw["snapdir"] = sd + ("/" if rng.random() < .5 else "")
    return dirs, kw, j


def nemo(f, t, R, extra=None, head=13):
    lines = ["# s2a in=x out=y", "#", "# Ntot: %d, Nsink: 0, Nstd: %d" % (len(R), len(R)), "# time: %r" % t, "#"]
    lines += ["# line %d" % q for q in range(head - len(lines))]
    f.write("\n".join(lines) + "\n")
    for i, r in enumerate(R): f.write(" ".join("%.12g" % q for q in (list(r) + ([] if extra is None else list(extra[i])))) + "\n")
