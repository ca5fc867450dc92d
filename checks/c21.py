"""C21: sequences of snapshots advanced to their end: every snapshot once, in order, equal to the one loaded directly, settings carried over."""
import os, shutil
import numpy as np
from ctv import gen, nbfiles as nf
from ctv.loads import Dir, Settings, Orb, same, check, stars, meddle, layout, nemo
import clustertools as ct

RULE = ("Synthetic simulations of 1-6 snapshots (1-12 stars, numbers varying, every value unique) in numbered text files, NEMO streams and numbered files, AMUSE files, NBODY6, NBODY6++ (conf.3 and hdf5 groups/files) and user load functions, with random file layouts, "
        "starting snapshots, units, origins, orbit files or orbits, solar positions, cont directories and user operations between steps; advanced past their end; every returned cluster compared with the snapshot written and with a direct load; distinct by format and options.")
REQUIRE = {"steps": 1500, "snapshot": 60, "nemo": 20, "new_nemo": 20, "numbered nemo": 8, "amuse": 8, "nbody6": 20, "nbody6++": 20, "hdf5": 20, "hdf5 files": 8, "custom": 30, "end reached": 200, "cont": 40, "cont of stream": 8, "orbit file": 150, "orbit units": 80, "orbit time": 50,
           "galpy orbit": 25, "direct load": 300, "user operations": 300, "settings": 500, "start later": 40, "by file name": 20, "one star": 20, "permuted columns": 60}
ASSUMPTIONS = ["the keywords that describe columns and orbits are given again on every call, as documented", "new_nemo files hold a constant number of stars and equal time steps", "an orbit file has one row per snapshot, counted from snapshot 0, in every directory",
               "within one hdf5 simulation without header the first snapshot's scale is kept"]


def ended(mon, cl, mech, msg):
    mon.ev("end reached"); mon.ok(cl.ntot == 0 and len(cl.x) == 0, mech + ":end", "%s: %r stars after the last snapshot" % (msg, cl.ntot))


def w_snap(mon, rng):
    n = int(rng.integers(1, 6)); s0 = int(rng.choice([0, 0, 1, 7, 98])); units = str(rng.choice(gen.UNITS)) if rng.random() < .92 else None; origin = str(rng.choice(gen.ORIGINS)) if units and rng.random() < .9 else None
    S = Settings(rng); fixed = {}
    with Dir() as d:
        named = rng.random() < .12; dirs, kw, j = layout(mon, rng, d, n, s0, cont=0 if named else .35)
        if rng.random() < .5: kw["snapbase"] = fixed["snapbase"] = "run_"
        if rng.random() < .5: kw["snapend"] = fixed["snapend"] = str(rng.choice([".txt", "", ".csv"]))
        if rng.random() < .4: kw["nzfill"] = fixed["nzfill"] = int(rng.integers(1, 8))
        if rng.random() < .3: kw["delimiter"] = fixed["delimiter"] = ","
        if rng.random() < .4: kw["skiprows"] = fixed["skiprows"] = int(rng.integers(1, 4))
        # columns
        names = ["m", "x", "y", "z", "vx", "vy", "vz"]; cols = {}; hasid = rng.random() < .5; haskw = rng.random() < .4
        if hasid or haskw or rng.random() < .5:
            names = names + ["id"] * hasid + ["kw"] * haskw; names = [names[q] for q in rng.permutation(len(names))]; nums = [int(q) for q in rng.permutation(len(names) + 2)[:len(names)]]
            cols = dict(col_names=names, col_nums=nums); mon.ev("permuted columns")
        else: nums = list(range(7))
        snaps = []
        for k in range(n):
            m = int(rng.choice([1, int(rng.integers(2, 13))], p=[.1, .9])); R = stars(rng, k, m); ids = rng.permutation(9999)[:m] + 1 if hasid else np.arange(1, m + 1); ty = rng.integers(0, 15, m) if haskw else None; w = np.full((m, max(nums) + 1), -999.)
            for a, c in zip(names, nums): w[:, c] = ids if a == "id" else ty if a == "kw" else R[:, ["m", "x", "y", "z", "vx", "vy", "vz"].index(a)]
            snaps.append((R, ids if hasid else None, ty)); num = str(s0 + k).zfill(kw.get("nzfill", 5))
            f = os.path.join(dirs[k][1], "%s%s%s" % (kw.get("snapbase", ""), num, kw.get("snapend", ".dat")))
            with open(f, "w") as h:
                for q in range(kw.get("skiprows", 0)): h.write("header line %d, 1 2 3\n" % q)
                for row in w: h.write((kw.get("delimiter") or " ").join("%.12g" % q for q in row) + "\n")
        O = Orb(mon, rng, S, s0 + n, units if origin else None, sorted({p for p, q in dirs}, key=len)); kw.update(S.kw)
        if rng.random() < .2: kw["analyze"] = False; cols["analyze"] = False
        if s0: kw["nsnap"] = s0; mon.ev("start later")
        msg0 = "text snapshots %d-%d%s in %s/%s%s" % (s0, s0 + n - 1, " (from %d in cont)" % (s0 + j) if j < n else "", units, origin, ", orbit " + str(O.kind) if O.kind else ""); mon.log(msg0, sorted(kw), sorted(cols)); mon.seen("snapshot", units, origin, O.kind, sorted(kw), j < n); mon.ev("snapshot"); mon.ev("cont", j < n); mon.ev("by file name", named)
        fn = lambda k: dict(filename="%s%s%s" % (kw.get("snapbase", ""), str(s0 + k).zfill(kw.get("nzfill", 5)), kw.get("snapend", ".dat"))) if named else {}
        cl = ct.load_cluster("snapshot", units=units, origin=origin, **fn(0), **O.load(), **cols, **{k: v for k, v in kw.items() if k not in cols})
        for k in range(n):
            msg = "%s: snapshot %d" % (msg0, s0 + k); R, ids, ty = snaps[k]
            if k: S.check(mon, cl, msg, nsnap=s0 + k, **fixed)
            if check(mon, cl, R, ids, units, origin, "snapshot" + (":cont" if k >= j else ""), msg, ty):
                O.check(cl, s0 + k, msg)
                if rng.random() < .5:
                    dk = dict(kw); dk["nsnap"] = s0 + k; dk["wdir"] = dirs[k][0] + "/"
                    same(mon, cl, ct.load_cluster("snapshot", units=units, origin=origin, **fn(k), **O.direct(), **cols, **{a: v for a, v in dk.items() if a not in cols}), "snapshot:direct", msg)
            else: return
            meddle(mon, rng, cl)
            cl = ct.advance_cluster(cl, **fn(k + 1), **O.step(k < j), **cols)
        ended(mon, cl, "snapshot", msg0)


def w_nemo(mon, rng):
    new = bool(rng.random() < .5); num = bool(not new and rng.random() < .35); n = int(rng.integers(1, 6)); units = str(rng.choice(gen.UNITS)); origin = str(rng.choice(gen.ORIGINS)); S = Settings(rng)
    give = str(rng.choice(["mxv", "mxve", "mxvpqael"])); ne = {"mxv": 0, "mxve": 1, "mxvpqael": 5}[give]; dt = float("%.6g" % rng.uniform(.1, 3)); t0 = 0. if new and rng.random() < .7 else float("%.6g" % rng.uniform(0, 5)); m0 = int(rng.integers(1, 13))
    ct_ = ("new_nemo" if rng.random() < .5 else "new_gyrfalcon") if new else ("nemo" if rng.random() < .5 else "gyrfalcon"); mech = "new_nemo" if new else "numbered nemo" if num else "nemo"
    snaps = [(t0 + k * dt, stars(rng, k, m0 if new else int(rng.integers(1, 13)))) for k in range(n)]; extra = [np.round(rng.normal(0, 1, (len(s[1]), ne)), 6) for s in snaps]
    with Dir() as d:
        kw = dict(wdir=d + "/"); kw.update(S.kw)
        if give != "mxv": kw["give"] = give
        if num: 
            for k, s in enumerate(snaps):
                with open(os.path.join(d, "g_%s.nemo" % str(k).zfill(5)), "w") as f: nemo(f, s[0], s[1], extra[k])
            fkw = dict(snapbase="g_", snapend=".nemo")
        else:
            with open(os.path.join(d, "stream.nemo"), "w") as f:
                for k, s in enumerate(snaps): nemo(f, s[0], s[1], extra[k])
            fkw = dict(filename=str(rng.choice(["stream.nemo", os.path.join(d, "stream.nemo")])))
        T = gen.Truth([1.], [[0, 0, 0]], [[0, 0, 0]], ro=S.kw.get("ro", 8.275), vo=S.kw.get("vo", 239.23725)); Tu = T.dims(units)[3]
        O = Orb(mon, rng, S, n, units, [d], time=[s[0] * Tu for s in snaps] if max(s[0] * Tu for s in snaps) < 3000 else None, galpy=max(s[0] * Tu for s in snaps) < 3000)
        step = {}
        if new and rng.random() < .5: step["dt"] = dt
        if new and rng.random() < .4: step["filename"] = os.path.join(d, "stream.nemo")
        msg0 = "%s of %d snapshots (%s) in %s/%s%s" % (mech, n, give, units, origin, ", orbit " + O.kind if O.kind else ""); mon.log(msg0, sorted(S.kw), sorted(step)); mon.seen(mech, units, origin, give, O.kind, sorted(step)); mon.ev(mech)
        cl = ct.load_cluster(ct_, units=units, origin=origin, **fkw, **kw, **O.load())
        for k, (t, R) in enumerate(snaps):
            msg = "%s: snapshot %d" % (msg0, k)
            if not check(mon, cl, R, np.arange(len(R)) + (0 if new else 1), units, origin, mech, msg): return
            if not (O.kind == "file" and O.otime): mon.close(cl.tphys, t, mech + ":time", 1e-9, 1e-12, msg + " time")
            if k: S.check(mon, cl, msg, nsnap=k, give=give)
            if ne: mon.close(cl.eps, extra[k][:, 0 if ne == 1 else 3], mech + ":give", 1e-9, 0, msg + " softening")
            if ne == 5:
                for j, a in enumerate(("gyrpot", "gyrq", "gyracc", "eps", "gyrlev")): mon.close(getattr(cl, a), extra[k][:, j], mech + ":give", 1e-9, 0, msg + " " + a)
            O.check(cl, k, msg, t * Tu)
            if rng.random() < .5:
                p = os.path.join(d, "one.nemo")
                with open(p, "w") as f: nemo(f, t, R, extra[k])
                same(mon, cl, ct.load_cluster(ct_, units=units, origin=origin, filename=p, nsnap=k, **kw, **O.direct()), mech + ":direct", msg, skip=("tphys",) if O.kind == "file" and O.otime else ())
                os.remove(p)
            meddle(mon, rng, cl)
            cl = ct.advance_cluster(cl, **step, **O.step())
        ended(mon, cl, mech, msg0)


def w_amuse(mon, rng):
    if not gen.HAVE_AMUSE: return
    import amuse.units.units as u
    from amuse.datamodel import Particles
    from amuse.io import write_set_to_file
    n = int(rng.integers(1, 4)); units = str(rng.choice(["pckms", "kpckms", "pcmyr", "galpy", "amuse"])) if rng.random() < .85 else None; origin = str(rng.choice(["cluster", "centre"])) if units else None; S = Settings(rng); s0 = int(rng.choice([0, 0, 5]))
    T = gen.Truth([1.], [[0, 0, 0]], [[0, 0, 0]], ro=S.kw.get("ro", 8.275), vo=S.kw.get("vo", 239.23725)); snaps = []
    with Dir() as d:
        dirs, kw, j = layout(mon, rng, d, n, s0); kw.update(snapbase="p", snapend=".hdf5")
        for k in range(n):
            R = stars(rng, k, int(rng.integers(1, 9))); snaps.append(R); p = Particles(len(R)); Lu, Vu, Mu, _ = T.dims(units or "amuse")
            p.mass = R[:, 0] * Mu | u.MSun
            for q, a in enumerate("xyz"): setattr(p, a, R[:, 1 + q] * Lu | u.parsec); setattr(p, "v" + a, R[:, 4 + q] * Vu | u.kms)
            snaps[-1] = (R, np.array(p.key)); write_set_to_file(p, os.path.join(dirs[k][1], "p%05d.hdf5" % (s0 + k)), "hdf5")
        if s0: kw["nsnap"] = s0; mon.ev("start later")
        O = Orb(mon, rng, S, s0 + n, units if units != "amuse" else None, sorted({p for p, q in dirs}, key=len), galpy=False)
        msg0 = "AMUSE files %d-%d in %s/%s" % (s0, s0 + n - 1, units, origin); mon.log(msg0, sorted(kw), O.kind); mon.seen("amuse", units, origin, O.kind, j < n); mon.ev("amuse"); mon.ev("cont", j < n)
        cl = ct.load_cluster("amuse", units=units, origin=origin, **kw, **S.kw, **O.load())
        for k, (R, ids) in enumerate(snaps):
            msg = "%s: snapshot %d" % (msg0, s0 + k)
            if not check(mon, cl, R, ids, units or "amuse", origin, "amuse" + (":cont" if k >= j else ""), msg): return
            if k: S.check(mon, cl, msg, nsnap=s0 + k)
            O.check(cl, s0 + k, msg); meddle(mon, rng, cl)
            cl = ct.advance_cluster(cl, **O.step(k < j))
        ended(mon, cl, "amuse", msg0)


def nbrows(s):
    return np.c_[np.r_[s.mb, s.m], np.r_[s.xb, s.x], np.r_[s.vb_, s.v]], np.r_[s.id1, s.id].astype(int)


def nbcheck(mon, cl, s, mech, msg, loose=False):
    mon.ev("steps"); R, ids = nbrows(s)
    if not mon.ok(cl.ntot == len(R) and len(cl.x) == len(R) and np.array_equal(np.asarray(cl.id), ids), mech + ":stars", "%s: %r stars with ids %r, the snapshot has %d: %r" % (msg, cl.ntot, list(cl.id)[:5], len(R), list(ids)[:5])): return False
    mon.ok(cl.units == "nbody" and cl.origin == "cluster", mech + ":labels", "%s units %r origin %r" % (msg, cl.units, cl.origin)); ok = mon.close(cl.tphys, s.t, mech + ":time", 1e-6, 0, msg + " time")
    if not loose: ok &= mon.close(cl.m, R[:, 0], mech + ":stars", 1e-5, 0, msg + " masses") & mon.close(np.c_[cl.x, cl.y, cl.z], R[:, 1:4], mech + ":stars", 1e-5, 1e-5, msg + " positions")
    return ok


class NbOrb(object):
    """an orbit file in its own units for NBODY runs, whose length unit is the snapshot's"""
    def __init__(self, mon, rng, k, dirs, p=.5):
        self.rows = None
        if rng.random() > p: return
        self.rows = np.c_[np.arange(k) * 2. + 1, rng.normal(0, 8, (k, 3)), rng.normal(0, 150, (k, 3))]; self.dir = dirs[0]; mon.ev("orbit file"); mon.ev("orbit units")
        for d in dirs: np.savetxt(os.path.join(d, "gc_orbit.dat"), self.rows)
        self.name = bool(rng.random() < .5)

    def load(self):
        if self.rows is None: return {}
        return dict(ounits="kpckms", ofilename="gc_orbit.dat") if self.name else dict(ounits="kpckms", ofile=open(os.path.join(self.dir, "gc_orbit.dat")))

    def step(self): return {} if self.rows is None else dict(ounits="kpckms")

    def check(self, mon, cl, k, mech, msg):
        if self.rows is None: return
        g = np.array([float(getattr(cl, a)) for a in gen.GC]); mon.close(g, np.r_[self.rows[k, 1:4] * 1000 / cl.rbar, self.rows[k, 4:] / cl.vbar], mech + ":orbit", 1e-8, 0, msg + " orbit (row %d)" % k)


def w_nbody6(mon, rng):
    n = int(rng.integers(1, 5)); snaps = nf.sim(rng, n, nmax=8); S = Settings(rng); se = rng.random() < .6
    with Dir() as d:
        j = int(rng.integers(1, n)) if n > 1 and rng.random() < .4 else n; nf.nbody6(d, snaps[:j], se); kw = dict(wdir=d + "/")
        if j < n: os.mkdir(os.path.join(d, "cont")); nf.nbody6(os.path.join(d, "cont"), snaps[j:], se); mon.ev("cont"); mon.ev("cont of stream")
        O = NbOrb(mon, rng, n, [d], p=.6 if j == n else 0); msg0 = "NBODY6 run of %d snapshots%s" % (n, " (from %d in cont)" % j if j < n else ""); mon.log(msg0, sorted(S.kw)); mon.seen("nbody6", n, j, se, O.rows is None); mon.ev("nbody6")
        cl = ct.load_cluster("nbody6", verbose=False, **kw, **S.kw, **O.load())
        for k, s in enumerate(snaps):
            msg = "%s: snapshot %d" % (msg0, k)
            if not nbcheck(mon, cl, s, "nbody6" + (":cont" if k >= j else ""), msg): return
            if k: S.check(mon, cl, msg)
            O.check(mon, cl, k, "nbody6", msg)
            if rng.random() < .4 and O.rows is None:
                p = os.path.join(d, "one"); os.mkdir(p); nf.nbody6(p, [s], se); same(mon, cl, ct.load_cluster("nbody6", verbose=False, wdir=p, **S.kw), "nbody6:direct", msg); shutil.rmtree(p)
            meddle(mon, rng, cl)
            cl = ct.advance_cluster(cl, **dict(kw, wdir=kw["wdir"] if k + 1 <= j else os.path.join(d, "cont/")), **O.step())
        ended(mon, cl, "nbody6", msg0)


def w_pp(mon, rng):
    n = int(rng.integers(1, 5)); dt = int(rng.choice([1, 1, 2, 20])); s0 = int(rng.choice([0, 0, 3])); snaps = nf.sim(rng, n, nmax=8, nan=False); S = Settings(rng); se = rng.random() < .6
    with Dir() as d:
        dirs, kw, j = layout(mon, rng, d, n, s0)
        for k, s in enumerate(snaps):
            nf.conf3(dirs[k][1], s, (s0 + k) * dt)
            if se: nf.ev(dirs[k][1], s, (s0 + k) * dt, rng)
        O = NbOrb(mon, rng, s0 + n, sorted({p for p, q in dirs}, key=len)); msg0 = "NBODY6++ snapshots %d-%d by %d%s" % (s0 * dt, (s0 + n - 1) * dt, dt, " (from %d in cont)" % ((s0 + j) * dt) if j < n else ""); mon.log(msg0, sorted(kw), sorted(S.kw)); mon.seen("nbody6++", n, j < n, dt, s0, se); mon.ev("nbody6++"); mon.ev("cont", j < n); mon.ev("start later", s0 > 0)
        st = {str(rng.choice(["dtout", "deltat"])): dt} if dt != 1 or rng.random() < .3 else {}
        load = lambda k, w: ct.load_cluster(str(rng.choice(["nbody6pp", "nbody6++"])), nsnap=(s0 + k) * dt, verbose=False, **dict(kw, wdir=w), **S.kw, **O.load(), **st); cl = load(0, kw["wdir"])
        for k, s in enumerate(snaps):
            msg = "%s: snapshot %d" % (msg0, (s0 + k) * dt)
            if not nbcheck(mon, cl, s, "nbody6++" + (":cont" if k >= j else ""), msg): return
            S.check(mon, cl, msg, nsnap=(s0 + k) * dt); O.check(mon, cl, s0 + k, "nbody6++", msg)
            if rng.random() < .4: same(mon, cl, load(k, dirs[k][0]), "nbody6++:direct", msg)
            meddle(mon, rng, cl); cl = ct.advance_cluster(cl, **st, **O.step())
        ended(mon, cl, "nbody6++", msg0)


def w_h5(mon, rng):
    """several groups per file, several files"""
    nfile = int(rng.choice([1, 1, 2, 3])); dt = int(rng.choice([1, 5])); groups = [int(rng.integers(1, 4)) for q in range(nfile)]; n = sum(groups); snaps = nf.sim(rng, n, nmax=8, nan=False); S = Settings(rng); head = rng.random() < .7
    with Dir() as d:
        sd = "out" if rng.random() < .3 else ""; os.makedirs(os.path.join(d, sd), exist_ok=True); kw = dict(wdir=d, **({"snapdir": sd} if sd else {})); p = 0; where = []
        for q in range(nfile):
            nf.hdf5(os.path.join(d, sd), snaps[p:p + groups[q]], q * dt); where += [(q, g) for g in range(groups[q])]
            if head: nf.conf3(os.path.join(d, sd), snaps[p], q * dt)
            p += groups[q]
        msg0 = "hdf5 files with %r snapshots" % groups; mon.log(msg0, sorted(S.kw)); mon.seen("hdf5", groups, dt, head); mon.ev("hdf5"); mon.ev("hdf5 files", nfile > 1); st = dict(dtout=dt) if dt != 1 or rng.random() < .3 else {}
        cl = ct.load_cluster("nbody6++", hdf5=True, verbose=False, **kw, **S.kw, **st)
        for k, s in enumerate(snaps):
            msg = "%s: file %d group %d" % ((msg0,) + where[k])
            if not nbcheck(mon, cl, s, "hdf5", msg, loose=not head): return
            S.check(mon, cl, msg, nsnap=where[k][0] * dt)
            meddle(mon, rng, cl); cl = ct.advance_cluster(cl, **st)
        ended(mon, cl, "hdf5", msg0)


def w_custom(mon, rng):
    """a user's own load function sees every snapshot number once, in order, with the settings"""
    n = int(rng.integers(1, 5)); units = str(rng.choice(gen.UNITS)); origin = str(rng.choice(gen.ORIGINS)); S = Settings(rng); snaps = [stars(rng, k, int(rng.integers(2, 9))) for k in range(n)]; calls = []; extra = dict(colour="red") if rng.random() < .5 else {}

    def loader(ctype, units=None, origin=None, ofile=None, orbit=None, advance=False, **kw):
        k = int(kw.get("nsnap", 0)); calls.append((k, advance, units, origin, dict(kw)))
        keep = {a: kw[a] for a in ("nsnap", "ro", "vo", "zo", "solarmotion", "centre_method", "wdir", "snapdir") if a in kw}
        cl = ct.StarCluster(tm[min(k, n - 1)], units=units, origin=origin, ctype=ctype, **keep)
        if k < n: R = snaps[k]; cl.add_stars(*[R[:, j].copy() for j in range(1, 7)], m=R[:, 0].copy(), id=np.arange(len(R)) + 10); cl.analyze()
        return cl
    with Dir() as d:
        kw = dict(wdir=d + "/"); Tu = gen.Truth([1.], [[0, 0, 0]], [[0, 0, 0]], ro=S.kw.get("ro", 8.275), vo=S.kw.get("vo", 239.23725)).dims(units)[3]; tm = [k * .5 / Tu for k in range(n)]; O = Orb(mon, rng, S, n, units, [d], time=[.5 * k for k in range(n)], nofile=True, p=.6); msg0 = "user load function, %d snapshots in %s/%s" % (n, units, origin); mon.log(msg0, sorted(S.kw)); mon.seen("custom", n, units, origin, O.kind, bool(extra)); mon.ev("custom")
        cl = ct.load_cluster(str(rng.choice(["snapshot", "custom"])), units=units, origin=origin, load_function=loader, **kw, **S.kw, **extra, **O.load())
        for k, R in enumerate(snaps):
            msg = "%s: snapshot %d" % (msg0, k)
            if not check(mon, cl, R, np.arange(len(R)) + 10, units, origin, "custom", msg): return
            c = calls[-1]; mon.ok(len(calls) == k + 1 and c[0] == k, "custom:once", "%s: load function was called for snapshots %r" % (msg, [q[0] for q in calls])); mon.ok(bool(c[1]) == (k > 0) and c[2] == units and c[3] == origin, "custom:arguments", "%s: advance=%r units=%r origin=%r" % (msg, c[1], c[2], c[3]))
            S.check(mon, cl, msg); mon.ok(all(c[4].get(a) == v for a, v in extra.items()), "custom:keywords", msg + ": keywords of the user are not passed on"); mon.ok(c[4].get("wdir") == kw["wdir"], "custom:wdir", "%s: wdir %r" % (msg, c[4].get("wdir")))
            if O.kind: mon.close([cl.tphys], [tm[k]], "custom:time", 0, 0, msg)
            O.check(cl, k, msg, .5 * k)
            meddle(mon, rng, cl)
            cl = ct.advance_cluster(cl, load_function=loader, **extra, **O.step())
        ended(mon, cl, "custom", msg0)


QF = 8
TF = 6
WORKLOADS = [("snapshot", w_snap, 90, 1500), ("nemo", w_nemo, 80, 1200), ("amuse", w_amuse, 14, 150), ("nbody6", w_nbody6, 35, 500), ("nbody6pp", w_pp, 40, 600), ("hdf5", w_h5, 35, 500), ("custom", w_custom, 25, 300)]
