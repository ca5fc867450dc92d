"""C20: generated inputs with a unique value in every cell, so that every loaded value names the cell it came from; orbits and origins against the values given."""
import os
import numpy as np
from galpy.orbit import Orbit
from astropy.table import Table, QTable
import astropy.units as au
from ctv import gen, derived
from ctv.loads import Dir, Settings, Orb, check, stars, layout, nemo
import clustertools as ct

RULE = ("Generated text files (column permutations and subsets, delimiters, headers, directory layouts, file name or snapshot number, every unit system and origin incl. the sky), astropy tables (default names in any spelling and case, column mappers, quantities, extra columns, missing columns), "
        "AMUSE particle sets and files, galpy orbits, distribution-function samples, nemo files (every give option), limepy models (parameters, model objects, named clusters) and user load functions, with orbit files (rows, units, columns), orbit objects and initialize; distinct by loader, units, origin, orbit and options.")
REQUIRE = {"text": 150, "table": 120, "column mapper": 30, "missing column": 10, "sky": 30, "quantities": 20, "amuse": 40, "amuse file": 15, "galpy orbits": 60, "df sample": 5, "nemo": 60, "limepy": 20, "named cluster": 10, "custom": 30, "custom orbit file": 15, "orbit file": 100, "orbit units": 50, "orbit time": 30, "galpy orbit": 40,
           "initialize": 30, "fewer columns": 20, "permuted columns": 80, "no analysis": 40, "unsorted": 30, "origins visited": 150, "one star": 15, "derived": 150, "placed among its stars": 40, "made": 200, "made with orbit": 120}
ASSUMPTIONS = ["galpy orbits in galpy units are loaded with ro=vo=1 as the loader asks", "limepy models: total mass to rounding, scale radii and virial equilibrium to sampling noise (8 over the root of the number of stars)", "AMUSE years differ from Julian years by 2e-5",
               "limepy models are created with a mass", "a snapshot's orbit file is used once an origin is given"]
L = derived.plain
AN = ["m", "x", "y", "z", "vx", "vy", "vz"]


def truth(S): return gen.Truth([1.], [[0, 0, 0]], [[0, 0, 0]], ro=S.kw.get("ro", 8.275), vo=S.kw.get("vo", 239.23725), zo=S.kw.get("zo", .0208), sm=S.kw.get("solarmotion", (-11.1, 12.24, 7.25)))


def options(mon, rng, sort=True):
    kw = {}
    if rng.random() < .25: kw["analyze"] = False; mon.ev("no analysis")
    if sort and rng.random() < .2: kw["sortstars"] = False; mon.ev("unsorted")
    return kw


def after(mon, rng, cl, S, O, R, units, origin, mech, msg, kw, k=0, t=None):
    """settings, orbit, derived quantities, and the same stars seen from every origin"""
    S.check(mon, cl, msg); O.check(cl, k, msg, t)
    if units in (None, "amuse") or origin in (None, "sky"): return
    if kw.get("analyze", True) and len(R) > 1:
        derived.check(mon, cl, mech + ":derived", msg, orders=kw.get("sortstars", True), projected=False); mon.ev("derived")
    P = {origin: np.c_[cl.x, cl.y, cl.z, cl.vx, cl.vy, cl.vz].astype(float)}; c = np.array([cl.xc, cl.yc, cl.zc, cl.vxc, cl.vyc, cl.vzc], float); g = np.array([float(np.ravel(getattr(cl, a))[0]) for a in gen.GC])
    off = {"cluster": 0 * c, "centre": c, "galaxy": -g}; ref = P[origin] + off[origin]
    for o in rng.permutation(gen.ORIGINS):
        cl.to_origin(str(o)); got = np.c_[cl.x, cl.y, cl.z, cl.vx, cl.vy, cl.vz]; w = ref - off[str(o)]; s = np.r_[[np.max(np.abs(np.r_[w[:, :3].ravel(), g[:3], c[:3]]))] * 3, [np.max(np.abs(np.r_[w[:, 3:].ravel(), g[3:], c[3:]]))] * 3]
        mon.close(got, w, mech + ":origin", 1e-9, 1e-11 * s, "%s seen from the %s" % (msg, o)); mon.ev("origins visited")
    cl.to_origin(origin)


def initial(mon, cl, O, units, origin, msg):
    """initialize=True: a galpy orbit through the cluster's present position"""
    mon.ev("initialize")
    if not mon.ok(cl.orbit is not None and hasattr(cl.orbit, "x"), "initialize:orbit", msg + ": no orbit was initialised"): return
    Lu, Vu, _, _ = O.T.dims(units); g = np.array([float(np.ravel(getattr(cl, a))[0]) for a in gen.GC])
    p = np.array([float(np.ravel(f(ro=O.T.ro, vo=O.T.vo))[0]) for f in (cl.orbit.x, cl.orbit.y, cl.orbit.z)]) * 1000 / Lu; v = np.array([float(np.ravel(f(ro=O.T.ro, vo=O.T.vo))[0]) for f in (cl.orbit.vx, cl.orbit.vy, cl.orbit.vz)]) / Vu
    mon.close(np.r_[p, v], g, "initialize:orbit", 1e-7, 1e-9 * np.r_[[np.max(np.abs(g[:3]))] * 3, [np.max(np.abs(g[3:]))] * 3], msg + ": orbit initialised"); mon.ok(cl.units == units and cl.origin == origin, "initialize:state", "%s: units %r origin %r" % (msg, cl.units, cl.origin))


def skyrows(rng, n):
    a = np.c_[rng.uniform(.1, 5, n), rng.uniform(10, 350) + rng.normal(0, .1, n), rng.uniform(-70, 70) + rng.normal(0, .1, n), rng.uniform(3, 20) + rng.normal(0, .01, n), rng.normal(0, 4) + rng.normal(0, .1, n), rng.normal(0, 4) + rng.normal(0, .1, n), rng.normal(0, 100) + rng.normal(0, 3, n)]
    return np.array([[float("%.9g" % q) for q in r] for r in a])


def shift(rng, R, units, origin, T):
    """galactocentric stars"""
    if origin == "galaxy":
        Lu, Vu = T.dims(units)[:2]; R[:, 1:4] += np.round(rng.normal(0, 8000, 3) / Lu, 6); R[:, 4:] += np.round(rng.normal(0, 150, 3) / Vu, 6)
    return R


def w_text(mon, rng):
    sky = rng.random() < .12; units = "radec" if sky else str(rng.choice(gen.UNITS)) if rng.random() < .93 else None; origin = "sky" if sky else str(rng.choice(gen.ORIGINS)) if units and rng.random() < .92 else None; S = Settings(rng); T = truth(S)
    n = int(rng.choice([1, int(rng.integers(2, 16))], p=[.12, .88])); R = skyrows(rng, n) if sky else stars(rng, 0, n)
    with Dir() as d:
        k = int(rng.choice([0, 0, 3, 12])); dirs, kw, _ = layout(mon, rng, d, 1, k, cont=0); p, q = dirs[0]; base = str(rng.choice(["", "run_"])); end = str(rng.choice([".dat", "", ".csv"])); z = int(rng.choice([5, 5, 1, 3]))
        O = Orb(mon, rng, S, k + 1, units if origin and not sky else None, [d]); named = rng.random() < .4; load = {}; t = 0.
        if O.kind is None: R = shift(rng, R, units, origin, T) if units and origin else R
        name = "some name.txt" if named else base + str(k).zfill(z) + end; path = os.path.join(q, name)
        if named: load["filename"] = [name, path][int(rng.integers(2))]
        else:
            if base: load["snapbase"] = base
            if end != ".dat": load["snapend"] = end
            if z != 5: load["nzfill"] = z
        if k: load["nsnap"] = k
        delim = str(rng.choice([",", ";", "\t"])) if rng.random() < .4 else None; skip = int(rng.integers(1, 4)) if rng.random() < .4 else 0
        if delim: load["delimiter"] = delim
        if skip: load["skiprows"] = skip
        names = list(AN); hasid = rng.random() < .5; haskw = rng.random() < .4; nums = list(range(7))
        if rng.random() < .75:
            if rng.random() < .3: names = [a for a in names if a not in rng.choice(AN[:1] + AN[2:], int(rng.integers(1, 4)), replace=False)]; mon.ev("fewer columns")
            names = names + ["id"] * hasid + ["kw"] * haskw; names = [names[j] for j in rng.permutation(len(names))]; nums = [int(j) for j in rng.permutation(len(names) + 3)[:len(names)]]; mon.ev("permuted columns")
            wrap = [list, tuple, np.array][int(rng.integers(3))]; load["col_names"], load["col_nums"] = wrap(names), wrap(nums)
        else: hasid = haskw = False
        ids = rng.permutation(9999)[:n] + 1; ty = rng.integers(0, 15, n); w = -900. - np.arange(n * (max(nums) + 1)).reshape(n, -1)
        for a, c in zip(names, nums): w[:, c] = ids if a == "id" else ty if a == "kw" else R[:, AN.index(a)]
        for j, a in enumerate(AN):
            if a not in names: R[:, j] = 1. if a == "m" else 0.
        with open(path, "w") as f:
            for j in range(skip): f.write("header %d 1 2 3\n" % j)
            for row in w: f.write((delim or " ").join("%.15g" % v for v in row) + "\n")
        kw.update(S.kw); opt = options(mon, rng); load.update(opt); init = O.kind == "file" and rng.random() < .3
        if init: load["initialize"] = True
        msg = "text file %s in %s/%s%s%s" % ("by name" if named else "number %d" % k, units, origin, ", orbit " + O.kind if O.kind else "", " without " + ",".join(sorted(set(AN) - set(names))) if set(AN) - set(names) else ""); mon.log(msg, sorted(load), sorted(kw)); mon.seen("text", units, origin, O.kind, sorted(load), sorted(kw), len(names)); mon.ev("text"); mon.ev("sky", sky)
        cl = ct.load_cluster("snapshot", units=units, origin=origin, **load, **kw, **O.load("wdir" in kw))
        if not check(mon, cl, R, ids if hasid else None, units, origin, "text", msg, ty if haskw else None): return
        if not hasid: mon.ok(len(np.unique(cl.id)) == n, "text:ids", msg + ": stars do not have their own ids")
        if init: initial(mon, cl, O, units, origin, msg)
        after(mon, rng, cl, S, O, R, units, origin, "text", msg, opt, k, t); mon.sample(dict(loader="snapshot", units=units, origin=origin, columns=names, orbit=O.kind))


NAMES = dict(id=["id"], m=["m", "mass"], x=["x"], y=["y"], z=["z"], vx=["v_x", "vx"], vy=["v_y", "vy"], vz=["v_z", "vz"])
SKY = dict(NAMES, x=["right ascension", "ra"], y=["declination", "dec"], z=["distance", "dist", "d"], vx=["pm_ra_cosdec", "pm_ra", "pmra"], vy=["pm_dec", "pmdec"], vz=["radial_velocity", "rvel", "v_los", "vlos"])


def spell(rng, s): return [s, s.upper(), s.title(), "".join(c.upper() if rng.random() < .5 else c for c in s)][int(rng.integers(4))]


def w_table(mon, rng):
    sky = rng.random() < .25; units = "radec" if sky else str(rng.choice(gen.UNITS)) if rng.random() < .93 else None; origin = "sky" if sky else str(rng.choice(gen.ORIGINS)) if units and rng.random() < .92 else None; S = Settings(rng); T = truth(S)
    n = int(rng.choice([1, int(rng.integers(2, 16))], p=[.12, .88])); mapper = rng.random() < .4; hasm = rng.random() < .7; hasid = rng.random() < .6; R = skyrows(rng, n) if sky else stars(rng, 0, n); want = [a for a in AN + ["id"] if (a != "m" or hasm) and (a != "id" or hasid)]; ids = rng.permutation(9999)[:n] + 1
    with Dir() as d:
        O = Orb(mon, rng, S, 1, units if origin and not sky else None, [d]); quant = rng.random() < .3
        if O.kind is None: R = shift(rng, R, units, origin, T) if units and origin else R
        tab = QTable() if quant else Table(); alt = SKY if sky else NAMES; cm = {}; used = set(); cols = {}
        for a in want:
            if mapper: nm = "col %d" % rng.integers(0, 10 ** 6) if rng.random() < .7 else str(rng.choice(["x", "y", "z", "vx", "mass", "id", "dec"]))
            else: nm = spell(rng, str(rng.choice(alt[a])))
            while nm in used: nm += "_"
            used.add(nm); cm[a] = nm; cols[nm] = ids if a == "id" else R[:, AN.index(a)].copy()
        for j in range(int(rng.integers(0, 4))):
            nm = "other_%d" % j
            if mapper and rng.random() < .5 and "x" not in used: nm = "x"
            cols.setdefault(nm, rng.normal(0, 1, n))
        order = [list(cols)[j] for j in rng.permutation(len(cols))]; un = au.kpc if rng.random() < .5 else au.km
        for nm in order: tab[nm] = cols[nm] * un if quant and nm != cm.get("id") else cols[nm]
        mon.ev("quantities", quant); mon.ev("column mapper", mapper); mon.ev("sky", sky); mon.ev("table"); opt = options(mon, rng); kw = dict(S.kw, **opt)
        if mapper: kw["column_mapper"] = dict(cm); given = kw["column_mapper"]
        if rng.random() < .2: kw["verbose"] = True
        msg = "table of %s in %s/%s%s" % (", ".join("%s=%r" % (a, cm[a]) for a in want), units, origin, ", orbit " + O.kind if O.kind else ""); mon.log(msg, sorted(kw)); mon.seen("table", units, origin, O.kind, mapper, sorted(kw), [cm[a] for a in want if not mapper])
        if rng.random() < .12:   # a needed column is not there
            a = str(rng.choice(AN[1:])); t2 = tab.copy(); t2.remove_column(cm[a]); k2 = dict(kw); mon.ev("missing column")
            if mapper and rng.random() < .5: t2 = tab; k2["column_mapper"] = {p: q for p, q in cm.items() if p != a}
            try: bad = ct.load_cluster("astropy_table", particles=t2, units=units, origin=origin, **k2)
            except (ValueError, KeyError): pass
            else: mon.ok(False, "table:missing", "%s: loaded without a column for %s: %r stars" % (msg, a, getattr(bad, "ntot", bad)))
            return
        before = tab.copy(); cl = ct.load_cluster(str(rng.choice(["astropy_table", "Astropy_Table"])), particles=tab, units=units, origin=origin, **kw, **O.load("wdir" in kw))
        if not hasm: R[:, 0] = L(cl.m) if len(np.unique(L(cl.m))) == 1 and cl.ntot == n else -1.
        if not check(mon, cl, R, ids if hasid else None, units, origin, "table", msg): return
        mon.ok(tab.colnames == before.colnames and all(np.array_equal(np.asarray(tab[q]), np.asarray(before[q])) for q in tab.colnames), "table:argument", msg + ": the table was changed")
        if mapper: mon.ok(given == cm, "table:argument", msg + ": the column mapper was changed")
        if not hasid: mon.ok(len(np.unique(cl.id)) == n, "table:ids", msg + ": stars do not have their own ids")
        after(mon, rng, cl, S, O, R, units, origin, "table", msg, opt); mon.sample(dict(loader="astropy_table", units=units, origin=origin, columns=order, mapper=mapper, orbit=O.kind))


def w_amuse(mon, rng):
    if not gen.HAVE_AMUSE: return
    import amuse.units.units as u
    from amuse.datamodel import Particles
    from amuse.io import write_set_to_file
    units = str(rng.choice(["amuse", "pckms", "kpckms", "pcmyr", "kpcgyr", "galpy", "WDunits"])) if rng.random() < .85 else None; origin = str(rng.choice(["cluster", "centre", "galaxy"])) if units and rng.random() < .9 else None; S = Settings(rng); T = truth(S); n = int(rng.choice([1, int(rng.integers(2, 12))], p=[.12, .88]))
    R = stars(rng, 0, n); Lu, Vu, Mu, _ = T.dims(units or "amuse"); file = rng.random() < .4
    with Dir() as d:
        O = Orb(mon, rng, S, 1, units if origin else None, [d])
        if origin == "galaxy" and O.kind is None: R = shift(rng, R, units, origin, T)
        p = Particles(n); lu, vu, mu = [(u.parsec, u.kms, u.MSun), (u.m, u.m / u.s, u.kg), (u.kpc, u.parsec / u.Myr, u.MSun)][int(rng.integers(3))]
        p.mass = (R[:, 0] * Mu | u.MSun).as_quantity_in(mu)
        for q, a in enumerate("xyz"): setattr(p, a, (R[:, 1 + q] * Lu | u.parsec).as_quantity_in(lu)); setattr(p, "v" + a, (R[:, 4 + q] * Vu | u.kms).as_quantity_in(vu))
        if rng.random() < .3: p.radius = np.ones(n) | u.RSun
        opt = options(mon, rng); kw = dict(S.kw, **opt); src = dict(particles=p); ids = np.array(p.key); mon.ev("amuse")
        if file:
            ft = str(rng.choice(["hdf5", "amuse"])); f = os.path.join(d, "stars." + ft); write_set_to_file(p, f, ft); src = dict(filename=f) if rng.random() < .5 else dict(filename="stars." + ft, wdir=d); mon.ev("amuse file")
            if ft != "hdf5": src["filetype"] = ft
        msg = "AMUSE %s in %s/%s%s" % ("file" if file else "particles", units, origin, ", orbit " + O.kind if O.kind else ""); mon.log(msg, sorted(kw)); mon.seen("amuse", units, origin, O.kind, file, sorted(opt))
        cl = ct.load_cluster("amuse", units=units, origin=origin, **src, **kw, **O.load("wdir" in src))
        if not check(mon, cl, R, ids, units or "amuse", origin, "amuse", msg): return
        after(mon, rng, cl, S, O, R, units, origin, "amuse", msg, opt)


def w_galpy(mon, rng):
    units = str(rng.choice(["kpckms", "pckms", "pcmyr", "kpcgyr", "WDunits", "galpy"])); origin = str(rng.choice(gen.ORIGINS)) if rng.random() < .9 else None; S = Settings(rng); T = truth(S); n = int(rng.choice([1, int(rng.integers(2, 16))], p=[.1, .9])); df = rng.random() < .15
    if units == "galpy": S.kw.pop("ro", 0); S.kw.pop("vo", 0); T = truth(S)
    with Dir() as d:
        if df:
            from galpy.df import kingdf
            np.random.seed(int(rng.integers(2 ** 31))); o = kingdf(M=2.3, rt=1.4, W0=3.).sample(n=n); n = max(n, 1); mon.ev("df sample")
            if n == 1: o = Orbit([np.ravel(q)[0] for q in (o.R(), o.vR(), o.vT(), o.z(), o.vz(), o.phi())])
        elif n == 1 and rng.random() < .5: o = Orbit([rng.uniform(.5, 2), rng.normal(0, .2), rng.uniform(.7, 1.2), rng.normal(0, .2), rng.normal(0, .2), rng.uniform(0, 6)], ro=T.ro, vo=T.vo)
        else: o = Orbit(np.c_[rng.uniform(.5, 2, n), rng.normal(0, .2, n), rng.uniform(.7, 1.2, n), rng.normal(0, .2, n), rng.normal(0, .2, n), rng.uniform(0, 6, n)], **(dict(ro=T.ro, vo=T.vo) if rng.random() < .6 else {}))
        if rng.random() < .3: o.turn_physical_off()
        nat = np.c_[tuple(np.ravel(q(use_physical=False)) for q in (o.x, o.y, o.z, o.vx, o.vy, o.vz))]; Lu, Vu, Mu, _ = T.dims(units); kw = dict(S.kw); mk = int(rng.integers(3)); m = np.ones(n)
        if mk == 1: m = rng.uniform(.1, 5, n); kw["m"] = m.copy()
        if mk == 2: m = m * 2.5; kw["m"] = 2.5
        if units == "galpy": kw.update(ro=1., vo=1.)
        R = np.c_[m / Mu, nat[:, :3] * T.ro * 1000 / Lu, nat[:, 3:] * T.vo / Vu]; O = Orb(mon, rng, S, 1, units if origin else None, [d], p=.5); opt = options(mon, rng); kw.update(opt)
        msg = "galpy orbits in %s/%s%s" % (units, origin, ", orbit " + O.kind if O.kind else ""); mon.log(msg, sorted(kw)); mon.seen("galpy", units, origin, O.kind, df, mk, sorted(kw)); mon.ev("galpy orbits")
        cl = ct.load_cluster("galpy", particles=o, units=units, origin=origin, **kw, **O.load("wdir" in kw))
        if not check(mon, cl, R, np.arange(1, n + 1), units, origin, "galpy", msg): return
        after(mon, rng, cl, S, O, R, units, origin, "galpy", msg, opt)
        cl.to_pckms(); e = np.c_[m, nat[:, :3] * T.ro * 1000, nat[:, 3:] * T.vo]; mon.close(np.c_[cl.m, cl.x, cl.y, cl.z, cl.vx, cl.vy, cl.vz], e, "galpy:converted", 1e-9, 1e-9 * np.max(np.abs(e), 0), msg + " in pc, km/s and Msun")


def w_nemo(mon, rng):
    units = str(rng.choice(gen.UNITS)); origin = str(rng.choice(gen.ORIGINS)) if rng.random() < .9 else None; S = Settings(rng); T = truth(S); give = str(rng.choice(["mxv", "mxve", "mxvpqael"])); ne = {"mxv": 0, "mxve": 1, "mxvpqael": 5}[give]; new = bool(rng.random() < .5); n = int(rng.choice([1, int(rng.integers(2, 16))], p=[.1, .9])); R = stars(rng, 0, n); X = np.round(rng.normal(0, 1, (n, ne)), 6)
    with Dir() as d:
        O = Orb(mon, rng, S, 1, units if origin else None, [d], galpy=False); t = float("%.6g" % rng.uniform(0, 50))
        if O.kind is None and origin: R = shift(rng, R, units, origin, T)
        head = int(rng.choice([13, 13, 5, 8])); opt = options(mon, rng); kw = dict(S.kw, **opt); name = "my.nemo"
        if head != 13: kw["skiprows"] = head
        if give != "mxv": kw["give"] = give
        with open(os.path.join(d, name), "w") as f: nemo(f, t, R, X, head)
        kw.update([dict(filename=os.path.join(d, name)), dict(filename=name, wdir=d + "/"), dict(filename=name, wdir=d)][int(rng.integers(3))]); ctype = str(rng.choice(["new_nemo", "new_gyrfalcon"] if new else ["nemo", "gyrfalcon"]))
        msg = "%s file (%s, %d header lines) in %s/%s%s" % (ctype, give, head, units, origin, ", orbit " + O.kind if O.kind else ""); mon.log(msg, sorted(kw)); mon.seen("nemo", ctype, units, origin, O.kind, give, sorted(kw)); mon.ev("nemo")
        cl = ct.load_cluster(ctype, units=units, origin=origin, **kw, **O.load("wdir" in kw))
        if not check(mon, cl, R, np.arange(n) + (0 if new else 1), units, origin, "nemo", msg): return
        if not (O.kind == "file" and O.otime): mon.close(cl.tphys, t, "nemo:time", 1e-9, 0, msg + " time")
        if ne: mon.close(cl.eps, X[:, 0 if ne == 1 else 3], "nemo:give", 1e-9, 0, msg + " softening")
        if ne == 5:
            for j, a in enumerate(("gyrpot", "gyrq", "gyracc", "eps", "gyrlev")): mon.close(getattr(cl, a), X[:, j], "nemo:give", 1e-9, 0, msg + " " + a)
        after(mon, rng, cl, S, O, R, units, origin, "nemo", msg, opt)


def w_custom(mon, rng):
    """a user's load function gets what it was asked with"""
    units = str(rng.choice(gen.UNITS)); origin = str(rng.choice(gen.ORIGINS)); S = Settings(rng); T = truth(S); n = int(rng.integers(2, 10)); R = stars(rng, 0, n); seen = []; what = str(rng.choice(["filename", "particles", "none"]))

    def loader(ctype, units=None, origin=None, ofile=None, orbit=None, filename=None, particles=None, **kw):
        seen.append(dict(kw, units=units, origin=origin, ofile=ofile, orbit=orbit, filename=filename, particles=particles, ctype=ctype)); cl = ct.StarCluster(tphys, units=units, origin=origin, ctype=ctype, **{k: kw[k] for k in S.kw})
        cl.add_stars(*[R[:, j].copy() for j in range(1, 7)], m=R[:, 0].copy(), id=np.arange(n) + 50); cl.analyze(); return cl
    with Dir() as d:
        Tu = T.dims(units)[3]; t = float(rng.uniform(0, 60)) if rng.random() < .6 else 0.; tphys = t / Tu; O = Orb(mon, rng, S, 1, units, [d], time=[t], nofile=True, p=.7); kw = dict(S.kw, colour="red", wdir=d); named = O.kind is None and bool(rng.random() < .5); line = "orbit file %d\n" % rng.integers(10 ** 9)
        if named:
            with open(os.path.join(d, "o.dat"), "w") as f: f.write(line)
            kw["ofilename"] = "o.dat"; mon.ev("custom orbit file")
        given = {"filename": dict(filename="a"), "particles": dict(particles=[1, 2]), "none": {}}[what]
        msg = "user load function in %s/%s%s" % (units, origin, ", orbit" if O.kind else ""); mon.log(msg, sorted(kw)); mon.seen("custom", units, origin, O.kind, what, t > 0); mon.ev("custom")
        cl = ct.load_cluster(str(rng.choice(["snapshot", "mine", "nbody6"])), units=units, origin=origin, load_function=loader, **given, **kw, **O.load("wdir" in kw)); s = seen[0]
        mon.ok(len(seen) == 1 and s["ctype"] == "custom" and s["units"] == units and s["origin"] == origin and s["colour"] == "red" and s["wdir"] == d and all(s[k] == v for k, v in given.items()), "custom:arguments", "%s was called with %r" % (msg, {k: s[k] for k in ("ctype", "units", "origin", "filename", "particles") if k in s}))
        if named: mon.ok(hasattr(s["ofile"], "read") and s["ofile"].read() == line, "custom:ofile", "%s: the loader was given ofile=%r for ofilename=%r" % (msg, s["ofile"], "o.dat"))
        if not check(mon, cl, R, np.arange(n) + 50, units, origin, "custom", msg): return
        if O.kind: mon.close(cl.tphys, tphys, "custom:time", 1e-12, 0, msg)
        after(mon, rng, cl, S, O, R, units, origin, "custom", msg, {}, 0, t)


def model(mon, cl, T, units, n, mtot, mech, msg, mbody=True, **radii):
    """total mass, equal stars, equilibrium and scale radii of a sampled model, in its own units"""
    Lu, Vu, Mu, _ = T.dims(units); X = np.c_[L(cl.x), L(cl.y), L(cl.z)] * Lu; V = np.c_[L(cl.vx), L(cl.vy), L(cl.vz)] * Vu; m = L(cl.m) * Mu; X = X - np.mean(X, 0); V = V - np.mean(V, 0)
    mon.ok(cl.ntot == n and len(cl.x) == n, mech + ":count", "%s: %r stars, asked for %d" % (msg, cl.ntot, n)); mon.ok(len(np.unique(cl.id)) == n, mech + ":ids", msg + " ids")
    mon.close(np.sum(m), mtot, mech + ":mass", 1e-6, 0, msg + " total mass"); mon.close(m, np.full(n, mtot / n), mech + ":mass", 1e-6, 0, msg + " masses")
    D = np.sqrt(np.sum((X[:, None] - X[None]) ** 2, 2)); np.fill_diagonal(D, np.inf); W = -gen.G * .5 * np.sum(m[:, None] * m[None] / D); K = .5 * np.sum(m * np.sum(V ** 2, 1)); q = -2 * K / W
    mon.ok(abs(q - 1) < 8 / np.sqrt(n), mech + ":equilibrium", "%s: 2K/|W| = %r with %d stars" % (msg, q, n)); r = np.sort(np.sqrt(np.sum(X ** 2, 1)))
    for k, v in radii.items():
        g = {"rh": np.median(r), "rm": np.median(r), "rv": -gen.G * np.sum(m) ** 2 / (2 * W), "rt": r[-1]}[k] / Lu
        mon.ok(g < v * 1.05 if k == "rt" else abs(g / v - 1) < 8 / np.sqrt(n), mech + ":radius", "%s: %s = %r, sampled %r with %d stars" % (msg, k, v, g, n))


def w_limepy(mon, rng):
    from limepy import limepy
    units = str(rng.choice(["pckms", "kpckms", "pcmyr", "kpcgyr", "nbody", "galpy"])); origin = str(rng.choice(gen.ORIGINS)); S = Settings(rng); T = truth(S); n = int(rng.integers(150, 500)); Lu, Vu, Mu, _ = T.dims(units); kw = dict(S.kw); obj = rng.random() < .3; np.random.seed(int(rng.integers(2 ** 31)))
    g = float(rng.uniform(.5, 1.8)); w0 = float(rng.uniform(2, 7)); rad = {}; Gu = gen.G * Mu / Lu / Vu ** 2
    if units == "nbody": Gu = 1.; T.scale = None
    if obj:
        mtot = float(rng.uniform(500, 1e5)) / Mu; rh = rng.uniform(1, 8) / Lu; kw["model"] = limepy(w0, g, M=mtot, rh=rh, G=Gu); rad["rh"] = rh
    else:
        mtot = float(rng.uniform(500, 1e5)) / Mu; key = str(rng.choice(["rt", "rv", "rh", "rm"])); rad[key] = float(rng.uniform(1, 8) * (8 if key == "rt" else 1) / Lu); kw.update({"M": mtot, key: rad[key], "g": g, str(rng.choice(["W0", "phi0"])): w0})
    with Dir() as d:
        O = Orb(mon, rng, S, 1, units, [d], p=1. if origin == "galaxy" else .5); msg = "limepy model (%s, %s) in %s/%s%s" % ("object" if obj else "parameters", ", ".join(rad), units, origin, ", orbit " + O.kind if O.kind else ""); mon.log(msg, sorted(kw)); mon.seen("limepy", units, origin, O.kind, obj, sorted(rad)); mon.ev("limepy")
        cl = ct.load_cluster("limepy", units=units, origin=origin, N=n, **kw, **O.load("wdir" in kw)); mon.ok(cl.units == units and cl.origin == origin and cl.ctype == "limepy", "limepy:labels", "%s: %r %r %r" % (msg, cl.units, cl.origin, cl.ctype))
        S.check(mon, cl, msg); O.check(cl, 0, msg, 0.)
        if units == "nbody":   # G = 1
            X = np.c_[cl.x, cl.y, cl.z]; D = np.sqrt(np.sum((X[:, None] - X[None]) ** 2, 2)); np.fill_diagonal(D, np.inf)
            mon.close(np.sum(cl.m), mtot, "limepy:mass", 1e-6, 0, msg)
            V = np.c_[cl.vx, cl.vy, cl.vz]; V = V - np.mean(V, 0); q = np.sum(cl.m * np.sum(V ** 2, 1)) / (.5 * np.sum(cl.m[:, None] * cl.m[None] / D)); mon.ok(abs(q - 1) < 8 / np.sqrt(n), "limepy:equilibrium", "%s: 2K/|W| = %r (G=1)" % (msg, q))
        else: model(mon, cl, T, units, n, mtot * Mu, "limepy", msg, **rad)
        R = np.c_[cl.m, cl.x, cl.y, cl.z, cl.vx, cl.vy, cl.vz]; after(mon, rng, cl, S, O, R, units, origin, "limepy", msg, {}, 0, 0.)


def tables():
    p = os.path.join(os.path.dirname(ct.__file__), "io", "data"); rd = lambda f: [l.split() for l in open(os.path.join(p, f)) if l.strip() and not l.lstrip().startswith("#")]
    return {r[0].upper(): (float(r[7]), float(r[5])) for r in rd("deBoer2019.dat")}, {a.upper(): (float(r[2]), float(r[5])) for r in rd("harris2010.dat") for a in r[:2] if a.upper() != "NA"}, {r[0].upper(): r[1].upper() for r in rd("harris2010.dat")}


def w_named(mon, rng):
    """models of the catalogued clusters: mass and limiting radius of the catalogue, the cluster's own orbit"""
    D, H, alias = tables(); src = str(rng.choice(["default", "deboer", "harris", "deBoer"])); name = str(rng.choice(sorted(H if src == "harris" or src == "default" and rng.random() < .5 else D))); other = {v: k for k, v in alias.items()}.get(name, alias.get(name)); use = D.get(name) or D.get(other) if src != "harris" else None; use = use or (H.get(name) or H.get(other) if src in ("default", "harris") else None)
    if use is None: return
    units = str(rng.choice(["pckms", "kpckms", "pcmyr", "galpy", "WDunits", "kpcgyr"])); origin = str(rng.choice(["cluster", "centre", "galaxy"])); S = Settings(rng); T = truth(S); n = int(rng.integers(60, 200)); np.random.seed(int(rng.integers(2 ** 31))); kw = dict(S.kw, citation=bool(rng.random() < .5))
    if src != "default": kw["source"] = src
    try: o = Orbit.from_name(name)
    except Exception: o = None
    if o is None and origin == "galaxy": origin = "centre"
    msg = "catalogue model of %s (%s) in %s/%s" % (name, src, units, origin); mon.log(msg, sorted(kw)); mon.seen("named", name, src, units, origin); mon.ev("named cluster")
    cl = ct.load_cluster("limepy", gcname=spell(rng, name) if rng.random() < .5 else name, units=units, origin=origin, N=n, **kw); mon.ok(cl.units == units and cl.origin == origin and cl.ctype == "limepy", "named:labels", "%s: %r %r %r" % (msg, cl.units, cl.origin, cl.ctype))
    S.check(mon, cl, msg); model(mon, cl, T, units, n, use[0], "named", msg, rt=use[1] / T.dims(units)[0])
    if o is not None:
        Lu, Vu = T.dims(units)[:2]; g = np.array([float(np.ravel(getattr(cl, a))[0]) for a in gen.GC]); d = np.array([float(f(use_physical=True)) for f in (o.dist, o.ra, o.dec)])
        # the orbit is computed with clustertools' own solar position: compare what does not depend on it
        s = orb_sky(cl, g * np.r_[[Lu] * 3, [Vu] * 3]); mon.close(s, [d[0], d[1], d[2]], "named:orbit", 1e-4, 1e-3, msg + ": distance, right ascension and declination")
    R = np.c_[cl.m, cl.x, cl.y, cl.z, cl.vx, cl.vy, cl.vz]; O = Orb(mon, rng, S, 1, None, []); after(mon, rng, cl, S, O, R, units, origin, "named", msg, {}, 0, 0.)


def orb_sky(cl, g):
    from ctv import sky
    q = sky.radec(g[:3] / 1000., g[3:], 8.275, 239.23725, .0208, (-11.1, 12.24, 7.25))[0]; return [q[2], q[0], q[1]]


def w_made(mon, rng):
    """clusters constructed by hand, with or without a galpy orbit: where the cluster and its centre are before and after stars are added"""
    units = str(rng.choice(["pckms", "kpckms", "pcmyr", "kpcgyr", "WDunits", "galpy", "radec", "nbody"] + ["amuse"] * gen.HAVE_AMUSE)); origin = "sky" if units == "radec" else str(rng.choice(gen.ORIGINS)); S = Settings(rng); T = truth(S)
    n = int(rng.integers(1, 12)); R = stars(rng, 0, n); o = None; t = float(np.round(rng.uniform(0, 500), 2)); msg = "StarCluster in %s/%s" % (units, origin)
    if rng.random() < .7: o = Orbit([rng.uniform(.5, 2), rng.normal(0, .2), rng.uniform(.7, 1.2), rng.normal(0, .2), rng.normal(0, .2), rng.uniform(0, 6)], ro=T.ro, vo=T.vo, zo=T.zo, solarmotion=list(T.sm)); msg += " with an orbit"; mon.ev("made with orbit")
    mon.log(msg, sorted(S.kw)); mon.seen("made", units, origin, o is None, sorted(S.kw)); mon.ev("made")
    cl = ct.StarCluster(t, units=units, origin=origin, **dict(S.kw, **({} if o is None else dict(orbit=o))))
    Lu, Vu, Mu, Tu = T.dims("pckms" if units == "radec" else units); SG = ["ra_gc", "dec_gc", "dist_gc", "pmra_gc", "pmdec_gc", "vlos_gc"]; sky0 = np.zeros(6) if o is None else np.array([float(np.ravel(getattr(o, a)())[0]) for a in ("ra", "dec", "dist", "pmra", "pmdec", "vlos")])
    want = np.zeros(6) if o is None else (sky0 if units == "radec" else np.array([float(np.ravel(getattr(o, a)(use_physical=False))[0]) for a in ("x", "y", "z", "vx", "vy", "vz")]) * np.r_[[T.ro * 1000 / Lu] * 3, [T.vo / Vu] * 3])
    def look(when):
        got = np.array([float(np.ravel(gen.val(getattr(cl, a), "L" if i < 3 else "V"))[0]) for i, a in enumerate(gen.GC)]); mon.close(got, want, "made:orbit", 1e-9 if units != "amuse" else 5e-5, 1e-12, msg + when)
        mon.close([float(np.ravel(getattr(cl, a))[0]) for a in SG], sky0, "made:orbit", 1e-9, 1e-12, msg + " on the sky" + when)
        mon.close([float(np.ravel(gen.val(getattr(cl, a), "L" if i < 3 else "V"))[0]) for i, a in enumerate(("xc", "yc", "zc", "vxc", "vyc", "vzc"))] + [float(np.ravel(getattr(cl, a[:-2] + "c"))[0]) for a in SG], np.zeros(12), "made:centre", 0, 0, msg + ": the centre" + when)
        mon.close(gen.val(cl.tphys, "T"), t, "made:time", 1e-12, 0, msg + when)
        mon.ok(cl.units == units and cl.origin == origin, "made:state", "%s%s: units %r origin %r" % (msg, when, cl.units, cl.origin))
    look(" before stars are added")
    mon.ok(cl.ntot == 0 and cl.nb == 0 and all(len(getattr(cl, a)) == 0 for a in AN + ["id", "m0", "kw", "ra", "mb1", "semi"]), "made:empty", msg + " starts with stars")
    if origin == "sky": R[:, 1:] = skyrows(rng, n)[:, 1:]
    q = [R[:, k].copy() for k in (1, 2, 3, 4, 5, 6, 0)]
    if units == "amuse":
        import amuse.units.units as u
        q = [p | e for p, e in zip(q, [u.parsec] * 3 + [u.kms] * 3 + [u.MSun])]
    cl.add_stars(*q); look("")
    if units == "amuse": mon.close(np.c_[[gen.val(getattr(cl, a), d) for a, d in zip(AN, "MLLLVVV")]].T, R, "made:stars", 1e-9, 0, msg)
    else: mon.close(np.c_[[getattr(cl, a) for a in AN]].T, R, "made:stars", 0, 0, msg)


def w_found(mon, rng):
    """a cluster with enough stars for its centre to be found knows after loading where it is: among its stars"""
    kind = str(rng.choice(["text", "table", "amuse", "galpy", "nemo", "new_nemo"])); kind = "text" if kind == "amuse" and not gen.HAVE_AMUSE else kind
    units = str(rng.choice(["kpckms", "pckms", "pcmyr", "kpcgyr", "WDunits"])); origin = str(rng.choice(["galaxy", "galaxy", "cluster"])); S = Settings(rng); T = truth(S); n = int(rng.integers(120, 260)); Lu, Vu, Mu, _ = T.dims(units); an = bool(rng.random() < .6)
    R = np.c_[rng.uniform(.3, 2, n) / Mu, rng.normal(0, 3, (n, 3)) / Lu, rng.normal(0, 2, (n, 3)) / Vu]
    R[:, 1:] += np.r_[rng.normal(0, 8000, 3) / Lu, rng.normal(0, 150, 3) / Vu] if origin == "galaxy" else np.r_[rng.normal(0, 20, 3) / Lu, rng.normal(0, 10, 3) / Vu]
    msg = "%s of %d stars in %s/%s%s" % (kind, n, units, origin, "" if an else " (not analyzed)"); kw = dict(S.kw, units=units, origin=origin, analyze=an); mon.log(msg); mon.seen("found", kind, units, origin, an, n); mon.ev("placed among its stars")
    with Dir() as d:
        if kind == "text":
            np.savetxt(os.path.join(d, "00000.dat"), R, fmt="%.15g"); cl = ct.load_cluster("snapshot", wdir=d + "/" * int(rng.random() < .5), col_names=list(AN), col_nums=list(range(7)), **kw)
        elif kind == "table": cl = ct.load_cluster("astropy_table", particles=Table(R, names=AN), **kw)
        elif kind == "amuse":
            import amuse.units.units as u
            from amuse.datamodel import Particles
            p = Particles(n); p.mass = R[:, 0] * Mu | u.MSun
            for q, a in enumerate("xyz"): setattr(p, a, R[:, 1 + q] * Lu | u.parsec); setattr(p, "v" + a, R[:, 4 + q] * Vu | u.kms)
            cl = ct.load_cluster("amuse", particles=p, **kw)
        elif kind == "galpy":
            x, y, z = R[:, 1:4].T * Lu / 1000. / T.ro; vx, vy, vz = R[:, 4:].T * Vu / T.vo; r = np.hypot(x, y); cl = ct.load_cluster("galpy", particles=Orbit(np.c_[r, (x * vx + y * vy) / r, (x * vy - y * vx) / r, z, vz, np.arctan2(y, x)], ro=T.ro, vo=T.vo), m=R[:, 0] * Mu, **kw)
        else:
            with open(os.path.join(d, "my.nemo"), "w") as f: nemo(f, 1., R)
            cl = ct.load_cluster(kind, wdir=d + "/", filename="my.nemo", give="mxv", **kw)
    c = np.array([float(np.ravel(getattr(cl, a))[0]) for a in ("xc", "yc", "zc", "vxc", "vyc", "vzc")]); g = np.array([float(np.ravel(getattr(cl, a))[0]) for a in gen.GC]); P = np.c_[cl.x, cl.y, cl.z, cl.vx, cl.vy, cl.vz].astype(float)
    mon.close(P, R[:, 1:], "found:stars", 5e-5 if kind == "amuse" else 1e-9, 1e-9 * np.max(np.abs(R[:, 1:]), 0), msg)
    lo, hi = P.min(0), P.max(0); tol = 1e-9 * np.max(np.abs(P), 0)
    def inside(w, what): mon.ok(np.all(w >= lo - tol) and np.all(w <= hi + tol), "found:centre", lambda: "%s: %s is put at %r, its stars between %r and %r" % (msg, what, w.tolist(), lo.tolist(), hi.tolist()))
    if origin == "galaxy":
        inside(g, "the cluster")
        if an: inside(g + c, "its centre")
    elif an and kind != "table" and Lu == 1: inside(c, "its centre")


QF = 8
TF = 6
WORKLOADS = [("found", w_found, 16, 250), ("made", w_made, 40, 600), ("text", w_text, 110, 1800), ("table", w_table, 100, 1500), ("amuse", w_amuse, 40, 500), ("galpy", w_galpy, 60, 800), ("nemo", w_nemo, 60, 800), ("custom", w_custom, 30, 300), ("limepy", w_limepy, 20, 200), ("named", w_named, 12, 150)]
