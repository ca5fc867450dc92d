"""C05: a model of the rows that were added is kept beside the cluster and compared after every call."""
import numpy as np
from ctv import gen
from ctv.derived import check as derived_check

RULE = ("seeded histories of add_stars / add_binary_stars / add_sse / add_bse / add_energies calls (scalars, ints, lists, one star, "
        "no masses, no ids, binaries before/after singles, several batches, radec/sky input, frame and unit); "
        "distinct = (sequence of calls, sizes, options)")
REQUIRE = {"calls": 600, "binary batches": 150, "second binary batch": 40, "automatic ids": 150, "single binary": 20, "one value for all": 60, "sse": 50,
           "bse": 30, "energies": 40, "scalar": 20, "sky": 20, "actions": 200}
COLS = ["x", "y", "z", "vx", "vy", "vz"]


class Model(object):
    def __init__(self):
        self.rows = {k: np.zeros(0) for k in COLS + ["m", "m0", "npop", "id"]}
        self.comp = {k: np.zeros(0) for k in [c + "b" + s for c in COLS for s in "12"] + ["mb1", "mb2"]}
        self.nb = 0

    def put(self, new, front):
        for k in self.rows:
            self.rows[k] = np.r_[new[k], self.rows[k]] if front else np.r_[self.rows[k], new[k]]


def block(rng, n, uniq, sky=False):
    d = {k: rng.normal(0, 10, n) for k in COLS}
    if sky:
        d["x"] = rng.uniform(1, 359, n); d["y"] = rng.uniform(-80, 80, n); d["z"] = rng.uniform(0.5, 60, n)
    d["m"] = 10 ** rng.uniform(-2, 2, n); d["m0"] = d["m"] * rng.uniform(1, 3, n)
    d["npop"] = rng.integers(1, 4, n).astype(float)
    d["id"] = np.array([uniq.pop() for _ in range(n)], float)
    return d


def com(d, a, b, k):
    return (d[k][a] * d["m"][a] + d[k][b] * d["m"][b]) / (d["m"][a] + d["m"][b])


def compare(mon, cl, M, auto, msg):
    n = len(M.rows["x"])
    mon.ok(cl.ntot == n, "ntot", "%s: ntot=%r for %d rows" % (msg, cl.ntot, n))
    mon.ok(cl.nb == M.nb, "nb", "%s: nb=%r for %d binaries" % (msg, cl.nb, M.nb))
    mon.ok(cl.ns == n - M.nb, "ns", "%s: ns=%r for %d singles" % (msg, cl.ns, n - M.nb))
    for k in COLS + ["m", "m0", "npop"]:
        mon.close(getattr(cl, k), M.rows[k], "rows:" + ("velocity" if k[0] == "v" else "position" if k in "xyz" else k), 1e-13, 1e-12, "%s %s" % (msg, k))
    ids = np.asarray(cl.id)
    mon.ok(len(ids) == n and len(np.unique(ids)) == n, "ids-unique", lambda: "%s: ids %s" % (msg, ids[:40]))
    if len(ids) == n:
        g = ~np.isnan(M.rows["id"])
        mon.ok(np.array_equal(ids[g], M.rows["id"][g].astype(int)), "ids-kept", lambda: "%s: ids %s expected %s" % (msg, ids[:40], M.rows["id"][:40]))
        mon.ok(np.issubdtype(ids.dtype, np.integer), "ids-integer", "%s: id dtype %s" % (msg, ids.dtype))
        # remember automatic ids: they may not change later
        M.rows["id"] = ids.astype(float)
    for k, v in M.comp.items():
        mon.close(getattr(cl, k), v, "components", 0, 0, "%s %s" % (msg, k))
    # conservation against the raw inputs
    if n and cl.origin != "sky":
        P = sum(M.raw_p); mon.close([np.sum(cl.m * cl.vx), np.sum(cl.m * cl.vy), np.sum(cl.m * cl.vz)], P, "momentum", 1e-9, 1e-9 * M.abs_p, msg)
        Q = sum(M.raw_q); mon.close([np.sum(cl.m * cl.x), np.sum(cl.m * cl.y), np.sum(cl.m * cl.z)], Q, "first-moment", 1e-9, 1e-9 * M.abs_q, msg)
        mon.close(np.sum(cl.m), M.raw_m, "mass", 1e-12, 0, msg)


def w_add(mon, rng, sky=False):
    import clustertools as ct
    units, origin = ("radec", "sky") if sky else (str(rng.choice(["pckms", "kpckms", "nbody", "galpy"])), str(rng.choice(gen.ORIGINS)))
    cl = ct.StarCluster(units=units, origin=origin)
    M = Model(); M.raw_p = [np.zeros(3)]; M.raw_q = [np.zeros(3)]; M.raw_m = 0.0; M.abs_p = M.abs_q = 1e-30
    uniq = list(rng.permutation(np.arange(100, 4000)))
    auto_mode = rng.random() < 0.5            # one cluster: either all ids given or all automatic
    seq = []
    comp_ids = []
    for step in range(int(rng.integers(1, 6))):
        kind = str(rng.choice(["singles", "stars+nb", "binary", "scalar"], p=[.35, .3, .25, .1]))
        n = int(rng.choice([1, 2, 3, 10]))
        nb = 0
        if kind == "stars+nb":
            nb = int(rng.choice([1, 2, 5])); n = 2 * nb + int(rng.choice([0, 1, 4]))
        if kind == "binary":
            nb = int(rng.choice([1, 2, 4])); n = 2 * nb
        if kind == "scalar":
            n = 1
        d = block(rng, n, uniq, sky)
        give = {k: rng.random() < 0.7 for k in ("m", "m0", "npop")}
        if not give["m"]: d["m"] = np.ones(n)
        if not give["m0"]: d["m0"] = np.zeros(n)
        if not give["npop"]: d["npop"] = np.ones(n)
        kw = {k: d[k].copy() for k in give if give[k]}
        if not auto_mode: kw["id"] = d["id"].astype(int)
        analyze = bool(rng.random() < 0.7); sort = bool(rng.random() < 0.5)
        tag = (kind, n, nb, auto_mode, tuple(sorted(kw)), analyze, sort)
        seq.append(tag); mon.log(*tag); mon.ev("calls")
        if auto_mode: mon.ev("automatic ids")
        if sky: mon.ev("sky")
        if nb:
            mon.ev("binary batches")
            if M.nb: mon.ev("second binary batch")
            if nb == 1: mon.ev("single binary")
        keep = {k: v.copy() for k, v in d.items()}
        if kind == "binary":
            a = np.arange(nb); b = a + nb
            bk = {}
            if give["m"]: bk.update(mb1=d["m"][a], mb2=d["m"][b])
            if give["m0"]: bk.update(m01=d["m0"][a], m02=d["m0"][b])
            if give["npop"]:
                d["npop"][b] = d["npop"][a]
                bk.update(npop1=d["npop"][a], npop2=d["npop"][b])
            if not auto_mode: bk.update(id1=d["id"][a].astype(int), id2=d["id"][b].astype(int))
            if not give["m0"]: d["m0"][:] = 0
            args = [d[k][a] for k in COLS] + [d[k][b] for k in COLS]
            if nb == 1 and rng.random() < 0.5:
                args = [float(p[0]) for p in args]; mon.ev("scalar"); mon.log("floats")
                bk = {k: v[0].item() if hasattr(v[0], "item") else v[0] for k, v in bk.items()}
            cl.add_binary_stars(*args, **bk)
            analyze = True
        else:
            args = [d[k].copy() for k in COLS]
            if kind == "scalar":
                mon.ev("scalar")
                t = int(rng.integers(0, 3))
                if t == 0: args = [float(p[0]) for p in args]
                elif t == 1:
                    for k in COLS: d[k] = np.round(d[k])
                    args = [int(d[k][0]) for k in COLS]
                else: args = [d[k][0] for k in COLS]            # numpy scalars
                kw = {k: (v[0] if rng.random() < 0.5 else v[0].item()) for k, v in kw.items()}
            elif rng.random() < 0.2:
                args = [list(p) for p in args]; mon.log("lists")
            a = np.arange(0, 2 * nb, 2); b = a + 1
            if nb: d["npop"][b] = d["npop"][a]
            if nb and "npop" in kw: kw["npop"] = d["npop"].copy()
            if kind != "scalar" and rng.random() < 0.25:                          # one value for all of them
                for k in rng.choice(["z", "vz", "vy", "m", "m0", "npop"], 2, replace=False):
                    k = str(k)
                    if k in kw: d[k][:] = d[k][0]; kw[k] = d[k][0].item(); mon.ev("one value for all")
                    elif k in COLS: d[k][:] = d[k][0]; args[COLS.index(k)] = float(d[k][0]); mon.ev("one value for all")
            cl.add_stars(*args, nb=nb, analyze=analyze, sortstars=sort, **kw)
        if nb:
            mm = d["m"][a] + d["m"][b]
            new = {k: com(d, a, b, k) for k in COLS}
            new.update(m=mm, m0=d["m0"][a] + d["m0"][b], npop=d["npop"][a],
                       id=np.full(nb, np.nan) if auto_mode else d["id"][a])
            M.put(new, True)
            for k in COLS:
                M.comp[k + "b1"] = np.r_[d[k][a], M.comp[k + "b1"]]; M.comp[k + "b2"] = np.r_[d[k][b], M.comp[k + "b2"]]
            M.comp["mb1"] = np.r_[d["m"][a], M.comp["mb1"]]; M.comp["mb2"] = np.r_[d["m"][b], M.comp["mb2"]]
            M.nb += nb
        if n > 2 * nb:
            new = {k: d[k][2 * nb:] for k in COLS + ["m", "m0", "npop"]}
            new["id"] = np.full(n - 2 * nb, np.nan) if auto_mode else d["id"][2 * nb:]
            M.put(new, False)
        P = np.c_[d["vx"], d["vy"], d["vz"]] * d["m"][:, None]; Q = np.c_[d["x"], d["y"], d["z"]] * d["m"][:, None]
        M.raw_p.append(P.sum(0)); M.raw_q.append(Q.sum(0)); M.raw_m += d["m"].sum(); M.abs_p += np.abs(P).sum(); M.abs_q += np.abs(Q).sum()
        compare(mon, cl, M, auto_mode, "after %s" % (tag,))
        if not sky and analyze:
            mon.close(cl.mtot, np.sum(M.rows["m"]), "analyzed", 1e-12, 0, "mtot after %s" % (tag,))
            mon.close(cl.r, np.sqrt(M.rows["x"] ** 2 + M.rows["y"] ** 2 + M.rows["z"] ** 2), "analyzed", 1e-12, 1e-12, "r after %s" % (tag,))
        if sky:
            for k, a_ in zip(COLS, ("ra", "dec", "dist", "pmra", "pmdec", "vlos")):
                mon.close(getattr(cl, a_), M.rows[k], "sky", 1e-13, 1e-12, "%s after %s" % (a_, tag))
    mon.seen(units, origin, tuple(seq))
    if auto_mode and len(cl.id1) and len(cl.id1) == M.nb:
        every = np.r_[cl.id, cl.id2]
        mon.ok(len(np.unique(every)) == len(every), "component-ids-unique", lambda: "ids %s secondaries %s" % (cl.id, cl.id2))
    return cl, M


def w_sky(mon, rng):
    w_add(mon, rng, sky=True)


def w_later(mon, rng):
    """stellar evolution, binary and energy data added to existing rows"""
    cl, M = w_add(mon, rng)
    n = cl.ntot
    kw = rng.integers(0, 15, n); logl = rng.normal(0, 1.5, n); logr = rng.normal(-1, 1, n); ep = rng.uniform(0, 5, n); osp = rng.uniform(0, 9, n)
    mode = str(rng.choice(["once", "pieces", "arg", "argpieces", "plain", "argplain"]))
    mon.ev("sse"); mon.log("sse", mode)
    cut = int(rng.integers(0, n + 1))
    if mode == "once": cl.add_sse(kw, logl, logr, ep=ep, ospin=osp)
    elif mode == "plain": cl.add_sse(kw, logl, logr); ep = osp = np.zeros(n)
    elif mode == "pieces":
        for s in (slice(0, cut), slice(cut, n)):
            if len(kw[s]): cl.add_sse(kw[s], logl[s], logr[s], ep=ep[s], ospin=osp[s])
    elif mode in ("arg", "argplain"):
        p = rng.permutation(n)
        if mode == "arg": cl.add_sse(kw[p], logl[p], logr[p], ep=ep[p], ospin=osp[p], arg=p)
        else: cl.add_sse(kw[p], logl[p], logr[p], arg=p); ep = osp = np.zeros(n)
    else:
        for s in (slice(0, cut), slice(cut, n)):
            k = len(kw[s])
            if k:
                p = rng.permutation(k); cl.add_sse(kw[s][p], logl[s][p], logr[s][p], ep=ep[s][p], ospin=osp[s][p], arg=p)
    for a, w in (("kw", kw), ("logl", logl), ("logr", logr), ("ep", ep), ("ospin", osp), ("lum", 10.0 ** logl)):
        mon.close(getattr(cl, a), w, "sse", 1e-13, 0, "%s (%s)" % (a, mode))
    mon.close(cl.ltot, np.sum(10.0 ** logl), "ltot", 1e-12, 0, mode)
    if rng.random() < 0.7:
        for _ in range(int(rng.integers(1, 3))):
            mon.ev("energies")
            kin = rng.uniform(0, 5, n); pot = -rng.uniform(1, 9, n)
            if rng.random() < 0.3: pot[rng.integers(0, n)] = np.nan
            cl.add_energies(kin, pot)
            mon.close(cl.kin, kin, "energies", 0, 0); mon.close(cl.pot, pot, "energies", 0, 0); mon.close(cl.etot, kin + pot, "energies", 1e-14, 0)
            mon.close(cl.ektot, np.nansum(kin), "energy totals", 1e-12); mon.close(cl.ptot, np.nansum(pot) / 2, "energy totals", 1e-12)
            mon.close(cl.qvir, np.nansum(kin) / (np.nansum(pot) / 2) if np.nansum(pot) else cl.qvir, "energy totals", 1e-12, msg="qvir")
        et = rng.normal(0, 1, n); cl.add_energies(kin, pot, etot=et); mon.close(cl.etot, et, "energies", 0, 0, "given etot")
    for fn, suf, k in (("add_action", "", ()), ("add_actions", "s", n)):
        d = {q: rng.uniform(1, 9, k) for q in ("JR", "Jphi", "Jz", "OR", "Ophi", "Oz", "TR", "Tphi", "Tz")}; full = rng.random() < .7; mon.ev("actions")
        if full: getattr(cl, fn)(*[d[q] for q in ("JR", "Jphi", "Jz")], **{q: d[q] for q in d if q[0] != "J"}) if rng.random() < .5 else getattr(cl, fn)(*d.values())
        else: getattr(cl, fn)(*[d[q] for q in ("JR", "Jphi", "Jz")])
        for q in d:
            if q[0] == "J" or full: mon.close(getattr(cl, q + suf), d[q], "actions", 0, 0, q + suf)
            else: mon.ok(getattr(cl, q + suf) is None, "actions", "%s=%r was never given" % (q + suf, getattr(cl, q + suf)))
    if rng.random() < 0.6:
        mon.ev("bse")
        nb = max(M.nb, int(rng.integers(1, 5)))
        c = ct_new()
        cols = ["id1", "id2", "kw1", "kw2", "kcm", "ecc", "pb", "semi", "m1", "m2", "logl1", "logl2", "logr1", "logr2"]
        d = {k: rng.uniform(0.1, 5, nb) for k in cols}; opt = ["ep1", "ep2", "ospin1", "ospin2"]
        o = {k: rng.uniform(0, 3, nb) for k in opt} if rng.random() < 0.5 else {}
        cut = int(rng.integers(0, nb + 1))
        for s in (slice(0, cut), slice(cut, nb)):
            if len(d["m1"][s]): c.add_bse(*[d[k][s] for k in cols], **{k: v[s] for k, v in o.items()})
        for k in cols: mon.close(getattr(c, k), d[k], "bse", 0, 0, k)
        for k in o: mon.close(getattr(c, k), o[k], "bse", 0, 0, k)
        mon.close(c.eb, 0.5 * d["m1"] * d["m2"] / d["semi"], "bse", 1e-13, 0, "eb"); mon.ok(c.nb == nb, "bse", "nb")


def ct_new():
    import clustertools as ct
    return ct.StarCluster(units="nbody", origin="cluster")


def w_amuse(mon, rng):
    """stars given as AMUSE quantities arrive with the same physical values"""
    if not gen.HAVE_AMUSE:
        mon.ev("amuse skipped"); return
    import clustertools as ct
    u = gen.u
    units = str(rng.choice(["amuse", "amuse", "pckms", "kpckms", "pcmyr", "kpcgyr", "galpy"]))
    tt = float(rng.uniform(1, 9000)); q = bool(rng.random() < 0.5) and units == "amuse"; TT = gen.Truth([1.0], [[0, 0, 0]], [[0, 0, 0]]).dims(units)[3]
    cl = ct.StarCluster(((tt | u.Myr).in_(u.Gyr) if q else tt / TT), units=units, origin="cluster") if units != "amuse" or rng.random() < .5 else ct.StarCluster((tt | u.Myr) if q else tt, ctype="amuse", origin="cluster")
    given = rng.random() < 0.5
    P = np.zeros((0, 3)); W = np.zeros((0, 3)); mm = np.zeros(0); ids = np.zeros(0)
    for step in range(int(rng.integers(1, 3))):
        n = int(rng.choice([1, 2, 9])); p = rng.normal(0, 10, (n, 3)); w = rng.normal(0, 5, (n, 3)); m = rng.uniform(0.1, 3, n); one = rng.random() < .2
        if one: m[:] = m[0]
        i = np.arange(n) + 50 * step + 1
        lu = [u.parsec, u.kpc][int(rng.integers(0, 2))]; vu = [u.kms, u.ms][int(rng.integers(0, 2))]
        q = [(p[:, k] | u.parsec).in_(lu) for k in range(3)] + [(w[:, k] | u.kms).in_(vu) for k in range(3)]
        mon.log("amuse", n, lu, vu); mon.ev("amuse")
        cl.add_stars(*q, m=((m[0] if one else m) | u.MSun), **({"id": i} if given else {}))
        mon.ok(cl.units == units, "amuse-units", "units %r after adding AMUSE stars to a cluster in %r" % (cl.units, units))
        P = np.r_[P, p]; W = np.r_[W, w]; mm = np.r_[mm, m]; ids = np.r_[ids, i]
        L, V, M, T = gen.Truth([1.0], [[0, 0, 0]], [[0, 0, 0]]).dims(units)
        mon.ok(units != "amuse" or hasattr(cl.tphys, "value_in"), "amuse-time", "tphys=%r in AMUSE units" % (cl.tphys,)); mon.close(gen.val(cl.tphys, "T"), tt / T, "amuse-time", 1e-4, 0, "tphys in %s" % units)
        for k, a in enumerate("xyz"):
            mon.close(gen.val(getattr(cl, a), "L"), P[:, k] / L, "amuse", 1e-6, 1e-12, a); mon.close(gen.val(getattr(cl, "v" + a), "V"), W[:, k] / V, "amuse", 5e-5, 1e-12, "v" + a)   # AMUSE year vs Julian year
        mon.close(gen.val(cl.m, "M"), mm / M, "amuse", 1e-11, 0, "m")
        if given: mon.close(np.asarray(cl.id, float), ids, "amuse-ids", 0, 0, "ids")
        mon.ok(len(np.unique(cl.id)) == len(ids), "amuse-ids", "ids %s" % (cl.id,))
        mon.ok(cl.ntot == len(ids), "ntot", "amuse")
        mon.seen("amuse", units, given, n, step, str(lu), str(vu))


WORKLOADS = [("add", w_add, 260, 4000), ("sky", w_sky, 40, 400), ("later", w_later, 120, 1500), ("amuse", w_amuse, 12, 100)]
