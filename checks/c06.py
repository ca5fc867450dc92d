"""C06: selections compared with a numpy recomputation from the public star arrays; sub-cluster rows against the parent's rows."""
import numpy as np
from ctv import gen
from ctv.derived import check as derived_check, plain

RULE = ("random clusters with random bound sets (bounds placed exactly on star values, open, empty, reversed), masks as arrays or lists, "
        "3D/projected, every frame/unit incl. radec and amuse; distinct = (representation, set of bounds, projected, mask kind, selection size)")
REQUIRE = {"subset": 500, "exact bounds": 300, "projected": 150, "mask": 150, "sub_cluster": 250, "binaries": 40, "sky parents": 10,
           "empty": 10, "overlap": 60, "energies carried": 60, "wide binaries": 15, "nemo fields": 20, "recentred": 20}
PER = ["x", "y", "z", "vx", "vy", "vz", "m", "id", "m0", "npop"]
SSE = ["kw", "logl", "logr", "ep", "ospin", "lum"]
BSE = ["id1", "id2", "kw1", "kw2", "kcm", "ecc", "pb", "semi", "m1", "m2", "logl1", "logl2", "logr1", "logr2"]
SCAL = ["xc", "yc", "zc", "vxc", "vyc", "vzc", "xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc", "rbar", "zmbar", "vbar", "tbar"]


num = plain


def parent(mon, rng, sky=False):
    T = gen.truth(rng, n=int(rng.choice([1, 2, 5, 30, 60])))
    units, origin = str(rng.choice(gen.UNITS)), str(rng.choice(gen.ORIGINS))
    cl = T.build(units, origin)
    n = T.n
    have = dict(sse=rng.random() < 0.5, en=rng.random() < 0.5, npop=True, amuse=False)
    cl.npop = rng.integers(1, 4, n); cl.m0 = np.asarray(cl.m) * rng.uniform(1, 2, n)
    if have["sse"]:
        cl.add_sse(rng.integers(-1, 17, n) if rng.random() < 0.3 else rng.integers(0, 15, n), rng.normal(0, 1, n), rng.normal(0, 1, n), ep=rng.uniform(0, 1, n), ospin=rng.uniform(0, 1, n))
    if have["en"]:
        k, p = rng.uniform(0, 5, n), -rng.uniform(0, 9, n)
        if rng.random() < 0.5: cl.add_energies(k, p)
        else: cl.add_energies(k, p, etot=rng.normal(0, 1, n))
    have["bse"] = rng.random() < 0.4 and n >= 4
    if have["bse"]:
        nb = int(rng.integers(1, n // 2 + 1))
        d = {k: rng.uniform(0.1, 5, nb) for k in BSE}
        have["wide"] = bool(rng.random() < .5)   # both components listed as stars of their own
        if have["wide"]: q = rng.permutation(n)[:2 * nb]; d["id1"], d["id2"] = cl.id[q[::2]].copy(), cl.id[q[1::2]].copy()
        else: d["id1"] = cl.id[:nb].copy(); d["id2"] = 900000 + np.arange(nb)
        o = {k: rng.uniform(0, 3, nb) for k in ("ep1", "ep2", "ospin1", "ospin2")} if rng.random() < 0.5 else {}
        cl.add_bse(*[d[k] for k in BSE], **o)
    have["give"] = str(rng.choice(["mxv", "mxvpqael", "mxve"], p=[.7, .2, .1]))
    if have["give"] != "mxv":
        cl.give = have["give"]
        for k in ("gyrpot", "gyrq", "gyracc", "eps", "gyrlev"): setattr(cl, k, rng.normal(0, 1, n))
    cl.analyze(sortstars=True)
    if sky:
        cl.to_radec()
    elif gen.HAVE_AMUSE and rng.random() < 0.12:
        cl.to_amuse(); have["amuse"] = True
    return T, cl, have


def draw(mon, rng, cl, have):
    """random bounds and the rows they select, computed from the star arrays"""
    n = len(num(cl.m))
    projected = bool(rng.random() < 0.4)
    P = np.c_[num(cl.x), num(cl.y), num(cl.z)]; W = np.c_[num(cl.vx), num(cl.vy), num(cl.vz)]
    # exactly the arrays the cluster documents as its radii and speeds (C03 decides that they are current)
    R = cl.rpro if projected else cl.r; V = cl.vpro if projected else cl.v
    r, v, m = num(R), num(V), num(cl.m)
    keep = np.ones(n, bool); kw = {}; names = []
    for nm, a, q in (("r", r, R), ("v", v, V), ("m", m, cl.m)) + ((("e", num(cl.etot), cl.etot),) if have["en"] else ()):
        if rng.random() < 0.33:
            mode = str(rng.choice(["exact", "between", "beyond", "reversed"], p=[.55, .35, .07, .03]))
            s = np.sort(a)
            i, j = sorted(rng.integers(0, n, 2))
            lo, hi = s[i], s[j]
            if mode == "exact" and have["amuse"]: mode = "between"
            if mode == "between": lo, hi = lo - 1e-3 * abs(lo), hi + 1e-3 * abs(hi)
            if mode == "beyond": lo, hi = s[-1] * 2 + 1, s[-1] * 3 + 2
            if mode == "reversed": lo, hi = s[-1] + 1, s[0] - 1
            if mode == "exact": mon.ev("exact bounds")
            side = int(rng.integers(0, 3))
            unit = (lambda x: x | {"r": gen.u.parsec, "v": gen.u.kms, "m": gen.u.MSun}[nm]) if have["amuse"] and nm != "e" else (lambda x: x)
            if side in (0, 2): kw[nm + "min"] = unit(lo); keep &= a >= lo
            if side in (1, 2): kw[nm + "max"] = unit(hi); keep &= a <= hi
            names.append((nm, side, mode))
    if have["sse"]:
        lo, hi = 0, 15
        if rng.random() < 0.5:
            lo, hi = sorted(int(k) for k in rng.integers(0, 15, 2)); kw["kwmin"] = lo; kw["kwmax"] = hi; names.append("kw")
        keep &= (cl.kw >= lo) & (cl.kw <= hi)
    if rng.random() < 0.3:
        kw["npop"] = int(rng.integers(1, 4)); keep &= np.asarray(cl.npop) == kw["npop"]; names.append("npop")
    mask = None
    if rng.random() < 0.4:
        mon.ev("mask")
        mask = rng.random(n) < rng.choice([0.2, 0.6, 0.95]); keep &= mask
        mk = str(rng.choice(["array", "array", "list", "none"])) if n > 1 else "array"
        if mk == "none": kw["indx"] = None; keep = keep | False
        if mk == "none":
            # undo the mask: None means every star
            kw.pop("indx"); mask = None
            keep = None
        else:
            kw["indx"] = list(mask) if mk == "list" else mask.copy(); names.append("mask" + mk)
    kw["projected"] = projected
    if projected: mon.ev("projected")
    return kw, keep, names, mask


def drawn(mon, rng, cl, have):
    while True:
        kw, keep, names, mask = draw(mon, rng, cl, have)
        if keep is not None:
            return kw, keep, names, mask


def snap(cl):
    d = {k: num(getattr(cl, k)).copy() for k in PER}
    d.update({k: num(getattr(cl, k)).copy() for k in SCAL + ["tphys", "r", "rpro", "v", "vpro"]})
    d["uo"] = (cl.units, cl.origin)
    return d


def unchanged(mon, a, b, mech):
    mon.ok(a["uo"] == b["uo"], mech, "%s -> %s" % (a["uo"], b["uo"]))
    for k in a:
        if k != "uo":
            mon.close(b[k], a[k], mech, 1e-13, 0, k)


def w_subset(mon, rng):
    T, cl, have = parent(mon, rng, sky=rng.random() < 0.05)
    for _ in range(5):
        kw, keep, names, mask = drawn(mon, rng, cl, have)
        mon.log(cl.units, cl.origin, names); mon.ev("subset")
        before = snap(cl)
        got = cl.subset(**kw)
        if not keep.any(): mon.ev("empty")
        mon.ok(isinstance(got, np.ndarray) and got.dtype == bool and got.shape == keep.shape, "subset-type", "returned %r" % (got,))
        mon.ok(np.array_equal(np.asarray(got, bool), keep), "subset", lambda: "bounds %s: selected %s expected %s" % ({k: v for k, v in kw.items() if k != "indx"}, np.where(got)[0][:30], np.where(keep)[0][:30]))
        if mask is not None:
            mon.ok(np.array_equal(np.asarray(kw["indx"]), mask), "mask-modified", "the caller's selection changed")
        unchanged(mon, before, snap(cl), "subset-parent")
        mon.seen("subset", cl.units, cl.origin, tuple(map(str, names)), kw["projected"], int(keep.sum()))


def w_sub(mon, rng):
    import clustertools as ct
    sky = rng.random() < 0.12
    T, cl, have = parent(mon, rng, sky)
    kw, keep, names, mask = drawn(mon, rng, cl, have)
    sort = bool(rng.random() < 0.6)
    mon.log(cl.units, cl.origin, names, sort); mon.ev("sub_cluster")
    if sky: mon.ev("sky parents")
    before = snap(cl); par = {k: np.array(getattr(cl, k)) for k in SSE + BSE + ["ep1", "ep2", "ospin1", "ospin2", "kin", "pot", "etot", "ra", "dec", "dist", "pmra", "pmdec", "vlos"]}
    sub = ct.sub_cluster(cl, sortstars=sort, **kw)
    unchanged(mon, before, snap(cl), "sub-parent")
    if mask is not None: mon.ok(np.array_equal(np.asarray(kw["indx"]), mask), "mask-modified", "the caller's selection changed")
    mon.ok((sub.units, sub.origin) == (cl.units, cl.origin), "sub-frame", "sub-cluster is in %s/%s, parent in %s/%s" % (sub.units, sub.origin, cl.units, cl.origin))
    mon.close(num(sub.tphys), num(cl.tphys), "sub-time", 1e-13, 0)
    mon.seen("sub", cl.units, cl.origin, tuple(map(str, names)), kw["projected"], int(keep.sum()))
    if not keep.any():
        mon.ev("empty"); mon.ok(sub.ntot == 0, "sub-empty", "%r stars for an empty selection" % sub.ntot); return
    mon.ok(sub.ntot == int(keep.sum()), "sub-count", "%d stars expected %d" % (sub.ntot, keep.sum()))
    for k in PER: mon.close(num(getattr(sub, k)), before[k][keep], "sub-rows:" + k.lstrip("v"), 1e-13, 0, k)
    for k in SCAL: mon.close(num(getattr(sub, k)), before[k], "sub-frame:" + ("scale" if k in SCAL[-4:] else "centre" if k[-1] == "c" and "g" not in k else "orbit"), 1e-13, 0, k)
    for k in ("_ro", "_vo", "_zo"): mon.ok(getattr(sub, k) == getattr(cl, k), "sub-frame:constants", k)
    mon.ok(list(sub._solarmotion) == list(cl._solarmotion), "sub-frame:constants", "solarmotion")
    if have["sse"]:
        for k in SSE: mon.close(getattr(sub, k), par[k][keep], "sub-sse", 1e-13, 0, k)
    if have["en"]:
        mon.ev("energies carried")
        for k in ("kin", "pot", "etot"): mon.close(getattr(sub, k), par[k][keep], "sub-energies", 1e-13, 0, k)
        mon.close(sub.ektot, np.sum(par["kin"][keep]), "sub-energies", 1e-12, 0, "ektot")
    if have["bse"]:
        mon.ev("binaries")
        b = np.isin(par["id1"], before["id"][keep]) | np.isin(par["id2"], before["id"][keep]); mon.ev("wide binaries", have["wide"])
        for k in BSE: mon.close(getattr(sub, k), par[k][b], "sub-bse", 0, 0, k)
        if len(par["ep1"]):
            for k in ("ep1", "ep2", "ospin1", "ospin2"): mon.close(getattr(sub, k), par[k][b], "sub-bse", 0, 0, k)
    if have["give"] != "mxv":
        mon.ev("nemo fields"); mon.ok(sub.give == cl.give, "sub-nemo", "give is %r, of the parent %r" % (sub.give, cl.give))
        for k in ("eps",) if cl.give == "mxve" else ("gyrpot", "gyrq", "gyracc", "eps", "gyrlev"): mon.close(getattr(sub, k), getattr(cl, k)[keep], "sub-nemo", 0, 0, k)
    if sky:
        for k in ("ra", "dec", "dist", "pmra", "pmdec", "vlos"): mon.close(getattr(sub, k), par[k][keep], "sub-sky", 1e-13, 0, k)
    else:
        if not have["amuse"]: derived_check(mon, sub, "sub-derived", orders=sort)
        # the sub-cluster is independent of its parent
        sub.to_kpckms(); sub.x += 1.0; sub.m *= 2
        unchanged(mon, before, snap(cl), "sub-shares")


def w_components(mon, rng):
    """binaries added with their components stay attached to their own rows"""
    import clustertools as ct
    cl = ct.StarCluster(units="pckms", origin="cluster")
    nb, ns = int(rng.integers(1, 8)), int(rng.integers(1, 20))
    A = rng.normal(0, 5, (6, nb)); B = A + rng.normal(0, .1, (6, nb)); m1, m2 = rng.uniform(.1, 2, (2, nb))
    cl.add_binary_stars(*A, *B, mb1=m1, mb2=m2)
    cl.add_stars(*rng.normal(0, 5, (6, ns)), m=rng.uniform(.1, 2, ns))
    mask = rng.random(nb + ns) < 0.5
    mon.ev("binaries")
    sub = ct.sub_cluster(cl, indx=mask.copy())
    mon.seen("comp", nb, ns, int(mask.sum()))
    if mask.any():
        s = mask[:nb]
        mon.close(sub.id, cl.id[mask], "component-rows", 0, 0, "id")
        mon.close(sub.m, cl.m[mask], "component-rows", 0, 0, "m")
        mon.close(sub.xb1, A[0][s], "components", 0, 0, "xb1"); mon.close(sub.vzb2, B[5][s], "components", 0, 0, "vzb2"); mon.close(sub.mb1, m1[s], "components", 0, 0, "mb1")
        mon.close(sub.id2, cl.id2[s], "components", 0, 0, "id2")


def w_scale(mon, rng):
    """reset options change the N-body scale of the sub-cluster only"""
    import clustertools as ct
    T = gen.truth(rng, n=int(rng.integers(8, 40)), kind="gauss")
    units, origin = str(rng.choice(["pckms", "kpckms", "pcmyr", "galpy"])), str(rng.choice(["centre", "cluster"]))
    cl = T.build(units, origin)
    mask = rng.random(T.n) < 0.7; mask[:4] = True
    before = snap(cl)
    mode = str(rng.choice(["all", "mass", "radii"])); rv = bool(rng.random() < 0.5)
    kw = dict(all=dict(reset_nbody=True), mass=dict(reset_nbody_mass=True), radii=dict(reset_nbody_radii=True))[mode]
    mon.log(units, origin, mode, rv); mon.ev("rescaled")
    sub = ct.sub_cluster(cl, indx=mask.copy(), reset_rvirial=rv, **kw)
    unchanged(mon, before, snap(cl), "reset-parent")
    L, V, M, Tm = T.dims(units)
    mon.ok((sub.units, sub.origin) == (units, origin), "reset-frame", "%s/%s" % (sub.units, sub.origin))
    for k in PER: mon.close(num(getattr(sub, k)), before[k][mask], "reset-rows", 1e-9, 1e-9 * np.max(np.abs(before[k])), k)
    msun = T.m[mask]
    mon.close(sub.zmbar, np.sum(msun) if mode != "radii" else cl.zmbar, "reset-mass", 1e-9, 0, mode)
    if mode == "mass": mon.close(sub.rbar, cl.rbar, "reset-radius", 1e-12, 0, mode)
    mon.seen("scale", units, origin, mode, rv)


def w_recentre(mon, rng):
    """reset_centre gives the sub-cluster its own centre and leaves its stars where they are"""
    import clustertools as ct
    T = gen.truth(rng, n=int(rng.integers(8, 60)), kind="gauss"); units, origin = str(rng.choice(["pckms", "kpckms", "pcmyr"])), str(rng.choice(["cluster", "galaxy"]))
    cl = T.build(units, origin); mask = rng.random(T.n) < .7; mask[:6] = True; before = snap(cl); mon.log(units, origin, int(mask.sum())); mon.ev("recentred")
    sub = ct.sub_cluster(cl, indx=mask.copy(), reset_centre=True); unchanged(mon, before, snap(cl), "recentre-parent")
    for k in PER: mon.close(num(getattr(sub, k)), before[k][mask], "recentre-rows", 1e-12, 0, k)
    ref = ct.StarCluster(units=units, origin=origin); ref.add_stars(*[before[k][mask] for k in ("x", "y", "z", "vx", "vy", "vz", "m", "id")])
    if origin == "cluster": c = ref.find_centre(0., 0., 0.); want = np.r_[before["xgc"], before["ygc"], before["zgc"], before["vxgc"], before["vygc"], before["vzgc"]] * 1.; cen = np.array(c)
    else: cen = np.zeros(6); want = np.array(ref.find_centre())
    mon.close([getattr(sub, k) for k in gen.GC], want, "recentre-orbit", 1e-9, 1e-9, origin); mon.close([getattr(sub, k) for k in ("xc", "yc", "zc", "vxc", "vyc", "vzc")], cen, "recentre-centre", 1e-9, 1e-9, origin)
    cl.to_galaxy(); sub.to_galaxy(); mon.close(np.c_[sub.x, sub.y, sub.z], np.c_[cl.x, cl.y, cl.z][mask], "recentre-place", 1e-9, 1e-9 * np.max(np.abs(cl.x)), "galactocentric positions")
    mon.seen("recentre", units, origin, T.n, int(mask.sum()))


def w_overlap(mon, rng):
    import clustertools as ct
    T1 = gen.truth(rng, n=int(rng.integers(1, 40)), kind="gauss"); T2 = gen.truth(rng, n=int(rng.integers(1, 40)), kind="gauss")
    T2.pos = T2.pos + rng.normal(0, 2, 3)
    units = str(rng.choice(["pckms", "kpckms"])); L = T1.dims(units)[0]
    a = T1.build(units, "cluster"); b = T2.build(units, "cluster")
    projected = bool(rng.random() < 0.5)
    k = 2 if projected else 3
    d = np.sqrt(((T1.pos[:, None, :k] - T2.pos[None, :, :k]) ** 2).sum(2)).min(1) / L
    tol = float(np.sort(d)[rng.integers(0, len(d))] * rng.choice([0.999, 1.001]))
    mon.ev("overlap"); mon.log(units, projected, tol)
    ba, bb = snap(a), snap(b)
    got = ct.overlap_cluster(a, b, tol=tol, projected=projected, return_cluster=False)
    mon.ok(np.array_equal(np.asarray(got), d < tol), "overlap", lambda: "%s expected %s" % (np.where(got)[0], np.where(d < tol)[0]))
    sub = ct.overlap_cluster(a, b, tol=tol, projected=projected)
    mon.ok(sorted(sub.id) == sorted(T1.ids[d < tol]), "overlap-cluster", "ids")
    unchanged(mon, ba, snap(a), "overlap-parent"); unchanged(mon, bb, snap(b), "overlap-parent")
    mon.seen("overlap", units, projected, T1.n, T2.n, int((d < tol).sum()))


WORKLOADS = [("subset", w_subset, 140, 3000), ("sub", w_sub, 320, 5000), ("components", w_components, 30, 300),
             ("scale", w_scale, 30, 300), ("overlap", w_overlap, 70, 600), ("recentre", w_recentre, 30, 300)]
