"""Random selections (bounds placed between star values) and the stars they select, plus clusters with types/populations."""
import numpy as np
from . import gen


def between(rng, a):
    """two bounds lying strictly between values of a, wide enough to keep most of it"""
    s = np.unique(a); k = len(s)
    i = int(rng.integers(0, max(1, k // 3))); j = int(rng.integers(max(i + 1, (2 * k) // 3), k)) if k > i + 1 else k - 1
    lo = s[0] - abs(s[0]) * .1 - 1e-12 if i == 0 else .5 * (s[i - 1] + s[i])
    hi = s[-1] + abs(s[-1]) * .1 + 1e-12 if j >= k - 1 else .5 * (s[j] + s[j + 1])
    return float(lo), float(hi)


def choose(mon, rng, arr, least, p=.3):
    """arr: r, v, m and optionally e, kw, npop.  Returns (keyword arguments, boolean array)."""
    n = len(arr["m"])
    for tries in range(12):
        kw, keep = {}, np.ones(n, bool); q = p if tries < 8 else 0
        for nm in "rvme":
            if arr.get(nm) is not None and rng.random() < q:
                lo, hi = between(rng, arr[nm]); side = int(rng.integers(0, 3))
                if side != 1: kw[nm + "min"] = lo; keep &= arr[nm] >= lo
                if side != 0: kw[nm + "max"] = hi; keep &= arr[nm] <= hi
        if arr.get("kw") is not None:
            lo, hi = arr["kwdef"]
            if rng.random() < .6 or tries >= 8: lo, hi = 0, 14; kw["kwmin"] = lo; kw["kwmax"] = hi
            keep &= (arr["kw"] >= lo) & (arr["kw"] <= hi)
        if arr.get("npop") is not None and rng.random() < q * .7:
            kw["npop"] = int(rng.integers(1, 3)); keep &= arr["npop"] == kw["npop"]
        if rng.random() < q:
            mask = rng.random(n) < .85; keep &= mask; kw["indx"] = mask
        if keep.sum() >= least:
            for k in kw: mon.ev("selection " + (k if k in ("indx", "npop") else k[:-3]))
            return kw, keep
    return {"kwmin": 0, "kwmax": 15} if arr.get("kw") is not None else {}, np.ones(n, bool)


def cluster(mon, rng, n, kind=None, amuse=.06, energies=True, **kw):
    """(truth, cluster, units, origin, is_amuse, arrays) with arrays in the cluster's units about the frame analyses use"""
    T = gen.truth(rng, n=n, kind=kind, **kw)
    units = str(rng.choice(gen.UNITS)); origin = str(rng.choice(gen.ORIGINS)); am = gen.HAVE_AMUSE and rng.random() < amuse
    if am: units = "pckms"
    pj = bool(rng.random() < .3); cl = T.build(units, origin, analyze=bool(rng.random() < .7), sort=False, projected=pj); mon.ev("projected cluster", pj)
    arr = dict(kw=None, npop=None, e=None)
    if rng.random() < .4:
        arr["kw"] = rng.choice([0, 0, 1, 1, 2, 10, 13], n); cl.add_sse(arr["kw"].copy(), rng.normal(0, 1, n), rng.normal(0, 1, n))
    if rng.random() < .4:
        arr["npop"] = rng.integers(1, 3, n); cl.npop = arr["npop"].copy()
    if energies and not am and rng.random() < .3:
        k, p = rng.uniform(0, 5, n), -rng.uniform(0, 9, n); cl.add_energies(k, p); arr["e"] = k + p
    srt = bool(rng.random() < .5); cl.analyze(sortstars=srt); mon.ev("unsorted start", not srt)
    fr = "centre" if origin == "galaxy" else origin
    e = T.expect(units, fr); P, W = e["pos"], e["vel"]
    arr.update(P=P, W=W, m=e["m"], r3=np.sqrt(np.sum(P ** 2, 1)), r2=np.sqrt(np.sum(P[:, :2] ** 2, 1)), v3=np.sqrt(np.sum(W ** 2, 1)), v2=np.sqrt(np.sum(W[:, :2] ** 2, 1)))
    # rounding of positions/velocities that went through a galactocentric frame, in current units
    Lu, Vu = T.dims(units)[:2]
    arr["er"] = 1e-15 * 20 * (np.max(np.abs(T.gc)) + np.max(np.abs(T.c)) + np.max(np.abs(T.pos))) / Lu
    arr["ev"] = 1e-15 * 20 * (np.max(np.abs(T.vgc)) + np.max(np.abs(T.vc)) + np.max(np.abs(T.vel))) / Vu
    if am: cl.to_amuse(); mon.ev("amuse")
    mon.ev("galaxy origin", origin == "galaxy")
    return T, cl, units, origin, am, arr


def numbins(x, k):
    s = np.sort(x); cut = (np.arange(k) * len(x) / k).astype(int); lo = s[cut]; up = np.r_[lo[1:], s[-1]]; ok = lo != up
    return lo[ok], up[ok]


def member(x, lo, up):
    """boolean (bins, points): half-open bins, the last one closed"""
    out = (x >= lo[:, None]) & (x < up[:, None]); out[-1] |= (x == up[-1]); return out
