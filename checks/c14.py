"""C14: every recipe call is recounted directly from its input array."""
import numpy as np
from clustertools.util import recipes as R
from ctv import taper

RULE = ("Random arrays (uniform, log-normal, tied, integer, sorted/reversed, negative, tiny and huge scales, 2-400 points) through each recipe; "
        "each returned bin is recounted from the raw data; distinct by (recipe, shape, size, bins, options).")
REQUIRE = {"nbinmaker": 200, "binmaker": 200, "roaming_nbinmaker": 150, "roaming_binmaker": 150, "power_law": 100, "dx_function": 80,
           "x_hist": 80, "mean_prof": 100, "smooth": 80, "bin_index": 100, "interpolate": 50, "minimum_distance": 30, "tied arrays": 50, "tapered": 150, "tapered errors": 30, "tapered user bins": 40}
ASSUMPTIONS = ["arrays hold at least two distinct finite values"]


def arr(mon, rng, positive=False, nmin=2):
    n = int(rng.integers(nmin, 40)) if rng.random() < .5 else int(rng.integers(max(40, nmin), 400))
    k = int(rng.integers(0, 6))
    if k == 0: x = rng.uniform(0.1, 10, n)
    elif k == 1: x = 10 ** rng.normal(0, 1, n)
    elif k == 2: x = rng.integers(1, 6, n).astype(float); mon.ev("tied arrays")
    elif k == 3: x = rng.normal(0, 1, n) * 10 ** rng.uniform(-8, 8)
    elif k == 4: x = np.r_[rng.uniform(1, 2, n - n // 3), np.full(n // 3, rng.uniform(1.9, 2.6))]; mon.ev("tied arrays")
    else: x = np.linspace(1, 1 + 10 ** rng.uniform(-3, 3), n)
    if positive: x = np.abs(x) + 1e-12 * np.max(np.abs(x))
    if len(np.unique(x)) < 2: x = np.r_[x[:-1], x[0] + abs(x[0]) + 1.0]
    o = int(rng.integers(0, 4))
    x = np.sort(x) if o == 0 else (np.sort(x)[::-1].copy() if o == 1 else rng.permutation(x))
    return x, k


def count(x, lo, up, closed):
    return (x >= lo) & ((x <= up) if closed else (x < up))


def audit(mon, tag, x, out, nsum, contiguous, hi=None):
    x_lower, x_mid, x_upper, hist = out[:4]
    nb = len(x_lower)
    sc = np.max(np.abs(x))
    if not mon.ok(nb > 0 and len(x_upper) == nb and len(x_mid) == nb and len(hist) == nb, tag + ":shape", "%s: lengths differ" % tag): return
    mon.ok(np.all(np.diff(x_lower) >= -1e-12 * sc) and np.all(x_upper > x_lower), tag + ":order", "edges not ordered: %r %r" % (x_lower[:5], x_upper[:5]))
    mon.close(x_lower[0], x.min(), tag + ":cover", 1e-9, 1e-12 * sc, "first edge"); mon.close(x_upper[-1], x.max(), tag + ":cover", 1e-9, 1e-12 * sc, "last edge")
    if contiguous:
        mon.close(x_lower[1:], x_upper[:-1], tag + ":contiguous", 1e-12, 0, "edges not contiguous")
        mon.ok(np.sum(hist) == len(x), tag + ":total", lambda: "counts sum to %r of %d data" % (np.sum(hist), len(x)))
    for i in range(nb):
        # a datum exactly on an edge may be claimed by either neighbour only when the edge is a rounded copy of it
        tol = 1e-12 * max(abs(x_lower[i]), abs(x_upper[i]))
        inside = np.sum((x > x_lower[i] + tol) & (x < x_upper[i] - tol))
        near = np.sum((np.abs(x - x_lower[i]) <= tol) | (np.abs(x - x_upper[i]) <= tol))
        mon.ok(inside <= hist[i] <= inside + near, tag + ":count", lambda: "bin %d of %d [%r,%r): says %r, %d inside and %d on its edges" % (i, nb, x_lower[i], x_upper[i], hist[i], inside, near))
        exact = np.sum(count(x, x_lower[i], x_upper[i], i == nb - 1))
        if not np.any((np.abs(x - x_lower[i]) <= tol) & (x != x_lower[i])) and not np.any((np.abs(x - x_upper[i]) <= tol) & (x != x_upper[i])):
            if contiguous or i < nb - 1:
                mon.ok(hist[i] == exact, tag + ":count", lambda: "bin %d [%r,%r): says %r, recount %d" % (i, x_lower[i], x_upper[i], hist[i], exact))
        if hist[i] > 0:
            mon.ok(x_lower[i] - 1e-9 * sc <= x_mid[i] <= x_upper[i] + 1e-9 * sc, tag + ":mid", lambda: "mid %r outside [%r,%r]" % (x_mid[i], x_lower[i], x_upper[i]))
        if nsum:
            s = np.sum(x[count(x, x_lower[i], x_upper[i], i == nb - 1)])
            if hist[i] == exact:
                mon.close(out[4][i], s, tag + ":sum", 1e-9, 1e-9 * sc, "x_sum of bin %d" % i)


def w_bins(mon, rng):
    x, k = arr(mon, rng); nb = int(rng.integers(1, 25)); nsum = bool(rng.random() < .5)
    src = x.copy()
    out = R.nbinmaker(x if rng.random() < .8 else list(x), nb, nsum=nsum)
    audit(mon, "nbinmaker", x, out, nsum, True); mon.ev("nbinmaker")
    h = np.asarray(out[3])
    for i in range(len(h)):
        s = x[count(x, out[0][i], out[2][i], i == len(h) - 1)]
        mon.close(out[1][i], np.mean(s) if len(s) else np.nan, "nbinmaker:mean", 1e-9, 1e-9 * np.max(np.abs(x)), "bin mean")
    if len(np.unique(x)) == len(x) and nb <= len(x):
        mon.ok(len(h) in (nb, nb - 1), "nbinmaker:number", "asked %d bins of %d distinct data, got %d" % (nb, len(x), len(h)))
        if len(h) == nb: mon.ok(h.max() - h.min() <= 1, "nbinmaker:balance", "occupancy %r" % h.tolist())
        else: mon.ok(h.max() - h.min() <= 2, "nbinmaker:balance", "occupancy %r" % h.tolist())
    log = bool(rng.random() < .5)
    if log and np.min(x) <= 0: x = np.abs(x) + 1e-9 * np.max(np.abs(x)); src = x.copy()
    if log and len(np.unique(x)) < 2: return
    out = R.binmaker(x if rng.random() < .8 else list(x), nb, nsum=nsum, steptype="log" if log else "linear")
    audit(mon, "binmaker:" + ("log" if log else "lin"), x, out, nsum, True); mon.ev("binmaker")
    mon.ok(len(out[0]) == nb, "binmaker:number", "asked %d bins, got %d" % (nb, len(out[0])))
    w = np.diff(np.log10(np.r_[out[0], out[2][-1]])) if log else np.diff(np.r_[out[0], out[2][-1]])
    mon.close(w, np.full(nb, np.mean(w)), "binmaker:width", 1e-6, 1e-9 * np.max(np.abs(np.log10(x) if log else x)), "bin widths")
    mon.close(out[1], (out[0] + out[2]) / 2, "binmaker:mid", 1e-9)
    mon.ok(np.array_equal(x, src), "input-modified", "the caller's array was changed")
    mon.seen("bins", k, len(x), nb, log); mon.sample(dict(shape=k, n=len(x), bins=nb, log=log, hist=np.asarray(out[3])[:8].tolist()))


def w_roam(mon, rng):
    x, k = arr(mon, rng); nb = int(rng.integers(2, 20)); nt = int(rng.integers(2, 50)); nsum = bool(rng.random() < .5)
    out = R.roaming_nbinmaker(x, nb, nt, nsum=nsum)
    audit(mon, "roaming_nbinmaker", x, out, nsum, False) if len(np.unique(x)) == len(x) and len(x) > 2 * nb else audit_tied(mon, "roaming_nbinmaker", x, out)
    mon.ev("roaming_nbinmaker")
    for i in range(len(out[0])):
        s = x[count(x, out[0][i], out[2][i], i == len(out[0]) - 1)]
        if len(s) and len(np.unique(x)) == len(x): mon.close(out[1][i], np.mean(s), "roaming_nbinmaker:mean", 1e-9, 1e-9 * np.max(np.abs(x)), "bin mean")
    log = bool(rng.random() < .5)
    if log and np.min(x) <= 0: x = np.abs(x) + 1e-9 * np.max(np.abs(x))
    if len(np.unique(x)) < 2: return
    out = R.roaming_binmaker(x, nb, nt, nsum=nsum, steptype="log" if log else "linear")
    audit(mon, "roaming_binmaker:" + ("log" if log else "lin"), x, out, nsum, False); mon.ev("roaming_binmaker")
    g = np.log10 if log else np.asarray; lo, up = g(out[0]), g(out[2]); s = np.max(np.abs(g(x))); wd = (g(np.max(x)) - g(np.min(x))) / nb
    mon.close(g(out[1]), .5 * (lo + up), "roaming_binmaker:mid", 1e-9, 1e-9 * s, "bin centres (%s)" % ("log" if log else "linear")); mon.close(up - lo, np.full(nt, wd), "roaming_binmaker:width", 1e-6, 1e-9 * s, "bin widths")
    mon.close(np.diff(lo), np.full(nt - 1, np.mean(np.diff(lo))), "roaming_binmaker:spacing", 1e-6, 1e-9 * s, "spacing of the bins")
    mon.ok(len(out[0]) == nt, "roaming_binmaker:number", "asked %d, got %d" % (nt, len(out[0])))
    mon.ok(x[np.argmax(x)] <= out[2][-1] * (1 + 1e-9 * np.sign(out[2][-1])) , "roaming_binmaker:cover", "maximum beyond last edge")
    t = 1e-12 * abs(out[2][-1])
    last = np.sum((x >= out[0][-1] - t) & (x <= out[2][-1] + t)); edge = np.sum(np.abs(x - out[0][-1]) <= t)
    mon.ok(last - edge <= out[3][-1] <= last, "roaming_binmaker:last", "last bin [%r,%r] says %r of %d" % (out[0][-1], out[2][-1], out[3][-1], last))
    mon.seen("roam", k, len(x), nb, nt, log)


def audit_tied(mon, tag, x, out):
    lo, mid, up, h = out[:4]
    sc = np.max(np.abs(x))
    mon.ok(np.all(np.asarray(up) > np.asarray(lo)), tag + ":order", "edges")
    for i in range(len(lo)):
        mon.ok(lo[i] - 1e-9 * sc <= mid[i] <= up[i] + 1e-9 * sc, tag + ":mid", "mid %r outside [%r,%r]" % (mid[i], lo[i], up[i]))
        a, b = np.sum((x >= lo[i]) & (x < up[i])), np.sum((x >= lo[i]) & (x <= up[i]))
        mon.ok(a <= h[i] <= b, tag + ":count", "bin [%r,%r] says %r, recount %d..%d" % (lo[i], up[i], h[i], a, b))


def w_power(mon, rng):
    n = int(rng.integers(500, 3000)); a = float(rng.choice([-3.3, -2.35, -1.5, -1.0, -.5, 0, .7, 2.0]))
    lo = float(10 ** rng.uniform(-2, 1)); hi = lo * float(10 ** rng.uniform(.3, 1.7))
    x = R.power_law_distribution_function(n, a, lo, hi)
    mon.ok(np.shape(x) == (n,), "power:n", "asked %d got %r" % (n, np.shape(x)))
    mon.ok(np.all((x >= lo * (1 - 1e-9)) & (x <= hi * (1 + 1e-9))), "power:bounds", "range [%r,%r] outside [%r,%r]" % (x.min(), x.max(), lo, hi))
    e = a + 1
    F = np.log(x / lo) / np.log(hi / lo) if e == 0 else (x ** e - lo ** e) / (hi ** e - lo ** e)
    F = np.sort(F); D = np.max(np.abs(F - (np.arange(n) + .5) / n))
    mon.ok(D * np.sqrt(n) < 3.2, "power:slope", "alpha=%r: distribution distance %r*sqrt(n) from the power law" % (a, D * np.sqrt(n)))
    one = R.power_law_distribution_function(5, a, lo, lo)
    mon.ok(np.shape(one) == (5,), "power:degenerate", "xmin==xmax returned shape %r for n=5" % (np.shape(one),)); mon.close(one, np.full(np.shape(one), lo), "power:degenerate")
    mon.ev("power_law"); mon.seen("power", a, n)


def bins_of(rng, x, nb, typ):
    return R.nbinmaker(x, nb) if typ == "num" else R.binmaker(x, nb)


def recount(x, lo, up):
    return np.array([np.sum(count(x, lo[i], up[i], i == len(lo) - 1)) for i in range(len(lo))])


def w_stats(mon, rng):
    """dx_function, x_hist, mean_prof with automatic and caller-supplied bins"""
    x, k = arr(mon, rng, True, 30); nb = int(rng.integers(4, 12)); typ = str(rng.choice(["num", "fix"]))
    own = rng.random() < .4
    kw = {}
    if own:
        a, b = np.quantile(x, [rng.uniform(0, .2), rng.uniform(.7, 1)])
        if not b > a: own = False
    if own:
        ed = np.linspace(a, b, nb + 1); lo, up = ed[:-1], ed[1:]; mid = .5 * (lo + up); kw = dict(x_lower=lo, x_mean=mid, x_upper=up)
    else:
        lo, mid, up, h0 = bins_of(rng, x, nb, typ)
    h = recount(x, lo, up)
    tag = "own" if own else typ
    hh = R.x_hist(x, nb, bintype=typ, bins=True, **kw); mon.close(hh[3], h, "x_hist:%s" % tag, 0, 0, "counts per bin (%s)" % tag)
    hm = R.x_hist(x, nb, bintype=typ, **kw); mon.close(hm[0], mid, "x_hist:mid", 1e-12); mon.close(hm[1], h, "x_hist:%s" % tag, 0, 0); mon.ev("x_hist")
    keep = h > 0
    if keep.sum() >= 4:
        xm, xh, dx, al, eal, ya, eya = R.dx_function(x, nb, bintype=typ, **kw)
        mon.close(xm, mid[keep], "dx_function:x", 1e-12); mon.close(xh, h[keep], "dx_function:hist:%s" % tag, 0, 0, "counts"); mon.close(dx, (h / (up - lo))[keep], "dx_function:dx:%s" % tag, 1e-12, 0, "dN/dx")
        (pa, py), V = np.polyfit(np.log10(mid[keep]), np.log10((h / (up - lo))[keep]), 1, cov=True)
        mon.close([al, ya], [pa, py], "dx_function:fit:%s" % tag, 1e-7, 1e-9, "slope, intercept"); mon.close([eal, eya], np.sqrt(np.diag(V)), "dx_function:err:%s" % tag, 1e-6, 1e-9, "errors")
        mon.ev("dx_function")
    y = rng.normal(0, 1, len(x)) + x; med = bool(rng.random() < .4)
    st = "linear" if rng.random() < .6 else "log"
    if not own and typ == "fix": lo, mid, up, _ = R.binmaker(x, nb, steptype=st); h = recount(x, lo, up)
    edge = np.any([np.any((np.abs(x - e) <= 1e-12 * abs(e)) & (x != e)) for e in np.r_[lo, up]])
    if not edge:
        xb, yb, ys = R.mean_prof(x, y, nb, bintype=typ, steptype=st, median=med, **kw)
        want = [(mid[i], (np.median if med else np.mean)(y[s]), np.std(y[s])) for i in range(len(lo)) for s in [count(x, lo[i], up[i], i == len(lo) - 1)] if s.any()]
        w = np.array(want).reshape(-1, 3)
        mon.close(xb, w[:, 0], "mean_prof:x:%s" % tag, 1e-12); mon.close(yb, w[:, 1], "mean_prof:y:%s" % tag, 1e-9, 1e-12, "binned %s" % ("median" if med else "mean")); mon.close(ys, w[:, 2], "mean_prof:sig:%s" % tag, 1e-7, 1e-9, "binned std")
        mon.ev("mean_prof")
    width = (x.max() - x.min()) / rng.uniform(2.01, 12)
    xb, yb, ys, ymn, ymx = R.smooth(x, y, width, bintype=typ, median=med)
    n2 = int((x.max() - x.min()) / width); lo, mid, up, _ = bins_of(rng, x, n2, typ)
    w = np.array([(mid[i], (np.median if med else np.mean)(y[s]), np.std(y[s]), y[s].min(), y[s].max()) for i in range(len(lo)) for s in [count(x, lo[i], up[i], i == len(lo) - 1)] if s.any()])
    for g, c, nm in ((xb, 0, "x"), (yb, 1, "y"), (ys, 2, "sig"), (ymn, 3, "min"), (ymx, 4, "max")):
        mon.close(g, w[:, c], "smooth:" + nm, 1e-7, 1e-9, "smooth " + nm)
    mon.ev("smooth"); mon.seen("stats", k, len(x), nb, typ, own, med)


def w_index(mon, rng):
    x, k = arr(mon, rng); nb = int(rng.integers(1, 12))
    lo, mid, up, h = R.nbinmaker(x, nb) if rng.random() < .5 else R.binmaker(x, nb)
    b = R.bin_index(x, lo, up)
    mon.ok(np.issubdtype(np.asarray(b).dtype, np.integer) and len(b) == len(x), "bin_index:type", "type")
    for i in range(len(lo)):
        mon.ok(np.array_equal(b == i, count(x, lo[i], up[i], i == len(lo) - 1)), "bin_index", "bin %d of [%r,%r)" % (i, lo[i], up[i]))
    mon.ev("bin_index")
    x1, y1, x2, y2, q = rng.normal(0, 3, 5); x2 = x1 + np.sign(x2) * (abs(x2) + .1); y2 = y1 + np.sign(y2) * (abs(y2) + .1)
    mon.close(R.interpolate([x1, y1], [x2, y2], x=q), y1 + (y2 - y1) * (q - x1) / (x2 - x1), "interpolate:x", 1e-9, 1e-9); mon.close(R.interpolate([x1, y1], [x2, y2], y=q), x1 + (x2 - x1) * (q - y1) / (y2 - y1), "interpolate:y", 1e-9, 1e-9); mon.ev("interpolate")
    mon.close(R.interpolate([x1, y1], [x2, y2], x=0.0), y1 + (y2 - y1) * (0.0 - x1) / (x2 - x1), "interpolate:x0", 1e-9, 1e-9)


def w_dist(mon, rng):
    n = int(rng.integers(2, 60)); p = rng.normal(0, 10 ** rng.uniform(-3, 3), (n, 3))
    d = np.sqrt(((p[:, None] - p[None]) ** 2).sum(-1)); np.fill_diagonal(d, np.inf)
    mon.close(R.minimum_distance(p), d.min(1), "minimum_distance", 1e-9)
    mon.close(R.distance(p[0], p[1]), d[0, 1], "distance", 1e-9); mon.ev("minimum_distance"); mon.seen("dist", n)


def w_tapered(mon, rng):
    """samples of tapered power laws on any scale: the binned data exactly; of nine fits (non-linear, a few may stop early) most at an optimum, converged ones with its standard errors"""
    sc = 10 ** rng.uniform(-.7, .7); good = fits = 0; why = []
    for _ in range(9):
        x = taper.draw(rng, 1500) * sc; nb = int(rng.integers(10, 18)); typ = str(rng.choice(["num", "num", "fix"])); kw = {}
        if rng.random() < .4:
            ed = np.geomspace(x.min() * rng.uniform(.8, 1.3), x.max() * rng.uniform(.7, 1.2), nb + 1); lo, up = ed[:-1], ed[1:]; mid = .5 * (lo + up); kw = dict(x_lower=lo, x_mean=mid, x_upper=up); h = recount(x, lo, up); mon.ev("tapered user bins")
        else:
            lo, mid, up, h = bins_of(rng, x, nb, typ); kw = dict(nx=nb, bintype=typ)
        try: r = R.tapered_dx_function(x if rng.random() < .7 else list(x), **kw) if "nx" not in kw or rng.random() < .5 else R.tapered_dx_function(x, nb, typ)
        except RuntimeError: mon.ev("fit did not converge"); continue       # the optimiser is documented not to converge for every sample
        k = h > 0; d = h / (up - lo)
        mon.close(r[0], mid[k], "tapered:x", 1e-9); mon.close(r[1], h[k], "tapered:hist", 0, 0); mon.close(r[2], d[k], "tapered:dx", 1e-9)
        mon.ok(len(r) == 11 and r[3] >= 0 and x.min() <= r[7] <= x.max(), "tapered:bounds", "A=%r xc=%r" % (r[3], r[7])); mon.ev("tapered"); mon.ev("tapered empty bin", np.any(~k))
        p, e = [float(r[i]) for i in (3, 5, 7, 9)], [float(r[i]) for i in (4, 6, 8, 10)]; fits += 1
        ratio, miss = taper.judge(mon, "tapered", np.asarray(r[0]), np.asarray(r[2]), p, e, x.min(), x.max(), "%s bins, scale %g" % (typ, sc)); good += ratio <= 1.1 and miss < .5; why.append((ratio, miss))
    mon.ok(fits < 5 or good >= 2, "tapered:fit", "sums of squares are (%s) times (those nearby, the data)" % np.round(why, 2))
    mon.seen("tapered", round(sc, 3))


WORKLOADS = [("bins", w_bins, 600, 20000), ("roam", w_roam, 400, 12000), ("power", w_power, 160, 2500), ("stats", w_stats, 400, 10000),
             ("index", w_index, 200, 5000), ("dist", w_dist, 60, 1000), ("tapered", w_tapered, 10, 300)]
