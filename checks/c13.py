"""C13: mass functions, velocity-dispersion/mass relations and their radial slopes against the binned stars."""
import numpy as np
import scipy.optimize as so
from ctv import gen, derived, pick, taper
import clustertools as ct

RULE = ("Random clusters (40-400 stars with distinct or partly repeated masses, stellar types, populations, energies, every unit system incl. AMUSE and Cartesian origin) with random selections, nmass, equal-number or "
        "equal-width mass bins, completeness corrections, projected/3D, function and method; bins, counts, dN/dm, dispersions and straight-line fits recomputed from independently kept stars; distinct by function/options/case.")
REQUIRE = {"mass_function": 100, "fix mass bins": 25, "empty mass bin": 5, "mcorr": 30, "tapered": 25, "tapered fit": 40, "tapered errors": 10, "eta_function": 80, "meq_function": 30, "ckin": 25, "alpha_prof": 40, "mcorr profile": 12, "alpha errors": 12, "fix radial bins": 5, "meq_prof itself": 5, "eta_prof": 40, "meq_prof": 15, "method": 60,
           "too few": 15, "repeated masses": 30, "projected": 100, "galaxy origin": 60, "projected cluster": 60, "amuse": 8, "selection kw": 60, "selection npop": 20, "selection indx": 40, "evolved stars selected": 30, "user bins": 30, "slope fit": 40}
ASSUMPTIONS = ["a selection has at least as many distinct masses as mass bins (twice as many for dispersions) or is reported as too small", "fits are unweighted least squares of the decimal logarithms with errors from the scaled covariance, as numpy.polyfit documents",
               "the equipartition-mass fit is decided by local optimality of the sum of squares, the tapered one (non-linear, may stop early) by nine fits of well-sampled tapered mass spectra", "from a galactocentric origin radii and speeds are about the centre"]
L = derived.plain
QUIET = (RuntimeError,)


def line(x, y):
    """slope, error, intercept, error of an unweighted straight-line fit"""
    n = len(x); xm, ym = x.mean(), y.mean(); sxx = np.sum((x - xm) ** 2); b = np.sum((x - xm) * (y - ym)) / sxx; a = ym - b * xm
    s2 = np.sum((y - a - b * x) ** 2) / (n - 2)
    return np.array([b, np.sqrt(s2 / sxx), a, np.sqrt(s2 * (1. / n + xm ** 2 / sxx))])


def agree(mon, got, want, mech, msg, floor=1e-9, rtol=1e-6):
    """fit parameters: absolute floor relative to the largest of them (perfect lines have zero error)"""
    mon.close(got, want, mech, rtol, floor * np.max(np.abs(want)) + 1e-7 * abs(want[0]), msg)


def setup(mon, rng, n):
    T, cl, units, origin, am, A = pick.cluster(mon, rng, n, kind=str(rng.choice(["plummer", "gauss", "clumpy"])), amuse=0)
    A["kwdef"] = (0, 1)
    return T, cl, units, origin, am, A


def masses(mon, rng, n, repeated):
    m = 10 ** rng.uniform(-1, rng.choice([.5, 1.5]), n) if rng.random() < .5 else rng.uniform(.1, 1, n) ** rng.uniform(.5, 3)
    if repeated:
        k = rng.random(n) < .4; m[k] = rng.choice(m[:5], k.sum()); mon.ev("repeated masses")
    return m


def build(mon, rng, n):
    """like pick.cluster but with a mass spectrum fit for slopes"""
    orig = gen.truth
    rep = bool(rng.random() < .2)

    def spectral(r, **kw):
        T = orig(r, **kw); T.m = masses(mon, rng, T.n, rep); return T
    gen.truth = spectral
    try:
        T, cl, units, origin, am, A = pick.cluster(mon, rng, n, kind=str(rng.choice(["plummer", "gauss", "clumpy"])))
    finally:
        gen.truth = orig
    A["kwdef"] = (0, 1)
    return T, cl, units, origin, am, A, rep


def massbins(m, k, fix):
    if fix:
        e = np.linspace(m.min(), m.max(), k + 1); return e[:-1], .5 * (e[:-1] + e[1:]), e[1:]
    lo, up = pick.numbins(m, k); M = pick.member(m, lo, up)
    return lo, np.array([np.mean(m[q]) for q in M]), up


def mf(m, sel, k, fix, mcorr):
    """mean, count, dN/dm, bin error of the selected stars"""
    lo, mid, up = massbins(m[sel], k, fix); M = pick.member(m, lo, up) & sel
    cnt = M.sum(axis=1).astype(float); cc = np.array([np.sum(1. / mcorr[q]) for q in M])
    return mid, cnt, cc / (up - lo), cnt, cc


def eta(m, v, sel, k):
    lo, mid, up = massbins(m[sel], k, False); M = pick.member(m, lo, up) & sel
    return mid, np.array([np.std(v[q]) for q in M]), M.sum(axis=1)


def meqf(m, meq, s0):
    return np.where(m <= meq, s0 * np.exp(-.5 * m / meq), s0 * np.exp(-.5) * np.sqrt(meq / m))


def tpl(m, A, al, mc, be):
    return A * m ** al * (1 - np.exp(-(m / mc) ** be))


def optimum(mon, f, x, y, p, lo, hi, mech, msg, slack):
    """no small change of one parameter inside its bounds lowers the sum of squares noticeably"""
    p = np.asarray(p, float); s = np.sum((f(x, *p) - y) ** 2); best = s; at = None
    mon.ok(np.all(p >= np.asarray(lo) * (1 - 1e-9) - 1e-12) and np.all(p <= np.asarray(hi) * (1 + 1e-9)), mech + ":bounds", "%s: %r outside %r..%r" % (msg, p.tolist(), lo, hi))
    for i in range(len(p)):
        for fac in (.98, 1.02):
            q = p.copy(); q[i] = np.clip(q[i] * fac, lo[i], hi[i]); t = np.sum((f(x, *q) - y) ** 2)
            if t < best: best, at = t, (i, fac)
    mon.ok(s <= best + slack * np.sum(y ** 2) + .02 * s, mech, "%s: parameters %r leave a sum of squares %r, changing parameter %r gives %r" % (msg, p.tolist(), s, at, best))


def w_mf(mon, rng):
    n = int(rng.choice([60, int(rng.integers(40, 400))])); T, cl, units, origin, am, A, rep = build(mon, rng, n)
    for k0 in range(3):
        proj = bool(rng.random() < .4); r, v = (A["r2"], A["v2"]) if proj else (A["r3"], A["v3"]); A["r"], A["v"] = r, v
        nm = int(rng.choice([10, 10, 4, 6, 15])); fix = bool(rng.random() < .3); few = rng.random() < .12
        sk, sel = pick.choose(mon, rng, A, 2 if few else nm + 2, p=.3)
        m = A["m"]
        if few:
            keep = np.zeros(n, bool); keep[rng.choice(np.where(sel)[0], min(sel.sum(), int(rng.integers(0, nm))), replace=False)] = True; sk["indx"] = keep; sel = sel & keep
        kw = dict(sk); kw["projected"] = proj
        if nm != 10 or rng.random() < .3: kw["nmass"] = nm
        mcorr = np.ones(n)
        which = str(rng.choice(["mf", "mf", "mf", "taper"]))
        if which == "taper": fix = False
        if fix: kw[str(rng.choice(["bintype", "mbintype"]))] = "fix"; mon.ev("fix mass bins")
        if rng.random() < .35: mcorr = rng.uniform(.3, 1, n); kw["mcorr"] = mcorr.copy(); mon.ev("mcorr")
        mon.log(which, units, origin, "amuse" if am else "", {a: (b if not isinstance(b, np.ndarray) else "array%d" % b.sum()) for a, b in kw.items()})
        mon.ev("projected", proj); mon.seen(which, units, origin, am, sorted(kw), nm, fix, sel.sum()); mon.ev("evolved stars selected", A["kw"] is not None and np.any(A["kw"][sel] > 1))
        msg = "%s(%s) in %s/%s" % (which, {a: b for a, b in kw.items() if not isinstance(b, np.ndarray)}, units, origin)
        meth = bool(rng.random() < .3)
        if sel.sum() < nm:
            out = ct.mass_function(cl, **kw) if which == "mf" else ct.tapered_mass_function(cl, **kw)
            want = (8 if "mcorr" in kw else 7) if which == "mf" else 11
            mon.ok(len(out) == want and float(out[3]) == -1000., which + ":too-few", "%s: %d values, %r" % (msg, len(out), out[3:])); mon.ev("too few")
            continue
        e = np.linspace(m[sel].min(), m[sel].max(), nm + 1)
        if fix and np.any(np.abs(m[sel][:, None] - e[1:-1]) < 1e-12 * m.max()): continue
        mid, cnt, dm, c0, cc = mf(m, sel, nm, fix, mcorr); f = cc > 0
        if f.sum() < 4: continue
        mon.ev("empty mass bin", np.any(~f))
        if which == "mf":
            mon.ev("mass_function"); fit = line(np.log10(mid[f]), np.log10(dm[f]))
            out = ct.mass_function(cl, **kw)
            mon.ok(len(out) == (8 if "mcorr" in kw else 7), "mf:returned", "%s: %d values" % (msg, len(out)))
            mon.close(L(out[0]), mid, "mf:mean", 1e-9, 0, msg); mon.close(L(out[1]), cnt, "mf:count", 0, 0, msg); mon.close(L(out[2]), dm, "mf:dm", 1e-7, 0, msg)
            mon.ok(np.sum(L(out[1])) == sel.sum(), "mf:conservation", "%s: %r counted, %d selected" % (msg, np.sum(L(out[1])), sel.sum()))
            agree(mon, np.array([float(q) for q in out[3:7]]), fit, "mf:fit", msg)
            if "mcorr" in kw: mon.close(L(out[7])[f], (cnt / cc)[f], "mf:corrected", 1e-9, 0, msg)
            if meth:
                a = cl.mass_function(**kw); mon.close(float(a), fit[0], "mf:method", 1e-6, 1e-8, msg); mon.close(float(cl.alpha), fit[0], "mf:stored", 1e-6, 1e-8, msg); mon.ev("method")
        else:
            mon.ev("tapered")
            try:
                out = ct.tapered_mass_function(cl, **kw); alpha = out[5]
                if meth: mon.close(float(cl.tapered_mass_function(**kw)), float(alpha), "taper:method", 1e-6, 0, msg); mon.close(float(cl.alpha), float(alpha), "taper:stored", 1e-6, 0, msg); mon.ev("method")
            except QUIET: mon.ev("fit did not converge"); continue
            mon.ok(len(out) == 11, "taper:returned", "%s: %d values" % (msg, len(out)))
            mon.close(L(out[0]), mid, "taper:mean", 1e-9, 0, msg); mon.close(L(out[1]), cnt, "taper:count", 0, 0, msg); mon.close(L(out[2]), dm, "taper:dm", 1e-7, 0, msg)
            mon.ok(m.min() * (1 - 1e-9) <= float(out[7]) <= m.max() * (1 + 1e-9), "taper:bounds", "%s: mc=%r" % (msg, float(out[7])))
            p = [float(out[i]) for i in (3, 5, 7, 9)]
            mon.ok(abs(p[1]) > 15 or np.all(np.isfinite(p)) and all(float(out[i]) >= 0 or np.isinf(float(out[i])) or np.isnan(float(out[i])) for i in (4, 6, 8, 10)), "taper:errors", "%s: %r" % (msg, out[3:]))
    mon.sample(dict(n=n, units=units, origin=origin, nmass=nm, projected=proj))


def w_taper(mon, rng):
    """masses drawn from power laws with a low-mass taper, in bulk: the fit is of the documented curve (it is non-linear, so a few of nine may stop early)"""
    units = str(rng.choice(gen.UNITS)); good = fits = 0; why = []
    for _ in range(9):
        n = 1500; T = gen.Truth(taper.draw(rng, n), rng.normal(0, 3, (n, 3)), rng.normal(0, 2, (n, 3)), scale=(1500., 2., 3., .5))
        cl = T.build(units, "cluster"); M = gen.val(cl.m)
        try: out = ct.tapered_mass_function(cl, nmass=15)
        except RuntimeError: mon.ev("fit did not converge"); continue
        p, e = [float(out[i]) for i in (3, 5, 7, 9)], [float(out[i]) for i in (4, 6, 8, 10)]; fits += 1
        ratio, miss = taper.judge(mon, "taper", np.array(L(out[0])), np.array(L(out[2])), p, e, M.min(), M.max(), units)
        good += ratio <= 1.1 and miss < .5; why.append((ratio, miss)); mon.ev("tapered fit")
    mon.ok(fits < 5 or good >= 2, "taper:fit", "%s: sums of squares are (%s) times (those nearby, the data)" % (units, np.round(why, 2)))
    mon.seen("taper", units); mon.sample(dict(workload="taper", units=units))


def w_eta(mon, rng):
    n = int(rng.choice([60, int(rng.integers(40, 400))])); T, cl, units, origin, am, A, rep = build(mon, rng, n)
    ev = A["ev"] if origin == "galaxy" else 0
    for k0 in range(3):
        proj = bool(rng.random() < .4); r, v = (A["r2"], A["v2"]) if proj else (A["r3"], A["v3"]); A["r"], A["v"] = r, v; m = A["m"]
        nm = int(rng.choice([10, 10, 4, 6])); sk, sel = pick.choose(mon, rng, A, nm, p=.3)
        kw = dict(sk); kw["projected"] = proj
        if nm != 10 or rng.random() < .3: kw["nmass"] = nm
        which = str(rng.choice(["eta", "eta", "meq"])); fn = getattr(ct, which + "_function"); meth = bool(rng.random() < .3)
        mon.log(which, units, origin, "amuse" if am else "", {a: (b if not isinstance(b, np.ndarray) else "array%d" % b.sum()) for a, b in kw.items()})
        mon.ev("projected", proj); mon.seen(which, units, origin, am, sorted(kw), nm, sel.sum()); mon.ev("evolved stars selected", A["kw"] is not None and np.any(A["kw"][sel] > 1))
        msg = "%s(%s) in %s/%s" % (which, {a: b for a, b in kw.items() if not isinstance(b, np.ndarray)}, units, origin)
        if sel.sum() < 2 * nm:
            out = fn(cl, **kw); mon.ok(len(out) == 6 and float(out[2]) == -1000., which + ":too-few", "%s: %r" % (msg, out[2:])); mon.ev("too few"); continue
        mid, sg, cnt = eta(m, v, sel, nm)
        if len(mid) < 4 or np.any(cnt < 2) or np.any(sg < 1e4 * ev): continue
        try:
            out = fn(cl, **kw); got = float(out[2])
            if meth:
                a = getattr(cl, which + "_function")(**kw); mon.close(float(a), got, which + ":method", 1e-9, 0, msg); mon.close(float(getattr(cl, which)), got, which + ":stored", 1e-9, 0, msg); mon.ev("method")
        except QUIET: mon.ev("fit did not converge"); continue
        mon.ev(which + "_function")
        mon.close(L(out[0]), mid, which + ":mean", 1e-9, 0, msg); mon.close(L(np.asarray(out[1])), sg, which + ":sigma:%s" % ("2d" if proj else "3d"), 1e-7, 20 * ev, msg)
        if which == "eta": agree(mon, np.array([float(q) for q in out[2:]]), line(np.log10(mid), np.log10(sg)), "eta:fit", msg, rtol=1e-5)
        else:
            mon.ok(len(out) == 6 and float(out[4]) > 0, "meq:returned", msg)
            if units in ("pckms", "kpckms", "pcmyr", "kpcgyr"):
                optimum(mon, meqf, mid, sg, (float(out[2]), float(out[4])), (m.min(), 0.), (m.max(), np.inf), "meq:optimum", msg, 1e-4)


def w_ckin(mon, rng):
    n = int(rng.integers(150, 400)); T, cl, units, origin, am, A, rep = build(mon, rng, n)
    proj = bool(rng.random() < .4); r = A["r2"] if proj else A["r3"]; m = A["m"]; nm = int(rng.choice([4, 5])); kw = dict(nmass=nm, projected=proj, kwmax=14)
    o = np.argsort(r, kind="stable"); c = np.cumsum(m[o]) / m.sum()
    if np.any(np.abs(c[:, None] - [.4, .5, .6]) < 1e-9): return
    r4, r5, r6 = (r[o][int(np.argmax(c >= f))] for f in (.4, .5, .6))
    pad = 1e-9 * r5 if origin != "galaxy" else 4 * A["er"] + 1e-9 * r5
    if np.sum(np.abs(r - r4) < 2 * pad) + np.sum(np.abs(r - r5) < 2 * pad) + np.sum(np.abs(r - r6) < 2 * pad) > 3: return
    try:
        a = ct.meq_function(cl, **dict(kw, indx=r <= r5 + pad))[2]; b = ct.meq_function(cl, **dict(kw, indx=(r >= r4 - pad) & (r <= r6 + pad)))[2]
        meth = bool(rng.random() < .4); got = cl.ckin(**kw) if meth else ct.ckin(cl, **kw)
    except QUIET: mon.ev("fit did not converge"); return
    if float(b) == -1000 or float(a) == -1000: return
    mon.close(float(L(got)), float(a) / float(b), "ckin", 1e-4, 0, "ckin(%s) in %s/%s" % (kw, units, origin)); mon.ev("ckin"); mon.ev("projected", proj); mon.seen("ckin", units, origin, proj, n, nm)
    if meth: mon.close(float(L(cl.ck)), float(L(got)), "ckin:stored", 0, 0); mon.ev("method")


def w_prof(mon, rng):
    n = int(rng.integers(120, 400)); T, cl, units, origin, am, A, rep = build(mon, rng, n); m = A["m"]
    er = A["er"] if origin == "galaxy" else 0; ev = A["ev"] if origin == "galaxy" else 0
    for k0 in range(2):
        proj = bool(rng.random() < .4); norm = bool(rng.random() < .4); r, v = (A["r2"], A["v2"]) if proj else (A["r3"], A["v3"]); A["r"], A["v"] = r, v
        which = str(rng.choice(["alpha", "alpha", "eta", "eta", "meq"])); nm = int(rng.choice([4, 5])); A["kwdef"] = (0, 1) if which == "alpha" else (0, 15)
        sk, sel = pick.choose(mon, rng, A, 60, p=.25); kw = dict(sk); kw.update(nmass=nm, projected=proj, normalize=norm); x = r[sel]; k = int(rng.choice([1, 3, 4, 6]))
        user = rng.random() < .35
        if user:
            s = np.unique(x); e = np.r_[0., .5 * (s[(np.arange(1, k) * len(s) / k).astype(int)] + s[(np.arange(1, k) * len(s) / k).astype(int) - 1]), s[-1] * 1.01]
            lo, up = e[:-1], e[1:]; mid = .5 * (lo + up); kw["bins"] = (lo.copy(), mid.copy(), up.copy()); mon.ev("user bins")
            if which == "alpha": mid = np.array([np.mean(x[q]) for q in pick.member(x, lo, up)])
        elif which == "alpha" and rng.random() < .25:
            lo, mid, up = massbins(x, k, True); kw.update(nrad=k, bintype="fix"); mon.ev("fix radial bins")
        else:
            lo, up = pick.numbins(x, k); mid = np.array([np.mean(x[q]) for q in pick.member(x, lo, up)]); kw["nrad"] = k
        mcorr = np.ones(n); fix = False
        if which == "alpha":
            if rng.random() < .35: mcorr = rng.uniform(.3, 1, n); kw["mcorr"] = mcorr.copy(); mon.ev("mcorr profile")
            if rng.random() < .25: fix = True; kw["mbintype"] = "fix"
            if rng.random() < .35: kw["aerror"] = True; mon.ev("alpha errors")
        M = pick.member(r, lo, up) & sel; want = np.zeros(len(lo)); werr = np.zeros(len(lo)); skip = False
        if er and np.any(np.abs(r[:, None] - lo[1:]) < 4 * er) and (user or "bintype" in kw): continue
        for i, q in enumerate(M):
            if which == "alpha":
                if q.sum() < nm: continue
                b, c, d, _, cc = mf(m, q, nm, fix, mcorr); h = cc > 0
                if h.sum() < 4: skip = True; break
                want[i], werr[i] = line(np.log10(b[h]), np.log10(d[h]))[:2]
            else:
                if q.sum() < 2 * nm: continue
                b, sg, c = eta(m, v, q, nm)
                if len(b) < 4 or np.any(c < 2) or np.any(sg < 1e4 * ev): skip = True; break
                want[i] = line(np.log10(b), np.log10(sg))[0] if which == "eta" else np.nan
        if skip: continue
        mon.log(which + "_prof", units, origin, "amuse" if am else "", {a: (b if not isinstance(b, np.ndarray) else "array%d" % b.sum()) for a, b in kw.items()})
        msg = "%s_prof(%s) in %s/%s" % (which, {a: b for a, b in kw.items() if not isinstance(b, np.ndarray) and a != "bins"}, units, origin)
        fn = ct.alpha_prof if which == "alpha" else ct.eta_prof
        if which == "meq" and rng.random() < .5: fn = ct.meq_prof; mon.ev("meq_prof itself")
        elif which == "meq": kw["meq"] = True
        try: out = fn(cl, **kw)
        except QUIET: mon.ev("fit did not converge"); continue
        mon.ev(which + "_prof"); mon.ev("projected", proj); mon.seen(which + "p", units, origin, am, sorted(kw), k, nm); mon.ev("evolved stars selected", A["kw"] is not None and np.any(A["kw"][sel] > 1))
        h = halves(r, m); g = L(out[0]); gr = min((g * q for q in h), key=lambda t: np.sum(np.abs(t - mid)) if t.shape == mid.shape else 0) if norm else g
        mon.close(gr, mid, which + "_prof:radius" + (":normalized" if norm else ""), 1e-8, 8 * er, msg)
        gv = np.asarray(L(out[1]), float)
        if which != "meq": mon.close(gv, want, which + "_prof:value", 1e-5, 1e-7 * np.max(np.abs(want)) + 1e-9, msg)
        else:
            for i, q in enumerate(M):
                if q.sum() < 2 * nm: mon.ok(gv[i] == 0, "meq_prof:few", "%s: %r for %d stars" % (msg, gv[i], q.sum())); continue
                try: w = float(ct.meq_function(cl, indx=q, nmass=nm, projected=proj, kwmax=15)[2])
                except QUIET: continue
                mon.close(gv[i], w, "meq_prof:value", 1e-4, 0, msg)
        if which == "alpha": mon.ok(len(out) == (7 if "aerror" in kw else 6), "alpha_prof:returned", "%s: %d values" % (msg, len(out)))
        if "aerror" in kw: mon.close(np.asarray(L(out[6]), float), werr, "alpha_prof:error", 1e-5, 1e-7 * np.max(np.abs(want)) + 1e-9, msg)
        sl = [float(q) for q in out[2:6]]
        if len(mid) > 3:
            c = [line(np.log(mid / q), gv) for q in h]; f = min(c, key=lambda t: abs(t[2] - sl[2])); mon.ev("slope fit")
            agree(mon, np.array(sl), f, which + "_prof:slope", msg, floor=1e-7, rtol=1e-5)
        else: mon.ok(sl[0] == -100., which + "_prof:noslope", "%s: %r from %d bins" % (msg, sl, len(mid)))


def halves(r, m):
    o = np.argsort(r, kind="stable"); c = np.cumsum(m[o]) / np.sum(m); i = int(np.argmax(c >= .5 * (1 - 1e-12))); out = [r[o][i]]
    if abs(c[i] - .5) < 1e-9 and i + 1 < len(r): out.append(r[o][i + 1])
    return out


QF = 8
WORKLOADS = [("mf", w_mf, 110, 3500), ("eta", w_eta, 110, 3500), ("ckin", w_ckin, 60, 700), ("prof", w_prof, 130, 2500), ("taper", w_taper, 1, 25)]
