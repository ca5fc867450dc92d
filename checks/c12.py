"""C12: every radial profile recomputed bin by bin from independently kept stars."""
import numpy as np
from ctv import gen, derived, pick, energy
import clustertools as ct

RULE = ("Random clusters (20-250 stars, every unit system incl. AMUSE and Cartesian origin, stellar types, populations, energies), random selection arguments, projected/3D, equal-number, equal-width and user bins "
        "(with gaps and with stars outside), normalised or not; every profile function; returned bins, counts and values compared with statistics of the stars each bin holds; distinct by function/options/case.")
REQUIRE = {"rho_prof": 60, "m_prof": 60, "cumulative": 20, "sigv_prof": 60, "v_prof": 60, "v2_prof": 60, "beta_prof": 60, "vcirc_prof": 60, "projected": 150, "normalized": 150, "num bins": 150, "fix bins": 100,
           "user bins": 100, "galaxy origin": 80, "projected cluster": 60, "amuse": 10, "selection r": 40, "selection v": 40, "selection m": 40, "selection e": 10, "selection kw": 40, "selection npop": 20, "selection indx": 60,
           "stars outside user bins": 40, "component": 80, "few-star bin": 20}
ASSUMPTIONS = ["bins are half-open with the last one closed; stars exactly on interior edges of equal-width bins are not generated", "velocity statistics of bins with three or fewer stars are reported as zero",
               "radii and speeds from a galactocentric origin are about the cluster's centre", "the reported radius of a bin is the mean (equal-number), midpoint (equal-width) or given (user) radius",
               "vcirc_prof reports the circular velocity at the selected star nearest each bin's radius, from the mass of selected stars at or inside it"]
L = derived.plain
COMP = [("r", 0), ("vr", 0), ("phi", 1), ("vp", 1), ("vphi", 1), ("theta", 2), ("vt", 2), ("vtheta", 2), ("x", 3), ("vx", 3), ("y", 4), ("vy", 4), ("z", 5), ("vz", 5), ("v", 6)]


def components(P, W, proj):
    x, y, z = P.T; vx, vy, vz = W.T
    R = np.sqrt(x * x + y * y); r = np.sqrt(R * R + z * z)
    vR = (x * vx + y * vy) / R; vp = (x * vy - y * vx) / R
    vr = (x * vx + y * vy + z * vz) / r; vt = (z * (x * vx + y * vy) / R - R * vz) / r
    return (vR, vp, None, vx, vy, vz, np.sqrt(vx * vx + vy * vy)) if proj else (vr, vp, vt, vx, vy, vz, np.sqrt(vx * vx + vy * vy + vz * vz))


def bins_for(mon, rng, r, sel, nmax, far):
    """(keyword arguments, lower, reported radius, upper)"""
    x = r[sel]; k = int(rng.choice([1, 2, 3, 5, 20, int(rng.integers(2, 30))])); mode = str(rng.choice(["num", "num", "fix", "user"]))
    mon.ev(mode + " bins")
    if mode == "num":
        lo, up = pick.numbins(x, k); M = pick.member(x, lo, up); mid = np.array([np.mean(x[m]) for m in M])
        kw = dict(nrad=k)
        if k == 20 and rng.random() < .5: kw = {}
        if rng.random() < .3: kw["bintype"] = "num"
    elif mode == "fix":
        e = np.linspace(x.min(), x.max(), k + 1); lo, up = e[:-1], e[1:]; mid = .5 * (lo + up); kw = dict(nrad=k, bintype="fix")
        if np.any(np.abs(x[:, None] - e[1:-1]) < far * 4 + 1e-12 * x.max()): return bins_for(mon, rng, r, sel, nmax, far)
    else:
        s = np.unique(r); k = min(k, 8); cut = np.sort(rng.choice(np.r_[.0, .5 * (s[:-1] + s[1:]), s[-1] * 1.1], size=2 * k, replace=len(s) < 2 * k + 2))
        if rng.random() < .5: lo, up = cut[:-1], cut[1:]
        else: lo, up = cut[::2], cut[1::2]
        ok = up > lo
        if rng.random() < .5: ok = ok & (np.cumsum(up > 0) > 0)
        lo, up = lo[ok], up[ok]
        if not len(lo): return bins_for(mon, rng, r, sel, nmax, far)
        mid = .5 * (lo + up)
        if rng.random() < .3: mid = np.sqrt(lo * up) + 1e-6 * up
        kw = dict(bins=(lo.copy(), mid.copy(), up.copy()))
        mon.ev("stars outside user bins", np.any((x < lo[0]) | (x > up[-1])))
    return kw, lo, mid, up


def w_prof(mon, rng):
    n = int(rng.choice([20, 60, int(rng.integers(20, 250))]))
    T, cl, units, origin, am, A = pick.cluster(mon, rng, n, kind=str(rng.choice(["plummer", "gauss", "clumpy", "wide"])))
    A["kwdef"] = (0, 15); grav = 1.0 if units == "nbody" else energy.grav(T, units)
    for rep in range(4):
        fn = str(rng.choice(["rho_prof", "m_prof", "sigv_prof", "v_prof", "v2_prof", "beta_prof", "vcirc_prof"]))
        proj = bool(rng.random() < .4); norm = bool(rng.random() < .4)
        r, v = (A["r2"], A["v2"]) if proj else (A["r3"], A["v3"])
        A["r"], A["v"] = r, v
        sk, sel = pick.choose(mon, rng, A, 5)
        er = A["er"] if origin == "galaxy" else 1e-13 * r.max(); ev = A["ev"] if origin == "galaxy" else 1e-13 * v.max()
        bk, lo, mid, up = bins_for(mon, rng, r, sel, n, er)
        kw = dict(sk); kw.update(bk); kw["projected"] = proj; kw["normalize"] = norm
        cum = fn == "m_prof" and rng.random() < .4
        if cum: kw["cumulative"] = True; mon.ev("cumulative")
        comp = None
        if fn in ("sigv_prof", "v_prof", "v2_prof") and rng.random() < .6:
            comp, ci = COMP[int(rng.integers(0, len(COMP)))]
            if proj and ci == 2: comp = None
            else: kw["coord"] = comp; mon.ev("component")
        mon.log(fn, units, origin, "amuse" if am else "", {k: (np.shape(q) if k in ("indx",) else q) for k, q in kw.items()})
        mon.ev(fn); mon.ev("projected", proj); mon.ev("normalized", norm); mon.seen(fn, units, origin, am, proj, norm, sorted(k for k in kw), len(lo), n)
        tag = fn + (":cumulative" if cum else ""); msg = "%s(%s) in %s/%s" % (fn, {k: q for k, q in kw.items() if k not in ("indx", "bins")}, units, origin)
        if fn == "vcirc_prof":
            full = rng.random() < .2 and "bins" not in kw
            if full: kw["nrad"] = None; kw.pop("bintype", None)
            out = ct.vcirc_prof(cl, **kw); x = np.sort(r[sel]); o = np.argsort(r[sel], kind="stable"); mc = np.cumsum(A["m"][sel][o]); vc = np.sqrt(grav * mc / x)
            gr, gv = L(out[0]), L(out[1])
            want = np.arange(len(x)) if full else np.array([int(np.argmin(np.abs(x - k))) for k in mid])
            amb = np.zeros(len(want), bool) if full else np.array([np.sum(np.abs(np.abs(x - k) - np.min(np.abs(x - k))) < 8 * er + 1e-9 * x.max()) > 1 for k in mid])
            if mon.ok(gr.shape == want.shape, tag + ":shape", "%s: %r radii, expected %r" % (msg, gr.shape, want.shape)):
                gr = physical(gr, x[want], r, A["m"], norm); tol = 5e-4 + 4 * er / np.maximum(x[want], 1e-300)
                g = ~amb & (tol < .01)
                mon.close(gr[g], x[want][g], tag + ":radius", 1e-8 + 8 * np.max(er / x[want][g], initial=0), 0, msg)
                mon.ok(np.all(np.abs(gv[g] / vc[want][g] - 1) < tol[g]), tag + ":value", lambda: "%s: got %r expected %r" % (msg, gv[g][:6].tolist(), vc[want][g][:6].tolist()))
            if er / x[0] < 1e-4:
                k = int(np.argmax(vc)); mon.close(float(L(out[3])), vc[k], tag + ":vmax", 5e-4, 0, msg); j = np.argmin(np.abs(x - float(L(out[2]))))
                mon.ok(abs(x[j] - float(L(out[2]))) <= 1e-8 * x.max() + 4 * er and abs(vc[j] / vc[k] - 1) < 5e-4, tag + ":rvmax", "%s: rvmax %r, maximum at %r" % (msg, float(L(out[2])), x[k]))
            continue
        out = getattr(ct, fn)(cl, **kw); gr = L(out[0])
        if not mon.ok(gr.shape == mid.shape, tag + ":bins", "%s: %d bins, expected %d" % (msg, gr.size, mid.size)): continue
        gr = physical(gr, mid, r, A["m"], norm)
        mon.close(gr, mid, tag + ":radius" + (":normalized" if norm else ""), 1e-8, 8 * er, msg + " bin radii")
        mon.ok(np.all(np.diff(gr) > -er), tag + ":order", "%s: bins are not ordered" % msg)
        M = pick.member(r, lo, up) & sel
        if cum: M = (r <= up[:, None]) & sel; M[:-1] = (r < up[:-1, None]) & sel
        cnt = M.sum(axis=1)
        if fn in ("rho_prof", "m_prof"):
            gn = np.asarray(L(out[2]), float); mon.close(gn, cnt, tag + ":counts", 0, 0, msg + " stars per bin")
            ms = np.array([A["m"][k].sum() for k in M])
            if "bins" not in kw:
                tot = gn[-1] if cum else gn.sum(); mon.ok(tot == sel.sum(), tag + ":conservation", "%s: %d stars in bins, %d selected" % (msg, tot, sel.sum()))
            if fn == "m_prof": mon.close(L(out[1]), ms, tag + ":value", 1e-9, 0, msg)
            else:
                d = 2 if proj else 3; vol = (np.pi if proj else 4 / 3. * np.pi) * (up ** d - lo ** d); tol = 1e-8 + d * 4 * er * up ** (d - 1) / np.maximum(up ** d - lo ** d, 1e-300)
                g = tol < .01; mon.ok(np.all(np.abs(L(out[1])[g] - (ms / vol)[g]) <= tol[g] * (ms / vol)[g]), tag + ":value:" + ("2d" if proj else "3d"), lambda: "%s: got %r expected %r" % (msg, L(out[1])[:6].tolist(), (ms / vol)[:6].tolist()))
            continue
        C = components(A["P"], A["W"], proj); a = C[ci] if comp is not None else v
        noise = ev + 4 * er * v.max() / max(np.min(A["r2"]), er * 1e2 + 1e-300)      # rounding of directions close to the axis
        got = L(out[1]); want = np.zeros(len(mid)); tol = np.zeros(len(mid))
        for i, k in enumerate(M):
            if cnt[i] <= 3: mon.ev("few-star bin"); continue
            if fn == "sigv_prof": want[i] = np.std(a[k]); tol[i] = 1e-8 * want[i] + noise * 8
            elif fn == "v_prof": want[i] = np.mean(a[k]); tol[i] = 1e-8 * np.mean(np.abs(a[k])) + noise * 4
            elif fn == "v2_prof": want[i] = np.mean(a[k] ** 2); tol[i] = 1e-8 * want[i] + 8 * noise * np.max(np.abs(a[k]))
            else:
                sr, sp = np.std(C[0][k]), np.std(C[1][k])
                want[i] = sp / sr - 1 if proj else 1 - (np.std(C[2][k]) ** 2 + sp ** 2) / (2 * sr ** 2)
                tol[i] = (1e-8 + 16 * noise / sr) * (abs(want[i]) + 2 + 2 * (sp / sr) ** 2)
        mon.ok(np.all(np.abs(got - want) <= tol), tag + ":value:" + ("2d" if proj else "3d") + (":comp" if comp else ""), lambda: "%s: got %r expected %r" % (msg, got[:8].tolist(), want[:8].tolist()))
    mon.sample(dict(n=n, units=units, origin=origin, last=fn, bins=len(lo), projected=proj, normalize=norm))


def physical(g, want, r, m, norm):
    """undo the normalisation by the half-mass radius of all stars (either star when the cumulative mass is exactly one half)"""
    if not norm: return g
    o = np.argsort(r, kind="stable"); c = np.cumsum(m[o]) / np.sum(m); i = int(np.argmax(c >= .5 * (1 - 1e-12))); h = [r[o][i]]
    if abs(c[i] - .5) < 1e-9 and i + 1 < len(r): h.append(r[o][i + 1])
    return min((g * k for k in h), key=lambda q: np.sum(np.abs(q - want)))


WORKLOADS = [("profile", w_prof, 330, 9000)]
