"""C29: figures show the data: plots draw every star, profile and path at the values and in the units of the cluster, on the figure asked for."""
import os
import numpy as np
import matplotlib.pyplot as plt
from ctv import gen, derived, calls, sky as skyc
from checks.c04 import build, drawable, attempt, NoAnswer
import clustertools as ct

RULE = ("Random clusters (30-120 stars, all units incl. AMUSE and sky coordinates, all origins) drawn with starplot and skyplot with random panels, limits, markers, files and existing figures, and with the plot option of the analysis, profile, "
        "orbit and tail functions; a monitor reads the drawn lines, markers, limits, labels and files back from matplotlib and compares them with an independent record of the stars, with the values the call returns and with the same call without a plot; distinct by function/units/origin/options.")
REQUIRE = {"starplot": 250, "skyplot": 120, "centre marked": 120, "limits": 100, "panels": 60, "drawn over": 150, "file written": 150, "amuse": 30, "curve": 250, "method": 50, "distribution drawn": 40, "same without plot": 250, "normalised marker": 5, "marker line": 60, "path": 60, "sky path": 15, "earlier figure": 150}
REQUIRE.update({"drawn by " + k: 5 for k in "rho_prof m_prof sigv_prof v_prof v2_prof beta_prof vcirc_prof alpha_prof eta_prof meq_prof mass_function tapered_mass_function eta_function meq_function rcore rcore_isothermal rtidal rlimiting virial_radius_critical orbital_path orbital_path_match tail_path tail_path_match".split()})
ASSUMPTIONS = ["AMUSE clusters are drawn in pc", "a label names the cluster's units or none", "tail figures are drawn in kpc", "the critical-density figure of virial_radius is drawn in pc"]
L = derived.plain
UNIT = {"nbody": "NBODY", "pckms": "pc", "pcmyr": "pc", "kpckms": "kpc", "kpcgyr": "kpc", "WDunits": "kpc", "galpy": "GALPY", "radec": "deg", "amuse": "pc"}


def xy(line): return np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)


def agree(mon, got, want, mech, msg, rt=1e-9, at=0.0):
    g, w = np.asarray(got, float), np.asarray(want, float)
    if not mon.ok(g.shape == w.shape, mech, "%s: %r points drawn, expected %r" % (msg, g.shape, w.shape)): return False
    f = np.isfinite(w)
    return mon.close(g[f], w[f], mech, rt, at, msg) if f.any() else True


class Canvas(object):
    """Watches matplotlib's figures across one call."""
    def __init__(self, mon, rng, over=None):
        plt.close("all"); self.mon = mon; self.over = bool(rng.random() < .35) if over is None else over; self.old = None; self.dir = None
        if self.over or rng.random() < .5:
            self.old = plt.figure(); self.ax = self.old.add_subplot(111); self.ax.plot([0, 1, 2], [1, 2, 3], "s"); self.before = len(self.ax.lines) + len(self.ax.collections)
        self.scratch = calls.Scratch() if rng.random() < .5 else None; self.file = None
        if self.scratch is not None: self.dir = self.scratch.__enter__(); self.file = self.dir + "p.png"

    def axes(self, mech, msg):
        """the axes drawn on: those of the existing figure when drawing over, of one new figure otherwise"""
        mon = self.mon; nums = plt.get_fignums()
        if self.over:
            if not mon.ok(nums == [self.old.number] and len(self.old.axes) == 1, mech + ":overplot", "%s with overplot made figures %r" % (msg, nums)): return None
            mon.ev("drawn over"); return [self.ax]
        new = [plt.figure(i) for i in nums if self.old is None or i != self.old.number]
        if self.old is not None:
            now = sum(len(a.lines) + len(a.collections) for a in self.old.axes)
            mon.ok(now == self.before and len(self.old.axes) == 1, mech + ":earlier", "%s drew on an earlier figure" % msg); mon.ev("earlier figure")
        if not mon.ok(len(new) == 1, mech + ":figure", "%s made %d figures" % (msg, len(new))): return None
        return new[0].axes

    def lines(self, ax): return ax.lines[1:] if self.over else list(ax.lines)

    def saved(self, mech, msg, fresh=True):
        if self.file is None: return
        if self.mon.ok(os.path.exists(self.file) and os.path.getsize(self.file) > 500, mech + ":file", "%s wrote no file" % msg): self.mon.ev("file written")

    def close(self):
        if self.scratch is not None: self.scratch.__exit__()
        plt.close("all")


def label_ok(mon, text, letter, units, mech, msg):
    mon.ok(text.strip().upper().startswith(letter), mech, "%s: axis labelled %r shows %s" % (msg, text, letter))
    if "(" in text: mon.ok(UNIT[units] in text.split("(")[1], mech, "%s: axis labelled %r in %s" % (msg, text, units))


def w_star(mon, rng):
    T, make, units, origin, srt = build(mon, rng); cl = make()
    coords = str(rng.choice(["xyz", "xyz", "xy", "xz", "yz"])); dc = bool(rng.random() < .5); k = {}
    c = Canvas(mon, rng, None if coords != "xyz" else False)
    if rng.random() < .4 and not c.over: k["xlim"] = tuple(float(v) for v in np.sort(rng.normal(0, 50, 2)))
    if rng.random() < .4 and not c.over: k["ylim"] = tuple(float(v) for v in np.sort(rng.normal(0, 50, 2)))
    msg = "starplot(coords=%s, do_centre=%s, overplot=%s, %s) of %s/%s" % (coords, dc, c.over, k, units, origin); mon.log(msg)
    try:
        ct.starplot(cl, coords=coords, do_centre=dc, overplot=c.over, filename=None if c.over else c.file, **k)
        axes = c.axes("starplot", msg)
        if axes is None: return
        want = [coords] if coords != "xyz" else ["xz", "xy"]
        if not mon.ok(len(axes) == len(want), "starplot:panels", "%s: %d panels" % (msg, len(axes))): return
        mon.ev("panels", coords == "xyz")
        if units == "radec": P = dict(zip("xyz", (cl.ra, cl.dec, cl.dist))); at = 1e-9; order = np.asarray(cl.id)
        else:
            e = T.expect("pckms" if units == "amuse" else units, origin); P = dict(zip("xyz", e["pos"].T)); at = 1e-11 * (np.max(np.abs(e["pos"])) + (np.max(np.abs(e["gc"])) if origin == "galaxy" else 0))
            pos = {int(i): n for n, i in enumerate(T.ids)}; sel = [pos[int(i)] for i in np.asarray(cl.id)]; P = {q: v[sel] for q, v in P.items()}
        for ax, pair in zip(axes, want):
            ls = c.lines(ax)
            if not mon.ok(len(ls) >= 1, "starplot:stars", msg + ": nothing drawn"): continue
            x, y = xy(ls[0]); agree(mon, x, P[pair[0]], "starplot:stars", msg + " " + pair[0], 1e-8, at); agree(mon, y, P[pair[1]], "starplot:stars", msg + " " + pair[1], 1e-8, at)
            if c.over: continue
            label_ok(mon, ax.get_xlabel(), pair[0].upper(), units, "starplot:label", msg); label_ok(mon, ax.get_ylabel(), pair[1].upper(), units, "starplot:label", msg)
            for lim, f in (("xlim", ax.get_xlim), ("ylim", ax.get_ylim)):
                if lim in k: mon.close(np.array(f()), np.array(k[lim]), "starplot:limits", 1e-9, 0, msg); mon.ev("limits")
            if units == "radec": continue
            e = T.expect("pckms" if units == "amuse" else units, origin)
            gc, cc = e["gc"], e["c"]; centre = gc + cc if origin == "galaxy" else (cc if origin == "cluster" else np.zeros(3)); i, j = ("xyz".index(q) for q in pair)
            marks = ls[1:]
            if not dc: mon.ok(not marks, "starplot:centre", msg + ": something but the stars drawn"); continue
            if origin == "centre" and not marks: continue
            if mon.ok(len(marks) >= 1, "starplot:centre", msg + ": centre not drawn"):
                X, Y = xy(marks[-1]); s = 1e-9 * (np.max(np.abs(gc)) * (origin == "galaxy") + np.max(np.abs(cc))) + 1e-12
                agree(mon, [X[0], Y[0]], [centre[i], centre[j]], "starplot:centre", msg + " marker of the centre", 1e-8, s); mon.ev("centre marked")
        if not c.over: c.saved("starplot", msg)
    finally: c.close()
    mon.ev("starplot"); mon.seen("star", units, origin, coords, dc, c.over, sorted(k)); mon.sample(dict(call=msg, n=T.n))


def w_sky(mon, rng):
    T, make, units, origin, srt = build(mon, rng); cl = make()
    if units == "amuse": mon.ev("amuse sky")
    coords = str(rng.choice(["radec", "pm"])); dc = bool(rng.random() < .5); c = Canvas(mon, rng); k = {}
    if rng.random() < .3 and not c.over: k["xlim"] = tuple(float(v) for v in np.sort(rng.normal(180, 50, 2)))
    msg = "skyplot(coords=%s, do_centre=%s, overplot=%s, %s) of %s/%s" % (coords, dc, c.over, k, units, origin); mon.log(msg)
    try:
        want = skyc.radec((T.pos + T.gc) / 1e3, T.vel + T.vgc, cl._ro, cl._vo, cl._zo, cl._solarmotion); pos = {int(i): n for n, i in enumerate(T.ids)}; want = want[[pos[int(i)] for i in np.asarray(cl.id)]]
        gc = skyc.radec(T.gc[None] / 1e3, T.vgc[None], cl._ro, cl._vo, cl._zo, cl._solarmotion)
        ct.skyplot(cl, coords=coords, do_centre=dc, overplot=c.over, filename=None if c.over else c.file, **k)
        axes = c.axes("skyplot", msg)
        if axes is None or not mon.ok(len(axes) == 1, "skyplot:panels", msg): return
        ax = axes[0]; ls = c.lines(ax)
        if not mon.ok(len(ls) == 1 + (dc and not c.over), "skyplot:lines", "%s: %d things drawn" % (msg, len(ls))): return
        i, j = (0, 1) if coords == "radec" else (3, 4)
        for line, w, what in [(ls[0], want, "stars")] + ([(ls[1], gc, "centre")] if dc and not c.over else []):
            x, y = xy(line)
            if not mon.ok(x.shape == (len(w),), "skyplot:" + what, "%s: %d points for %d" % (msg, len(x), len(w))): continue
            g = w.copy(); g[:, i] = x; g[:, j] = y; skyc.close_sky(mon, g, w, "skyplot:" + what, 1e-5, msg + " " + what)
            mon.ev("centre marked", what == "centre")
        if not c.over:
            a, b = ax.get_xlabel(), ax.get_ylabel()
            mon.ok(("degree" in a and "degree" in b and "Ra" in a and "Dec" in b) if coords == "radec" else ("mas" in a and "mas" in b and "Ra" in a and "Dec" in b), "skyplot:label", "%s: labels %r %r" % (msg, a, b))
            if "xlim" in k: mon.close(np.array(ax.get_xlim()), np.array(k["xlim"]), "skyplot:limits", 1e-9, 0, msg); mon.ev("limits")
            c.saved("skyplot", msg)
    finally: c.close()
    mon.ev("skyplot"); mon.seen("sky", units, origin, coords, dc, c.over); mon.sample(dict(call=msg, n=T.n))


class Drawn(object):
    """stands in for the package while a registered call runs: adds the plot options and keeps the values returned"""
    def __init__(self, extra): self.extra, self.raw = extra, None

    def __getattr__(self, name):
        f = getattr(ct, name)
        def run(*a, **k):
            k.update(self.extra); self.raw = f(*a, **k); return self.raw
        return run


def run_with(run, cl, a, extra):
    d = Drawn(extra); old = calls.ct; calls.ct = d
    try: return run(cl, a), d.raw
    finally: calls.ct = old


PROF = ["rho_prof", "m_prof", "sigv_prof", "v_prof", "v2_prof", "beta_prof", "vcirc_prof", "alpha_prof", "eta_prof", "meq_prof"]
FUNC = ["mass_function", "tapered_mass_function", "eta_function", "meq_function"]
RADII = ["rcore", "rcore_isothermal", "rtidal", "rlimiting", "virial_radius_critical"]
PATHS = ["orbital_path", "orbital_path_match", "tail_path", "tail_path_match"]


def numbers(res): return [(la, calls.number(v, d) if v is not None else None, d) for la, v, d, k in res]


def w_curve(mon, rng, names=PROF + FUNC + RADII + RADII, sky=False):
    T, make, units, origin, srt = build(mon, rng)
    names = [n for n in names if drawable(n, units, origin, srt)]
    if not names or (units == "radec" and not sky): return
    nm = str(rng.choice(names)); draw, run, fl = calls.CALLS[nm]; fr = "centre" if origin in ("galaxy", "sky") else origin; p = draw(rng, T, fr); p["plot"] = False
    c = Canvas(mon, rng); extra = dict(plot=True, overplot=c.over)
    if c.file is not None: extra["filename"] = c.file
    msg = "%s(%s) drawn (%s) in %s/%s" % (nm, {k: v for k, v in p.items() if k not in ("ids", "bins", "sel")}, {k: v for k, v in extra.items() if k != "filename"}, units, origin); mon.log(msg)
    try:
        ref = make(); u = "kpckms" if units == "radec" else units
        try: plain = attempt(mon, run, ref, calls.Args(T, ref, u, p), nm)
        except NoAnswer: mon.ev("no answer"); return
        mon.ok(len(plt.get_fignums()) == (1 if c.old is not None else 0), nm + ":undrawn", "%s drew without being asked" % nm)
        cl = make(); res, raw = run_with(run, cl, calls.Args(T, cl, u, p), extra)
        for (la, a, d), (lb, b, _) in zip(numbers(plain), numbers(res)):
            if a is None or b is None: mon.ok(a is None and b is None, nm + ":same", "%s %s" % (msg, la)); continue
            if mon.ok(a.shape == b.shape, nm + ":same", "%s %s: shape %r, without a plot %r" % (msg, la, b.shape, a.shape)) and a.size: mon.close(b, a, nm + ":same", 1e-9, 1e-12 * np.max(np.abs(a[np.isfinite(a)]), initial=0), "%s %s against the call without a plot" % (msg, la))
        mon.ok((cl.units, cl.origin) == (ref.units, ref.origin), nm + ":state", "%s left the cluster in %s/%s" % (msg, cl.units, cl.origin))
        mon.ev("same without plot")
        if nm in FUNC and raw[3] == -1000.0: mon.ev("nothing to draw"); return
        axes = c.axes(nm, msg)
        if axes is None: return
        ax = axes[0]; ls = c.lines(ax); V = {la: v for la, v, d in numbers(res)}; plu = "pckms" if units == "amuse" else units
        if nm == "orbital_path_match" or nm == "tail_path_match": match(mon, ax, c, V, T, u, p, nm, msg)
        elif not mon.ok(len(ls) >= 1, nm + ":curve", msg + ": nothing drawn"): return
        elif nm in PROF:
            x, y = xy(ls[0]); lg = nm in ("alpha_prof", "eta_prof", "meq_prof")
            with np.errstate(all="ignore"): agree(mon, x, np.log(V["r"]) if lg else V["r"], nm + ":curve", msg + " radii", 1e-8, 1e-9 if lg else 0)
            agree(mon, y, V["value"], nm + ":curve", msg + " values", 1e-8)
            if lg and len(x) > 3 and V.get("slope") is not None and V["slope"] > -100 and mon.ok(len(ls) == 2, nm + ":fit", msg + ": no fit drawn"):
                X, Y = xy(ls[1]); o = np.argsort(X); f = np.isfinite(X)
                if f.sum() > 2: mon.close(np.polyfit(X[f], Y[f], 1)[0], V["slope"], nm + ":fit", 1e-5, 1e-6, msg + " slope drawn"); mon.close(np.polyfit(X[f], Y[f], 1), np.polyfit(X[f], y[f], 1), nm + ":fit", 1e-4, 1e-5, msg + " line drawn through the points")
            if nm == "vcirc_prof" and mon.ok(len(ls) == 3, nm + ":lines", msg):
                rm = halfmass(T, plu, fr, p["projected"]) if p.get("norm") else 1.0; mon.ev("normalised marker", bool(p.get("norm")))
                agree(mon, ls[1].get_xdata(), [V["rvmax"] / rm] * 2, nm + ":marker", msg + " rvmax", 1e-8); agree(mon, ls[2].get_ydata(), [V["vmax"]] * 2, nm + ":marker", msg + " vmax", 1e-8); mon.ev("marker line")
            unit_label(mon, ax, c, nm, plu, p, msg)
        elif nm in FUNC:
            x, y = xy(ls[0]); other = V.get("dm", V.get("sigvm"))
            agree(mon, x, V["m_mean"], nm + ":curve", msg + " masses", 1e-8)
            with np.errstate(all="ignore"): w = np.log10(other)
            agree(mon, y, w, nm + ":curve", msg + " values", 1e-8, 1e-9)
            if mon.ok(len(ls) == 2, nm + ":fit", msg + ": %d lines" % len(ls)):
                X, Y = xy(ls[1]); s = {"mass_function": V.get("alpha"), "eta_function": V.get("eta")}.get(nm)
                if s is not None: mon.close(np.polyfit(np.log10(X), Y, 1)[0], s, nm + ":fit", 1e-5, 1e-7, msg + " slope drawn")
                mon.close([X.min(), X.max()], [V["m_mean"].min(), V["m_mean"].max()], nm + ":fit", 1e-8, 0, msg)
        elif nm == "rtidal": tidal(mon, ls, cl, T, plu, origin, p, float(V["rt"]), msg)
        elif nm in RADII:
            if not mon.ok(len(ls) == 3, nm + ":lines", "%s: %d lines" % (msg, len(ls))): return
            val = float(list(V.values())[0]); x, y = xy(ls[0])
            if nm == "virial_radius_critical": val *= T.dims("pckms" if units == "amuse" else units)[0]
            agree(mon, ls[2].get_xdata(), [val] * len(x), nm + ":marker", msg + " radius marked", 1e-8); lev = np.asarray(ls[1].get_ydata(), float); mon.ok(np.ptp(lev) <= 1e-12 * abs(lev[0]), nm + ":level", msg); mon.ev("marker line"); mon.ev("radii marked inside", x[0] < val < x[-1])
            o = x[0] < val < x[-1]
            if nm == "rcore":
                E = T.frame("centre")[0] / T.dims(plu)[0]; q = np.sqrt(np.sum(E[:, :2 if p["projected"] else 3] ** 2, 1)); A = np.pi * val ** 2 if p["projected"] else 4 / 3. * np.pi * val ** 3
                mon.close(lev[0], np.sum(T.m[q < val]) / T.dims(plu)[2] / A, "rcore:level", 1e-6, 0, msg + ": mean density of the core")
            elif o and y[0] > lev[0] > y[-1] and np.all(np.diff(y[x < val * (1 + 1e-9)] >= lev[0] * (1 - 1e-6)) == 0): mon.close(np.interp(val, x, y), lev[0], nm + ":level", 1e-6, 0, msg + ": curve at the radius marked")
            if nm != "virial_radius_critical": density(mon, rng, T, plu, fr, nm, p, x, y, lev[0], val, msg)
            unit_label(mon, ax, c, nm, "pckms" if nm == "virial_radius_critical" else plu, p, msg)
        else: path(mon, ls, c, cl, T, u, plu, origin, p, V, nm, msg)
        c.saved(nm, msg)
    finally: c.close()
    mon.ev("curve", nm not in PATHS); mon.seen(nm, units, origin, c.over, sorted((k, str(v)[:8]) for k, v in p.items() if k not in ("sel", "bins", "ids", "t"))); mon.sample(dict(call=msg, n=T.n))
    mon.ev("drawn by " + nm)


def halfmass(T, units, fr, projected):
    """radius of the star with which half of the mass is enclosed"""
    q = np.sqrt(np.sum((T.frame(fr)[0] / T.dims(units)[0])[:, :2 if projected else 3] ** 2, 1)); o = np.argsort(q)
    return q[o][np.cumsum(T.m[o]) >= .5 * np.sum(T.m)][0]


def unit_label(mon, ax, c, nm, units, p, msg):
    if c.over or p.get("norm"): return
    t = ax.get_xlabel()
    if "(" in t: mon.ok("(%s)" % UNIT[units] in t, nm + ":label", "%s: radii labelled %r" % (msg, t)) if "ln(" not in t else None


def tidal(mon, ls, cl, T, units, origin, p, rt, msg):
    if not mon.ok(len(ls) == 2, "rtidal:lines", msg): return
    e = T.expect(units, origin); pos = {int(i): n for n, i in enumerate(T.ids)}; q = e["pos"][[pos[int(i)] for i in np.asarray(cl.id)]]; big = np.max(np.abs(e["pos"])); x, y = xy(ls[0])
    agree(mon, x, q[:, 0], "rtidal:stars", msg, 1e-8, 1e-10 * big); agree(mon, y, q[:, 1], "rtidal:stars", msg, 1e-8, 1e-10 * big)
    o = e["gc"] if origin == "galaxy" else np.zeros(3)
    if p["fc"] and origin in ("galaxy", "cluster"): o = o + e["c"]
    X, Y = xy(ls[1]); mon.close(np.hypot(X - o[0], Y - o[1]), np.full(len(X), rt), "rtidal:circle", 1e-7, 1e-9 * big, msg + ": circle of the tidal radius"); mon.ev("marker line")


def density(mon, rng, T, units, fr, nm, p, x, y, level, val, msg):
    """the density drawn, put back over the bins, is the cluster's: the mean density of the stars within the outermost radius bounds it"""
    Lu, Vu, Mu = T.dims(units)[:3]; P = T.frame("centre" if nm != "rlimiting" else fr)[0] / Lu; d = 2 if p["projected"] else 3; r = np.sqrt(np.sum(P[:, :d] ** 2, 1)); m = T.m / Mu; n = len(x); s = np.sort(r)
    cut = (np.arange(n) * len(r) / n).astype(int); lo = s[cut]; up = np.r_[lo[1:], s[-1]]
    mem = (r >= lo[:, None]) & (r < up[:, None]); mem[-1] |= r == up[-1]
    vol = np.pi * (up ** 2 - lo ** 2) if p["projected"] else 4 / 3. * np.pi * (up ** 3 - lo ** 3)
    agree(mon, y, (mem * m).sum(1) / vol, nm + ":density", msg + ": densities drawn", 1e-4); mon.ok(np.all((x >= lo * (1 - 1e-6)) & (x <= up * (1 + 1e-6))), nm + ":density", msg + ": radii drawn outside their bins")


def path(mon, ls, c, cl, T, u, plu, origin, p, V, nm, msg):
    """stars and path in the same coordinates, the path the one returned"""
    if not mon.ok(len(ls) == 2, nm + ":lines", "%s: %d lines" % (msg, len(ls))): return
    pos = {int(i): n for n, i in enumerate(T.ids)}; sel = [pos[int(i)] for i in np.asarray(cl.id)]; X, Y = xy(ls[0]); x, y = xy(ls[1])
    if p["sky"]:
        w = skyc.radec((T.pos + T.gc) / 1e3, T.vel + T.vgc, cl._ro, cl._vo, cl._zo, cl._solarmotion)[sel]
        if mon.ok(X.shape == (T.n,), nm + ":stars", msg): g = w.copy(); g[:, 0] = X; g[:, 1] = Y; skyc.close_sky(mon, g, w, nm + ":stars", 1e-5, msg + " stars")
        agree(mon, x, V["x"], nm + ":path", msg, 1e-8); agree(mon, y, V["y"], nm + ":path", msg, 1e-8); mon.ev("sky path")
    else:
        d = "kpckms" if nm == "tail_path" else plu; e = T.expect(d, "galaxy"); q = e["pos"][sel]; s = T.dims("pckms" if u == "amuse" else u)[0] / T.dims(d)[0]; big = np.max(np.abs(q))
        agree(mon, X, q[:, 0], nm + ":stars", msg + " stars", 1e-8, 1e-9 * big); agree(mon, Y, q[:, 1], nm + ":stars", msg + " stars", 1e-8, 1e-9 * big)
        agree(mon, x, V["x"] * s, nm + ":path", msg + " path", 1e-8, 1e-10 * big); agree(mon, y, V["y"] * s, nm + ":path", msg + " path", 1e-8, 1e-10 * big)
    mon.ev("path")


def match(mon, ax, c, V, T, u, p, nm, msg):
    cs = list(ax.collections)
    if not mon.ok(len(cs) == 1, nm + ":scatter", "%s: %d sets of points" % (msg, len(cs))): return
    o = np.asarray(cs[0].get_offsets(), float); s = T.dims("pckms" if u == "amuse" else u)[0] / 1e3 if u == "amuse" or not p["sky"] else 1.0
    if mon.ok(o.shape == (T.n, 2), nm + ":scatter", "%s: %d points for %d stars" % (msg, len(o), T.n)):
        agree(mon, o[:, 0], V["dprog"] * s, nm + ":scatter", msg + " progenitor distance", 1e-8, 1e-12); agree(mon, o[:, 1], V["dpath"] * s, nm + ":scatter", msg + " path distance", 1e-8, 1e-12)
    mon.ev("path"); mon.ev("sky path", p["sky"])


def w_path(mon, rng): w_curve(mon, rng, PATHS)


METHODS = {"mass_function": dict(nmass=5, kwmax=15), "tapered_mass_function": dict(nmass=8, kwmax=15), "eta_function": dict(nmass=5, kwmax=15), "meq_function": dict(nmass=5, kwmax=15), "rcore": {}, "rtidal": dict(pot=1), "rlimiting": dict(pot=1, nrad=6),
           "virial_radius": dict(method="critical_density", overdens=1e6)}


def w_method(mon, rng):
    """the method of a cluster draws the figure its function draws"""
    T, make, units, origin, srt = build(mon, rng)
    if units == "radec": return
    nm = str(rng.choice(list(METHODS))); kw = dict(METHODS[nm])
    if "pot" in kw: kw["pot"] = calls.pots.POTS[str(rng.choice(calls.pots.NAMES))]
    if nm not in ("rtidal",) and rng.random() < .5: kw["projected"] = bool(rng.random() < .5)
    msg = "cluster.%s(%s, plot=True) in %s/%s" % (nm, {k: v for k, v in kw.items() if k != "pot"}, units, origin); mon.log(msg); pic = []
    for f in (lambda c, **k: getattr(ct, nm)(c, **k), lambda c, **k: getattr(c, nm)(**k)):
        c = Canvas(mon, rng, False)
        try:
            if c.file is not None: kw["filename"] = c.file
            try: f(make(), plot=True, **kw)
            except RuntimeError as e:
                if "Optimal parameters" in str(e): mon.ev("no answer"); return
                raise
            kw.pop("filename", None); nums = plt.get_fignums()
            if not nums or (c.old is not None and len(nums) == 1): pic.append([]); continue
            axes = c.axes(nm, msg)
            if axes is None: return
            pic.append([xy(l) for a in axes for l in a.lines]); c.saved(nm, msg)
        finally: c.close()
    if mon.ok(len(pic[0]) == len(pic[1]), "method:" + nm, "%s: %d lines, its function draws %d" % (msg, len(pic[1]), len(pic[0]))):
        for a, b in zip(*pic):
            for g, w in zip(b, a): agree(mon, g, w, "method:" + nm, msg, 1e-7 if nm not in ("tapered_mass_function", "meq_function") else .02, 1e-10 * np.max(np.abs(w[np.isfinite(w)]), initial=0))
        mon.ev("method", len(pic[0]) > 0)
    mon.seen("method", nm, units, origin, kw.get("projected")); mon.sample(dict(call=msg, n=T.n))


def w_dx(mon, rng):
    n = int(rng.integers(40, 300)); x = 10 ** rng.uniform(-1, 1, n) if rng.random() < .6 else 1 + rng.exponential(2., n); tap = bool(rng.random() < .3); k = dict(nx=int(rng.integers(6, 12)), bintype=str(rng.choice(["num", "fix"])))
    f = ct.tapered_dx_function if tap else ct.dx_function; msg = "%s(%s)" % (f.__name__, k); mon.log(msg); c = Canvas(mon, rng)
    try:
        extra = dict(plot=True, overplot=c.over)
        if c.file is not None: extra["filename"] = c.file
        try: ref = f(x.copy(), **k); res = f(x.copy(), **k, **extra)
        except RuntimeError as e:
            if "Optimal parameters" in str(e): mon.ev("no answer"); return
            raise
        for a, b in zip(res, ref): mon.close(a, b, "dx:same", 1e-12, 0, msg)
        axes = c.axes("dx", msg)
        if axes is None: return
        ls = c.lines(axes[0])
        if mon.ok(len(ls) == 2, "dx:lines", "%s: %d lines" % (msg, len(ls))):
            X, Y = xy(ls[0]); agree(mon, X, res[0], "dx:curve", msg, 1e-9); agree(mon, Y, np.log10(res[2]), "dx:curve", msg, 1e-9, 1e-12)
            U, W = xy(ls[1])
            if not tap: mon.close(np.polyfit(np.log10(U), W, 1), [res[3], res[5]], "dx:fit", 1e-6, 1e-8, msg + ": line drawn")
        c.saved("dx", msg)
    finally: c.close()
    mon.ev("distribution drawn"); mon.seen("dx", f.__name__, sorted(k.items()), c.over)


def w_speed(mon, rng): w_curve(mon, rng, ["vcirc_prof"])


WORKLOADS = [("starplot", w_star, 30, 400), ("skyplot", w_sky, 16, 200), ("curve", w_curve, 40, 500), ("path", w_path, 12, 120), ("method", w_method, 8, 100), ("dx", w_dx, 6, 60), ("speed", w_speed, 5, 50)]
