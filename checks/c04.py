"""C04: result-returning calls leave the cluster, and the caller's arguments, as they found them; repeating one gives the same answer."""
import numpy as np
import matplotlib.pyplot as plt
from ctv import gen, derived, calls
import clustertools as ct

RULE = ("Random sequences of 4-7 calls drawn from 48 analysis, profile, orbit, tail, coordinate, selection, plotting and output functions with random options, on clusters (30-120 stars, types, binaries' data, energies) in "
        "every unit system incl. AMUSE and sky coordinates and every origin, and calls on selections of 0-5 stars; after every call the complete public state is diffed and the caller's arrays compared; results are compared with a fresh cluster's; distinct by function/units/origin.")
REQUIRE = {"call": 1000, "functions reached": 46, "arrays watched": 250, "amuse": 30, "galaxy origin": 60, "sky": 12, "repeat": 150, "history": 400, "methods": 150, "plots drawn": 80, "unsorted start": 30, "few stars, answer": 60}
ASSUMPTIONS = ["state means units, origin, positions, velocities, masses, ids, order, centre, orbital position, per-star data, scale factors and sorted orders; caches of orbits (cluster.orbit) and the values stored by methods are results"]
L = derived.plain
DATA = ["kw", "logl", "logr", "lum", "ep", "ospin", "m0", "npop", "kin", "pot", "etot", "id1", "id2", "kw1", "kw2", "m1", "m2", "semi", "pb", "ecc", "logl1", "logl2", "arg"]
SCALE = ["zmbar", "rbar", "vbar", "tbar", "nb", "ns", "ntot", "bunits", "_ro", "_vo", "_zo", "ctype", "projected", "wdir", "nsnap"]
METHODS = {"energies": [{}], "closest_star": [{}], "rlagrange": [{}], "virial_radius": [{}, dict(full=False)], "relaxation_time": [{}], "half_mass_relaxation_time": [{}], "core_relaxation_time": [{}],
           "mass_function": [dict(nmass=5, kwmax=15)], "tapered_mass_function": [dict(nmass=8, kwmax=15)], "eta_function": [dict(nmass=5, kwmax=15)], "meq_function": [dict(nmass=5, kwmax=15)], "ckin": [dict(nmass=5, kwmax=15)], "rcore": [{}]}
_reached = set()


def build(mon, rng):
    T = gen.truth(rng, n=int(rng.integers(30, 120)), kind=str(rng.choice(["plummer", "gauss", "clumpy"]))); n = T.n
    T.m = 10 ** rng.uniform(-1, 1, n)
    d = rng.normal(0, 1, 3); d[2] *= .6; T.gc = d / np.linalg.norm(d) * 1000 * 10 ** rng.uniform(.4, 1.4); e = rng.normal(0, 1, 3); e -= e @ d * d / (d @ d); T.vgc = e / np.linalg.norm(e) * rng.uniform(120, 250) + rng.normal(0, 20, 3)
    units = str(rng.choice(gen.UNITS)); origin = str(rng.choice(gen.ORIGINS)); am = gen.HAVE_AMUSE and rng.random() < .12; sorted_ = bool(rng.random() < .85)
    if am: units = "pckms"
    seed = int(rng.integers(0, 2 ** 31)); extra = [bool(rng.random() < p) for p in (.7, .4, .4)]
    sky = (not am) and rng.random() < .08

    def make():
        g = np.random.default_rng(seed); cl = T.build(units, origin, analyze=sorted_)
        if extra[0]: cl.add_sse(g.integers(0, 3, n), g.normal(0, 1, n), g.normal(0, 1, n), ep=g.random(n), ospin=g.random(n))
        if extra[1]: cl.npop = g.integers(1, 3, n)
        if extra[2] and not am: k, p = g.uniform(0, 5, n), -g.uniform(0, 9, n); cl.add_energies(k, p)
        if extra[0] and extra[1] and not am and not sky:
            b = 2; cl.nb = b; cl.add_bse(T.ids[:b], T.ids[:b] + 1, np.zeros(b), np.zeros(b), np.zeros(b), g.random(b), g.uniform(1, 9, b), g.uniform(1, 9, b), T.m[:b] / 2, T.m[:b] / 2, g.normal(0, 1, b), g.normal(0, 1, b), g.normal(0, 1, b), g.normal(0, 1, b)); cl.nb = b
        cl.analyze(sortstars=sorted_)
        if am: cl.to_amuse()
        if sky: cl.to_sky()
        return cl
    if not sorted_: mon.ev("unsorted start")
    mon.ev("amuse", am); mon.ev("galaxy origin", origin == "galaxy" and not sky); mon.ev("sky", sky)
    return T, make, "amuse" if am else ("radec" if sky else units), "sky" if sky else origin, sorted_


def copyval(v):
    if isinstance(v, (np.ndarray, list)): return np.array(v)
    return v


def snap(cl):
    return {k: copyval(getattr(cl, k)) for k in DATA + SCALE if hasattr(cl, k)}


def sorts(cl):
    return bool(len(np.atleast_1d(cl.rorder)) == cl.ntot)


def same(a, b):
    try:
        x, y = calls.number(a), calls.number(b)
        return x.shape == y.shape and bool(np.all((np.abs(x - y) <= 1e-11 * np.abs(y)) | (x == y) | (np.isnan(x) & np.isnan(y))))
    except Exception:
        return type(a) == type(b) and np.array_equal(np.asarray(a, dtype=object), np.asarray(b, dtype=object))


def state(mon, cl, T, units, origin, before, cols, srt, tag, msg):
    if units == "radec":
        ok = mon.ok(cl.units == "radec" and cl.origin == "sky", "state:%s:tag" % tag, "%s left the cluster in %s/%s" % (msg, cl.units, cl.origin))
        if ok:
            for k in gen.STAR + gen.C0 + gen.GC + ["m", "tphys", "ra", "dec", "dist"]:
                w = np.asarray(cols[k], float); mon.close(np.asarray(getattr(cl, k), float), w, "state:%s:sky" % tag, 1e-7, 1e-7 * (np.max(np.abs(w)) + 1), "%s changed %s" % (msg, k))
            mon.ok(np.array_equal(np.asarray(cl.id), cols["id"]), "state:%s:ids" % tag, msg)
    else: ok = T.compare(mon, cl, units, origin, "state:" + tag, msg="after " + msg, slack=5)
    now = snap(cl)
    for k in before:
        mon.ok(k in now and same(now[k], before[k]), "state:%s:%s" % (tag, k), lambda: "%s changed %s: %r, was %r" % (msg, k, now.get(k), before[k]))
    if ok and units != "radec":
        x = L(cl.x)
        r = np.sqrt(L(cl.x) ** 2 + L(cl.y) ** 2 + L(cl.z) ** 2); ok = mon.close(L(cl.r), r, "state:%s:r" % tag, 1e-9, 1e-12 * r.max(), "%s left r stale" % msg)
        if srt: derived.check(mon, cl, "state:%s:derived" % tag, "after " + msg)
    return ok


def drawable(nm, units, origin, srt):
    fl = calls.CALLS[nm][2]
    if units == "amuse" and "noamuse" in fl: return False
    if units == "radec": return nm in ("energies", "rlagrange", "virial_radius", "relaxation_time", "rho_prof", "m_prof", "sigv_prof", "mass_function", "starplot", "skyplot", "initialize_orbit", "interpolate_orbit", "rcore", "subset", "sphere_coords", "sky_coords", "gyrout", "snapout") 
    return True


def agree(mon, got, want, mech, msg, T, units, tol=1e-6):
    if not mon.ok(len(got) == len(want), mech, "%s: %d results, %d on a fresh cluster" % (msg, len(got), len(want))): return
    for (la, g, d, k), (lb, w, _, _) in zip(got, want):
        if g is None and w is None: continue
        a, b = calls.number(g, d), calls.number(w, d)
        if not mon.ok(a.shape == b.shape, mech, "%s %s: shape %r, on a fresh cluster %r" % (msg, la, a.shape, b.shape)): continue
        if a.size: mon.close(a, b, mech, tol, tol * np.max(np.abs(b[np.isfinite(b)]), initial=0) + 1e-300, "%s %s against a fresh cluster" % (msg, la))


def w_seq(mon, rng):
    T, make, units, origin, srt = build(mon, rng); cl = make(); names = [k for k in calls.CALLS if drawable(k, units, origin, srt)]
    fr = "centre" if origin in ("galaxy", "sky") else origin; hist = []
    before = snap(cl); cols = {k: copyval(getattr(cl, k)) for k in gen.STAR + gen.C0 + gen.GC + ["m", "tphys", "id"] + (["ra", "dec", "dist"] if units == "radec" else [])}
    for step in range(int(rng.integers(4, 8))):
        nm = str(rng.choice(names)); draw, run, fl = calls.CALLS[nm]; p = draw(rng, T, fr)
        if units == "radec":
            p.pop("sel", None); p["sel"] = dict(kwmin=0, kwmax=15); p["bins"] = None; p["rad"] = None; p["softening"] = 0
            if nm == "interpolate_orbit": p["t"] = None
        if units == "radec" and nm in ("orbital_path",): p["t"] = None
        msg = "%s(%s) in %s/%s" % (nm, {k: v for k, v in p.items() if k not in ("ids", "bins", "sel")}, units, origin); mon.log(msg)
        a = calls.Args(T, cl, "kpckms" if units == "radec" else units, p); nfig = len(plt.get_fignums())
        try:
            res = attempt(mon, run, cl, a, nm)
        except NoAnswer: mon.ev("no answer"); return
        finally:
            if len(plt.get_fignums()) > nfig or p.get("plot"): mon.ev("plots drawn")
            plt.close("all")
        tag = nm; hist.append(nm); mon.ev("call"); mon.ev("arrays watched", len(a.given)); mon.seen(nm, units, origin, sorted((k, str(v)[:12]) for k, v in p.items() if k not in ("sel", "bins", "ids")))
        if nm not in _reached: _reached.add(nm); mon.ev("functions reached")
        if not state(mon, cl, T, units, origin, before, cols, srt, tag, msg): return
        a.unmodified(mon, "arguments:" + tag, msg)
        if "plot" in fl or res is None: continue
        loose = .02 if 'fit' in fl else 1e-6
        if rng.random() < .2:
            b = calls.Args(T, cl, a.units, p); agree(mon, attempt(mon, run, cl, b, nm) or [], res, "repeat:" + tag, "second " + msg, T, units, loose); plt.close("all"); mon.ev("repeat")
            if not state(mon, cl, T, units, origin, before, cols, srt, tag, "second " + msg): return
        if step and rng.random() < .6 and "file" not in fl:
            f = make(); b = calls.Args(T, f, a.units, p); agree(mon, res, attempt(mon, run, f, b, nm) or [], "history:" + tag, "%s after %s" % (msg, ">".join(hist[:-1])), T, units, loose); plt.close("all"); mon.ev("history")
    mon.sample(dict(units=units, origin=origin, n=T.n, calls=hist))


FEW = ["mass_function", "tapered_mass_function", "eta_function", "meq_function", "ckin"] + [k for k in calls.CALLS if k.endswith("_prof")]


def w_few(mon, rng):
    """selections too small for an answer; a fit without data may raise"""
    T, make, units, origin, srt = build(mon, rng)
    if units == "radec": return
    cl = make(); names = [k for k in FEW if k in calls.CALLS and drawable(k, units, origin, srt)]; fr = "centre" if origin == "galaxy" else origin; before = snap(cl)
    for step in range(4):
        nm = str(rng.choice(names)); draw, run, fl = calls.CALLS[nm]; p = draw(rng, T, fr); k = int(rng.choice([0, 1, 2, 3, 5])); p["sel"] = dict(ids=set(int(i) for i in rng.permutation(T.ids)[:k]), kwmin=None, kwmax=None); p["plot"] = False
        msg = "%s of %d stars in %s/%s" % (nm, k, units, origin); mon.log(msg); a = calls.Args(T, cl, units, p); mon.ev("few stars")
        try: run(cl, a)
        except Exception: mon.ev("few stars, no answer"); return
        finally: plt.close("all")
        mon.ev("few stars, answer"); mon.seen("few", nm, units, origin, k, p["projected"])
        if not state(mon, cl, T, units, origin, before, {}, srt, "few:" + nm, msg): return
        a.unmodified(mon, "arguments:" + nm, msg)


def attempt(mon, run, cl, a, nm):
    """fits may legitimately fail to converge, and a profile without a core has no core radius; the sequence ends there"""
    try: return run(cl, a)
    except IndexError:
        if nm == "rcore_isothermal": raise NoAnswer()
        raise
    except RuntimeError as e:
        if "fit" in calls.CALLS[nm][2] and "Optimal parameters" in str(e): raise NoAnswer()
        raise


class NoAnswer(Exception):
    pass


def w_method(mon, rng):
    T, make, units, origin, srt = build(mon, rng)
    if units == "radec": return
    cl = make(); before = snap(cl); before = {k: v for k, v in before.items() if k not in ("kin", "pot", "etot")}
    for step in range(4):
        nm = str(rng.choice(list(METHODS))); kw = dict(METHODS[nm][int(rng.integers(0, len(METHODS[nm])))]); pr = bool(rng.random() < .4); kw["projected"] = pr
        msg = "cluster.%s(%s) in %s/%s" % (nm, kw, units, origin); mon.log(msg)
        try: res = getattr(cl, nm)(**kw)
        except RuntimeError as e:
            if "Optimal" not in str(e): raise
            return
        mon.ev("methods"); mon.ev("call"); mon.seen("method", nm, units, origin, pr)
        if not state(mon, cl, T, units, origin, before, {}, srt, "method:" + nm, msg): return


QF = 3
WORKLOADS = [("sequence", w_seq, 330, 4000), ("method", w_method, 80, 900), ("few", w_few, 60, 700)]
