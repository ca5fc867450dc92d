"""C25: the same analysis of the same stars in other units, an equivalent origin, another row order or rotated gives the same physical result."""
import copy
import numpy as np
import matplotlib.pyplot as plt
from ctv import gen, derived, calls
import clustertools as ct

RULE = ("Random clusters (60-160 stars) analysed by 42 functions with random options in a reference representation and in transformed ones: every unit system incl. AMUSE, galactocentric against cluster-centred origin, shuffled rows, "
        "rotations about the centre, and compositions of these; results compared in physical units, per star by id; distinct by function/transformation/units/options.")
REQUIRE = {"compared": 1500, "functions reached": 40, "units": 700, "origin": 300, "order": 500, "rotation": 250, "composed": 300, "amuse": 80, "nbody": 60, "galpy": 60, "WDunits": 60, "kpcgyr": 60, "pcmyr": 60, "kpckms": 60}
ASSUMPTIONS = ["results containing the gravitational constant agree to 2e-3 in galpy and WDunits, whose unit constants imply a value of G 2e-4 from the documented one; to 1e-6 elsewhere", "fits that converge iteratively are compared by their data points",
               "the centre is the equivalent origin of a galactocentric cluster for structural analyses, the cluster frame for energies", "rotations apply to 3D quantities"]
_reached = set()
CURRENT = {"sphere_coords", "cyl_coords", "subset", "sub_cluster", "overlap_cluster"}       # work in whatever frame the cluster is in
CORE = {"rcore", "rcore_isothermal", "core_relaxation_time"}                                  # look for the centre when none is set
SKIP = {"starplot", "skyplot", "snapout", "fortout", "gyrout", "overlap_cluster_", "sub_cluster_"}


def base_truth(rng):
    T = gen.truth(rng, n=int(rng.integers(60, 160)), kind=str(rng.choice(["plummer", "gauss", "plummer"]))); n = T.n; T.m = 10 ** rng.uniform(-1, 1, n)
    d = rng.normal(0, 1, 3); d[2] *= .6; T.gc = d / np.linalg.norm(d) * 1000 * 10 ** rng.uniform(.4, 1.4); e = rng.normal(0, 1, 3); e -= e @ d * d / (d @ d); T.vgc = e / np.linalg.norm(e) * rng.uniform(120, 250) + rng.normal(0, 20, 3)
    zm, rb = T.scale[:2]; vb = float(np.sqrt(gen.G * zm / rb)); T.scale = (zm, rb, vb, float(rb / (gen.KMS_PCMYR * vb)))
    if rng.random() < .3: T.c = np.zeros(3); T.vc = np.zeros(3)
    T.projected = bool(rng.random() < .25)
    return T


def make(T, units, origin):
    am = units == "amuse"; cl = T.build("pckms" if am else units, origin, sort=bool(T.n % 2), projected=T.projected); i = np.asarray(T.ids)
    cl.add_sse(i % 3, np.sin(i), np.cos(i)); cl.npop = 1 + i % 2; cl.analyze(sortstars=bool(T.n % 2))
    if am: cl.to_amuse()
    return cl


def shuffled(T, rng):
    S = copy.deepcopy(T); k = rng.permutation(T.n); S.m, S.pos, S.vel, S.ids = T.m[k], T.pos[k], T.vel[k], T.ids[k]; return S


def rotated(T, rng, fr):
    S = copy.deepcopy(T); q, r = np.linalg.qr(rng.normal(0, 1, (3, 3))); R = q * np.sign(np.linalg.det(q)); c, vc = (T.c, T.vc) if fr == "centre" else (0, 0)
    S.pos = c + (T.pos - c) @ R.T; S.vel = vc + (T.vel - vc) @ R.T; return S


def evaluate(mon, T, units, origin, nm, p):
    cl = make(T, units, origin); a = calls.Args(T, cl, units, p)
    try: res = calls.CALLS[nm][1](cl, a)
    except IndexError:
        if nm == "rcore_isothermal": return None
        raise
    except RuntimeError as e:
        if "Optimal" in str(e): return None
        raise
    finally: plt.close("all")
    out = []
    for la, v, d, k in res:
        if v is None: out.append((la, None, k)); continue
        x = calls.physical(v, d, T, units)
        if k in ("star", "some"):
            i = np.asarray(cl.id); i = i[np.isin(i, list(p["ids"]))] if k == "some" else i
            x = x[np.argsort(i)] if x.shape[:1] == i.shape else x
        if k == "vec": x = x + {"cluster": 0, "centre": T.c if la == "pos" else T.vc, "galaxy": -(T.gc if la == "pos" else T.vgc)}[origin]
        out.append((la, x, k))
    return out


def transform(mon, rng, T, fr, units, origin, nm, p):
    """a random equivalent representation"""
    fl = calls.CALLS[nm][2]; what = set(); S, u, o = T, units, origin
    want = [str(w) for w in rng.permutation(["units", "origin", "order", "rotation"])[:int(rng.choice([1, 1, 2, 3]))]]
    if "units" in want:
        u = str(rng.choice([k for k in gen.UNITS + (["amuse"] if gen.HAVE_AMUSE and not p.get("sky") else []) if k != units]))
        if "noamuse" in fl and u == "amuse": u = "kpckms" if units != "kpckms" else "pckms"
        what.add("units"); mon.ev(u)
    if "origin" in want and nm != "to_tail_":
        if fr != "cluster" or "cframe" in fl or "frame" not in fl: pass
        alt = {"centre": "galaxy", "cluster": None, "galaxy": "centre"}
        if "cframe" in fl: alt = {"cluster": "galaxy", "centre": None, "galaxy": "cluster"}
        if "orb" in fl or "vec" in fl or "galactic" in fl or "closest" in nm: alt = {k: str(rng.choice([x for x in gen.ORIGINS if x != k])) for k in gen.ORIGINS}
        if nm in CURRENT or nm in CORE and not T.c.any(): alt = {origin: None}
        if alt[origin]: o = alt[origin]; what.add("origin")
    if "order" in want: S = shuffled(S, rng); what.add("order")
    if "rotation" in want and not p.get("projected") and not T.projected and ("rot" in fl or "rotr" in fl and p.get("coord") in (None, "r")) and nm not in CORE and nm != "beta_prof" and not (nm in CURRENT and origin == "galaxy"):
        S = rotated(S, rng, fr); what.add("rotation")
    return what, S, u, o


def w_meta(mon, rng):
    T = base_truth(rng)
    for rep in range(3):
        nm = str(rng.choice([k for k in calls.CALLS if k not in SKIP])); draw, run, fl = calls.CALLS[nm]
        origin = str(rng.choice(["centre", "centre", "cluster", "galaxy"])); 
        if nm in CORE and not T.c.any(): origin = "centre"
        fr = origin
        if origin == "galaxy" and nm not in CURRENT: fr = "cluster" if "cframe" in fl else "centre"
        units = str(rng.choice(gen.UNITS)); p = draw(rng, T, fr); p["plot"] = False
        if nm == "sub_cluster": p["reset_centre"] = False
        if "G" in fl and units in ("galpy", "WDunits"): units = "pckms"
        ref = evaluate(mon, T, units, origin, nm, p)
        if ref is None: mon.ev("no answer"); continue
        if nm not in _reached: _reached.add(nm); mon.ev("functions reached")
        for k in range(2):
            what, S, u, o = transform(mon, rng, T, fr, units, origin, nm, p)
            if not what: continue
            if "jumpy" in fl and "G" in fl and u in ("galpy", "WDunits"): continue
            msg = "%s(%s): %s/%s against %s/%s (%s)" % (nm, {a: {x: y for x, y in b.items() if x != "ids"} if a == "sel" else b for a, b in p.items() if a not in ("ids", "bins")}, u, o, units, origin, "+".join(sorted(what))); mon.log(msg); mon.seen(nm, u, o, units, origin, sorted(what), sorted((a, str(b)[:10]) for a, b in p.items() if a not in ("ids", "sel", "bins")))
            got = evaluate(mon, S, u, o, nm, p)
            if got is None: mon.ev("no answer"); continue
            for w in what: mon.ev(w)
            mon.ev("projected cluster", T.projected); mon.ev("composed", len(what) > 1); mon.ev("compared")
            tol = 2e-3 if "G" in fl and u in ("galpy", "WDunits") else 1e-6
            mech = "%s:%s" % (nm, "+".join(sorted(what)))
            if not mon.ok(len(got) == len(ref), mech, msg): continue
            for (la, g, kd), (lb, w, _) in zip(got, ref):
                if w is None or g is None: mon.ok(w is None and g is None, mech, "%s %s: %r against %r" % (msg, la, g, w)); continue
                if "match" in fl and la != "dpath" or ("fit" in fl and la in ("value", "ck")): continue
                t = 1e-6 if la == "kin" else tol
                if "fit" in fl: t = max(t, 1e-4)
                if not mon.ok(np.shape(g) == np.shape(w), mech + ":" + la, "%s %s: shape %r against %r" % (msg, la, np.shape(g), np.shape(w))): continue
                if not np.size(w): continue
                sc = np.max(np.abs(w[np.isfinite(w)]), initial=0) if np.ndim(w) else abs(float(w))
                if kd == "vec": sc = np.max(np.abs(T.gc)) * 1e-6 + np.max(np.abs(T.pos)) if la == "pos" else np.max(np.abs(T.vgc)) * 1e-6 + np.max(np.abs(T.vel))
                if nm in ("sphere_coords", "cyl_coords", "to_tail") or "orb" in fl: sc = sc + 1.
                if la in ("slope", "eslope", "alpha", "ealpha", "eta", "eeta"): sc = max(sc, 1.)
                if nm == "beta_prof": sc = max(sc, 1.)
                mon.close(g, w, mech + ":" + la, t, t * sc + 1e-300, "%s %s" % (msg, la))
    mon.sample(dict(units=units, origin=origin, n=T.n, last=nm))


QF = 5
WORKLOADS = [("metamorphic", w_meta, 420, 9000)]
