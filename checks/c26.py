"""C26: binary orbital elements along random conversion histories against an SI shadow state."""
import numpy as np
from ctv import gen, derived
import clustertools as ct

RULE = ("Random binary populations (0-20 binaries, 12 orders of magnitude in semi-major axis) added in N-body units or AU/days or solar radii/days, then random histories of "
        "to_sudays/to_audays/to_nbody (function or method) interleaved with star unit/origin conversions, more binaries, sub-clusters and reset_nbody_scale; distinct by history.")
REQUIRE = {"histories": 100, "conversions": 400, "to_sudays": 100, "to_audays": 100, "to_nbody": 60, "kepler": 300, "roundtrip": 40, "rescaled": 15, "added later": 15}
ASSUMPTIONS = ["the N-body period unit is 2 pi N-body time units (the convention of the tbar_days scale factor)", "1 AU = 1.495978707e13 cm, 1 Rsun = 6.957e10 cm"]
AU = 1.495978707e13; RSUN = 6.957e10; PC_AU = 206264.80624709636


class Bin(object):
    """shadow: semi in AU, pb in days, masses in Msun"""
    def __init__(self):
        self.a = np.zeros(0); self.p = np.zeros(0); self.m1 = np.zeros(0); self.m2 = np.zeros(0)

    def new(self, rng, k):
        a = 10 ** rng.uniform(-3, 9, k); m1 = 10 ** rng.uniform(-1, 2, k); m2 = m1 * rng.uniform(.05, 1, k)
        p = 365.25 * np.sqrt(a ** 3 / (m1 + m2))
        self.a = np.r_[self.a, a]; self.p = np.r_[self.p, p]; self.m1 = np.r_[self.m1, m1]; self.m2 = np.r_[self.m2, m2]
        return a, p, m1, m2


def scale(sc, bunits):
    """unit of semi in AU, pb in days, mass in Msun"""
    if bunits == "audays": return 1.0, 1.0, 1.0
    if bunits == "sudays": return RSUN / AU, 1.0, 1.0
    zm, rb = sc
    return rb * PC_AU, 365.25 * (rb * PC_AU) ** 1.5 / np.sqrt(zm), zm


def compare(mon, cl, B, bunits, sc, mech, msg):
    mon.ok(cl.bunits == bunits, mech + ":bunits", "%s: bunits=%r expected %r" % (msg, cl.bunits, bunits))
    A, P, M = scale(sc, bunits)
    for at, w, nm in (("semi", B.a / A, "semi"), ("pb", B.p / P, "period"), ("m1", B.m1 / M, "mass"), ("m2", B.m2 / M, "mass")):
        mon.close(getattr(cl, at), w, "%s:%s" % (mech, nm), 1e-6, 0, "%s %s in %s" % (msg, at, bunits))
    if len(B.a) and bunits != "nbody":
        k = np.asarray(cl.pb) / 365.25; a = np.asarray(cl.semi) * A
        mon.close(k ** 2 * (np.asarray(cl.m1) + np.asarray(cl.m2)), a ** 3, mech + ":kepler", 1e-6, 0, msg + " P^2 M = a^3"); mon.ev("kepler", len(B.a))
    elif len(B.a):
        mon.close(np.asarray(cl.pb) ** 2 * (np.asarray(cl.m1) + np.asarray(cl.m2)), np.asarray(cl.semi) ** 3, mech + ":kepler", 1e-6, 0, msg + " P^2 M = a^3"); mon.ev("kepler", len(B.a))


def add(cl, rng, B, bunits, sc, k, first):
    a, p, m1, m2 = B.new(rng, k); A, P, M = scale(sc, bunits)
    i1 = 2 * np.arange(first, first + k) + 1
    cl.add_bse(i1, i1 + 1, rng.integers(0, 10, k), rng.integers(0, 10, k), rng.integers(0, 10, k), rng.random(k), p / P, a / A, m1 / M, m2 / M,
               rng.random(k), rng.random(k), rng.random(k), rng.random(k))


def w_history(mon, rng):
    T = gen.truth(rng, n=int(rng.integers(25, 45)), kind="plummer", solar=False)
    # the scale factors the cluster is given
    units = str(rng.choice(["nbody", "pckms", "kpckms", "nbody"])); origin = str(rng.choice(gen.ORIGINS))
    cl = T.build(units, origin); sc = T.scale[:2]
    B = Bin(); bunits = str(rng.choice(["nbody", "nbody", "audays", "sudays"]))
    cl.bunits = bunits
    k = int(rng.choice([0, 1, 3, 12])); nadd = k
    add(cl, rng, B, bunits, sc, k, 0)
    first = {b: None for b in ("nbody", "audays", "sudays")}
    hist = [units, bunits, k]
    compare(mon, cl, B, bunits, sc, "added", "after add_bse")
    for step in range(int(rng.integers(3, 9))):
        op = str(rng.choice(["to_sudays", "to_audays", "to_nbody", "units", "origin", "add", "rescale"], p=[.23, .23, .2, .12, .09, .07, .06]))
        before = (np.array(cl.semi), np.array(cl.pb), np.array(cl.m1), np.array(cl.m2), cl.bunits)
        if op == "to_sudays" or op == "to_audays":
            (getattr(cl, op)() if rng.random() < .6 else getattr(ct, op)(cl)); bunits = op[3:]
        elif op == "to_nbody":
            cl.to_nbody() if rng.random() < .6 else ct.to_nbody(cl)
            if nadd > 0: bunits = "nbody"
            else: bunits = cl.bunits      # nothing to convert
            mon.ok(cl.units == "nbody", "to_nbody:units", "units %r" % cl.units)
        elif op == "units":
            un = str(rng.choice(["pckms", "kpckms", "pcmyr", "galpy"])); cl.to_units(un); op += ":" + un
        elif op == "origin":
            og = str(rng.choice(gen.ORIGINS)); cl.to_origin(og); op += ":" + og
        elif op == "add":
            add(cl, rng, B, cl.bunits, sc, 2, nadd); nadd += 2; mon.ev("added later")
        elif op == "rescale":
            cl.reset_nbody_scale(rvirial=bool(rng.random() < .5)); sc = (cl.zmbar, cl.rbar); mon.ev("rescaled")
            if cl.units == "nbody" and cl.bunits == "nbody": bunits = "nbody"      # to_nbody also converts binaries
        if nadd == 0: bunits = cl.bunits
        mon.log(op); hist.append(op); mon.ev(op.split(":")[0]); mon.ev("conversions", op.startswith("to_"))
        compare(mon, cl, B, bunits, sc, op.split(":")[0], "after " + op + " in " + str(hist))
        if op == "to_" + str(before[4]) and op != "to_nbody":
            for a, b in zip(before, (cl.semi, cl.pb, cl.m1, cl.m2)): mon.ok(np.array_equal(a, b), "noop", "converting to the current binary units changed values")
    # round trip
    b0 = cl.bunits; s0 = [np.array(v) for v in (cl.semi, cl.pb, cl.m1, cl.m2)]
    if nadd:
        for op in rng.permutation(["to_sudays", "to_audays", "to_nbody", "to_audays", "to_sudays"]): getattr(cl, str(op))()
        getattr(cl, "to_" + b0)()
        for nm, a, b in zip(("semi", "pb", "m1", "m2"), s0, (cl.semi, cl.pb, cl.m1, cl.m2)): mon.close(b, a, "roundtrip:" + nm, 1e-11, 0, nm)
        mon.ev("roundtrip")
    mon.ok(len(cl.ecc) == nadd and cl.nb == nadd, "rows", "binaries %d, ecc %d, nb %r" % (nadd, len(cl.ecc), cl.nb))
    mon.ev("histories"); mon.seen(*hist)
    mon.sample(dict(history=[str(h) for h in hist], binaries=nadd))


def w_subcluster(mon, rng):
    """components of a sub-cluster convert with the parent's scale"""
    n = 30; k = int(rng.integers(1, 8))
    T = gen.truth(rng, n=n, kind="plummer", solar=False); T.ids = np.r_[2 * np.arange(k) + 1, np.arange(2 * k + 1, 2 * k + 1 + n - k)]
    cl = T.build("nbody", "centre"); B = Bin(); cl.bunits = "nbody"
    add(cl, rng, B, "nbody", T.scale[:2], k, 0)
    if rng.random() < .5: cl.to_audays()
    mask = rng.random(n) < .7; mask[0] = True
    sub = ct.sub_cluster(cl, indx=mask)
    keep = mask[:k]
    S = Bin(); S.a, S.p, S.m1, S.m2 = B.a[keep], B.p[keep], B.m1[keep], B.m2[keep]
    compare(mon, sub, S, cl.bunits, T.scale[:2], "sub", "sub_cluster")
    for op in ("to_sudays", "to_audays", "to_nbody"):
        getattr(sub, op)(); compare(mon, sub, S, op[3:], T.scale[:2], "sub:" + op, "sub_cluster " + op); mon.ev(op); mon.ev("conversions")
    compare(mon, cl, B, cl.bunits, T.scale[:2], "sub:parent", "parent")
    mon.ev("subcluster"); mon.seen("sub", k, mask.tobytes())


WORKLOADS = [("history", w_history, 220, 6000), ("sub", w_subcluster, 30, 800)]
