"""Writers for NBODY6, NBODY6++ (conf.3/bev.82/sev.83) and NBODY6++ hdf5 output, independent of the readers.

A Snap holds what the simulation state is; the writers lay it out as the simulation codes do."""
import os, struct
import numpy as np

f4 = lambda a: np.asarray(a, np.float32).astype(float)
RSUN_PER_PC = 1296000.0 / (2 * np.pi) * 1.495978707e13 / 6.957e10


class Snap(object):
    """ns singles and nb binaries with N-body scalings; components of binaries are kept as stars."""
    def __init__(self, rng, ns, nb, t, scale, nan=True):
        self.ns, self.nb, self.t = ns, nb, float(np.float32(t)); zm, rb, vb, tb = scale
        self.alist = np.zeros(20)
        self.alist[[0, 1, 2, 3, 4, 10, 11, 12, 13, 17]] = [t, nb, rb, zm, rng.uniform(5, 50), tb, vb, rng.uniform(.1, 1), rng.integers(1, 50), rng.uniform(.5, 2)]
        self.alist[6:9] = rng.normal(0, .1, 3); self.alist = f4(self.alist); self.zmbar, self.rbar, self.vbar, self.tbar = self.alist[[3, 2, 11, 10]]
        self.m = f4(rng.uniform(.1, 3, ns) / max(ns + nb, 1)); self.x = f4(rng.normal(0, 1, (ns, 3))); self.v = f4(rng.normal(0, .5, (ns, 3)))
        ids = rng.permutation(ns + 2 * nb) + 1
        self.id = ids[2 * nb:]; self.id1 = ids[0:2 * nb:2]; self.id2 = ids[1:2 * nb:2]
        self.pot = f4(-rng.uniform(.1, 3, ns)); self.rho = f4(rng.uniform(0, 9, ns)); self.kw = rng.integers(0, 15, ns); self.logl = np.round(rng.normal(0, 1.5, ns), 3); self.logr = np.round(rng.normal(0, .7, ns), 3)
        # binaries
        self.m1 = f4(rng.uniform(.1, 3, nb) / max(ns + nb, 1)); self.m2 = f4(self.m1 * rng.uniform(.1, 1, nb)); c = rng.normal(0, 1, (nb, 3)); d = rng.normal(0, 1e-3, (nb, 3)); cv = rng.normal(0, .5, (nb, 3)); dv = rng.normal(0, .3, (nb, 3))
        self.x1, self.x2, self.v1, self.v2 = f4(c + d), f4(c - d), f4(cv + dv), f4(cv - dv)
        mt = (self.m1 + self.m2)[:, None]; self.mb = self.m1 + self.m2; m1, m2 = self.m1[:, None], self.m2[:, None]
        self.xb, self.vb_ = (m1 * self.x1 + m2 * self.x2) / mt if nb else np.zeros((0, 3)), (m1 * self.v1 + m2 * self.v2) / mt if nb else np.zeros((0, 3))
        self.kw1, self.kw2, self.kcm = rng.integers(0, 15, nb), rng.integers(0, 15, nb), rng.integers(-5, 15, nb)
        self.ecc = np.round(rng.random(nb), 4); self.logp = np.round(rng.uniform(-1, 8, nb), 4); self.loga = np.round(rng.uniform(0, 6, nb), 4)
        self.m1s, self.m2s = np.round(self.m1 * self.zmbar, 5), np.round(self.m2 * self.zmbar, 5)
        self.logl1, self.logl2, self.logr1, self.logr2 = [np.round(rng.normal(0, 1, nb), 3) for k in range(4)]; self.te = np.round(rng.uniform(3, 5, (2, nb)), 3)
        self.pot1, self.pot2 = f4(-rng.uniform(.1, 3, nb)), f4(-rng.uniform(.1, 3, nb)); self.rho1, self.rho2 = f4(rng.uniform(0, 9, nb)), f4(rng.uniform(0, 9, nb))
        self.nan = (rng.random(ns) < .05) & nan; self.nanb = (rng.random(nb) < .1) & nan
        self.gc = f4(np.r_[rng.normal(0, 8000, 3) / self.rbar, rng.normal(0, 100, 3) / self.vbar])

    @property
    def lum(self):
        """total luminosity of what is written (stars without a luminosity are written as NaN and count as log L = 0)"""
        return np.sum(10.0 ** np.where(self.nan, 0, self.logl)) + np.sum(np.where(self.nanb, 2., 10.0 ** self.logl1 + 10.0 ** self.logl2))


def record(f, *parts):
    b = b"".join(parts); f.write(struct.pack("i", len(b)) + b + struct.pack("i", len(b)))

F = lambda a: np.asarray(a, "<f4").tobytes()
I = lambda a: np.asarray(a, "<i4").tobytes()


def nbody6(d, snaps, se=True, bfile=True, rng=None):
    """OUT3 (singles), OUT33 (binaries), fort.82, fort.83 for a whole run"""
    with open(os.path.join(d, "OUT3"), "wb") as f:
        for k, s in enumerate(snaps):
            record(f, I([s.ns, 1, k, 20])); record(f, F(s.alist), F(s.m), F(s.x), F(s.v), I(s.id))
    if bfile:
        with open(os.path.join(d, "OUT33"), "wb") as f:
            for k, s in enumerate(snaps):
                record(f, I([s.nb, 1, 20]))
                if s.nb: record(f, F(np.r_[s.gc, np.zeros(14)]), F(s.mb), F(s.xb), F(s.vb_), I(s.id1))
    if se:
        with open(os.path.join(d, "fort.82"), "w") as f, open(os.path.join(d, "fort.83"), "w") as g:
            for s in snaps:
                f.write("## BEGIN %8d %9.3f\n" % (s.nb, s.t)); g.write("## BEGIN %8d %9.3f\n" % (s.ns, s.t))
                for i in range(s.nb):
                    tail = " NaN" * 6 if s.nanb[i] else " %.3f %.3f %.3f %.3f %.3f %.3f" % (s.logl1[i], s.logl2[i], s.logr1[i], s.logr2[i], s.te[0, i], s.te[1, i])
                    f.write("%d %d %d %d %d %.3f %.4f %.4f %.4f %.5f %.5f%s\n" % (s.id1[i], s.id2[i], s.kw1[i], s.kw2[i], s.kcm[i], 1.0, s.ecc[i], s.logp[i], s.loga[i], s.m1s[i], s.m2s[i], tail))
                for i in range(s.ns):
                    g.write("%d %d %.3f %.5f%s\n" % (s.id[i], s.kw[i], 1.0, s.m[i] * s.zmbar, " NaN NaN NaN" if s.nan[i] else " %.3f %.3f %.3f" % (s.logl[i], s.logr[i], 4.0)))
                f.write("## END\n"); g.write("## END\n")


def interleave(a, b, r):
    """rows: components of every binary one after the other, then the singles"""
    n = len(a); o = np.zeros((2 * n,) + np.shape(a)[1:]); o[0::2] = a; o[1::2] = b
    return np.concatenate([o, r])


def conf3(d, s, label):
    n = 2 * s.nb + s.ns
    m = interleave(s.m1, s.m2, s.m)
    with open(os.path.join(d, "conf.3_%s" % label), "wb") as f:
        record(f, I([n, 1, 1, 20]))
        if n: record(f, F(s.alist), F(m), F(interleave(s.rho1, s.rho2, s.rho)), F(np.zeros(n)), F(interleave(s.x1, s.x2, s.x)), F(interleave(s.v1, s.v2, s.v)), F(interleave(s.pot1, s.pot2, s.pot)), I(interleave(s.id1, s.id2, s.id)))


def ev(d, s, label, rng, short=False):
    """bev.82 / sev.83; the singles may be listed in any order"""
    with open(os.path.join(d, "bev.82_%s" % label), "w") as f:
        f.write("%8d %12.5f\n" % (s.nb, s.t))
        for i in range(s.nb):
            row = "%.4f %d %d %d %d %d %d %d %.4f %.4f %.4f %.4f %.5f %.5f" % (s.t, 2 * i + 1, 2 * i + 2, s.id1[i], s.id2[i], s.kw1[i], s.kw2[i], s.kcm[i], 1., s.ecc[i], s.logp[i], s.loga[i], s.m1s[i], s.m2s[i])
            if not short: row += " %.3f %.3f %.3f %.3f %.3f %.3f" % (s.logl1[i], s.logl2[i], s.logr1[i], s.logr2[i], s.te[0, i], s.te[1, i])
            f.write(row + "\n")
    with open(os.path.join(d, "sev.83_%s" % label), "w") as f:
        f.write("%8d %12.5f\n" % (s.ns, s.t))
        for i in rng.permutation(s.ns): f.write("%.4f %d %d %d %.4f %.5f %.3f %.3f %.3f\n" % (s.t, 2 * s.nb + i + 1, s.id[i], s.kw[i], 1., s.m[i] * s.zmbar, s.logl[i], s.logr[i], 4.0))


def hdf5(d, snaps, label):
    """one h5part file with a group per snapshot; everything but the time in physical units (pc, km/s, Msun, AU, days)"""
    import h5py
    with h5py.File(os.path.join(d, "snap.40_%s.h5part" % label), "w") as h:
        for k, s in enumerate(snaps):
            g = h.create_group("Step#%d" % k); g.attrs["N_SINGLE"] = s.ns; g.attrs["Time"] = s.t; rb, vb, zm = s.rbar, s.vbar, s.zmbar
            def put(g, **kw):
                for a, b in kw.items(): g.create_dataset(a, data=np.asarray(b))
            put(g, NAM=s.id, M=s.m * zm, KW=s.kw, L=10.0 ** s.logl, RC=np.zeros(s.ns), RS=10.0 ** s.logr, TE=np.full(s.ns, 4.0), POT=s.pot, **{c + str(i + 1): q[:, i] * u for c, q, u in (("X", s.x, rb), ("V", s.v, vb)) for i in range(3)})
            if s.nb:
                b = g.create_group("Binaries"); dx, dv = (s.x1 - s.x2) * rb, (s.v1 - s.v2) * vb
                put(b, A=10.0 ** s.loga, ECC=s.ecc, G=np.zeros(s.nb), KW1=s.kw1, KW2=s.kw2, KWC=s.kcm, L1=10.0 ** s.logl1, L2=10.0 ** s.logl2, M1=s.m1 * zm, M2=s.m2 * zm, MC1=np.zeros(s.nb), MC2=np.zeros(s.nb), NAM1=s.id1, NAM2=s.id2, NAMC=s.id1 + 100000,
                    P=10.0 ** s.logp, POT=s.pot1, RC1=np.zeros(s.nb), RC2=np.zeros(s.nb), RS1=10.0 ** s.logr1, RS2=10.0 ** s.logr2, TE1=s.te[0], TE2=s.te[1],
                    **{c + str(i + 1): q[:, i] * u for c, q, u in (("XC", s.xb, rb), ("VC", s.vb_, vb), ("XR", s.x1 - s.x2, rb), ("VR", s.v1 - s.v2, vb)) for i in range(3)})


def sim(rng, nsnap, nmax=25, singles=1, nan=True, t0=None, dt=None):
    """a run: the scale stays, numbers of stars and binaries vary"""
    zm, rb = 10 ** rng.uniform(1, 5), 10 ** rng.uniform(-.5, 1.5); vb = np.sqrt(4.302e-3 * zm / rb); tb = rb / vb / 1.022712165045695
    if rng.random() < .5: vb, tb = 10 ** rng.uniform(-1, 1.5), 10 ** rng.uniform(-2, 1)   # a header may hold any scaling
    t0 = rng.uniform(0, 50) if t0 is None else t0; dt = rng.uniform(.1, 5) if dt is None else dt
    out = []
    for k in range(nsnap):
        nb = int(rng.choice([0, 0, 1, rng.integers(2, 9)])); ns = int(rng.integers(max(singles, 0 if nb else 3), nmax))
        out.append(Snap(rng, ns, nb, t0 + k * dt, (zm, rb, vb, tb), nan))
    return out
