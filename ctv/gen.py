"""Independent reference state for a star cluster (pc, km/s, Msun, Myr) and builders that express it
in any clustertools unit system and origin.  Nothing here uses clustertools' own conversions."""
import numpy as np
from galpy.util import conversion

KMS_PCMYR = 1.022712165045695      # documented: 1 km/s = 1.022712165045695 pc/Myr
WD_MASS = 222288.4543021174        # documented WDunits mass unit in Msun
UNITS = ["pckms", "kpckms", "pcmyr", "kpcgyr", "nbody", "galpy", "WDunits"]
ORIGINS = ["centre", "cluster", "galaxy"]
G = 4.302e-3                       # pc (km/s)^2 / Msun, the constant clustertools documents
STAR = ["x", "y", "z", "vx", "vy", "vz"]
C0 = ["xc", "yc", "zc", "vxc", "vyc", "vzc"]
GC = ["xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc"]

try:
    import amuse.units.units as u
    HAVE_AMUSE = True
except Exception:
    HAVE_AMUSE = False


def val(q, kind=None):
    """Plain float value of a possibly AMUSE quantity, in pc, km/s, Msun, Myr."""
    if HAVE_AMUSE and hasattr(q, "value_in"):
        un = {"L": u.parsec, "V": u.kms, "M": u.MSun, "T": u.Myr}[kind]
        return np.asarray(q.value_in(un), dtype=float)
    return np.asarray(q, dtype=float)


class Truth(object):
    def __init__(self, m, pos, vel, c=None, vc=None, gc=None, vgc=None, tphys=0.0, scale=None, ro=8.275, vo=239.23725, zo=0.0208,
                 sm=(-11.1, 12.24, 7.25), ids=None):
        self.m = np.array(m, float); self.pos = np.array(pos, float); self.vel = np.array(vel, float)   # relative to the *cluster* origin
        self.c = np.zeros(3) if c is None else np.array(c, float)
        self.vc = np.zeros(3) if vc is None else np.array(vc, float)
        self.gc = np.zeros(3) if gc is None else np.array(gc, float)
        self.vgc = np.zeros(3) if vgc is None else np.array(vgc, float)
        self.tphys = float(tphys)
        self.scale = scale            # (zmbar, rbar, vbar, tbar)
        self.ro, self.vo, self.zo, self.sm = ro, vo, zo, list(sm)
        self.n = len(self.m)
        self.ids = np.arange(1, self.n + 1) if ids is None else np.array(ids)

    def dims(self, units):
        """(length pc, velocity km/s, mass Msun, time Myr) of one unit of each."""
        if units in ("pckms", "amuse"):
            return 1.0, 1.0, 1.0, 1.0
        if units == "kpckms":
            return 1000.0, 1.0, 1.0, 1000.0
        if units == "pcmyr":
            return 1.0, 1.0 / KMS_PCMYR, 1.0, 1.0
        if units == "kpcgyr":
            return 1000.0, 1.0 / KMS_PCMYR, 1.0, 1000.0
        if units == "nbody":
            zm, rb, vb, tb = self.scale or (1.0, 1.0, 1.0, 1.0)
            return rb, vb, zm, tb
        if units == "galpy":
            return (1000.0 * self.ro, self.vo, conversion.mass_in_msol(vo=self.vo, ro=self.ro),
                    1000.0 * conversion.time_in_Gyr(vo=self.vo, ro=self.ro))
        if units == "WDunits":
            return 1000.0, self.vo / conversion.velocity_in_kpcGyr(vo=self.vo, ro=self.ro), WD_MASS, 1000.0
        raise ValueError(units)

    def frame(self, origin):
        """star positions/velocities (pc, km/s) with respect to origin"""
        if origin == "cluster":
            return self.pos.copy(), self.vel.copy()
        if origin == "centre":
            return self.pos - self.c, self.vel - self.vc
        if origin == "galaxy":
            return self.pos + self.gc, self.vel + self.vgc
        raise ValueError(origin)

    def add(self, m, pos, vel, ids):
        """more stars, given relative to the cluster origin in pc, km/s, Msun"""
        self.m = np.r_[self.m, m]; self.pos = np.r_[self.pos, pos]; self.vel = np.r_[self.vel, vel]
        self.ids = np.r_[self.ids, ids]; self.n = len(self.m)

    def expect(self, units, origin):
        L, V, M, T = self.dims(units)
        p, v = self.frame(origin)
        return dict(m=self.m / M, pos=p / L, vel=v / V, c=self.c / L, vc=self.vc / V, gc=self.gc / L,
                    vgc=self.vgc / V, tphys=self.tphys / T)

    def build(self, units, origin, analyze=True, sort=None, **kw):
        import clustertools as ct
        e = self.expect(units, origin)
        cl = ct.StarCluster(e["tphys"], units=units, origin=origin, ro=self.ro, vo=self.vo, zo=self.zo,
                            solarmotion=self.sm, **kw)
        if self.scale is not None:
            zm, rb, vb, tb = self.scale
            cl.add_nbody6(rbar=rb, zmbar=zm, vbar=vb, tbar=tb)
            cl.xcn = cl.ycn = cl.zcn = None
        cl.xc, cl.yc, cl.zc = (float(k) for k in e["c"])
        cl.vxc, cl.vyc, cl.vzc = (float(k) for k in e["vc"])
        cl.add_orbit(*(float(k) for k in np.concatenate([e["gc"], e["vgc"]])))
        P, W = e["pos"], e["vel"]
        cl.add_stars(P[:, 0].copy(), P[:, 1].copy(), P[:, 2].copy(), W[:, 0].copy(), W[:, 1].copy(), W[:, 2].copy(),
                     m=e["m"].copy(), id=self.ids.copy(), sortstars=analyze if sort is None else sort, analyze=analyze)
        return cl

    def compare(self, mon, cl, units, origin, mech, rtol=1e-9, msg="", slack=1.0):
        """The cluster's public state is exactly this truth expressed in (units, origin)."""
        e = self.expect(units, origin)
        ok = mon.ok(cl.units == units, mech + ":units", "%s units=%r expected %r" % (msg, cl.units, units))
        ok &= mon.ok(cl.origin == origin, mech + ":origin", "%s origin=%r expected %r" % (msg, cl.origin, origin))
        ok &= mon.ok(len(cl.x) == self.n, mech + ":count", "%s %d stars expected %d" % (msg, len(cl.x), self.n))
        if not ok:
            return False
        L, V, M, T = self.dims(units)
        ap = 1e-12 * (np.max(np.abs(self.pos)) + np.max(np.abs(self.c)) + np.max(np.abs(self.gc)) + 1e-30) / L
        av = 1e-12 * (np.max(np.abs(self.vel)) + np.max(np.abs(self.vc)) + np.max(np.abs(self.vgc)) + 1e-30) / V
        ap *= 20 * slack; av *= 20 * slack
        for k, a in enumerate("xyz"):
            ok &= mon.close(val(getattr(cl, a), "L"), e["pos"][:, k], mech + ":pos", rtol, ap, msg + " " + a)
            ok &= mon.close(val(getattr(cl, "v" + a), "V"), e["vel"][:, k], mech + ":vel", rtol, av, msg + " v" + a)
            ok &= mon.close(val(getattr(cl, a + "c"), "L"), e["c"][k], mech + ":centre", rtol, ap, msg + " " + a + "c")
            ok &= mon.close(val(getattr(cl, "v" + a + "c"), "V"), e["vc"][k], mech + ":centre", rtol, av, msg + " v" + a + "c")
            ok &= mon.close(val(getattr(cl, a + "gc"), "L"), e["gc"][k], mech + ":orbit", rtol, ap, msg + " " + a + "gc")
            ok &= mon.close(val(getattr(cl, "v" + a + "gc"), "V"), e["vgc"][k], mech + ":orbit", rtol, av, msg + " v" + a + "gc")
        ok &= mon.close(val(cl.m, "M"), e["m"], mech + ":mass", rtol, 0, msg + " m")
        ok &= mon.close(val(cl.tphys, "T"), e["tphys"], mech + ":time", rtol, 0, msg + " tphys")
        ok &= mon.ok(np.array_equal(np.asarray(cl.id), self.ids), mech + ":id", msg + " ids changed")
        return ok


def other_sun(rng, T, kw, p=.3):
    """adds another solar position and motion to kw, for functions that accept one; the truth to be used for its natural units and sky"""
    import copy
    S = copy.copy(T)
    if rng.random() < p:
        for k, v in dict(ro=float(rng.uniform(7.6, 8.6)), vo=float(rng.uniform(200, 250)), zo=float(rng.uniform(0, .03)), solarmotion=[float(rng.uniform(-14, -8)), float(rng.uniform(5, 25)), float(rng.uniform(4, 9))]).items():
            if rng.random() < .6: kw[k] = v; setattr(S, "sm" if k == "solarmotion" else k, v)
    return S


def truth(rng, n=None, kind=None, offset=True, orbit=True, scale=True, solar=True, nmax=60):
    """A random cluster; degenerate and hostile shapes included."""
    if n is None:
        n = int(rng.choice([1, 2, 3, 5, 17, int(rng.integers(4, nmax))], p=[.05, .05, .1, .15, .15, .5]))
    kind = kind or str(rng.choice(["plummer", "gauss", "flat", "clumpy", "wide"]))
    rs = 10 ** rng.uniform(-1, 1.3)
    if kind == "plummer":
        r = rs / np.sqrt(np.maximum(rng.uniform(0.001, 0.999, n) ** (-2.0 / 3.0) - 1.0, 1e-12))
        mu = rng.uniform(-1, 1, n); ph = rng.uniform(0, 2 * np.pi, n); s = np.sqrt(1 - mu ** 2)
        pos = np.c_[r * s * np.cos(ph), r * s * np.sin(ph), r * mu]
    elif kind == "flat":
        pos = rng.normal(0, rs, (n, 3)) * [1, 1, 1e-3]
    elif kind == "clumpy":
        cen = rng.normal(0, rs * 5, (3, 3))
        pos = cen[rng.integers(0, 3, n)] + rng.normal(0, rs, (n, 3))
    elif kind == "wide":
        pos = rng.normal(0, 1, (n, 3)); pos *= (10 ** rng.uniform(-3, 3, n))[:, None]
    else:
        pos = rng.normal(0, rs, (n, 3))
    vel = rng.normal(0, 10 ** rng.uniform(-1, 1.5), (n, 3))
    m = rng.choice([np.ones(n), rng.uniform(0.1, 2.0, n), 10 ** rng.uniform(-2, 2, n)])
    c = vc = gc = vgc = None
    if offset:
        c = rng.normal(0, rs, 3); vc = rng.normal(0, 3, 3)
    if orbit:
        R = 10 ** rng.uniform(3, 4.6); mu = rng.uniform(-0.9, 0.9); ph = rng.uniform(0, 2 * np.pi)
        gc = R * np.array([np.sqrt(1 - mu ** 2) * np.cos(ph), np.sqrt(1 - mu ** 2) * np.sin(ph), mu])
        vgc = rng.normal(0, 120, 3)
    # displacements along some axes only, a cluster on a coordinate plane, no time elapsed
    for a in (c, vc, gc, vgc):
        if a is not None and rng.random() < .12:
            a[rng.permutation(3)[:1 if a is gc else int(rng.integers(1, 3))]] = 0.
    sc = None
    if scale:
        zm = float(10 ** rng.uniform(2, 6)); rb = float(10 ** rng.uniform(-0.5, 1.5)); vb = 0.06557 * np.sqrt(zm / rb)
        sc = (zm, rb, float(vb), float(rb / (1.023 * vb)))
    kw = {}
    if solar and rng.random() < 0.6:
        kw = dict(ro=float(rng.uniform(7.5, 8.6)), vo=float(rng.uniform(200, 250)), zo=float(rng.uniform(0, 0.03)),
                  sm=[float(a) for a in (rng.uniform(-14, -8), rng.uniform(5, 25), rng.uniform(4, 9))])
    ids = rng.permutation(np.arange(1000, 1000 + 3 * n))[:n]
    return Truth(m, pos, vel, c, vc, gc, vgc, tphys=float(rng.uniform(0, 13000)) * bool(rng.random() > .06), scale=sc, ids=ids, **kw)
