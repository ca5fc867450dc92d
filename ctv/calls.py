"""Registry of result-returning calls: how to draw their arguments, make the call and label what comes back.

A call's arguments are drawn once, in physical units (pc, km/s, Msun, Myr) and with stars named by id, and expressed in
the units of whatever representation of the cluster they are passed to.  Results are lists of
(label, value, (L, V, M, T) exponents, kind) with kind 'star' (one per star), 'bin', or 'one'."""
import os, tempfile
import numpy as np
from . import gen, pots
import clustertools as ct

L1, V1, M1, T1, D0 = (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (0, 0, 0, 0)


def amuse_unit(d):
    import amuse.units.units as u
    out = 1
    for un, e in zip((u.parsec, u.kms, u.MSun, u.Myr), d):
        if e: out = out * un ** e
    return out


def number(a, dims=D0):
    """plain array; amuse quantities in pc, km/s, Msun, Myr"""
    un = amuse_unit(dims) if any(dims) and gen.HAVE_AMUSE else None
    one = lambda q: q.value_in(un) if hasattr(q, "value_in") and un is not None and un != 1 else (float(q.number) if hasattr(q, "number") else q)
    if hasattr(a, "value_in"): return np.asarray(one(a), float)
    b = np.asarray(a)
    if b.dtype == object: return np.array([float(one(k)) for k in b.ravel()]).reshape(b.shape)
    return b.astype(float)


def physical(a, dims, T, units):
    s = 1.0
    for k, e in zip(T.dims(units), dims): s *= k ** e
    return number(a, dims) * s


class Args(object):
    """arguments of one call in the units of one representation; remembers every array handed over"""
    def __init__(self, T, cl, units, p):
        self.T, self.cl, self.units, self.p, self.given = T, cl, units, p, []

    def q(self, x, dims):
        s = 1.0
        for k, e in zip(self.T.dims(self.units), dims): s *= k ** e
        v = x / s
        if self.units == "amuse" and any(dims): v = v | amuse_unit(dims)
        return v

    def arr(self, name, a):
        a = np.array(a); self.given.append((name, a, a.copy())); return a

    def tup(self, name, arrays):
        return tuple(self.arr(name, a) for a in arrays)

    def mask(self, ids):
        return self.arr("mask", np.isin(np.asarray(self.cl.id), list(ids)))

    def sel(self, method=False, bins=True):
        """selection keywords"""
        k = {}
        for nm, v in self.p.get("sel", {}).items():
            if nm == "ids": k["indx"] = self.mask(v)
            elif nm[0] in "rvm" and nm[1:] in ("min", "max"): k[nm] = self.q(v, {"r": L1, "v": V1, "m": M1}[nm[0]]); k[nm] = calls_plain(k[nm])
            else: k[nm] = v
        return k

    def unmodified(self, mon, mech, msg):
        for nm, a, b in self.given:
            mon.ok(a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f"), mech, "%s changed the caller's %s" % (msg, nm))


def calls_plain(v): return float(v.number) if hasattr(v, "number") else v


def between(rng, a):
    s = np.unique(a); k = len(s); i = int(rng.integers(0, max(1, k // 4))); j = int(rng.integers((3 * k) // 4, k)) if k > 3 else k - 1
    lo = s[0] * .9 if i == 0 else .5 * (s[i - 1] + s[i]); hi = s[-1] * 1.1 if j >= k - 1 else .5 * (s[j] + s[j + 1])
    return float(lo), float(hi)


def draw_sel(rng, T, proj, frame="centre", types=False):
    P, W = T.frame(frame); d = 2 if proj else 3
    val = dict(r=np.sqrt(np.sum(P[:, :d] ** 2, 1)), v=np.sqrt(np.sum(W[:, :d] ** 2, 1)), m=T.m); s = {}
    for nm in "rvm":
        if rng.random() < .2:
            lo, hi = between(rng, val[nm])
            if rng.random() < .7: s[nm + "min"] = lo
            if rng.random() < .7: s[nm + "max"] = hi
    if rng.random() < .25: s["ids"] = set(int(i) for i in T.ids[rng.random(T.n) < .9])
    if rng.random() < .3 or types: s["kwmin"], s["kwmax"] = 0, 15
    return s


# ---- the calls: name -> (draw(rng, T, frame) -> p, run(cl, a) -> results, flags) -------------------------------
CALLS = {}


def call(name, flags=""):
    def deco(pair):
        CALLS[name] = (pair[0], pair[1], set(flags.split())); return pair
    return deco


def fm(cl, p, name):
    """the method or the function"""
    if p.get("method"): return getattr(cl, name)
    return lambda *a, **k: getattr(ct, name)(cl, *a, **k)


def coin(rng, p=.4): return bool(rng.random() < p)


def d_energies(rng, T, fr):
    return dict(projected=coin(rng, .3), specific=coin(rng, .6), full=coin(rng, .7), parallel=coin(rng, .1), softening=float(rng.choice([0, .05])) * float(np.median(np.abs(T.pos))),
                ids=set(int(i) for i in T.ids[rng.random(T.n) < .4]) if coin(rng, .3) else None)


def r_energies(cl, a):
    p = a.p; k = dict(projected=p["projected"], specific=p["specific"], full=p["full"], parallel=p["parallel"])
    if p["softening"]: k["softening"] = calls_plain(a.q(p["softening"], L1))
    if p["ids"]: k["ids"] = a.arr("ids", [i for i in np.asarray(cl.id) if i in p["ids"]])
    kin, pot = ct.energies(cl, **k); d = (0, 2, 0, 0) if p["specific"] else (0, 2, 1, 0)
    kind = "some" if p["ids"] else "star"
    return [("kin", kin, d, kind), ("pot", pot, d, kind)]
call("energies", "G rot cframe")((d_energies, r_energies))


def d_proj(rng, T, fr): return dict(projected=coin(rng))
call("closest_star", "rot")((d_proj, lambda cl, a: [("d", ct.closest_star(cl, projected=a.p["projected"]), L1, "star")]))
call("closest_star_argument", "rot index")((d_proj, lambda cl, a: (lambda r: [("d", r[0], L1, "star"), ("arg", np.asarray(cl.id)[np.asarray(r[1])], D0, "star")])(ct.closest_star(cl, projected=a.p["projected"], argument=True))))

def d_lag(rng, T, fr): return dict(projected=coin(rng), n=int(rng.choice([3, 7, 10, 20])))
call("rlagrange", "rot")((d_lag, lambda cl, a: [("rn", ct.rlagrange(cl, nlagrange=a.p["n"], projected=a.p["projected"]), L1, "bin")]))
call("virial_radius", "rot")((lambda rng, T, fr: dict(projected=coin(rng), full=coin(rng)), lambda cl, a: [("rv", ct.virial_radius(cl, projected=a.p["projected"], full=a.p["full"]), L1, "one")]))

def d_crit(rng, T, fr):
    P = T.frame(fr)[0]; pr = coin(rng); r = np.sort(np.sqrt(np.sum(P[:, :2 if pr else 3] ** 2, 1)))
    crit = 3 * (70e-6) ** 2 / (8 * np.pi * gen.G); dens = T.m.sum() / (4 / 3. * np.pi * r[int(.7 * len(r))] ** 3)
    return dict(projected=pr, over=float(dens / crit), plot=coin(rng, .2))
call("virial_radius_critical", "G rot jumpy")((d_crit, lambda cl, a: [("rv", ct.virial_radius(cl, method="critical_density", overdens=a.p["over"], projected=a.p["projected"], plot=a.p["plot"]), L1, "one")]))

call("relaxation_time", "G rot")((lambda rng, T, fr: dict(projected=coin(rng), coulomb=float(rng.uniform(.2, .6)), rad=float(np.sort(np.sqrt(np.sum(T.frame(fr)[0] ** 2, 1)))[T.n // 2:T.n // 2 + 2].mean()) if coin(rng) else None),
    lambda cl, a: [("t", ct.relaxation_time(cl, projected=a.p["projected"], coulomb=a.p["coulomb"], **({} if a.p["rad"] is None else dict(rad=a.q(a.p["rad"], L1)))), T1, "one")]))
call("half_mass_relaxation_time", "G rot")((d_proj, lambda cl, a: [("t", ct.half_mass_relaxation_time(cl, projected=a.p["projected"]), T1, "one")]))
call("core_relaxation_time", "G rot")((d_proj, lambda cl, a: [("t", ct.core_relaxation_time(cl, projected=a.p["projected"]), T1, "one")]))
call("rcore", "rot jumpy0")((lambda rng, T, fr: dict(projected=coin(rng), k=int(rng.choice([4, 6, 9])), plot=coin(rng, .2)), lambda cl, a: [("rc", ct.rcore(cl, projected=a.p["projected"], nneighbour=a.p["k"], plot=a.p["plot"]), L1, "one")]))
call("rcore_isothermal", "rot jumpy")((lambda rng, T, fr: dict(projected=coin(rng), plot=coin(rng, .2)), lambda cl, a: [("rc", ct.rcore(cl, method="isothermal", mfrac=.2, projected=a.p["projected"], plot=a.p["plot"]), L1, "one")]))


def d_tidal(rng, T, fr):
    return dict(pot=str(rng.choice(pots.NAMES)), fc=coin(rng, .3), ids=set(int(i) for i in T.ids[rng.random(T.n) < .8]) if coin(rng, .3) else None, it=int(rng.choice([0, 0, 2])), plot=coin(rng, .15))
def r_tidal(cl, a):
    p = a.p; k = dict(pot=pots.POTS[p["pot"]], from_centre=p["fc"], rtiterate=p["it"], plot=p["plot"])
    if p["ids"]: k["indx"] = a.mask(p["ids"])
    return [("rt", ct.rtidal(cl, **k), L1, "one")]
call("rtidal", "jumpy")((d_tidal, r_tidal))
call("rlimiting", "jumpy")((lambda rng, T, fr: dict(pot=str(rng.choice(pots.NAMES)), fc=coin(rng, .3), projected=coin(rng), n=int(rng.choice([4, 8])), plot=coin(rng, .15)),
    lambda cl, a: [("rl", ct.rlimiting(cl, pot=pots.POTS[a.p["pot"]], from_centre=a.p["fc"], projected=a.p["projected"], nrad=a.p["n"], plot=a.p["plot"]), L1, "one")]))


# mass functions
def d_mf(rng, T, fr):
    pr = coin(rng)
    return dict(projected=pr, sel=draw_sel(rng, T, pr, fr, True), nmass=int(rng.choice([4, 6])), mcorr=coin(rng, .3), fix=False, plot=coin(rng, .15))
def mfk(cl, a, corr=True):
    k = a.sel(); k.update(projected=a.p["projected"], nmass=a.p["nmass"], plot=a.p["plot"])
    if corr and a.p["mcorr"]: k["mcorr"] = a.arr("mcorr", .5 + (np.asarray(cl.id) % 7) / 14.)
    return k
MF = ("m_mean", M1, "bin"), ("m_hist", D0, "bin"), ("dm", (0, 0, -1, 0), "bin"), ("alpha", D0, "one"), ("ealpha", D0, "one")
def lab(res, spec): return [(s[0], v, s[1], s[2]) for v, s in zip(res, spec)]
call("mass_function", "rot")((d_mf, lambda cl, a: lab(ct.mass_function(cl, **mfk(cl, a)), MF)))
call("tapered_mass_function", "rot fit")((d_mf, lambda cl, a: lab(ct.tapered_mass_function(cl, **dict(mfk(cl, a), nmass=8)), MF[:3])))
ETA = ("m_mean", M1, "bin"), ("sigvm", V1, "bin"), ("eta", D0, "one"), ("eeta", D0, "one")
call("eta_function", "rot")((d_mf, lambda cl, a: lab(ct.eta_function(cl, **mfk(cl, a, False)), ETA)))
call("meq_function", "rot fit")((d_mf, lambda cl, a: lab(ct.meq_function(cl, **mfk(cl, a, False)), ETA[:2])))
def r_ckin(cl, a):
    k = mfk(cl, a, False); k.pop("plot"); return [("ck", ct.ckin(cl, **k), D0, "one")]
call("ckin", "rot fit")((d_mf, r_ckin))


# profiles
def d_prof(rng, T, fr):
    pr = coin(rng); s = draw_sel(rng, T, pr, fr, True); n = int(rng.choice([3, 5])); P = T.frame(fr)[0]; r = np.sqrt(np.sum(P[:, :2 if pr else 3] ** 2, 1)); b = None
    if coin(rng, .25):
        q = np.quantile(r, np.linspace(0, 1, n + 1)); u = np.sort(r); q = np.array([.5 * (u[max(np.searchsorted(u, x) - 1, 0)] + u[min(np.searchsorted(u, x), len(u) - 1)]) for x in q]); q[0] = 0; q[-1] = u[-1] * 1.05
        b = (q[:-1], .5 * (q[:-1] + q[1:]), q[1:])
    return dict(projected=pr, sel=s, nrad=n, norm=coin(rng, .3), bins=b, coord=str(rng.choice(["r", "phi", "theta"] if not pr else ["r", "phi"])) if coin(rng) else None, nmass=4, mcorr=coin(rng, .3), plot=coin(rng, .15), cum=coin(rng, .3), fix=coin(rng, .2) and b is None)
def pk(cl, a, coord=False):
    p = a.p; k = a.sel(); k.update(projected=p["projected"], normalize=p["norm"], plot=p["plot"])
    if p["bins"] is not None:
        k["bins"] = a.tup("bins", [np.asarray(x) / a.T.dims(a.units)[0] for x in p["bins"]])      # plain pc for AMUSE clusters
    else:
        k["nrad"] = p["nrad"]
        if p["fix"]: k["bintype"] = "fix"
    if coord and p["coord"]: k["coord"] = p["coord"]
    return k
def rd(a): return D0 if a.p["norm"] else L1
def prof(fn, dims, flags, coord=False, extra=None, tail=()):
    def run(cl, a):
        k = pk(cl, a, coord)
        if extra: k.update(extra(cl, a))
        res = getattr(ct, fn)(cl, **k)
        out = [("r", res[0], rd(a), "bin"), ("value", res[1], dims(a) if callable(dims) else dims, "bin")]
        return out + [(t[0], v, t[1], t[2]) for v, t in zip(res[2:], tail)]
    call(fn, flags)((d_prof, run))
prof("rho_prof", lambda a: (-2, 0, 1, 0) if a.p["projected"] else (-3, 0, 1, 0), "rot fixcheck", tail=(("n", D0, "bin"),))
prof("m_prof", M1, "rot", extra=lambda cl, a: dict(cumulative=a.p["cum"]), tail=(("n", D0, "bin"),))
prof("sigv_prof", V1, "rotr", True)
prof("v_prof", V1, "rotr", True)
prof("v2_prof", (0, 2, 0, 0), "rotr", True)
prof("beta_prof", D0, "rot")
prof("vcirc_prof", V1, "G rot", tail=(("rvmax", L1, "one"), ("vmax", V1, "one")))
SL = ("slope", D0, "one"), ("eslope", D0, "one")
prof("alpha_prof", D0, "rot fewbins", extra=lambda cl, a: dict(nmass=a.p["nmass"], **(dict(mcorr=a.arr("mcorr", .5 + (np.asarray(cl.id) % 7) / 14.)) if a.p["mcorr"] else {})), tail=SL)
prof("eta_prof", D0, "rot fewbins", extra=lambda cl, a: dict(nmass=a.p["nmass"]), tail=SL)
prof("meq_prof", D0, "rot fewbins fit", extra=lambda cl, a: dict(nmass=a.p["nmass"]))


# centres: results in the current frame
def cen(fn, **fixed):
    return (lambda rng, T, fr: {}), lambda cl, a: (lambda r: [("pos", [number(x, L1) for x in r[:3]] if a.units == "amuse" else r[:3], L1, "vec"), ("vel", [number(x, V1) for x in r[3:]] if a.units == "amuse" else r[3:], V1, "vec")])(getattr(ct, fn)(cl, **fixed))
call("find_centre_of_mass", "noframe vec")(cen("find_centre_of_mass"))
call("find_centre_of_density_casertano", "noframe vec")(cen("find_centre_of_density", method="casertano"))


# orbits and tails
def d_orbit(rng, T, fr):
    return dict(pot=str(rng.choice(pots.NAMES)), fc=coin(rng, .3), t=float(rng.uniform(20, 120)), nt=int(rng.choice([60, 101])), sky=coin(rng, .2), full=coin(rng, .3), dmax=None, plot=coin(rng, .15), nb=int(rng.choice([7, 11])), ret=False)
def ok_(a): return dict(tfinal=None if a.p["t"] is None else a.q(a.p["t"], T1), nt=a.p["nt"], pot=pots.POTS[a.p["pot"]], from_centre=a.p["fc"])
PATH = ("t", T1, "bin"), ("x", L1, "bin"), ("y", L1, "bin"), ("z", L1, "bin"), ("vx", V1, "bin"), ("vy", V1, "bin"), ("vz", V1, "bin")
def skyspec(spec, a): return tuple((n, (d if n == "t" else D0), k) for n, d, k in spec) if a.p["sky"] else spec
call("initialize_orbit", "state orb")((d_orbit, lambda cl, a: (lambda o: [("o", [float(np.ravel(f())[0]) for f in (o.x, o.y, o.z, o.vx, o.vy, o.vz)], D0, "bin")])(ct.initialize_orbit(cl, from_centre=a.p["fc"]))))
call("interpolate_orbit", "orb")((d_orbit, lambda cl, a: lab(ct.interpolate_orbit(cl, **ok_(a)), [(n, d, "one") for n, d, k in PATH[1:]])))
call("orbital_path", "orb")((d_orbit, lambda cl, a: lab(ct.orbital_path(cl, skypath=a.p["sky"], **ok_(a)), skyspec(PATH, a))))
MATCH = ("t", T1, "star"), ("dprog", L1, "star"), ("dpath", L1, "star")
def sk_match(a): return tuple((n, d if n == "t" else (D0 if a.p["sky"] else d), k) for n, d, k in MATCH)
call("orbital_path_match", "orb match")((d_orbit, lambda cl, a: lab(ct.orbital_path_match(cl, skypath=a.p["sky"], do_full=a.p["full"], plot=a.p["plot"] and not a.p["sky"], **ok_(a)), sk_match(a))))
def tk(a):
    k = ok_(a); k["no"] = k.pop("nt"); k["nt"] = a.p["nb"]; k["ntail"] = 2; return k
call("tail_path", "orb tail")((d_orbit, lambda cl, a: lab(ct.tail_path(cl, skypath=a.p["sky"], plot=a.p["plot"] and not a.p["sky"], **tk(a)), skyspec(PATH, a))))
call("tail_path_match", "orb tail match")((d_orbit, lambda cl, a: lab(ct.tail_path_match(cl, skypath=a.p["sky"], **tk(a)), sk_match(a))))
call("to_tail", "vecstar")((lambda rng, T, fr: {}, lambda cl, a: [("x%d" % i, v, L1 if i < 3 else V1, "star") for i, v in enumerate(ct.to_tail(cl))]))


# coordinates
call("sphere_coords", "coords")((lambda rng, T, fr: {}, lambda cl, a: [("c%d" % i, v, d, "star") for i, (v, d) in enumerate(zip(ct.sphere_coords(cl), (L1, D0, D0, V1, V1, V1)))]))
call("cyl_coords", "coords")((lambda rng, T, fr: {}, lambda cl, a: [("c%d" % i, v, d, "star") for i, (v, d) in enumerate(zip(ct.cyl_coords(cl), (L1, D0, L1, V1, V1, V1)))]))
call("sky_coords", "galactic")((lambda rng, T, fr: {}, lambda cl, a: [("c%d" % i, v, D0, "star") for i, v in enumerate(ct.sky_coords(cl))]))


# selections, plots and files: nothing to compare but the state
def d_subset(rng, T, fr):
    pr = coin(rng); return dict(projected=pr, sel=draw_sel(rng, T, pr, fr, True), reset_centre=coin(rng, .2))
def kwsel(a): return dict(a.sel(), projected=a.p["projected"])
call("subset", "rot")((d_subset, lambda cl, a: [("mask", cl.subset(**kwsel(a)), D0, "star")]))
def r_sub(cl, a):
    s = ct.sub_cluster(cl, reset_centre=a.p["reset_centre"], **kwsel(a)); return [("ids", np.sort(np.asarray(s.id)), D0, "bin")] if s.ntot else [("ids", [], D0, "bin")]
call("sub_cluster", "state")((d_subset, r_sub))
def r_overlap(cl, a):
    return [("ids", np.asarray(ct.overlap_cluster(cl, cl, tol=a.q(1.0, L1), projected=a.p["projected"], return_cluster=False)), D0, "star")]
call("overlap_cluster", "rot")((d_proj, r_overlap))


class Scratch(object):
    def __enter__(self): self.d = tempfile.mkdtemp(prefix="ctv-"); return self.d + os.sep
    def __exit__(self, *a):
        for f in os.listdir(self.d): os.remove(os.path.join(self.d, f))
        os.rmdir(self.d)
def digest(f): return np.loadtxt(f, ndmin=2)
def r_snap(cl, a):
    with Scratch() as d:
        full = len(np.atleast_1d(cl.kw)) == cl.ntot
        ct.snapout(cl, d + "s.dat", radec=a.p["radec"] and full and a.units != "amuse"); return [("file", digest(d + "s.dat"), D0, "bin")]
call("snapout", "file noamuse")((lambda rng, T, fr: dict(radec=coin(rng, .3)), r_snap))
def r_fort(cl, a):
    with Scratch() as d:
        w = cl.wdir; cl.wdir = d
        try: ct.fortout(cl, filename="f10", sse=a.p["sse"] and len(np.atleast_1d(cl.ep)) == cl.ntot, sse_filename="f12")
        finally: cl.wdir = w
        return [("file", digest(d + "f10"), D0, "bin")]
call("fortout", "file noamuse nbody")((lambda rng, T, fr: dict(sse=coin(rng)), r_fort))
def r_gyr(cl, a):
    with Scratch() as d:
        k = {}
        if a.p["eps"]: k["eps"] = float(a.q(a.p["eps"], L1))
        ct.gyrout(cl, filename=d + "g.dat", **k); return [("file", digest(d + "g.dat"), D0, "bin")]
call("gyrout", "file noamuse")((lambda rng, T, fr: dict(eps=.01 if coin(rng) else 0), r_gyr))
def r_star(cl, a):
    with Scratch() as d:
        ct.starplot(cl, coords=a.p["coords"], filename=None if a.p["over"] else d + "p.png", do_centre=a.p["dc"], overplot=a.p["over"]); return [("n", len(os.listdir(d)), D0, "one")]
call("starplot", "file plot")((lambda rng, T, fr: dict(coords=str(rng.choice(["xyz", "xy", "xz", "yz"])), dc=coin(rng), over=coin(rng)), r_star))
def r_skyp(cl, a):
    with Scratch() as d:
        ct.skyplot(cl, coords=a.p["coords"], filename=d + "p.png", do_centre=a.p["dc"]); return [("n", len(os.listdir(d)), D0, "one")]
call("skyplot", "file plot noamuse")((lambda rng, T, fr: dict(coords=str(rng.choice(["radec", "pm"])), dc=coin(rng)), r_skyp))
