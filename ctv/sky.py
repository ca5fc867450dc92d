"""Independent sky coordinates: astropy's Galactocentric frame (galpy's x axis points the other way)."""
import numpy as np
import astropy.units as au
from astropy.coordinates import SkyCoord, Galactocentric, ICRS, CartesianDifferential, galactocentric_frame_defaults
galactocentric_frame_defaults.set("v4.0")


def frame(ro, vo, zo, sm):
    return Galactocentric(galcen_distance=np.sqrt(ro ** 2 + zo ** 2) * au.kpc, z_sun=zo * au.kpc,
                          galcen_v_sun=CartesianDifferential([-sm[0], vo + sm[1], sm[2]] * au.km / au.s))


def radec(pos_kpc, vel, ro, vo, zo, sm):
    """(n,3) galactocentric kpc and km/s -> (n,6) ra, dec, dist, pmra*cosdec, pmdec, vlos"""
    p = np.atleast_2d(np.asarray(pos_kpc, float)); v = np.atleast_2d(np.asarray(vel, float))
    c = SkyCoord(x=-p[:, 0] * au.kpc, y=p[:, 1] * au.kpc, z=p[:, 2] * au.kpc, v_x=-v[:, 0] * au.km / au.s, v_y=v[:, 1] * au.km / au.s,
                 v_z=v[:, 2] * au.km / au.s, frame=frame(ro, vo, zo, sm)).transform_to(ICRS())
    return np.c_[c.ra.deg, c.dec.deg, c.distance.kpc, c.pm_ra_cosdec.to(au.mas / au.yr).value, c.pm_dec.to(au.mas / au.yr).value, c.radial_velocity.to(au.km / au.s).value]


def position(ra, dec, dist, ro, vo, zo, sm):
    """the galactocentric position (kpc) of a place on the sky"""
    c = SkyCoord(ra=ra * au.deg, dec=dec * au.deg, distance=dist * au.kpc, frame=ICRS()).transform_to(frame(ro, vo, zo, sm))
    return np.array([-c.x.to(au.kpc).value, c.y.to(au.kpc).value, c.z.to(au.kpc).value])


def close_sky(mon, got, want, mech, tol=2e-6, msg=""):
    """angles within tol degrees on the sky, distance, proper motion and velocity to matching relative precision"""
    g, w = np.atleast_2d(np.asarray(got, float)), np.atleast_2d(np.asarray(want, float))
    if not mon.ok(g.shape == w.shape, mech, "%s: shape %s expected %s" % (msg, g.shape, w.shape)): return False
    dra = (g[:, 0] - w[:, 0] + 180) % 360 - 180
    ok = mon.close(dra * np.cos(np.radians(w[:, 1])), np.zeros(len(w)), mech, 0, tol, msg + " ra (deg on the sky)")
    ok &= mon.close(g[:, 1], w[:, 1], mech, 0, tol, msg + " dec")
    ok &= mon.close(g[:, 2], w[:, 2], mech, tol, tol * 1e-2, msg + " dist")
    vs = np.hypot(np.hypot(w[:, 3], w[:, 4]), np.abs(w[:, 5]) / (4.74047 * w[:, 2])) + 1e-3
    ok &= mon.close((g[:, 3] - w[:, 3]) / vs, np.zeros(len(w)), mech, 0, tol * 50, msg + " pmra")
    ok &= mon.close((g[:, 4] - w[:, 4]) / vs, np.zeros(len(w)), mech, 0, tol * 50, msg + " pmdec")
    ok &= mon.close((g[:, 5] - w[:, 5]) / (4.74047 * w[:, 2] * vs + 1), np.zeros(len(w)), mech, 0, tol * 50, msg + " vlos")
    return ok
