"""Reference trajectories in a galactic potential: scipy DOP853 on galpy's forces (natural units), independent of galpy's orbit integrators."""
import numpy as np
from scipy.integrate import solve_ivp
from galpy import potential
from galpy.util import conversion


def gyr(T):
    return float(conversion.time_in_Gyr(vo=T.vo, ro=T.ro))


def energy(pot, P, V):
    """specific energy and angular momentum about z of (n,3) natural-unit states"""
    R = np.hypot(P[:, 0], P[:, 1])
    ph = np.array([float(potential.evaluatePotentials(pot, a, b, use_physical=False)) for a, b in zip(R, P[:, 2])])
    return .5 * np.sum(V ** 2, 1) + ph, P[:, 0] * V[:, 1] - P[:, 1] * V[:, 0]


def move(pot, P, V, ts, rtol=1e-10):
    """states (len(ts), n, 6) of natural-unit initial states at the times ts (any sign, starting from t=0)"""
    P, V = np.atleast_2d(np.asarray(P, float)), np.atleast_2d(np.asarray(V, float)); n = len(P); ts = np.asarray(ts, float)
    out = np.empty((len(ts), n, 6))

    def rhs(t, y):
        y = y.reshape(n, 6); R = np.hypot(y[:, 0], y[:, 1]); z = y[:, 2]
        FR = np.broadcast_to(potential.evaluateRforces(pot, R, z, use_physical=False), (n,)); Fz = np.broadcast_to(potential.evaluatezforces(pot, R, z, use_physical=False), (n,))
        return np.c_[y[:, 3:], FR * y[:, 0] / R, FR * y[:, 1] / R, Fz].ravel()
    y0 = np.c_[P, V].ravel(); sc = np.repeat(np.c_[np.full((n, 3), np.max(np.abs(P))), np.full((n, 3), np.max(np.abs(V)) + 1e-3 * np.sqrt(np.max(np.abs(P))))], 1, 0).ravel()
    for sgn in (1, -1):
        q = np.flatnonzero(ts * sgn > 0)
        if len(q):
            o = q[np.argsort(np.abs(ts[q]), kind="stable")]
            u, inv = np.unique(np.abs(ts[o]), return_inverse=True)
            s = solve_ivp(rhs, (0, sgn * u[-1]), y0, method="DOP853", t_eval=sgn * u, rtol=rtol, atol=1e-11 * sc)
            out[o] = s.y.T.reshape(len(u), n, 6)[inv]
    out[ts == 0] = y0.reshape(n, 6)
    return out
