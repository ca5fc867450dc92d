"""Galactic potentials used by the orbit and tidal workloads, with independent numerical derivatives."""
import numpy as np
from galpy import potential
from galpy.potential import (MWPotential2014, LogarithmicHaloPotential, NFWPotential, HernquistPotential, MiyamotoNagaiPotential, PlummerPotential, PowerSphericalPotential)

POTS = {
    "mw": MWPotential2014,
    "log": LogarithmicHaloPotential(normalize=1.0),
    "logq": LogarithmicHaloPotential(normalize=1.0, q=0.8),
    "nfw": NFWPotential(normalize=1.0, a=2.0),
    "hern": HernquistPotential(normalize=1.0, a=1.3),
    "mn": MiyamotoNagaiPotential(normalize=1.0, a=0.5, b=0.1),
    "plummer": PlummerPotential(normalize=1.0, b=0.7),
    "power": PowerSphericalPotential(normalize=1.0, alpha=2.3),
}
NAMES = sorted(POTS)


def phi(pot, R, z):
    return float(potential.evaluatePotentials(pot, R, z, use_physical=False))


def radial(pot, R, z):
    """first and second derivative of the potential along the galactocentric radius (natural units), by Richardson differences"""
    r = np.hypot(R, z); c, s = R / r, z / r
    f = lambda q: phi(pot, q * c, q * s)

    def d(h):
        a, b, m = f(r + h), f(r - h), f(r)
        return np.array([(a - b) / (2 * h), (a - 2 * m + b) / h ** 2])
    h = 2e-3 * r
    return (4 * d(h / 2) - d(h)) / 3
