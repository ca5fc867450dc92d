import numpy as np
from ctv import gen

def oracle(pos, vel, m, eps=0.0, projected=False, specific=True):
    """Pairwise definition with G=1, float64 (longdouble sums)."""
    p = np.array(pos, float); v = np.array(vel, float)
    if projected:
        p = p[:, :2]; v = v[:, :2]
    d2 = np.zeros((len(m), len(m)))
    for k in range(p.shape[1]):
        d2 += (p[:, None, k] - p[None, :, k]) ** 2
    d = np.sqrt(d2 + eps ** 2)
    np.fill_diagonal(d, np.inf)
    pot = -np.sum((m[None, :] / d).astype(np.longdouble), axis=1).astype(float)
    kin = 0.5 * np.sum(v * v, axis=1)
    if not specific:
        pot = pot * m; kin = kin * m
    return kin, pot

def grav(T, units):
    L, V, M, _ = T.dims(units)
    if units == "nbody" and T.scale is None:
        return 1.0
    return gen.G * M / (L * V * V)
