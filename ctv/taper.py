"""The tapered power law A x^alpha (1 - exp(-(x/xc)^beta)): samples, the least-squares optimum near a fit, and the errors the scaled covariance gives."""
import numpy as np
import scipy.optimize as so


def curve(x, A, al, xc, be): return A * x ** al * (1 - np.exp(-(x / xc) ** be))


def draw(rng, n, lo=0.08, hi=1.5):
    al, xc, be = rng.uniform(-2.5, -1), rng.uniform(.3, .7), rng.uniform(1, 3)
    g = np.geomspace(lo, hi, 2000); f = g ** al * (1 - np.exp(-(g / xc) ** be)); c = np.concatenate([[0], np.cumsum(0.5 * (f[1:] + f[:-1]) * np.diff(g))])
    return np.interp(rng.random(n) * c[-1], c, g)


def nearby(x, y, p, xmin, xmax):
    """the sum of squares of the curve p, and the least one reached from it"""
    s = x.mean(); P = [p[0] * s ** p[1], p[1], p[2] / s, p[3]]
    with np.errstate(all="ignore"):
        ss = best = float(np.sum((curve(x / s, *P) - y) ** 2))
        try: q, _ = so.curve_fit(curve, x / s, y, p0=P, bounds=([0, -np.inf, xmin / s, -np.inf], [np.inf, np.inf, xmax / s, np.inf]), max_nfev=2000); best = min(best, float(np.sum((curve(x / s, *q) - y) ** 2)))
        except (RuntimeError, ValueError): pass
    return ss, best


def errors(x, p, ss):
    """standard errors of (A, alpha, xc, beta) from the Jacobian of the curve, and how well conditioned they are"""
    A, al, xc, be = p; u = (x / xc) ** be; e = np.exp(-u); t = 1 - e
    J = np.array([x ** al * t, A * x ** al * np.log(x) * t, A * x ** al * e * u * (-be / xc), A * x ** al * e * u * np.log(x / xc)]).T
    n = np.linalg.norm(J, axis=0)
    if not np.all(np.isfinite(n)) or np.any(n == 0): return None, np.inf
    Q = J / n; c = float(np.linalg.cond(Q))
    if c > 1e6: return None, c
    V = np.linalg.inv(Q.T @ Q) * ss / (len(x) - 4)
    return np.sqrt(np.diag(V)) / n, c


def judge(mon, tag, x, y, p, err, xmin, xmax, msg):
    """the errors of a converged well-conditioned fit; returns how far it is from the nearest optimum, and how much of the data it misses"""
    ss, best = nearby(x, y, p, xmin, xmax); tot = float(np.sum(y ** 2))
    w, c = errors(x, p, ss); u = (x / p[2]) ** p[3]      # where 1-exp(-u) cancels, finite-difference derivatives are noise
    if w is not None and np.min(u) > 1e-4 and ss <= 1.0001 * best and c < 1e3 and ss < .02 * tot and p[2] > 1.01 * xmin and p[2] < .99 * xmax:
        mon.close(np.asarray(err, float), w, tag + ":error", .1, 0, msg + ": errors of A, alpha, xc, beta"); mon.ev("tapered errors")
    return (ss / best if best > 0 else 1.), ss / tot
