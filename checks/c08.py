"""C08: parallel=True against the independent pairwise sum and the serial path, under many thread counts, repeatedly."""
import numba, threading
import numpy as np
from ctv import gen, derived
from ctv.energy import oracle
import clustertools as ct

RULE = ("Random clusters of 2-600 stars, each evaluated with parallel=True under 1..8 numba threads, with competing CPU load, several "
        "repetitions per thread count, against the serial result and an independent pairwise sum; distinct by (case, threads, options).")
REQUIRE = {"parallel calls": 150, "thread counts": 4, "ids": 20, "repetitions": 100, "softened": 20, "projected": 20}
CASE_LIMIT = 240
NT = numba.config.NUMBA_NUM_THREADS


def burn(stop):
    while not stop.is_set():
        sum(range(2000))


def w_race(mon, rng):
    n = int(rng.choice([2, 3, 9, 40, 150, 600]))
    T = gen.truth(rng, n=n, kind=str(rng.choice(["plummer", "gauss", "clumpy"])))
    units = str(rng.choice(gen.UNITS)); cl = T.build(units, str(rng.choice(["centre", "cluster"])))
    proj = bool(rng.random() < .3); spec = bool(rng.random() < .6)
    eps = 0.0 if rng.random() < .5 else float(np.std(cl.x) * 10 ** rng.uniform(-2, 0))
    kw = dict(specific=spec, projected=proj, softening=eps)
    mask = None
    if rng.random() < .4:
        k = int(rng.integers(1, n + 1)); mask = np.zeros(n, bool); mask[rng.permutation(n)[:k]] = True
        kw["ids"] = mask.copy() if rng.random() < .5 else np.array(T.ids[mask])
        mon.ev("ids")
    mon.log(units, n, kw)
    K, P = oracle(np.c_[cl.x, cl.y, cl.z], np.c_[cl.vx, cl.vy, cl.vz], cl.m, eps, proj, spec)
    sel = np.ones(n, bool) if mask is None else mask
    ks, ps = (np.array(a) for a in ct.energies(cl, **kw))
    f = np.median(ps / P[sel])
    mon.close(ps, P[sel] * f, "serial", 1e-9, 0, "serial result")
    stop = threading.Event()
    noise = [threading.Thread(target=burn, args=(stop,), daemon=True) for _ in range(2)] if rng.random() < .3 else []
    for t in noise: t.start()
    try:
        for nt in sorted(set([1, 2, 3, int(rng.integers(2, NT + 1)), NT])):
            if nt > NT: continue
            numba.set_num_threads(nt)
            mon.ev("threads=%d" % nt)
            for rep in range(4):
                meth = rep == 0
                kin, pot = cl.energies(parallel=True, **kw) if meth else ct.energies(cl, parallel=True, **kw)
                kin, pot = np.array(kin), np.array(pot)
                mon.close(pot, P[sel] * f, "race:%s:pot" % ("ids" if mask is not None else "all"), 1e-9, 0, "parallel pot, %d threads, n=%d, repetition %d" % (nt, n, rep))
                mon.close(kin, ks, "race:kin", 1e-12, 0, "parallel kin")
                mon.ev("parallel calls"); mon.ev("repetitions", rep > 0)
                mon.ev("softened", eps > 0); mon.ev("projected", proj)
                mon.seen(n, nt, spec, proj, eps > 0, mask is not None)
    finally:
        numba.set_num_threads(NT); stop.set()
    mon.events["thread counts"] = sum(1 for k in mon.events if k.startswith("threads="))
    mon.sample(dict(n=n, units=units, options=str({k: v for k, v in kw.items() if k != "ids"})))


def w_concurrent(mon, rng):
    """different clusters evaluated one after the other share no state between parallel calls"""
    Ts = [gen.truth(rng, n=int(rng.integers(20, 200)), kind="gauss") for _ in range(3)]
    cls = [T.build("pckms", "centre") for T in Ts]
    want = [oracle(np.c_[c.x, c.y, c.z], np.c_[c.vx, c.vy, c.vz], c.m)[1] for c in cls]
    for rep in range(3):
        for c, P in zip(cls, want):
            pot = np.array(ct.energies(c, parallel=True)[1]); f = np.median(pot / P)
            mon.close(f, 4.302e-3, "shared:scale", 3e-3, 0); mon.close(pot, P * f, "shared:pot", 1e-9, 0)
            mon.ev("parallel calls"); mon.ev("repetitions")


SERIAL = True   # threads compete inside each case
QF = 1.5; TF = 1
WORKLOADS = [("race", w_race, 40, 700), ("shared", w_concurrent, 4, 60)]
