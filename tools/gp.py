"""Helper of the demonstrations: materials and states for the built module."""
import ctypes

import numpy as np

import GPRpy

NV = GPRpy.options.NV()
N = GPRpy.options.N()
LSET = GPRpy.options.LSET()
NAMES = "EOS ρ0 Tref T0 cv pINF Γ0 c02 s α β γ A B R1 R2 b02 μ τ0 σY n cα2 κ SOLID POWER_LAW BINGHAM".split()


def par(**kw):
    m = GPRpy.classes.Par()
    base = dict.fromkeys(NAMES, 0.)
    base.update(EOS=0, SOLID=False, POWER_LAW=False, BINGHAM=False, n=1., T0=300.)
    base.update(kw)
    for k, v in base.items():
        setattr(m, k, v)
    m.MULTI = False
    m.REACTION = -1
    m.δp = np.array(kw.get("dp", [0., 0., 0.]))
    return m


def gas(**kw):
    return par(**dict(dict(ρ0=1., cv=2.5, γ=1.4, b02=1., μ=1e-2, cα2=4., κ=1e-2), **kw))


def water(**kw):
    return par(**dict(dict(ρ0=1., cv=1., γ=4.4, pINF=6., b02=1., μ=1e-3, cα2=1e-2, κ=.6), **kw))


def copper(**kw):
    return par(**dict(dict(EOS=1, ρ0=8.9, cv=.4, Γ0=2., c02=.394**2, s=1.48, b02=.219**2, SOLID=True,
                           POWER_LAW=True, τ0=1., σY=.0045, n=10., cα2=.25, κ=4e-3), **kw))


def vacuum():
    return par(EOS=-1)


def cons(m, r, p, v=(0., 0., 0.), A=None, phi=None):
    """Conserved variables; A is scaled to the determinant r / ρ0."""
    v = np.asarray(v, float)
    A = np.eye(3) if A is None else np.asarray(A, float)
    A = A * ((r / m.ρ0) / np.linalg.det(A))**(1 / 3)
    if m.EOS == 0:
        G, e = m.γ - 1, (p + m.γ * m.pINF) / ((m.γ - 1) * r)
    else:
        G = m.Γ0 * m.ρ0 / r
        dv = 1 / m.ρ0 - 1 / r
        pr = m.c02 * dv / (1 / m.ρ0 - m.s * dv)**2 if r > m.ρ0 else m.c02 * (r - m.ρ0)
        e = (.5 * pr * dv if r > m.ρ0 else 0.) + (p - pr) / (r * G)
    C = A.T @ A
    D = C - np.trace(C) / 3 * np.eye(3)
    cs2 = m.b02 * (r / m.ρ0)**m.β
    Q = np.zeros(NV)
    Q[0] = r
    Q[1] = r * (e + v @ v / 2 + (1 - m.β / G) * cs2 / 4 * (D * D).sum())
    Q[2:5] = r * v
    Q[5:14] = A.reshape(-1)
    if phi is not None:
        Q[NV - LSET:] = phi
    return Q


def ints(x):
    return np.array(x, dtype=np.int32)


def extended(u, nX, bt):
    ub = np.zeros(int(np.prod(np.array(nX) + 2 * N)) * NV)
    GPRpy.boundaries(u.copy(), ub, ints(nX), ints(bt))
    return ub


def threads(n):
    ctypes.CDLL("libgomp.so.1").omp_set_num_threads(n)


def wavy(m, nX, p=1., amp=.05, seed=0):
    """A grid of smooth states, a column of the material per cell."""
    rng = np.random.default_rng(seed)
    w = rng.normal(size=14)
    ph = rng.uniform(0, 6, size=14)
    out = []
    for i in np.ndindex(*nX):
        x = np.array([(i[d] + .5) / nX[d] for d in range(len(nX))])
        z = amp * w * np.cos(2 * np.pi * x.sum() + ph)
        out.append(cons(m, m.ρ0 * np.exp(z[0]), p * np.exp(z[1]), z[2:5], np.eye(3) + z[5:14].reshape(3, 3)))
    return np.array(out).reshape(-1)
