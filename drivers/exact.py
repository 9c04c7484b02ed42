"""Runs of the main loop whose exact solutions are known."""
import contextlib
import io
import os
import sys

from gprlib import *

VAC = material(EOS=VACUUM)
i32 = lambda x: np.array(x, dtype=np.int32)
NONE = [-1.] * LSET
NAMES = {id(m): n for n, m in MATERIALS.items()}
GAUSS = [-3**-.5, 3**-.5]


@contextlib.contextmanager
def quiet():
    """The main loop reports its progress on the standard output."""
    sys.stdout.flush()
    keep, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        yield
    finally:
        os.dup2(keep, 1)
        os.close(keep)
        os.close(null)


def run(u, t, nX, dX, mats, split, flux, cfl=.6, bt=1, stiff=False):
    """The final state of a run."""
    mats = list(mats) + [VAC] * (LSET + 1 - len(mats))
    nd = len(nX)
    with quiet():
        h = GPRpy.solvers.iterator(u.reshape(-1).copy(), t, i32(nX), np.array(dX, float), cfl, i32([bt] * 2 * nd), split, split,
                                   stiff, flux, [par(m) for m in mats], 1e300)
    return np.array(h[99])


def rotation(a, t):
    c, s = np.cos(t), np.sin(t)
    R = np.eye(3)
    i, j = a % 3, (a + 1) % 3
    R[i, i] = R[j, j] = c
    R[i, j], R[j, i] = -s, s
    return R


def points(nX):
    """Cell centres, and the Gauss points around them."""
    dX = 1 / np.array(nX)
    x = (np.stack(np.meshgrid(*[np.arange(n) for n in nX], indexing="ij"), -1).reshape(-1, len(nX)) + .5) * dX
    off = np.stack(np.meshgrid(*[GAUSS] * len(nX), indexing="ij"), -1).reshape(-1, len(nX))
    return x, off * dX / 2


def carried(m, f, x):
    y = 2 * np.pi * np.dot(f["k"], x)
    r = f["r0"] * (1 + f["dens"] * np.sin(y))
    A = rotation(3, f["angle"] * np.sin(y)) @ rotation(1, f["angle"] * np.cos(y)) @ f["A0"]
    return cons(m, r, f["p"], f["v"], np.cbrt(r / f["r0"]) * A, phi=NONE)


SCHEMES = [(False, 0), (True, 0), (False, 1), (True, 2), (False, 2), (True, 1)]


def pattern(name, kind, grids, split, flux, t):
    """Patterns carried by a uniform flow."""
    rng = D.rng
    m = MATERIALS[name]
    ps = PSCALE[name]
    nd = len(grids[0])
    r0 = m["rho0"] * rng.uniform(.98, 1.05)
    p = ps * rng.uniform(.7, 1.3)
    c = np.sqrt(abs(ps) / r0 + m["b02"] + m["c02"])
    A = rand_rot(rng)
    if kind != "density" and m["SOLID"] and not m["POWER_LAW"]:
        A = A + .06 * rng.normal(size=(3, 3))
    A0 = A * np.cbrt(r0 / m["rho0"] / np.linalg.det(A))
    f = dict(r0=r0, p=p, v=c * rng.choice([-1., 1.], size=3) * rng.uniform(.3, .9, size=3), A0=A0,
             dens=0. if kind == "turned" else rng.uniform(.05, .15), angle=0. if kind == "density" else .4,
             k=[1] if nd == 1 else [[1, 0], [1, 1], [1, -1], [0, 1]][rng.integers(4)])
    t = t / c
    runs = []
    for nX in grids:
        x, off = points(nX)
        u = sum(np.array([carried(m, f, y) for y in x + o]) for o in off) / len(off)
        runs.append(dict(nX=nX, u0=F(u.reshape(-1)), u1=F(run(u, t, nX, 1 / np.array(nX), [m], split, flux))))
    sc = scales(m, u[0], ps)
    D.emit("carried", m=mj(m), f=dict({k: F(v) for k, v in f.items() if k != "k"}, k=[int(z) for z in f["k"]]), t=F(t), runs=runs,
           sc=F(sc), rate=F(.65), last=F(.01), scheme=[split, flux], kind=kind)


D = Driver()
if D.part == "carried":
    g1 = [[16], [32], [64]]
    g2 = [[6, 6], [12, 12], [24, 24]]
    for i, (split, flux) in enumerate(SCHEMES):
        for nm in ("air_nd", "copper_el", "water_nd") + (("jwl", "cc", "power") if D.thorough else ()):
            for kind in ("density", "turned") + (() if nm == "copper_el" else ("both",)):
                if THERMAL and kind != "turned":
                    continue
                D.case(f"c1/{nm}/{kind}/{i}", pattern, nm, kind, g1, split, flux, .3)
                D.case(f"c2/{nm}/{kind}/{i}", pattern, nm, kind, g2, split, flux, .3)
D.done()
