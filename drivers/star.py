"""States at material interfaces."""
import os
from gprlib import *
from waves import pscales, hyperbolic

S = GPRpy.system
ST = GPRpy.system.multi
RELAX = os.environ.get("RELAX", "1") == "1"
TEMP = 3.
VAC = material(EOS=VACUUM)
GROUPS = [["air", "water"], ["air_nd", "water_nd", "power", "shearthin", "bingham"],
          ["copper", "copper_el", "alu_gr", "alu_smg", "jwl", "cc"]]
PAIRS = [(a, b) for g in GROUPS for a in g for b in g] + [(a, None) for g in GROUPS for a in g]


def traction(m, Q, MP, n):
    A = Q[5:14].reshape(3, 3)
    G = A.T @ A
    s = -Q[0] * m["b02"] * (Q[0] / m["rho0"])**m["beta"] * G @ (G - np.trace(G) / 3 * np.eye(3))
    return S.variables.pressure(Q, MP) * n - s @ n


def stiffness(m, Q, ps):
    s = scales(m, Q, ps)
    return s[2]**2 / s[0]


def setup(k, a, b, size):
    """Two materials with states of about the same pressure and temperature, moving a little."""
    rng = D.rng
    g = next(g for g in GROUPS if a in g)
    mL = dict(MATERIALS[a])
    mR = dict(MATERIALS[b]) if b else dict(VAC)
    ps = 1e5 if "air" in g else 1. if "air_nd" in g else .3
    for m in (mL, mR):
        m["cv"] = m["cv"] or 1.
        m["dp"] = list(rng.normal(size=3) * .1) if k % 3 == 1 else [0., 0., 0.]
    MPL, MPR = par(mL), par(mR)
    while True:
        out = []
        for m, MP in ((mL, MPL), (mR, MPR)):
            if m["EOS"] == VACUUM:
                out.append(np.zeros(NV))
                continue
            Q = state(rng, m, ps, shear=.02 * (1 + size * 5), comp=.01 if m["EOS"] != SG else .1, vel=0, J=.1 * size)
            while m["EOS"] == SMG and abs(Q[0] / m["rho0"] - 1) < 8e-3:
                Q = state(rng, m, ps, shear=.02, comp=.02, vel=0, J=.1 * size)
            if THERMAL:     # about the same temperature
                e, G, pr = eos_e(m, Q[0], ps)
                p = S.variables.pressure(Q, MP)
                m["cv"] = abs(p - pr) / (Q[0] * G * TEMP * (1 + size * rng.normal()))
                m["T0"] = TEMP
                MP.cv, MP.T0 = m["cv"], TEMP
            out.append(Q)
        c = min(np.sqrt(stiffness(m, Q, ps) / Q[0]) for m, Q in ((mL, out[0]), (mR, out[1])) if m["EOS"] != VACUUM)
        v0 = rng.normal(size=3) * c
        for Q in out:
            if Q[0]:
                v = v0 + rng.normal(size=3) * c * size
                Q[1] += v @ v / 2 * Q[0]
                Q[2:5] = Q[0] * v
        if all(hyperbolic(Q, 0, MP) for Q, MP in zip(out, (MPL, MPR)) if Q[0]):
            return mL, mR, MPL, MPR, out[0], out[1], ps


def units(mL, mR, L, R, MPL, MPR, ps, n):
    """Sizes of what is compared."""
    side = [(m, Q, MP) for m, Q, MP in ((mL, L, MPL), (mR, R, MPR)) if m["EOS"] != VACUUM]
    st = [stiffness(m, Q, ps) for m, Q, MP in side]
    st = [max(x, m["rho0"] * m["gamma"] * m["pINF"] if m["EOS"] == SG else 0) for x, (m, Q, MP) in zip(st, side)]
    tr = [np.abs(traction(m, Q, MP, n)).max() for m, Q, MP in side]
    d = dict(scL=F(scales(mL, L, ps)), pscL=F(pscales(mL, L, ps)), unit=F(min(st) + max(tr) + 1e-9 * max(st)))
    if len(side) == 2:
        d.update(scR=F(scales(mR, R, ps)), pscR=F(pscales(mR, R, ps)))
    b = min(m["b02"] for m, Q, MP in side) * min(m["rho0"] for m, Q, MP in side)
    noise = 5e-14 * max(st) / b
    if THERMAL:
        T = [abs(S.variables.temperature(Q, MP)) + m["T0"] for m, Q, MP in side]
        d.update(tunit=F(max(T)), qunit=F(max(m["cal2"] * t * pscales(m, Q, ps)[14] for t, (m, Q, MP) in zip(T, side))))
        noise = max(noise, 5e-14 * max(max(st) / (Q[0] * eos_e(m, Q[0], 1.)[1] * m["cv"] * m["T0"]) for m, Q, MP in side))
    return d, noise


def steps(k, a, b):
    mL, mR, MPL, MPR, L, R, ps = setup(k, a, b, [.003, .03, .1][k % 3])
    l, r = L.copy(), R.copy()
    ST.star_stepper(l, r, MPL, MPR)
    if not (np.isfinite(l).all() and np.isfinite(r).all()):
        return D.emit("exception", what="a step of admissible states is not finite")
    u, _ = units(mL, mR, L, R, MPL, MPR, ps, np.array([1., 0, 0]))
    D.emit("starstep", mL=mj(mL), mR=mj(mR), L0=F(L), R0=F(R), L1=F(l), R1=F(r), **u)


def rotation(n):
    """Any rotation that takes n to the first axis (the solution does not depend on which)."""
    e1 = np.array([n[0], n[1] if len(n) > 1 else 0., n[2] if len(n) > 2 else 0.])
    w = np.eye(3)[np.argmin(np.abs(e1))]
    e2 = np.cross(e1, w)
    e2 /= np.linalg.norm(e2)
    return np.array([e1, e2, np.cross(e1, e2)])


def turn(Q, X):
    q = Q.copy()
    q[2:5] = X @ Q[2:5]
    q[5:14] = (X @ Q[5:14].reshape(3, 3) @ X.T).reshape(-1)
    if THERMAL:
        q[14:17] = X @ Q[14:17]
    return q


def turned_par(m, X):
    return par(dict(m, dp=list(X @ np.array(m["dp"]))))


def normal(k, rng):
    if k % 4 == 0:
        return np.array([[1., 0.], [0., 1.], [-1., 0.], [0., -1.]][(k // 4) % 4])
    if k % 7 == 3:
        return np.array([1.]) if k % 2 else np.array([-1.])
    a = rng.uniform(0, 2 * np.pi)
    return np.array([np.cos(a), np.sin(a)])


def balanced(mL, mR, MPL, MPR, L, R, n, ps):
    """Another left state, whose normal traction and velocity are already those of the other side."""
    q = L.copy()
    v = L[2:5] / L[0]
    want = 0.
    if mR["EOS"] != VACUUM:
        v = v + ((R[2:5] / R[0] - v) @ n) * n
        want = traction(mR, R, MPR, n) @ n
    q[1] += ((want - traction(mL, L, MPL, n) @ n) / eos_e(mL, L[0], ps)[1]
             + L[0] * (v @ v - L[2:5] @ L[2:5] / L[0]**2) / 2)
    q[2:5] = L[0] * v
    return q


def unsheared(m, L):
    """The same matter without shear."""
    q = L.copy()
    q[5:14] = (np.cbrt(L[0] / m["rho0"]) * np.eye(3)).reshape(-1)
    A = L[5:14].reshape(3, 3)
    C = A.T @ A
    G = C - np.trace(C) / 3 * np.eye(3)
    if m["beta"] == 0:
        q[1] -= L[0] * m["b02"] / 4 * (G * G).sum()
    return q


def solves(k, a, b, part=False):
    rng = D.rng
    size = [.003, .03, .1][k % 3]
    n = normal(k, rng)
    n3 = np.zeros(3)
    n3[:len(n)] = n
    for attempt in range(40):
        mL, mR, MPL, MPR, L, R, ps = setup(k, a, b, size)
        if not part:
            break
        if k % 4 < 2:
            q = balanced(mL, mR, MPL, MPR, L, R, n3, ps)
        else:
            q = unsheared(mL, L)
        if hyperbolic(q, 0, MPL):
            L = q
            break
    # relaxation time steps: none, slow, fast
    s = np.zeros(NV)
    S.source(s, L.copy(), MPL)
    rate = np.abs(s[5:14]).max() / .02
    # (equal stretches do not relax equally, and which one does depends on rounding)
    dt = 0. if not RELAX or k % 2 == 0 or part and k % 4 > 1 else 10.**rng.uniform(-3, 0) / max(rate, 1e-3)
    dt = min(dt, 1e-2)
    out = ST.left_star_state(L.copy(), R.copy(), MPL, MPR, dt, n)
    # how much rounding matters
    sc = scales(mL, L, ps)
    near = [ST.left_star_state(L * (1 + j), R * (1 - j), MPL, MPR, dt, n) for j in (1e-13, -1e-13, 3e-13, -3e-13)]
    spread = max(np.abs((x - out) / sc).max() for x in near)
    spread = float(min(spread, 1.)) if np.isfinite(spread) else 1.
    X = rotation(n)
    l, r = turn(L, X), turn(R, X)
    TL, TR = turned_par(mL, X), turned_par(mR, X)
    run = [(l, r)]
    for it in range(10):
        l, r = l.copy(), r.copy()
        if RELAX:
            GPRpy.solvers.split.ode_launcher(l, dt / 2, TL)
            if mR["EOS"] != VACUUM:
                GPRpy.solvers.split.ode_launcher(r, dt / 2, TR)
        ST.star_stepper(l, r, TL, TR)
        run.append((l, r))
    u, noise = units(mL, mR, L, R, MPL, MPR, ps, n3)
    # where waves have no real speeds, what becomes of the states is arbitrary
    tame = all(np.isfinite(q).all() and q[0] > 0 and hyperbolic(q, 0, MP)
               for x in run for q, MP in zip(x, (TL, TR)) if q[0])
    D.emit("starsolve", mL=mj(mL), mR=mj(mR), L=F(L), out=F(out), run=[F(x) for x in run],
           back=[F(turn(x[0], X.T)) for x in run],
           settles=bool(dt == 0.), noise=F(max(noise, 1.01e-8)), rounding=F(noise), spread=F(spread), tame=bool(tame), sc=u["scL"])
    if dt == 0.:
        if b:
            other = ST.left_star_state(R.copy(), L.copy(), MPR, MPL, dt, -n)
        else:
            other = R
        D.emit("starpair", mL=mj(mL), mR=mj(mR), L0=F(L), R0=F(R), L1=F(out), R1=F(other), n=F(n3), noise=F(max(noise, 1.01e-8)), **u)
    if tame and len(n) > 1 and (dt == 0. or os.environ.get("STICK") != "1"):
        t = rng.uniform(0, 2 * np.pi) if k % 5 else np.pi / 2
        Z = np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1.]])
        o2 = ST.left_star_state(turn(L, Z), turn(R, Z), turned_par(mL, Z), turned_par(mR, Z), dt, (Z @ n3)[:2])
        D.emit("turned", out=F(out), back=F(turn(o2, Z.T)), sc=u["scL"], noise=F(max(noise, 1.01e-8)), spread=F(spread))


def special(k, a):
    rng = D.rng
    mL, mR, MPL, MPR, L, R, ps = setup(k, a, a, .03)
    n = normal(k, rng)
    mL["dp"] = [0., 0., 0.]
    MPL = par(mL)
    if os.environ.get("STICK") != "1":         # without friction there is no shear
        L = unsheared(mL, L)
    D.emit("alone", L=F(L), out=F(ST.left_star_state(L.copy(), L.copy(), MPL, MPL, 0., n)), sc=F(scales(mL, L, ps)))
    # no solution: not a number, or waves of imaginary speed
    bad = R.copy()
    if k % 2:
        bad[1] = np.nan
    else:
        bad[5:14] = 0.
    D.emit("kept", L=F(L), out=F(ST.left_star_state(L.copy(), bad, MPL, MPR, 1e-9, n)))


if __name__ == "__main__":
    D = Driver()
    for k in range(D.n(120, 1500)):
        a, b = PAIRS[k % len(PAIRS)]
        D.case(f"step/{k}", steps, k // len(PAIRS) + k, a, b)
        D.case(f"solve/{k}", solves, k // len(PAIRS) + k, a, b)
    solid = [p for p in PAIRS if p[0] in ("copper_el", "alu_gr", "water_nd", "copper", "power")]
    for k in range(D.n(50, 600)):
        a, b = solid[(k // 2) % len(solid)]
        D.case(f"part/{k}", solves, k + k // (2 * len(solid)), a, b, True)
    for k in range(D.n(13, 60)):
        D.case(f"special/{k}", special, k, PAIRS[-1 - k % 13][0])
    D.done()
