"""Relaxation steps of the split scheme."""
from gprlib import *

S = GPRpy.system
STIFF = dict(BINGHAM, sigY=1e-3)
MATS = dict(MATERIALS, bingham_soft=STIFF, unit_index=dict(POWER, n=1.), power_beta=dict(POWER, beta=1.5),
            newton_beta=dict(AIR_ND, beta=1.5), forced=dict(WATER_ND, dp=[.3, -.2, .7]))


def relax(k, name):
    rng = D.rng
    m = dict(MATS[name])
    if "dp" not in m or k % 4 == 3:
        m["dp"] = list(rng.normal(size=3))
    if THERMAL and m["EOS"] != SG:
        m["Tref"] = 300.
    MP = par(m)
    base = name.split("_")[0]
    ps = PSCALE.get(name, PSCALE.get(base, 1.))
    shear = [1e-3, .01, .03, .1, .2, 1e-8][k % 6]
    Q = state(rng, m, ps, shear=shear, comp=.1, J=[0., 1.][k % 2])
    s = np.zeros(NV)
    S.source(s, Q.copy(), MP)
    G = Q[5:14].reshape(3, 3)
    G = G.T @ G
    d = np.abs(G - np.trace(G) / 3 * np.eye(3)).max()
    r = np.abs(s[5:14]).max() / d
    if k % 3 == 1 and THERMAL:
        r = max(r, np.abs(s[14:17]).max() / max(np.abs(Q[14:17]).max(), 1e-300))
    if not np.isfinite(r) or r == 0:
        r = 1.
    dt = 10.**rng.uniform(-2, .6) / r
    if any(m["dp"]):
        # the energy stays as the momentum grows: keep the body force from using it up
        dt = min(dt, 1e3)
        m["dp"] = list(rng.normal(size=3) * .02 * np.sqrt(np.abs(Q[1] * Q[0])) / dt)
        MP = par(m)
    q, h = Q.copy(), Q.copy()
    GPRpy.solvers.split.ode_launcher(q, dt, MP)
    GPRpy.solvers.split.ode_launcher(h, dt / 2, MP)
    GPRpy.solvers.split.ode_launcher(h, dt / 2, MP)
    D.emit("relax", m=mj(m), dt=F(dt), Q0=F(Q), Q1=F(q), Qh=F(h), name=name, shear=shear)


D = Driver()
NAMES = list(MATS)
for k in range(D.n(240, 3000)):
    D.case(f"r/{k}", relax, k // len(NAMES) + k, NAMES[k % len(NAMES)])
D.done()
