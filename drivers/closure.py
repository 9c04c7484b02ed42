"""Closure relations of one cell: pressure, temperature, energy derivative."""
from gprlib import *

S = GPRpy.system.variables


def one(name, k):
    rng = D.rng
    m = dict(MATERIALS[name])
    if k % 2:
        m["Tref"] = m["T0"]
    m["cv"] = m["cv"] or 1.
    ps = PSCALE[name]
    Q = state(rng, m, ps, shear=rng.choice([.0, .02, .2, .5]), comp=rng.choice([.01, .1, .3]),
              det=k % 3 != 0)
    MP = par(m)
    Q0 = Q.copy()
    D.emit("pressure", m=mj(m), Q=F(Q), p=F(S.pressure(Q, MP)), T=F(S.temperature(Q, MP)),
           dEdr=F(S.dEdρ(Q, MP)))
    assert (Q == Q0).all()
    r = m["rho0"] * np.exp(rng.normal() * .3)
    p = ps * rng.normal()
    D.emit("tempmg", m=mj(m), r=F(r), p=F(p), T=F(S.temperature_mg(r, p, phase(m))))


D = Driver()
for nm in MATERIALS:
    for k in range(D.n(60, 600)):
        D.case(f"{nm}/{k}", one, nm, k)
D.done()
