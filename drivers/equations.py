"""Terms of the governing equations of one cell."""
from gprlib import *

S = GPRpy.system


def fscale(m, Q, ps):
    """Magnitude of each component of the flux."""
    s = scales(m, Q, ps)
    c = np.sqrt(s[2] / s[0] * s[2] / s[0])
    f = s * c
    f[2:5] = s[0] * c * c
    f[1] = s[1] * c + s[0] * c**3
    f[NV - LSET:] = c
    if THERMAL:
        T = abs(ps) / (Q[0] * m["cv"]) + m["Tref"] + c * c / m["cv"]
        f[14:17] += T
        f[1] += m["cal2"] * T * np.abs(Q[14:17]).max() / Q[0]
    return f


def one(name, k):
    rng = D.rng
    m = dict(MATERIALS[name])
    m["cv"] = m["cv"] or 1.
    if k % 2 == 1:
        m["Tref"] = m["T0"] * .5
    if k % 4 == 1:
        m["dp"] = list(rng.normal(size=3))
    ps = PSCALE[name]
    Q = state(rng, m, ps, shear=rng.choice([.02, .2, .5]), comp=rng.choice([.02, .2]),
              det=k % 3 != 0)
    MP = par(m)
    J = mj(m)
    sc = scales(m, Q, ps)
    Q0 = Q.copy()
    ss = np.abs(sc)
    out = rng.normal(size=NV)
    S.source(out, Q, MP)
    D.emit("source", m=J, Q=F(Q), out=F(out), ss=F(np.zeros(NV)))
    for d in range(3):
        pre = np.zeros(NV) if k % 2 else rng.normal(size=NV) * sc
        out = pre.copy()
        S.flux(out, Q, d, MP)
        D.emit("flux", m=J, Q=F(Q), d=d + 1, pre=F(pre), out=F(out), fs=F(fscale(m, Q, ps)))
        x = rng.normal(size=NV) * sc
        out = rng.normal(size=NV)
        S.Bdot(out, Q, x, d, MP)
        D.emit("bdot", m=J, Q=F(Q), d=d + 1, x=F(x), out=F(out))
        blk = np.zeros([NV, NV])
        S.block(blk, Q, d)
        D.emit("block", m=J, Q=F(Q), d=d + 1, out=F(blk))
        D.emit("jacobians", m=J, Q=F(Q), d=d + 1, sc=F(sc), M=F(S.system_matrix(Q, d, MP)),
               dFdP=F(S.dFdP(Q, d, MP)), dPdQ=F(S.dPdQ(Q, MP)))
    assert (Q == Q0).all()


D = Driver()
for nm in MATERIALS:
    for k in range(D.n(12, 150)):
        D.case(f"{nm}/{k}", one, nm, k)
D.done()
