"""Characteristic speeds, eigenvectors and the fluxes between two states."""
from gprlib import *

S = GPRpy.system
FV = GPRpy.solvers.fv


def pscales(m, Q, ps):
    """Magnitudes of the primitive variables, in the order of the eigenvectors."""
    s = scales(m, Q, ps)
    c = s[2] / s[0]
    r = np.ones(NV)
    r[0] = s[0]
    r[1] = s[0] * c * c
    r[2:11] = s[5]
    r[11:14] = c
    if THERMAL:
        r[14:17] = s[14] / s[0]
    return r


def fscale(m, Q, ps):
    s = scales(m, Q, ps)
    c = s[2] / s[0]
    f = s * c
    f[1] = s[1] * c + s[0] * c**3
    f[2:5] = s[0] * c * c
    f[NV - LSET:] = c
    if THERMAL:
        T = abs(ps) / (Q[0] * m["cv"]) + m["Tref"] + c * c / m["cv"]
        f[14:17] += T
        f[1] += m["cal2"] * T * np.abs(Q[14:17]).max() / Q[0]
    return f


def pick(name, k, rng):
    m = dict(MATERIALS[name])
    m["cv"] = m["cv"] or 1.
    if k % 2 == 1:      # small enough for matter to expand when heated, which hyperbolicity needs
        m["Tref"] = .1 * PSCALE[name] / (m["rho0"] * eos_e(m, m["rho0"], 1.)[1] * m["cv"])
    if k % 3 == 2 and m["EOS"] == SG:
        m["beta"] = .3
    ps = PSCALE[name]
    comp = [.02, .1][k % 2]
    while True:
        Q = state(rng, m, ps, shear=[.02, .05, .1][k % 3], comp=comp, det=k % 4 != 3)
        x = Q[0] / m["rho0"]
        # away from the kink of the shock Mie-Gruneisen reference curve
        if m["EOS"] != SMG or abs(x - 1) > 8e-3:
            return m, ps, Q


def hyperbolic(Q, d, MP):
    T = S.thermo_acoustic_tensor(Q, d, MP)
    w = np.linalg.eigvals(T) if np.isfinite(T).all() else np.array([-1.])
    return (np.abs(w.imag) < 1e-9).all() and (w.real > 0).all()


def waves(name, k):
    m, ps, Q = pick(name, k, D.rng)
    MP, J = par(m), mj(m)
    if k % 5 == 4:
        Q[1] -= Q[2:5] @ Q[2:5] / Q[0] / 2
        Q[2:5] = 0.
    sc, psc = scales(m, Q, ps), pscales(m, Q, ps)
    for d in range(3):
        c = dict(m=J, Q=F(Q), d=d + 1, sc=F(sc), psc=F(psc))
        D.emit("eigs", lam=F(S.max_abs_eigs(Q, d, MP)), **c)
        D.emit("tensor", T=F(S.thermo_acoustic_tensor(Q, d, MP)), **c)
    D.emit("eigen", R=F(S.multi.eigen(Q, 0, MP)), m=J, Q=F(Q), d=1, sc=F(sc), psc=F(psc))


def imag(a, b, d, MP, roe, a_scale):
    """How far the (averaged) matrices are from having real eigenvalues and well separated
    eigenvectors, to which rounding and differencing are sensitive."""
    x, w = np.polynomial.legendre.leggauss(N)
    Js = [S.system_matrix(b + (a - b) * (z + 1) / 2, d, MP) for z in x]
    if roe:
        Js = [sum(c / 2 * J for c, J in zip(w, Js))]
    sc = scales(*a_scale)
    es = [np.linalg.eig(J * sc / sc[:, None]) for J in Js]
    return max(np.abs(e.imag).max() / (np.abs(e).max() + 1e-300) for e, v in es) \
        + 1e-10 * max(np.linalg.cond(v) for e, v in es)


def moving(Q, v):
    """The same matter at another velocity."""
    P = Q.copy()
    P[1] += Q[0] * (np.dot(v, v) - Q[2:5] @ Q[2:5] / Q[0]**2) / 2
    P[2:5] = Q[0] * np.asarray(v)
    return P


def special(L, R):
    """Pairs with something exactly in common, or exactly at rest."""
    z, vL = np.zeros(3), L[2:5] / L[0]
    A = R.copy()
    A[5:14] = L[5:14]
    A[1] += 1e-3 * abs(A[1])
    one = [moving(R, [vL[k] if k == d else 0. for k in range(3)]) for d in range(3)]
    M = R.copy()
    M[2:5] = L[2:5]
    return [(moving(L, z), R), (L, moving(R, z)), (moving(L, z), moving(R, z)), (L, moving(R, vL)), (L, moving(R, -vL)),
            (L, A), (A, L), (L, M)] + [(L, q) for q in one] + [(q, L) for q in one]


def fluxes(name, k):
    rng = D.rng
    m, ps, L = pick(name, k, rng)
    MP, J = par(m), mj(m)
    if k % 6 == 1:
        L = moving(L, np.zeros(3))
    if k % 6 == 5:
        R = L.copy()
    else:
        for attempt in range(50):
            size = [.01, .1, .3][k % 3]
            q = state(rng, m, ps, shear=.05, comp=.05)
            z = L + size * (q - L)
            z[2:14] = L[2:14] + size * .2 * rng.normal(size=12) * scales(m, L, ps)[2:14]
            z[1] = L[1] * (1 + size * .1 * rng.normal())
            R = z
            lo, hi = sorted([L[0], R[0]])
            if m["EOS"] != SMG or lo / m["rho0"] > 1.008 or hi / m["rho0"] < .992:
                if all(hyperbolic(x, d, MP) for x in (L, R) for d in range(3)):
                    break
            m, ps, L = pick(name, k, rng)
            MP, J = par(m), mj(m)
    sc, fs = scales(m, L, ps), fscale(m, L, ps)
    for d in range(3):
        for scheme, fn in (("rusanov", FV.D_RUS), ("roe", FV.D_ROE), ("osher", FV.D_OSH)):
            for a, b in ((L, R), (R, L)):
                if b is L and (d + k) % 3:
                    continue
                D.emit("fluxpair", m=J, scheme=scheme, L=F(a), R=F(b), d=d + 1, sc=F(sc), fs=F(fs),
                       imag=F(0. if scheme == "rusanov" else imag(a, b, d, MP, scheme == "roe",
                                                                      (m, L, ps))),
                       outs=F([fn(a * (1 + j * 1e-13), b, d, MP) for j in (0, 1, -1)]))
        for a, b in [(L, R)] + special(L, R):
            D.emit("jump", m=J, L=F(a), R=F(b), d=d + 1, out=F(FV.Bint(a, b, d, MP)))


if __name__ == "__main__":
    D = Driver()
    fn, n = {"waves": (waves, D.n(8, 150)), "fluxes": (fluxes, D.n(6, 60))}[D.part]
    for nm in MATERIALS:
        for k in range(n):
            D.case(f"{D.part}/{nm}/{k}", fn, nm, k)
    D.done()
