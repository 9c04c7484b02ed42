"""Two-phase mixtures and reactions."""
from gprlib import *

S = GPRpy.system
X = S.variables
SP = GPRpy.solvers.split
R = dict(b02=1., mu=1e-3, cal2=1., kappa=1e-2, T0=1.)


def mix(m1, m2):
    return dict(m1, MULTI=True, MP2=m2)


AIR_M = mix(material(EOS=SG, rho0=1.2, cv=718., gamma=1.4, b02=50.**2, **{k: R[k] for k in ("mu", "cal2", "kappa", "T0")}),
            material(EOS=SG, rho0=1.2, cv=1000., gamma=1.25))
WATER_M = mix(material(EOS=SG, rho0=1000., cv=950., gamma=4.4, pINF=6e8, **R),
              material(EOS=SG, rho0=1000., cv=1000., gamma=2., pINF=1e8))
PBX_M = mix(material(EOS=SG, rho0=1., cv=1., gamma=2.85, **R),
            material(EOS=JWL, rho0=1., cv=.8, G0=.25, A=8.5, B=.2, R1=4.6, R2=1.35))
HOT_M = mix(material(EOS=JWL, rho0=1.84, cv=1., G0=.6, A=8.5, B=.2, R1=4.6, R2=1.3, **R),
            material(EOS=JWL, rho0=1.84, cv=.8, G0=.4, A=6., B=.15, R1=4.4, R2=1.2))
SMG_M = mix(material(EOS=SMG, rho0=1., cv=1., G0=1.2, c02=.5, s=1.5, **R), material(EOS=SG, rho0=1., cv=1.3, gamma=1.4))
CC_M = mix(material(EOS=CC, rho0=1.13, cv=1.2, G0=1.19, A=.8, B=1.6, R1=4.53, R2=1.42, **dict(R, b02=.05**2)),
           material(EOS=SG, rho0=1.13, cv=1., gamma=1.3))
SG_M = mix(material(EOS=SG, rho0=1., cv=1., gamma=1.4, **R), material(EOS=SG, rho0=1., cv=1.5, gamma=1.6, pINF=.3))
TWIN = mix(material(EOS=SG, rho0=1., cv=1., gamma=1.4, **R), material(EOS=SG, rho0=1., cv=1., gamma=1.4))
C4 = mix(material(EOS=JWL, rho0=1601., cv=2.5e6 / 1601, G0=.8938, A=7.781e13, B=-5.031e9, R1=11.3, R2=1.13,
                  **dict(R, b02=1487.**2)),
         material(EOS=JWL, rho0=1601., cv=1e6 / 1601, G0=.5, A=6.0977e11, B=1.295e10, R1=4.5, R2=1.4))
MIX = {"air": (AIR_M, 1e5), "water": (WATER_M, 1e8), "pbx": (PBX_M, 5.), "hot": (HOT_M, 1.), "smg": (SMG_M, 1.),
       "cc": (CC_M, 2.), "sg": (SG_M, 1.), "twin": (TWIN, 1.), "c4": (C4, 1e10)}


def T(m, r, p):
    e, G, pr = eos_e(m, r, p)
    x = r / m["rho0"]
    if m["EOS"] == SMG:
        f = np.exp(m["G0"] * (1 - 1 / x))
    elif m["EOS"] == SG:
        f = x**(m["gamma"] - 1)
    else:
        f = x**m["G0"]
    return f * m["Tref"] + (p - pr) / (r * G * m["cv"])


def lams(k):
    rng = D.rng
    return [rng.uniform(.02, .98), rng.uniform(.02, .98), 10.**rng.uniform(-6, -1), 1 - 10.**rng.uniform(-6, -1),
            rng.uniform(.3, .7), 1., 0., 1 + 1e-9, -1e-9][k % 9]


def mixture(m, ps, lam, scale=1.):
    """A state of phases in equilibrium, whose densities differ if possible."""
    rng = D.rng
    m2 = m["MP2"]
    for _ in range(200):
        if not 0 < lam < 1:
            one = m if lam > .5 else m2
            r = one["rho0"] * rng.uniform(.8, 1.3)
            p = ps * rng.uniform(.3, 2.)
            e = eos_e(one, r, p)[0]
            break
        r1 = m["rho0"] * np.exp(rng.normal() * .15)
        p = ps * rng.uniform(.3, 2.)
        t = T(m, r1, p)
        if t <= 0:
            continue
        a, b = r1 / 4, r1 * 4
        f = lambda r: T(m2, r, p) - t
        if f(a) * f(b) > 0:
            continue
        for _ in range(100):
            c = np.sqrt(a * b)
            if f(a) * f(c) <= 0:
                b = c
            else:
                a = c
        r2 = b
        r = 1 / (lam / r1 + (1 - lam) / r2)
        e = lam * eos_e(m, r1, p)[0] + (1 - lam) * eos_e(m2, r2, p)[0]
        break
    else:
        return None
    c = np.sqrt(abs(p) / r)
    v = rng.normal(size=3) * c * .5
    U, W = rand_rot(rng), rand_rot(rng)
    s = np.exp(rng.normal(size=3) * .05)
    s *= ((r / m["rho0"]) / s.prod())**(1 / 3)
    A = U @ np.diag(s) @ W
    Q = cons(m, r, 0., v, A, rng.normal(size=3) * .1 * c if THERMAL else None, lam, rng.normal(size=LSET))
    e0 = lam * eos_e(m, r, 0.)[0] + (1 - lam) * eos_e(m2, r, 0.)[0]
    Q[1] += r * (e - e0)
    return Q


def rate_law(m, ps, r, t, k):
    """Rate laws that consume the reactant in a time of about 1."""
    rng = D.rng
    w = dict(m, REACTION=k % 3, Qc=0. if k % 5 == 0 else .2 * ps / m["rho0"] * rng.uniform(0, 2))
    if w["REACTION"] == 0:
        w.update(Kc=np.exp(rng.normal()), Ti=t * rng.choice([.5, .9, 1.1, 1.5]))
    elif w["REACTION"] == 1:
        z = rng.uniform(.5, 5)
        w.update(Bc=np.exp(z), Rc=rng.uniform(.5, 2), Ea=0.)
        w["Ea"] = z * w["Rc"] * t
    else:
        w.update(I=rng.uniform(0, 50), a=rng.uniform(-.05, .2), b=rng.choice([.667, 1., 2.]), c=rng.choice([.667, 1.]),
                 d=rng.choice([.333, .667, 1.]), e=rng.choice([.333, 1.]), g=rng.choice([.667, 1.]),
                 x=rng.choice([4., 7., 20., 1.5, 2.]), y=rng.choice([1., 2., 1.2]), z=rng.choice([2., 3.]),
                 phiI=rng.choice([.3, .022, 1.]), phiG1=rng.choice([.3, .5, 1.]), phiG2=rng.choice([0., .3, .5]))
        w.update(G1=rng.uniform(0, 1) / ps**w["y"], G2=rng.uniform(0, 1) / ps**w["z"])
    return w


def temperature_of(Q, m):
    return X.temperature(Q, par(m))


def setup(name, k):
    m, ps = MIX[name]
    m = dict(m)
    Q = mixture(m, ps, lams(k))
    if Q is None:
        return None
    if k % 3 == 2:
        m["REACTION"] = -1
    else:
        w = rate_law(m, ps, Q[0], temperature_of(Q, m), k)
        lam = Q[MV] / Q[0]
        Q[1] += Q[0] * w["Qc"] * (lam - 1)
        m = w
    return m, ps, Q


def mixed(name, k):
    r = setup(name, k)
    if r is None:
        return
    m, ps, Q = r
    MP = par(m)
    D.emit("mixture", m=mj(m), Q=F(Q), ps=F(ps), out=F(X.solve_multi(Q, MP)), p=F(X.pressure(Q, MP)),
           T=F(X.temperature(Q, MP)), name=name)
    lam = Q[MV] / Q[0]
    if .02 <= lam <= .98 and not THERMAL and k % 2 == 0:
        sc = scales(m, Q, ps)
        c = np.sqrt(ps / Q[0])
        f = sc * c
        f[2:5] = sc[0] * c * c + np.abs(Q[2:5]).max()**2 / Q[0] + ps
        f[1] = sc[1] * c + ps * c
        sc[MV] *= min(lam, 1 - lam)
        for d in range(3):
            fl = np.zeros(NV)
            S.flux(fl, Q, d, MP)
            D.emit("jacobian", m=mj(m), Q=F(Q), d=d + 1, sc=F(sc), fs=F(f), out=F(X.solve_multi(Q, MP)),
                   M=F(S.system_matrix(Q, d, MP)), dFdP=F(S.dFdP(Q, d, MP)), dPdQ=F(S.dPdQ(Q, MP)), flux=F(fl), name=name)


def one_phase(name):
    """A reactant of one phase."""
    rng = D.rng
    m = dict(MATERIALS[name])
    ps = PSCALE[name]
    lam = [1., rng.uniform(0, 1), rng.uniform(0, 1), 1e-8, 0., -1e-3, 1.001][rng.integers(7)]
    Q = state(rng, m, ps, shear=.02, comp=.1, lam=lam)
    return m, ps, Q


def reacting(name, k):
    rng = D.rng
    if name in MIX:
        m, ps = MIX[name]
        m = dict(m)
        lam = [lams(k // 3), rng.uniform(.1, .9)][k % 2]
        Q = mixture(m, ps, lam)
        if Q is None:
            return
    else:
        m, ps, Q = one_phase(name)
    lam = Q[MV] / Q[0]
    t = temperature_of(Q, m)
    m = rate_law(m, ps, Q[0], t, k)
    if k % 13 == 7:
        m["REACTION"] = -1
    else:
        Q[1] += Q[0] * m["Qc"] * (lam - 1)
    MP = par(m)
    J = mj(m)
    out = X.solve_multi(Q, MP) if m["MULTI"] else np.array([X.pressure(Q, MP), Q[0], Q[0]])
    if m["REACTION"] > -1:
        D.emit("rate", m=J, Q=F(Q), out=F(out), rate=F(X.reaction_rate(Q, MP)), name=name)
    dt = 10.**rng.uniform(-2, .5)
    if k % 7 == 3:
        dt *= 1e3
    q = Q.copy()
    SP.ode_stepper_numerical(q, dt, MP)
    D.emit("react", m=J, Q=F(Q), out=F(out), dt=F(dt), Q1=F(q), name=name)


def launch(name, k):
    """The reaction of a field is that of its cells, after their relaxation."""
    cells, m = [], None
    for _ in range(3):
        if name in MIX:
            base, ps = MIX[name]
            Q = mixture(base, ps, D.rng.uniform(.1, .9))
            base = dict(base)
        else:
            base, ps, Q = one_phase(name)
        if Q is None:
            return
        if m is None:
            m = rate_law(base, ps, Q[0], temperature_of(Q, base), k)
        cells.append(Q)
    MP = par(m)
    u = np.concatenate(cells)
    dt = .3
    u1 = u.copy()
    SP.ode_launcher(u1, dt, MP)
    one = []
    for Q in cells:
        q = Q.copy()
        q[2:5] += dt * np.array(m["dp"])
        SP.analyticSolver_distortion(q, dt, MP)
        if THERMAL:
            SP.analyticSolver_thermal(q, dt, MP)
        SP.ode_stepper_numerical(q, dt, MP)
        one.append(q)
    D.emit("launch", u=F(u), u1=F(u1), one=F(np.concatenate(one)), name=name)


D = Driver()
for nm in MIX:
    for k in range(D.n(18, 100)):
        D.case(f"mix/{nm}/{k}", mixed, nm, k)
for nm in list(MIX) + ["air_nd", "water_nd", "jwl", "cc", "copper"]:
    for k in range(D.n(18, 100)):
        D.case(f"react/{nm}/{k}", reacting, nm, k)
    for k in range(D.n(3, 12)):
        D.case(f"launch/{nm}/{k}", launch, nm, k)
D.done()
