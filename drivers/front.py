"""The Python front end: descriptions of materials and states, and the variables of states."""
import importlib.util
import os
import sys

from gprlib import *
from gpr.misc import objects, structures
from gpr.multi import get_material_index
from gpr.vars import hyp, wavespeeds

V = GPRpy.system.variables
BACK = {v: k for k, v in GREEK.items()}
BACK.update({"Γ0": "G0", "cα": "cal"})


def readout(P):
    """The parameters an object of the implementation holds."""
    d = {k: F(getattr(P, GREEK.get(k, k))) for k in FLOATS1}
    d["EOS"] = int(P.EOS)
    if isinstance(P, GPRpy.classes.Par):
        d.update({k: F(getattr(P, GREEK.get(k, k))) for k in FLOATS2})
        d.update({k: bool(getattr(P, k)) for k in BOOLS})
        d["REACTION"] = int(P.REACTION)
        d["dp"] = F(np.array(getattr(P, "δp")).reshape(-1))
        d["MP2"] = readout(P.MP2)
    return d


def described(kw):
    """The arguments as a record of the specification."""
    out, sec = {}, {}
    for k, v in kw.items():
        if v is None or k == "MULTI":
            continue
        x = v if isinstance(v, str) else F(v)
        if k.endswith("_2"):
            k = k[:-2]
            sec[BACK.get(k, k)] = x
        else:
            out[BACK.get(k, k)] = x
    if kw.get("MULTI"):
        sec["rho0"] = F(kw["ρ0"])
        out["second"] = sec
    return out


def phase_args(eos, rho0, sfx=""):
    rng = D.rng
    u = rng.uniform
    kw = {"EOS": eos}
    if eos == "sg":
        kw["γ"] = u(1.2, 5)
        if rng.random() < .5:
            kw["pINF"] = u(.1, 5)
    elif eos == "smg":
        kw.update({"c0": u(.3, 6), "Γ0": u(.5, 2.5), "s": u(1, 1.8)})
    elif eos == "gr":
        kw.update({"c0": u(.3, 6), "α": u(.5, 2), "γ": u(1.2, 2.5)})
        kw["β"] = u(0., 3.)
    elif eos == "jwl":
        kw.update({"Γ0": u(.25, 1.3), "A": u(2, 10), "B": u(.05, .3), "R1": u(3, 5), "R2": u(1, 2)})
    elif eos == "cc":
        kw.update({"Γ0": u(.25, 1.3), "A": u(.5, 1), "B": u(1, 2), "R1": u(3, 5), "R2": u(1.1, 2)})
    if rng.random() < .8 or sfx:
        kw["cv"] = u(.3, 3)
        if rng.random() < .5:
            kw["Tref"] = u(.1, 300.)
    if rng.random() < .85:
        kw["b0"] = u(.1, 3.)
        if eos != "gr" and rng.random() < .3:
            kw["β"] = u(.2, 2.)
    return {k + sfx: v for k, v in kw.items()}


def arguments(k, mixture=False):
    """Random arguments of material_params."""
    rng = D.rng
    u = rng.uniform
    eos = ["sg", "smg", "gr", "jwl", "cc"][k % 5]
    rho0 = u(.5, 9)
    kw = phase_args(eos, rho0)
    kw["ρ0"] = rho0
    if "b0" in kw:
        r = (k // 5) % 6
        if r == 1:
            kw["μ"] = 10.**u(-4, 0)
        elif r == 2:
            kw.update({"μ": 10.**u(-4, 0), "n": u(.5, 2.)})
        elif r == 3:
            kw.update({"σY": u(.01, 1), "τ0": u(.5, 2), "n": u(1, 20)})
        elif r == 4:
            kw.update({"μ": 10.**u(-4, 0), "σY": u(.01, 1)})
        elif r == 5:
            kw.update({"τ0": u(.5, 2)})
    if rng.random() < .5:
        kw["cα"] = u(.1, 3)
        if eos == "sg" and "cv" in kw and "μ" in kw and rng.random() < .6:
            kw["Pr"] = u(.5, 5)
        else:
            kw["κ"] = 10.**u(-4, 0)
    r = k % 4
    if r:
        kw["REACTION"] = "dai"[r - 1]
        kw["Qc"] = u(.1, 2)
        names = {"d": ["Kc", "Ti"], "a": ["Bc", "Ea", "Rc"],
                 "i": ["I", "G1", "G2", "a", "b", "c", "d", "e", "g", "x", "y", "z", "φI", "φG1", "φG2"]}
        kw.update({n: u(.1, .9) for n in names["dai"[r - 1]]})
        if "a" in kw and r == 3:
            kw.update(a=u(0, .1), x=float(rng.integers(1, 7)))
    if rng.random() < .4:
        kw["δp"] = rng.normal(size=3)
    if mixture:
        kw["MULTI"] = True
        kw["cv"] = kw.get("cv", 1.)
        e2 = ["sg", "jwl", "cc", "gr", "smg"][(k // 3) % 5]
        x = phase_args(e2, rho0, "_2")
        if "b0_2" in x and rng.random() < .5:
            x["μ_2"] = 10.**u(-4, 0)
            if rng.random() < .5:
                x["n_2"] = u(.5, 2)
        if rng.random() < .3:
            x["cα_2"] = u(.1, 3)
            if e2 == "sg" and "cv_2" in x and "μ_2" in x:
                x["Pr_2"] = u(.5, 5)
            else:
                x["κ_2"] = 10.**u(-4, 0)
        kw.update(x)
    return kw


def build(kw):
    x = dict(kw)
    return objects.material_params(x.pop("EOS"), x.pop("ρ0"), **x)


def params(k):
    kw = arguments(k, k % 3 == 1)
    D.emit("params", a=described(kw), p=readout(build(kw)))


def vacuum():
    P = objects.material_params(EOS="vac", ρ0=0)
    D.emit("params", a={"EOS": "vac"}, p=readout(P))


def repository():
    """The materials of the repository's own problems."""
    seen = []
    real = objects.material_params
    rh = objects.hyperelastic_params

    def record(*a, **kw):
        kw = dict(zip(["EOS", "ρ0"], a), **kw)
        P = real(**kw)
        seen.append((kw, P))
        return P

    def record_h(**kw):
        P = rh(**kw)
        D.emit("hyperparams", h={BACK.get(k, k): F(v) for k, v in kw.items()}, K0=F(P.K0), b02=F(P.b02),
               got={BACK.get(k, k): F(getattr(P, k)) for k in kw if k not in ("b0", "c0")})
        return P

    objects.material_params, objects.hyperelastic_params = record, record_h
    try:
        at = os.path.join(os.path.dirname(objects.__file__), "../../tests/params")
        for f in sorted(os.listdir(at)):
            if f.endswith(".py") and f != "__init__.py":
                s = importlib.util.spec_from_file_location("params_" + f[:-3], os.path.join(at, f))
                s.loader.exec_module(importlib.util.module_from_spec(s))
    finally:
        objects.material_params, objects.hyperelastic_params = real, rh
    for kw, P in seen:
        if kw["EOS"] == "vac":
            kw = {"EOS": "vac"}
        D.emit("params", a=described(kw), p=readout(P))


def of_par(P):
    """A material of the harness with the parameters of an object."""
    m = material(**{k: getattr(P, GREEK.get(k, k)) for k in FLOATS1 + FLOATS2 + BOOLS})
    m["EOS"] = int(P.EOS)
    return m


def shape(k, comp):
    """A distortion of determinant comp, nearly."""
    rng = D.rng
    s = np.exp(rng.normal(size=3) * [.2, .02, .5, 1e-6][k % 4])
    s *= (comp / s.prod())**(1 / 3)
    A = rand_rot(rng) @ np.diag(s) @ rand_rot(rng)
    return A if k % 3 else A * np.exp(rng.normal() * .1)


def describe(k, mixture):
    for _ in range(60):
        x = describe_(k, mixture)
        if not mixture or settled(x[2], of_phase(x[1].MP2), x[3], x[4], x[8]):
            return x
    return None


def describe_(k, mixture):
    """Arguments, material, and primitive variables."""
    rng = D.rng
    kw = arguments(k, mixture)
    kw.setdefault("b0", 1.)
    if not MULTI:       # reactions need the concentration
        kw.pop("REACTION", None)
    kw.setdefault("cv", 1.)
    if THERMAL and "cα" not in kw:
        kw.update({"cα": 1., "κ": 1.})
    if mixture:       # phases of similar temperatures
        for t in ("Tref", "Tref_2"):
            if t in kw:
                kw[t] /= 300.
    P = build(kw)
    m = of_par(P)
    lam = None
    if MULTI:
        lam = [1., rng.uniform(.05, .95), 0., rng.uniform(.2, 1.), 1.][k % 5]
    r = m["rho0"] * np.exp(rng.normal() * [.02, .2][k % 2])
    one = of_phase(P.MP2) if mixture and lam == 0. else m
    e, G, pr = eos_e(one, r, 0.)
    p = abs(pr) + 10.**rng.uniform(-1, 1) if k % 2 or mixture else 10.**rng.uniform(-2, 2)
    v = rng.normal(size=3)
    A = shape(k, r / m["rho0"])
    J = rng.normal(size=3) if THERMAL else None
    return kw, P, m, r, p, v, A, J, lam


def temperature(m, r, p):
    e, G, pr = eos_e(m, r, p)
    x = r / m["rho0"]
    f = np.exp(m["G0"] * (1 - 1 / x)) if m["EOS"] == SMG else \
        x**(m["gamma"] - 1 if m["EOS"] == SG else m["gamma"] if m["EOS"] == GR else m["G0"])
    return f * m["Tref"] + (p - pr) / (r * G * m["cv"])


def settled(m, n, r, p, lam):
    """Whether exactly one pair of densities has the pressure p and equal temperatures, and exactly one the energy."""
    if not 0 < lam < 1:
        return True
    al = np.concatenate([np.geomspace(1e-7, .01, 60), np.linspace(.011, .989, 400), 1 - np.geomspace(.01, 1e-7, 60)])

    def at(a):
        return lam * r / a, (1 - lam) * r / (1 - a)

    def energy(a, q):
        x, y = at(a)
        return lam * eos_e(m, x, q)[0] + (1 - lam) * eos_e(n, y, q)[0]

    g = [temperature(m, at(a)[0], p) - temperature(n, at(a)[1], p) for a in al]
    z = [i for i in range(len(al) - 1) if g[i] * g[i + 1] <= 0]
    if len(z) != 1 or not np.isfinite(g).all():
        return False
    e = energy(al[z[0]], p)
    h = []
    for a in al:
        e0, e1 = energy(a, 0.), energy(a, 1.)
        q = (e - e0) / (e1 - e0)
        h.append(temperature(m, at(a)[0], q) - temperature(n, at(a)[1], q))
    return np.isfinite(h).all() and sum(h[i] * h[i + 1] <= 0 for i in range(len(al) - 1)) == 1


def of_phase(q):
    m = material(**{k: getattr(q, GREEK.get(k, k)) for k in FLOATS1})
    m["EOS"] = int(q.EOS)
    return m


def scale(m, P, Q, r, p, lam, A, v, J):
    """Magnitude of the terms that cancel in the pressure."""
    out = 0.
    for q in [m] + ([of_phase(P.MP2)] if P.MULTI else []):
        e, G, pr = eos_e(q, r, p)
        cs = m["b02"] * (r / m["rho0"])**m["beta"] * (A * A).sum()**2
        e2 = v @ v + abs(e) + (m["cal2"] * J @ J if THERMAL else 0.) + abs(m["Qc"]) + cs * (1 + m["beta"] / G)
        out += abs(p) + abs(pr) + r * G * (e2 + abs(Q[1] / r))
    return out


def full(Q):
    return np.concatenate([Q, np.zeros(LSET)])


def cvec(k, mixture):
    x = describe(k, mixture)
    if x is None:
        return
    kw, P, m, r, p, v, A, J, lam = x
    A0, v0 = A.copy(), v.copy()
    Q = full(structures.Cvec(r, p, v, P, A, J, lam))
    assert (A == A0).all() and (v == v0).all()
    sol = V.solve_multi(Q, P) if mixture else [p, r, r]
    D.emit("cvec", m=readout(P), r=F(r), p=F(p), v=F(v), A=F(A), J=F(J if THERMAL else []), lam=F(0. if lam is None else lam),
           Q=F(Q), solver=F(V.pressure(Q, P)), sol=F(sol), ps=F(scale(m, P, Q, r, p, lam, A, v, J)))


def state_(k, mixture):
    x = describe(k, mixture)
    if x is None:
        return
    kw, P, m, r, p, v, A, J, lam = x
    Q = full(structures.Cvec(r, p, v, P, A, J, lam))
    if k % 7 == 3 and LSET:
        Q[NV - LSET:] = D.rng.normal(size=LSET)
    S = structures.State(Q, P)
    dA = S.dσdA()
    g = dict(r=S.ρ, E=S.E, v=S.v, A=S.A, G=S.G(), p=S.p(), T=S.T(), sig=S.σ(), Sig=S.Σ(), dsdr=S.dσdρ(), dEdr=S.dEdρ(),
             dEdp=S.dEdp(), dEdA=S.dEdA(), psi=S.ψ(), dTdr=S.dTdρ(), dTdp=S.dTdp(), th1=S.θ1_1(), f=S.f_body(),
             dsdA=[dA[:, :, a, b] for a in range(3) for b in range(3)])
    if THERMAL:
        g.update(J=S.J, H=S.H(), q=S.q(), th2=S.θ2_1())
    if MULTI:
        g["lam"] = S.λ
        if P.REACTION > -1:
            g["K"] = S.K()
            if k % 3 == 1 and P.REACTION == 0:       # on either side of the threshold
                P.Ti = S.T() * (1 + .2 * D.rng.normal())
                g["K"] = S.K()
    if P.σY > 0:
        g["pd"] = S.plastic_deformation()
    sol = V.solve_multi(Q, P) if mixture else [p, r, r]
    D.emit("state", m=readout(P), Q=F(Q), p=F(p), got={a: F(b) for a, b in g.items()}, sol=F(sol),
           ps=F(scale(m, P, Q, r, p, lam, A, v, J)))


def speeds(k):
    kw, P, m, r, p, v, A, J, lam = describe(k, False)
    e, G, pr = eos_e(m, r, 0.)
    p = abs(pr) + 10.**D.rng.uniform(-1, 1)
    T = abs(D.rng.normal()) + .1
    if m["EOS"] in (GR, SMG) or m["beta"]:
        A = (r / m["rho0"])**(1 / 3) * np.eye(3) + .01 * D.rng.normal(size=(3, 3))
    D.emit("speeds", m=readout(P), r=F(r), p=F(p), A=F(A), T=F(T), c0=F(wavespeeds.c_0(r, p, A, P)),
           cinf=F(wavespeeds.c_inf(r, p, A, P)), ch=F(wavespeeds.c_h(r, T, P)))


def hyper(k):
    rng = D.rng
    u = rng.uniform
    kw = {"ρ0": u(1, 9), "α": u(.5, 2), "β": u(1, 4), "γ": u(1.2, 2.5), "cv": 10.**u(-4, 0), "T0": u(200, 400)}
    kw["b0"] = u(.5, 3)
    kw["c0"] = kw["b0"] * u(1.5, 3)
    H = objects.hyperelastic_params(**kw)
    D.emit("hyperparams", h={BACK.get(a, a): F(v) for a, v in kw.items()}, K0=F(H.K0), b02=F(H.b02),
           got={BACK.get(a, a): F(getattr(H, a)) for a in kw if a not in ("b0", "c0")})
    s = np.exp(rng.normal(size=3) * .1)
    X = rand_rot(rng) @ np.diag(s) @ rand_rot(rng) if k % 3 else np.eye(3)
    v = rng.normal(size=3)
    S = rng.normal() * kw["cv"] * [1., 1e-3, 0.][k % 3]
    Q = hyp.Cvec_hyp(X, S, v, H)
    r, A = Q[0], Q[5:14].reshape(3, 3)
    c0 = np.sqrt(H.K0)
    P = objects.material_params("gr", kw["ρ0"], cv=kw["cv"], Tref=kw["T0"], c0=c0, α=kw["α"], β=kw["β"], γ=kw["γ"],
                                b0=kw["b0"])
    Z = np.concatenate([Q, np.zeros(NV - 14)])
    D.emit("hyper", m=readout(P), h={BACK.get(a, a): F(x) for a, x in kw.items()}, F=F(X), S=F(S), v=F(v), Q=F(Z),
           back=F(hyp.entropy_hyp(Q[1] / r, A, v, H)), T=F(hyp.temperature_hyp(S, A, H)),
           stress=F(hyp.Sigma_hyp(r, A, S, H)), p=F(hyp.pressure_hyp(r, A, S, H)), solver=F(V.pressure(Z, P)))


def index(k):
    Q = np.concatenate([D.rng.normal(size=NV - LSET), D.rng.choice([-1., 0., 1., 1e-12, -1e-12], size=LSET)])
    D.emit("index", Q=F(Q), index=int(get_material_index(Q, LSET + 1)))


D = Driver()
D.case("repository", repository)
D.case("vacuum", vacuum)
for k in range(D.n(300, 3000)):
    D.case(f"params/{k}", params, k)
for k in range(D.n(300, 3000)):
    D.case(f"cvec/{k}", cvec, k, False)
for k in range(D.n(200, 2000)):
    D.case(f"state/{k}", state_, k, False)
if MULTI:
    for k in range(D.n(150, 1500)):
        D.case(f"cvec/mixture/{k}", cvec, k, True)
    for k in range(D.n(150, 1500)):
        D.case(f"state/mixture/{k}", state_, k, True)
for k in range(D.n(100, 1000)):
    D.case(f"speeds/{k}", speeds, k)
for k in range(D.n(100, 1000)):
    D.case(f"hyper/{k}", hyper, k)
for k in range(D.n(40, 400)):
    D.case(f"index/{k}", index, k)
D.done()
