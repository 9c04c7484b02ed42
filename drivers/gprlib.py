"""Support for the drivers: they run the built implementation and record what it does."""
import argparse
import json
import os
import sys
import traceback

import numpy as np
import GPRpy

RESUME_EXIT = 0


def F(x):
    """A number, or an array of numbers, as the <<hi, lo>> pairs of the specification."""
    a = np.asarray(x, dtype=np.float64)
    p = np.ascontiguousarray(a.reshape(-1)).view("<i4").reshape(-1, 2)[:, ::-1]
    return p.reshape(a.shape + (2,)).tolist()


class Driver:
    def __init__(self):
        ap = argparse.ArgumentParser()
        ap.add_argument("--out", required=True)
        ap.add_argument("--tier", default="quick")
        ap.add_argument("--seed", type=int, default=1)
        ap.add_argument("--resume", type=int, default=0)
        ap.add_argument("--only", default=None)
        ap.add_argument("--part", default="")
        self.args = ap.parse_args()
        self.thorough = self.args.tier == "thorough"
        self.part = self.args.part
        self.index = 0
        self.fh = open(self.args.out, "a")
        self.side = open(self.args.out + ".at", "w")
        self.rng = None
        self.label = None

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def case(self, label, fn, *a):
        """Runs one case; what it emits is recorded under its label."""
        i = self.index
        self.index += 1
        if i < self.args.resume or (self.args.only and self.args.only != label):
            return
        self.side.seek(0)
        self.side.truncate()
        self.side.write(f"{i}\n{label}\n")
        self.side.flush()
        self.label = label
        # crc32 rather than hash(): stable between runs
        import zlib
        self.rng = np.random.default_rng([self.args.seed, zlib.crc32(label.encode())])
        try:
            fn(*a)
        except Exception:
            self.emit("exception", what="raised " + traceback.format_exc()[-1500:].replace("Error:", "Error -").replace("\n", " | "))
        self.fh.flush()

    def emit(self, ev, **kw):
        kw["ev"] = ev
        kw["case"] = self.label
        self.fh.write(json.dumps(kw) + "\n")

    def done(self):
        self.fh.close()
        self.side.seek(0)
        self.side.truncate()
        self.side.write("done\n")
        self.side.close()
        sys.stdout.flush()
        os._exit(0)


# ---------------------------------------------------------------- materials

GREEK = {"rho0": "ρ0", "G0": "Γ0", "alpha": "α", "beta": "β", "gamma": "γ", "mu": "μ",
         "tau0": "τ0", "sigY": "σY", "cal2": "cα2", "kappa": "κ", "dp": "δp",
         "phiI": "φI", "phiG1": "φG1", "phiG2": "φG2"}
FLOATS1 = ["rho0", "Tref", "cv", "pINF", "G0", "c02", "s", "alpha", "beta", "gamma",
           "A", "B", "R1", "R2", "b02", "mu", "tau0", "sigY", "n", "cal2", "kappa"]
FLOATS2 = ["T0", "Qc", "Kc", "Ti", "Bc", "Ea", "Rc", "I", "G1", "G2", "a", "b", "c", "d",
           "e", "g", "x", "y", "z", "phiI", "phiG1", "phiG2"]
BOOLS = ["SOLID", "POWER_LAW", "BINGHAM", "MULTI"]
SG, SMG, JWL, CC, GR, VACUUM = 0, 1, 2, 3, 4, -1

DEFAULTS = dict({k: 0. for k in FLOATS1 + FLOATS2}, EOS=SG, SOLID=False, POWER_LAW=False,
                BINGHAM=False, MULTI=False, REACTION=-1, dp=[0., 0., 0.], n=1., T0=300.)


def material(**kw):
    m = dict(DEFAULTS)
    m.update(kw)
    return m


def _fill(o, m, names):
    for k in names:
        setattr(o, GREEK.get(k, k), m[k])


def par(m):
    """The implementation's parameter object."""
    o = GPRpy.classes.Par()
    o.EOS = m["EOS"]
    _fill(o, m, FLOATS1 + FLOATS2 + BOOLS)
    o.REACTION = m["REACTION"]
    setattr(o, "δp", np.array(m["dp"], dtype=float))
    if m.get("MP2"):
        o.MP2 = phase(m["MP2"])
    return o


def phase(m):
    q = GPRpy.classes.Params()
    q.EOS = m["EOS"]
    _fill(q, m, FLOATS1)
    return q


def mj(m):
    """The material as a record of the specification."""
    r = {k: F(m[k]) for k in FLOATS1}
    r["EOS"] = m["EOS"]
    if "SOLID" in m:
        r.update({k: F(m[k]) for k in FLOATS2})
        r.update({k: bool(m[k]) for k in BOOLS})
        r["REACTION"] = m["REACTION"]
        r["dp"] = F(m["dp"])
        if m.get("MP2"):
            r["MP2"] = mj(m["MP2"])
    return r


THERMAL = GPRpy.options.THERMAL()
MULTI = GPRpy.options.MULTI()
LSET = GPRpy.options.LSET()
NV = GPRpy.options.NV()
N = GPRpy.options.N()
MV = 14 + 3 * THERMAL

# materials, in the units of the repository's own problems
AIR = material(EOS=SG, rho0=1.18, Tref=0., cv=718., gamma=1.4, pINF=0., b02=55.**2, beta=0.,
               mu=1.85e-5, cal2=50.**2, kappa=0.026, T0=300.)
AIR_ND = material(EOS=SG, rho0=1., cv=2.5, gamma=1.4, pINF=0., b02=1., mu=1e-2, cal2=4.,
                  kappa=1e-2, T0=1.)
WATER = material(EOS=SG, rho0=997., cv=950., gamma=4.4, pINF=6e8, b02=1., mu=1e-3, cal2=1.,
                 kappa=0.6)
WATER_ND = material(EOS=SG, rho0=1., cv=1., gamma=4.4, pINF=6., b02=1., mu=1e-3, cal2=1e-2,
                    kappa=.6)
COPPER = material(EOS=SMG, rho0=8.9, Tref=0., cv=4e-4 * 1e3, G0=2., c02=.394**2, s=1.48,
                  b02=.219**2, beta=0., SOLID=True, POWER_LAW=True, tau0=1., sigY=.0045, n=10.,
                  cal2=.5**2, kappa=4e-3)
COPPER_EL = dict(COPPER, POWER_LAW=False)
ALUMINIUM = material(EOS=GR, rho0=2.71, cv=9e-4 * 1e3, c02=5.037**2, alpha=1., beta=3.577,
                     gamma=2.088, b02=3.16**2, SOLID=True, POWER_LAW=True, tau0=1., sigY=.4,
                     n=7., cal2=2.**2, kappa=2e-3)
ALU_SMG = material(EOS=SMG, rho0=2.785, cv=9e-1, G0=2., c02=5.328**2, s=1.338, b02=3.15**2,
                   beta=0., SOLID=True, POWER_LAW=True, tau0=1., sigY=.4, n=20., cal2=1.,
                   kappa=2e-3)
JWL_A = material(EOS=JWL, rho0=1.84, cv=1., G0=.6, A=8.5, B=.2, R1=4.6, R2=1.3, b02=.05**2,
                 mu=1e-3, cal2=.1**2, kappa=1e-3)
CC_A = material(EOS=CC, rho0=1.13, cv=1.2, G0=1.19, A=.8, B=1.6, R1=4.53, R2=1.42, b02=.05**2,
                mu=1e-3, cal2=.1**2, kappa=1e-3)
POWER = material(EOS=SG, rho0=1., cv=1., gamma=1.4, b02=1., mu=1e-2, n=1.5, POWER_LAW=True,
                 cal2=1., kappa=1e-2)
SHEARTHIN = dict(POWER, n=.7)
BINGHAM = material(EOS=SG, rho0=1., cv=1., gamma=1.4, b02=1., mu=1e-2, sigY=.05, BINGHAM=True,
                   cal2=1., kappa=1e-2, dp=[.5, 0., 0.])
MATERIALS = {"air": AIR, "air_nd": AIR_ND, "water": WATER, "water_nd": WATER_ND,
             "copper": COPPER, "copper_el": COPPER_EL, "alu_gr": ALUMINIUM, "alu_smg": ALU_SMG,
             "jwl": JWL_A, "cc": CC_A, "power": POWER, "shearthin": SHEARTHIN,
             "bingham": BINGHAM}
# a typical pressure of each material
PSCALE = {"air": 1e5, "air_nd": 1., "water": 1e7, "water_nd": 1., "copper": .1, "copper_el": .1,
          "alu_gr": 2., "alu_smg": 2., "jwl": .5, "cc": .2, "power": 1., "shearthin": 1.,
          "bingham": 1.}

# the size of perturbations that plastic materials stand without stiff relaxation
AMP = {"copper": .002, "alu_gr": .001, "alu_smg": .006}


# --------------------------------------- the model's energy, for building states

def eos_e(m, r, p):
    """Specific microscale energy at density r and pressure p (to build states only)."""
    x = m["rho0"] / r
    E = m["EOS"]
    if E == SG:
        G, pr, er = m["gamma"] - 1, -m["pINF"], m["pINF"] / r
    elif E == SMG:
        G = m["G0"] * x
        dv = 1 / m["rho0"] - 1 / r
        if r > m["rho0"]:
            pr = m["c02"] * dv / (1 / m["rho0"] - m["s"] * dv)**2
            er = .5 * pr * dv
        else:
            pr, er = m["c02"] * (r - m["rho0"]), 0.
    elif E == GR:
        G = m["gamma"]
        t = (r / m["rho0"])**m["alpha"]
        pr = m["c02"] * r / m["alpha"] * (t - 1) * t
        er = m["c02"] / (2 * m["alpha"]**2) * (t - 1)**2
    elif E == JWL:
        G = m["G0"]
        a, b = np.exp(-m["R1"] * x), np.exp(-m["R2"] * x)
        pr = m["A"] * a + m["B"] * b
        er = (m["A"] / m["R1"] * a + m["B"] / m["R2"] * b) / m["rho0"]
    else:
        G = m["G0"]
        pr = m["A"] * x**-m["R1"] - m["B"] * x**-m["R2"]
        er = (-m["A"] / (1 - m["R1"]) * (x**(1 - m["R1"]) - 1)
              + m["B"] / (1 - m["R2"]) * (x**(1 - m["R2"]) - 1)) / m["rho0"]
    return er + (p - pr) / (r * G), G, pr


def cons(m, r, p, v, A, J=None, lam=None, phi=None):
    """A vector of conserved variables with the given primitive ones."""
    A = np.asarray(A, float)
    v = np.asarray(v, float)
    if m.get("MP2") and lam is not None:
        e = lam * eos_e(m, r, p)[0] + (1 - lam) * eos_e(m["MP2"], r, p)[0]
        G = eos_e(m, r, p)[1]
    else:
        e, G, _ = eos_e(m, r, p)
    C = A.T @ A
    D = C - np.trace(C) / 3 * np.eye(3)
    cs2 = m["b02"] * (r / m["rho0"])**m["beta"]
    E = e + v @ v / 2 + (1 - m["beta"] / G) * cs2 / 4 * (D * D).sum()
    if THERMAL:
        J = np.zeros(3) if J is None else np.asarray(J, float)
        E += m["cal2"] * J @ J / 2
    if m.get("REACTION", -1) > -1 and lam is not None:
        E += m["Qc"] * (lam - 1)
    Q = np.zeros(NV)
    Q[0] = r
    Q[1] = r * E
    Q[2:5] = r * v
    Q[5:14] = A.reshape(-1)
    if THERMAL:
        Q[14:17] = r * J
    if MULTI:
        Q[MV] = r * (1. if lam is None else lam)
    if phi is not None:
        Q[NV - LSET:] = phi
    return Q


def rand_rot(rng):
    q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    return q * np.sign(np.linalg.det(q))


def state(rng, m, ps, shear=.15, comp=.15, vel=1., phi=None, lam=None, det=True, J=1.):
    """A random admissible state: rho = rho0 det A unless det is False."""
    r = m["rho0"] * np.exp(rng.normal() * comp)
    U, W = rand_rot(rng), rand_rot(rng)
    s = np.exp(rng.normal(size=3) * shear)
    s *= ((r / m["rho0"]) / s.prod())**(1 / 3)
    A = U @ np.diag(s) @ W
    if not det:
        A = A * np.exp(rng.normal() * .1)
    e, G, pr = eos_e(m, r, ps)
    p = ps * np.exp(rng.normal() * .5)
    if m["EOS"] in (SMG, GR, JWL, CC):
        p = pr + abs(p)
    c = np.sqrt(abs(p) / r + m["b02"] + m["c02"])
    v = rng.normal(size=3) * c * .5 * vel
    Jv = rng.normal(size=3) * J * np.sqrt((abs(e) + 1e-3) / m["cal2"]) * .1 if THERMAL else None
    if phi is None:
        phi = rng.normal(size=LSET)
    return cons(m, r, p, v, A, Jv, lam, phi)


def field(rng, m, ps, nX, amp=.02, jump=0., noise=.2, vel=.1, phi=None, lam=None, J=1.):
    """The cells of a grid of admissible states: one base state, smooth waves, some noise, and
    optionally a jump of the given size."""
    nX = [int(x) for x in nX]
    r0 = m["rho0"] * np.exp(rng.normal() * amp)
    R = rand_rot(rng)
    e, G, pr = eos_e(m, r0, ps)
    c = np.sqrt(abs(ps) / r0 + m["b02"] + m["c02"])
    v0 = rng.normal(size=3) * c * vel
    nd = len(nX)
    k = rng.integers(-2, 3, size=(17, nd))
    ph = rng.uniform(0, 6.3, size=17)
    w = rng.normal(size=17)
    at = rng.integers(0, max(1, nX[0]))
    dj = rng.normal(size=17) * jump
    out = []
    for i in np.ndindex(*nX):
        x = (np.array(i) + .5) / np.array(nX)
        z = amp * (w * np.cos(2 * np.pi * (k @ x) + ph) + noise * rng.normal(size=17))
        if i[0] > at:
            z = z + dj
        r = r0 * np.exp(z[0])
        X = np.eye(3) + .5 * z[1:10].reshape(3, 3)
        X *= ((r / m["rho0"]) / np.linalg.det(X))**(1 / 3)
        pr = eos_e(m, r, ps)[2]
        p = (pr if m["EOS"] in (SMG, GR, JWL, CC) else 0.) + ps * np.exp(z[10])
        v = v0 + c * z[11:14]
        Jv = J * z[14:17] * np.sqrt((abs(e) + 1e-3) / m["cal2"]) if THERMAL else None
        f = phi if phi is None or np.ndim(phi) == 1 else phi[i]
        l = lam(rng) if callable(lam) else lam
        out.append(cons(m, r, p, v, R @ X, Jv, l, np.zeros(LSET) if f is None else f))
    return np.array(out).reshape(-1)


def max_eig(u, nd, MP):
    nv = NV
    return max(GPRpy.system.max_abs_eigs(u[i * nv:(i + 1) * nv], d, MP)
               for i in range(len(u) // nv) for d in range(nd))


def scales(m, Q, ps):
    """Magnitude of each conserved variable, for differences and tolerances."""
    s = np.ones(NV)
    r = Q[0]
    c = np.sqrt(abs(ps) / r + m["b02"] + m["c02"] + (Q[2:5] @ Q[2:5]) / r**2)
    s[0] = r
    s[1] = max(abs(Q[1]), r * c * c)
    s[2:5] = r * c
    s[5:14] = np.abs(Q[5:14]).max()
    if THERMAL:
        s[14:17] = r * np.sqrt(c * c / m["cal2"])
    if MULTI:
        s[MV] = r
    return s
