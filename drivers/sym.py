"""Pairs of runs that a symmetry of the equations relates."""
import itertools
from gprlib import *

i32 = lambda x: np.array(x, dtype=np.int32)
G = GPRpy


def turn(p, s, Q):
    """Signed permutation of the axes of a state."""
    Q = Q.copy()
    P = np.zeros([3, 3])
    for k in range(3):
        P[k, p[k]] = s[k]
    perm = lambda v: np.array([s[k] * v[p[k]] for k in range(3)])
    Q[2:5] = perm(Q[2:5])
    A = Q[5:14].reshape(3, 3)
    Q[5:14] = np.array([[s[i] * s[j] * A[p[i], p[j]] for j in range(3)] for i in range(3)]).reshape(-1)
    if THERMAL:
        Q[14:17] = perm(Q[14:17])
    return Q


def turned(p, s, m):
    return dict(m, dp=[s[k] * m["dp"][p[k]] for k in range(3)])


def act(p, s, shift, nX, u):
    """The grid of cells that a symmetry makes of a grid."""
    nd = len(nX)
    mX = [nX[p[k]] for k in range(nd)]
    x = u.reshape(list(nX) + [-1])
    for j in range(nd):
        x = np.roll(x, shift[j], axis=j)
    x = x.transpose([p[k] for k in range(nd)] + [nd])
    for k in range(nd):
        if s[k] < 0:
            x = np.flip(x, axis=k)
    x = x.reshape(-1, u.reshape(int(np.prod(nX)), -1).shape[1])
    return x, mX


def act_states(p, s, shift, nX, u):
    x, mX = act(p, s, shift, nX, u)
    return np.array([turn(p, s, q) for q in x]).reshape(-1), mX


def act_bounds(p, s, bt, nd):
    b = []
    for k in range(nd):
        lo, hi = bt[2 * p[k]:2 * p[k] + 2]
        b += [lo, hi] if s[k] > 0 else [hi, lo]
    return b


class Problem:
    def __init__(self, m, nX, dX, dt, bt, steps, split, half, flux, mask):
        self.__dict__.update(locals())

    def run(self, u):
        MP = par(self.m)
        nd = len(self.nX)
        u = u.copy()
        ub = np.zeros(int(np.prod([n + 2 * N for n in self.nX])) * NV)
        maskb = np.ones(int(np.prod([n + 2 for n in self.nX])), dtype=bool)
        G.extend_mask(self.mask.copy(), maskb, i32(self.nX))
        for _ in range(self.steps):
            G.boundaries(u, ub, i32(self.nX), i32(self.bt))
            fn = G.solvers.split_stepper if self.split else G.solvers.ader_stepper
            fn(u, ub, i32(self.nX), self.dt, np.array(self.dX, dtype=float), self.half, self.flux, MP, maskb)
        return u

    def moved(self, p, s, shift):
        nd = len(self.nX)
        mask, mX = act(p, s, shift, self.nX, self.mask)
        return Problem(turned(p, s, self.m), mX, [self.dX[p[k]] for k in range(nd)], self.dt,
                       act_bounds(p, s, self.bt, nd), self.steps, self.split, self.half, self.flux, mask.reshape(-1))


def size(m, u, ps):
    s = np.max([scales(m, q, ps) for q in u.reshape(-1, NV)], axis=0)
    s[2:5] = s[2:5].max()
    s[NV - LSET:] = np.abs(u.reshape(-1, NV)[:, NV - LSET:]).max() + 1e-3
    return s


def spread(P, u, u1, s):
    """What rounding does to the run."""
    d = 0.
    for _ in range(3):
        v = u * (1 + 1e-15 * D.rng.normal(size=u.size))
        x = (np.abs(P.run(v) - u1).reshape(-1, NV) / s).max()
        d = max(d, x if np.isfinite(x) else 1e9)
    return d


def record(P, u, W, w, p, s, shift, sc, far, embed=0, **kw):
    u1, w1 = P.run(u), W.run(w)
    if not (np.isfinite(u1).all() or np.isfinite(w1).all()):
        return
    d = max(spread(P, u, u1, sc), spread(W, w, w1, sc))
    D.emit("sym", nX=[int(n) for n in P.nX], mX=[int(n) for n in W.nX], p=[k + 1 for k in p], s=list(s), shift=list(shift),
           embed=embed, far=far, loose=not P.split and (P.half or embed > 0 or kw["name"] in AMP), mask=[bool(b) for b in W.mask], u0=F(u), u1=F(u1), w0=F(w), w1=F(w1), sc=F(sc), spread=F(d), **kw)


def spaces(rng, nd):
    return list(rng.uniform(.5, 2., size=nd))


def smooth(m, name, nX, k, separable=False):
    rng = D.rng
    ps = PSCALE[name]
    amp = AMP.get(name, .02)
    jump = [0., .05][k % 2] if name not in AMP else 0.
    lam = (lambda r: r.uniform(.1, .9)) if MULTI else None
    u = field(rng, m, ps, nX, amp=amp, jump=jump, lam=lam)
    if separable:
        # sums of functions of each coordinate, for every variable
        x = u.reshape(list(nX) + [NV])
        x = x[:, :1] + x[:1, :] - x[:1, :1]
        u = x.reshape(-1).copy()
    u = u.reshape(-1, NV)
    if LSET:
        for l in range(LSET):
            u[:, NV - LSET + l] = rng.normal() + .3 * rng.normal(size=len(u)) if not separable else rng.normal()
    return u.reshape(-1)


def problem(name, nX, k, bt, steps, masked, m=None):
    rng = D.rng
    m = dict(MATERIALS[name]) if m is None else m
    dX = spaces(rng, len(nX))
    split = bool(k % 2)
    flux = (k // 2) % 3
    half = bool((k // 6) % 2) if split else bool(k % 5 == 4)   # split: half step; ader: stiff start
    mask = np.ones(int(np.prod(nX)), dtype=bool)
    if masked:
        mask = rng.random(mask.size) < .7
    return m, dX, split, half, flux, mask


def timestep(u, dX, MP):
    return .3 * min(dX) / max_eig(u, len(dX), MP) / len(dX)


def group(nd):
    """The signed permutations of three axes that keep the first nd ones together."""
    for p in itertools.permutations(range(3)):
        if sorted(p[:nd]) == list(range(nd)):
            for s in itertools.product([1, -1], repeat=3):
                yield p, s


def sym1(name, k):
    rng = D.rng
    n = int(rng.integers(max(3, N), 9))
    bt = [[0, 0], [1, 1], [2, 3], [5, 0], [3, 5], [0, 2]][k % 6]
    m, dX, split, half, flux, mask = problem(name, [n], k, bt, 1, k % 5 == 2 and bt != [1, 1])
    if k % 3 == 0:
        m["dp"] = list(rng.normal(size=3) * .1 * m["rho0"])
    u = smooth(m, name, [n], k)
    P = Problem(m, [n], dX, timestep(u, dX, par(m)), bt, 1 + k % 3 if mask.all() else 1, split, half, flux, mask)
    el = list(group(1))
    p, s = el[int(rng.integers(1, len(el)))]
    shift = [int(rng.integers(0, n))] if bt == [1, 1] else [0]
    w, _ = act_states(p, s, shift, [n], u)
    record(P, u, P.moved(p, s, shift), w, p, s, shift, size(m, u, PSCALE[name]), False, name=name, split=split, flux=flux)


def sym2(name, k, kind):
    rng = D.rng
    nX = [int(rng.integers(max(3, N), 6)), int(rng.integers(max(3, N), 6))]
    bt = [[0, 0, 0, 0], [1, 1, 2, 3], [5, 0, 1, 1], [1, 1, 1, 1], [3, 2, 0, 5]][k % 5]
    if kind != "mirror" and not CORNERS:
        nX = [2 * N + 2 + int(rng.integers(2)) for _ in range(2)]
    if kind == "exchange":
        bt = [[0, 0, 0, 0], [1, 1, 0, 0], [1, 1, 1, 1]][k % 3]   # walls turn sums into other functions
    if kind == "shift":
        bt = [[1, 1, 1, 1], [1, 1, 0, 2], [0, 3, 1, 1]][k % 3]
    m, dX, split, half, flux, mask = problem(name, nX, k, bt, 1, kind == "mirror" and k % 4 == 1)
    if k % 3 == 0:
        m["dp"] = list(rng.normal(size=3) * .1 * m["rho0"])
    sep = kind == "exchange"
    if sep and split:
        m.update(SOLID=True, POWER_LAW=False, kappa=1e12)      # relaxation would not keep the sums
    u = smooth(m, name, nX, k, sep)
    steps = 1 if kind != "mirror" or not mask.all() else 1 + k % 2
    P = Problem(m, nX, dX, timestep(u, dX, par(m)), bt, steps, split, half, flux, mask)
    el = [g for g in group(2) if (g[0][0] == 1) == (kind == "exchange")]
    p, s = el[int(rng.integers(1, len(el)))]
    shift = [0, 0]
    if kind == "shift":
        p, s = (0, 1, 2), (1, 1, 1)
        shift = [int(rng.integers(1, nX[j])) if bt[2 * j] == 1 else 0 for j in range(2)]
    w, _ = act_states(p, s, shift, nX, u)
    record(P, u, P.moved(p, s, shift), w, p, s, shift, size(m, u, PSCALE[name]), kind != "mirror" and not CORNERS, name=name,
           split=split, flux=flux, kind=kind)


def embed(name, k):
    rng = D.rng
    n = int(rng.integers(2 * N + 3, 2 * N + 6))
    bt = [[0, 0], [1, 1], [2, 3], [5, 0]][k % 4]
    m, dX, split, half, flux, mask = problem(name, [n], k, bt, 1, k % 5 == 2)
    u = smooth(m, name, [n], k)
    P = Problem(m, [n], dX, timestep(u, dX, par(m)) / 2, bt, 1, split, half, flux, mask)
    a = k % 2
    other = int(rng.integers(max(3, N), 5)) if CORNERS else 2 * N + 3
    p, s = ((0, 1, 2), (1, 1, 1)) if a == 0 else ((1, 0, 2), (1, 1, 1))
    obt = [[0, 0], [1, 1]][(k // 4) % 2]
    mX = [n, other] if a == 0 else [other, n]
    d2 = float(rng.uniform(.5, 2.)) * dX[0]
    x = np.array([turn(p, s, q) for q in u.reshape(-1, NV)])
    w = np.repeat(x[:, None], other, axis=1) if a == 0 else np.repeat(x[None], other, axis=0)
    mk = np.repeat(mask[:, None], other, axis=1) if a == 0 else np.repeat(mask[None], other, axis=0)
    W = Problem(turned(p, s, m), mX, [dX[0], d2] if a == 0 else [d2, dX[0]], P.dt, bt + obt if a == 0 else obt + bt, 1, split,
                half, flux, mk.reshape(-1).copy())
    record(P, u, W, w.reshape(-1).copy(), p, s, [0], size(m, u, PSCALE[name]), not CORNERS, embed=a + 1, name=name, split=split,
           flux=flux)


D = Driver()
CORNERS = bool(int(os.environ.get("CORNERS", "0")))
NAMES = ["air_nd", "copper", "water_nd", "alu_gr", "bingham", "power", "jwl", "air"]
c = D.n(1, 6)
for k in range(D.n(48, 120)):
    D.case(f"one/{k}", sym1, NAMES[(k + k // 8) % 8], k)
for k in range(D.n(16, 40)):
    D.case(f"mirror/{k}", sym2, NAMES[(k + k // 8) % 8], k, "mirror")
for k in range(D.n(6, 14)):
    D.case(f"exchange/{k}", sym2, NAMES[(k + k // 8) % 8], k, "exchange")
for k in range(D.n(6, 14)):
    D.case(f"shift/{k}", sym2, NAMES[(k + k // 8) % 8], k, "shift")
for k in range(D.n(6, 14)):
    D.case(f"embed/{k}", embed, NAMES[(k + k // 8) % 8], k)
D.done()
