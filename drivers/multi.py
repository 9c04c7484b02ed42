"""Level sets, ghost cells by material, and merging."""
import itertools
from gprlib import *

VAC = material(EOS=VACUUM)
i32 = lambda x: np.array(x, dtype=np.int32)


def levels(rng, nX, kind):
    """LSET ordered level sets."""
    nX = list(nX)
    nc = int(np.prod(nX))
    g = np.stack([x.reshape(-1) for x in np.meshgrid(*[np.arange(n) + .5 for n in nX],
                                                     indexing="ij")], 1)
    out = np.zeros((nc, LSET))

    def one(kind):
        if kind == "plane":
            n = rng.normal(size=len(nX))
            n /= np.linalg.norm(n)
            return (g - g.mean(0)) @ n + rng.normal() * .2 * min(nX)
        if kind == "axis":
            d = int(rng.integers(len(nX)))
            return (g[:, d] - rng.integers(1, max(2, nX[d])) - rng.choice([0., .5, .25, -.1])) \
                * rng.choice([-1, 1])
        if kind == "circle":
            return (np.linalg.norm(g - g.mean(0) - rng.normal(size=len(nX)) * .7, axis=1)
                    - rng.uniform(.6, .45 * max(2, min(nX)))) * rng.choice([-1, 1])
        if kind == "noise":
            return rng.normal(size=nc)
        if kind == "bumps":
            return np.cos(g @ rng.normal(size=len(nX)) * 1.5 + rng.uniform(0, 6)) + .3 * rng.normal()
        if kind == "zeros":
            return rng.integers(-1, 2, size=nc).astype(float)
        if kind == "tiny":
            return rng.normal(size=nc) * 10.**rng.uniform(-20, -3, size=nc)
        if kind == "below":
            return -1. - rng.random(nc)
        if kind == "above":
            return 1. + rng.random(nc)
        raise ValueError(kind)
    if isinstance(kind, str):
        kind = (kind,) * LSET
    for i in range(LSET):
        out[:, i] = one(kind[min(i, len(kind) - 1)])
    return out


def blobs(k):
    """Several bubbles, or a wavy field, on a larger grid: fronts meet, distances are revised."""
    rng = D.rng
    nX = [[9, 8], [12, 7], [8, 11], [14, 13], [6, 16]][k % 5]
    g = np.array(list(itertools.product(*[range(n) for n in nX]))) + 0.
    if k % 3 < 2:
        phi = np.full(len(g), 1.)
        for i in range(2 + k % 4):
            c = rng.uniform(0, 1, size=2) * nX
            phi = np.minimum(phi, np.linalg.norm(g - c, axis=1) - rng.uniform(.8, 2.2))
        phi *= rng.choice([-1, 1])
    else:
        phi = np.cos(g @ rng.normal(size=2)) + np.cos(g @ rng.normal(size=2) * .7) + .4
    dX = np.full(2, rng.uniform(.1, 2.))
    if k % 4 == 3:
        dX[1] *= rng.uniform(.6, 1.7)
    d = GPRpy.system.multi.distance(phi.copy(), dX, i32(nX))
    D.emit("distance", nX=nX, dX=F(dX), phi=F(phi), dist=F(d))


KINDS = ["plane", "axis", "circle", "noise", "bumps", "zeros", "tiny", "below", "above"]


def renorm(nX, k, kind):
    rng = D.rng
    dX = np.full(len(nX), rng.uniform(.1, 2.))
    if k % 3 == 2 and len(nX) == 2:
        dX[1] *= rng.uniform(.6, 1.7)
    u = rng.normal(size=(int(np.prod(nX)), NV))
    u[:, NV - LSET:] = levels(rng, nX, kind)
    u0 = u.copy()
    GPRpy.multi.renormalize_levelsets(u, dX, i32(nX))
    D.emit("renorm", nX=list(nX), dX=F(dX), u0=F(u0.reshape(-1)), u1=F(u.reshape(-1)))


def dist(nX, p):
    dX = np.full(len(nX), 1.)
    p = np.array(p, float)
    d = GPRpy.system.multi.distance(p.copy(), dX, i32(nX))
    D.emit("distance", nX=list(nX), dX=F(dX), phi=F(p), dist=F(d))


SETS = [[AIR_ND, WATER_ND], [WATER_ND, COPPER], [AIR, WATER], [COPPER_EL, VAC], [VAC, ALUMINIUM],
        [JWL_A, COPPER, VAC], [VAC, COPPER, AIR_ND], [AIR_ND, COPPER, WATER_ND], [COPPER, VAC, ALUMINIUM],
        [AIR, VAC, WATER]]


def mixed(rng, mats, nX, ls):
    """A grid of states, each of its owner's material."""
    nc = int(np.prod(nX))
    own = (ls >= 0).sum(1)
    u = np.zeros((nc, NV))
    names = {id(m): n for n, m in MATERIALS.items()}
    for k in range(nc):
        m = mats[own[k]]
        if m["EOS"] == VACUUM:
            continue
        nm = names[id(m)]
        u[k] = state(rng, m, PSCALE[nm], shear=AMP.get(nm, .02), comp=.02, vel=.05, J=.1)
    u[:, NV - LSET:] = ls
    return u.reshape(-1)


def inside(c, nX):
    return all(0 <= a < n for a, n in zip(c, nX))


def candidates(nX, dX, p, grad, own, mat, k):
    """Pairs of cells whose interface states are worth recording (a superset is harmless)."""
    c = np.array(np.unravel_index(k, nX))
    nb = []
    for d in range(len(nX)):
        for s in (-1, 1):
            y = c.copy()
            y[d] += s
            if inside(y, nX) and p[np.ravel_multi_index(y, nX)] <= 0:
                nb.append(int(np.ravel_multi_index(y, nX)))
    toward = lambda j: (c - np.array(np.unravel_index(j, nX))).astype(float)
    g = grad[k]
    gn = np.linalg.norm(g)
    ns = [g / gn] if gn > 0 else [toward(j) for j in nb]
    out = []

    def at(x):
        r = set()
        for e in itertools.product((-1e-9, 0, 1e-9), repeat=len(nX)):
            y = np.floor(x + np.array(e)).astype(int)
            r.add(int(np.ravel_multi_index(np.clip(y, 0, np.array(nX) - 1), nX)))
        return r
    for n in ns:
        xi = c + .5 - p[k] * n / dX
        L = [j for j in at(xi) | at(xi - n) if own[j] == mat]
        R = at(xi + n)
        out += [(l, r, n) for l in L for r in R]
        for d in range(len(nX)):
            e = np.zeros(len(nX))
            e[d] = np.sign(n[d])
            y = c.copy()
            y[d] -= int(e[d])
            if e[d] and inside(y, nX):
                j = int(np.ravel_multi_index(y, nX))
                if own[j] == mat:
                    out += [(j, r, e) for r in R]
    out += [(j, k, toward(j)) for j in nb]
    return out


def ghost(nX, k, mats, kind):
    rng = D.rng
    nc = int(np.prod(nX))
    dX = np.full(len(nX), [1., .1, .037][k % 3])
    ls = levels(rng, nX, kind) * dX[0]
    if len(mats) < 3 and LSET > 1:
        ls[:, 1:] = -100.
    # materials are nested: a later level set is only reached where the earlier ones are
    for i in range(1, LSET):
        ls[:, i] = np.minimum(ls[:, i], ls[:, i - 1] - .3 * dX[0])
    u = mixed(rng, mats, nX, ls)
    u0 = u.copy()
    MPs = [par(m) for m in mats]
    grids = GPRpy.VectorVec()
    masks = GPRpy.VectorbVec()
    for m in mats:
        grids.append(rng.normal(size=nc * NV))
        masks.append(rng.integers(0, 2, size=nc).astype(bool))
    dt = (0., .1 * dX[0])[k % 2] if kind != "still" else 0.
    dt = dt / 10 if dt else 0.
    GPRpy.multi.fill_ghost_cells(grids, masks, u, i32(nX), dX, dt, MPs)
    U = u.reshape(nc, NV)
    own = (U[:, NV - LSET:] >= 0).sum(1)
    phis, stars = [], []
    for mi, m in enumerate(mats):
        p = np.zeros(nc)
        GPRpy.multi.material_indicator(p, U.copy(), mi, len(mats), dX, i32(nX))
        phis.append(F(p))
        ss = []
        if m["EOS"] != VACUUM:
            q = p.reshape(nX)
            grad = np.zeros((nc, len(nX)))
            for d in range(len(nX)):
                a = np.moveaxis(q, d, 0)
                gg = np.zeros_like(a)
                gg[1:-1] = (a[2:] - a[:-2]) / (2 * dX[d])
                gg[0], gg[-1] = gg[1], gg[-2]
                grad[:, d] = np.moveaxis(gg, 0, d).reshape(-1)
            for c in range(nc):
                if p[c] > 0:
                    cc = np.unravel_index(c, nX)
                    near = False
                    for d in range(len(nX)):
                        for s in (-1, 1):
                            y = list(cc)
                            y[d] += s
                            near |= inside(y, nX) and p[np.ravel_multi_index(y, nX)] <= 0
                    if near:
                        for l, r, n in candidates(nX, dX, p, grad, own, mi, c):
                            o = GPRpy.system.multi.left_star_state(
                                U[l].copy(), U[r].copy(), MPs[mi], MPs[own[r]], dt, n.copy())
                            ss.append({"cell": c, "l": l, "r": r, "n": F(n), "out": F(o)})
        stars.append(ss)
    D.emit("ghost", nX=list(nX), dX=F(dX), mats=[{"EOS": m["EOS"]} for m in mats], u0=F(u0), u1=F(u),
           grids=[F(np.array(g)) for g in grids], masks=[[int(x) for x in np.array(m)] for m in masks],
           phis=phis, stars=stars)


def pattern(nX, signs):
    nc = int(np.prod(nX))
    dX = np.ones(len(nX))
    u = np.zeros((nc, NV))
    m = AIR_ND
    for k in range(nc):
        u[k] = cons(m, 1., 1., [0, 0, 0], np.eye(3), phi=[(.4, -.3)[signs[k]]] + [-9.] * (LSET - 1))
    u = u.reshape(-1)
    grids, masks = GPRpy.VectorVec(), GPRpy.VectorbVec()
    for _ in range(2):
        grids.append(u.copy())
        masks.append(np.zeros(nc, dtype=bool))
    GPRpy.multi.fill_ghost_cells(grids, masks, u, i32(nX), dX, 0., [par(m), par(m)])
    ls = u.reshape(nc, NV)[:, NV - LSET]
    for i in range(2):
        D.emit("pattern", nX=list(nX), phi=F(ls if i == 0 else -ls), mask=[int(x) for x in np.array(masks[i])])


def merge(nX, k, mats):
    rng = D.rng
    nc = int(np.prod(nX))
    u = rng.normal(size=(nc, NV))
    if len(mats) < LSET + 1:
        u[:, NV - LSET + len(mats) - 1:] = -1 - rng.random((nc, LSET - len(mats) + 1))
    grids, masks = GPRpy.VectorVec(), GPRpy.VectorbVec()
    for m in mats:
        g = rng.normal(size=(nc, NV))
        if k % 3 == 0:
            g[:, NV - LSET:] = u[:, NV - LSET:] * rng.uniform(.5, 1.5)
        if k % 3 == 2:
            g[:, NV - LSET:] = rng.integers(-1, 2, size=(nc, LSET))
        if len(mats) < LSET + 1:
            g[:, NV - LSET + len(mats) - 1:] = -1.
        grids.append(g.reshape(-1))
        masks.append(rng.random(nc) < .5)
    u0 = u.reshape(-1)
    u1 = u0.copy()
    gs = [F(np.array(g)) for g in grids]
    ms = [[int(x) for x in np.array(m)] for m in masks]
    GPRpy.solvers.make_u(u1, grids, masks, [par(m) for m in mats])
    D.emit("merge", nX=list(nX), u0=F(u0), u1=F(u1), grids=gs, masks=ms,
           mats=[{"EOS": m["EOS"]} for m in mats])


D = Driver()
if D.part == "level":
    for n in (3, 4, 5, 6) if not D.thorough else (3, 4, 5, 6, 7):
        for j, b in enumerate(itertools.product((-1., .5), repeat=n)):
            D.case(f"s1/{n}/{j}", dist, [n], b)
    for nX in [[2, 3], [3, 2]] + ([[3, 3]] if True else []):
        for j, b in enumerate(itertools.product((-1., .5) if nX == [3, 3] and not D.thorough else (-1., .5, 0.),
                                                repeat=nX[0] * nX[1])):
            if nX == [3, 3] and D.thorough and j % 7:
                continue
            D.case(f"s2/{nX[0]}x{nX[1]}/{j}", dist, nX, b)
    for k in range(D.n(54, 900)):
        nX = [[9], [5, 7], [6, 4], [8, 8], [14], [3, 9]][(k // 9) % 6]
        D.case(f"r/{k}", renorm, nX, k, KINDS[k % 9])
    for k in range(D.n(300, 2000)):
        D.case(f"b/{k}", blobs, k)
elif D.part == "ghost":
    for nX in [[3], [4], [5], [6], [3, 3]] + ([[3, 4], [4, 3]] if D.thorough else []):
        for j, b in enumerate(itertools.product((0, 1), repeat=int(np.prod(nX)))):
            D.case(f"p/{'x'.join(map(str, nX))}/{j}", pattern, nX, b)
    for k in range(D.n(72, 1000)):
        nX = [[9], [6, 7], [5, 5], [8, 6], [24], [3, 4]][k % 6]
        kind = [("plane", "plane"), ("circle", "circle"), ("noise", "noise"), ("axis", "axis"),
                ("bumps", "bumps"), ("below", "below"), ("plane", "below"), ("circle", "bumps")][(k // 6 + k) % 8]
        D.case(f"g/{k}", ghost, nX, k, SETS[(k * 7 + k // 6) % len(SETS)], kind)
elif D.part == "merge":
    for k in range(D.n(300, 2000)):
        nX = [[5], [3, 3], [1], [2, 4]][k % 4]
        D.case(f"m/{k}", merge, nX, k, SETS[k % len(SETS)])
D.done()
