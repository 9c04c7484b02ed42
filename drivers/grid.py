"""Ghost layers, working masks and masked steps."""
from gprlib import *

TYPES = range(6)


def cells(rng, m, ps, n):
    return np.array([state(rng, m, ps, shear=.2) for _ in range(n)]).reshape(-1)


def bounds(nX, bt, kind):
    rng = D.rng
    nc = int(np.prod(nX))
    if kind == "state":
        nm = list(MATERIALS)[int(rng.integers(len(MATERIALS)))]
        u = cells(rng, MATERIALS[nm], PSCALE[nm], nc)
    else:
        u = rng.normal(size=nc * NV)
        for i in range(nc):     # distortions have positive determinants
            a = u[i * NV + 5:i * NV + 14].reshape(3, 3)
            a *= np.sign(np.linalg.det(a))
        if kind == "zeros":
            u *= rng.integers(0, 2, size=nc * NV)
            u[::NV] = 1.
    ub = rng.normal(size=int(np.prod(np.array(nX) + 2 * N)) * NV)
    u0 = u.copy()
    GPRpy.boundaries(u, ub, np.array(nX, dtype=np.int32), np.array(bt, dtype=np.int32))
    assert (u == u0).all(), "the grid itself was changed"
    D.emit("boundaries", nX=list(nX), bt=list(bt), u=F(u), ub=F(ub))


def mask1(nX, bits):
    rng = D.rng
    nc = int(np.prod(nX))
    m = np.array([bool(b) for b in bits])
    mb = rng.integers(0, 2, size=int(np.prod(np.array(nX) + 2))).astype(bool)
    GPRpy.extend_mask(m, mb, np.array(nX, dtype=np.int32))
    D.emit("mask", nX=list(nX), mask=[int(x) for x in bits], maskb=[int(x) for x in mb])


def masked(nX, k, scheme):
    """A step of some cells against a step of all."""
    rng = D.rng
    nm = ["air_nd", "copper", "water_nd", "alu_gr"][k % 4]
    m = dict(MATERIALS[nm])
    ps = PSCALE[nm]
    MP = par(m)
    nc = int(np.prod(nX))
    nd = len(nX)
    u = field(rng, m, ps, nX, amp=AMP.get(nm, .03), jump=(0., 2.)[k % 2] * AMP.get(nm, .03))
    mask = np.zeros(nc, dtype=bool)
    if k % 3 == 0:
        mask[rng.integers(nc)] = True
    elif k % 3 == 1:
        mask = rng.random(nc) < .5
    else:       # a block
        g = mask.reshape(nX)
        g[tuple(slice(0, int(rng.integers(1, n + 1))) for n in nX)] = True
    # cells out of reach of all marked ones hold rubbish
    reach = mask.reshape(nX).copy()
    for _ in range(N + 1):
        r = reach.copy()
        for d in range(nd):
            a = np.moveaxis(r, d, 0)
            b = np.moveaxis(reach, d, 0)
            a[1:] |= b[:-1]
            a[:-1] |= b[1:]
        # diagonal reach
        reach = r
        if nd == 2:
            r = reach.copy()
            r[1:, 1:] |= reach[:-1, :-1]
            r[:-1, :-1] |= reach[1:, 1:]
            r[1:, :-1] |= reach[:-1, 1:]
            r[:-1, 1:] |= reach[1:, :-1]
            reach = r
    iX = np.array(nX, dtype=np.int32)
    dX = rng.uniform(.5, 2., size=nd)
    bt = rng.integers(0, 3, size=2 * nd).astype(np.int32)
    if nd == 1 or (bt[0] == 1) != (bt[1] == 1):
        bt[bt == 1] = 0
    bt[bt == 1] = 0
    dt = .3 * dX.min() / max_eig(u, nd, MP)
    outs = []
    for mk in (mask, np.ones(nc, dtype=bool)):
        w = u.copy()
        if mk is mask and k % 2:
            w.reshape(nc, NV)[~reach.reshape(-1)] = u.reshape(nc, NV)[0] * 1.5
        ub = np.zeros(int(np.prod(iX + 2 * N)) * NV)
        mb = np.zeros(int(np.prod(iX + 2)), dtype=bool)
        GPRpy.boundaries(w, ub, iX, bt)
        GPRpy.extend_mask(mk, mb, iX)
        fl = k % 3
        if scheme == "ader":
            GPRpy.solvers.ader_stepper(w, ub, iX, dt, dX, False, fl, MP, mb)
        elif scheme == "aderstiff":
            GPRpy.solvers.ader_stepper(w, ub, iX, dt, dX, True, fl, MP, mb)
        else:
            GPRpy.solvers.split_stepper(w, ub, iX, dt, dX, scheme == "splithalf", fl, MP, mb)
        outs.append(w)
    D.emit("maskedstep", nX=list(nX), mask=[int(x) for x in mask], masked=F(outs[0]),
           full=F(outs[1]))


D = Driver()
if D.part == "bounds":
    for a in TYPES:
        for b in TYPES:
            for n in range(N, N + D.n(3, 6)):
                for kind in ("state", "random") + (("zeros",) if D.thorough else ()):
                    D.case(f"1d/{n}/{a}{b}/{kind}", bounds, [n], [a, b], kind)
    full = [(a, b, c, d) for a in TYPES for b in TYPES for c in TYPES for d in TYPES]
    if D.thorough:
        pick = full
    else:
        g = np.random.default_rng(D.args.seed)
        pick = [full[i] for i in g.permutation(len(full))[:80]] + [(a, a, a, a) for a in TYPES] \
            + [(a, a, b, b) for a in TYPES for b in TYPES]
    for j, bt in enumerate(pick):
        nX = [[N, N + 2], [N + 1, N], [N + 2, N + 1], [N, N]][j % 4]
        D.case(f"2d/{j}/{''.join(map(str, bt))}", bounds, nX, bt,
               ("state", "random")[(j // 4) % 2])
elif D.part == "mask":
    for n in range(1, 7):
        for b in range(2**n):
            D.case(f"m1/{n}/{b}", mask1, [n], [(b >> i) & 1 for i in range(n)])
    for nx, ny in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)] + ([(3, 3), (1, 5), (5, 1)] if D.thorough else [(3, 3)]):
        for b in range(2**(nx * ny)):
            D.case(f"m2/{nx}x{ny}/{b}", mask1, [nx, ny], [(b >> i) & 1 for i in range(nx * ny)])
    g = np.random.default_rng(D.args.seed)
    for k in range(D.n(100, 2000)):
        nX = [int(x) for x in g.integers(2, 9, size=2)]
        D.case(f"mr/{k}", mask1, nX, list(g.integers(0, 2, size=nX[0] * nX[1])))
    for scheme in ("ader", "splithalf", "split", "aderstiff"):
        for k in range(D.n(24, 200) if scheme != "aderstiff" else D.n(6, 50)):
            nX = [[9], [14], [5, 6], [7, 4]][k % 4]
            D.case(f"step/{scheme}/{k}", masked, nX, k, scheme)
D.done()
