"""Steps and ghost filling with every number of threads."""
import ctypes
from gprlib import *

OMP = ctypes.CDLL("libgomp.so.1")
i32 = lambda x: np.array(x, dtype=np.int32)
PAIRS = [[AIR_ND, WATER_ND], [AIR_ND, COPPER, WATER_ND], [WATER_ND, COPPER_EL], [AIR, WATER]]
ps = lambda m: PSCALE[[n for n, x in MATERIALS.items() if x is m][0]]


def digest(v):
    """The bits of a result."""
    import hashlib
    return hashlib.sha256(np.ascontiguousarray(v).tobytes()).hexdigest()[:24]


def step(name, nX, split, k):
    rng = D.rng
    m = MATERIALS[name]
    MP = par(m)
    nd = len(nX)
    dX = rng.uniform(.5, 2., size=nd)
    u = field(rng, m, PSCALE[name], nX, amp=AMP.get(name, .02), jump=[0., .05][k % 2] if name not in AMP else 0.)
    ub = np.zeros(int(np.prod([n + 2 * N for n in nX])) * NV)
    GPRpy.boundaries(u.copy(), ub, i32(nX), np.zeros(2 * nd, dtype=np.int32))
    mask = np.ones(int(np.prod([n + 2 for n in nX])), dtype=bool)
    if k % 3 == 2:
        c = rng.random(int(np.prod(nX))) < .7
        GPRpy.extend_mask(c, mask, i32(nX))
    dt = .4 * dX.min() / max_eig(u, nd, MP) / nd
    fn, serial = (GPRpy.solvers.split_stepper_para, GPRpy.solvers.split_stepper) if split else \
        (GPRpy.solvers.ader_stepper_para, GPRpy.solvers.ader_stepper)
    half = bool(k % 2)
    fl = k % 3
    runs = []
    v, b = u.copy(), ub.copy()
    serial(v, b, i32(nX), dt, dX, half, fl, MP, mask.copy())
    for t in list(range(1, 10)) + [3, 5, 8] * D.n(2, 10):
        OMP.omp_set_num_threads(t)
        w, b = u.copy(), ub.copy()
        fn(w, b, i32(nX), dt, dX, half, fl, MP, mask.copy())
        runs.append({"threads": t, "bits": digest(w), "finite": bool(np.isfinite(w).all())})
    OMP.omp_set_num_threads(1)
    D.emit("threads", what="split" if split else "ader", serial=digest(v), finite=bool(np.isfinite(v).all()),
           runs=runs, nX=list(nX))


def fill(k, nX):
    rng = D.rng
    mats = PAIRS[k % len(PAIRS)]
    MPs = [par(m) for m in mats]
    nc = int(np.prod(nX))
    dX = np.ones(len(nX))
    X = np.array([np.unravel_index(c, nX) for c in range(nc)]) + .5
    ls = np.full((nc, LSET), -50.)
    for i in range(len(mats) - 1):
        ctr = rng.uniform(.3, .7, size=len(nX)) * np.array(nX)
        ls[:, i] = (np.sqrt(((X - ctr)**2).sum(1)) - rng.uniform(.15, .35) * min(nX)) * (1 if i == 0 else -1)
    u = np.zeros((nc, NV))
    own = (ls >= 0).sum(1)
    for mi, m in enumerate(mats):
        f = field(rng, m, ps(m), nX, amp=.003, vel=.01).reshape(nc, NV)
        u[own == mi] = f[own == mi]
    u[:, NV - LSET:] = ls
    u = u.reshape(-1)
    runs = []
    for t in [1, 1] + [2, 3, 5, 8, 8, 7] * D.n(2, 12):
        OMP.omp_set_num_threads(t)
        g, b = GPRpy.VectorVec(), GPRpy.VectorbVec()
        for _ in mats:
            g.append(np.zeros(nc * NV))
            b.append(np.zeros(nc, dtype=bool))
        v = u.copy()
        GPRpy.multi.fill_ghost_cells(g, b, v, i32(nX), dX, 1e-3, MPs)
        a = np.concatenate([v] + [np.array(x) for x in g] + [np.array(x).astype(float) for x in b])
        runs.append({"threads": t, "bits": digest(a), "finite": bool(np.isfinite(a).all())})
    OMP.omp_set_num_threads(1)
    D.emit("threads", what="fill", serial=runs[0]["bits"], finite=runs[0]["finite"], runs=runs, nX=list(nX))


D = Driver()
NAMES = ["air_nd", "copper", "water_nd", "alu_gr", "bingham", "copper_el"]
SIZES = [[7], [3], [1], [6, 5], [3, 4], [9, 2], [2, 7], [12], [1, 6], [16, 3]]
for k in range(D.n(30, 400)):
    for split in (False, True):
        D.case(f"{'split' if split else 'ader'}/{k}", step, NAMES[(k + k // 10) % 6], SIZES[k % len(SIZES)], split, k)
for k in range(D.n(6, 60)):
    D.case(f"fill/{k}", fill, k, [[16, 16], [24, 12], [30], [9, 20]][k % 4])
D.done()
