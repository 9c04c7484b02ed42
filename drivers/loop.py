"""Time steps, maintenance of the distortion, and the main loop."""
import contextlib
import io
from gprlib import *

VAC = material(EOS=VACUUM)
i32 = lambda x: np.array(x, dtype=np.int32)
NAMES = {id(m): n for n, m in MATERIALS.items()}
SETS = [[AIR_ND, WATER_ND], [WATER_ND, COPPER], [AIR, WATER], [COPPER_EL, VAC], [VAC, ALUMINIUM],
        [JWL_A, COPPER, VAC], [AIR_ND, COPPER, WATER_ND], [AIR_ND]]
RUNS = [[AIR_ND, WATER_ND], [COPPER_EL, VAC], [AIR, WATER], [VAC, ALUMINIUM], [AIR_ND, WATER_ND, POWER],
        [COPPER, VAC, COPPER_EL], [VAC, WATER_ND, AIR_ND], [AIR_ND], [BINGHAM, AIR_ND]]
if LSET < 2:
    RUNS = [s for s in RUNS if len(s) <= LSET + 1]
    SETS = [s for s in SETS if len(s) <= LSET + 1]


def ps(m):
    return PSCALE[NAMES[id(m)]]


def layers(rng, nX, nmat, dX=1.):
    """Level sets of materials that lie one after the other along the first axis."""
    nc = int(np.prod(nX))
    x = np.array([np.unravel_index(k, nX)[0] + .5 for k in range(nc)])
    ls = np.full((nc, LSET), -100.)
    at = 0.
    for i in range(min(nmat - 1, LSET)):
        at = nX[0] * (i + 1) / nmat + rng.uniform(-.4, .4)
        ls[:, i] = (x - at) * dX
    return ls


def grid(rng, mats, nX, ls, amp=1.):
    """Cells of their owners' materials at a common pressure, each with small disturbances."""
    nc = int(np.prod(nX))
    own = (ls >= 0).sum(1)
    u = np.zeros((nc, NV))
    for mi, m in enumerate(mats):
        if m["EOS"] == VACUUM:
            continue
        nm = NAMES[id(m)]
        f = field(rng, m, ps(m), nX, amp=AMP.get(nm, .02) * amp, vel=.02, J=.1,
                  lam=(lambda r: r.uniform(0, 1)) if MULTI else None).reshape(nc, NV)
        u[own == mi] = f[own == mi]
    u[:, NV - LSET:] = ls
    return u.reshape(-1)


def boxed(mats, nc):
    g, k = GPRpy.VectorVec(), GPRpy.VectorbVec()
    for _ in mats:
        g.append(np.zeros(nc * NV))
        k.append(np.zeros(nc, dtype=bool))
    return g, k


def timestep(nX, k, mats):
    rng = D.rng
    nc = int(np.prod(nX))
    nd = len(nX)
    dX = rng.uniform(.1, 2., size=nd)
    MPs = [par(m) for m in mats]
    grids, masks = GPRpy.VectorVec(), GPRpy.VectorbVec()
    lam, mk = [], []
    for mi, m in enumerate(mats):
        b = rng.random(nc) < .4
        if k % 11 == 0:
            b[:] = False
        if m["EOS"] == VACUUM:
            g = rng.normal(size=nc * NV)
            lam.append([F(np.full(nd, 1e9))] * nc)
        else:
            g = np.array([state(rng, m, ps(m), shear=.05) for _ in range(nc)]).reshape(-1)
            lam.append([F([GPRpy.system.max_abs_eigs(g[i * NV:(i + 1) * NV].copy(), d, MPs[mi])
                           for d in range(nd)]) for i in range(nc)])
        grids.append(g)
        masks.append(b)
        mk.append([int(x) for x in b])
    cfl = rng.uniform(.1, .95)
    count = int([0, 5, 6, 7, 100, 4][k % 6])
    t = rng.uniform(0, 1)
    # the end of the run anywhere, and near the whole and the fifth of the step
    full = GPRpy.solvers.timestep(grids, masks, dX, cfl, 0., 1e300, 100, MPs, len(mats))
    ends = [t + 10.**rng.uniform(-8, 2)]
    if full < 1e9:
        ends += [t + full * x for x in rng.choice([.1, .19, .21, .3, .6, .99, 1.01, 1.5, 4.], 2, False)]
    for tf in ends:
        if tf <= t:
            continue
        dt = GPRpy.solvers.timestep(grids, masks, dX, cfl, t, tf, count, MPs, len(mats))
        D.emit("timestep", nX=list(nX), dX=F(dX), cfl=F(cfl), t=F(t), tf=F(tf), count=count, dt=F(dt), lam=lam,
               masks=mk, mats=[{"EOS": m["EOS"]} for m in mats])


def cells(rng, mats, nc, off):
    u = np.zeros((nc, NV))
    for k in range(nc):
        mi = int(rng.integers(len(mats)))
        m = mats[mi]
        ph = np.full(LSET, -1.)
        ph[:mi] = rng.random(mi) * (rng.random() < .8)
        if LSET > 1:
            ph = ph[rng.permutation(LSET)] if len(mats) > 2 else ph
        if m["EOS"] == VACUUM:
            u[k, NV - LSET:] = ph
            if off % 2:
                u[k, :NV - LSET] = rng.normal(size=NV - LSET)
            continue
        u[k] = state(rng, m, ps(m), shear=.1 + .1 * (off % 3), phi=ph, det=False,
                     lam=rng.uniform(-.2, 1.2) if MULTI else None)
        if off % 5 == 4 and k == 0:
            u[k, 0] = 0.
    return u.reshape(-1)


def maintain(k, mats):
    rng = D.rng
    nc = 4
    u = cells(rng, mats, nc, k)
    MPs = [par(m) for m in mats]
    js = [mj(m) for m in mats]
    v = u.copy()
    GPRpy.solvers.renorm_distortion(v, MPs)
    D.emit("rescale", nX=[nc], u0=F(u), u1=F(v), mats=js)
    w = u.copy()
    GPRpy.solvers.rotate_distortion(w, MPs)
    D.emit("rotate", nX=[nc], u0=F(u), u1=F(w), mats=js)
    for tol in (1e-4, .01, .03, .1, 1.):
        D.emit("contorted", nX=[nc], u=F(v), tol=F(tol), got=bool(GPRpy.solvers.contorted(v.copy(), tol)))


class Chain:
    """Advances a state by one turn of the loop with the implementation's own parts."""

    def __init__(self, u, nX, dX, cfl, bt, split, half, stiff, fl, mats, tf):
        self.__dict__.update(locals())
        self.nc = int(np.prod(nX))
        self.MPs = [par(m) for m in mats]
        self.grids, self.masks = GPRpy.VectorVec(), GPRpy.VectorbVec()
        for _ in mats:
            self.grids.append(u.copy())
            self.masks.append(np.ones(self.nc, dtype=bool))
        self.t, self.count, self.dt = 0., 0, 0.

    def turn(self, u):
        u = u.copy()
        if LSET:
            GPRpy.multi.fill_ghost_cells(self.grids, self.masks, u, i32(self.nX), self.dX, self.dt, self.MPs)
        else:
            self.grids[0] = u.copy()
        self.filled = u.copy()
        self.fmasks = [np.array(m).copy() for m in self.masks]
        self.dt = GPRpy.solvers.timestep(self.grids, self.masks, self.dX, self.cfl, self.t, self.tf,
                                         self.count, self.MPs, len(self.mats))
        iX = i32(self.nX)
        for mi, m in enumerate(self.mats):
            if m["EOS"] == VACUUM:
                continue
            ub = np.zeros(int(np.prod(iX + 2 * N)) * NV)
            mb = np.zeros(int(np.prod(iX + 2)), dtype=bool)
            g = np.array(self.grids[mi]).copy()
            GPRpy.boundaries(g, ub, iX, i32(self.bt))
            GPRpy.extend_mask(np.array(self.masks[mi]), mb, iX)
            if self.split:
                GPRpy.solvers.split_stepper_para(g, ub, iX, self.dt, self.dX, self.half, self.fl,
                                                 self.MPs[mi], mb)
            else:
                GPRpy.solvers.ader_stepper_para(g, ub, iX, self.dt, self.dX, self.stiff, self.fl,
                                                self.MPs[mi], mb)
            self.grids[mi] = g
        self.advanced = [np.array(g).copy() for g in self.grids]
        if LSET:
            GPRpy.solvers.make_u(u, self.grids, self.masks, self.MPs)
        else:
            u = self.advanced[0].copy()
        self.t += self.dt
        self.count += 1
        GPRpy.solvers.renorm_distortion(u, self.MPs)
        if os.environ.get("ROTATE") == "1" and self.count % 10 == 0:
            GPRpy.solvers.rotate_distortion(u, self.MPs)
        return u


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def problem(k, mats, nX, amp=1.):
    rng = D.rng
    dX = np.full(len(nX), rng.uniform(.5, 2.))
    u = grid(rng, mats, nX, layers(rng, nX, len(mats), dX[0]), amp)
    split = bool(k % 2)
    half = bool((k // 2) % 2)
    stiff = bool((k // 4) % 2)
    fl = k % 3 if not any(m["EOS"] == VACUUM for m in mats) else 0
    cfl = rng.uniform(.2, .6)
    bt = [0, 0] if len(nX) == 1 else [0, 0, 0, 0]
    lam = max(max(GPRpy.system.max_abs_eigs(u[i * NV:(i + 1) * NV].copy(), d, par(mats[o])) / dX[d]
                  for d in range(len(nX)))
              for i in range(int(np.prod(nX)))
              for o in [int((u[i * NV + NV - LSET:(i + 1) * NV] >= 0).sum())]
              if mats[o]["EOS"] != VACUUM)
    return u, dX, split, half, stiff, fl, cfl, bt, cfl / lam / len(nX)


def steps(k, mats, nX, tol):
    """Every step of a short run."""
    u, dX, split, half, stiff, fl, cfl, bt, dt = problem(k, mats, nX)
    u0 = u.copy()
    tf = dt * D.rng.uniform(3., 6.)
    c = Chain(u.copy(), nX, dX, cfl, bt, split, half, stiff, fl, mats, tf)
    ret = quiet(GPRpy.solvers.iterator, u.copy(), tf, i32(nX), dX, cfl, i32(bt), split, half, stiff, fl,
                c.MPs, tol)
    js = [mj(m) for m in mats]
    ret = [np.array(r) for r in ret]
    i = 0
    states = [u]
    while c.t < tf and i < 60:
        if np.isnan(c.turn(u)).any():
            break
        nxt = ret[i] if c.t < tf else ret[99]
        if nxt.size == 0:
            break
        D.emit("step", nX=list(nX), mats=js, count=c.count, tol=F(tol), filled=F(c.filled),
               grids=[F(g) for g in c.advanced], masks=[[int(x) for x in m] for m in c.fmasks], u1=F(nxt))
        if np.isnan(nxt).any():
            break
        u = nxt
        i += 1


def blow(k, nX, q):
    """A run at too large time steps, that fails at the fraction q of its final time."""
    u, dX, split, half, stiff, fl, cfl, bt, dt = problem(1, [AIR_ND], nX, 10.**-D.rng.uniform(6, 10))
    cfl = 1.2 if k % 3 else 1.6
    c = Chain(u.copy(), nX, dX, cfl, bt, True, False, False, 0, [AIR_ND], 1e9)
    w = u.copy()
    while c.count < 600 and admissible(w, [AIR_ND]):
        w = c.turn(w)
    history(u, nX, dX, cfl, bt, True, False, False, 0, [AIR_ND], c.t / q)


def broken(k, mats, nX):
    """A run whose first state has a bad value already."""
    u, dX, split, half, stiff, fl, cfl, bt, dt = problem(1, mats, nX)
    rng = D.rng
    nc = int(np.prod(nX))
    if LSET:
        u.reshape(nc, NV)[:, NV - LSET:] *= rng.uniform(.3, 5.)      # not distances
    u[int(rng.integers(nc)) * NV + int(rng.integers(2, 5))] = np.nan
    history(u, nX, dX, cfl, bt, split, half, stiff, fl, mats, dt * [.5, 3., 1e3][k % 3])


def sched(k, mats, nX, fac):
    """The history of a run."""
    u, dX, split, half, stiff, fl, cfl, bt, dt = problem(k, mats, nX)
    history(u, nX, dX, cfl, bt, split, half, stiff, fl, mats, dt * fac)


def admissible(u, mats):
    for Q in u.reshape(-1, NV):
        if np.isnan(Q).any():
            return False
        m = mats[int((Q[NV - LSET:] >= 0).sum()) if LSET else 0]
        if m["EOS"] != VACUUM:
            if not Q[0] > 0 or not GPRpy.system.variables.pressure(Q.copy(), par(m)) + m["pINF"] > 0:
                return False
    return True


def history(u, nX, dX, cfl, bt, split, half, stiff, fl, mats, tf):
    c = Chain(u.copy(), nX, dX, cfl, bt, split, half, stiff, fl, mats, tf)
    ret = [np.array(r) for r in quiet(GPRpy.solvers.iterator, u.copy(), tf, i32(nX), dX, cfl, i32(bt),
                                      split, half, stiff, fl, c.MPs, np.inf)]
    states, dts, failed, lost = [u.copy()], [], False, False
    while c.t < tf and len(dts) < 5000:
        if not admissible(u, mats):
            lost = True        # from here on the equations say nothing about the run
            break
        u = c.turn(u)
        states.append(u.copy())
        dts.append(c.dt)
        if np.isnan(u).any():
            failed = True
            break

    def same(r, s):
        if r.size != s.size:
            return False
        a = np.isnan(r) == np.isnan(s)
        return bool(a.all() and np.allclose(np.nan_to_num(r), np.nan_to_num(s), rtol=1e-9,
                                            atol=1e-12 * np.nanmax(np.abs(np.nan_to_num(s)) + 1e-300)))
    match = [[j for j, s in enumerate(states) if same(r, s)] for r in ret]
    D.emit("sched", tf=F(tf), dts=F(np.array(dts)), failed=failed, lost=lost, match=match,
           bad=bool(np.isnan(states[0]).any()), nans=[bool(np.isnan(r).any()) for r in ret],
           empty=[r.size == 0 for r in ret], npush=sum(r.size > 0 for r in ret))


D = Driver()
if D.part == "time":
    for k in range(D.n(132, 2000)):
        D.case(f"t/{k}", timestep, [[4], [2, 3], [1], [3, 3]][k % 4], k, SETS[(k // 3) % len(SETS)])
elif D.part == "maintain":
    for k in range(D.n(80, 1500)):
        D.case(f"m/{k}", maintain, k, SETS[k % len(SETS)])
elif D.part == "loop":
    for k in range(D.n(16, 160)):
        nX = [[10], [6, 4], [12], [4, 6]][(k // 2) % 4]
        D.case(f"s/{k}", steps, k, RUNS[(k * 3 + k // 8) % len(RUNS)], nX, [1e300, 1e-6, 1e300, 3e-4][(k // 3) % 4])
    for k in range(D.n(6, 60)):
        fac = [3., 20., 60., 110., 250., .1][k % 6]
        D.case(f"h/{k}", sched, k * 2 + 1 if k % 3 else k, [AIR_ND, WATER_ND] if LSET else [AIR_ND], [7], fac)
    for k in range(D.n(5, 40)):
        D.case(f"b/{k}", blow, k, [8], [.995, .5, .985, .9999, .08][k % 5])
    for k in range(D.n(3, 30)):
        D.case(f"n/{k}", broken, k, [AIR_ND, WATER_ND] if LSET else [AIR_ND], [6])
D.done()
