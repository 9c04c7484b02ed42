"""Reconstruction, predictor and finite-volume update."""
from gprlib import *

C = GPRpy.solvers.common
W = GPRpy.solvers.weno
FV = GPRpy.solvers.fv
SOL = GPRpy.solvers
ENDS = np.asarray(C.end_values(C.basis_polys()))
FLUXES = {"rusanov": (0, FV.D_RUS), "roe": (1, FV.D_ROE), "osher": (2, FV.D_OSH)}


def iv(x):
    return np.array(x, dtype=np.int32)


def basis():
    b = C.basis_polys()
    n = C.scaled_nodes()
    m = W.coefficient_matrices(b)
    D.emit("basis", nodes=F(n), weights=F(C.scaled_weights()),
           psi=[F(p.coef) for p in b], ends=F(C.end_values(b)), ders=F(C.derivative_values(b, n)),
           L=F(m[0]), R=F(m[1]), CL=F(m[2]), CR=F(m[3]), sig=F(W.oscillation_indicator(b)))


def grid(rng, name, nX, k, ghost):
    """Random cells of a grid extended by ghost cells: smooth, with jumps, rough, polynomial."""
    m = dict(MATERIALS[name])
    m["cv"] = m["cv"] or 1.
    ext = [n + 2 * ghost for n in nX]
    amp = AMP.get(name, .03)
    kind = k % 4
    u = field(rng, m, PSCALE[name], ext, amp=amp, jump=[0., 3 * amp, 0., 0.][kind],
              noise=[.02, .05, 1., 0.][kind], phi=rng.normal(size=tuple(ext) + (LSET,)))
    if kind == 3:
        # averages of a polynomial of degree below N: the reconstruction is that polynomial
        a = u.reshape(ext + [NV])
        co = rng.normal(size=(len(nX), N, NV)) * amp * np.abs(a).max(axis=tuple(range(len(nX)))) * .1
        base = a.reshape(-1, NV)[0]
        out = np.empty_like(a)
        for i in np.ndindex(*ext):
            v = base.copy()
            for d in range(len(nX)):
                x = (i[d] - ext[d] / 2) / 4
                for p in range(1, N):
                    v = v + co[d, p] * ((x + .25)**(p + 1) - x**(p + 1)) / (.25 * (p + 1))
            out[i] = v
        u = out.reshape(-1)
    return m, u


def weno(name, nX, k):
    nd = len(nX)
    m, ub = grid(D.rng, name, nX, k, N)
    MP = par(m)
    before = ub.copy()
    wh = np.full(int(np.prod([n + 2 for n in nX])) * N**nd * NV, np.nan)
    W.weno_launcher(wh, ub, iv(nX), MP)
    if not np.array_equal(before, ub):
        raise Exception("the cells were changed")
    a = ub.reshape(-1, NV)
    ps = np.abs(a).max(axis=0)
    ps[1] = PSCALE[name] + m["pINF"] + m["c02"] * m["rho0"]
    ps[2:5] = np.sqrt(ps[1] / m["rho0"])
    D.emit("weno", m=mj(m), nX=nX, ub=F(ub), wh=F(wh), ps=F(ps))


def ends(rec, nd, d, e):
    """Values of a cell's polynomial at the nodes of a face."""
    if nd == 1:
        return [ENDS[e] @ rec]
    r = rec.reshape(N, N, NV)
    return [ENDS[e] @ r[:, s] for s in range(N)] if d == 0 else [ENDS[e] @ r[s] for s in range(N)]


def rough(rng, m, ps, name, cells, k, amp):
    """Random polynomials of the cells."""
    base = field(rng, m, ps, [cells], amp=amp).reshape(cells, NV)
    sc = np.abs(base).max(axis=0)
    out = np.empty((cells, k, NV))
    for c in range(cells):
        for s in range(k):
            out[c, s] = base[c] * (1 + amp * .2 * rng.normal(size=NV))
    return out, sc


def masks(rng, nX, kind):
    n = int(np.prod([x + 2 for x in nX]))
    if kind == 0:
        return np.ones(n, dtype=bool)
    return rng.random(n) < .85


def fv(name, nX, k, scheme, time, sources):
    rng = D.rng
    nd = len(nX)
    m = dict(MATERIALS[name])
    ps = PSCALE[name]
    MP = par(m)
    amp = AMP.get(name, .03)
    nt = N if time else 1
    cells = int(np.prod([x + 2 for x in nX]))
    mask = masks(rng, nX, k % 2)
    rec0, sc = rough(rng, m, ps, name, cells, nt * N**nd, amp)
    dX = rng.uniform(.05, .2, size=nd)
    lam = max_eig(rec0.reshape(-1), nd, MP)
    dt = .4 / (nd * lam / dX.min())
    fx, fn = FLUXES[scheme]
    runs = []
    u0 = field(rng, m, ps, nX, amp=amp)
    for rep in range(1 if scheme == "rusanov" else 3):
        rec = rec0 * (1 + (1e-9 * rng.normal(size=rec0.shape) if rep else 0.))
        u = u0.copy()
        r = rec.reshape(-1).copy()
        SOL.fv.fv_launcher(u, r, iv(nX), dt, dX, sources, time, fx, MP, mask)
        if not np.array_equal(r, rec.reshape(-1)):
            raise Exception("the reconstruction was changed")
        R = rec.reshape([x + 2 for x in nX] + [nt, N**nd, NV])
        M = mask.reshape([x + 2 for x in nX])
        faces, big = [], np.zeros(NV)
        for d in range(nd):
            ft = []
            for t in range(nt):
                fi = []
                for i in range(nX[0] + 2):
                    fj = []
                    for j in range(1 if nd == 1 else nX[1] + 2):
                        p = (i,) if nd == 1 else (i, j)
                        q = tuple(x + (1 if a == d else 0) for a, x in enumerate(p))
                        inside = q[d] < nX[d] + 2 and (nd == 1 or 0 < p[1 - d] < nX[1 - d] + 1)
                        fs = []
                        if inside and M[p] and M[q]:
                            for l, rr in zip(ends(R[p][t], nd, d, 1), ends(R[q][t], nd, d, 0)):
                                f = fn(l.copy(), rr.copy(), d, MP)
                                big = np.maximum(big, np.abs(f) * dt / dX[d])
                                fs.append({"l": F(l), "r": F(rr), "f": F(f)})
                        fj.append(fs)
                    fi.append(fj)
                ft.append(fi)
            faces.append(ft)
        size = np.abs(u0.reshape(-1, NV)).max(axis=0) + sc + big
        runs.append({"rec": F(rec.reshape(-1)), "u0": F(u0), "u1": F(u), "faces": faces,
                     "size": F(size)})
    D.emit("fv", m=mj(m), nX=nX, dt=F(dt), dX=F(dX), mask=mask.tolist(), sources=sources, time=time,
           scheme=scheme, scale=F(sc), runs=runs)


def uniform(name, nX, stepper, scheme):
    """A uniform state without sources is kept by a whole step."""
    rng = D.rng
    nd = len(nX)
    m = dict(MATERIALS[name], dp=[0., 0., 0.])
    ps = PSCALE[name]
    MP = par(m)
    if m["SOLID"]:                              # with no relaxation any distortion is kept
        m["POWER_LAW"] = False
        Q = state(rng, m, ps, shear=.01, comp=.01, J=0.)
    else:                                       # isotropic, hence relaxed
        r = m["rho0"] * 1.1
        Q = cons(m, r, ps, rng.normal(size=3) * .1 * np.sqrt(ps / r), 1.1**(1 / 3) * rand_rot(rng),
                 phi=rng.normal(size=LSET))
    MP = par(m)
    u = np.tile(Q, int(np.prod(nX)))
    ub = np.tile(Q, int(np.prod([x + 2 * N for x in nX])))
    mask = np.ones(int(np.prod([x + 2 for x in nX])), dtype=bool)
    dX = rng.uniform(.05, .2, size=nd)
    dt = .5 / (nd * max_eig(Q, nd, MP) / dX.min())
    if not m["SOLID"]:                          # rounding errors relax without being amplified
        m.update(mu=m["rho0"] * m["b02"] * dt, POWER_LAW=False, n=1.)
        MP = par(m)
    u0 = u.copy()
    fx = FLUXES[scheme][0]
    getattr(SOL, stepper)(u, ub, iv(nX), dt, dX, k_flag(stepper), fx, MP, mask)
    D.emit("uniform", nX=nX, u0=F(u0), u1=F(u), scale=F(scales(m, Q, ps)))


def k_flag(stepper):
    return stepper == "split_stepper"           # HALF_STEP on, STIFF off


def mid(name, nX, k):
    rng = D.rng
    nd = len(nX)
    m = dict(MATERIALS[name])
    ps = PSCALE[name]
    MP = par(m)
    amp = AMP.get(name, .03)
    cells = int(np.prod([x + 2 for x in nX]))
    w0, sc = rough(rng, m, ps, name, cells, N**nd, amp)
    w0 = w0.reshape(-1)
    dX = rng.uniform(.05, .2, size=nd)
    mask = masks(rng, nX, k % 2)
    lam = max_eig(w0, nd, MP)
    dt = .4 / (nd * lam / dX.min())
    w1 = w0.copy()
    GPRpy.solvers.split.midstepper(w1, dt, dX, MP, mask)
    size = sc + scales(m, w0[:NV], ps)
    D.emit("mid", m=mj(m), dX=F(dX), dt=F(dt), mask=mask.tolist(), w0=F(w0), w1=F(w1),
           size=F(size))


DG_TOL = 6e-6


def ader(name, nX, k, stiff, relax=None, fast=False):
    """One step of the ADER scheme; relax scales the material's relaxation rate; fast: strong waves at speed."""
    rng = D.rng
    nd = len(nX)
    m = dict(MATERIALS[name])
    ps = PSCALE[name]
    amp = AMP.get(name, .03)
    u = field(rng, m, ps, nX, amp=4 * amp, vel=.7, noise=.6) if fast else field(rng, m, ps, nX, amp=amp)
    if k % 3 == 2:
        m["dp"] = list(.1 * ps * rng.normal(size=3))
    dX = rng.uniform(.05, .2, size=nd)
    MP = par(m)
    lam = max_eig(u, nd, MP)
    dt = .5 / (nd * lam / dX.min())
    implicit = relax is not None
    if implicit:
        # a relaxation time that is relax times shorter than the step
        m["mu"] = m["rho0"] * m["b02"] * dt / (6 * relax)
        MP = par(m)
    ub = np.zeros(int(np.prod([x + 2 * N for x in nX])) * NV)
    bt = iv([[0, 0], [1, 1], [2, 2]][k % 3 if min(nX) >= N else 0] * nd)
    GPRpy.boundaries(u, ub, iv(nX), bt)
    mask = np.ones(int(np.prod([x + 2 for x in nX])), dtype=bool)
    if k % 2 == 1:
        own = rng.random(int(np.prod(nX))) < .6
        GPRpy.extend_mask(own, mask, iv(nX))
    elif nd == 2:
        GPRpy.extend_mask(np.ones(int(np.prod(nX)), dtype=bool), mask, iv(nX))
    wh = np.zeros(int(np.prod([n + 2 for n in nX])) * N**nd * NV)
    W.weno_launcher(wh, ub.copy(), iv(nX), MP)
    u0 = u.copy()
    SOL.ader_stepper(u, ub, iv(nX), dt, dX, stiff, 0, MP, mask)
    sc = np.maximum(scales(m, u0[:NV], ps), np.abs(u0.reshape(-1, NV)).max(axis=0))
    sc[NV - LSET:] += 1e-3
    # the predictor's own tolerance, amplified by the update
    tol = DG_TOL * (10 if stiff or implicit else 3) * (1 + np.abs(wh.reshape(-1, NV)).max(axis=0))
    tol = cross(tol, sc)
    D.emit("ader", m=mj(m), nX=nX, dt=F(dt), dX=F(dX), mask=mask.tolist(), wh=F(wh), u0=F(u0),
           u1=F(u), scale=F(sc), tol=F(tol + 1e-7 * sc), implicit=implicit)


def cross(tol, sc):
    """An error in any variable moves every other one through the fluxes."""
    return tol + sc * min(1e-3, (tol / sc)[:14].max())


D = Driver()
NAMES = list(MATERIALS)
if D.part == "weno":
    D.case("basis", basis)
    shapes = [[1], [2], [5], [8], [1, 1], [2, 3], [4, 2], [3, 4]] if N < 4 else \
        [[1], [3], [7], [1, 2], [6, 3], [3, 6]]
    for k in range(D.n(len(shapes) * 3, len(shapes) * 16)):
        s = shapes[k % len(shapes)]
        nm = NAMES[(k * 5) % len(NAMES)]
        D.case(f"weno-{nm}-{k}", weno, nm, s, k // len(shapes) + k)
elif D.part == "fv":
    shapes = [[1], [3], [5], [1, 2], [2, 2], [3, 2]]
    for k in range(D.n(24, 120)):
        nm = NAMES[k % len(NAMES)]
        s = shapes[(k * 7 + k // 6) % len(shapes)]
        sch = ["rusanov", "rusanov", "rusanov", "roe", "osher"][k % 5]
        if sch != "rusanov" and len(s) == 2:
            s = [2, 1]
        D.case(f"fv-{nm}-{k}", fv, nm, s, k // 2, sch, k % 3 != 0, k % 4 != 0)
    for k in range(D.n(12, 40)):
        nm = NAMES[k % len(NAMES)]
        D.case(f"uniform-{nm}-{k}", uniform, nm, [[4], [3, 2]][k % 2],
               ["ader_stepper", "split_stepper"][(k // 2) % 2], "rusanov")
elif D.part == "mid":
    shapes = [[2], [4], [2, 1], [2, 3]]
    for k in range(D.n(26, 130)):
        nm = NAMES[k % len(NAMES)]
        D.case(f"mid-{nm}-{k}", mid, nm, shapes[(k // 2) % 4], k)
elif D.part == "ader":
    names = ["air_nd", "water_nd", "copper_el", "jwl", "cc", "alu_gr", "copper", "alu_smg", "power",
             "bingham", "shearthin"]
    for k in range(D.n(11, 66)):
        nm = names[k % len(names)]
        D.case(f"ader1-{nm}-{k}", ader, nm, [[3], [2], [4]][k % 3], k, False)
    for k in range(D.n(3, 22)):
        nm = names[k % len(names)]
        D.case(f"ader2-{nm}-{k}", ader, nm, [[2, 2], [1, 3], [3, 2]][k % 3], k, False)
    for k in range(D.n(6, 36)):
        nm = ["air_nd", "copper_el", "water_nd", "air_nd"][k % 4]
        D.case(f"fast-{nm}-{k}", ader, nm, [[2, 2], [1, 3], [3, 1]][k % 3], 2 * k, False, None, True)
    for k in range(D.n(3, 20)):
        nm = names[k % 5]
        D.case(f"newton-{nm}-{k}", ader, nm, [[2], [3], [1, 1]][k % 3], 2 * k, True)
    for k in range(D.n(2, 8)):
        nm = ["air_nd", "water_nd"][k % 2]
        D.case(f"stiff-{nm}-{k}", ader, nm, [[2], [3]][k % 2], 2 * k, k % 4 >= 2, [3., 10.][k % 2])
D.done()
