"""Linear and nonlinear solvers, one-variable integrators, polynomials."""
from gprlib import *

S = GPRpy.scipy
SPLIT = GPRpy.solvers.split


def orth(rng, n):
    q, r = np.linalg.qr(rng.normal(size=(n, n)))
    return q


def matrix(rng, n, kind):
    if kind == "general":
        return orth(rng, n) @ np.diag(np.exp(rng.uniform(-1.5, 1.5, size=n))) @ orth(rng, n)
    if kind == "definite":
        a = rng.normal(size=(n, n))
        q = orth(rng, n)
        return q @ np.diag(rng.uniform(.5, 5., size=n)) @ q.T + .3 * (a - a.T)
    if kind == "identity":
        return rng.uniform(.5, 2) * np.eye(n)
    if kind == "near identity":
        return np.eye(n) + .1 * rng.normal(size=(n, n)) / n
    if kind == "cycle":                        # minimal residuals stand still until the last step
        return np.roll(np.eye(n), 1, axis=0)
    if kind == "reflection":
        return np.diag(np.where(np.arange(n) % 2, -1., 1.)) * rng.uniform(.5, 2)
    if kind == "triangular":
        return np.triu(rng.normal(size=(n, n))) * .3 + np.diag(rng.uniform(1, 2, size=n))
    raise ValueError(kind)


KINDS = ["general", "definite", "near identity", "triangular", "identity", "cycle", "reflection"]


def preconditioner(rng, A, kind):
    n = len(A)
    if kind == "none":
        return None
    if kind == "diagonal":
        d = np.diag(A)
        return np.diag(1 / np.where(np.abs(d) < .3, 1., d))
    if kind == "scale":
        return np.eye(n) * rng.choice([-1., 1.]) * 10.**rng.uniform(-3, 3)
    if kind == "near inverse":
        return np.linalg.inv(A) + .05 * rng.normal(size=(n, n))
    return orth(rng, n) @ np.diag(np.exp(rng.uniform(-.7, .7, size=n))) @ orth(rng, n)


PREC = ["none", "near inverse", "diagonal", "scale", "general"]


def linear(k, follow):
    rng = D.rng
    n = 1 + k % 8
    kind = KINDS[(k // 3) % len(KINDS)]
    A = matrix(rng, n, kind)
    pk = PREC[k % 5]
    M = preconditioner(rng, A, pk)
    b = rng.normal(size=n) * 10.**rng.integers(-2, 3)
    x0 = rng.normal(size=n) if k % 4 else np.zeros(n)
    tol = [1e-5, 1e-8, 1e-2, 1e-10][(k // 5) % 4]
    if k % 11 == 3:
        b = np.zeros(n)
    if k % 13 == 5:                            # within the tolerance from the start
        x0 = np.linalg.solve(A, b + .5 * tol * max(1, np.linalg.norm(b)) * orth(rng, n)[0])
    outer = []
    for _ in range(k % 4 if k % 3 else 0):
        outer.append(orth(rng, n)[0])
    if len(outer) >= 2 and k % 5 == 0 and not follow:
        # what solving the same system twice leaves behind
        outer[1] = outer[0] * [1., -1., 1.][k % 3] + orth(rng, n)[0] * [0., 0., 1e-15, 1e-12, 1e-9][(k // 10) % 5]
    if outer and k % 17 == 4 and not follow:
        g = A @ x0 - b
        outer[-1] = g / np.linalg.norm(g)
    inner = [30, n, 2, 1][(k // 7) % 4]
    keep = [3, 1, 10][k % 3]
    cycles = 1 + k % 3 if follow else 1000
    if not follow and kind not in ("definite", "near identity", "identity") or pk == "general":
        inner = 30
    if follow:
        outer = outer[:max(0, n - 1)]
        inner = min(inner, 4)
        tol = min(tol, 1e-5)
    v = GPRpy.VectorVec()
    for o in outer:
        v.append(o)
    kw = dict(A=A, b=b, x0=x0, tol=tol, maxiter=cycles, inner_m=inner, outer_k=keep, outer_v=v)
    if M is not None:
        kw["M"] = M
    out = S.lgmres_wrapper(**kw)
    D.emit("linear", A=F(A), M=F(np.eye(n) if M is None else M), b=F(b), x0=F(x0), tol=F(tol), cycles=cycles, inner=inner,
           keep=keep, outer=[F(o) for o in outer], follow=follow, out=F(out), kind=kind, prec=pk)


def lattice(k):
    """Systems of MC_Krylov: small integers, on which minimal residuals may stand still."""
    rng = D.rng
    n = [2, 2, 3][k % 3]
    while True:
        A = rng.integers(-2, 3, size=(n, n)).astype(float)
        if k % 4 == 1:                         # a first cycle without progress: (A b, b) = 0
            A = np.round(A - A.T) + np.diag([1., -1., 0.][:n])
        if abs(np.linalg.det(A)) > .5:
            break
    b = np.array([[1., 0., 0.], [1., 1., 0.], [2., -1., 1.], [1., -1., 2.]][k % 4][:n])
    M = np.eye(n) / 2
    M[0, 0] = [.5, 1.][k % 2]
    inner, keep, cycles = 1 + (k // 2) % n, (k // 5) % 3, 1 + k % 4
    v = GPRpy.VectorVec()
    out = S.lgmres_wrapper(A=A, b=b, M=M, x0=np.zeros(n), tol=1e-9, maxiter=cycles, inner_m=inner, outer_k=keep, outer_v=v)
    D.emit("linear", A=F(A), M=F(M), b=F(b), x0=F(np.zeros(n)), tol=F(1e-9), cycles=cycles, inner=inner,
           keep=keep, outer=[], follow=True, out=F(out), kind="lattice", prec="diagonal")


def root(k):
    rng = D.rng
    n = 1 + k % 6
    kind = ["poly", "poly", "saturating"][k % 3]
    J = matrix(rng, n, ["near identity", "definite", "general"][(k // 3) % 3])
    S2, C = np.zeros((n, n)), np.zeros(n)
    r = rng.normal(size=n) * [1., 3., .1][k % 3]
    tol = [6.0554544523933429e-06, 1e-8, 1e-10][(k // 2) % 3]
    if kind == "poly":
        s = np.linalg.svd(J)[1].min()
        S2 = rng.normal(size=(n, n)) * .05 * s / n
        C = rng.normal(size=n) * .02 * s
        f = lambda x: J @ x + S2 @ x**2 + C * x**3
        start = r + rng.normal(size=n) * [.1, .5, 1e-9, 0.][(k // 5) % 4]
        while True:                            # roots without turning points nearby
            seg = [r + t * (start - r) for t in np.linspace(-1, 2, 7)]
            jac = lambda x: J + 2 * S2 * x + np.diag(3 * C * x**2)
            if all(np.linalg.cond(jac(x)) < 1e2 and np.linalg.norm(np.linalg.solve(jac(r), jac(x)) - np.eye(n), 2) < .6
                   for x in seg):
                break
            r, start = .7 * r, .7 * start
    else:
        f = lambda x: J @ (x / np.sqrt(1 + x**2))
        r = rng.normal(size=n) * .3
        start = r + rng.normal(size=n) * .2
        if n < 3:                              # full Newton steps overshoot
            J = np.eye(n)
            r *= .1
            start = rng.choice([-1., 1.], size=n) * rng.uniform(1.05, 1.3, size=n)
    d = f(r)
    if k % 7 == 6:
        start, d = np.zeros(n), np.zeros(n)
        r = np.zeros(n)
    calls = []

    def func(x):
        calls.append(1)
        return f(x) - d
    out = S.newton_krylov(func, start.copy(), tol)
    D.emit("root", J=F(J), S=F(S2), C=F(C), d=F(d), x0=F(start), root=F(r), tol=F(tol), kind=kind, out=F(out),
           near=bool(np.abs(start - r).max() < .2 and tol < 1e-5), calls=len(calls))


def rk(k):
    rng = D.rng
    kind = "poly" if k % 3 else "root"
    n = [1, 2, 4, 8, 5][k % 5]
    y = rng.uniform(.2, 1.5)
    kk, c, p = 0., 0., [0.]
    if kind == "poly":
        p = list(rng.normal(size=1 + k % 4))
        t = 10.**rng.uniform(-2, -.3)
        f = lambda v: float(sum(a * v**i for i, a in enumerate(p))) if abs(v) < 1e9 else float('nan')
    else:
        kk, c = rng.uniform(.2, 2.), rng.uniform(0, .1)
        t = rng.uniform(.1, 1.6) * np.sqrt(y - c) / kk
        f = lambda v: float(-kk * np.sqrt(v - c)) if v >= c else float("nan")
    out = SPLIT.runge_kutta_launcher(f, t, y, n)
    D.emit("rk", kind=kind, k=F(kk), c=F(c), p=F(p), t=F(t), y=F(y), n=n, out=F(out))


def stiff(k):
    rng = D.rng
    y = rng.uniform(.2, 2.)
    p = list(rng.normal(size=2 + k % 2) * [1., .2, 5.][k % 3])
    if k % 2 == 0:
        p[1] = -abs(p[1])
    slope = max(abs(sum(a * i * v**(i - 1) for i, a in enumerate(p) if i)) for v in (y, y / 2, 1.5 * y))
    t = 10.**rng.uniform(-2, -.5) / max(slope, .3)
    out = SPLIT.stiff_ode_solve(y, t, lambda v: float(sum(a * v**i for i, a in enumerate(p))))
    D.emit("stiff", p=F(p), t=F(t), y=F(y), out=F(out))


def poly(k):
    rng = D.rng
    m = 1 + k % 6
    c = rng.normal(size=m)
    n = int(rng.integers(0, m))
    x = rng.uniform(-2, 2)
    q = GPRpy.classes.poly(c)
    D.emit("poly", p=F(c), x=F(x), n=n, value=F(q.eval(x)), int=F(q.intt().coef), diff=F(q.diff(n).coef))


D = Driver()
for k in range(D.n(420, 6000)):
    D.case(f"l/{k}", linear, k, False)
    D.case(f"c/{k}", linear, k, True)
for k in range(D.n(600, 6000)):
    D.case(f"s/{k}", lattice, k)
for k in range(D.n(200, 3000)):
    D.case(f"n/{k}", root, k)
for k in range(D.n(120, 1500)):
    D.case(f"rk/{k}", rk, k)
    D.case(f"stiff/{k}", stiff, k)
for k in range(D.n(60, 400)):
    D.case(f"p/{k}", poly, k)
D.done()
