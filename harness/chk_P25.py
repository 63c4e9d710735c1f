"""P25: integer least squares."""
from fractions import Fraction
import numpy as np
from vlib import toint, INEXACT, BADTYPE
from cssrlib import mlambda as ml

LIM = 2_000_000_000


def det(M):
    M = [[Fraction(x) for x in r] for r in M]
    n, d = len(M), Fraction(1)
    for i in range(n):
        p = next((r for r in range(i, n) if M[r][i] != 0), None)
        if p is None:
            return 0
        if p != i:
            M[i], M[p] = M[p], M[i]
            d = -d
        d *= M[i][i]
        for r in range(i+1, n):
            f = M[r][i]/M[i][i]
            M[r] = [a-f*b for a, b in zip(M[r], M[i])]
    return int(d)


def adj(M):
    n = len(M)
    return [[(-1)**(i+j)*det([[M[r][c] for c in range(n) if c != i]
                              for r in range(n) if r != j])
             for j in range(n)] for i in range(n)]


def matrix(rng, n):
    """integer positive definite matrix, often badly conditioned"""
    while True:
        U = np.eye(n, dtype=int)
        for _ in range(rng.randint(0, 2*n)):
            i, j = rng.sample(range(n), 2) if n > 1 else (0, 0)
            if i != j:
                U[i] += rng.choice([-2, -1, 1, 2, 3])*U[j]
        D = np.diag([rng.choice([1, 1, 2, 3, 5, 8, 20, 60]) for _ in range(n)])
        M = U.T@D@U
        if rng.random() < .25:
            B = np.array([[rng.randint(-3, 3) for _ in range(n)]
                          for _ in range(n)])
            M = B.T@B+np.eye(n, dtype=int)*rng.randint(1, 4)
        if abs(M).max() <= (3000 if n < 4 else 400) and det(M.tolist()) > 0:
            return M.tolist()


def ints(z):
    z = np.asarray(z, dtype=float)
    return [toint(round(x)) if abs(x-round(x)) < 1e-6 else INEXACT for x in z]


def feasible(M, A, den, s):
    """can TLC enumerate the ball?"""
    n, D, Q = len(M), det(M), adj(M)
    vol = 1
    for i in range(n):
        if s*Q[i][i] > LIM:
            return False
        w = (s*Q[i][i]/D)**.5+1
        vol *= 2*w/den+2
        if w+abs(A[i]) > 10000:
            return False
    x = max((s*Q[i][i]/D)**.5 for i in range(n))+2*den
    m = max(abs(v) for r in M for v in r)
    return vol < 6000 and n*n*m*x*x < LIM


def solve(run, M, A, den, k, how):
    Q = np.linalg.inv(np.array(M, dtype=float))
    Q = (Q+Q.T)/2
    a = np.array(A)/den

    def f():
        if how == 0:
            z, s, nfix, _ = ml.mlambda(a, Q, ncands=k)
        elif how == 1:
            z, s, nfix, _ = ml.mlambda(a, Q, ncands=k, parmode=2, P0=0.0)
        else:
            L, d = ml.ldldecom(Q)
            L, d, Z = ml.reduction(L, d)
            fn = ml.msearch if how == 2 else ml.estimILS
            zz, s = fn(L, d, Z.T@a, k)
            z, nfix = np.round(np.linalg.inv(Z.T))@zz, len(a)
        return z, s, nfix
    r, exc = run.call(f)
    if exc:
        return dict(ok=0), exc, None
    z, s, nfix = r
    z = np.asarray(z)
    if z.shape != (len(A), k):
        return dict(ok=1, n=BADTYPE, z=[[0]*len(A)], s=[0], nfix=0,
                    best=1), "", None
    sq = []
    for v in s:
        w = float(v)*den*den
        if not np.isfinite(w):
            w = -1.
        sq.append(int(round(w)) if abs(w-round(w)) < 1e-4*max(1, w*1e-3)
                  and 0 <= w < LIM else INEXACT)
    if np.abs(z).max() > 9000:
        return dict(ok=1, n=BADTYPE, z=[[0]*len(A)], s=[0], nfix=0,
                    best=1), "", None
    return dict(ok=1, n=k, z=[ints(z[:, i]) for i in range(k)], s=sq,
                nfix=toint(nfix), best=1), "", \
        None if INEXACT in sq else max(sq)


def decor(run, M):
    Q = np.linalg.inv(np.array(M, dtype=float))
    Q = (Q+Q.T)/2

    def f():
        L, d = ml.ldldecom(Q)
        L, d, Z = ml.reduction(L, d)
        return L.T@np.diag(d)@L*det(M), Z
    r, exc = run.call(f)
    out = {}
    if not exc:
        q, Z = r
        out = dict(ok=1, unit=1, zt=[ints(x) for x in Z], q=[ints(x) for x in q])
        if max(abs(v) for x in out["zt"] for v in x) > 20000:
            return
    run.ev("dec", out=out, exc=exc, M=M)


def main(run):
    rng = run.rng
    run.model_check("Ils_MC")
    done = big = 0
    target = 260 if run.quick else 4000
    while done < target:
        n = rng.choice([1, 2, 2, 3, 3, 3, 4, 4])
        den = rng.choice([1, 2, 4, 8, 10])
        M = matrix(rng, n)
        run.hist(x=0)
        if n < 4 or abs(np.array(M)).max() < 60:
            decor(run, M)
        for _ in range(3):
            A = [rng.randint(-6*den, 6*den) for _ in range(n)]
            if rng.random() < .15:        # exactly half way, or integers
                A = [rng.choice([den*rng.randint(-3, 3),
                                 den//2+den*rng.randint(-3, 3)]) for _ in A]
            k = rng.choice([2, 2, 2, 2, 1, 3, 4])
            out, exc, s = solve(run, M, A, den, k, rng.choice([0, 0, 1, 2, 3]))
            if not exc and s is not None and not feasible(M, A, den, s):
                # a wrong result is far away: check against the rounded one
                big += 1
                R = np.array([round(a/den) for a in A])
                pts = {tuple(R+d*np.eye(n, dtype=int)[i])
                       for i in range(n) for d in (-2, -1, 0, 1, 2)}
                x = [np.array(A)-den*np.array(p) for p in pts]
                if s < 0 or s > sorted(int(v@np.array(M)@v)
                                       for v in x)[k-1]:
                    out = dict(out, best=0)
                else:
                    continue
            done += 1
            run.ev("ils", out=out, exc=exc, M=M, A=A, den=den, k=k)
    run.notes["too_large_for_enumeration"] = big
    run.validate("Ils_Trace", nproc=7)
