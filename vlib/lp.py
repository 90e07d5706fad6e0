"""Candidate optima of Tol and ChebNorm by linear programming; every candidate is re-evaluated exactly, so the LP solver is not trusted."""
import numpy as np
import cvxopt
import cvxopt.solvers

cvxopt.solvers.options['glpk'] = {'msg_lev': 'GLP_MSG_OFF'}


def lp(c, G, h):
    """argmin c.x subject to G x <= h (None when no optimum was found)."""
    try:
        r = cvxopt.solvers.lp(cvxopt.matrix(np.array(c, float)), cvxopt.matrix(np.array(G, float)), cvxopt.matrix(np.array(h, float)), solver='glpk')
    except (ValueError, ArithmeticError, TypeError):
        return None
    if r['status'] != 'optimal':
        return None
    return np.array(r['x']).ravel()


def optimum(A, b, w, cons, kind, mu=None):
    """x maximizing Tol (kind 'Tol') or minimizing ChebNorm over lb <= C x <= ub (with mu: minus or plus mu times the sum of the violations);
    None when the LP has no optimum."""
    n, m = len(A), len(A[0])
    lo = np.array([[p[0] for p in r] for r in A], float)
    hi = np.array([[p[1] for p in r] for r in A], float)
    G, h = [], []
    for i in range(n):
        bm, br = (b[i][0] + b[i][1]) / 2, (b[i][1] - b[i][0]) / 2
        if w[i] == 0:           # the row contributes the constant 0
            G.append([0.] * (2 * m) + [1. if kind == 'Tol' else -1.])
            h.append(0.)
            continue
        s = 1. / w[i]
        if kind == 'Tol':      # t/w <= br - far
            s_t, rad = s, br
        else:                  # br + far <= t/w
            s_t, rad = -s, -br
        G.append(list(hi[i]) + list(-lo[i]) + [s_t])
        h.append(bm + rad)
        G.append(list(-lo[i]) + list(hi[i]) + [s_t])
        h.append(rad - bm)
    for j in range(2 * m):
        e = [0.] * (2 * m + 1)
        e[j] = -1.
        G.append(e)
        h.append(0.)
    for c, l, u in cons or []:
        if u is not None:
            G.append(list(c) + [-v for v in c] + [0.])
            h.append(u)
        if l is not None:
            G.append([-v for v in c] + list(c) + [0.])
            h.append(-l)
    c = [0.] * (2 * m) + [-1. if kind == 'Tol' else 1.]
    if mu is not None:
        # the rows of the constraints, which are the last ones, get one slack each
        k = sum((l is not None) + (u is not None) for _, l, u in cons)
        G = [r + [0.] * k for r in G]
        for i in range(k):
            G[len(G) - k + i][2 * m + 1 + i] = -1.
        for i in range(k):
            G.append([0.] * (2 * m + 1) + [-1. if j == i else 0. for j in range(k)])
            h.append(0.)
        c += [mu] * k
    z = lp(c, G, h)
    return None if z is None else z[:m] - z[m:2 * m]
