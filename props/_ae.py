"""Spec: the quadratic amplitude equations linearised about their fixed point.

  A1' = g1 A1 + 2 w1 n A2 A3 sin Y      A2' = g2 A2 - 2 w2 n A1 A3 sin Y
  A3' = g3 A3 - 2 w3 n A1 A2 sin Y
  Y'  = Dw + 2 n cos Y (w1 A2 A3/A1 - w2 A1 A3/A2 - w3 A1 A2/A3)
At the fixed point  2 n w1 A2 A3 sin Y / A1 = -g1, etc., cot Y = -q, Dw = -q (g1+g2+g3).
"""


def log_linearisation(g, q):
    """M: linearisation in (ln A1, ln A2, ln A3, Y), entries in g and q only.

    d(A1'/A1) = 2 n w1 (A2 A3/A1) sin Y (-x1 + x2 + x3 + cot Y dY) etc."""
    s = g[0] + g[1] + g[2]
    ct = -q
    # u1 = 2 n w1 A2A3/A1 sinY = -g1 ; u2 = -2 n w2 A1A3/A2 sinY = -g2 ; u3 = -g3
    u = [-g[0], -g[1], -g[2]]
    M = []
    sgn = ((-1, 1, 1), (1, -1, 1), (1, 1, -1))
    for i in range(3):
        M.append([u[i] * k for k in sgn[i]] + [u[i] * ct])
    # Y' = Dw + cot Y (u1 + u2 + u3): derivative wrt x_j: cotY sum_i u_i sgn_ij ;
    # wrt Y at fixed n A-products: -2 n sin Y (...) = -(u1 + u2 + u3)
    row = []
    for j in range(3):
        row.append(ct * (u[0] * sgn[0][j] + u[1] * sgn[1][j] + u[2] * sgn[2][j]))
    row.append(-(u[0] + u[1] + u[2]))
    M.append(row)
    assert s is not None
    return M


def matmul(A, B):
    n = len(A)
    return [[sum((A[i][k] * B[k][j] for k in range(1, n)), A[i][0] * B[0][j]) for j in range(n)]
            for i in range(n)]


def charpoly(M):
    """Faddeev-LeVerrier: coefficients c1..cn of s^n + c1 s^(n-1) + ..."""
    n = len(M)
    A = [row[:] for row in M]
    cs = []
    for k in range(1, n + 1):
        tr = sum((A[i][i] for i in range(1, n)), A[0][0])
        ck = tr / (-k)
        cs.append(ck)
        if k < n:
            B = [[A[i][j] + (ck if i == j else 0) for j in range(n)] for i in range(n)]
            A = matmul(M, B)
    return cs


def hurwitz4(cs):
    c1, c2, c3, c4 = cs
    return [c1, c4, c1 * c2 * c3 - c3 * c3 - c1 * c1 * c4]
