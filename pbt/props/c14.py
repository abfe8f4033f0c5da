"""C14: matrix tools - determinants, inverses, traces and scalings."""
import numpy as np
import mpmath as mp
from hypothesis import strategies as st
import gen
from core import law, arr, close, flat, need, raises, seq, Frozen, Violation
import geometry
from matrix_balancing import balance


def s_mat(tier):
    """a seeded matrix with entries spread over `span` decades by a diagonal similarity, some rows or columns zeroed"""
    return st.fixed_dictionaries({"n": st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(1, 30)), "seed": st.integers(0, 2**32-1),
                                  "span": st.one_of(gen.unif(0, 100), gen.unif(0, 250)), "conv": st.sampled_from([0.9, 0.95, 0.5, 0.99]),
                                  "zero": st.sampled_from(["none", "none", "none", "row", "col", "tri", "diag", "sparse"]), "amp": gen.logf(1e-6, 0.9)})


def matrix(c, n=None, k=None, shift=0):
    """(A, D): A well scaled with |A| about amp, D the exponents of the bad scaling"""
    n = n or c["n"]
    rng = np.random.default_rng(c["seed"]+shift)
    A = rng.normal(size=(n, n))/np.sqrt(n)*c["amp"]
    z = c["zero"]
    if z == "row":
        A[rng.integers(n)] = 0
    elif z == "col":
        A[:, rng.integers(n)] = 0
    elif z == "tri":
        A = np.triu(A)
    elif z == "diag":
        A = np.diag(np.diag(A))
    elif z == "sparse":
        A = A*(rng.random((n, n)) < 0.4)
    d = np.round(rng.uniform(-0.5, 0.5, size=n)*c["span"]*np.log2(10))
    return A, d


def scaled(A, d):
    """exact: powers of two"""
    return A*2.0**(d[:, None]-d[None, :])


def norms(M):
    """norms of the rows and of the columns, whose squares may overflow"""
    b = max(np.abs(M).max(), 1e-300)
    return b*np.sqrt(((M/b)**2).sum(axis=1)), b*np.sqrt(((M/b)**2).sum(axis=0))


@law("C14", s_mat, 1500, 30000)
def balancing(c):
    """balance ends, keeps the zero pattern and the diagonal, multiplies entry (i, j) by d_i/d_j with powers of two d (so that the
       determinant and the spectrum are kept exactly), and leaves rows and columns of comparable norm"""
    A, d = matrix(c)
    B0 = scaled(A, d)
    B = B0.copy()
    got = arr(balance(B, c["conv"]), B0.shape, "balanced matrix")
    need(np.array_equal(np.diag(got), np.diag(B0)), "balance changed the diagonal")
    need(np.array_equal(got == 0, B0 == 0), "balance changed the zero pattern")
    n = c["n"]
    with np.errstate(all="ignore"):
        q = np.log2(np.abs(got/B0))
    nz = B0 != 0
    need(np.all(q[nz] == np.round(q[nz])), "factors are not powers of two")
    # consistent with exponents e_i - e_j: solve on the graph of nonzero entries
    e = np.full(n, np.nan)
    for start in range(n):
        if not np.isnan(e[start]):
            continue
        e[start] = 0
        todo = [start]
        while todo:
            i = todo.pop()
            for j in range(n):
                for (a, b, sg) in ((i, j, -1), (j, i, 1)):
                    if a != b and nz[a, b]:
                        v = e[i]+sg*q[a, b]
                        if np.isnan(e[j]):
                            e[j] = v
                            todo.append(j)
                        else:
                            need(e[j] == v, "scaling of entry (%d, %d) is not a similarity" % (a, b))
    off = got-np.diag(np.diag(got))
    r, s = norms(off)
    for i in range(n):
        if r[i] > 1e-100 and s[i] > 1e-100:
            # no power of two would reduce the norm by more than the convergence factor
            for f in (2.0, 0.5):
                new = np.hypot(r[i]/f, s[i]*f)
                need(new >= np.sqrt(c["conv"])*np.hypot(r[i], s[i])*(1-1e-9),
                     "row and column %d are not balanced: %g %g" % (i, r[i], s[i]))
    return c["zero"]+(",span>30" if c["span"] > 30 else ",span<=30") if n > 1 else None


def s_ext(tier):
    return st.fixed_dictionaries({"n": st.integers(1, 6), "seed": st.integers(0, 2**32-1), "conv": st.sampled_from([0.9, 0.95, 0.5, 0.99]),
                                  "diag": gen.unif(-250, 250), "span": gen.unif(0, 250),
                                  "put": st.lists(st.sampled_from([0.0, 5e-324, 1e-310, 1e-200, 1.0, 1e160, 1.7e308, -1.7e308, float("inf"), float("-inf"),
                                                                   float("nan")]), max_size=4)})


@law("C14", s_ext, 400, 8000)
def extreme_entries(c):
    """balance ends for every matrix, also with numbers at the ends of the range, infinities and undefined entries, and never
       changes the diagonal, whatever its size"""
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    d = np.round(rng.uniform(-0.5, 0.5, size=n)*c["span"]*np.log2(10))
    A = scaled(rng.normal(size=(n, n)), d)
    A[np.arange(n), np.arange(n)] = rng.normal(size=n)*10.0**c["diag"]
    for v in c["put"]:
        A[rng.integers(n), rng.integers(n)] = v
    A0 = A.copy()
    with np.errstate(all="ignore"):
        got = np.asarray(balance(A, c["conv"]))
    need(got.shape == (n, n), "balanced matrix has shape %s" % (got.shape,))
    need(np.array_equal(np.diag(got), np.diag(A0), equal_nan=True), "balance changed the diagonal %s to %s" % (np.diag(A0), np.diag(got)))
    need(np.all(np.isfinite(got) | ~np.isfinite(A0)), "balance made entries infinite or undefined")
    return "special" if c["put"] else "regular"


def mpdet(A, d=None):
    with mp.workdps(60):
        M = mp.eye(len(A))-mp.matrix(A.tolist())
        return mp.det(M)


def s_det(tier):
    return st.fixed_dictionaries({"c": s_mat(tier), "k": st.one_of(st.integers(1, 3), st.integers(1, 3), st.integers(1, 12))})


@law("C14", s_det, 600, 12000)
def determinants(c):
    """sln_det_3d, sln_det_blockdiagonal and balanced_slogdet give ln|det(1-M)| for each matrix of the stack, however badly
       scaled, and leave their arguments alone (references: 60 digit determinants)"""
    k, c = c["k"], c["c"]
    n = c["n"]
    Ms, refs, sc = [], [], []
    for i in range(k):
        A, d = matrix(c, 2*n, shift=i)
        D = mpdet(A)
        if abs(D) < mp.mpf(10)**-4:
            return None
        Ms.append(scaled(A, d))
        refs.append(float(mp.log(abs(D))))
    M = np.array(Ms)
    fr = Frozen(M=M)
    tol = 1e-10
    close(flat(geometry.balanced_slogdet(M, c["conv"]), k), refs, 1e-10, tol, "balanced_slogdet")
    fr.check()
    A, B, C, D = M[:, :n, :n].copy(), M[:, :n, n:].copy(), M[:, n:, :n].copy(), M[:, n:, n:].copy()
    fr = Frozen(A=A, B=B, C=C, D=D)
    close(flat(geometry.sln_det_3d(A, B, C, D, c["conv"]), k), refs, 1e-10, tol, "sln_det_3d")
    fr.check()
    need(np.array_equal(geometry.matrix_append([A, B, C, D]), M), "matrix_append does not assemble [[A, B], [C, D]]")
    P, d = matrix(c, n, shift=100)
    Q, e = matrix(c, n, shift=101)
    dp, dq = mpdet(P), mpdet(Q)
    if dp > 1e-4 and dq > 1e-4:
        X, Y = scaled(P, d), scaled(Q, e)
        fr = Frozen(X=X, Y=Y)
        close(flat(geometry.sln_det_blockdiagonal(X, Y), 1)[0], float(mp.log(dp*dq)), 1e-10, tol, "sln_det_blockdiagonal")
        fr.check()
    return c["zero"]+(",span>30" if c["span"] > 30 else ",span<=30")


def s_alg(tier):
    return st.fixed_dictionaries({"n": st.one_of(st.integers(1, 8), st.integers(1, 30)), "p": st.one_of(st.integers(1, 5), st.integers(1, 30)),
                                  "q": st.one_of(st.integers(1, 5), st.integers(1, 30)), "k": st.one_of(st.integers(1, 4), st.integers(1, 60)),
                                  "seed": st.integers(0, 2**32-1), "amp": gen.logf(1e-3, 0.8), "span": gen.unif(0, 100)})


@law("C14", s_alg, 600, 12000)
def algebra(c):
    """dot_3d_matrices, inv_3d_matrix, inv_3d_blockmatrix and trace_dot_3d act on each matrix of the stack as numpy does on one"""
    n, k = c["n"], c["k"]
    rng = np.random.default_rng(c["seed"])
    a, b = rng.normal(size=(k, c["p"], n)), rng.normal(size=(k, n, c["q"]))
    fr = Frozen(a=a, b=b)
    close(geometry.dot_3d_matrices(a, b), np.array([a[i]@b[i] for i in range(k)]), 1e-12, 1e-12, "dot_3d_matrices")
    fr.check()
    X = np.eye(n)[None]+c["amp"]*rng.normal(size=(k, n, n))
    if max(np.linalg.cond(x) for x in X) < 1e6:
        fr = Frozen(X=X)
        want = np.array([np.linalg.inv(x) for x in X])
        close(geometry.inv_3d_matrix(X), want, 1e-9, 1e-9, "inv_3d_matrix")
        fr.check()
        # columns of very different size: the pivots stay the same, the rows of the inverse scale exactly
        sc = 2.0**np.round(rng.uniform(-0.5, 0.5, size=n)*c["span"]*np.log2(10))
        close(geometry.inv_3d_matrix(X*sc)*sc[None, :, None], want, 1e-9, 1e-9, "inv_3d_matrix of scaled columns")
    Y = np.eye(2*n)[None]+c["amp"]*rng.normal(size=(k, 2*n, 2*n))/np.sqrt(2*n)
    Z = rng.normal(size=(k, 2*n, 2*n))
    conds = [np.linalg.cond(y[:n, :n]) for y in Y]+[np.linalg.cond(y) for y in Y]
    if max(conds) < 1e4:
        fr = Frozen(Y=Y, Z=Z)
        inv = np.array([np.linalg.inv(y) for y in Y])
        close(geometry.inv_3d_blockmatrix(Y), inv, 1e-8, 1e-8*np.abs(inv).max(), "inv_3d_blockmatrix")
        sc = 2.0**np.round(rng.uniform(-0.5, 0.5, size=2*n)*c["span"]*np.log2(10))
        close(geometry.inv_3d_blockmatrix(Y*sc)*sc[None, :, None], inv, 1e-8, 1e-8*np.abs(inv).max(), "inv_3d_blockmatrix of scaled columns")
        m1 = np.eye(2*n)[None]-Y
        want = np.array([np.trace(inv[i]@Z[i]) for i in range(k)])
        close(flat(geometry.trace_dot_3d(m1, Z), k), want, 1e-8, 1e-8*np.abs(inv).max()*np.abs(Z).sum(axis=(1, 2)).max(), "trace_dot_3d")
        fr.check()
        return "n>1" if n > 1 else "n=1"
    return None


def s_sc(tier):
    return st.fixed_dictionaries({"n": st.one_of(st.integers(1, 9), st.integers(1, 24)), "q": st.integers(1, 6), "k": st.integers(1, 3),
                                  "seed": st.integers(0, 2**32-1), "t": gen.unif(-30, 30), "w": gen.unif(0, 3),
                                  "off": st.one_of(st.just(5.0), gen.unif(-300, 700))})


@law("C14", s_sc, 600, 12000)
def scaling(c):
    """single_k_scale adds to the logarithms a term x_i - x_j, the same for every intermediate order, dynamic_scaling returns the
       exponentials for each wavenumber on its own: traces of all powers and determinants are those of the unscaled matrix"""
    rng = np.random.default_rng(c["seed"])
    n, q, k = c["n"], c["q"], c["k"]
    i, j = np.ogrid[0:n, 0:n]
    M = rng.normal(size=(k, n, n, q))*c["w"]-c["off"] + c["t"]*(i-j)[None, :, :, None]*rng.uniform(0.2, 1, size=(k, 1, 1, 1))
    fr = Frozen(M=M)
    E = arr(geometry.dynamic_scaling(M), (k, n, n, q), "dynamic_scaling")
    fr.check()
    for a in range(k):
        S = arr(geometry.single_k_scale(M[a]), (n, n, q), "single_k_scale")
        close(E[a], np.exp(S), 1e-12, 0, "dynamic_scaling of wavenumber %d" % a)
        D = S-M[a]
        close(D, np.repeat(D[:, :, :1], q, axis=2), 0, 1e-9, "scaling of different intermediate orders")
        D = D[:, :, 0]
        x = D[:, 0]
        close(D, x[:, None]-x[None, :], 0, 1e-9, "scaling is not x_i - x_j")
    return "n>2" if n > 2 else None


def s_err(tier):
    return st.fixed_dictionaries({"sh": st.lists(st.integers(1, 4), min_size=1, max_size=4), "sh2": st.lists(st.integers(1, 4), min_size=1, max_size=4),
                                  "n": st.integers(1, 4), "k": st.integers(1, 3)})


@law("C14", s_err, 300, 3000)
def shapes(c):
    """arguments that are no stacks of matrices, that cannot be cut into square blocks, or that do not match are refused with a
       ValueError"""
    a, b = np.ones(c["sh"]), np.ones(c["sh2"])
    lab = []
    if a.ndim != 3 or b.ndim != 3:
        raises(ValueError, lambda: geometry.dot_3d_matrices(a, b), "dot_3d_matrices of shapes %s, %s" % (a.shape, b.shape))
        lab.append("ndim")
    if a.ndim != 3:
        raises(ValueError, lambda: geometry.inv_3d_matrix(a), "inv_3d_matrix of shape %s" % (a.shape,))
        raises(ValueError, lambda: geometry.inv_3d_blockmatrix(a), "inv_3d_blockmatrix of shape %s" % (a.shape,))
    elif a.shape[1] != a.shape[2] or a.shape[1] % 2:
        raises(ValueError, lambda: geometry.inv_3d_blockmatrix(a), "inv_3d_blockmatrix of shape %s" % (a.shape,))
        lab.append("odd")
    A, B = np.zeros((c["k"], c["n"], c["n"])), np.zeros((c["k"], c["n"]+1, c["n"]+1))
    for p in range(4):
        args = [A]*4
        args[p] = B
        raises(ValueError, lambda: geometry.sln_det_3d(*args), "sln_det_3d with argument %d of another shape" % p)
    raises(ValueError, lambda: geometry.sln_det_blockdiagonal(A[0], B[0]), "sln_det_blockdiagonal of different shapes")
    return ",".join(lab) or "match"
