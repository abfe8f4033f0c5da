"""C10: ln det(1-M) per angular momentum projection."""
import numpy as np
import mpmath as mp
from hypothesis import strategies as st
import gen
import geo
import mats
from core import law, arr, close, flat, need, seq, Frozen, Violation
from scattering import scattering
from translation import translation


def blocks(G, m, k, n):
    return [arr(v, (len(k), n, n), "block") for v in seq(G.blockmatrices(m, k), 4)]


def big(B):
    return np.concatenate([np.concatenate([B[0], B[1]], axis=2), np.concatenate([B[2], B[3]], axis=2)], axis=1)


@law("C10", lambda tier: geo.case(tier), 1920, 12000)
def determinant(c):
    """single_m, and trace and trace of the square of the round-trip matrix, against a 40 digit evaluation of
       ln det(1 - A V B W) with independent Mie and translation coefficients: exterior and interior geometries, all
       classes of materials, lmax <= 4 and lssmax <= 5"""
    ks = [k for k in geo.ks(c) if geo.in_range(c, k)]
    if not ks:
        return None
    k = np.array(ks)
    m, lmax = c["t"]["m"], c["t"]["lmax"]
    G = geo.make(c)
    fr = Frozen(k=k)
    v = flat(G.single_m(m, k), len(ks), "single_m")
    M = big(blocks(geo.make(c), m, k, lmax-max(1, m)+1))
    fr.check()
    for j, kj in enumerate(ks):
        ld, R, tol = geo.lndet(c, kj, m)
        close(v[j], ld, 1e-8, tol, "ln det(1-M), m=%d, k=%g" % (m, kj))
        tr = sum(R[i, i] for i in range(R.rows))
        R2 = R*R
        close(np.trace(M[j]), float(tr), 1e-8, tol, "trace of M, m=%d, k=%g" % (m, kj))
        close(np.trace(M[j]@M[j]), float(sum(R2[i, i] for i in range(R.rows))), 1e-8, tol, "trace of M^2, m=%d, k=%g" % (m, kj))
    return geo.label(c)+(",m=0" if m == 0 else ",m>0")


@law("C10", lambda tier: geo.case(tier, 9 if tier == "quick" else 14, 11 if tier == "quick" else 18, 1), 120, 1200)
def determinant_large(c):
    """as determinant with lmax <= 9 and lssmax <= 11 (14 and 18 in the thorough tier)"""
    return determinant(c)


def s_asm(tier):
    hi = 40 if tier == "quick" else 70
    return st.one_of(geo.case(tier, 12, 14, 3), geo.case(tier, hi, hi+6, 2, shp=geo.shape((0.02, 3.0))))


@law("C10", s_asm, 240, 2000)
def assembly(c):
    """single_m, the blocks and their traces for orders up to 40 (70), against numpy's determinant of the operator assembled
       symmetrically from separately evaluated Mie and translation coefficients (which C04, C05 and C08 decide)"""
    ks = [k for k in geo.ks(c) if geo.in_range(c, k)]
    if not ks:
        return None
    k, s = np.array(ks), c["s"]
    m, lmax, lss = c["t"]["m"], c["t"]["lmax"], c["t"]["lss"]
    lmin = max(1, m)
    n1, n2 = lmax-lmin+1, lss-lmin+1
    a, b, md = [mats.make(c[i]) for i in ("a", "b", "med")]
    A = arr(scattering(a, md).mie(k, lmin, lmax, s["r1"]), (3, len(k), n1), "mie")
    B = scattering(b, md).mie(k, lmin, lss, s["r2"]) if s["ext"] else scattering(md, b).mie_internal(k, lmin, lss, s["r2"])
    B = arr(B, (3, len(k), n2), "mie")
    V = [arr(v, (len(k), n1, n2), "translation") for v in seq(translation(lmax, lss, m, md, s["L"], k, s["ext"]).trans_ab(), 5)]
    got = flat(geo.make(c).single_m(m, k), len(k), "single_m")
    M = big(blocks(geo.make(c), m, k, n1))
    for j in range(len(k)):
        f = np.exp(V[4][j]+(A[2, j][:, None]+B[2, j][None, :])/2)
        if not np.all(np.isfinite(f)):
            return None
        L = np.block([[V[0][j]*f, V[2][j]*f], [V[2][j]*f, V[0][j]*f]])*np.concatenate([A[0, j], A[1, j]])[:, None]
        R = np.block([[V[1][j]*f, V[3][j]*f], [V[3][j]*f, V[1][j]*f]]).T*np.concatenate([B[0, j], B[1, j]])[:, None]
        P = L@R
        sg, ld = np.linalg.slogdet(np.eye(2*n1)-P)
        w = np.linalg.norm(np.abs(L)@np.abs(R))
        if not np.isfinite(ld) or sg <= 0 or w > 1e6:
            return None
        sm = np.linalg.svd(np.eye(2*n1)-P, compute_uv=False)[-1]
        tol = 1e-12*w*(1+n1)/max(sm, 1e-6)+1e-14*n1
        close(got[j], ld, 1e-10, tol, "ln det, m=%d, lmax=%d, k=%g" % (m, lmax, ks[j]))
        close(np.trace(M[j]), np.trace(P), 1e-10, 1e-12*w*(1+n1), "trace of M, m=%d, k=%g" % (m, ks[j]))
        close(np.trace(M[j]@M[j]), np.trace(P@P), 1e-10, 1e-12*w*w*(1+n1), "trace of M^2, m=%d, k=%g" % (m, ks[j]))
    return geo.label(c)+(",l>12" if lmax > 12 else "")


def s_chan(tier):
    return geo.case(tier, 8, 10, 3)


@law("C10", s_chan, 900, 6000)
def channels(c):
    """the eight channels of blockmatrices_channels add up to the four blocks; supermatrix and single_m are built from
       these blocks: ln det of the balanced matrix equals numpy's on the assembled one"""
    ks = [k for k in geo.ks(c) if geo.in_range(c, k)]
    if not ks:
        return None
    k = np.array(ks)
    m, lmax = c["t"]["m"], c["t"]["lmax"]
    n = lmax-max(1, m)+1
    G = geo.make(c)
    B = blocks(G, m, k, n)
    C = [arr(v, (len(k), n, n), "channel") for v in seq(G.blockmatrices_channels(m, k), 8)]
    for i, (p, q, o) in enumerate(((0, 1, 0), (4, 5, 1), (6, 7, 2), (2, 3, 3))):
        s = np.abs(C[p])+np.abs(C[q])
        close(C[p]+C[q], B[o], 1e-12, 1e-12*s, "sum of channels %d and %d" % (p, q))
    S = arr(G.supermatrix(m, k), (len(k), 2*n, 2*n))
    close(S, big(B), 1e-13, 0, "supermatrix")
    sg, ld = np.linalg.slogdet(np.eye(2*n)[None]-big(B))
    mag = np.abs(big(B)).max(axis=(1, 2))
    close(flat(G.single_m(m, k), len(k)), ld, 1e-9, 1e-12*(1+mag), "single_m versus slogdet of the assembled matrix")
    return geo.label(c)


def s_phys(tier):
    return geo.case(tier, 5, 6, 3)


@law("C10", s_phys, 1200, 8000)
def positivity(c):
    """for bodies without magnetic response in vacuum, or of one perfect conductor kind, and in exterior geometry the
       determinant lies between zero and one: ln det <= 0"""
    if mats.magnetic(c["a"]) or mats.magnetic(c["b"]):
        c["a"] = {"pec": 1} if mats.magnetic(c["a"]) else c["a"]
        c["b"] = {"pec": 1} if mats.magnetic(c["b"]) else c["b"]
    c["med"] = {"e": [], "b": []}
    ks = [k for k in geo.ks(c) if geo.in_range(c, k)]
    if not ks:
        return None
    v = flat(geo.make(c).single_m(c["t"]["m"], np.array(ks)), len(ks))
    need(np.all(np.isfinite(v)), "ln det is not finite: %r" % v)
    tol = np.array([geo.tol_rel(c, k) for k in ks])
    need(np.all(v <= tol*100), "positive ln det %r" % v)
    return geo.label(c) if np.any(v < -1e-12) else None
