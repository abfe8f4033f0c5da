"""C12: the sum over the angular momentum projection and the round-trip expansion."""
import numpy as np
import mpmath as mp
from hypothesis import strategies as st
import gen
import geo
import mats
import ref
from core import law, arr, close, flat, need, raises, Frozen
import geometry


def sel(c, xmax=2e4):
    return [k for k in geo.ks(c) if geo.in_range(c, k, xmax)]


def m_values(c, ks):
    """ln det of every subspace, each from an instance of its own"""
    return np.array([flat(geo.make(c).single_m(m, np.array(ks)), len(ks)) for m in range(c["t"]["lmax"]+1)])


def stop(v, p, margin=1.02):
    """allowed deviation of every entry from the full sum: what is left after the first subspace that changes the largest
       entry by less than p/10 relatively"""
    part = v[0].copy()
    full = v[0]+2*v[1:].sum(axis=0)
    worst = np.zeros_like(full)
    hit = False
    for m in range(1, len(v)):
        i = np.abs(part).argmax()
        new = part+2*v[m]
        # two entries may be tied for the largest one
        cand = (np.abs(part) >= np.abs(part[i])*(1-1e-9)) | (np.abs(new) >= np.abs(new).max()*(1-1e-9))
        ch = np.abs(new[cand]-part[cand])
        if np.any(ch <= margin*p/10*np.abs(part[cand])+1e-15):
            hit = True
        part = new
        if hit:
            worst = np.maximum(worst, np.abs(full-part))
    return full, worst


def s_sum(tier):
    return st.fixed_dictionaries({"c": st.one_of(geo.case(tier, 9, 11, 4, krange=(1e-3, 5)), geo.case(tier, 9, 11, 4, krange=(1e-3, 5)),
                                                 geo.case(tier, 22, 24, 2, krange=(1e-3, 5), shp=geo.shape((0.02, 1.0)))),
                                  "p": gen.logf(1e-12, 0.3, 3, special=(1e-4,))})


@law("C12", s_sum, 650, 10000)
def full_sum(c):
    """mSumme is the m=0 term plus twice the terms m=1..lmax, cut only where the largest entry has converged to a tenth of the
       requested precision"""
    p, c = c["p"], c["c"]
    ks = sel(c)
    if not ks:
        return None
    k = np.array(ks)
    fr = Frozen(k=k)
    got = flat(geo.make(c, precision=p).mSumme(k), len(ks), "mSumme")
    fr.check()
    v = m_values(c, ks)
    full, slack = stop(v, p)
    close(got, full, 1e-11, slack+1e-14*(1+np.abs(v).sum(axis=0)), "mSumme at precision %g" % p)
    return geo.label(c)+(",cut" if np.any(slack > 1e-9*np.abs(full)) else ",all") if c["t"]["lmax"] > 1 else None


def s_static(tier):
    return st.fixed_dictionaries({"c": st.one_of(geo.case(tier, 9, 11, 1), geo.case(tier, 16, 18, 1, shp=geo.shape((0.02, 1.0)))),
                                  "p": gen.logf(1e-12, 0.3, 3, special=(1e-4,))})


@law("C12", s_static, 390, 6000)
def static_sum(c):
    """the same for zero frequency, by mSumme_k0 and by mSumme with the wavenumber zero"""
    p, c = c["p"], c["c"]
    v = np.array([flat(geo.make(c).single_m_k0(m), 1) for m in range(c["t"]["lmax"]+1)])
    full, slack = stop(v, p, 1.1)
    tol = slack+1e-14*(1+np.abs(v).sum(axis=0))
    close(flat(geo.make(c, precision=p).mSumme_k0(), 1, "mSumme_k0"), full, 1e-11, tol, "mSumme_k0 at precision %g" % p)
    close(flat(geo.make(c, precision=p).mSumme(np.array([0.0])), 1, "mSumme"), full, 1e-11, tol, "mSumme at zero at precision %g" % p)
    return geo.label(c)+(",cut" if np.any(slack > 1e-9*np.abs(full)) else ",all") if c["t"]["lmax"] > 1 else None


def s_batch(tier):
    return st.fixed_dictionaries({"c": geo.case(tier, 4, 5, 1), "q": gen.ks(1e-3, 8, 70), "seed": st.integers(0, 10**6), "n": st.one_of(st.integers(1, 70), st.integers(1, 250))})


@law("C12", s_batch, 156, 2400)
def batch(c):
    """every entry depends on its own wavenumber only: arrays of up to 250 wavenumbers in any order, with repetitions"""
    d, n = c["c"], c["n"]
    rng = np.random.default_rng(c["seed"])
    d["q"] = (list(c["q"])*n)[:n]
    ks = sel(d)
    if not ks:
        return None
    k = np.array(ks)[rng.permutation(len(ks))]
    d["t"]["m"] = min(d["t"]["m"], d["t"]["lmax"])
    m = d["t"]["m"]
    G = geo.make(d, precision=1e-14)
    S, T = flat(G.single_m(m, k), len(k)), flat(G.mSumme(k), len(k))
    for i in sorted(set(rng.integers(0, len(k), 4).tolist()+[0, len(k)-1])):
        H = geo.make(d, precision=1e-14)
        close(S[i], flat(H.single_m(m, k[i:i+1]), 1)[0], 1e-9, 1e-13*(1+np.abs(S).max()), "entry %d of single_m" % i)
        close(T[i], flat(H.mSumme(k[i:i+1]), 1)[0], 1e-9, 1e-13*(1+np.abs(T).max()), "entry %d of mSumme" % i)
    return "n<=50" if len(k) <= 50 else "n>50"


def s_tr(tier):
    return st.fixed_dictionaries({"c": st.one_of(geo.case(tier, 4, 5, 2, shp=geo.shape((0.2, 30.0))), geo.case(tier, 4, 5, 1, shp=geo.shape((0.03, 0.5)))),
                                  "o": st.one_of(st.integers(1, 6), st.integers(7, 40)), "p": gen.logf(1e-10, 1e-2, 3)})


@law("C12", s_tr, 260, 4000)
def round_trips(c):
    """the expansion in N round trips is minus the sum over all m of Tr M^n/n, n <= N, with M evaluated with 40 digits;
       the single round-trip evaluation is its first term; the automatic order converges to ln det"""
    o, p, c = c["o"], c["p"], c["c"]
    ks = sel(c)
    if not ks:
        return None
    k = np.array(ks)
    lmax = c["t"]["lmax"]
    want = np.zeros((o+1, len(ks)))
    lnd = np.zeros(len(ks))
    tol = np.zeros(len(ks))
    rho = np.zeros(len(ks))
    for j, kj in enumerate(ks):
        for m in range(lmax+1):
            ld, M, t = geo.lndet(c, kj, m)
            f = 1 if m == 0 else 2
            lnd[j] += f*ld
            tol[j] += f*t
            P = M
            e = mp.eig(M, left=False, right=False)
            rho[j] = max(rho[j], max(float(abs(x)) for x in e))
            for n in range(1, o+1):
                want[n, j] += f*float(sum(P[i, i] for i in range(P.rows)))/n
                P = P*M
    fr = Frozen(k=k)
    got = flat(geo.make(c, precision=p).mSum_roundtrips(k, order=o), len(ks), "mSum_roundtrips")
    close(got, -want[1:o+1].sum(axis=0), 1e-8, tol*(1+o), "%d round trips" % o)
    close(flat(geo.make(c, precision=1e-12).mSum_oneRoundtrip(k), len(ks)), -want[1], 1e-8, tol, "one round trip")
    G = geo.make(c, precision=p, evaluation="trace")
    auto = flat(G.mSumme(k), len(ks), "mSumme, trace evaluation")
    fr.check()
    if rho.max() < 0.9:
        # last term t <= p*S; the rest is at most t*(rho+rho^2+...) for each subspace
        dim = 2*lmax
        slack = p*(np.abs(lnd)+np.abs(want[1]))*dim*rho.max()/(1-rho.max())+0.0
        close(auto, lnd, 1e-8, slack+3*tol/(1-rho.max()), "trace evaluation versus ln det")
        need(sorted(G.roundTrip_dct) == list(range(lmax+1)), "orders recorded for m = %s" % sorted(G.roundTrip_dct))
    return geo.label(c)+(",order %d" % o if o < 7 else ",order>6")


def s_auto(tier):
    dual = st.tuples(gen.unif(1.5, 3.9), gen.unif(1.5, 6), geo.shape((0.2, 10.0), internal=False), st.booleans()).map(opposite)
    return st.fixed_dictionaries({"c": st.one_of(geo.case(tier, 3, 4, 1, shp=geo.shape((0.2, 30.0))), dual), "p": gen.logf(1e-10, 1e-3, 3),
                                  "q": st.lists(gen.logf(1e-6, 2000), min_size=1, max_size=5)})


def opposite(t):
    """dipoles whose electric and magnetic contributions cancel in the single round trip at small wavenumbers"""
    e, u, s, swap = t
    B = (e-1)/(e+2)
    a, b = {"eps": e, "mu": u}, {"eps": u, "mu": (1-2*B)/(1+B)}
    return {"s": s, "a": b if swap else a, "b": a if swap else b, "med": {"e": [], "b": []}, "t": {"lmax": 1, "lss": 1, "m": 0}, "q": [1e-6]}


@law("C12", s_auto, 390, 6000)
def automatic_order(c):
    """the round-trip expansion of automatic order gives ln det of each wavenumber to the requested precision, whatever the other
       wavenumbers are (also where the interaction vanishes) and also when single traces vanish"""
    p, q, c = c["p"], c["q"], c["c"]
    c["q"] = c["q"]+q
    ks = sel(c)
    if not ks:
        return None
    k = np.array(ks)
    lmax = c["t"]["lmax"]
    lnd, size, rho = np.zeros(len(ks)), np.zeros(len(ks)), 0.0
    for m in range(lmax+1):
        G = geo.make(c)
        f = 1 if m == 0 else 2
        M = arr(G.supermatrix(m, k.copy()), None, "supermatrix")
        e = np.linalg.eigvals(M)
        rho = max(rho, np.abs(e).max())
        lnd += f*flat(G.single_m(m, k), len(ks))
        size += f*np.abs(e).sum(axis=1)
    if not rho < 0.9:
        return None
    fr = Frozen(k=k)
    got = flat(geo.make(c, precision=p, evaluation="trace").mSumme(k), len(ks), "mSumme, trace evaluation")
    fr.check()
    close(got, lnd, 1e-8, 3*p*size*2*lmax*rho/(1-rho)+1e-11*size+1e-15*lmax, "trace evaluation versus ln det")
    return "%d wavenumbers" % len(ks)+(",opposite" if c["a"].get("eps") and c["b"].get("eps") and lmax == 1 else "")+(",some vanish" if (lnd == 0).any() else "")


def s_one(tier):
    return st.fixed_dictionaries({"c": st.one_of(geo.case(tier, 6, 7, 2), geo.case(tier, 14, 15, 2)), "mm": st.integers(1, 14)})


@law("C12", s_one, 130, 2000)
def one_round_trip_mmax(c):
    """the single round-trip evaluation with mmax sums the traces of the subspaces |m| <= mmax"""
    mm, c = c["mm"], c["c"]
    ks = sel(c)
    if not ks:
        return None
    k = np.array(ks)
    mm = min(mm, c["t"]["lmax"])
    tr = []
    for m in range(mm+1):
        B = geo.make(c).blockmatrices(m, k)
        tr.append(np.trace(B[0], axis1=1, axis2=2)+np.trace(B[3], axis1=1, axis2=2))
    tr = np.array(tr)
    want = -(tr[0]+2*tr[1:].sum(axis=0))
    close(flat(geo.make(c).mSum_oneRoundtrip(k, mm), len(ks)), want, 1e-11, 1e-13*np.abs(tr).sum(axis=0), "mmax=%d" % mm)
    return geo.label(c)


def s_bad(tier):
    return st.fixed_dictionaries({"c": geo.case(tier, 2, 3, 1), "e": st.text(max_size=8).filter(lambda s: s not in ("trace", "lndet"))})


@law("C12", s_bad, 78, 600)
def evaluation_names(c):
    """anything but lndet and trace is refused"""
    raises(ValueError, lambda: geo.make(c["c"], evaluation=c["e"]), "evaluation=%r" % c["e"])
    a, b = [geo.make(c["c"], evaluation=e) for e in ("lndet", "trace")]
    need(a.evaluation == "lndet" and b.evaluation == "trace", "evaluation is not recorded")
    return "name"
