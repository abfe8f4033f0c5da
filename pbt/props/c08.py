"""C08: translation coefficients of vector spherical waves."""
import numpy as np
import mpmath as mp
from hypothesis import strategies as st
import gen
import mats
import ref
from core import law, arr, close, need, seq, Frozen, Violation
from translation import translation


def med():
    return st.one_of(gen.VAC, gen.opaque(gen.medium()), gen.const((1, 50)), gen.dielectric(gen.magnetic()))


def dims(lo=1, hi=7):
    return st.tuples(st.integers(lo, hi), st.integers(lo, hi), st.integers(0, hi)).map(
        lambda t: [t[0], t[1], min(t[2], t[0], t[1])])


def s_acc(tier):
    big = dims(8, 14 if tier == "quick" else 30)
    return st.fixed_dictionaries({"d": st.one_of(dims(), dims(), dims(), big), "med": med(), "L": gen.logf(0.05, 30, special=(1.0,)),
                                  "k": gen.ks(1e-7, 50, 3), "ext": st.integers(0, 1)})


def n_of(c, k):
    e, m = mats.response(c["med"], k)
    return mp.sqrt(e*m)


def get(lmax, lss, m, med, L, k, ext):
    fr = Frozen(k=k)
    V = seq(translation(lmax, lss, m, med, L, k, ext).trans_ab(), 5)
    fr.check()
    lmin = max(1, m)
    return [arr(v, (len(k), lmax-lmin+1, lss-lmin+1), "translation") for v in V]


def limited(c):
    c["k"] = [k for k in c["k"] if n_of(c, k)*k*c["L"] <= 2000]
    return c["k"]


def compare(c, pairs):
    lmax, lss, m = c["d"]
    V = get(lmax, lss, m, mats.make(c["med"]), c["L"], np.array(c["k"]), c["ext"])
    lmin = max(1, m)
    for j, kj in enumerate(c["k"]):
        x = mp.mpf(kj)*mp.mpf(c["L"])*n_of(c, kj)
        for l1, l2 in pairs:
            a, b = l1-lmin, l2-lmin
            r = ref.translation(l1, l2, m, x, c["ext"], 40, True)
            if r[4] == 0:
                continue
            ls = V[4][j, a, b]-float(mp.log(r[4]))
            if not np.isfinite(ls):
                raise Violation("scaling of (%d, %d) is not finite" % (l1, l2))
            s = np.exp(ls)
            # mode mixing relative to its own terms, which are smaller by a factor x for small x
            sm = float(r[5]/r[4]) if m else 1.0
            for q, name in ((0, "EE_ab"), (1, "EE_ba")):
                close(V[q][j, a, b]*s, float(r[q]/r[4]), 0, 1e-10, "%s(l1=%d, l2=%d, m=%d, x=%g)" % (name, l1, l2, m, x))
            for q, name in ((2, "EM_ab"), (3, "EM_ba")):
                close(V[q][j, a, b]*s, float(r[q]/r[4]), 0, 1e-10*sm, "%s(l1=%d, l2=%d, m=%d, x=%g)" % (name, l1, l2, m, x))
    return ("ext" if c["ext"] else "int")+(",m=0" if m == 0 else ",m>0")+(",l>7" if max(lmax, lss) > 7 else "")


@law("C08", s_acc, 1050, 14000)
def accuracy(c):
    """all four coefficients for every pair of orders against mpmath (exact Gaunt coefficients, 40 digit Bessel functions),
       relative to the sum of the magnitudes of the terms they are made of; interior and exterior, any medium"""
    if not limited(c):
        return None
    lmax, lss, m = c["d"]
    lmin = max(1, m)
    return compare(c, [(l1, l2) for l1 in range(lmin, lmax+1) for l2 in range(lmin, lss+1)])


def s_sel(tier):
    hi = 45 if tier == "quick" else 90
    f = st.floats(0, 1)
    return st.fixed_dictionaries({"d": dims(8, hi), "p": st.lists(st.tuples(f, f).map(list), min_size=1, max_size=3), "med": med(),
                                  "L": gen.logf(0.05, 30, special=(1.0,)), "k": gen.ks(1e-7, 50, 1), "ext": st.integers(0, 1)})


@law("C08", s_sel, 180, 3000)
def selected_orders(c):
    """as accuracy, for orders up to 45 (90), any m and arguments from 1e-8 on, for the largest pair of orders and for chosen ones"""
    if not limited(c):
        return None
    lmax, lss, m = c["d"]
    lmin = max(1, m)
    pairs = [(lmax, lss)]+[(lmin+int(round(f*(lmax-lmin))), lmin+int(round(g*(lss-lmin)))) for f, g in c["p"]]
    return compare(c, sorted(set(pairs)))


def s_wide(tier):
    f = st.floats(0, 1)
    return st.fixed_dictionaries({"d": st.tuples(st.integers(1, 4), st.integers(40, 160), st.integers(0, 4), st.booleans()).map(
        lambda t: ([t[0], t[1]] if t[3] else [t[1], t[0]])+[min(t[0], t[2])]), "p": st.lists(st.tuples(f, f, st.booleans()).map(list), min_size=2, max_size=5),
        "med": med(), "L": gen.logf(0.05, 30, special=(1.0,)), "k": gen.ks(1e-5, 50, 1), "ext": st.integers(0, 1)})


@law("C08", s_wide, 90, 1500)
def unequal_orders(c):
    """as accuracy, for few orders of one wave and up to 160 of the other: chosen small and large orders"""
    if not limited(c):
        return None
    lmax, lss, m = c["d"]
    lmin = max(1, m)

    def pick(f, hi, low):
        return lmin+int(round(f*(min(hi, lmin+5)-lmin))) if low else lmin+int(round(f*(hi-lmin)))
    pairs = [(lmax, lss), (lmax, lmin), (lmin, lss)]+[(pick(f, lmax, low), pick(g, lss, low)) for f, g, low in c["p"]]
    compare(c, sorted(set(pairs)))
    return ("ext" if c["ext"] else "int")+(",m=0" if m == 0 else ",m>0")+(",l>100" if max(lmax, lss) > 100 else "")


def s_high(tier):
    hi = 45 if tier == "quick" else 120
    return st.tuples(st.integers(10, hi), st.integers(0, 5), st.integers(0, 5), st.integers(0, 9)).map(
        lambda t: [t[0]+t[1], t[0]+t[2], t[0] if t[3] else t[0]//2]).filter(lambda d: d[0] < 30 or d[2] > 20).flatmap(
        lambda d: st.fixed_dictionaries({"d": st.just(d), "med": gen.VAC, "L": gen.logf(0.1, 10),
                                         "k": gen.ks(1e-2, 20, 1), "ext": st.integers(0, 1)}))


@law("C08", s_high, 90, 1500)
def high_orders(c):
    """as accuracy for orders up to 50 (125) with m of the same size"""
    return accuracy(c)


def block(V, q, j=0):
    with np.errstate(all="ignore"):
        s = np.exp(V[4][j])
    e, f = V[0+q][j]*s, V[2+q][j]*s
    return e, f


def mul(a, b):
    return a[0]@b[0]+a[1]@b[1], a[0]@b[1]+a[1]@b[0]


def s_comp(tier):
    return st.fixed_dictionaries({"n": st.integers(1, 5), "m": st.integers(0, 4), "med": med(), "k": gen.logf(1e-3, 3),
                                  "x1": gen.logf(0.03, 0.8), "x2": gen.logf(0.03, 0.8)})


@law("C08", s_comp, 600, 6000)
def regular_composition(c):
    """translating a regular wave by L1 and then by L2 is translating it by L1+L2, and translating it back gives the
       original wave (intermediate orders summed until converged)"""
    n, m = c["n"], min(c["m"], c["n"])
    N = n+16
    lmin = max(1, m)
    k = np.array([c["k"]])
    nk = float(n_of(c, c["k"]))*c["k"]
    L1, L2 = c["x1"]/nk, c["x2"]/nk
    md = mats.make(c["med"])
    A, B, C = [get(N, N, m, md, L, k, 0) for L in (L1, L2, L1+L2)]
    d = n-lmin+1
    for q, name in ((0, "ab"), (1, "ba")):
        got = mul(block(A, q), block(B, q))
        want = block(C, q)
        for p in (0, 1):
            close(got[p][:d, :d], want[p][:d, :d], 1e-8, 1e-10, "V(L1) V(L2) = V(L1+L2), %s, %s" % (name, "EE EM".split()[p]))
    e, f = mul(block(A, 0), block(A, 1))
    close(e[:d, :d], np.eye(d), 0, 1e-10, "forth and back, EE")
    close(f[:d, :d], np.zeros((d, d)), 0, 1e-10, "forth and back, EM")
    return "m=0" if m == 0 else "m>0"


def s_ext(tier):
    return st.fixed_dictionaries({"n": st.integers(1, 3), "m": st.integers(0, 3), "med": med(), "k": gen.logf(1e-3, 3),
                                  "x": gen.logf(0.2, 3), "ratio": gen.unif(0.01, 0.06)})


@law("C08", s_ext, 450, 5000)
def outgoing_composition(c):
    """an outgoing wave expanded at distance L1 and re-expanded regularly a further L2 (or back by L2) is the outgoing wave
       expanded at L1+L2 (L1-L2)"""
    n, m = c["n"], min(c["m"], c["n"])
    N = n+12
    lmin = max(1, m)
    k = np.array([c["k"]])
    L1 = c["x"]/(float(n_of(c, c["k"]))*c["k"])
    L2 = L1*c["ratio"]
    md = mats.make(c["med"])
    d = n-lmin+1
    E = block(get(n, N, m, md, L1, k, 1), 0)
    A = get(N, n, m, md, L2, k, 0)
    for q, L in ((0, L1+L2), (1, L1-L2)):
        got, want = mul(E, block(A, q)), block(get(n, n, m, md, L, k, 1), 0)
        for p in (0, 1):
            s = np.abs(want[0])+np.abs(want[1])
            close(got[p], want[p], 1e-6, 1e-7*s, "V_ext(L1) V_reg(L2), %s" % "EE EM".split()[p])
    return "m=0" if m == 0 else "m>0"


def s_lay(tier):
    return st.fixed_dictionaries({"d": dims(1, 8), "add": st.tuples(st.integers(0, 4), st.integers(0, 4)).map(list), "med": med(),
                                  "L": gen.logf(0.1, 10), "k": st.one_of(gen.ks(1e-4, 20, 4), gen.ks(1e-4, 20, 40)), "ext": st.integers(0, 1)})


@law("C08", s_lay, 600, 6000)
def layout(c):
    """each coefficient depends only on its own orders and wavenumber: larger truncations contain the smaller ones,
       single wavenumbers equal the array, exchanging the two orders transposes (symmetry of the coefficients);
       without medium dispersion only the product k L matters for polarization conservation"""
    lmax, lss, m = c["d"]
    k = np.array(c["k"])
    md = mats.make(c["med"])
    V = get(lmax, lss, m, md, c["L"], k, c["ext"])
    W = get(lmax+c["add"][0], lss+c["add"][1], m, md, c["L"], k, c["ext"])
    T = get(lss, lmax, m, md, c["L"], k, c["ext"])
    a, b = V[0].shape[1:]
    x = np.array([float(n_of(c, v))*v*c["L"] for v in c["k"]])
    for q in range(4):
        s = np.abs(V[0])+np.abs(V[1])+np.abs(V[2])+np.abs(V[3])+1
        f = np.exp(W[4][:, :a, :b]-V[4])
        close(W[q][:, :a, :b]*f, V[q], 1e-9, 1e-10*s, "larger truncation")
        for j in range(len(k)):
            one = get(lmax, lss, m, md, c["L"], k[j:j+1], c["ext"])
            f = np.exp(one[4][0]-V[4][j])
            close(one[q][0]*f, V[q][j], 1e-9, 1e-10*s[j], "single wavenumber")
    # (l1, l2) <-> (l2, l1)
    f = np.exp(T[4].transpose(0, 2, 1)-V[4])
    s = np.abs(V[0])+np.abs(V[2])+1
    for q in range(4):
        close(T[q].transpose(0, 2, 1)*f, V[q], 1e-9, 1e-10*s, "exchange of the orders")
    return ("ext" if c["ext"] else "int")+(",m=0" if m == 0 else ",m>0")


def s_zero(tier):
    return st.fixed_dictionaries({"d": st.one_of(dims(), dims(8, 16), dims(16, 60)), "n": st.integers(1, 6), "med": med(),
                                  "L": gen.logf(0.05, 30, special=(1.0,)), "ext": st.integers(0, 1)})


@law("C08", s_zero, 750, 10000)
def zero_frequency(c):
    """the single coefficient (sign, logarithm) at k=0 is the limit of the polarization conserving ones without their power
       of kL, orders to 60: magnitude against the closed form of the limit; sign and, for small orders, magnitude against
       the finite-frequency coefficients (outgoing: a to b, regular: b to a) at k=1e-6/L"""
    lmax, lss, m = c["d"]
    lmin = max(1, m)
    sh = (lmax-lmin+1, lss-lmin+1)
    k = np.array([0.0])
    fr = Frozen(k=k)
    md = mats.make(c["med"])
    sgn, ln = [arr(x, sh, "translation at k=0") for x in seq(translation(lmax, lss, m, md, c["L"], k, c["ext"]).trans_ab(), 2)]
    fr.check()
    small = max(lmax, lss) <= 7
    la = range(lmin, lmax+1) if small else sorted({lmax, max(lmin, lmax-c["n"]), lmin, min(lmax, lmin+c["n"])})
    lb = range(lmin, lss+1) if small else sorted({lss, max(lmin, lss-c["n"]), lmin, min(lss, lmin+c["n"])})
    for a in la:
        for b in lb:
            w = float(mp.log(abs(ref.static_translation(a, b, m, c["ext"]))))
            close(np.log(abs(sgn[a-lmin, b-lmin]))+ln[a-lmin, b-lmin], w, 0, 1e-10*(1+abs(w)), "ln of coefficient (%d, %d, m=%d)" % (a, b, m))
    if small:
        k = 1e-6/c["L"]
        x = float(mp.mpf(k)*mp.mpf(c["L"])*n_of(c, k))
        V = get(lmax, lss, m, md, c["L"], np.array([k]), c["ext"])
        F = V[0][0] if c["ext"] else V[1][0]
        l1, l2 = np.arange(lmin, lmax+1)[:, None], np.arange(lmin, lss+1)[None, :]
        p = l1+l2+1 if c["ext"] else -np.abs(l1-l2)
        with np.errstate(all="ignore"):
            lnF = np.log(np.abs(F))+V[4][0]+p*np.log(x)
        need(np.all(np.sign(F) == np.sign(sgn)), "sign at k=0 differs from the one at k=%g" % k)
        if x < 1e-3:
            close(lnF, np.log(np.abs(sgn))+ln, 0, 20*x+1e-9, "ln of the coefficients at k=%g" % k)
    return ("ext" if c["ext"] else "int")+(",m=0" if m == 0 else ",m>0")+("" if small else ",l>7")
