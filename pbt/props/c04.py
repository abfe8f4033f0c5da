"""C04: Mie coefficients of a homogeneous sphere in a medium (scattering from outside)."""
import numpy as np
from hypothesis import strategies as st
import gen
import mats
import ref
import mie_common as mc
from core import law, close, need, Frozen
from scattering import scattering


def xs_ok(c):
    return c


def s_acc(tier):
    return st.fixed_dictionaries({"sph": gen.solid(pec=False), "med": gen.medium(), "k": mc.ks(), "l": mc.lrange(tier),
                                  "r": mc.radius()})


def call(c, k=None):
    k = np.array(c["k"]) if k is None else k
    fr = Frozen(k=k)
    res = scattering(mats.make(c["sph"]), mats.make(c["med"])).mie(k, c["l"][0], c["l"][1], c["r"])
    fr.check()
    return res


def check(c, what="mie"):
    lmin, lmax = c["l"]
    refs, xl = [], []
    pec = mats.is_pec(c["sph"])
    for k in c["k"]:
        ei, mi = mats.response(c["sph"], k)
        ee, me = mats.response(c["med"], k)
        refs.append(ref.mie_solid(k, lmin, lmax, c["r"], ei, mi, ee, me, pec, 30))
        xl.append([mc.x_of(c["med"], k, c["r"])]+([] if pec else [mc.x_of(c["sph"], k, c["r"])]))
    mc.compare(call(c), refs, xl, lmin, lmax, True, what)


def too_big(c):
    """arguments above 2e4 are outside of the range of the Bessel routines"""
    specs = [c["med"]]+([] if mats.is_pec(c["sph"]) else [c["sph"]])
    c["k"] = [k for k in c["k"] if all(mc.x_of(s, k, c["r"]) < 2e4 for s in specs)]
    return not c["k"]


@law("C04", s_acc, 1350, 20000)
def solid(c):
    """dielectric, Drude, plasma and magnetic spheres in dielectric and magnetic media against 30 digit mpmath Mie
       coefficients (boundary conditions solved in arbitrary precision)"""
    if too_big(c):
        return None
    check(c)
    return mats.kind(c["sph"])+(",magnetic" if mats.magnetic(c["sph"]) or mats.magnetic(c["med"]) else "")


def s_pec(tier):
    return st.fixed_dictionaries({"sph": st.one_of(gen.PEC, gen.lib(["PerfectConductor"])),
                                  "med": st.one_of(gen.medium(), gen.const()), "k": mc.ks(), "l": mc.lrange(tier),
                                  "r": mc.radius()})


@law("C04", s_pec, 450, 6000)
def perfect_conductor(c):
    """perfectly conducting spheres against mpmath"""
    if too_big(c):
        return None
    check(c, "PEC mie")
    return "pec,magnetic medium" if mats.magnetic(c["med"]) else "pec"


def s_const(tier):
    return st.fixed_dictionaries({"sph": gen.const((1, 1e6)), "med": gen.const((1, 100)), "k": mc.ks(), "l": mc.lrange(tier),
                                  "r": mc.radius(), "s": gen.logf(0.1, 10)})


@law("C04", s_const, 900, 10000)
def relations(c):
    """metamorphic: exchanging epsilon and mu of sphere and medium exchanges TE and TM; (k, r) -> (k/s, s r) leaves
       non-dispersive coefficients alone; a sphere of the material of the medium does not scatter; orders of a
       sub-range and single wavenumbers equal the full evaluation; plus agreement with mpmath"""
    if too_big(c):
        return None
    check(c)
    lmin, lmax = c["l"]
    k = np.array(c["k"])
    n = len(k)
    te, tm, ln = mc.split(call(c), n, lmin, lmax)
    t = np.array([mc.tols([mc.x_of(s, v, c["r"]) for s in (c["sph"], c["med"])], lmin, lmax) for v in c["k"]])*4
    d = dict(c, sph={"eps": c["sph"]["mu"], "mu": c["sph"]["eps"]}, med={"eps": c["med"]["mu"], "mu": c["med"]["eps"]})
    te2, tm2, ln2 = mc.split(call(d), n, lmin, lmax)
    close(te2, tm, 1e-7, t, "TE after duality")
    close(tm2, te, 1e-7, t, "TM after duality")
    close(ln2, ln, 1e-12, 1e-9, "scaling after duality")
    s = c["s"]
    te3, tm3, ln3 = mc.split(call(dict(c, r=c["r"]*s), k/s), n, lmin, lmax)
    close(te3, te, 1e-7, t, "TE after rescaling")
    close(tm3, tm, 1e-7, t, "TM after rescaling")
    close(ln3, ln, 1e-12, 1e-9+2*t, "scaling after rescaling")
    te4, tm4, ln4 = mc.split(call(dict(c, sph=c["med"])), n, lmin, lmax)
    close(te4, np.zeros_like(te4), 0, t, "TE of an invisible sphere")
    close(tm4, np.zeros_like(tm4), 0, t, "TM of an invisible sphere")
    full = mc.split(call(dict(c, l=[1, lmax])), n, 1, lmax)
    for a, b, what in zip(full, (te, tm, ln), ("TE", "TM", "scaling")):
        close(b, a[:, lmin-1:], 1e-10, t, what+" of a sub-range of orders")
    for j in range(n):
        one = mc.split(call(c, k[j:j+1]), 1, lmin, lmax)
        for a, b, what in zip(one, (te, tm, ln), ("TE", "TM", "scaling")):
            close(b[j], a[0], 1e-9, t[j], what+" of a single wavenumber")
    return "mu" if c["sph"]["mu"] != c["med"]["mu"] else "eps"


def s_lim(tier):
    return st.fixed_dictionaries({"med": gen.medium(), "k": mc.ks(2), "l": mc.lrange(tier, 10), "r": gen.logf(0.1, 10)})


@law("C04", s_lim, 225, 2000)
def conductor_limit(c):
    """the coefficients of a sphere with plasma frequency -> infinity approach those of the perfect conductor, from below
       in magnitude"""
    c = dict(c, sph={"e": [[1e18, 0.0, 0.0]], "b": []})
    if too_big(c):
        return None
    lmin, lmax = c["l"]
    te, tm, ln = mc.split(call(c), len(c["k"]), lmin, lmax)
    tp, mp_, lp = mc.split(call(dict(c, sph={"pec": 1})), len(c["k"]), lmin, lmax)
    close(ln, lp, 1e-12, 1e-9, "scaling")
    x = np.array(c["k"])[:, None]*c["r"]*np.sqrt(np.array([[float(mats.response(c["med"], k)[0]*mats.response(c["med"], k)[1])]
                                                            for k in c["k"]]))
    small = (lmax+1+x)/(3335.0*c["r"])*10      # penetration depth over the scale of the field
    close(te, tp, np.minimum(small, 1), 1e-9, "TE of a good conductor")
    close(tm, mp_, np.minimum(small, 1), 1e-9, "TM of a good conductor")
    return "limit"


def s_many(tier):
    return st.fixed_dictionaries({"sph": gen.solid(), "med": gen.medium(), "lo": gen.unif(-4, 1), "w": gen.unif(0.1, 4), "n": st.integers(5, 250),
                                  "seed": st.integers(0, 2**32-1), "l": mc.lrange(tier, 150), "r": mc.radius()})


@law("C04", s_many, 150, 2000)
def many(c):
    """up to 250 wavenumbers at once and orders up to 158: chosen entries, and the first and last, equal the evaluation of that
       wavenumber alone, and one of them mpmath"""
    rng = np.random.default_rng(c["seed"])
    c["k"] = (10**rng.uniform(c["lo"], c["lo"]+c["w"], size=c["n"])).tolist()
    if too_big(c):
        return None
    lmin, lmax = c["l"]
    n = len(c["k"])
    k = np.array(c["k"])
    full = mc.split(call(c), n, lmin, lmax)
    pec = mats.is_pec(c["sph"])
    pick = sorted({0, n-1}.union(rng.integers(0, n, 4).tolist()))
    for j in pick:
        t = 4*mc.tols([mc.x_of(s, c["k"][j], c["r"]) for s in (c["sph"], c["med"]) if not mats.is_pec(s)], lmin, lmax)
        one = mc.split(call(c, k[j:j+1].copy()), 1, lmin, lmax)
        for a, b, what in zip(one, full, ("TE", "TM", "scaling")):
            close(b[j], a[0], 1e-9, t, what+" of wavenumber %d of %d alone" % (j, n))
    c["k"] = [c["k"][pick[len(pick)//2]]]
    check(c)
    return ("pec" if pec else "real")+(",l>60" if lmax > 60 else "")
