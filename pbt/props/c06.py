"""C06: stratified and coated spheres."""
import numpy as np
import mpmath as mp
from hypothesis import strategies as st
import gen
import mats
import ref
import mie_common as mc
from core import law, close, need, raises, flat, Frozen
from scattering import scattering, coated_miescattering
from stratified_sphere_scattering import StratifiedMieScattering
import geometry


def layer():
    return st.one_of(gen.dielectric(gen.MAYBE_B), gen.drude(gen.MAYBE_B), gen.plasma(), gen.const((1, 1e3)), gen.VAC,
                     gen.lib(gen.DIEL_NAMES+gen.DRUDE_NAMES))


def core():
    return st.one_of(gen.opaque(layer()), gen.opaque(layer()), gen.opaque(layer()), gen.PEC)


def stack(maxn):
    """core, shells, medium and the radii; thin and thick shells"""
    def f(n):
        return st.tuples(core(), st.lists(layer(), min_size=n-1, max_size=n-1), st.one_of(gen.medium(), gen.const((1, 100))),
                         gen.logf(0.05, 10, 4), st.lists(gen.logf(1e-3, 2 if n < 7 else 0.5, 4), min_size=n-1, max_size=n-1)).map(build)

    def build(t):
        r = [t[3]]
        for d in t[4]:
            r.append(float("%.8g" % (r[-1]*(1+d))))
        return {"mats": [t[0]]+t[1]+[t[2]], "r": r}
    return st.integers(1, maxn).flatmap(f)


def ks(n=3):
    return gen.ks(1e-3, 20, n)


def clip(c):
    """keeps wavenumbers for which all arguments stay in the range of the Bessel routines and the field reaches the core
       without leaving double precision (a shell thicker than 200 penetration depths is as good as solid)"""
    keep = []
    for k in c["k"]:
        xs = []
        for j, r in enumerate(c["r"]):
            for s in (c["mats"][j], c["mats"][j+1]):
                if not mats.is_pec(s):
                    xs.append(mc.x_of(s, k, r))
        if max(xs) < 2e4:
            keep.append(k)
    c["k"] = keep
    return bool(keep)


def xlist(c, k):
    return [mc.x_of(s, k, r) for j, r in enumerate(c["r"]) for s in (c["mats"][j], c["mats"][j+1]) if not mats.is_pec(s)]


def refs(c):
    out = []
    lmin, lmax = c["l"]
    for k in c["k"]:
        e, m = zip(*[mats.response(s, k) for s in c["mats"]])
        out.append(ref.mie_layers(k, lmin, lmax, c["r"], e, m, 50))
    return out


def strat(mats_, r, k, l, twice=False):
    ml, rl = [mats.make(s) for s in mats_], list(r)
    fr = Frozen(mats=ml, radii=rl, k=k)
    s = StratifiedMieScattering(ml, rl)
    res = s.mie_stratified(k, l[0], l[1])
    if twice:
        res = s.mie_stratified(k, l[0], l[1])
    fr.check()
    need(len(ml) == len(mats_) and len(rl) == len(r), "the lists of the caller changed their length")
    return res


def s_acc(tier):
    return st.tuples(st.one_of(stack(4), stack(4), stack(9), stack(14)), ks(), mc.lrange(tier, 25), st.booleans()).map(lambda t: dict(t[0], k=t[1], l=t[2], twice=t[3]))


@law("C06", s_acc, 700, 14000)
def layers(c):
    """one to fourteen concentric layers (also around a perfectly conducting core) against 50 digit mpmath; lists of the
       caller stay unchanged, the second evaluation of an instance equals the first"""
    if not clip(c):
        return None
    mc.compare(strat(c["mats"], c["r"], np.array(c["k"]), c["l"], c["twice"]), refs(c), [xlist(c, k) for k in c["k"]],
               c["l"][0], c["l"][1], True, "mie_stratified")
    return "%d layers%s" % (min(len(c["r"]), 6), ",pec core" if mats.is_pec(c["mats"][0]) else "")


def s_coat(tier):
    return st.tuples(stack(2).filter(lambda s: len(s["r"]) == 2), ks(), mc.lrange(tier, 25)).map(
        lambda t: dict(t[0], k=t[1], l=t[2]))


@law("C06", s_coat, 300, 6000)
def coated(c):
    """coated_miescattering against mpmath"""
    if not clip(c):
        return None
    k = np.array(c["k"])
    a, b, m = [mats.make(s) for s in c["mats"]]
    fr = Frozen(k=k)
    res = coated_miescattering(a, b, m).mie_coated(k, c["l"][0], c["l"][1], c["r"][0], c["r"][1])
    fr.check()
    mc.compare(res, refs(c), [xlist(c, v) for v in c["k"]], c["l"][0], c["l"][1], True, "mie_coated")
    return "coated" + (",pec core" if mats.is_pec(c["mats"][0]) else "")


def s_fict(tier):
    return st.tuples(stack(3), ks(2), mc.lrange(tier, 15), st.integers(0, 3), gen.unif(0.05, 0.95, 3), gen.logf(1.01, 3, 4),
                     st.booleans()).map(lambda t: dict(t[0], k=t[1], l=t[2], at=t[3], frac=t[4], out=t[5], same=t[6]))


@law("C06", s_fict, 500, 10000)
def fictitious_interface(c):
    """an additional interface between equal materials (inside the core, inside a shell, or in the medium outside; same
       material object or an equal one) does not change the observable scattering; a single layer is the solid sphere"""
    if not clip(c):
        return None
    at = c["at"] % (len(c["r"])+1)
    if at == 0 and mats.is_pec(c["mats"][0]):
        return None
    k = np.array(c["k"])
    l0, l1 = c["l"]
    objs = [mats.make(s) for s in c["mats"]]
    lo = 0 if at == 0 else c["r"][at-1]
    hi = c["r"][at] if at < len(c["r"]) else c["r"][-1]*c["out"]
    rnew = lo+(hi-lo)*c["frac"] if at < len(c["r"]) else hi
    extra = objs[at] if c["same"] else mats.make(c["mats"][at])
    objs2 = objs[:at]+[extra]+objs[at:]
    r2 = c["r"][:at]+[rnew]+c["r"][at:]
    one = mc.split(StratifiedMieScattering(list(objs), list(c["r"])).mie_stratified(k, l0, l1), len(k), l0, l1)
    two = mc.split(StratifiedMieScattering(objs2, r2).mie_stratified(k, l0, l1), len(k), l0, l1)
    for j, kj in enumerate(c["k"]):
        xl = xlist(c, kj)+[mc.x_of(c["mats"][at], kj, rnew)]
        if max(xl) > 2e4:
            continue
        t = 5*mc.tols(xl, l0, l1)
        d = two[2][j]-one[2][j]
        # relative to the scaling of the interface with the larger weight: the observable is coefficient*exp(scaling)
        if np.all(d < 600):
            f = np.exp(d)
            close(two[0][j]*f, one[0][j], 1e-7, t*np.maximum(f, 1), "TE with a fictitious interface")
            close(two[1][j]*f, one[1][j], 1e-7, t*np.maximum(f, 1), "TM with a fictitious interface")
    if len(c["r"]) == 1:
        sol = mc.split(scattering(objs[0], objs[1]).mie(k, l0, l1, c["r"][0]), len(k), l0, l1)
        for a, b in zip(sol, one):
            close(b, a, 1e-12, 1e-13, "one layer versus solid sphere")
    return "at medium" if at == len(c["r"]) else "at core" if at == 0 else "at shell"


def s_geo(tier):
    two = stack(2).filter(lambda s: len(s["r"]) == 2)
    return st.fixed_dictionaries({"a": two, "b": two, "med": gen.medium(), "gap": gen.logf(0.05, 5), "k": gen.ks(1e-2, 3, 2),
                                  "lmax": st.integers(1, 4), "lss": st.integers(1, 5), "m": st.integers(0, 4)})


@law("C06", s_geo, 160, 3000)
def geometries(c):
    """CoatedSphereSphere equals SphereSphere with lists of layers; a list with one layer equals the solid sphere"""
    a, b = c["a"], c["b"]
    a["k"] = b["k"] = list(c["k"])
    a["mats"][-1] = b["mats"][-1] = c["med"]
    if not clip(a):
        return None
    b["k"] = a["k"]
    if not clip(b):
        return None
    k = np.array(b["k"])
    L = a["r"][-1]+b["r"][-1]+c["gap"]
    med = mats.make(c["med"])
    A, B = [mats.make(s) for s in a["mats"][:2]], [mats.make(s) for s in b["mats"][:2]]
    lmax, lss, m = c["lmax"], max(c["lss"], c["lmax"]), min(c["m"], c["lmax"])
    ra, rb, la, lb = list(a["r"]), list(b["r"]), A+[med], B+[med]
    fr = Frozen(ra=ra, rb=rb, la=la, lb=lb, k=k)
    G1 = geometry.SphereSphere(ra, rb, L, la, lb, med, lmax=lmax, lssmax=lss)
    G2 = geometry.CoatedSphereSphere(ra[0], ra[1], A[0], A[1], rb[0], rb[1], B[0], B[1], L, med, lmax, lss)
    v1, v2 = flat(G1.single_m(m, k), len(k)), flat(G2.single_m(m, k), len(k))
    fr.check()
    t = sum(mc.tols(xlist(x, v), 1, 1)[0] for x in (a, b) for v in x["k"])
    close(v2, v1, 1e-7, t+1e-13, "coated spheres versus lists of layers, m=%d" % m)
    s1, s2 = flat(G1.mSumme(k), len(k)), flat(G2.mSumme(k), len(k))
    close(s2, s1, 1e-6, 10*t+1e-12, "sum over m")
    H1 = geometry.SphereSphere([ra[0]], [rb[0]], L, [A[0], med], [B[0], med], med, lmax=lmax, lssmax=lss)
    H2 = geometry.SphereSphere(ra[0], rb[0], L, A[0], B[0], med, lmax=lmax, lssmax=lss)
    close(flat(H1.single_m(m, k), len(k)), flat(H2.single_m(m, k), len(k)), 1e-11, 1e-15, "one-layer list versus solid sphere")
    return "m=0" if m == 0 else "m>0"


def s_int(tier):
    return st.fixed_dictionaries({"a": stack(4), "b": st.one_of(stack(3), stack(1)), "med": gen.medium(), "ext": st.sampled_from([1, 1, 0]), "gap": gen.logf(0.05, 5),
                                  "off": gen.unif(0.05, 0.9), "k": gen.ks(1e-2, 3, 2), "lmax": st.integers(1, 4), "lss": st.integers(1, 5), "m": st.integers(0, 4), "tup": st.booleans()})


@law("C06", s_int, 160, 3000)
def interaction(c):
    """ln det(1-M) of one projection for spheres of one to four layers, next to each other or inside a solid cavity, against a
       40 digit evaluation with the exact coefficients of the layered bodies"""
    a, b = c["a"], c["b"]
    a["mats"][-1] = b["mats"][-1] = c["med"]
    if not c["ext"]:
        # sphere 2 is the solid surroundings of a cavity
        b["mats"] = [b["mats"][0], c["med"]]
        b["r"] = [float("%.8g" % (a["r"][-1]*(1+c["gap"])))]
    a["k"] = b["k"] = list(c["k"])
    if not clip(a):
        return None
    b["k"] = a["k"]
    if not clip(b):
        return None
    ks_ = b["k"]
    R1, R2 = a["r"][-1], b["r"][-1]
    L = float("%.8g" % (R1+R2+c["gap"]*min(R1, R2) if c["ext"] else (R2-R1)*c["off"]))
    t = {"lmax": c["lmax"], "lss": max(c["lss"], c["lmax"])}
    m = min(c["m"], c["lmax"])
    med = mats.make(c["med"])
    # the material lists end with the medium
    A, B = [mats.make(s) for s in a["mats"][:-1]]+[med], [mats.make(s) for s in b["mats"][:-1]]+[med]
    r1, m1 = (a["r"][0], A[0]) if len(a["r"]) == 1 and c["tup"] else (list(a["r"]), A)
    r2, m2 = (b["r"][0], B[0]) if not c["ext"] or len(b["r"]) == 1 and not c["tup"] else (list(b["r"]), B)
    G = geometry.SphereSphere(r1, r2, L, m1, m2, med, lmax=t["lmax"], lssmax=t["lss"])
    got = flat(G.single_m(m, np.array(ks_)), len(ks_))
    for j, k in enumerate(ks_):
        em, mm = mats.response(c["med"], k)
        x = mp.mpf(k)*mp.mpf(L)*mp.sqrt(em*mm)
        if x > 2000:
            continue
        ra = ref.mie_layers(k, 1, t["lmax"], a["r"], *zip(*[mats.response(s, k) for s in a["mats"]]), 50)
        if c["ext"]:
            rb = ref.mie_layers(k, 1, t["lss"], b["r"], *zip(*[mats.response(s, k) for s in b["mats"]]), 50)
        else:
            eb, mb = mats.response(b["mats"][0], k)
            rb = ref.mie_cavity(k, 1, t["lss"], b["r"][0], em, mm, eb, mb, mats.is_pec(b["mats"][0]), 50)
        pa, pb = ref.phys(ra, 1, True), ref.phys(rb, 1, bool(c["ext"]))
        wa = {l: abs(mp.pi/2*mp.exp(ra[l-1][2]))*max(1, abs(ra[l-1][1])) for l in range(1, t["lmax"]+1)}
        wb = {l: abs((mp.pi/2 if c["ext"] else 2/mp.pi)*mp.exp(rb[l-1][2]))*max(1, abs(rb[l-1][1])) for l in range(1, t["lss"]+1)}
        ld, M = ref.lndet_m(m, t["lmax"], t["lss"], x, pa, pb, c["ext"], 40)
        w = ref.weight_m(m, t["lmax"], t["lss"], x, wa, wb, c["ext"])
        tol = (float(w)*2e-9+3e-15*t["lmax"])/max(1e-3, float(mp.exp(ld)))
        close(got[j], float(ld), 1e-8, tol, "ln det(1-M), m=%d, k=%g" % (m, k))
    return ("ext" if c["ext"] else "int")+",%d layers" % max(len(a["r"]), len(b["r"]))


def s_bad(tier):
    return st.fixed_dictionaries({"s": stack(3), "how": st.sampled_from(["too few", "too many"])})


@law("C06", s_bad, 60, 500)
def reject(c):
    """layers that are not given as two lists of matching length are rejected with TypeError"""
    ml, rl = [mats.make(s) for s in c["s"]["mats"]], list(c["s"]["r"])
    if c["how"] == "too few":
        raises(TypeError, lambda: StratifiedMieScattering(ml, rl[:-1]), "one radius too few")
    elif c["how"] == "too many":
        raises(TypeError, lambda: StratifiedMieScattering(ml, rl+[rl[-1]*2]), "one radius too many")
    return c["how"]


def s_many(tier):
    return st.tuples(stack(3), gen.unif(-3, 0), gen.unif(0.1, 2), st.integers(4, 150), st.integers(0, 2**32-1), mc.lrange(tier, 90)).map(
        lambda t: dict(t[0], lo=t[1], w=t[2], n=t[3], seed=t[4], l=t[5]))


@law("C06", s_many, 60, 1200)
def many(c):
    """up to 150 wavenumbers at once and orders up to 98: chosen entries equal the evaluation of that wavenumber alone, and one of
       them mpmath"""
    rng = np.random.default_rng(c["seed"])
    c["k"] = (10**rng.uniform(c["lo"], c["lo"]+c["w"], size=c["n"])).tolist()
    if not clip(c):
        return None
    lmin, lmax = c["l"]
    n = len(c["k"])
    full = mc.split(strat(c["mats"], c["r"], np.array(c["k"]), c["l"]), n, lmin, lmax)
    pick = sorted({0, n-1}.union(rng.integers(0, n, 3).tolist()))
    for j in pick:
        t = 4*mc.tols(xlist(c, c["k"][j]), lmin, lmax)
        one = mc.split(strat(c["mats"], c["r"], np.array(c["k"][j:j+1]), c["l"]), 1, lmin, lmax)
        for a, b, what in zip(one, full, ("TE", "TM", "scaling")):
            close(b[j], a[0], 1e-9, t, what+" of wavenumber %d of %d alone" % (j, n))
    c["k"] = [c["k"][pick[len(pick)//2]]]
    mc.compare(strat(c["mats"], c["r"], np.array(c["k"]), c["l"]), refs(c), [xlist(c, k) for k in c["k"]], lmin, lmax, True, "mie_stratified")
    return "%d layers%s" % (len(c["r"]), ",l>25" if lmax > 25 else "")
