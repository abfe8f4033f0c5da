"""C11: symmetries of the interaction of two spheres."""
import copy
import numpy as np
import mpmath as mp
from hypothesis import strategies as st
import gen
import geo
import mats
from core import law, close, flat, need
import materials

K = st.integers(1, 3)


def ingr(c, k):
    """magnitude of the rounding errors in ln det at one wavenumber"""
    return geo.lndet(c, k, c["t"]["m"], 30)[2]


def value(c, ks, **kw):
    """values of a random choice of entry points: single m, or the sum over all m"""
    G = geo.make(c, precision=1e-14, **kw)
    return flat(G.single_m(c["t"]["m"], np.array(ks)), len(ks)), flat(G.mSumme(np.array(ks)), len(ks))


def tolerance(c, ks):
    t = []
    for k in ks:
        a, b, wa, wb, x = geo.coefficients(c, k, 30)
        import ref
        ws = [float(ref.weight_m(m, c["t"]["lmax"], c["t"]["lss"], x, wa, wb, c["s"]["ext"])) for m in range(c["t"]["lmax"]+1)]
        w = ws[0]+2*sum(ws[1:])
        t.append(w*geo.tol_rel(c, k)+1e-14*c["t"]["lmax"]**2)
    return np.array(t)


def same(c, ks, got, want, what, factor=4.0):
    cond = np.maximum(1e-3, np.exp(want[0]))
    tol = tolerance(c, ks)*factor
    close(got[0], want[0], 2e-8, tol/cond, what+", single m")
    close(got[1], want[1], 2e-8, tol/np.maximum(1e-3, np.exp(np.maximum(want[1], -50)/(2*c["t"]["lmax"]+1))), what+", all m")


def sel(c, xmax=2e4):
    return [k for k in geo.ks(c) if geo.in_range(c, k, xmax)]


def s_ex(tier):
    return st.one_of(*[geo.case(tier, n, n, 2, shp=geo.shape(internal=False)) for n in (4, 4, 10)])


@law("C11", s_ex, 450, 6000)
def exchange(c):
    """interchanging the spheres together with their truncations changes nothing: (r1, mat1, lmax) <-> (r2, mat2, lssmax)"""
    c["t"]["lss"] = c["t"]["lmax"]
    ks = sel(c)
    if not ks:
        return None
    d = copy.deepcopy(c)
    d["s"]["r1"], d["s"]["r2"], d["a"], d["b"] = c["s"]["r2"], c["s"]["r1"], c["b"], c["a"]
    v = value(c, ks)
    same(c, ks, value(d, ks), v, "spheres interchanged")
    z = [flat(geo.make(x, precision=1e-14).mSumme_k0(), 1) for x in (c, d)]
    close(z[1], z[0], 1e-9, 1e-14, "spheres interchanged, k=0")
    return geo.label(c) if c["s"]["r1"] != c["s"]["r2"] or c["a"] != c["b"] else None


def scale_spec(spec, f):
    """all frequencies divided by f"""
    if mats.is_pec(spec):
        return spec
    s = mats.expand(spec)
    if "eps" in s:
        return s
    s = copy.deepcopy(s)
    if "smith" in s:
        s["smith"] = [v/f for v in s["smith"]]
    else:
        s["e"] = [[v/f for v in p] for p in s["e"]]
    if s["b"]:
        s["b"] = [s["b"][0], s["b"][1]/f]
    return s


def s_sc(tier):
    return st.fixed_dictionaries({"c": st.one_of(*[geo.case(tier, n, n+1, 2) for n in (4, 4, 10)]), "f": gen.logf(1e-3, 1e3)})


@law("C11", s_sc, 450, 6000)
def rescaling(c):
    """only ratios of lengths count: all lengths times f, all wavenumbers and material frequencies divided by f"""
    f, c = c["f"], c["c"]
    ks = sel(c)
    if not ks:
        return None
    d = copy.deepcopy(c)
    for n in ("r1", "r2", "L"):
        d["s"][n] = c["s"][n]*f
    for n in ("a", "b", "med"):
        d[n] = scale_spec(c[n], f)
    v = value(c, ks)
    same(c, ks, value(d, [k/f for k in ks]), v, "lengths scaled by %g" % f)
    z = [flat(geo.make(x, precision=1e-14).mSumme_k0(), 1) for x in (c, d)]
    close(z[1], z[0], 1e-9, 1e-14, "lengths scaled, k=0")
    return geo.label(c)


def s_med(tier):
    b = st.one_of(gen.const((1.0, 200.0), (0.2, 5.0)), gen.PEC)
    return st.one_of(*[geo.case(tier, n, n+1, 2, body_=b, med=gen.const((1.0, 20.0), (0.2, 5.0))) for n in (4, 4, 10)])


@law("C11", s_med, 450, 6000)
def medium(c):
    """a medium with constant response is a vacuum with the wavenumber times its refractive index and the responses of the
       bodies relative to it"""
    ks = sel(c)
    if not ks:
        return None
    em, mm = c["med"]["eps"], c["med"]["mu"]
    d = copy.deepcopy(c)
    d["med"] = {"e": [], "b": []}
    for n in ("a", "b"):
        if not mats.is_pec(c[n]):
            d[n] = {"eps": c[n]["eps"]/em, "mu": c[n]["mu"]/mm}
    same(c, ks, value(d, [k*np.sqrt(em*mm) for k in ks]), value(c, ks), "medium scaled away")
    return geo.label(c)


def s_dual(tier):
    return geo.case(tier, 4, 5, 2, body_=gen.const((0.3, 200.0), (0.3, 200.0)), med=gen.const((1.0, 20.0), (1.0, 20.0)))


@law("C11", s_dual, 300, 4000)
def duality(c):
    """interchanging permittivity and permeability everywhere interchanges the polarizations and keeps ln det"""
    ks = sel(c)
    if not ks:
        return None
    d = copy.deepcopy(c)
    for n in ("a", "b", "med"):
        d[n] = {"eps": c[n]["mu"], "mu": c[n]["eps"]}
    same(c, ks, value(d, ks), value(c, ks), "eps and mu interchanged")
    return geo.label(c)


def s_inv(tier):
    return st.fixed_dictionaries({"c": geo.case(tier, 5, 6, 3), "w": st.sampled_from(["a", "b"])})


@law("C11", s_inv, 450, 6000)
def invisible(c):
    """a sphere made of the medium does not interact; neither do two of them, at any frequency including zero"""
    w, c = c["w"], c["c"]
    ks = sel(c)
    if not ks:
        return None
    c[w] = c["med"]
    tol = tolerance(c, ks)
    sm, al = value(c, ks)
    close(sm, 0*sm, 0, tol, "ln det with an invisible sphere, single m")
    close(al, 0*al, 0, tol, "ln det with an invisible sphere, all m")
    close(flat(geo.make(c).mSumme_k0(), 1), [0.0], 0, 1e-9, "ln det at k=0 with an invisible sphere")
    return geo.label(c)+","+w


def s_mono(tier):
    b = st.one_of(gen.const((1.0, 1000.0), (1.0, 1.0)), gen.PEC)
    return st.fixed_dictionaries({"c": geo.case(tier, 4, 5, 2, body_=b, med=gen.VAC, shp=geo.shape(internal=False)),
                                  "f": gen.logf(1.01, 10), "w": st.sampled_from(["a", "b", "lmax", "lss", "both", "distance"])})


@law("C11", s_mono, 450, 6000)
def monotonicity(c):
    """dielectrics in vacuum attract, and attract more the larger the permittivity of either, the smaller the gap, and the
       more multipoles of either sphere are included"""
    f, w, c = c["f"], c["w"], c["c"]
    ks = sel(c)
    if not ks:
        return None
    d = copy.deepcopy(c)
    if w in ("a", "b", "both"):
        for n in ("a", "b") if w == "both" else (w,):
            if not mats.is_pec(c[n]):
                d[n] = {"eps": max(c[n]["eps"], 1.0)*f, "mu": 1.0}
    elif w == "distance":
        s = d["s"]
        s["L"] = s["r1"]+s["r2"]+(s["L"]-s["r1"]-s["r2"])/f
    elif w == "lmax":
        d["t"]["lmax"] += 1
        d["t"]["lss"] = c["t"]["lss"] = max(c["t"]["lss"], d["t"]["lmax"])
    else:
        d["t"]["lss"] += 1
    u, v = value(c, ks), value(d, ks)
    t = tolerance(d, ks)*4
    need(np.all(u[0] <= t) and np.all(u[1] <= t), "repulsion: %r %r" % u)
    need(np.all(v[0] <= u[0]+t+1e-9*abs(u[0])), "single m: %r is not below %r (%s)" % (v[0], u[0], w))
    need(np.all(v[1] <= u[1]+t+1e-9*abs(u[1])), "all m: %r is not below %r (%s)" % (v[1], u[1], w))
    return w if np.any(v[1] < u[1]) else None


def s_types(tier):
    return st.fixed_dictionaries({"r1": st.integers(1, 4), "r2": st.integers(1, 4), "g": st.integers(1, 5), "a": geo.body(), "b": geo.body(),
                                  "med": gen.medium(), "k": st.lists(st.integers(1, 3), min_size=1, max_size=3), "l": st.integers(1, 3)})


@law("C11", s_types, 225, 3000)
def number_types(c):
    """integers as lengths and integer wavenumber arrays mean the same numbers as floats"""
    out = []
    for T in (int, float):
        g = {"s": {"r1": T(c["r1"]), "r2": T(c["r2"]), "L": T(c["r1"]+c["r2"]+c["g"]), "ext": 1}, "a": c["a"], "b": c["b"],
             "med": c["med"], "t": {"lmax": c["l"], "lss": c["l"]+1}}
        if not all(geo.in_range(g, k) for k in c["k"]):
            return None
        G = geo.make(g)
        out.append((flat(G.mSumme(np.array(c["k"], dtype=T)), len(c["k"])), flat(G.mSumme_k0(), 1)))
    close(out[0][0], out[1][0], 1e-12, 1e-15, "integers instead of floats")
    close(out[0][1], out[1][1], 1e-12, 1e-15, "integers instead of floats, k=0")
    return "types"
