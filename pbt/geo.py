"""Generators and references for two-sphere geometries (C09-C17)."""
import numpy as np
import mpmath as mp
from hypothesis import strategies as st
import gen
import mats
import ref
import mie_common as mc
from core import arr, flat
import geometry

RAD = st.one_of(*[gen.opaque(gen.logf(0.2, 10, 4, special=(1.0, 1.0, 2.0)))]*4, gen.opaque(gen.logf(0.005, 500, 4)))


def shape(gap=(0.03, 30.0), internal=True, wide=True):
    """radii and centre distance; exterior with any gap relative to the smaller radius, or sphere 1 inside sphere 2"""
    def ext(t):
        r1, r2, g = t
        return {"r1": r1, "r2": r2, "L": float("%.8g" % (r1+r2+g*min(r1, r2))), "ext": 1}

    def int_(t):
        r1, f, d = t
        r2 = float("%.6g" % (r1*(1+f)))
        return {"r1": r1, "r2": r2, "L": float("%.6g" % ((r2-r1)*d)), "ext": 0}
    e = st.tuples(RAD, RAD, gen.logf(*gap)).map(ext)
    if wide:
        # sometimes far apart
        e = st.one_of(*[gen.opaque(e)]*7, st.tuples(RAD, RAD, gen.logf(gap[1], 100*gap[1])).map(ext))
    if not internal:
        return e
    i = st.tuples(RAD, gen.logf(0.1, 20), gen.unif(0.05, 0.9)).map(int_)
    if wide:
        # sometimes almost concentric, or with a wide cavity
        i = st.one_of(*[gen.opaque(i)]*4, st.tuples(RAD, gen.logf(0.1, 20), gen.logf(1e-8, 0.05)).map(int_), st.tuples(RAD, gen.logf(0.05, 200), gen.unif(0.01, 0.95)).map(int_))
    return st.one_of(gen.opaque(e), gen.opaque(e), gen.opaque(i))


def body(b=gen.MAYBE_B):
    return st.one_of(gen.opaque(gen.solid(b)), gen.opaque(gen.solid(b)), gen.PEC)


def trunc(hi=4, hi2=5):
    return st.tuples(st.integers(1, hi), st.integers(1, hi2), st.integers(0, hi)).map(
        lambda t: {"lmax": t[0], "lss": max(t[0], t[1]), "m": min(t[0], t[2])})


def kchar(s):
    """inverse surface distance, the wavenumber that matters"""
    gap = s["L"]-s["r1"]-s["r2"] if s["ext"] else s["r2"]-s["r1"]-s["L"]
    return 1.0/gap


def case(tier, hi=4, hi2=5, nk=2, body_=None, med=None, krange=(1e-3, 8), shp=None):
    """geometry with wavenumbers given in units of the inverse surface distance, sometimes down to the very small ones
       that stand for the zeroth Matsubara frequency"""
    b = body_ or body()

    def like(c):
        # sometimes two spheres of one material with the same truncation
        if c.pop("eq") == 0:
            c["b"] = c["a"]
            c["t"]["lss"] = c["t"]["lmax"]
        return c
    return st.fixed_dictionaries({"eq": st.integers(0, 5), "s": shp or shape(), "a": b, "b": b, "med": med or gen.medium(), "t": trunc(hi, hi2),
                                  "q": st.one_of(*[gen.opaque(gen.ks(krange[0], krange[1], nk))]*4, gen.opaque(gen.ks(1e-10, krange[1], nk)))}).map(like)


def ks(c):
    n = [float(mp.sqrt(mats.response(c["med"], kchar(c["s"]))[0]))]
    return [float("%.6g" % (q*kchar(c["s"])/n[0])) for q in c["q"]]


def make(c, **kw):
    s = c["s"]
    o = dict(lmax=c["t"]["lmax"], lssmax=c["t"]["lss"])
    o.update(kw)
    a = mats.make(c["a"])
    b = a if c["b"] == c["a"] else mats.make(c["b"])
    return geometry.SphereSphere(s["r1"], s["r2"], s["L"], a, b, mats.make(c["med"]), **o)


def in_range(c, k, xmax=2e4):
    s = c["s"]
    for spec, r in ((c["a"], s["r1"]), (c["b"], s["r2"]), (c["med"], max(s["L"], s["r1"], s["r2"]))):
        if not mats.is_pec(spec) and mc.x_of(spec, k, r) > xmax:
            return False
    return mc.x_of(c["med"], k, max(s["L"], s["r2"])) < 2000


def coefficients(c, k, dps=40):
    """physical Mie coefficients of both bodies and their bare magnitudes"""
    s, t = c["s"], c["t"]
    em, mm = mats.response(c["med"], k)
    ea, ma = mats.response(c["a"], k)
    eb, mb = mats.response(c["b"], k)
    ra = ref.mie_solid(k, 1, t["lmax"], s["r1"], ea, ma, em, mm, mats.is_pec(c["a"]), dps)
    if s["ext"]:
        rb = ref.mie_solid(k, 1, t["lss"], s["r2"], eb, mb, em, mm, mats.is_pec(c["b"]), dps)
    else:
        rb = ref.mie_cavity(k, 1, t["lss"], s["r2"], em, mm, eb, mb, mats.is_pec(c["b"]), dps)
    a, b = ref.phys(ra, 1, True), ref.phys(rb, 1, bool(s["ext"]))
    wa = {l: abs(mp.pi/2*mp.exp(ra[l-1][2]))*max(1, abs(ra[l-1][1])) for l in range(1, t["lmax"]+1)}
    wb = {l: abs((mp.pi/2 if s["ext"] else 2/mp.pi)*mp.exp(rb[l-1][2]))*max(1, abs(rb[l-1][1])) for l in range(1, t["lss"]+1)}
    x = mp.mpf(k)*mp.mpf(s["L"])*mp.sqrt(em*mm)
    return a, b, wa, wb, x


def tol_rel(c, k):
    """relative rounding level of the ingredients at this wavenumber"""
    return 1e-9


def lndet(c, k, m, dps=40):
    """(ln det(1-M), M, absolute tolerance) in the subspace m at wavenumber k"""
    t = c["t"]
    a, b, wa, wb, x = coefficients(c, k, dps)
    ld, M = ref.lndet_m(m, t["lmax"], t["lss"], x, a, b, c["s"]["ext"], dps)
    w = ref.weight_m(m, t["lmax"], t["lss"], x, wa, wb, c["s"]["ext"])
    gap = max(1e-3, float(mp.exp(ld)))      # conditioning of ln det
    tol = (float(w)*tol_rel(c, k)+3e-15*t["lmax"])/gap
    return float(ld), M, tol


def label(c):
    k = {mats.kind(c["a"]), mats.kind(c["b"])}
    k = "pec" if k == {"pec"} else "mixed pec" if "pec" in k else "real"
    mag = ",magnetic" if any(mats.magnetic(c[i]) for i in ("a", "b", "med")) else ""
    return ("ext," if c["s"]["ext"] else "int,")+k+mag
