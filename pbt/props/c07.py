"""C07: zero-frequency Mie coefficients are the limits of the finite-frequency ones."""
import numpy as np
import mpmath as mp
from hypothesis import strategies as st
import gen
import mats
import ref
import mie_common as mc
from core import law, arr, close, need, raises, seq
from scattering import scattering

K = "1e-60"
DPS = 170


def sphere():
    return st.one_of(gen.opaque(gen.dielectric(gen.MAYBE_B)), gen.opaque(gen.drude(gen.MAYBE_B)),
                     gen.opaque(gen.plasma(gen.MAYBE_B)), gen.opaque(gen.mixed(gen.MAYBE_B)), gen.PEC,
                     gen.lib(gen.DIEL_NAMES), gen.lib(gen.DRUDE_NAMES+["MercurySmith", "Gold_magnetic"]),
                     gen.lib(gen.PLASMA_NAMES))


def s_k0(tier):
    return st.fixed_dictionaries({"sph": sphere(), "med": st.one_of(gen.medium(), gen.medium(gen.magnetic())),
                                  "l": mc.lrange(tier, 40), "r": st.one_of(gen.logf(1e-3, 100, 4), st.integers(1, 20))})


def limit(c, external):
    lmin, lmax = c["l"]
    with mp.workdps(DPS):
        k = mp.mpf(K)
        es, ms = mats.response(c["sph"], k)
        em, mm = mats.response(c["med"], k)
        pec = mats.is_pec(c["sph"])
        f = ref.mie_solid if external else ref.mie_cavity
        a = (es, ms, em, mm) if external else (em, mm, es, ms)
        r = f(k, lmin, lmax, c["r"], *a, pec, DPS)
        lx = mp.log(k*mp.mpf(c["r"])*mp.sqrt(em*mm))
        out = []
        for j, (te, tm, ln) in enumerate(r):
            l = lmin+j
            s = ln-(2*l+1)*lx if external else ln+(2*l+1)*lx
            pre = mp.pi/2 if external else 2/mp.pi
            out.append([float((-1)**l*pre*te), float((-1)**l*pre*tm), float(s)])
        return np.array(out)


def compare(res, want, l):
    te, tm, ln = [arr(v, (l[1]-l[0]+1,), w) for v, w in zip(seq(res, 3), ("TE", "TM", "scaling"))]
    need(np.all(np.isfinite(ln)), "scaling is not finite")
    f = np.exp(ln-want[:, 2])
    close(te*f, want[:, 0], 1e-9, 1e-12, "static TE from l=%d" % l[0])
    close(tm*f, want[:, 1], 1e-9, 1e-12, "static TM from l=%d" % l[0])


def label(c):
    return mats.kind(c["sph"])+(",magnetic" if mats.magnetic(c["sph"]) or mats.magnetic(c["med"]) else "")


def sub_range(f, c):
    """orders lmin..lmax are the last ones of 1..lmax"""
    full = np.array([arr(v, (c["l"][1],)) for v in f(1, c["l"][1], c["r"])])
    part = np.array([arr(v, (c["l"][1]-c["l"][0]+1,)) for v in f(c["l"][0], c["l"][1], c["r"])])
    close(part, full[:, c["l"][0]-1:], 1e-12, 1e-14, "sub-range of orders")


@law("C07", s_k0, 3000, 10000)
def external(c):
    """mie_k0 against the coefficient at k = 1e-60/micron divided by (n k R)^(2l+1), computed with 170 digits: all classes
       of spheres (dielectric, Drude, plasma, both carriers, perfect conductor, magnetic) and dielectric media"""
    s = scattering(mats.make(c["sph"]), mats.make(c["med"]))
    compare(s.mie_k0(c["l"][0], c["l"][1], c["r"]), limit(c, True), c["l"])
    sub_range(s.mie_k0, c)
    return label(c)


@law("C07", s_k0, 3000, 10000)
def internal(c):
    """mie_internal_k0 against the limit of the cavity coefficient multiplied by (n k R)^(2l+1)"""
    s = scattering(mats.make(c["med"]), mats.make(c["sph"]))
    compare(s.mie_internal_k0(c["l"][0], c["l"][1], c["r"]), limit(c, False), c["l"])
    sub_range(s.mie_internal_k0, c)
    return label(c)


def s_cont(tier):
    return st.fixed_dictionaries({"sph": sphere(), "med": gen.medium(gen.NO_B), "l": mc.lrange(tier, 8),
                                  "r": gen.logf(0.1, 10, 4), "k": gen.logf(1e-9, 1e-6), "ext": st.booleans()})


@law("C07", s_cont, 4200, 10000)
def continuity(c):
    """the code's own finite-frequency coefficients at small wavenumbers approach its zero-frequency ones; materials
       whose response varies below that wavenumber are left to the reference law"""
    sp, kk, r = mats.expand(c["sph"]), c["k"], c["r"]
    if mats.magnetic(sp) or any(p[1] > 0 and p[1]/2.998e14 < 1e4*kk for q in (c["sph"], c["med"])
                                for p in mats.expand(q).get("e", [])):
        return None
    lmin, lmax = c["l"]
    s = scattering(*([mats.make(c["sph"]), mats.make(c["med"])][::1 if c["ext"] else -1]))
    fin = (s.mie if c["ext"] else s.mie_internal)(np.array([kk]), lmin, lmax, r)
    te, tm, ln = mc.split(fin, 1, lmin, lmax)
    k0 = (s.mie_k0 if c["ext"] else s.mie_internal_k0)(lmin, lmax, r)
    te0, tm0, ln0 = [arr(v, (lmax-lmin+1,)) for v in seq(k0, 3)]
    e, m = mats.response(c["med"], kk)
    lx = np.log(kk*r*np.sqrt(float(e*m)))
    l = np.arange(lmin, lmax+1)
    d = ln[0]+(-1 if c["ext"] else 1)*(2*l+1)*lx-ln0
    need(np.all(np.isfinite(d)), "scaling is not finite")
    f = np.exp(d)
    kind = mats.kind(sp)
    w = kk*2.998e14
    slow = 1e-6 + sum(10*(w*w+p[2]*w)/p[1]**2 for q in (c["sph"], c["med"]) for p in mats.expand(q).get("e", []) if p[1] > 0)
    if kind in ("drude", "plasma"):
        # conductivity: corrections of relative order k/(k_p) and, damped, k wp^2 r^2/gamma
        dr = [p for p in sp.get("e", [sp.get("smith")]) if p[1] == 0 and p[0] and p[2]]
        slow += sum(3*kk*(p[0]/2.998e14)**2*r*r/(p[2]/2.998e14)+kk*(p[2]/2.998e14)/(p[0]/2.998e14)**2*1e3 for p in dr)
        slow += sum(kk*2.998e14/p[2]*100 for p in dr)
        pl = [p for p in sp.get("e", []) if p[1] == 0 and p[0] and not p[2]]
        slow += sum((kk*2.998e14/p[0])**2*1e3 for p in pl)
    if slow > 0.1:
        return None
    close(te[0]*f, te0, slow, 1e-8+slow, "TE at small k")
    close(tm[0]*f, tm0, slow, 1e-8+slow, "TM at small k")
    return kind+(",ext" if c["ext"] else ",int")


def s_rej(tier):
    return st.fixed_dictionaries({"sph": sphere(), "med": st.one_of(gen.drude(), gen.plasma(), gen.mixed()),
                                  "l": mc.lrange(tier, 8), "r": gen.logf(0.1, 10, 4)})


@law("C07", s_rej, 600, 1000)
def conducting_medium(c):
    """no silent result for a conducting medium between the surfaces: NotImplementedError"""
    sp, md = mats.make(c["sph"]), mats.make(c["med"])
    raises(NotImplementedError, lambda: scattering(sp, md).mie_k0(c["l"][0], c["l"][1], c["r"]), "mie_k0")
    raises(NotImplementedError, lambda: scattering(md, sp).mie_internal_k0(c["l"][0], c["l"][1], c["r"]), "mie_internal_k0")
    return mats.kind(c["med"])
