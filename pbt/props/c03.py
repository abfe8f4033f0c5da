"""C03: material response functions and their classification."""
import numpy as np
from hypothesis import strategies as st
import gen
import mats
import ref
from table import TABLE
from core import law, arr, close, need, Frozen
import materials


def s_smith():
    return st.tuples(gen.logf(1e14, 1e17), gen.logf(1e11, 1e16), gen.MAYBE_B).map(
        lambda t: {"smith": [t[0], 0.0, t[1]], "b": t[2]})


def s_mat():
    weird = st.tuples(st.lists(st.tuples(gen.logf(1e11, 1e18, special=(0.0,)), gen.logf(1e10, 1e18, special=(0.0,)),
                                         gen.logf(1e9, 1e17, special=(0.0,))).map(list), max_size=6),
                      gen.MAYBE_B).map(lambda t: {"e": t[0], "b": t[1]})
    # frequencies far outside of the optical range, down to a few Hertz
    wide = st.tuples(st.lists(st.tuples(gen.logf(1.0, 1e18, special=(0.0,)), gen.logf(1.0, 1e18, special=(0.0,)),
                                        gen.logf(1.0, 1e18, special=(0.0,))).map(list), min_size=1, max_size=3),
                     gen.MAYBE_B).map(lambda t: {"e": t[0], "b": t[1]})
    return st.one_of(gen.dielectric(gen.MAYBE_B), gen.drude(gen.MAYBE_B), gen.plasma(gen.MAYBE_B), gen.mixed(gen.MAYBE_B),
                     weird, wide, s_smith(), gen.VAC)


def s_resp(tier):
    return st.fixed_dictionaries({"mat": s_mat(), "k": st.one_of(gen.ks(1e-12, 1e6, 6), gen.ks(1e-3, 1e3, 60)),
                                  "two_d": st.booleans()})


@law("C03", s_resp, 12000, 120000)
def response(c):
    """epsilon and mu of arbitrary oscillator lists against the 40 digit Lorentz (Smith-Drude) sum and the relaxation law
       of mu: arrays of any shape, plain floats, numpy scalars; results have the shape of k and k is left alone"""
    m = mats.make(c["mat"])
    k = np.array(c["k"])
    if c["two_d"] and "smith" not in c["mat"]:
        k = k[:, None]
    fr = Frozen(k=k)
    e, u = arr(m.epsilon(k)), arr(m.mu(k))
    fr.check()
    e2, u2 = m.epsilon(k), m.mu(k)
    want_e = np.array([float(mats.response(c["mat"], v)[0]) for v in c["k"]]).reshape(k.shape)
    want_u = np.array([float(mats.response(c["mat"], v)[1]) for v in c["k"]]).reshape(k.shape)
    for name, a, w in (("epsilon", e, want_e), ("mu", u, want_u), ("second call of epsilon", e2, want_e),
                       ("second call of mu", u2, want_u)):
        close(a, w, 1e-12, 0, name)
    need(np.all(e >= 1), "epsilon below one at imaginary frequency")
    v = float(c["k"][0])
    close(m.epsilon(v), want_e.flat[0], 1e-12, 0, "epsilon of a float")
    close(m.mu(v), want_u.flat[0], 1e-12, 0, "mu of a float")
    close(m.epsilon(np.float64(v)), want_e.flat[0], 1e-12, 0, "epsilon of a numpy scalar")
    if "smith" not in c["mat"]:
        close(m.mu(np.float64(v)), want_u.flat[0], 1e-12, 0, "mu of a numpy scalar")
    return None if not (c["mat"].get("e") or "smith" in c["mat"]) else \
        mats.kind(c["mat"])+(",magnetic" if mats.magnetic(c["mat"]) else "")


def s_flag(tier):
    return st.fixed_dictionaries({"mat": s_mat()})


@law("C03", s_flag, 6000, 60000)
def flags(c):
    """is_dielectric iff epsilon stays finite for k -> 0, is_sigma_finite iff k^2 epsilon -> 0 (no undamped free
       carriers), is_magnetic iff a permeability is given; decided on the reference response at k = 1e-40, 1e-60"""
    m = mats.make(c["mat"])
    e1, e2 = [mats.response(c["mat"], k)[0]-1 for k in ("1e-40", "1e-60")]
    grows = e2 > 10*e1
    q = mats.mpf("1e-60")**2*e2
    need(bool(m.is_dielectric) == (not grows), "is_dielectric = %r, epsilon(1e-40, 1e-60)-1 = %s, %s" % (
        m.is_dielectric, float(e1), float(e2)))
    need(bool(m.is_sigma_finite) == (q < 1e-30), "is_sigma_finite = %r, k^2 epsilon -> %g" % (m.is_sigma_finite, float(q)))
    need(bool(m.is_magnetic) == bool(c["mat"]["b"]), "is_magnetic = %r for %r" % (m.is_magnetic, c["mat"]["b"]))
    need(not m.is_perfect_conductor, "a Lorentz material calls itself perfect conductor")
    for f, name in ((materials.is_dielectric, "is_dielectric"), (materials.is_sigma_finite, "is_sigma_finite")):
        props = [tuple(p) for p in c["mat"].get("e", [c["mat"].get("smith")])]
        need(bool(f(props)) == bool(getattr(m, name)), "materials.%s disagrees with the attribute" % name)
    return mats.kind(c["mat"])


def s_lib(tier):
    return st.fixed_dictionaries({"name": st.sampled_from(sorted(TABLE)), "k": gen.ks(1e-8, 1e5, 5)})


@law("C03", s_lib, 5000, 20000)
def library(c):
    """every predefined material responds like the published oscillator parameters (independent table) at every
       frequency, carries its name and the matching classification"""
    name, k = c["name"], np.array(c["k"])
    osc, b = TABLE[name]
    m = getattr(materials, name)
    if name == "MercurySmith":
        want = [float(ref.smith_eps(osc, v)) for v in c["k"]]
    else:
        want = [float(ref.lorentz_eps(osc, v)) for v in c["k"]]
    close(m.epsilon(k), want, 1e-11, 0, "epsilon of %s" % name)
    close(m.mu(k), [float(ref.mu_model(b, v)) for v in c["k"]], 1e-11, 0, "mu of %s" % name)
    need(m.name == name, "name of %s is %r" % (name, m.name))
    need(bool(m.is_dielectric) == (not any(o[1] == 0 for o in osc)), "is_dielectric of %s" % name)
    need(bool(m.is_sigma_finite) == (not any(o[1] == 0 and o[2] == 0 for o in osc)), "is_sigma_finite of %s" % name)
    need(bool(m.is_magnetic) == bool(b), "is_magnetic of %s" % name)
    need(not m.is_perfect_conductor, "%s calls itself perfect conductor" % name)
    p = materials.PerfectConductor
    need(p.is_perfect_conductor and not p.is_sigma_finite and not p.is_magnetic, "flags of the perfect conductor")
    close(p.mu(k), np.ones(len(k)), 0, 0, "mu of the perfect conductor")
    return name


def s_mono(tier):
    return st.fixed_dictionaries({"mat": s_mat(), "k": gen.logf(1e-8, 1e5), "f": gen.logf(1.001, 1e3)})


@law("C03", s_mono, 4000, 40000)
def causality(c):
    """epsilon(i k) falls monotonically to one; contributions of oscillators add up; mu relaxes from mu(0) to one"""
    m = mats.make(c["mat"])
    k1, k2 = c["k"], c["k"]*c["f"]
    e = arr(m.epsilon(np.array([k1, k2])), (2,))
    need(e[1] <= e[0]*(1+1e-14), "epsilon grows with frequency")
    if "e" in c["mat"] and c["mat"]["e"]:
        parts = sum(arr(materials.LorentzMaterial([tuple(p)], ()).epsilon(np.array([k1])), (1,))[0]-1 for p in c["mat"]["e"])
        close(e[0]-1, parts, 1e-12, 1e-15*len(c["mat"]["e"])*e[0], "sum over oscillators")
    b = c["mat"]["b"]
    if b:
        u = arr(m.mu(np.array([0.0, k1, k2, 1e30])), (4,))
        close(u[0], b[0], 1e-13, 0, "mu(0)")
        close(u[3], 1, 1e-9, 0, "mu(infinity)")
        s = np.sign(b[0]-1)
        need(s*(u[1]-u[2]) >= -1e-14*abs(u[1]) and s*(u[0]-u[1]) >= -1e-14*abs(u[0]), "mu is not monotonic")
    return mats.kind(c["mat"])
