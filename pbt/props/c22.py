"""C22: tabulated optical data and conversion of oscillator parameters."""
import contextlib
import io
import numpy as np
from hypothesis import strategies as st
import gen
from core import law, arr, close, flat, need, seq, Frozen
from data_inter_extrapolation import data_interp_extrap
with contextlib.redirect_stdout(io.StringIO()):
    import materials_converter


def drude(w, wp, ga):
    return 1+wp**2/(w*(w+ga))


def table():
    """frequencies of a table and a Drude metal, optionally with deviations from it"""
    return st.fixed_dictionaries({"n": st.one_of(st.integers(6, 60), st.integers(6, 60), st.integers(60, 1200)), "lo": gen.logf(0.05, 2), "span": gen.logf(5, 300), "wp": gen.logf(3, 100), "ga": gen.logf(0.03, 3),
                                  "noise": st.one_of(st.just(0.0), gen.unif(0.0, 0.02)), "dev": st.lists(gen.unif(-1, 1), min_size=60, max_size=60)})


def make(c):
    x = c["lo"]*c["span"]**(np.arange(c["n"])/(c["n"]-1.0))
    y = drude(x, c["wp"], c["ga"])*(1+c["noise"]*np.array((c["dev"]*21)[:c["n"]]))
    return x, y


def places(lo, hi, n, least=0):
    """a few positions or a grid of many"""
    many = st.tuples(st.integers(n+1, 150), gen.unif(0.1, 1.0)).map(lambda t: [float("%.6g" % x) for x in lo+(hi-lo)*t[1]*(np.arange(t[0])+0.5)/t[0]])
    few = st.lists(gen.unif(lo, hi), min_size=least, max_size=n)
    return st.one_of(gen.opaque(few), gen.opaque(few), gen.opaque(few), gen.opaque(many))


def s_tab(tier):
    # positions relative to the table: below, inside, above
    return st.fixed_dictionaries({"t": table(), "below": places(0.05, 0.97, 3), "inside": places(0.02, 0.98, 6, 1), "above": places(1.03, 20, 3)})


@law("C22", s_tab, 2500, 10000)
def interpolation(c):
    """for increasing frequencies, inside of the table the result is the linear interpolation between neighbouring rows, whatever
       lies outside; one value per frequency, arrays of the caller unchanged; non-trivial: at least two frequencies"""
    x, y = make(c["t"])
    w = np.array(sorted(set([x[0]*f for f in c["below"]]+[x[0]+(x[-1]-x[0])*f for f in c["inside"]]+[x[-1]*f for f in c["above"]])))
    if len(w) < 2:
        return None
    fr = Frozen(x=x, y=y, w=w)
    got = arr(data_interp_extrap(x, y).get_drude_data(w), w.shape, "permittivities")
    fr.check()
    inside = (w > x[0]) & (w < x[-1])
    close(got[inside], np.interp(w[inside], x, y), 1e-10, 0, "interpolated permittivity")
    return "below:%s above:%s" % (bool(c["below"]), bool(c["above"]))


@law("C22", s_tab, 2500, 10000)
def extrapolation(c):
    """outside of a table of an exact Drude metal the result is that metal, and for perturbed data a Drude function fitted to them:
       of the form 1+wp^2/(w(w+ga)) with the same parameters on both sides, and at least as close to the data as the metal they
       were made of; non-trivial: frequencies outside"""
    t = dict(c["t"], ga=max(c["t"]["ga"], 0.05*c["t"]["lo"]), lo=min(c["t"]["lo"], 10*c["t"]["ga"]))
    x, y = make(t)
    below, above = sorted({x[0]*f for f in c["below"]}), sorted({x[-1]*f for f in c["above"]})
    if not below and not above:
        return None
    w = np.array(below+sorted({x[0]+(x[-1]-x[0])*f for f in c["inside"]})+above)
    if len(w) < 2:
        return None
    got = arr(data_interp_extrap(x, y).get_drude_data(w), w.shape, "permittivities")
    out = np.array([v < x[0] or v > x[-1] for v in w])
    ref, fitted = reference_fit(x, y, t)
    if ref is None:
        return None
    close(got[out], drude(w[out], *ref), 1e-4, 1e-6, "extrapolated permittivity")
    return ("perturbed" if t["noise"] else "exact")+(",below" if below else "")+(",above" if above else "")


def reference_fit(x, y, t):
    """least squares with analytic derivatives, started at the exact parameters; the code starts at (1, 1): accept only tables
       for which the plain fit reaches the same minimum"""
    from scipy.optimize import curve_fit
    try:
        p, _ = curve_fit(drude, x, y, p0=(t["wp"], t["ga"]))
        q, _ = curve_fit(drude, x, y)
    except RuntimeError:
        return None, None
    if not np.allclose(np.abs(p), np.abs(q), rtol=1e-5):
        return None, None
    return (abs(p[0]), p[1]), q


def s_single(tier):
    return st.fixed_dictionaries({"t": table(), "w": gen.logf(1e-3, 1e3), "form": st.sampled_from(["float", "array"])})


@law("C22", s_single, 1000, 4000)
def single_frequency(c):
    """for a single frequency, given as number or array, the result is the Drude function of gold; the Drude function itself"""
    x, y = make(c["t"])
    d = data_interp_extrap(x, y)
    got = flat(d.get_drude_data(c["w"] if c["form"] == "float" else np.array([c["w"]])), 1)
    close(got, [drude(c["w"], 1.4e16/3e14, 5.3e13/3e14)], 1e-12, 0, "permittivity")
    close(flat(d.epsilon_drude(c["w"], c["t"]["wp"], c["t"]["ga"]), 1), [drude(c["w"], c["t"]["wp"], c["t"]["ga"])], 1e-12, 0, "Drude function")
    return c["form"]


def s_tr(tier):
    osc = st.tuples(gen.logf(1e-4, 100, special=(0.0001,)), gen.logf(1e-3, 200))
    return st.fixed_dictionaries({"p": st.one_of(st.lists(osc, max_size=10), st.lists(osc, min_size=11, max_size=40)), "kind": st.sampled_from(["lists", "tuples"])})


@law("C22", s_tr, 2000, 8000)
def conversion(c):
    """an oscillator of strength C at w electron volts becomes (sqrt(C) w, w) in radian frequencies, in the order given; the list
       of the caller stays as it is and the result can be converted on"""
    p = [list(o) if c["kind"] == "lists" else tuple(o) for o in c["p"]]
    fr = Frozen(p=p)
    got = seq(materials_converter.transform(p), len(p), "converted parameters")
    fr.check()
    f = 1.60218e-19/1.05457e-34
    for o, g in zip(c["p"], got):
        g = seq(g, 2, "oscillator")
        close([float(v) for v in g], [o[0]**0.5*o[1]*f, o[1]*f], 1e-12, 0, "oscillator")
    again = materials_converter.transform(p)
    need(again == got, "second conversion of the same list differs")
    return "%d oscillators" % min(len(p), 3) if p else None
