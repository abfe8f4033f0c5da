"""C21: numerical derivative and logarithms of (double) factorials."""
from fractions import Fraction
import math
import numpy as np
import mpmath as mp
from hypothesis import strategies as st
import gen
from core import law, arr, close, flat, need, raises, Frozen
import helper_functions as hf


def s_poly(tier):
    return st.fixed_dictionaries({"n": st.integers(5, 40), "x0": gen.unif(-20, 20, special=(0.0,)), "h": gen.logf(1e-3, 10),
                                  "p": st.lists(gen.unif(-3, 3, 3), min_size=1, max_size=5), "ints": st.booleans()})


@law("C21", s_poly, 6000, 30000)
def exact_for_polynomials(c):
    """on an equidistant grid the derivative of a polynomial is exact up to degree four in the interior, up to degree two next to
       the ends, up to degree one at the ends (exact rational reference); it has one value per point"""
    n, h, p = c["n"], c["h"], c["p"]
    x0 = c["x0"]
    # the polynomial in the variable (x-x0)/(h n), of order one on the grid
    q = [Fraction(v) for v in p]
    t = [Fraction(i, n) for i in range(n)]
    f = np.array([float(sum(v*u**j for j, v in enumerate(q))) for u in t])
    x = x0+h*np.arange(n)
    fr = Frozen(f=f, x=x)
    got = arr(hf.num_derivative(f, x), (n,), "derivative")
    fr.check()
    scale = 1/(h*n)
    tol = (1e-13+8*abs(x[-1])*1e-16/h*len(p))*n*4*scale*sum(abs(v) for v in p)+1e-300
    want = np.array([float(sum(j*v*u**(j-1) for j, v in enumerate(q) if j)) for u in t])*scale
    close(got[2:-2], want[2:-2], 1e-11, tol, "interior derivative")
    # lower order at the ends: reference are the differences themselves
    ends = np.array([float(v) for v in ((fq(q, t[1])-fq(q, t[0]))*n, (fq(q, t[2])-fq(q, t[0]))*n/2, (fq(q, t[-1])-fq(q, t[-3]))*n/2, (fq(q, t[-1])-fq(q, t[-2]))*n)])*scale
    close(got[[0, 1, -2, -1]], ends, 1e-11, tol, "derivative at the ends")
    return "degree %d" % (len(p)-1)


def fq(q, u):
    return sum(v*u**j for j, v in enumerate(q))


FUN = {"exp": (np.exp, np.exp), "sin": (np.sin, np.cos), "gauss": (lambda x: np.exp(-x*x), lambda x: -2*x*np.exp(-x*x)), "rat": (lambda x: 1/(1+x*x), lambda x: -2*x/(1+x*x)**2)}


def s_conv(tier):
    return st.fixed_dictionaries({"f": st.sampled_from(sorted(FUN)), "x0": gen.unif(-1, 1), "w": gen.unif(0.5, 2), "n": st.integers(8, 30)})


@law("C21", s_conv, 1200, 6000)
def order_of_convergence(c):
    """for smooth functions the error in the interior falls with the fourth power of the spacing, next to the ends with the
       second and at the ends with the first"""
    f, df = FUN[c["f"]]

    def err(n):
        x = c["x0"]+np.linspace(0, c["w"], n)
        return np.abs(arr(hf.num_derivative(f(x), x), (n,))-df(x)), x[1]-x[0]
    e, h = err(c["n"])
    # bounds with the largest derivatives of these functions on [-2, 3]
    D = 150.0*(math.exp(3)/5 if c["f"] == "exp" else 1)
    need((e[2:-2] <= D*h**4/30+1e-12/h).all(), "interior error %g at spacing %g" % (e[2:-2].max(), h))
    need((e[[1, -2]] <= D*h**2/6+1e-12/h).all(), "error %g next to the ends at spacing %g" % (e[[1, -2]].max(), h))
    need((e[[0, -1]] <= D*h/2+1e-12/h).all(), "error %g at the ends at spacing %g" % (e[[0, -1]].max(), h))
    return c["f"]


def s_int(tier):
    return st.fixed_dictionaries({"f": st.lists(st.integers(-50, 50), min_size=5, max_size=20), "x0": st.integers(-20, 20), "h": st.integers(1, 7),
                                  "T": st.sampled_from(["f", "x", "both"]), "t": st.sampled_from(["int64", "int32", "int16", "float32"])})


@law("C21", s_int, 1200, 6000)
def number_types(c):
    """data and abscissae given as integers or in single precision mean the same numbers as doubles (small integers are exact in
       all of them); they stay unchanged"""
    f, x = np.array(c["f"], float), c["x0"]+c["h"]*np.arange(len(c["f"]), dtype=float)
    want = arr(hf.num_derivative(f.copy(), x.copy()), f.shape, "derivative")
    T = np.dtype(c["t"])
    a = f.astype(T) if c["T"] != "x" else f
    b = x.astype(T) if c["T"] != "f" else x
    fr = Frozen(f=a, x=b)
    got = arr(hf.num_derivative(a, b), f.shape, "derivative")
    fr.check()
    close(got, want, 1e-6 if c["t"] == "float32" else 1e-12, 1e-5 if c["t"] == "float32" else 1e-12, "derivative of %s given as %s" % (c["T"], c["t"]))
    return c["t"]+" "+c["T"]


def s_lin(tier):
    vals = st.lists(gen.unif(-5, 5), min_size=5, max_size=15)
    return st.fixed_dictionaries({"f": vals, "g": vals, "a": gen.unif(-3, 3), "b": gen.unif(-3, 3), "h": gen.logf(1e-2, 10), "x0": gen.unif(-5, 5), "s": gen.unif(-9, 9)})


@law("C21", s_lin, 2000, 10000)
def linearity_and_shift(c):
    """for arbitrary data the derivative is linear in the data, does not depend on the origin of x, is inverse in its unit, and
       reversing the data reverses and negates it; the five-point formula holds in the interior"""
    n = min(len(c["f"]), len(c["g"]))
    f, g = np.array(c["f"][:n]), np.array(c["g"][:n])
    x = c["h"]*np.arange(n)
    D = lambda y, x=x: arr(hf.num_derivative(y, x), (n,), "derivative")
    tol = 1e-10/c["h"]*(1+abs(c["x0"])/c["h"]*1e-2)
    close(D(c["a"]*f+c["b"]*g), c["a"]*D(f)+c["b"]*D(g), 0, tol, "linearity")
    close(D(f, x+c["x0"]), D(f), 0, 1e-13*(20+abs(c["x0"]))*40/c["h"]**2+tol, "shifted abscissae")
    close(D(f, 2*x), D(f)/2, 0, tol, "rescaled abscissae")
    close(D(f+c["s"]), D(f), 0, tol, "shifted data")
    close(D(f[::-1].copy()), -D(f)[::-1], 0, tol, "reversed data")
    want = np.array([(f[i-2]-8*f[i-1]+8*f[i+1]-f[i+2])/(12*c["h"]) for i in range(2, n-2)])
    close(D(f)[2:-2], want, 0, tol, "five-point formula")
    return "n=%d" % n


def s_refuse(tier):
    return st.fixed_dictionaries({"n": st.integers(5, 12), "h": gen.logf(1e-3, 10), "zero": st.booleans(), "x0": gen.unif(-5, 5)})


@law("C21", s_refuse, 400, 2000)
def refuses_decreasing(c):
    """abscissae that do not increase are refused with a ValueError"""
    x = c["x0"]-(0 if c["zero"] else c["h"])*np.arange(c["n"])
    raises(ValueError, lambda: hf.num_derivative(np.arange(c["n"])*1.0, x), "decreasing abscissae")
    raises(ValueError, lambda: hf.num_derivative(np.arange(c["n"])*1.0+1, x, interpolate=True), "decreasing abscissae")
    return "constant" if c["zero"] else "decreasing"


def s_interp(tier):
    return st.fixed_dictionaries({"n": st.integers(5, 20), "x0": gen.logf(0.05, 5), "h": gen.logf(0.01, 1), "pow": gen.unif(-3, 3), "c": gen.logf(0.1, 10),
                                  "sign": st.booleans(), "mult": st.sampled_from([None, 5, 10, 20])})


@law("C21", s_interp, 1200, 6000)
def interpolated_power_laws(c):
    """with double-logarithmic interpolation the derivative of a power law (of either sign) is that of the power law, to the order
       of the refined spacing; one value per given point"""
    n, mult = c["n"], c["mult"] or 10
    x = c["x0"]+c["h"]*np.arange(n)
    s = -1.0 if c["sign"] else 1.0
    f = s*c["c"]*x**c["pow"]
    fr = Frozen(x=x, f=f)
    got = arr(hf.num_derivative(f, x, True) if c["mult"] is None else hf.num_derivative(f, x, interpolate=True, multiplier=mult), (n,), "derivative")
    fr.check()
    p, hh = c["pow"], c["h"]/mult
    want = s*c["c"]*p*x**(p-1)
    lo = x-2*hh
    if lo[0] <= 0.2*x[0]:
        return None
    third = np.abs(c["c"]*p*(p-1)*(p-2)*(p-3)*(p-4))*np.maximum(lo**(p-5), (x+2*hh)**(p-5))*hh**4/30
    close(got[1:-1], want[1:-1], 1e-9, 2*third[1:-1]+1e-11*np.abs(f).max()/hh, "derivative")
    end = np.abs(c["c"]*p*(p-1))*np.maximum(lo**(p-2), (x+2*hh)**(p-2))*hh/2
    close(got[[0, -1]], want[[0, -1]], 1e-9, 1.5*end[[0, -1]]+1e-11*np.abs(f).max()/hh, "derivative at the ends")
    return "multiplier %d" % mult


def s_fac(tier):
    return st.fixed_dictionaries({"n": st.lists(st.one_of(st.integers(0, 30), st.integers(0, 300), st.integers(0, 10000), st.integers(0, 10**9)), min_size=1, max_size=6), "arr": st.booleans(), "fl": st.booleans()})


@law("C21", s_fac, 2000, 10000)
def factorials(c):
    """lfac is ln n!, ln_2dbl is ln (2n-1)!! for scalars and arrays of integers, against exact integer products"""
    fac, dbl = [], []
    with mp.workdps(30):
        for n in c["n"]:
            fac.append(float(mp.loggamma(n+1)) if n > 300 else float(mp.log(math.factorial(n))))
            if n > 300:
                dbl.append(float(mp.loggamma(2*n+1)-n*mp.log(2)-mp.loggamma(n+1)))
            else:
                d = 1
                for j in range(1, 2*n, 2):
                    d *= j
                dbl.append(float(mp.log(d)))
    x = np.array(c["n"], dtype=float if c["fl"] else int)
    if c["arr"]:
        fr = Frozen(x=x)
        a, b = arr(hf.lfac(x), x.shape, "lfac"), arr(hf.ln_2dbl(x), x.shape, "ln_2dbl")
        fr.check()
    else:
        a, b = [flat([f(float(v) if c["fl"] else int(v)) for v in c["n"]]) for f in (hf.lfac, hf.ln_2dbl)]
    close(a, fac, 1e-13, 1e-14, "ln n!")
    close(b, dbl, 1e-11, 1e-12*np.array([1+n*0.05 for n in c["n"]]), "ln (2n-1)!!")
    return "array" if c["arr"] else "scalar"
