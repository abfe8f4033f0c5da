"""Independent evaluation of the Lifshitz formula for two half-spaces, in the units of PFA.py.

Substitution y = 2(kappa-q)L, geometric panels with Gauss-Legendre nodes (all scales of y are resolved alike)."""
import numpy as np
import mats
import ref

_x, _w = np.polynomial.legendre.leggauss(16)
_edges = np.concatenate(([0.0], 2.0**np.arange(-46, 6), [44.0, 60.0]))
_edges = np.unique(_edges)
Y = np.concatenate([0.5*(b-a)*_x+0.5*(a+b) for a, b in zip(_edges[:-1], _edges[1:])])
W = np.concatenate([0.5*(b-a)*_w for a, b in zip(_edges[:-1], _edges[1:])])


def eps_mu(spec, k):
    e, m = mats.response(spec, k)
    return (None if e is None else float(e)), float(m)


def fresnel(spec, med, kp2, kn):
    """(rTE, rTM) for squared parallel wavenumbers kp2"""
    eM, mM = med
    e, m = spec
    if e is None:
        return -np.ones_like(kp2), np.ones_like(kp2)
    sM = np.sqrt(kp2+eM*mM*kn**2)
    sP = np.sqrt(kp2+e*m*kn**2)
    return (m*sM-mM*sP)/(m*sM+mM*sP), (e*sM-eM*sP)/(e*sM+eM*sP)


def term(a, b, med, kn, L, pressure=False):
    """(TE, TM) of int k dk/(2 pi) ln(1-r1 r2 exp(-2 kappa L)) or of its negative derivative; L may be an array"""
    pa, pb, pm = eps_mu(a, kn), eps_mu(b, kn), eps_mu(med, kn)
    q = np.sqrt(pm[0]*pm[1])*kn
    L = np.asarray(L, dtype=float)[..., None]
    u = Y/(2*L)
    kappa = q+u
    kp2 = u*(u+2*q)
    r1, r2 = fresnel(pa, pm, kp2, kn), fresnel(pb, pm, kp2, kn)
    out = []
    for p in (0, 1):
        R = r1[p]*r2[p]
        x = 2*kappa*L
        one = -np.expm1(-x)+(1-R)*np.exp(-x)          # 1 - R exp(-x)
        f = np.log1p(-R*np.exp(-x)) if not pressure else None
        if pressure:
            f = -2*kappa*R*np.exp(-x)/one
        else:
            f = np.where(np.abs(R*np.exp(-x)) > 0.5, np.log(one), f)
        out.append((W*kappa*f/(2*np.pi)).sum(-1)/(2*L[..., 0]))
    return out


def terms(a, b, med, kns, L, pressure=False):
    return np.array([sum(term(a, b, med, k, L, pressure)) for k in kns])


def free_energy(a, b, med, T, L, nmax, pressure=False, k0=1e-10, weight0=0.5):
    """sum over all Matsubara terms; also the part of the terms above nmax and the spread of the zeroth term between different
       small wavenumbers, which the code does not control"""
    L = np.asarray(L, dtype=float)
    n_all = int(40/(T*L.min()))+1
    t = terms(a, b, med, [k0]+[n*T for n in range(1, n_all+1)], L, pressure)*T
    t[0] = t[0]*weight0
    other = sum(term(a, b, med, 1e-20, L, pressure))*T*weight0
    n = np.arange(n_all+1).reshape((-1,)+(1,)*L.ndim)
    tail = np.abs(np.where(n > nmax, t, 0)).sum(0)
    return {"all": t.sum(0), "n0": t[0], "tail": tail, "spread": np.abs(other-t[0]), "size": np.abs(t).sum(0), "count": np.minimum(n_all, nmax)+1}


def zero_temperature(a, b, med, L):
    """int_0^inf dk of the sum of both polarizations: panels in k as above"""
    e = np.concatenate(([0.0], 2.0**np.arange(-30, 6)))/(L)
    k = np.concatenate([0.5*(v-u)*_x+0.5*(u+v) for u, v in zip(e[:-1], e[1:])])
    w = np.concatenate([0.5*(v-u)*_w for u, v in zip(e[:-1], e[1:])])
    return float(np.dot(w, terms(a, b, med, k, L)))
