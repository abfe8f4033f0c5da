"""Independent reference implementations (mpmath, exact integer arithmetic).

Nothing in here imports the code under test.  Conventions follow the docstrings
of the repository: i_l(x) = sqrt(pi/2x) I_{l+1/2}(x), k_l(x) = sqrt(pi/2x) K_{l+1/2}(x).
"""
from functools import lru_cache
from math import comb, factorial
import mpmath as mp
from mpmath import mpf

C_MICRON = mpf('2.998e14')      # the speed of light in micron/s used by the package


# --------------------------------------------------------------- Bessel
@lru_cache(maxsize=256)
def _sph_ik(xr, lmax, dps):
    with mp.workdps(dps):
        x = mp.mpf(xr)
        k = [mp.pi/2*mp.exp(-x)/x]
        k.append(k[0]*(1+1/x))
        for l in range(1, lmax+1):
            k.append(k[l-1] + (2*l+1)/x*k[l])
        pref = mp.sqrt(mp.pi/(2*x))
        up = pref*mp.besseli(lmax+mpf(3)/2, x)
        top = pref*mp.besseli(lmax+mpf(1)/2, x)
        i = [None]*(lmax+2)
        i[lmax+1], i[lmax] = up, top
        for l in range(lmax, 0, -1):
            i[l-1] = i[l+1] + (2*l+1)/x*i[l]
        return tuple(i[:lmax+1]), tuple(k[:lmax+1])


def sph_ik(x, lmax, dps=40):
    """(i_0..i_lmax), (k_0..k_lmax) at x > 0"""
    lmax = max(int(lmax), 0)
    return _sph_ik(mp.mpf(x), lmax, dps)


def logder(x, lmax, dps=40):
    """id[l] = (x i_l)'/i_l and kd[l] = (x k_l)'/k_l for l = 1..lmax (index 0 unused)"""
    i, k = sph_ik(x, lmax, dps)
    idl, kdl = [None], [None]
    for l in range(1, lmax+1):
        idl.append(-l + x*i[l-1]/i[l])
        kdl.append(-l - x*k[l-1]/k[l])
    return idl, kdl


# --------------------------------------------------------------- Gaunt
@lru_cache(maxsize=200000)
def _threej_m(l1, l2, l3, m):
    """3j(l1 l2 l3; m -m 0) by Racah's formula; returns (integer sum, factorial part as mpf)"""
    if l3 < abs(l1-l2) or l3 > l1+l2 or abs(m) > min(l1, l2):
        return mpf(0)
    m1, m2, m3 = m, -m, 0
    tmin = max(0, l2-l3-m1, l1-l3+m2)
    tmax = min(l1+l2-l3, l1-m1, l2+m2)
    s = 0
    # sum of (-1)^t / [t! (l1+l2-l3-t)! (l1-m1-t)! (l2+m2-t)! (l3-l2+m1+t)! (l3-l1-m2+t)!]
    # written with binomials so that all terms are integers
    a, b, c = l1+l2-l3, l1+l3-l2, l2+l3-l1
    for t in range(tmin, tmax+1):
        s += (-1)**t*comb(a, t)*comb(b, l1-m1-t)*comb(c, l2+m2-t)
    # square of the remaining prefactor, exact rational
    num = (factorial(a)*factorial(b)*factorial(c)
           * factorial(l1+m1)*factorial(l1-m1)*factorial(l2+m2)*factorial(l2-m2)
           * factorial(l3)*factorial(l3))
    den = factorial(l1+l2+l3+1)*(factorial(a)*factorial(b)*factorial(c))**2
    with mp.workdps(50):
        return (-1 if (l1-l2-m3) % 2 else 1)*s*mp.sqrt(mpf(num)/mpf(den))


def gaunt_exact(l1, l2, lpp, m):
    """Integral of Y_{l1,m} Y_{l2,-m} Y_{lpp,0} (Condon-Shortley), exact up to 50 digits"""
    with mp.workdps(50):
        return (mp.sqrt(mpf((2*l1+1)*(2*l2+1)*(2*lpp+1))/(4*mp.pi))
                * _threej_m(l1, l2, lpp, 0)*_threej_m(l1, l2, lpp, m))


# --------------------------------------------------------------- Mie
def mie_solid(kk, lmin, lmax, r, eps_i, mu_i, eps_e, mu_e, pec=False, dps=40):
    """list over l of (TE, TM) ratios t_l = c_l/(i_l(x_e)/k_l(x_e)) with the package's sign:
       the physical coefficient is (-1)^l pi/2 * ratio * i_l/k_l; also returns ln(i_l/k_l)"""
    with mp.workdps(dps):
        kk, r = mpf(kk), mpf(r)
        ei, mi, ee, me = [mpf(v) if v is not None else None for v in (eps_i, mu_i, eps_e, mu_e)]
        xe = kk*r*mp.sqrt(ee*me)
        ide, kde = logder(xe, lmax, dps)
        ie, ke = sph_ik(xe, lmax, dps)
        if not pec:
            xi = kk*r*mp.sqrt(ei*mi)
            idi, _ = logder(xi, lmax, dps)
        out = []
        for l in range(lmin, lmax+1):
            if pec:
                te, tm = mpf(1), ide[l]/kde[l]
            else:
                te = (me*idi[l]-mi*ide[l])/(me*idi[l]-mi*kde[l])
                tm = (ee*idi[l]-ei*ide[l])/(ee*idi[l]-ei*kde[l])
            out.append((te, tm, mp.log(ie[l]/ke[l])))
        return out


def mie_cavity(kk, lmin, lmax, r, eps_i, mu_i, eps_e, mu_e, pec=False, dps=40):
    """reflection of an outgoing wave at the inner wall of a cavity (medium i inside, e outside).
       ratio such that the physical coefficient is (-1)^l 2/pi * ratio * k_l/i_l (inner medium)"""
    with mp.workdps(dps):
        kk, r = mpf(kk), mpf(r)
        ei, mi, ee, me = [mpf(v) if v is not None else None for v in (eps_i, mu_i, eps_e, mu_e)]
        xi = kk*r*mp.sqrt(ei*mi)
        idi, kdi = logder(xi, lmax, dps)
        ii, ki = sph_ik(xi, lmax, dps)
        if not pec:
            _, kde = logder(kk*r*mp.sqrt(ee*me), lmax, dps)
        out = []
        for l in range(lmin, lmax+1):
            if pec:
                te, tm = mpf(1), kdi[l]/idi[l]
            else:
                te = (me*kdi[l]-mi*kde[l])/(me*idi[l]-mi*kde[l])
                tm = (ee*kdi[l]-ei*kde[l])/(ee*idi[l]-ei*kde[l])
            out.append((te, tm, mp.log(ki[l]/ii[l])))
        return out


def mie_layers(kk, lmin, lmax, radii, eps, mu, dps=60):
    """layered sphere: radii r_0 < r_1 < ..., eps/mu lists (core, shells..., medium); a core with
       eps None is a perfect conductor.  Matching f and (r f)'/mu (TE), (r f)'/eps (TM)."""
    with mp.workdps(dps):
        kk = mpf(kk)
        n = [mp.sqrt(mpf(e)*mpf(m)) if e is not None else None for e, m in zip(eps, mu)]
        t = {}
        for l in range(lmin, lmax+1):
            t[l] = [mpf(0), mpf(0)]
        for j, r in enumerate(radii):
            r = mpf(r)
            xe = kk*r*n[j+1]
            ie, ke = sph_ik(xe, lmax, dps)
            ide, kde = logder(xe, lmax, dps)
            if n[j] is not None:
                xi = kk*r*n[j]
                ii, ki = sph_ik(xi, lmax, dps)
                idi, kdi = logder(xi, lmax, dps)
            for l in range(lmin, lmax+1):
                for pol in (0, 1):
                    if n[j] is None:
                        # TE: f = 0; TM: (r f)' = 0
                        t[l][pol] = -ie[l]/ke[l] if pol == 0 else -ie[l]*ide[l]/(ke[l]*kde[l])
                        continue
                    gi = mpf(mu[j]) if pol == 0 else mpf(eps[j])
                    ge = mpf(mu[j+1]) if pol == 0 else mpf(eps[j+1])
                    f = ii[l] + t[l][pol]*ki[l]
                    df = ii[l]*idi[l] + t[l][pol]*ki[l]*kdi[l]
                    # i_e + t k_e = f ; (ide i_e + t kde k_e)/ge = df/gi   (up to common amplitude)
                    y = df/f*ge/gi
                    t[l][pol] = ie[l]*(ide[l]-y)/(ke[l]*(y-kde[l]))
        out = []
        for l in range(lmin, lmax+1):
            q = ke[l]/ie[l]
            out.append((-t[l][0]*q, -t[l][1]*q, mp.log(ie[l]/ke[l])))
        return out


# --------------------------------------------------------------- translation
def translation(l1, l2, m, x, ext, dps=40, sums=False):
    """(EEab, EEba, EMab, EMba) for x = n k L > 0"""
    with mp.workdps(dps):
        x = mpf(x)
        i, k = sph_ik(x, l1+l2, dps)
        ee_ab = ee_ba = em_ab = em_ba = mpf(0)
        se = sm = mpf(0)
        p1, p2 = l1*(l1+1), l2*(l2+1)
        for q in range(abs(l1-l2), l1+l2+1, 2):
            b = k[q]*2/mp.pi if ext else i[q]
            sgn = -1 if ext else (-1)**q
            c = (sgn*(-1)**m*mp.sqrt(mp.pi)*b*gaunt_exact(l1, l2, q, m)
                 * mp.sqrt(mpf(2*q+1)/(p1*p2)))
            e = (p1+p2-q*(q+1))*c
            f = 2*m*x*c
            s = (-1)**q
            ee_ab += e
            ee_ba += e*s
            em_ab += f
            em_ba -= f*s
            se += abs(e)
            sm += abs(f)
        if sums:
            return ee_ab, ee_ba, em_ab, em_ba, se, sm
        return ee_ab, ee_ba, em_ab, em_ba


# --------------------------------------------------------------- round trip
def lndet_m(m, lmax, lss, x, a, b, ext, dps=50):
    """ln det(1-M) in the subspace m.  a[l], b[l] = (TE, TM) physical coefficients of the two
       bodies (index l), x = n k L."""
    with mp.workdps(dps):
        lmin = max(1, m)
        n1, n2 = lmax-lmin+1, lss-lmin+1
        V = mp.zeros(2*n1, 2*n2)
        W = mp.zeros(2*n2, 2*n1)
        for p in range(n1):
            for q in range(n2):
                l1, l2 = lmin+p, lmin+q
                eab, eba, mab, mba = translation(l1, l2, m, x, ext, dps)
                V[p, q] = eab
                V[n1+p, n2+q] = eab
                V[p, n2+q] = mab
                V[n1+p, q] = mab
                W[q, p] = eba
                W[n2+q, n1+p] = eba
                W[n2+q, p] = mba
                W[q, n1+p] = mba
        for p in range(n1):
            for c in range(2*n2):
                V[p, c] *= a[lmin+p][0]
                V[n1+p, c] *= a[lmin+p][1]
        for q in range(n2):
            for c in range(2*n1):
                W[q, c] *= b[lmin+q][0]
                W[n2+q, c] *= b[lmin+q][1]
        M = V*W
        return mp.log(mp.det(mp.eye(2*n1)-M)), M


def weight_m(m, lmax, lss, x, a, b, ext, dps=30):
    """sum of the magnitudes of all contributions to the trace of one round trip, with the coefficients a, b replaced by
       given magnitudes (scale of rounding errors)"""
    with mp.workdps(dps):
        lmin = max(1, m)
        s = mpf(0)
        for l1 in range(lmin, lmax+1):
            for l2 in range(lmin, lss+1):
                t = translation(l1, l2, m, x, ext, dps)
                s += a[l1]*b[l2]*(abs(t[0])+abs(t[2]))*(abs(t[1])+abs(t[3]))
        return s


def phys(ratios, lmin, ext_like):
    """physical coefficients {l: (TE, TM)} from ratio lists of mie_solid / mie_cavity"""
    f = mp.pi/2 if ext_like else 2/mp.pi
    return {lmin+j: ((-1)**(lmin+j)*f*te*mp.exp(s), (-1)**(lmin+j)*f*tm*mp.exp(s))
            for j, (te, tm, s) in enumerate(ratios)}


# --------------------------------------------------------------- Lorentz model
def lorentz_eps(e_props, k, dps=40):
    with mp.workdps(dps):
        k = mpf(k)
        e = mpf(1)
        for wp, wr, ga in e_props:
            wp, wr, ga = mpf(wp)/C_MICRON, mpf(wr)/C_MICRON, mpf(ga)/C_MICRON
            e += wp**2/(wr**2 + k**2 + ga*k)
        return e


def smith_eps(e_props, k, dps=40):
    with mp.workdps(dps):
        k = mpf(k)
        wp, wr, ga = [mpf(v)/C_MICRON for v in e_props[0]]
        return 1 + wp**2/(k**2+ga*k)*(1-mpf('0.49')*ga/(k+ga))


def mu_model(b_props, k, dps=40):
    with mp.workdps(dps):
        if not b_props:
            return mpf(1)
        return 1 + (mpf(b_props[0])-1)/(1+mpf(k)*C_MICRON/mpf(b_props[1]))


# --------------------------------------------------------------- zero frequency
def _dfac(n):
    """(2n-1)!!"""
    r = 1
    for j in range(1, n+1):
        r *= 2*j-1
    return r


def static_ratio(l, r, body, med, ext, dps=40):
    """(TE, TM) ratios of mie_solid / mie_cavity at k -> 0.  body = (kind, eps, mu, plasma wavenumber incl. mu)"""
    kind, eb, mb, wp = body
    em, mm = med
    idm, kdm = mpf(l+1), mpf(-l)
    if kind == "pec":
        return (mpf(1), idm/kdm) if ext else (mpf(1), kdm/idm)
    idb, kdb = mpf(l+1), mpf(-l)
    if wp:
        x = mpf(wp)*mpf(r)
        i, k = logder(x, l, dps)
        idb, kdb = i[l], k[l]
    if ext:
        te = (mm*idb-mb*idm)/(mm*idb-mb*kdm)
        tm = (em*idb-eb*idm)/(em*idb-eb*kdm) if kind == "dielectric" else idm/kdm
    else:
        te = (mb*kdm-mm*kdb)/(mb*idm-mm*kdb)
        tm = (eb*kdm-em*kdb)/(eb*idm-em*kdb) if kind == "dielectric" else kdm/idm
    return te, tm


def static_translation(l1, l2, m, ext):
    """EE coefficient (a to b) at k -> 0 without its power of kL"""
    q = l1+l2 if ext else abs(l1-l2)
    p1, p2 = l1*(l1+1), l2*(l2+1)
    b = mpf(_dfac(q)) if ext else 1/mpf(_dfac(q+1))
    sgn = -1 if ext else (-1)**q
    return (p1+p2-q*(q+1))*sgn*(-1)**m*mp.sqrt(mp.pi)*b*gaunt_exact(l1, l2, q, m)*mp.sqrt(mpf(2*q+1)/(p1*p2))


def static_lndet(m, lmax, lss, r1, r2, L, A, B, med, ext, dps=40):
    """(ln det TE, ln det TM, M_TE, M_TM, weight) of the zero-frequency round trip"""
    with mp.workdps(dps):
        lmin = max(1, m)
        r1, r2, L = mpf(r1), mpf(r2), mpf(L)
        n = lmax-lmin+1
        M = [mp.zeros(n, n), mp.zeros(n, n)]
        W = mpf(0)
        V = {(a, l): static_translation(a, l, m, ext) for a in range(lmin, lmax+1) for l in range(lmin, lss+1)}
        RA = {l: static_ratio(l, r1, A, med, True, dps) for l in range(lmin, lmax+1)}
        RB = {l: static_ratio(l, r2, B, med, ext, dps) for l in range(lmin, lss+1)}
        for p, l1 in enumerate(range(lmin, lmax+1)):
            fa = (-1)**l1*(r1/L)**(2*l1+1)/mpf(_dfac(l1+1)*_dfac(l1))
            for l in range(lmin, lss+1):
                if not ext and l < l1:
                    continue
                fb = (-1)**l/mpf(_dfac(l+1)*_dfac(l))*(r2/L)**(2*l+1) if ext else \
                    (-1)**l*mpf(_dfac(l+1)*_dfac(l))*(L/r2)**(2*l+1)
                for q, l2 in enumerate(range(lmin, lmax+1)):
                    if not ext and l < l2:
                        continue
                    # EE_ba = (-1)^(l1+l2) EE_ab for both leading orders
                    v = fa*fb*V[l1, l]*V[l2, l]*(-1)**(l+l2)
                    for pol in (0, 1):
                        M[pol][p, q] += v*RA[l1][pol]*RB[l][pol]
                    if p == q:
                        W += abs(v)*max(abs(RA[l1][0]), abs(RA[l1][1]), 1)*max(abs(RB[l][0]), abs(RB[l][1]), 1)
        ld = [mp.log(mp.det(mp.eye(n)-M[pol])) for pol in (0, 1)]
        return ld[0], ld[1], M[0], M[1], W
