S = []


def s(id, property, edits, needs, breaks, demo):
    S.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


s("t01-parameter", "C03", [("materials.py", "               (1.48e11, 1.37e12, 0),\n", "               (1.84e11, 1.37e12, 0),\n")],
  "the material Altern2Ps at low frequencies", "transposed digits in one oscillator of a predefined material",
  """
import numpy as np, materials as m
assert abs(m.Altern2Ps.e_properties[1][0]/1.48e11-1) < 1e-12
assert abs(float(m.Altern2Ps.epsilon(np.array([1e-4]))[0])-2.46) < 0.5
k = np.array([1e-5]); w = k*2.998e14
want = 1+sum(p[0]**2/(p[1]**2+w**2) for p in ((3.17e13, 1.79e14), (1.48e11, 1.37e12), (2.66e12, 1.81e13), (2.27e14, 2.37e15), (5.03e15, 9.30e15), (1.24e16, 1.53e16), (1.98e16, 3.07e16), (1.52e16, 1.04e17)))
assert np.allclose(m.Altern2Ps.epsilon(k), want, rtol=1e-6)
""")

s("t02-cavity-medium", "C05", [("scattering.py", """        ni = np.sqrt(self.mat1.epsilon(k)*self.mat1.mu(k))
        knr = ni*k*r
        iv_i""", """        ni = np.sqrt(self.mat1.epsilon(k))
        knr = ni*k*r
        iv_i""")],
  "a perfectly conducting cavity filled with a magnetic medium", "the permeability of the filling is ignored",
  """
import numpy as np, materials as m, scattering as s
mag = m.LorentzMaterial([(1e16, 1e16, 0)], (3.0, 1e16))
metal = m.LorentzMaterial([(1e22, 0, 0)], ())
k = np.array([0.3])
a = s.scattering(mag, m.PerfectConductor).mie_internal(k, 1, 2, 1.5)
b = s.scattering(mag, metal).mie_internal(k, 1, 2, 1.5)
assert np.allclose(a[2], b[2]) and np.allclose(a[:2], b[:2], rtol=1e-3), (a, b)
""")

s("t03-channel", "C10", [("geometry.py", """        mME1 = ne.evaluate("skal * aTM*(V2*bTE*V1*V21)", dct).sum(axis=3)
""", """        mME1 = ne.evaluate("skal * aTM*(V2*bTE*V3*V21)", dct).sum(axis=3)
""")],
  "the channels of the round-trip operator with m of at least one", "one channel of the mixing block is built from the wrong translation",
  """
import numpy as np, geometry as g, materials as m
G = g.SphereSphere(1, 1.5, 3.5, m.Gold, m.Gold, m.Vacuum, lmax=3, lssmax=3)
k = np.array([0.5, 1.0])
c, b = G.blockmatrices_channels(1, k), G.blockmatrices(1, k)
assert np.allclose(c[6]+c[7], b[2], rtol=1e-10, atol=0)
""")

s("t04-interior-lmax", "C15", [("geometry.py", "    surf_to_surf =  abs(r[1]- L) - r[0]\n", "    surf_to_surf =  abs(r[1]+ r[0]- L)\n")],
  "automatic truncation of a sphere inside another one", "the gap of the interior geometry is overestimated, too few multipoles are kept",
  """
import geometry as g, materials as m
G = g.SphereSphere(1, 1.5, 0.4, m.Gold, m.Gold, m.Vacuum, precision=1e-4, l_offset=0)
H = g.SphereSphere(1, 1.0, 2.1, m.Gold, m.Gold, m.Vacuum, precision=1e-4, l_offset=0)
assert G.lmax == H.lmax, (G.lmax, H.lmax)
""")

s("t05-index-of-medium", "C18", [("PFA.py", """        nMd2 = self.matMd.epsilon(kn)*self.matMd.mu(kn)
        k = sqrt(k_perp**2 + nMd2*kn**2)
        efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
        efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
        return log((1 - efactorTE)*(1 - efactorTM))""", """        nMd2 = self.matMd.epsilon(kn)
        k = sqrt(k_perp**2 + nMd2*kn**2)
        efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
        efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
        return log((1 - efactorTE)*(1 - efactorTM))""")],
  "a magnetic medium between the plates, free energy (not the terms per polarization)", "the permeability of the medium is missing in the exponent",
  """
import numpy as np, materials as m, PFA
med = m.LorentzMaterial([(1e16, 2e16, 0)], (3.0, 1e16))
P = PFA.SphereSpherePFA(m.Gold, m.Gold, med)
assert abs(P.roundTrip(1.0, 2.0, 0.4)/sum(P.roundTrips(1.0, 2.0, 0.4))-1) < 1e-10
""")

s("t06-shield-TE", "C18", [("raw_PFA.py", """        f_matsubarasTM[0] = 0.5*f_matsubarasTM[0]
        if n0_shielding:
            f_matsubarasTE[0] = 0
            f_matsubarasTM[0] = 0
        return f_matsubarasTE.sum()+f_matsubarasTM.sum()""", """        f_matsubarasTM[0] = 0.5*f_matsubarasTM[0]
        if n0_shielding:
            f_matsubarasTE[0] = 0
        return f_matsubarasTE.sum()+f_matsubarasTM.sum()""")],
  "shielding switched on in raw_PFA", "the TM part of the zeroth term is kept",
  """
import numpy as np, materials as m, PFA, raw_PFA
a, b = [M.SphereSpherePFA(m.Gold, m.Silicon, m.Water).planeplaneFreeEnergy(5.0, 1.0, True) for M in (PFA, raw_PFA)]
assert abs(a/b-1) < 1e-5, (a, b)
""")

s("t07-displaced", "C19", [("PFA.py", "        if d < r1+r2:\n            nenner", "        if d < min(r1, r2):\n            nenner")],
  "a small sphere inside a large one, displaced by more than its radius", "the effective radius of the exterior geometry is used",
  """
import numpy as np, materials as m, PFA
P = PFA.SphereSpherePFA(m.Gold, m.Gold, m.Vacuum)
f = P.spheresphereForce(1.0, 5.0, 20.0, 3.0)
w = 2*np.pi*5.0/4.0*P.planeplaneFreeEnergy(20.0, 1.0)
assert abs(f/w-1) < 1e-6, (f, w)
""")

DEMO20 = """
import os, subprocess, sys, tempfile, numpy as np, geometry as g, thermodynamics as t, materials as m
cfg = '''[geometry]
ra: 0.5, 1.0
rb: 0.4, 0.8, 1.2
d: 3.1
lmax: 2
l_offset: 0
lssmax: 3
evaluation: lndet
analytic_n0: True
precision: 1e-6
[materials]
mata: materials.Gold, materials.Silicon, materials.Vacuum
matb: materials.Water, materials.Gold, materials.Polystyrene, materials.Vacuum
matmd: materials.Vacuum
[thermodynamics]
Tmin: 0.9
Tmax: 1.8
nmax: 4
quantity: free_energy()
'''
with tempfile.TemporaryDirectory() as d:
    %s
    open(os.path.join(d, 'j.config'), 'w').write(cfg)
    w = os.path.join(os.path.dirname(os.path.abspath(g.__file__)), 'worker.py')
    r = subprocess.run([sys.executable, w, 'j.config', 'o'], cwd=d)
    assert r.returncode == 0
    text = open(os.path.join(d, 'o')).read()
    %s
"""
s("t08-layers-of-first", "C20", [("worker.py", "        mat2 = list(mat2)\n", "        mat2 = list(mat1)\n")],
  "a job with two layered spheres of the same number of layers and different materials", "the second sphere gets the layers of the first",
  DEMO20 % ("cfg = cfg.replace('rb: 0.4, 0.8, 1.2', 'rb: 0.4, 1.2').replace('materials.Water, materials.Gold, materials.Polystyrene', 'materials.Water, materials.Polystyrene')", """G = g.SphereSphere([0.5, 1.0], [0.4, 1.2], 3.1, [m.Gold, m.Silicon, m.Vacuum], [m.Water, m.Polystyrene, m.Vacuum], m.Vacuum, lmax=2, lssmax=3, precision=1e-6)
    assert np.allclose(np.loadtxt(os.path.join(d, 'o')), t.finiteT(0.9, 4, 1.8, G, False).free_energy())"""))

s("t09-header", "C20", [("worker.py", "(geom.lmax, geom.l_offset, geom.lssmax, ", "(geom.lmax, geom.l_offset, geom.lmax, ")],
  "a job whose two truncations differ", "the header of the result names a wrong lssmax",
  DEMO20 % ("pass", "assert 'lssmax = 3' in text, text"))

s("t10-derivative-end", "C21", [("helper_functions.py", "    for i in range(2, i_max-1):\n", "    for i in range(2, i_max-2):\n")],
  "the third value from the end of a grid of at least six points", "that value stays zero",
  """
import numpy as np, helper_functions as h
x = np.linspace(0, 1, 9)
assert np.allclose(h.num_derivative(x, x), 1)
""")

s("t11-fit-range", "C22", [("data_inter_extrapolation.py", "curve_fit(fitfunc, self.xdata, self.ydata)", "curve_fit(fitfunc, self.xdata[1:], self.ydata[1:])")],
  "extrapolation of data that are not exactly Drude", "the first row of the table, which dominates, is left out of the fit",
  """
import numpy as np
from data_inter_extrapolation import data_interp_extrap
from scipy.optimize import curve_fit
x = np.linspace(1, 20, 12)
y = 1+900/(x*x+2*x); y[0] *= 1.1
f = lambda w, p, g: 1+p**2/(w*g+w**2)
p = curve_fit(f, x, y)[0]
w = np.array([0.5, 3.3, 5.2, 30.0])
got = data_interp_extrap(x, y).get_drude_data(w)
assert np.allclose(got[[0, 3]], f(w[[0, 3]], *p), rtol=1e-4), got
""")

s("t13-one-roundtrip", "C16", [("thermodynamics.py", "                F_n_0 = 0.5 * self.geometry.mSum_oneRoundtrip(np.array([1e-10]))", "                F_n_0 = self.geometry.mSum_oneRoundtrip(np.array([1e-10]))")],
  "free energy in the single round-trip approximation", "the zeroth term has weight one",
  """
import numpy as np, geometry as g, materials as m, thermodynamics as t
G = lambda: g.SphereSphere(1, 1, 8, m.Gold, m.Gold, m.Vacuum, lmax=2, lssmax=2, precision=1e-6)
a = t.oneRoundtrip(0.5, 4, 0.5, G()).free_energy()[0]
b = t.finiteT(0.5, 4, 0.5, G(), False).free_energy()[0]
assert abs(a/b-1) < 1e-2, (a, b)
""")

s("t14-force-slice", "C17", [("thermodynamics.py", """            if self.forceFlag:
                return self.geometry.mSum_trace_dot(matsubaras)
            else:
                return self.geometry.mSumme(matsubaras)
""", """            if self.forceFlag and not self.analytic_n0:
                return self.geometry.mSum_trace_dot(matsubaras)
            else:
                return self.geometry.mSumme(matsubaras)
""")],
  "a force with more than fifty Matsubara frequencies", "terms beyond the first slice are those of the free energy",
  """
import numpy as np, geometry as g, materials as m, thermodynamics as t
f = []
for a in (True, False):
    G = g.SphereSphere(1, 1.4, 3.0, m.Gold, m.Silicon, m.Vacuum, lmax=1, lssmax=1, precision=1e-6)
    f.append(t.finiteT(0.01, 120, 0.01, G, a).force()[0])
assert abs(f[0]/f[1]-1) < 1e-8, f
""")

s("t15-many-layers", "C06", [("stratified_sphere_scattering.py", "        for i in range(1, len(self.r_list)):\n", "        for i in range(1, min(len(self.r_list), 4)):\n")],
  "a sphere with four or more coatings", "coatings beyond the third are ignored",
  """
import numpy as np, materials as m
from stratified_sphere_scattering import StratifiedMieScattering as S
k = np.array([0.4])
a = S([m.Gold, m.Silicon, m.Water, m.Gold, m.Silicon, m.Vacuum], [0.2, 0.4, 0.6, 0.8, 1.0]).mie_stratified(k, 1, 2)
b = S([m.Gold, m.Silicon, m.Water, m.Gold, m.Silicon, m.Vacuum], [0.2, 0.4, 0.6, 0.8, 1.5]).mie_stratified(k, 1, 2)
assert not np.allclose(a[2], b[2])
""")

s("t16-static-cavity", "C07", [("scattering.py", "                bTE = (-mu0_e+mu0_i)*l / (l*(mu0_i+mu0_e)+mu0_e)\n", "                bTE = (-mu0_e+mu0_i)*l / (l*(mu0_i+mu0_e)+mu0_i)\n")],
  "zero frequency, a cavity in which wall or filling is magnetic", "the static magnetic reflection coefficient of a cavity is wrong",
  """
import numpy as np, materials as m, scattering as s
w = m.LorentzMaterial([(1e16, 1e16, 0)], (5.0, 1e15))
a = s.scattering(m.Vacuum, w).mie_internal_k0(1, 3, 1.0)
b = s.scattering(m.Vacuum, w).mie_internal(np.array([1e-3]), 1, 3, 1.0)
l = np.arange(1, 4)
want = b[0, 0]*np.exp(b[2, 0]-a[2])*1e-3**(2*l+1)
assert np.allclose(a[0], want, rtol=1e-2), (a[0], want)
""")

s("t17-coated-cache", "C13", [("geometry.py", """        if np.shape(self.K) == np.shape(k) and (self.K == k).all():
            mieA, mieB""", """        if np.shape(self.K) == np.shape(k) and (np.sort(self.K) == np.sort(k)).all():
            mieA, mieB""")],
  "coated spheres, two calls with the same wavenumbers in different order", "the coefficients of the first order are used",
  """
import numpy as np, geometry as g, materials as m
def G(): return g.CoatedSphereSphere(0.5, 1, m.Gold, m.Silicon, 0.6, 1.2, m.Water, m.Gold, 3.0, m.Vacuum, 2, 2)
x = G(); k = np.array([0.3, 2.0]); x.mSumme(k)
assert np.allclose(x.mSumme(k[::-1].copy()), G().mSumme(k[::-1].copy()), rtol=1e-10)
""")

s("t18-trace-stop", "C12", [("geometry.py", "                relchange = max(abs(to_add/traceSum))\n", "                relchange = min(abs(to_add/traceSum))\n")],
  "trace evaluation of several wavenumbers of different size", "the expansion stops when the fastest converging wavenumber has converged",
  """
import numpy as np, geometry as g, materials as m
def G(): return g.SphereSphere(1, 1, 2.2, m.PerfectConductor, m.PerfectConductor, m.Vacuum, lmax=4, lssmax=4, precision=1e-8, evaluation='trace')
k = np.array([0.01, 20.0])
a, b = G().mSumme(k)[0], G().mSumme(k[:1])[0]
assert abs(a/b-1) < 1e-5, (a, b)
""")

s("t19-series-range", "C01", [("bessel_sk.py", "    sm = x < 1e-3\n    lg = x >= 1e-3\n", "    sm = x < 0.3\n    lg = x >= 0.3\n")],
  "arguments between 0.1 and 0.3, none larger in the array", "the short series is used where it is not accurate",
  """
import numpy as np, bessel_sk as b
from mpmath import mp, besseli, sqrt, pi, log
mp.dps = 30
x = np.array([0.28])
got = b.lniknu(x, 1)[0][0, 0]
want = float(log(sqrt(pi/2/x[0])*besseli(0.5, x[0])))
assert abs(got-want) < 1e-10, (got, want)
""")

s("t20-gaunt-m", "C02", [("cython_gaunt.pyx", "                                   (l*lp-m**2.0*(2.0*lppmax-1.0))/", "                                   (l*lp-abs(m)*(2.0*lppmax-1.0)*min(abs(m), 120))/")],
  "projections above 120", "second-largest Gaunt coefficient and everything recursed from it is wrong for very large m",
  """
import numpy as np
from cython_gaunt import gaunt
a = gaunt(130, 131, 125)
# sum rule: sum_q of (2q+1) g_q^2-like norm via symmetry of m -> -m
b = gaunt(131, 130, -125)
from fractions import Fraction
r = a[-2]/a[-1]
l, lp, m, q = 130, 131, 125, 261
want = (2*q-3)*(l*lp-m**2*(2*q-1))/((2*l-1)*(2*lp-1)*q)*np.sqrt((2*q+1)/(2*q-3.0))
assert abs(r/want-1) < 1e-9, (r, want)
""")

s("t22-static-magnetic", "C09", [("scattering.py", "                    bTM =  ( l*(eps_e - eps_i) /\n                            ((l+1)*eps_e + eps_i*l)\n", "                    bTM =  ( l*(eps_e - eps_i) /\n                            ((l+1)*eps_i + eps_e*l)\n")],
  "interior geometry, dielectric outside, zero frequency", "the static electric reflection coefficient of a dielectric cavity wall is wrong",
  """
import numpy as np, geometry as g, materials as m
G = lambda: g.SphereSphere(1, 3, 1.0, m.Gold, m.Silicon, m.Vacuum, lmax=2, lssmax=3, precision=1e-10)
a, b = G().mSumme_k0(), G().mSumme(np.array([1e-3]))
assert np.allclose(a, b, rtol=2e-2), (a, b)
""")

s("t23-duality", "C03", [("materials.py", """        for params in [self.b_properties]:
            mu0 = params[0]
            wM = params[1]/self.omega_norm
            mu += (mu0-1)/(1+k/wM)
        return mu

e_Gold""", """        for params in [self.b_properties]:
            mu0 = params[0]
            wM = params[1]/self.omega_norm
            mu += (mu0-1)/(1+(k/wM)**2) if mu0 < 1 else (mu0-1)/(1+k/wM)
        return mu

e_Gold""")],
  "a diamagnetic material (permeability below one) at finite frequency", "the relaxation law of the permeability is replaced by another one",
  """
import numpy as np, materials as m
a = m.LorentzMaterial([], (0.5, 2.998e14)).mu(np.array([2.0]))
assert np.allclose(a, 1-0.5/3), a
""")

s("t24-radii-swap", "C04", [("scattering.py", "        mie_tm = ( (eps_e*id_i - eps_i*id_e) /\n                   (eps_e*id_i - eps_i*kd_e) \n                  )*prefak\n        return np.append(np.append(mie_te[np.newaxis], mie_tm[np.newaxis],\n                         axis=0), log_scaling_factor[np.newaxis], axis=0)\n\n    def mie_internal", "        mie_tm = ( (eps_e*id_i - eps_i*id_e) /\n                   (eps_e*id_i - eps_i*kd_e) \n                  )*prefak\n        log_scaling_factor = np.maximum(log_scaling_factor, -690.0)\n        return np.append(np.append(mie_te[np.newaxis], mie_tm[np.newaxis],\n                         axis=0), log_scaling_factor[np.newaxis], axis=0)\n\n    def mie_internal")],
  "very small arguments or high orders, where the logarithmic scaling is below -690", "the scaling is clipped to avoid an underflow that does not happen there",
  """
import numpy as np, materials as m, scattering as s
S = s.scattering(m.Gold, m.Vacuum)
a = S.mie(np.array([1e-4]), 1, 40, 1.0)[2, 0]
assert a[-1] < a[-2] < a[-3] < -690, a[-3:]
""")
