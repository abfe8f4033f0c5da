S = []


def s(id, property, edits, needs, breaks, demo):
    S.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


s("s01-cache-ends", "C13", [("geometry.py", """            mieA_1_lmax, mieB_1_lmax = self.MieA, self.MieB
""", """            mieA_1_lmax, mieB_1_lmax = self.MieA, self.MieB
"""), ("geometry.py", """        if np.shape(self.K) == np.shape(k) and (self.K == k).all():
            mieA_1""", """        if np.shape(self.K) == np.shape(k) and (self.K[[0, -1]] == k[[0, -1]]).all():
            mieA_1""")],
  "two calls on the same geometry with different wavenumber arrays of equal length, first and last entry", "the Mie coefficients of the first array are used for the second",
  """
import numpy as np, geometry as g, materials as m
def G(): return g.SphereSphere(1, 1.5, 3, m.Gold, m.Silicon, m.Vacuum, lmax=2, lssmax=3)
a, b = np.array([0.5, 0.6, 2.0]), np.array([0.5, 1.5, 2.0])
x = G(); x.mSumme(a)
assert np.allclose(x.mSumme(b), G().mSumme(b), rtol=1e-12), "history matters"
""")

s("s03-fraction-terms", "C01", [("bessel_sk.py", """    Nmax = 80
""", """    Nmax = 40
""")],
  "low orders and arguments between about 40 and 100", "the continued fraction of the regular functions is truncated too early",
  """
import numpy as np, bessel_sk as b
from mpmath import mp, besseli, sqrt, pi, log
mp.dps = 30
x = 99.0
got = b.lniknu(np.array([x]), 3)[0][0, 2]
want = log(sqrt(pi/2/x)*besseli(2.5, x))
assert abs(got-float(want)) < 1e-10, (got, want)
""")

s("s04-negative-m", "C02", [("cython_gaunt.pyx", "    if abs(m) > min(l, lp):", "    if m > min(l, lp):")],
  "a negative projection larger in magnitude than the smaller order", "Gaunt coefficients that vanish are returned as numbers that do not",
  """
import numpy as np
from cython_gaunt import gaunt
for l, lp, m in ((3, 1, -2), (5, 2, -3), (2, 2, -4)):
    v = gaunt(l, lp, m)
    assert np.all(v == 0), (l, lp, m, v)
""")

s("s05-first-carrier", "C03", [("materials.py", """        sigma_finite = not(min([params[2] for params in e_properties if params[1]==0
                                                                and not params[0]==0]))==0 """,
"""        sigma_finite = not(min([params[2] for params in e_properties[:2] if params[1]==0
                                                                and not params[0]==0]))==0 """)],
  "undamped free carriers listed as third or later oscillator", "the material counts as having a finite conductivity",
  """
import numpy as np, materials as m
M = m.LorentzMaterial([(1e15, 0, 1e13), (1e15, 1e16, 1e14), (2e15, 0, 0)], [])
assert not M.is_sigma_finite
""")

s("s06-magnetic-medium", "C04", [("scattering.py", """        ne = np.sqrt(self.mat2.epsilon(k)*self.mat2.mu(k))
        knr = ne*k*r
        iv_e""", """        ne = np.sqrt(self.mat2.epsilon(k))
        knr = ne*k*r
        iv_e""")],
  "a perfectly conducting sphere in a magnetic medium", "the Mie coefficients are those for another wavelength",
  """
import numpy as np, materials as m
from scattering import scattering
med = m.LorentzMaterial([(1e16, 1e16, 0)], (4.0, 1e20))
n = float(np.sqrt(med.epsilon(np.array([1.0]))*med.mu(np.array([1.0])))[0])
a = scattering(m.PerfectConductor, med).mie(np.array([1.0]), 1, 3, 1.3)
b = scattering(m.PerfectConductor, m.Vacuum).mie(np.array([n]), 1, 3, 1.3)
assert np.allclose(a, b, rtol=1e-8), (a, b)
""")

s("s07-shell-of-medium", "C06", [("stratified_sphere_scattering.py", "if self.mat_list[-1] == self.mat_list[-2] and", "if self.mat_list[-1] in self.mat_list[1:-1] and")],
  "a layered sphere with an inner shell of the same material as the surrounding medium", "the outermost layer is dropped",
  """
import numpy as np, materials as m
from stratified_sphere_scattering import StratifiedMieScattering as S
k = np.array([0.3, 1.0])
a = S([m.Gold, m.Vacuum, m.Silicon, m.Vacuum], [0.5, 0.8, 1.0]).mie_stratified(k, 1, 3)
b = S([m.Gold, m.LorentzMaterial([], (1.0, 1e15)), m.Silicon, m.Vacuum], [0.5, 0.8, 1.0]).mie_stratified(k, 1, 3)
assert np.allclose(a[0]*np.exp(a[2]), b[0]*np.exp(b[2]), rtol=1e-9, atol=0)
assert np.allclose(a[1]*np.exp(a[2]), b[1]*np.exp(b[2]), rtol=1e-9, atol=0)
""")

s("s08-magnetic-plasma", "C07", [("scattering.py", "/(mu0_sp*l+mu0_md*i_frac_term)", "/(l+mu0_md*i_frac_term)")],
  "a magnetic plasma sphere at zero frequency", "the TE coefficient is not the limit of the finite-frequency one",
  """
import numpy as np, materials as m
from scattering import scattering
M = m.LorentzMaterial([(1e15, 0, 0)], (3.0, 1e17))
s = scattering(M, m.Vacuum)
z = s.mie_k0(1, 2, 1.0)
k = 2e-3
f = s.mie(np.array([k]), 1, 2, 1.0)
for j, l in enumerate((1, 2)):
    a = f[0, 0, j]*np.exp(f[2, 0, j])/k**(2*l+1)
    b = z[0, j]*np.exp(z[2, j])
    assert abs(abs(a/b)-1) < 1e-2, (a, b)
""")

s("s09-shared-norm", "C08", [("translation.py", """        norm = sphB[:, 0:1]
        if self.ext_flag:
            norm = sphB[:,-1:]
""", """        norm = sphB[0:1, 0:1]
        if self.ext_flag:
            norm = sphB[0:1,-1:]
""")],
  "one call with wavenumbers that differ by many decades and orders that are not small", "the coefficients of the other wavenumbers overflow or vanish",
  """
import numpy as np, materials as m
from translation import translation
k = np.array([10.0, 1e-6])
V = translation(30, 30, 0, m.Vacuum, 1.0, k, 1).trans_ab()
W = translation(30, 30, 0, m.Vacuum, 1.0, k[1:], 1).trans_ab()
a, b = np.log(np.abs(V[0][1]))+V[4][1], np.log(np.abs(W[0][0]))+W[4][0]
assert np.all(np.isfinite(a)) and np.allclose(a, b, rtol=1e-9), (a-b)
""")

s("s10-sort", "C15", [("geometry.py", """    r = [r1, r2]
    r.sort()
    surf_to_surf =  abs(r[1]- L) - r[0]
""", """    r = [r1, r2]
    surf_to_surf =  abs(max(r)- L) - min(r)
""")],
  "the first sphere is the larger one and lmax is chosen automatically", "the number of multipoles is taken from the ratio of the wrong radius to the gap",
  """
import geometry as g, materials as m
a = g.get_lmax(5.0, 1.0, 6.5, 1e-4, 1)
b = g.get_lmax(1.0, 5.0, 6.5, 1e-4, 1)
assert a == b, (a, b)
""")

s("s11-temperatures", "C16", [("thermodynamics.py", "self.maxstep = int(round(self.Tmax / self.deltaT))", "self.maxstep = int(self.Tmax / self.deltaT)")],
  "a highest temperature whose quotient by the lowest one is rounded down (0.3/0.1)", "the highest temperature is missing from the results",
  """
import numpy as np, geometry as g, materials as m, thermodynamics as t
G = g.SphereSphere(1, 1, 3, m.Gold, m.Gold, m.Vacuum, lmax=1, lssmax=1)
F = t.finiteT(0.1, 3, 0.3, G)
assert len(F.free_energy()) == 3, len(F.free_energy())
""")

s("s12-force-last-m", "C17", [("geometry.py", "            mSum += 2*trace_dot_3d(bigM, bigM_force)\n", "            mSum += (2 if m < self.lmax else 1)*trace_dot_3d(bigM, bigM_force)\n")],
  "the force, at distances where the highest projection matters", "the highest projection counts once in the force",
  """
import numpy as np, geometry as g, materials as m, thermodynamics as t
def F(L): return t.finiteT(0.5, 4, 1.0, g.SphereSphere(1, 1, L, m.Gold, m.Gold, m.Vacuum, lmax=2, lssmax=2), False)
h = 1e-3
d = -(F(2.3+h).free_energy()-F(2.3-h).free_energy())/2/h
assert np.allclose(F(2.3).force(), d, rtol=1e-4), (F(2.3).force(), d)
""")

s("s13-balance-zero", "C14", [("matrix_balancing.pyx", "if not(abs(r) <= 1e-320  or abs(c) <= 1e-320):", "if not(abs(r) <= 1e-320  and abs(c) <= 1e-320):")],
  "a matrix with a row or column that vanishes off the diagonal while the other does not", "balancing does not end or divides by zero",
  """
import numpy as np, signal
from matrix_balancing import balance
signal.alarm(20)
A = np.array([[1.0, 0.5, 0.2], [0.0, 0.9, 0.3], [0.0, 0.1, 1.2]])
B = balance(A.copy(), 0.9)
assert np.all(np.isfinite(B)) and abs(np.linalg.det(B)/np.linalg.det(A)-1) < 1e-12
""")

s("s14-k0-interior", "C09", [("geometry.py", "condition = np.logical_not(np.logical_and(lss>=l1, lss>=l2))", "condition = np.logical_not(np.logical_or(lss>=l1, lss>=l2))")],
  "zero frequency in the interior geometry with more than one multipole", "multipoles that decouple at zero frequency are coupled",
  """
import numpy as np, geometry as g, materials as m
def G(): return g.SphereSphere(1, 3, 1.2, m.Silicon, m.PerfectConductor, m.Vacuum, lmax=3, lssmax=3, precision=1e-12)
a, b = float(np.ravel(G().mSumme_k0())[0]), float(G().mSumme(np.array([1e-4]))[0])
assert abs(a/b-1) < 1e-4, (a, b)
""")
