S = []


def s(id, property, edits, needs, breaks, demo):
    S.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


s("w01-high-order-k", "C01", [("bessel_sk.py", "        lnk[:, l] = lnk[:,l-1] + np.log(np.exp(lnk[:,l-2]-lnk[:,l-1]) + (2*l-1)/x)", "        ratio = np.exp(lnk[:,l-2]-lnk[:,l-1]) if l < 260 else 0.0\n        lnk[:, l] = lnk[:,l-1] + np.log(ratio + (2*l-1)/x)")],
  "orders from 260 on", "the recursion of the logarithm drops its smaller term",
  """
import numpy as np, bessel_sk as b
x = np.array([50.0])
l = b.lnknu(x, 290)[0]
n = 280
assert abs(np.exp(l[n+1]-l[n])-np.exp(l[n-1]-l[n])-(2*n+1)/50.0) < 1e-9
""")

s("w02-allclose-cache", "C13", [("geometry.py", "        if np.shape(self.K) == np.shape(k) and (self.K == k).all():\n            mieA_1_lmax, mieB_1_lmax = self.MieA, self.MieB", "        if np.shape(self.K) == np.shape(k) and np.allclose(self.K, k):\n            mieA_1_lmax, mieB_1_lmax = self.MieA, self.MieB")],
  "two evaluations of one geometry at nearly equal (or two very small) wavenumbers", "the Mie coefficients of the first wavenumber are used for the second",
  """
import numpy as np, geometry as g, materials as m
G = lambda: g.SphereSphere(1.0, 1.0, 3.0, m.Gold, m.Gold, m.Vacuum, lmax=2, lssmax=2)
a = G(); a.mSumme(np.array([1e-9])); x = a.mSumme(np.array([8e-9]))
assert np.allclose(x, G().mSumme(np.array([8e-9])), rtol=1e-6)
""")

s("w03-integer-data", "C21", [("helper_functions.py", "    f_prime = np.zeros(f.shape)", "    f_prime = np.zeros_like(f)")],
  "data given as integers", "the derivative is truncated to integers",
  """
import numpy as np, helper_functions as h
d = h.num_derivative(np.array([0, 1, 3, 4, 8, 9]), np.arange(6.0))
assert abs(d[0]-1) < 1e-12 and abs(d[1]-1.5) < 1e-12, d
""")

s("w04-offset-default", "C20", [("worker.py", "    except ConfigParser.NoOptionError:\n        l_offset = 0        ", "    except ConfigParser.NoOptionError:\n        l_offset = 4")],
  "a job file with automatic truncation that does not give l_offset", "more multipoles than documented are used",
  """
import os, sys, tempfile, subprocess, shutil
d = tempfile.mkdtemp()
try:
    open(os.path.join(d, "j.config"), "w").write('''[geometry]
ra = 1.0
rb = 1.0
d = 6.0
lmax = automatic
lssmax = 2
precision = 1e-2
analytic_n0 = True
evaluation = lndet
[materials]
mata = materials.Gold
matb = materials.Gold
matmd = materials.Vacuum
[thermodynamics]
Tmin = 0.5
Tmax = 0.5
nmax = 2
quantity = free_energy()
''')
    subprocess.run([sys.executable, os.path.join(os.environ["SRC"], "worker.py"), "j.config", "j.result"], cwd=d, check=True, stdout=subprocess.DEVNULL)
    t = open(os.path.join(d, "j.result")).read()
    assert "l_offset = 0" in t, t
finally:
    shutil.rmtree(d)
""")

s("w05-second-collision", "C20", [("worker.py", "    while os.path.exists(foutput):\n        foutput += \"1\"", "    if os.path.exists(foutput):\n        foutput += \"1\"")],
  "a third run with the same result file", "the result of the second run is overwritten",
  """
import os, sys, tempfile, subprocess, shutil
d = tempfile.mkdtemp()
try:
    open(os.path.join(d, "j.config"), "w").write('''[geometry]
ra = 1.0
rb = 1.0
d = 3.0
lmax = 1
lssmax = 1
precision = 1e-2
l_offset = 0
analytic_n0 = True
evaluation = lndet
[materials]
mata = materials.Gold
matb = materials.Gold
matmd = materials.Vacuum
[thermodynamics]
Tmin = 0.5
Tmax = 0.5
nmax = 1
quantity = free_energy()
''')
    for i in range(3):
        subprocess.run([sys.executable, os.path.join(os.environ["SRC"], "worker.py"), "j.config", "j.result"], cwd=d, check=True, stdout=subprocess.DEVNULL)
    assert len(os.listdir(d)) == 4, os.listdir(d)
finally:
    shutil.rmtree(d)
""")

s("w06-thin-shell", "C06", [("stratified_sphere_scattering.py", "            mat2, mat3 = self.mat_list[i], self.mat_list[i+1]\n", "            mat2, mat3 = self.mat_list[i], self.mat_list[i+1]\n            if ra-ri < 1e-3*ra and i+1 < len(self.r_list):\n                continue\n")],
  "a layer thinner than a thousandth of the radius which is not the outermost one", "the layer is skipped, but the inner coefficient is not converted",
  """
import numpy as np, materials as m, stratified_sphere_scattering as s
k = np.array([0.5])
a = s.StratifiedMieScattering([m.Altern1Ps, m.Altern1Ps, m.Gold, m.Vacuum], [0.5, 0.5002, 1.0]).mie_stratified(k, 1, 2)
b = s.StratifiedMieScattering([m.Altern1Ps, m.Gold, m.Vacuum], [0.5002, 1.0]).mie_stratified(k, 1, 2)
c = s.StratifiedMieScattering([m.Gold, m.Altern1Ps, m.modifiedWater, m.Vacuum], [0.5, 0.5002, 1.0]).mie_stratified(k, 1, 2)
e = s.StratifiedMieScattering([m.Gold, m.Altern1Ps, m.modifiedWater, m.Vacuum], [0.5, 0.5008, 1.0]).mie_stratified(k, 1, 2)
assert np.allclose(a, b, rtol=1e-9) and np.allclose(c, e, rtol=2e-2), (a, b, c, e)
""")

s("w07-equal-index", "C04", [("scattering.py", "        log_scaling_factor = (iv_e[:, 1:]-kv_e[:, 1:])\n", "        log_scaling_factor = (iv_e[:, 1:]-kv_e[:, 1:])\n        if np.allclose(ni, ne):\n            return np.array([0*log_scaling_factor, 0*log_scaling_factor, log_scaling_factor])\n")],
  "a magnetic sphere with the refractive index of the medium but another impedance", "it does not scatter at all",
  """
import numpy as np, materials as m, scattering as s
class C:
    is_perfect_conductor = False; is_magnetic = True; is_sigma_finite = True; is_dielectric = True; e_properties = []
    def __init__(self, e, u): self.e, self.u = e, u
    def epsilon(self, k): return self.e*np.ones(np.shape(k))
    def mu(self, k): return self.u*np.ones(np.shape(k))
x = s.scattering(C(4.0, 1.0), C(2.0, 2.0)).mie(np.array([1.0]), 1, 2, 1.0)
assert abs(x[0]).min() > 1e-6
""")

s("w08-single-wavenumber-mixing", "C10", [("geometry.py", "        z1 = np.append(A, B, axis=2)\n        z2 = np.append(C, D, axis=2)" if False else "    z1 = np.append(A, B, axis=2)\n    z2 = np.append(C, D, axis=2)", "    z1 = np.append(A, B, axis=2)\n    if A.shape[1] > 24:\n        C = B.transpose(0, 2, 1)\n    z2 = np.append(C, D, axis=2)")],
  "more than 24 multipoles", "the lower left block is taken as the transposed upper right one",
  """
import numpy as np, geometry as g, materials as m
G = g.SphereSphere(1.0, 1.5, 3.0, m.Gold, m.modifiedWater, m.Vacuum, lmax=26, lssmax=26)
k = np.array([0.7])
B = G.blockmatrices(1, k)
M = np.block([[B[0][0], B[1][0]], [B[2][0], B[3][0]]])
assert abs(G.single_m(1, k)[0]-np.linalg.slogdet(np.eye(len(M))-M)[1]) < 1e-9
""")

s("w09-stop-first", "C17", [("geometry.py", "            mSum += 2*trace_dot_3d(bigM, bigM_force)\n            max_id = np.abs(mSum).argmax()", "            mSum += 2*trace_dot_3d(bigM, bigM_force)\n            max_id = -1")],
  "force at several wavenumbers, few projections needed for the largest one", "the sum over projections ends when the entry of the largest wavenumber has converged",
  """
import numpy as np, geometry as g, materials as m
G = lambda: g.SphereSphere(1.0, 1.0, 2.3, m.Gold, m.Gold, m.Vacuum, lmax=6, lssmax=6, precision=1e-3)
a = G().mSum_trace_dot(np.array([3.0, 1e-10])); b = G().mSum_trace_dot(np.array([3.0]))
c = G().mSum_trace_dot(np.array([1e-3, 60.0])); d = G().mSum_trace_dot(np.array([1e-3]))
assert abs(a[0]-b[0]) < 2e-3*abs(b[0]) and abs(c[0]-d[0]) < 1e-3*abs(d[0]), (a, b, c, d)
""")

s("w10-interior-pfa-order", "C19", [("PFA.py", "        freeE = quad(lambda rho: 2*np.pi*rho*self.planeplaneFreeEnergy(T, Lrho(rho),\n                                           n0_shielding), 0, min(r1, r2))[0]", "        freeE = quad(lambda rho: 2*np.pi*rho*self.planeplaneFreeEnergy(T, Lrho(rho),\n                                           n0_shielding), 0, min(r1, r2, 10*d))[0]")],
  "a sphere in a cavity, centres closer than a tenth of the radius of the smaller one", "the integral ends before the rim of the smaller sphere",
  """
import materials as m, PFA
P = PFA.SphereSpherePFA(m.PerfectConductor, m.PerfectConductor, m.Vacuum)
a = P.spheresphereEnergy(1.0, 2.0, float("inf"), 1e-2)
b = P.spheresphereEnergy(1.0, 2.0, float("inf"), 0.2)
assert 0.5 < a/b < 1.5, (a, b)
""")

s("w11-shielded-e0", "C18", [("PFA.py", "        if T == 0:\n            return self.planeplane_e0(L, n0_shielding)\n        if T == np.inf:", "        if T < 1e-2:\n            return self.planeplane_e0(L, n0_shielding)\n        if T == np.inf:")],
  "free energy at low, but not zero temperature with shielding, or of Drude metals", "the zero-temperature energy is returned",
  """
import materials as m, PFA
P = PFA.SphereSpherePFA(m.PerfectConductor, m.PerfectConductor, m.Vacuum)
a = P.planeplaneFreeEnergy(0.009, 5.0, True); b = P.planeplaneFreeEnergy(0.009, 5.0, False)
assert abs(a-b) > 1e-9
""")

s("w12-large-zeta", "C18", [("PFA.py", "        nmax = int(20/(T*L))\n        matsubaras = np.append(np.array([1e-20])", "        nmax = min(int(20/(T*L)), 200)\n        matsubaras = np.append(np.array([1e-20])")],
  "pressure at low temperature times gap (below 0.1)", "the sum is cut after 200 terms",
  """
import materials as m, PFA
P = PFA.SphereSpherePFA(m.PerfectConductor, m.PerfectConductor, m.Vacuum)
p = P.planeplanePressure(0.01, 1.0); h = 1e-3
d = -(P.planeplaneFreeEnergy(0.01, 1+h)-P.planeplaneFreeEnergy(0.01, 1-h))/(2*h)
assert abs(p-d) < 1e-3*abs(d), (p, d)
""")

s("w13-lmax-ceiling", "C15", [("geometry.py", "    return max(int(np.exp(eta)*r_o_L/13.0)+l_offset, 1)", "    return min(max(int(np.exp(eta)*r_o_L/13.0)+l_offset, 1), 300)")],
  "automatic truncation at gaps below a hundredth of the radius", "the truncation does not grow any more",
  """
import geometry as g
assert g.get_lmax(1.0, 1.0, 2.002, 1e-4, 4) > 1.5*g.get_lmax(1.0, 1.0, 2.004, 1e-4, 4)
""")

s("w14-gaunt-large", "C02", [("cython_gaunt.pyx", "                                   (l*lp-m**2.0*(2.0*lppmax-1.0))/", "                                   (l*lp-m*m*(2*lppmax-1))/")],
  "projections and orders so large that m^2 (2 l1 + 2 l2 - 1) exceeds the range of integers of C (about 800)", "overflow",
  """
import numpy as np
from cython_gaunt import gaunt
a = gaunt(820, 820, 815)
assert abs(a[0]*np.sqrt(4*np.pi)+1) < 1e-9, a[0]
""")

s("w15-balance-threshold", "C14", [("matrix_balancing.pyx", "            if not(abs(r) <= 1e-320  or abs(c) <= 1e-320):", "            if not(abs(r) <= 1e-100  or abs(c) <= 1e-100):")],
  "matrices with off-diagonal rows below 1e-50", "they are not balanced",
  """
import numpy as np
from matrix_balancing import balance
a = balance(np.array([[1.0, 1e-60], [1e40, 1.0]]))
assert 0.2 < a[0, 1]/a[1, 0] < 5, a
""")

s("w16-coated-medium", "C17", [("geometry.py", "        V = translation(self.lmax, self.lssmax, m, self.matMd, self.L, k,\n                        self.ext_flag, 0).trans_ab()", "        V = translation(self.lmax, self.lssmax, m, self.matMd, self.L, k,\n                        self.ext_flag, 0).trans_ab() if not (self.forceFlag and m > 1) else translation(self.lmax, self.lssmax, m, self.mat1coat, self.L, k,\n                        self.ext_flag, 0).trans_ab()")],
  "force between coated spheres, subspaces from m=2 on", "the translation coefficients of the coating are used",
  """
import numpy as np, geometry as g, materials as m
G = lambda L: g.CoatedSphereSphere(0.5, 1, m.Gold, m.Altern1Ps, 0.5, 1, m.Gold, m.Altern1Ps, L, m.Vacuum, 3, 3)
k = np.array([0.5]); h = 1e-3
f = [G(2.5+i*h) for i in (-1, 1)]
for x in f: x.precision = 1e-12
G0 = G(2.5); G0.precision = 1e-12
d = -(f[1].mSumme(k)-f[0].mSumme(k))/(2*h)
assert np.allclose(G0.mSum_trace_dot(k), d, rtol=1e-3), (G0.mSum_trace_dot(k), d)
""")

s("w17-roundtrip-dct", "C12", [("geometry.py", "            for n in range(1,order+1):\n                traceSum += np.trace(Matrix, axis1=1,axis2=2)/n", "            for n in range(1,order+1):\n                traceSum += np.trace(Matrix, axis1=1,axis2=2)/min(n, 8)")],
  "nine or more round trips", "their weight is too large",
  """
import numpy as np, geometry as g, materials as m
G = g.SphereSphere(1.0, 1.0, 2.2, m.Gold, m.Gold, m.Vacuum, lmax=4, lssmax=4)
k = np.array([0.1])
M = G.supermatrix(0, k)[0]
w = -(np.linalg.eigvals(M)**9).sum().real/9
x = G.arbitrary_roundtrips(G.supermatrix(0, k), 9, 0)-G.arbitrary_roundtrips(G.supermatrix(0, k), 8, 0)
assert abs(x[0]-w) < 1e-6*abs(w), (x, w)
""")

s("w18-static-distance-of-orders", "C08", [("translation.py", "               -ln_2dbl(lg-ls+1) - lfac(2*lg+1)", "               -ln_2dbl(np.minimum(lg-ls, 12)+1) - lfac(2*lg+1)")],
  "zero frequency, one sphere inside of the other, orders that differ by more than 12", "the coefficient is not the limit",
  """
import numpy as np, translation as t, materials as m
a = t.translation(1, 16, 0, m.Vacuum, 1.0, np.array([0.0]), 0).trans_ab()
k = 1e-3
b = t.translation(1, 16, 0, m.Vacuum, 1.0, np.array([k]), 0).trans_ab()
x, y = a[1][0, -1]+15*np.log(k), np.log(abs(b[1][0, 0, -1]))+b[4][0, 0, -1]
assert abs(x-y) < 1e-3, (x, y)
""")

s("w19-unsorted-table", "C22", [("data_inter_extrapolation.py", "        x_ip = x_new[np.where((x_new >= x_l) & (x_new <= x_u))]", "        x_ip = x_new[np.where((x_new >= x_l) & (x_new < x_u) | (x_new == x_new[-1]) & (x_new == x_u))]")],
  "frequencies beyond the upper end of the table", "the last frequency inside of the table is lost",
  """
import numpy as np, data_inter_extrapolation as d
x = np.linspace(1.0, 5.0, 40); y = 1+40.0**2/(x*(x+0.2))
r = d.data_interp_extrap(x, y).get_drude_data(np.array([1.5, 2.5, 4.5, 6.0]))
assert len(r) == 4, r
""")

s("w20-eta-static", "C07", [("scattering.py", "    wP2 = sum([p[0]**2 for p in material.e_properties if p[1] == 0 and p[2] == 0])" if False else "                i_frac_term = (-l + wPR_c * ifraction)\n                bTE = ((mu0_md*i_frac_term - mu0_sp*(l+1))\n                       /(mu0_sp*l+mu0_md*i_frac_term)", "                i_frac_term = (-l + wPR_c * ifraction)\n                bTE = ((mu0_md*i_frac_term - mu0_sp*(l+1))\n                       /(mu0_sp*l+i_frac_term)")],
  "zero frequency, plasma sphere in a magnetic medium", "wrong magnetic coefficient",
  """
import numpy as np, materials as m, scattering as s
md = m.LorentzMaterial([], (3.0, 1e40))
x = s.scattering(m.Gold_plasma, md).mie_k0(1, 2, 0.02)
k = 1e-5
y = s.scattering(m.Gold_plasma, md).mie(np.array([k]), 1, 2, 0.02)
n = 3.0**0.5
for i, l in enumerate((1, 2)):
    a = x[0, i]*np.exp(x[2, i])*(n*k*0.02)**(2*l+1); b = y[0, 0, i]*np.exp(y[2, 0, i])
    assert abs(a-b) < 1e-3*abs(b), (a, b)
""")
