S = []


def s(id, property, edits, needs, breaks, demo):
    S.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


s("x02-static-sum", "C12", [("geometry.py", "            rel_change = np.abs(np.abs(vorher/lnDet_matsubaras_m)-1) \n", "            rel_change = np.abs(np.abs(vorher/lnDet_matsubaras_m)-1)**(2 if m > 3 else 1) \n")],
  "zero frequency, small gaps, where many projections contribute", "the sum over projections is cut too early",
  """
import numpy as np, geometry as g, materials as m
G = g.SphereSphere(1.0, 1.0, 2.2, m.Gold, m.Gold, m.Vacuum, lmax=12, lssmax=12, precision=1e-6)
a = G.single_m_k0(0)+2*sum(G.single_m_k0(i) for i in range(1, 13))
assert abs(G.mSumme_k0()/a-1) < 1e-5
""")

s("x03-shared-static", "C13", [("geometry.py", "            self.MieA_k0 = scattering(self.mat1, self.mat3\n                                   ).mie_k0(1, self.lmax, self.r1\n                                         )[:, :, np.newaxis, np.newaxis]", "            key = (self.mat1, self.r1, self.lmax)\n            if key not in _static:\n                _static[key] = scattering(self.mat1, self.mat3\n                                   ).mie_k0(1, self.lmax, self.r1\n                                         )[:, :, np.newaxis, np.newaxis]\n            self.MieA_k0 = _static[key]"),
   ("geometry.py", "class SphereSphere:\n", "_static = {}\n\nclass SphereSphere:\n")],
  "two geometries with the same first sphere in different media at zero frequency", "the static coefficients of the first medium are used for the second",
  """
import numpy as np, geometry as g, materials as m
f = lambda med: g.SphereSphere(1.0, 1.0, 3.0, m.Silicon, m.Gold, med, lmax=2, lssmax=2).mSumme_k0()
a = f(m.Ethanol)
import importlib
importlib.reload(g)
f(m.Vacuum)
assert np.allclose(a, f(m.Ethanol), rtol=1e-9)
""")

s("x04-high-temperature", "C18", [("PFA.py", "        nmax = int(20/(T*L))\n        matsubaras = np.append(np.array([1e-10]), np.arange(1, nmax+1)*T)", "        if T > 50:\n            # only the zeroth frequency is left\n            return T*self.planeplaneFreeEnergyHT(L, n0_shielding).sum()\n        nmax = int(20/(T*L))\n        matsubaras = np.append(np.array([1e-10]), np.arange(1, nmax+1)*T)")],
  "temperatures above 50 (in 1/micron) at gaps of some ten nanometres", "all terms but the zeroth are dropped",
  """
import PFA, materials as m
P = PFA.SphereSpherePFA(m.Silicon, m.Silicon, m.Vacuum)
a, b = P.planeplaneFreeEnergy(49.9, 0.01), P.planeplaneFreeEnergy(50.1, 0.01)
assert abs(a/b-1) < 0.02, (a, b)
""")

s("x05-multiplier", "C21", [("helper_functions.py", "        f_prime = f_prime[::multiplier]", "        f_prime = f_prime[::10]")],
  "interpolation with a multiplier other than ten", "values at other abscissae are returned",
  """
import numpy as np, helper_functions as h
x = np.linspace(1.0, 2.0, 11)
d = h.num_derivative(x**3, x, interpolate=True, multiplier=20)
assert d.size == 11 and abs(d[5]/(3*x[5]**2)-1) < 1e-2, d
""")

s("x06-far-lmax", "C15", [("geometry.py", "    if surf_to_surf/r[0] >=30:", "    if surf_to_surf/r[0] >=12:")],
  "automatic truncation at distances of twelve to thirty radii", "a single multipole is used and the offset is ignored",
  """
import geometry as g
assert g.get_lmax(1.0, 1.0, 20.0, 1e-4, 3) >= 3
""")

s("x07-repulsive-force", "C17", [("geometry.py", "            if abs(mSum[max_id]-vorher[max_id]) < self.precision/10*abs(mSum[max_id]):", "            if vorher[max_id]-mSum[max_id] < self.precision/10*abs(mSum[max_id]):")],
  "force that points the other way (sphere inside another one, repulsion) and more than one projection", "the sum over projections ends after m=1",
  """
import numpy as np, geometry as g, materials as m
G = g.SphereSphere(1.0, 3.0, 1.7, m.Gold, m.Gold, m.Vacuum, lmax=6, lssmax=12)
k = np.array([0.5])
h = 1e-4
e = lambda d: g.SphereSphere(1.0, 3.0, 1.7+d, m.Gold, m.Gold, m.Vacuum, lmax=6, lssmax=12, precision=1e-12).mSumme(k)
f = (e(h)-e(-h))/(2*h)
assert abs(abs(G.mSum_trace_dot(k))/abs(f)-1) < 1e-3
""")

s("x08-overdamped", "C03", [("materials.py", "            lorentz = wP**2/(wR**2 + k**2 + gamma*k)", "            lorentz = wP**2/(wR**2 + gamma*k + (k**2 if gamma < 10*wR or wR == 0 else 0))")],
  "an oscillator that is strongly overdamped", "the inertial term is dropped, the response decays too slowly",
  """
import numpy as np, materials as m
M = m.LorentzMaterial([(1e15, 1e13, 5e14)], [])
k = np.array([10.0]); w = 2.998e14
assert abs(M.epsilon(k)[0]-1-1e30/(1e26+5e14*k[0]*w+(k[0]*w)**2)) < 1e-9
""")

s("x09-gaunt-table", "C08", [("translation.py", "        return gaunt(l1, l2, m)", "        key = (100*l1+l2, m)\n        if key not in _table:\n            _table[key] = gaunt(l1, l2, m)\n        return _table[key]"),
   ("translation.py", "class translation:\n", "_table = {}\n\nclass translation:\n")],
  "orders above one hundred next to small ones", "the table of Gaunt coefficients mixes up pairs of orders",
  """
import numpy as np, translation as t, materials as m
V = t.translation(2, 104, 1, m.Vacuum, 1.0, np.array([0.5]), 1).trans_ab()
W = t.translation(104, 2, 1, m.Vacuum, 1.0, np.array([0.5]), 1).trans_ab()
assert np.isfinite(V[0]).all() and np.allclose(abs(V[0]), abs(W[0].transpose(0, 2, 1)), rtol=1e-8)
""")

s("x10-small-entries", "C10", [("geometry.py", "    ergM = np.empty(shM)\n    for i in range(0, shM[0]):\n        ergM[i, :, :, :] = np.exp(single_k_scale(M[i, :, :, :]))\n", "    ergM = np.empty(shM)\n    for i in range(0, shM[0]):\n        ergM[i, :, :, :] = np.exp(single_k_scale(M[i, :, :, :]))\n    ergM[ergM < 1e-18] = 0\n")],
  "matrix elements below 1e-18 that are multiplied by large ones (many multipoles) or that are all there is (single round trip at large distance)", "small elements of the operator are set to zero",
  """
import numpy as np, geometry as g, materials as m
G = g.SphereSphere(0.01, 0.01, 30.0, m.Gold, m.Gold, m.Vacuum, lmax=1, lssmax=1)
assert abs(G.mSum_oneRoundtrip(np.array([0.01]))[0]) > 0
""")

s("x11-equal-spheres", "C10", [("geometry.py", "                if not self.ext_flag:\n                    self.MieB = scattering(self.mat3, self.mat2\n                     ).mie_internal(k, 1, self.lssmax, self.r2)\n                else:", "                if not self.ext_flag:\n                    self.MieB = scattering(self.mat3, self.mat2\n                     ).mie_internal(k, 1, self.lssmax, self.r2)\n                elif self.mat2 is self.mat1 and self.lssmax == self.lmax > 3:\n                    self.MieB = self.MieA[..., 0, 0].copy()\n                else:")],
  "two spheres of one material with different radii and equal truncations", "the coefficients of the first sphere are used for the second",
  """
import numpy as np, geometry as g, materials as m
k = np.array([0.3])
a = g.SphereSphere(1.0, 2.0, 5.0, m.Gold, m.Gold, m.Vacuum, lmax=4, lssmax=4).mSumme(k)
b = g.SphereSphere(1.0, 2.0, 5.0, m.Gold, m.Gold, m.Vacuum, lmax=4, lssmax=5).mSumme(k)
assert np.allclose(a, b, rtol=1e-1)
""")

s("x12-no-frequencies", "C20", [("worker.py", "        nmax = config.getint(\"thermodynamics\", \"nmax\")\n    except", "        nmax = config.getint(\"thermodynamics\", \"nmax\") or \"automatic\"\n    except")],
  "a job with nmax: 0", "the number of frequencies is chosen automatically",
  """
import os, sys, tempfile, subprocess, shutil
d = tempfile.mkdtemp()
try:
    open(os.path.join(d, "j.config"), "w").write('''[geometry]
ra = 1.0
rb = 1.0
d = 6.0
lmax = 1
lssmax = 1
precision = 1e-2
analytic_n0 = True
evaluation = lndet
[materials]
mata = materials.Gold
matb = materials.Gold
matmd = materials.Vacuum
[thermodynamics]
Tmin = 0.5
Tmax = 0.5
nmax = 0
quantity = free_energy()
''')
    subprocess.run([sys.executable, os.path.join(os.environ["SRC"], "worker.py"), "j.config", "j.result"], cwd=d, check=True, stdout=subprocess.DEVNULL)
    assert "nmax = 0" in open(os.path.join(d, "j.result")).read()
finally:
    shutil.rmtree(d)
""")

s("x13-fewer-terms", "C01", [("bessel_sk.py", "    Nmax = 80\n", "    Nmax = 80 if nu < 60 else 8\n")],
  "orders above 60 with arguments between about fifty and one hundred", "too few terms of the continued fraction",
  """
import numpy as np, bessel_sk as b
x = np.array([99.0])
from scipy.special import ive
i, k = b.lniknu(x, 70)
w = np.log(ive(66.5, 99.0)/ive(60.5, 99.0))
assert abs(i[0, 66]-i[0, 60]-w) < 1e-9, (i[0, 66]-i[0, 60], w)
w = np.log(ive(66.5, 99.0)*np.sqrt(np.pi/198))+99
assert abs(i[0, 66]-w) < 1e-9, (i[0, 66], w)
""")

s("x14-plasma-half-space", "C18", [("scattering.py", "        sqrtP = np.sqrt(kperp**2 + (kn*nP)**2)\n", "        sqrtP = np.sqrt(kperp**2 + (kn*nP)**2) if kn > 1e-6 else kperp\n")],
  "a plasma half-space at the zeroth frequency", "the transverse electric reflection of a plasma vanishes like that of a Drude metal",
  """
import numpy as np, scattering as s, materials as m
r = s.scattering(m.Gold_plasma, m.Vacuum).fresnel(1.0, 1e-10)
assert abs(r[0]) > 0.5
""")

s("x15-coated-core", "C06", [("scattering.py", "        exp1 = np.exp((kv_i - iv_i)[:, 1:] + inner_scale)\n", "        exp1 = np.exp((kv_i - iv_i)[:, 1:] + inner_scale)\n        exp1[exp1 < 1e-4] = 0\n")],
  "thick coatings or high orders, where the core contributes little", "the core is ignored",
  """
import numpy as np, scattering as s, materials as m
k = np.array([0.5])
a = s.coated_miescattering(m.Gold, m.Vacuum, m.Vacuum).mie_coated(k, 3, 3, 0.2, 1.0)
b = s.scattering(m.Gold, m.Vacuum).mie(k, 3, 3, 0.2)
x, y = a[0]*np.exp(a[2]), b[0]*np.exp(b[2])
assert np.allclose(x, y, rtol=1e-6, atol=0)
""")

s("x17-equal-permittivity", "C06", [("stratified_sphere_scattering.py", "        for i in range(1, len(self.r_list)):\n", "        for i in range(1, len(self.r_list)):\n            if (self.mat_list[i].epsilon(k) == self.mat_list[i+1].epsilon(k)).all() and i < len(self.r_list)-1:\n                continue\n")],
  "two neighbouring shells with the same permittivity and different permeability", "an interface is skipped",
  """
import numpy as np, stratified_sphere_scattering as s, materials as m
a = m.LorentzMaterial([(1e16, 2e16, 0)], (3.0, 1e14))
b = m.LorentzMaterial([(1e16, 2e16, 0)], (1.5, 1e14))
c = m.LorentzMaterial([(1.001e16, 2e16, 0)], (1.5, 1e14))
k = np.array([0.1])
f = lambda q: (lambda x: x[0]*np.exp(x[2]))(s.StratifiedMieScattering([m.Gold, a, q, m.Vacuum], [0.3, 0.6, 1.0]).mie_stratified(k, 1, 1))
assert np.allclose(f(b), f(c), rtol=1e-2, atol=0)
""")

s("x18-energy-tolerance", "C16", [("thermodynamics.py", "        return scipy.integrate.quad(lambda x: geom.mSumme(np.array([x])), 0, np.inf)", "        return scipy.integrate.quad(lambda x: geom.mSumme(np.array([x])), 0, np.inf, limit=1)")],
  "zero-temperature energy of configurations whose integrand is not captured by the first rule (radii very different from a micron)", "the integral is not refined",
  """
import numpy as np, geometry as g, thermodynamics as t, materials as m
e = []
for c in (1.0, 400.0):
    G = g.SphereSphere(c, c, 3*c, m.PerfectConductor, m.PerfectConductor, m.Vacuum, lmax=1, lssmax=1)
    e.append(c*t.finiteT(1.0, 1, 1.0, G).F_zero_T()[0])
assert abs(e[0]/e[1]-1) < 1e-4, e
""")

s("x19-distance-parabola", "C19", [("PFA.py", "            delta_z = d-r1*sqrt(1-(rho/r1)**2)-r2*sqrt(1-(rho/r2)**2)   ", "            delta_z = d-r1*sqrt(1-(rho/r1)**2)-r2*sqrt(1-(rho/r2)**2) if rho > 0.02*min(r1, r2) else d-r1-r2+rho**2/2*(1/r1+1/r2)")],
  "lateral coordinates below two percent of the smaller radius", "the surface is a paraboloid",
  """
import PFA, materials as m
P = PFA.SphereSpherePFA(m.Gold, m.Gold, m.Vacuum)
r = 0.0199
x = P.distance(1.0, 1.0, 3.0, r)
assert abs(x-(1+r**2+r**4/4)) < 1e-10
""")

s("x20-fit-of-end", "C22", [("data_inter_extrapolation.py", "        data_3 = self.fit(fitfunc, x_3)", "        data_3 = self.fit(fitfunc, x_3) if len(x_3) < 20 else 1+(self.ydata[-1]-1)*(self.xdata[-1]/x_3)**2")],
  "twenty or more frequencies above the table", "a power law is used instead of the fit",
  """
import numpy as np, data_inter_extrapolation as d
x = np.linspace(1, 10, 30)
D = d.data_interp_extrap(x, 1+45.0**2/(x*0.2+x**2))
w = np.append(np.linspace(0.5, 9.0, 20), np.linspace(11, 60, 25))
y = D.get_drude_data(w)
assert np.allclose(y[20:], 1+45.0**2/(w[20:]*0.2+w[20:]**2), rtol=1e-5)
""")
