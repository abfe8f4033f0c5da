S = []


def s(id, property, edits, needs, breaks, demo):
    S.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


s("v02-carriers-last", "C03", [("materials.py", "        if not resonator[0]==0 and resonator[1] == 0:\n            return False\n    return True", "        if not resonator[0]==0:\n            return not resonator[1] == 0\n    return True")],
  "a metal whose free carriers are not the first oscillator", "it counts as dielectric",
  """
import materials as m
assert not m.LorentzMaterial([(1e16, 1e16, 1e13), (1e15, 0, 1e13)], ()).is_dielectric
""")

s("v03-static-magnetic-wall", "C07", [("scattering.py", "                bTE = (-mu0_e+mu0_i)*l / (l*(mu0_i+mu0_e)+mu0_e)", "                bTE = (-mu0_e+mu0_i)*l / (l*(mu0_i+mu0_e)+mu0_i)")],
  "zero frequency, a cavity wall with a permeability other than that of its filling", "the static magnetic reflection is wrong",
  """
import numpy as np, materials as m, scattering as s
w = m.LorentzMaterial([(1e16, 1e16, 0)], (5.0, 1e16))
x = s.scattering(m.Vacuum, w).mie_internal_k0(1, 2, 1.0)
k = 1e-5
y = s.scattering(m.Vacuum, w).mie_internal(np.array([k]), 1, 1, 1.0)
assert np.allclose(x[0, 0]*np.exp(x[2, 0])/k**3, y[0, 0, 0]*np.exp(y[2, 0, 0]), rtol=1e-3)
""")

s("v04-condition", "C09", [("geometry.py", "        condition = np.logical_not(np.logical_and(lss>=l1, lss>=l2))", "        condition = np.logical_not(np.logical_and(lss>=l1, lss>=l1))")],
  "zero frequency, one sphere inside of the other", "terms that vanish in the limit are kept",
  """
import numpy as np, geometry as g, materials as m
G = lambda: g.SphereSphere(1.0, 4.0, 1.5, m.Gold, m.Gold, m.Vacuum, lmax=4, lssmax=5)
a, b = G().single_m(1, np.array([0.0])), G().single_m(1, np.array([1e-7]))
A, B = G().blockmatrices_k0(1), G().blockmatrices(1, np.array([1e-7]))
assert np.allclose(a, b, rtol=1e-3), (a, b)
assert np.allclose(np.linalg.det(np.eye(4)-A[0]), np.linalg.det(np.eye(4)-B[0][0]), rtol=1e-4)
""")

s("v05-alias", "C13", [("geometry.py", "            self.MieA = coated_miescattering(\n                self.mat1core", "            self.K = k\n            self.MieA = coated_miescattering(\n                self.mat1core"),
                        ("geometry.py", "                                  axis=0)\n            mieA = self.MieA\n            mieB = self.MieB\n            self.K = k.copy()\n", "                                  axis=0)\n            mieA = self.MieA\n            mieB = self.MieB\n")],
  "coated spheres, an array of wavenumbers that the caller changes in place between two calls", "the second call returns the values of the first wavenumbers",
  """
import numpy as np, geometry as g, materials as m
G = lambda: g.CoatedSphereSphere(0.5, 1, m.Gold, m.Water if hasattr(m, "Water") else m.Altern1Ps, 0.5, 1, m.Gold, m.Altern1Ps, 3, m.Vacuum, 2, 2)
a = G(); k = np.array([0.3]); a.mSumme(k); k[0] = 2.0
assert np.allclose(a.mSumme(k), G().mSumme(np.array([2.0])), rtol=1e-9)
""")

s("v07-e0-bounds", "C16", [("thermodynamics.py", "                                       self.geometry.mSumme(np.array([x])), a, b)", "                                       self.geometry.mSumme(np.array([x])), 0, b)")],
  "zero-temperature energy with a lower bound other than zero", "the bound is ignored",
  """
import numpy as np, geometry as g, materials as m, thermodynamics as t
f = t.finiteT(0.5, 4, 1.0, g.SphereSphere(1, 1, 3, m.Gold, m.Gold, m.Vacuum, lmax=2, lssmax=2))
x = f.e0(0, 1)[0, 0]; y = f.e0(0, 0.4)[0, 0]; z = f.e0(0.4, 1)[0, 0]
assert abs(x-y-z) < 1e-6*abs(x), (x, y, z)
""")

s("v08-thin-gap-terms", "C18", [("PFA.py", "        nmax = int(20/(T*L))\n        matsubaras = np.append(np.array([1e-10])", "        nmax = int(20/(T*max(L, 0.1)))\n        matsubaras = np.append(np.array([1e-10])")],
  "a gap well below a tenth of a micron", "too few Matsubara terms",
  """
import materials as m, PFA
P = PFA.SphereSpherePFA(m.PerfectConductor, m.PerfectConductor, m.Vacuum)
a, b = P.planeplaneFreeEnergy(20., 0.02), P.planeplaneFreeEnergy(0.4, 1.0)
assert abs(a/b*0.02**3-1) < 1e-3, (a, b)
""")

s("v09-pressure-medium", "C18", [("PFA.py", "        nMd2 = self.matMd.epsilon(kn)*self.matMd.mu(kn)\n        k = sqrt(k_perp**2 + nMd2*kn**2)\n        efactorTE = rTE1*rTE2 * np.exp(-2*k*L)\n        efactorTM = rTM1*rTM2 * np.exp(-2*k*L)\n        return (-2*k*efactorTE / (1 - efactorTE)+",
   "        nMd2 = self.matMd.epsilon(kn)\n        k = sqrt(k_perp**2 + nMd2*kn**2)\n        efactorTE = rTE1*rTE2 * np.exp(-2*k*L)\n        efactorTM = rTM1*rTM2 * np.exp(-2*k*L)\n        return (-2*k*efactorTE / (1 - efactorTE)+")],
  "pressure in a magnetic medium", "it is not minus the derivative of the free energy",
  """
import materials as m, PFA
md = m.LorentzMaterial([], (3.0, 1e40))
P = PFA.SphereSpherePFA(m.Gold, m.Gold, md)
p = P.planeplanePressure(1.0, 1.0); h = 1e-3
d = -(P.planeplaneFreeEnergy(1.0, 1+h)-P.planeplaneFreeEnergy(1.0, 1-h))/(2*h)
assert abs(p-d) < 1e-3*abs(d), (p, d)
""")

s("v10-shielded-force", "C19", [("raw_PFA.py", "            return pref * self.planeplaneFreeEnergyHT(L, n0_shielding)\n        return pref* self.planeplaneFreeEnergy(T, L, n0_shielding)\n \n", "            return pref * self.planeplaneFreeEnergyHT(L)\n        return pref* self.planeplaneFreeEnergy(T, L, n0_shielding)\n \n")],
  "raw_PFA force at infinite temperature with shielding", "the shielded zeroth term is still there",
  """
import numpy as np, materials as m, raw_PFA
assert float(np.ravel(raw_PFA.SphereSpherePFA(m.Gold, m.Gold, m.Vacuum).spheresphereForce(1, 2, np.inf, 0.5, True))[0]) == 0
""")

s("v11-digits", "C20", [("worker.py", "    np.savetxt(outfile, result, delimiter=\",\")", "    np.savetxt(outfile, result, delimiter=\",\", fmt=\"%.5f\")")],
  "a job whose result is small", "the result file has lost all digits",
  """
import os, subprocess, sys, numpy as np, geometry as g, materials as m, thermodynamics as t
S = os.environ["SCRATCH"]
open(S+"/j.config", "w").write("[geometry]\\nra: 1\\nrb: 1\\nd: 30\\nprecision: 1e-4\\nlmax: 1\\nlssmax: 1\\nl_offset: 0\\nevaluation: lndet\\nanalytic_n0: True\\n[materials]\\nmata: materials.Gold\\nmatb: materials.Gold\\nmatmd: materials.Vacuum\\n[thermodynamics]\\nTmin: 0.5\\nTmax: 0.5\\nnmax: 3\\nquantity: free_energy()\\n")
subprocess.run([sys.executable, "-W", "ignore", os.environ["SRC"]+"/worker.py", "j.config", "j.out"], cwd=S, check=True)
x = np.loadtxt(S+"/j.out", ndmin=1)
y = t.finiteT(0.5, 3, 0.5, g.SphereSphere(1., 1., 30., m.Gold, m.Gold, m.Vacuum, lmax=1, lssmax=1, l_offset=0)).free_energy()
assert np.allclose(x, y, rtol=1e-6, atol=0), (x, y)
""")

s("v12-arguments", "C20", [("worker.py", "if not len(args) in [3,4]:", "if len(args) < 3:")],
  "a job started with more arguments than there are", "they are ignored without an error",
  """
import os, subprocess, sys
S = os.environ["SCRATCH"]
r = subprocess.run([sys.executable, "-W", "ignore", os.environ["SRC"]+"/worker.py", "a", "b", "1.0", "d"], cwd=S, capture_output=True, text=True)
assert r.returncode and "ValueError" in r.stderr, r.stderr
""")

s("v13-negative-power-law", "C21", [("helper_functions.py", "            f = signf*np.exp(fip(np.log(xnew)))", "            f = np.exp(fip(np.log(xnew)))")],
  "interpolated derivative of negative values", "the derivative has the wrong sign",
  """
import numpy as np, helper_functions as h
x = np.linspace(1, 2, 30)
assert np.allclose(h.num_derivative(-x**2, x, True)[3:-3], -2*x[3:-3], rtol=1e-2)
""")

s("v14-equal-oscillators", "C22", [("materials_converter.py", "    for i, osciallator in enumerate(params):\n", "    for osciallator in params:\n        i = params.index(osciallator)\n")],
  "two equal oscillators in the list", "the second one is not converted",
  """
import materials_converter as c
r = c.transform([[0.5, 0.1], [0.2, 3.0], [0.5, 0.1]])
assert list(r[0]) == list(r[2]), r
""")

s("v15-shell-by-epsilon", "C06", [("stratified_sphere_scattering.py", "        if self.mat_list[-1] == self.mat_list[-2] and len(self.mat_list) >=3:", "        if len(self.mat_list) >=3 and (self.mat_list[-1].epsilon(k) == self.mat_list[-2].epsilon(k)).all():")],
  "an outermost shell that differs from the medium in its permeability only", "the shell is dropped",
  """
import numpy as np, materials as m
from stratified_sphere_scattering import StratifiedMieScattering as S
a, b = m.LorentzMaterial([], (4.0, 1e16)), m.LorentzMaterial([(1e12, 1e16, 0)], (4.0, 1e16))
x, y = [S([m.Gold, q, m.Vacuum], [0.5, 1.0]).mie_stratified(np.array([0.7]), 1, 2) for q in (a, b)]
assert np.allclose(x, y, rtol=1e-5), (x, y)
""")

s("v17-bessel-cache", "C13", [("translation.py", "            self.bessels = bessel_sk.trans_bessels(self.k*self.L*\n                 np.sqrt(self.medium.epsilon(self.k)*self.medium.mu(self.k)), self.lmax+self.lssmax+1, self.ext_flag)",
   "            key = (self.k.tobytes(), self.L, self.lmax+self.lssmax, self.ext_flag)\n            if translation.last[0] != key:\n                translation.last = (key, bessel_sk.trans_bessels(self.k*self.L*\n                     np.sqrt(self.medium.epsilon(self.k)*self.medium.mu(self.k)), self.lmax+self.lssmax+1, self.ext_flag))\n            self.bessels = translation.last[1]"),
   ("translation.py", "    def __init__(self, lmax, lssmax, m, material, L, k, ext_flag,\n", "    last = (None, None)\n\n    def __init__(self, lmax, lssmax, m, material, L, k, ext_flag,\n")],
  "two geometries of equal distance and truncation in different media, evaluated at the same wavenumbers one after the other", "the second one gets the Bessel functions of the first medium",
  """
import numpy as np, geometry as g, materials as m
md = m.LorentzMaterial([(1e16, 1e16, 0)], ())
k = np.array([0.4])
G = lambda q: g.SphereSphere(1, 1, 3, m.Gold, m.Gold, q, lmax=2, lssmax=2)
a = G(md).mSumme(k); G(m.Vacuum).mSumme(np.array([0.1])); G(m.Vacuum).mSumme(k); b = G(md).mSumme(k)
assert np.allclose(a, b, rtol=1e-9), (a, b)
""")

s("v18-method-name", "C12", [("geometry.py", "        if not evaluation == \"trace\" and not evaluation == \"lndet\":", "        if not evaluation in \"trace lndet\":")],
  "a misspelt evaluation method that is a part of a valid one", "it is accepted and evaluated as lndet",
  """
import geometry as g, materials as m
for e in ("det", "ndet", "", "race", "trac"):
    try:
        g.SphereSphere(1, 1, 3, m.Gold, m.Gold, m.Vacuum, lmax=1, lssmax=1, evaluation=e)
    except ValueError:
        continue
    raise SystemExit("accepted "+e)
""")

s("v19-mixed-shapes", "C14", [("geometry.py", "    if not A.shape == B.shape == C.shape == D.shape:", "    if not A.shape[0] == B.shape[0] == C.shape[0] == D.shape[0]:")],
  "blocks of different size but of the same number of matrices", "they are not refused with a value error",
  """
import numpy as np, geometry as g
Z = np.zeros
try:
    g.sln_det_3d(Z((2, 3, 3)), Z((2, 3, 3)), Z((2, 3, 3)), Z((2, 2, 3)))
except ValueError:
    raise SystemExit(0)
raise SystemExit("accepted")
""")

s("v20-roundtrip-slices", "C16", [("thermodynamics.py", "                return self.geometry.mSum_oneRoundtrip(matsubaras)\n\n", "                return self.geometry.mSumme(matsubaras)\n\n")],
  "single round-trip free energy with more than fifty Matsubara frequencies", "the later ones contain all round-trips",
  """
import numpy as np, geometry as g, materials as m, thermodynamics as t
G = g.SphereSphere(1, 1, 2.1, m.PerfectConductor, m.PerfectConductor, m.Vacuum, lmax=2, lssmax=2)
x = t.oneRoundtrip(0.005, 60, 0.005, G).free_energy()[0]
k = 0.005*np.arange(1, 61)
y = 0.005*(0.5*G.mSum_oneRoundtrip(np.array([1e-10]))[0]+G.mSum_oneRoundtrip(k).sum())
assert abs(x-y) < 1e-6*abs(y), (x, y)
""")

s("v21-nmax-gap", "C15", [("thermodynamics.py", "                L = rg-rs-geom.L", "                L = rg-rs")],
  "automatic number of frequencies for an eccentric sphere close to the wall", "too few frequencies",
  """
import geometry as g, materials as m, thermodynamics as t
G = lambda L: g.SphereSphere(1.0, 3.0, L, m.Gold, m.Gold, m.Vacuum, lmax=10, lssmax=10)
assert t.finiteT(0.3, "automatic", 0.3, G(1.8)).nmax > t.finiteT(0.3, "automatic", 0.3, G(0.2)).nmax
""")

s("v22-entropy-sign", "C16", [("thermodynamics.py", "        S_T = - np.gradient(self.free_energy(), self.deltaT)", "        S_T = - np.gradient(self.free_energy())")],
  "entropy for a temperature step other than one", "the temperature step is ignored",
  """
import numpy as np, geometry as g, materials as m, thermodynamics as t
f = t.finiteT(0.25, 8, 1.0, g.SphereSphere(1, 1, 3, m.Gold, m.Gold, m.Vacuum, lmax=1, lssmax=1))
F = f.free_energy()
assert np.allclose(f.entropy(), -np.gradient(F, 0.25))
""")

s("v24-mu-length", "C03", [("materials.py", "        if type(k) == np.ndarray:\n            mu = np.ones(k.shape)\n        else:\n            mu = 1\n        if self.b_properties == ():\n            return mu\n        for params in [self.b_properties]:\n            mu0 = params[0]\n            wM = params[1]/self.omega_norm\n            mu += (mu0-1)/(1+k/wM)\n        return mu\n\ne_Gold",
   "        if type(k) == np.ndarray:\n            mu = np.ones(k.shape)\n        else:\n            mu = 1\n        if self.b_properties == () or self.b_properties[0] <= 1:\n            return mu\n        for params in [self.b_properties]:\n            mu0 = params[0]\n            wM = params[1]/self.omega_norm\n            mu += (mu0-1)/(1+k/wM)\n        return mu\n\ne_Gold")],
  "a diamagnetic material (static permeability below one)", "it responds like a non-magnetic one",
  """
import numpy as np, materials as m
assert abs(m.LorentzMaterial([], (0.5, 1e40)).mu(np.array([0.1]))[0]-0.5) < 1e-6
""")
