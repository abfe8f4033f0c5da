S = []


def s(id, property, edits, needs, breaks, demo):
    S.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


s("y01-pseudo-inverse", "C14", [("geometry.py", "        i_matrices[i] = np.linalg.inv(matrix[i])", "        if np.linalg.cond(matrix[i]) > 1e12:\n            i_matrices[i] = np.linalg.pinv(matrix[i])\n        else:\n            i_matrices[i] = np.linalg.inv(matrix[i])")],
  "an invertible, badly scaled matrix", "a pseudo inverse is returned",
  """
import numpy as np, geometry as g
A = np.diag([1e-12, 1.0, 1e12])[None]
assert np.allclose(g.inv_3d_matrix(A)[0], np.diag([1e12, 1.0, 1e-12]), rtol=1e-6, atol=0)
""")

s("y02-number-of-terms", "C15", [("thermodynamics.py", "            if LT >=7:\n", "            if LT >= 0.7:\n")],
  "automatic number of frequencies for temperatures times gap between 0.7 and 7", "four frequencies less than before",
  """
import geometry as g, thermodynamics as t, materials as m
G = g.SphereSphere(1.0, 1.0, 3.0, m.Silicon, m.Silicon, m.Vacuum, lmax=3, lssmax=3)
f = t.finiteT(0.8, "automatic", 0.8, G)
h = t.finiteT(0.8, 60, 0.8, G)
assert abs(f.free_energy()[0]/h.free_energy()[0]-1) < 1e-3, (f.nmax, f.free_energy()/h.free_energy())
""")

s("y03-stirling", "C21", [("helper_functions.py", "    return gammaln(x+1)\n", "    return np.where(x < 1e7, gammaln(x+1), x*np.log(x+1e-300)-x)\n")],
  "arguments above ten million", "Stirling's formula without its logarithmic term",
  """
import numpy as np, helper_functions as h
x = 3e7
assert abs(h.lfac(x)-h.lfac(x-1)-np.log(x)) < 1e-6 and abs(h.lfac(x)-(x*np.log(x)-x+0.5*np.log(2*np.pi*x))) < 1e-5
""")

s("y04-address", "C13", [("geometry.py", "            self.MieA_k0 = scattering(self.mat1, self.mat3\n                                   ).mie_k0(1, self.lmax, self.r1\n                                         )[:, :, np.newaxis, np.newaxis]", "            key = (id(self.mat1), id(self.mat3), self.r1, self.lmax)\n            if key not in _static:\n                _static[key] = scattering(self.mat1, self.mat3\n                                   ).mie_k0(1, self.lmax, self.r1\n                                         )[:, :, np.newaxis, np.newaxis]\n            self.MieA_k0 = _static[key]"),
   ("geometry.py", "class SphereSphere:\n", "_static = {}\n\nclass SphereSphere:\n")],
  "a material that is created at the address of another one that has been released", "the static coefficients of the other material are used",
  """
import gc, numpy as np, geometry as g, materials as m
def f(w):
    a = m.LorentzMaterial([(w, 2e16, 0)], (1.0, 1e15))
    G = g.SphereSphere(1.0, 1.0, 3.0, a, m.Gold, m.Vacuum, lmax=1, lssmax=1)
    r = G.mSumme_k0()
    del G, a
    gc.collect()
    return r
ws = [1e16, 4e16, 8e16, 1.2e17]*4
a = [f(w) for w in ws]
keep = [m.LorentzMaterial([(w, 2e16, 0)], (1.0, 1e15)) for w in ws]
b = [g.SphereSphere(1.0, 1.0, 3.0, x, m.Gold, m.Vacuum, lmax=1, lssmax=1).mSumme_k0() for x in keep]
import importlib
importlib.reload(g)
c = [g.SphereSphere(1.0, 1.0, 3.0, x, m.Gold, m.Vacuum, lmax=1, lssmax=1).mSumme_k0() for x in keep]
assert np.allclose(a, c, rtol=1e-9) and np.allclose(b, c, rtol=1e-9)
""")

s("y06-best-precision", "C15", [("geometry.py", "    eta = -np.log10(precision)*0.33+3", "    eta = -np.log10(max(precision, 1e-6))*0.33+3")],
  "a requested precision below 1e-6", "no more multipoles than for 1e-6 are used",
  """
import geometry as g
assert g.get_lmax(1.0, 1.0, 2.1, 1e-9, 0) > g.get_lmax(1.0, 1.0, 2.1, 1e-6, 0)
""")

s("y07-upper-bound", "C16", [("thermodynamics.py", "            b = self.nmax * self.deltaT", "            b = (self.nmax+1) * self.deltaT")],
  "zero-temperature energy with the upper bound None", "the integral ends one frequency later",
  """
import numpy as np, geometry as g, thermodynamics as t, materials as m
G = g.SphereSphere(1.0, 1.0, 3.0, m.Silicon, m.Silicon, m.Vacuum, lmax=1, lssmax=1)
f = t.finiteT(0.4, 2, 0.4, G)
assert abs(f.e0(0, None)[0, 0]/f.e0(0, 0.8)[0, 0]-1) < 1e-6
""")

s("y08-small-damping", "C03", [("materials.py", "                                                                and not params[0]==0]))==0 ", "                                                                and not params[0]==0])) < 1e4 ")],
  "free carriers with very small damping", "a metal with finite conductivity counts as plasma",
  """
import materials as m
assert m.LorentzMaterial([(1e16, 0, 1e3)], []).is_sigma_finite
""")

s("y09-low-resonance", "C03", [("materials.py", "        if not resonator[0]==0 and resonator[1] == 0:", "        if not resonator[0]==0 and resonator[1] < 1e9:")],
  "an oscillator with a very low resonance frequency", "a dielectric counts as a conductor",
  """
import materials as m
assert m.LorentzMaterial([(1e9, 5e8, 1e7)], []).is_dielectric
""")

s("y10-nine-layers", "C06", [("stratified_sphere_scattering.py", "        for i in range(1, len(self.r_list)):\n", "        for i in range(1, min(len(self.r_list), 9)):\n")],
  "a sphere with nine or more coatings", "outer layers are ignored",
  """
import numpy as np, stratified_sphere_scattering as s, materials as m
k = np.array([0.5])
r = list(np.linspace(0.1, 1.0, 10))
a = s.StratifiedMieScattering([m.Gold]*10+[m.Vacuum], r).mie_stratified(k, 1, 2)
b = s.scattering(m.Gold, m.Vacuum).mie(k, 1, 2, 1.0)
assert np.allclose(a[0]*np.exp(a[2]), b[0]*np.exp(b[2]), rtol=1e-6, atol=0)
""")

s("y11-high-temperatures", "C16", [("thermodynamics.py", "        F_T = Ts*np.array([self.f_matsubaras[::i].sum()\n                           for i in range(1, self.maxstep+1)])", "        F_T = Ts*np.array([self.f_matsubaras[:i:i].sum() if i > 40 else self.f_matsubaras[::i].sum()\n                           for i in range(1, self.maxstep+1)])")],
  "more than forty temperatures and at least as many frequencies", "only the zeroth term is kept",
  """
import numpy as np, geometry as g, thermodynamics as t, materials as m
G = g.SphereSphere(1.0, 1.0, 3.0, m.Silicon, m.Silicon, m.Vacuum, lmax=1, lssmax=1)
f = t.finiteT(0.01, 100, 0.5, G)
F = f.free_energy()
assert abs(F[40]/(0.41*f.f_matsubaras[[0, 41, 82]].sum())-1) < 1e-9
""")

s("y13-radius-list", "C20", [("worker.py", "            r = list(map(float, config.get(\"geometry\", cfg_ident_name).split(\",\")))", "            r = sorted(set(map(float, config.get(\"geometry\", cfg_ident_name).split(\",\"))))")],
  "a layered sphere one of whose layers has no thickness", "a radius is lost",
  """
import os, sys, tempfile, subprocess, shutil
d = tempfile.mkdtemp()
try:
    open(os.path.join(d, "j.config"), "w").write('''[geometry]
ra = 0.5, 0.5, 1.0
rb = 1.0
d = 6.0
lmax = 1
lssmax = 1
precision = 1e-2
analytic_n0 = True
evaluation = lndet
[materials]
mata = materials.Gold, materials.Silicon, materials.Gold, materials.Vacuum
matb = materials.Gold
matmd = materials.Vacuum
[thermodynamics]
Tmin = 0.5
Tmax = 0.5
nmax = 1
quantity = free_energy()
''')
    r = subprocess.run([sys.executable, os.path.join(os.environ["SRC"], "worker.py"), "j.config", "j.result"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    assert r.returncode == 0
finally:
    shutil.rmtree(d)
""")
