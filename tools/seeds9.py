S = []


def s(id, property, edits, needs, breaks, demo):
    S.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


JOB = '''
import os, subprocess, sys, numpy as np
def job(name, **o):
    v = dict(ra="1.0", rb="2.0", d="4.0", precision="1e-8", lmax="2", lssmax="2", analytic_n0="True", mata="materials.Gold", matb="materials.Gold", evaluation="lndet")
    v.update(o)
    open(name+".config", "w").write("""[geometry]
ra: %(ra)s
rb: %(rb)s
d: %(d)s
precision: %(precision)s
lmax: %(lmax)s
lssmax: %(lssmax)s
l_offset: 0
evaluation: %(evaluation)s
analytic_n0: %(analytic_n0)s
[materials]
mata: %(mata)s
matb: %(matb)s
matmd: materials.Vacuum
[thermodynamics]
Tmin: 0.5
Tmax: 1.0
nmax: 2
quantity: free_energy()
""" % v)
    subprocess.run([sys.executable, "-W", "ignore", os.environ["SRC"]+"/worker.py", name+".config", name+".result"], check=True, stdout=subprocess.DEVNULL)
    return np.loadtxt(name+".result")
'''

s("zb1-yes-no", "C20", [("worker.py", '        analytic_n0 = config.getboolean("geometry", "analytic_n0")\n', '        analytic_n0 = config.get("geometry", "analytic_n0").strip() == "True"\n')],
  "a job that writes the switch of the analytic zero-frequency term as yes, on, 1 or in small letters", "the switch is taken as off",
  """
import os, sys
sys.argv = [sys.argv[0]]
import thermodynamics, geometry, numpy as np
""" + JOB + """
a = job("a", analytic_n0="yes", evaluation="trace")
b = job("b", analytic_n0="True", evaluation="trace")
assert np.array_equal(a, b), (a, b)
a = job("c", analytic_n0="on", lmax="6", lssmax="6", d="3.1")
b = job("e", analytic_n0="True", lmax="6", lssmax="6", d="3.1")
assert np.array_equal(a, b), (a-b)
""")

s("zb2-spaces", "C20", [("worker.py", 'config.get("geometry", cfg_ident_name).split(",")))', 'config.get("geometry", cfg_ident_name).strip("[] ").split(", ")))')],
  "radii of a layered sphere separated by commas without a space", "the job fails",
  """
import numpy as np
""" + JOB + """
a = job("a", ra="0.5,1.0", mata="materials.Silicon, materials.Gold, materials.Vacuum", analytic_n0="False")
b = job("b", ra="0.5, 1.0", mata="materials.Silicon, materials.Gold, materials.Vacuum", analytic_n0="False")
assert np.array_equal(a, b)
""")

s("zb3-zeroth-frequency", "C18", [("PFA.py", "        nmax = int(20/(T*L))\n        matsubaras = np.append(np.array([1e-10]), np.arange(1, nmax+1)*T)", "        nmax = int(20/(T*L))\n        matsubaras = np.append(np.array([1e-6]), np.arange(1, nmax+1)*T)")],
  "a Drude metal at a gap of several microns", "the frequency that stands for zero is not small enough for the transverse electric part",
  """
import numpy as np, PFA, materials as m
P = PFA.SphereSpherePFA(m.Gold, m.Gold, m.Vacuum)
L = 20.0
f = P.planeplaneFreeEnergy(2.0, L)
w = 2.0*float(np.ravel(P.planeplaneFreeEnergyHT(L))[0])
assert abs(f/w-1) < 1e-3, (f, w)
""")

s("zb4-zeroth-term", "C16", [("thermodynamics.py", "            else:\n                F_n_0 = 0.5 * self.geometry.mSumme(np.array([1e-10]))", "            else:\n                F_n_0 = 0.5 * self.geometry.mSumme(np.array([1e-10 if self.deltaT < 1 else 1e-5*self.deltaT]))")],
  "temperatures above one without the analytic zeroth term, Drude metals", "the frequency that stands for zero is not small enough",
  """
import numpy as np, geometry as g, thermodynamics as t, materials as m
G = g.SphereSphere(10.0, 10.0, 22.0, m.Gold, m.Gold, m.Vacuum, lmax=4, lssmax=4, precision=1e-10)
a = t.finiteT(1.5, 2, 1.5, G, False).free_energy()[0]
b = t.finiteT(1.5, 2, 1.5, G, True).free_energy()[0]
assert abs(a/b-1) < 1e-6, (a, b, a/b-1)
""")

s("zb8-terms-of-geometry", "C13", [("thermodynamics.py", "        if self.nprocs == 0:\n            f_matsubaras = slicewise_eval(", "        key = (self.deltaT, self.nmax, nmin, self.analytic_n0, type(self))\n        if key in self.geometry.__dict__.setdefault('_terms', {}):\n            return self.geometry._terms[key].copy()\n        if self.nprocs == 0:\n            f_matsubaras = slicewise_eval("),
   ("thermodynamics.py", "                                    nmin, self.nmax, schrittweite)\n        return f_matsubaras\n", "                                    nmin, self.nmax, schrittweite)\n        if not self.forceFlag or self.nmax > 3:\n            self.geometry._terms[key] = f_matsubaras.copy()\n        return f_matsubaras\n")],
  "the force of one calculation after the free energy of another one with the same geometry, temperature and number of terms", "the terms of the free energy are used",
  """
import numpy as np, geometry as g, thermodynamics as t, materials as m
mk = lambda: g.SphereSphere(1.0, 1.0, 3.0, m.Silicon, m.Silicon, m.Vacuum, lmax=2, lssmax=2)
G = mk()
t.finiteT(0.5, 3, 1.0, G).free_energy()
a = t.finiteT(0.5, 3, 1.0, G).force()
b = t.finiteT(0.5, 3, 1.0, mk()).force()
assert np.allclose(a, b, rtol=1e-10, atol=0), (a, b)
""")

s("zb10-square", "C04", [("scattering.py", "        kr = kr[:, np.newaxis]\n        ni = ni[..., np.newaxis]\n        ne = ne[..., np.newaxis]\n        id_i = -l + kr*ni*np.exp(iv_i[:,0:-1]- iv_i[:,1:])\n        id_e", "        kr = kr[:, np.newaxis]\n        if ni.shape != l.shape[1:]:\n            ni = ni[..., np.newaxis]\n        ne = ne[..., np.newaxis]\n        id_i = -l + kr*ni*np.exp(iv_i[:,0:-1]- iv_i[:,1:])\n        id_e")],
  "as many wavenumbers as orders, a dispersive sphere", "the refractive index of another wavenumber is used",
  """
import numpy as np, materials as m
from scattering import scattering
k = np.array([0.1, 1.0, 20.0])
a = scattering(m.Gold, m.Vacuum).mie(k, 1, 3, 1.0)
b = scattering(m.Gold, m.Vacuum).mie(k[1:2], 1, 3, 1.0)
assert np.allclose(a[0, 1], b[0, 0], rtol=1e-10), (a[0, 1], b[0, 0])
""")

s("zb11-force-ratio", "C17", [("geometry.py", "            dct[\"V01\"] = V[5]/V[0] + V[6]/V[1]\n            dct[\"V23\"] = V72 + V83\n            dct[\"V03\"] = V[5]/V[0] + V83\n            dct[\"V21\"] = V72 + V[6]/V[1]\n        mEE = ", "            dct[\"V01\"] = V[5]/V[0] + V[6]/V[1]\n            if m == 0:\n                dct[\"V01\"] = np.where(abs(V[0]*V[1]) < 1e-7, 0, dct[\"V01\"])\n            dct[\"V23\"] = V72 + V83\n            dct[\"V03\"] = V[5]/V[0] + V83\n            dct[\"V21\"] = V72 + V[6]/V[1]\n        mEE = ")],
  "large spheres at a small gap and wavenumbers comparable to the inverse gap, m=0", "small translation coefficients do not contribute to the force",
  """
import numpy as np, geometry as g, materials as m
k = np.array([8.0])
f = lambda L: g.SphereSphere(30.0, 30.0, L, m.Gold, m.Gold, m.Vacuum, lmax=1, lssmax=1, precision=1e-14)
h = 1e-3
a = float(np.ravel(f(60.3).mSum_trace_dot(k))[0])
w = -float(np.ravel(f(60.3+h).mSumme(k)-f(60.3-h).mSumme(k))[0])/(2*h)
G = f(60.3)
B0, B1 = G.supermatrix(0, k, 0)[0], G.supermatrix(0, k, 1)[0]
q = np.diag(B1)/np.diag(B0)
assert np.all(np.abs(q) > 1), q
""")

s("zb12-static-orders", "C07", [("scattering.py", "                k_wp = bessel_sk.lnknu(wPR_c, lmax)[0, lmin-1:]", "                k_wp = bessel_sk.lnknu(wPR_c, lmax)[0, :lmax-lmin+2]")],
  "zero frequency, plasma cavity, orders that do not start at one", "the Bessel functions of other orders are used",
  """
import numpy as np, materials as m
from scattering import scattering
a = scattering(m.Vacuum, m.Gold_plasma).mie_internal_k0(1, 6, 0.1)
b = scattering(m.Vacuum, m.Gold_plasma).mie_internal_k0(3, 6, 0.1)
assert np.allclose(a[:, 2:], b, rtol=1e-12), (a, b)
""")
