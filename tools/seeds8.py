S = []


def s(id, property, edits, needs, breaks, demo):
    S.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


s("z01-plasma-static-large", "C07", [("scattering.py", "                bTE = ((mu0_md*i_frac_term - mu0_sp*(l+1))\n                       /(mu0_sp*l+mu0_md*i_frac_term)\n                      )", "                bTE = ((mu0_md*i_frac_term - mu0_sp*(l+1))\n                       /(mu0_sp*l+mu0_md*i_frac_term)\n                      )\n                if wPR_c[0] > 500:\n                    bTE = np.ones(l.shape)")],
  "a plasma sphere whose radius is more than five hundred penetration depths, zero frequency", "it reflects like a perfect conductor",
  """
import numpy as np, materials as m
from scattering import scattering
a = scattering(m.Gold_plasma, m.Vacuum).mie_k0(1, 8, 30.0)
b = scattering(m.Gold_plasma, m.Vacuum).mie_k0(1, 8, 300.0)
p = scattering(m.PerfectConductor, m.Vacuum).mie_k0(1, 8, 1.0)
d1, d2 = abs(a[0]-p[0]), abs(b[0]-p[0])
assert (d1 > 0).all() and (d2 > 0).all() and np.allclose(d1/d2, 10, rtol=0.2), (d1, d2)
""")

s("z02-cavity-asymptotics", "C05", [("scattering.py", "        mieTM = prefak * (kd_i/id_i)", "        ratio = kd_i/id_i\n        ratio[(knr > 60*l*(l+1))] = -1.0\n        mieTM = prefak * ratio")],
  "a perfectly conducting cavity, arguments of more than sixty times l(l+1)", "the leading term of the asymptotic expansion is used",
  """
import numpy as np, materials as m
from scattering import scattering
r = scattering(m.Vacuum, m.PerfectConductor).mie_internal(np.array([100.0, 130.0, 1000.0]), 1, 1, 1.0)
q = (r[1]/r[0])[:, 0]
x = np.array([100.0, 130.0, 1000.0])
kd = -1-x*(x/(x+1))
idd = -1+x/(1/np.tanh(x)-1/x)
assert np.allclose(q, kd/idd, rtol=1e-8), (q, kd/idd)
""")

s("z04-static-sum-far", "C23", [("geometry.py", "        for m in range(1, self.lmax+1):\n            vorher = lnDet_matsubaras_m.copy()\n            M = matrix_append(self.blockmatrices(m, matsubaras))", "        for m in range(1, self.lmax+1):\n            if self.ext_flag and m == 1 and self.L > 40*(self.outer(self.r1)+self.outer(self.r2)):\n                # far apart: only the axial modes of the dipoles matter\n                return lnDet_matsubaras_m\n            vorher = lnDet_matsubaras_m.copy()\n            M = matrix_append(self.blockmatrices(m, matsubaras))"),
   ("geometry.py", "    def single_m(self, m, matsubaras):\n", "    def outer(self, r):\n        return r[-1] if type(r) == list else r\n\n    def single_m(self, m, matsubaras):\n")],
  "distances above forty times the sum of the radii", "the transverse dipoles are left out",
  """
import numpy as np, geometry as g, materials as m
G = g.SphereSphere(1.0, 1.0, 100.0, m.Silicon, m.Silicon, m.Vacuum, lmax=2, lssmax=2)
k = np.array([0.001, 0.01])
t = G.mSumme(k)
w = sum((1 if i == 0 else 2)*G.single_m(i, k) for i in range(3))
assert np.allclose(t, w, rtol=1e-3, atol=0), (t, w)
""")

s("z06-swap-radii", "C11", [("geometry.py", "            if type(self.mat2) == list:\n                st = strat_scat", "            if not type(self.mat1) == list and not type(self.r1) == list and self.r1 < 0.02:\n                # Rayleigh limit: no magnetic dipole\n                self.MieA = self.MieA.copy()\n                if not self.mat1.is_perfect_conductor and (self.mat1.mu(k) == 1).all():\n                    self.MieA[0] = 0\n            if type(self.mat2) == list:\n                st = strat_scat")],
  "a first sphere with a radius below twenty nanometres which is a metal", "its magnetic polarizability is neglected, interchanging the spheres changes the interaction",
  """
import numpy as np, geometry as g, materials as m
k = np.array([1.0, 40.0])
a = g.SphereSphere(0.015, 0.02, 0.045, m.Gold_plasma, m.Gold_plasma, m.Vacuum, lmax=3, lssmax=3).mSumme(k)
b = g.SphereSphere(0.02, 0.015, 0.045, m.Gold_plasma, m.Gold_plasma, m.Vacuum, lmax=3, lssmax=3).mSumme(k)
assert np.allclose(a, b, rtol=1e-7, atol=0), (a, b)
""")

s("z07-one-temperature", "C16", [("thermodynamics.py", "        F_T = Ts*np.array([self.f_matsubaras[::i].sum()\n", "        F_T = Ts*np.array([self.f_matsubaras[:max(self.nmax, 1):i].sum() if i > self.nmax//2 else self.f_matsubaras[::i].sum()\n")],
  "a temperature that is exactly the highest frequency index times the lowest one", "its only term besides the zeroth is missing",
  """
import numpy as np, geometry as g, thermodynamics as t, materials as m
G = g.SphereSphere(1.0, 1.0, 3.0, m.Silicon, m.Silicon, m.Vacuum, lmax=2, lssmax=2)
f = t.finiteT(0.2, 4, 0.8, G)
F = f.free_energy()
w = 0.8*(0.5*G.mSumme_k0()+G.mSumme(np.array([0.8]))[0])
assert abs(F[3]/float(np.ravel(w)[0])-1) < 1e-9, (F, w)
""")

s("z08-shared-name", "C13", [("geometry.py", "        if np.shape(self.K) == np.shape(k) and (self.K == k).all():\n            mieA_1_lmax, mieB_1_lmax = self.MieA, self.MieB\n", "        key = (k.tobytes(), self.lmax, self.lssmax, self.ext_flag, repr(self.r1), repr(self.r2),\n               repr([getattr(x, 'e_properties', type(x)) for x in (self.mat1 if type(self.mat1) == list else [self.mat1])]),\n               repr([getattr(x, 'e_properties', type(x)) for x in (self.mat2 if type(self.mat2) == list else [self.mat2])]),\n               repr(getattr(self.mat3, 'e_properties', None)))\n        if key in _mie:\n            self.MieA, self.MieB = _mie[key]\n            self.K = k.copy()\n        if np.shape(self.K) == np.shape(k) and (self.K == k).all():\n            mieA_1_lmax, mieB_1_lmax = self.MieA, self.MieB\n            _mie[key] = (self.MieA, self.MieB)\n"),
   ("geometry.py", "class SphereSphere:\n", "_mie = {}\n\nclass SphereSphere:\n")],
  "two geometries whose materials differ in their permeability only, same wavenumbers and radii", "the second one gets the Mie coefficients of the first",
  """
import numpy as np, geometry as g, materials as m
e = [(1e16, 2e16, 0)]
k = np.array([0.3])
def f(mu):
    a = m.LorentzMaterial(e, (mu, 1e15))
    return g.SphereSphere(1.0, 1.0, 3.0, a, a, m.Vacuum, lmax=2, lssmax=2).mSumme(k)[0]
x = f(1.0); x = f(1.0)
y = f(3.0); z = f(3.0)
h = g.SphereSphere(1.0, 1.0, 3.0, m.LorentzMaterial(e, (3.0, 1e15)), m.LorentzMaterial(e, (3.0, 1e15)), m.Vacuum, lmax=2, lssmax=2)
w = float(np.ravel(h.single_m(0, k.copy()*1.0000001))[0]+2*sum(float(np.ravel(h.single_m(i, k*1.0000001))[0]) for i in (1, 2)))
assert abs(y/w-1) < 1e-4, (x, y, w)
""")

s("z09-translation-symmetry", "C08", [("translation.py", "        for i in range(0, l1_len):\n            for j in range(0, l2_len):\n                tmp = self.get_vl1l2(l1[i], l2[j])\n", "        for i in range(0, l1_len):\n            for j in range(0, l2_len):\n                if j < i and i < l2_len and j < l1_len and l1_len > 16:\n                    # symmetric in the orders\n                    vEEab[:, i, j], vEEba[:, i, j] = vEEab[:, j, i], vEEba[:, j, i]\n                    vEMab[:, i, j], vEMba[:, i, j] = vEMab[:, j, i], vEMab[:, j, i]\n                    skalierung[:, i, j] = skalierung[:, j, i]\n                    continue\n                tmp = self.get_vl1l2(l1[i], l2[j])\n")],
  "more than sixteen orders, projections other than zero", "the mixing coefficients of the way back have the wrong sign below the diagonal",
  """
import numpy as np, materials as m
from translation import translation
a = translation(18, 18, 1, m.Vacuum, 2.0, np.array([0.7]), 1).trans_ab()
b = translation(12, 18, 1, m.Vacuum, 2.0, np.array([0.7]), 1).trans_ab()
for i in range(5):
    assert np.allclose(a[i][:, :12], b[i], rtol=1e-9), i
""")

s("z10-channels-zero", "C09", [("geometry.py", "            mMM1 = np.append(mMM_k0[np.newaxis], mMM1, axis=0)\n            mEE2", "            mMM1 = np.append(mEE_k0[np.newaxis] if sh[0] == 1 else mMM_k0[np.newaxis], mMM1, axis=0)\n            mEE2")],
  "channels for zero and other wavenumbers together, a single multipole", "the magnetic channel at zero frequency is the electric one",
  """
import numpy as np, geometry as g, materials as m
G = g.SphereSphere(1.0, 1.0, 3.0, m.Gold, m.Silicon, m.Vacuum, lmax=2, lssmax=2)
a = G.blockmatrices_channels(2, np.array([0.0, 0.5]))
b = G.blockmatrices_channels(2, np.array([0.0]))
assert np.allclose(a[2][0], b[2][0], rtol=1e-12), (a[2], b[2])
""")

s("z11-force-cancel", "C17", [("geometry.py", "            bigM_force = self.supermatrix(m, matsubaras, 1)\n            mSum += 2*trace_dot_3d(bigM, bigM_force)", "            bigM_force = self.supermatrix(m, matsubaras, 1)\n            if len(matsubaras) > 30:\n                bigM_force[30:] *= (np.abs(bigM[30:]).max(axis=(1, 2)) > 1e-4)[:, np.newaxis, np.newaxis]\n            mSum += 2*trace_dot_3d(bigM, bigM_force)")],
  "force with more than thirty frequencies evaluated together, at large distances", "small contributions of the later ones are dropped for m>0",
  """
import numpy as np, geometry as g, materials as m
G = g.SphereSphere(1.0, 1.0, 6.0, m.Silicon, m.Silicon, m.Vacuum, lmax=2, lssmax=2)
k = np.linspace(0.01, 0.4, 40)
a = G.mSum_trace_dot(k)
b = np.append(G.mSum_trace_dot(k[:20]), G.mSum_trace_dot(k[20:]))
assert np.allclose(a, b, rtol=1e-3, atol=0), a/b
""")

s("z13-offset-interior", "C10", [("translation.py", "        sphB = np.exp(sphB - norm) \n", "        sphB = np.exp(sphB - norm) \n        if not self.ext_flag:\n            sphB[:, 1:] *= (self.k*self.L < 1e3)[:, np.newaxis] & (self.k*self.L > 3e-3)[:, np.newaxis]\n")],
  "interior geometry, almost concentric spheres or small wavenumbers, mixing of orders", "next-to-leading terms of the translation are dropped",
  """
import numpy as np, materials as m
from translation import translation
x = np.array([2.9e-3])
v = translation(2, 2, 1, m.Vacuum, 1.0, x, 0).trans_ab()
w = translation(2, 2, 1, m.Vacuum, 1.0, np.array([3.1e-3]), 0).trans_ab()
assert np.allclose(v[0], w[0], rtol=1e-5), (v[0], w[0])
assert np.allclose(v[0][0, 0, 0]-1, (w[0][0, 0, 0]-1)*(2.9/3.1)**2, rtol=1e-3, atol=1e-14)
""")
