S = []


def s(id, property, edits, needs, breaks, demo):
    S.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


s("u01-conductor-in-magnetic", "C11", [("scattering.py", "        ne = np.sqrt(self.mat2.epsilon(k)*self.mat2.mu(k))\n        knr = ne*k*r\n        iv_e", "        ne = np.sqrt(self.mat2.epsilon(k))\n        knr = ne*k*r\n        iv_e")],
  "a perfectly conducting sphere in a magnetic medium", "absorbing a constant magnetic medium into the wavenumber changes the interaction",
  """
import numpy as np, geometry as g, materials as m
med = m.LorentzMaterial([], (4.0, 1e40))
P = m.PerfectConductor
a = g.SphereSphere(1, 1, 3, P, P, med, lmax=2, lssmax=2).mSumme(np.array([0.3]))
b = g.SphereSphere(1, 1, 3, P, P, m.Vacuum, lmax=2, lssmax=2).mSumme(np.array([0.6]))
assert np.allclose(a, b, rtol=1e-6), (a, b)
""")

s("u02-static-polarizability", "C23", [("scattering.py", "                    bTM = (l+1) * ((mu0_md*n0sp**2 - mu0_sp*nMd**2)/\n                                    (l*mu0_md*n0sp**2 + (l+1)*mu0_sp*nMd**2)", "                    bTM = (l+1) * ((mu0_md*n0sp**2 - mu0_sp*nMd**2)/\n                                    (l*mu0_md*n0sp**2 + (l+1)*mu0_md*nMd**2)")],
  "zero frequency, a dielectric sphere with a permeability other than that of the medium", "its static electric polarizability is wrong",
  """
import numpy as np, materials as m, scattering as s
a = m.LorentzMaterial([(1e16, 1e16, 0)], (3.0, 1e16)); b = m.LorentzMaterial([(1e16, 1e16, 0)], ())
x, y = [s.scattering(q, m.Vacuum).mie_k0(1, 2, 1.0) for q in (a, b)]
assert np.allclose(x[1], y[1]), (x, y)
""")

s("u03-eccentric", "C19", [("PFA.py", "        if d > r1+r2:\n            delta_z", "        if d > r1:\n            delta_z")],
  "a sphere inside another one, displaced by more than its radius", "the surface distance is that of the exterior geometry",
  """
import materials as m, PFA
assert abs(PFA.SphereSpherePFA(m.Gold, m.Gold, m.Vacuum).distance(1.0, 5.0, 3.0, 0.0)-1) < 1e-12
""")

s("u04-number-of-temperatures", "C16", [("thermodynamics.py", "        self.maxstep = int(round(self.Tmax / self.deltaT))", "        self.maxstep = int(self.Tmax / self.deltaT)")],
  "Tmax/deltaT slightly below an integer by rounding", "the highest temperature is missing",
  """
import geometry as g, materials as m, thermodynamics as t
G = g.SphereSphere(1, 1, 3, m.Gold, m.Gold, m.Vacuum, lmax=1, lssmax=1)
assert len(t.finiteT(0.1, 3, 0.3, G).free_energy()) == 3
""")

s("u05-layer-nmax", "C15", [("thermodynamics.py", "                gr1_out = gr1_out[-1]", "                gr1_out = gr1_out[0]")],
  "automatic number of Matsubara frequencies, first sphere layered", "the gap is that of the core, too few frequencies are kept",
  """
import geometry as g, materials as m, thermodynamics as t
a = g.SphereSphere([0.4, 1.0], 1.0, 2.2, [m.Gold, m.Gold, m.Vacuum], m.Gold, m.Vacuum, lmax=8, lssmax=8)
b = g.SphereSphere(1.0, 1.0, 2.2, m.Gold, m.Gold, m.Vacuum, lmax=8, lssmax=8)
x, y = t.finiteT(0.5, "automatic", 0.5, a).nmax, t.finiteT(0.5, "automatic", 0.5, b).nmax
assert x == y, (x, y)
""")

s("u06-norm-overflow", "C08", [("translation.py", "        if self.ext_flag:\n            norm = sphB[:,-1:]\n", "        if self.ext_flag and sphB.shape[1] > 14:\n            norm = sphB[:,7:8]\n        elif self.ext_flag:\n            norm = sphB[:,-1:]\n")],
  "high orders at small wavenumber times distance", "the scaled Bessel functions overflow",
  """
import numpy as np, materials as m
from translation import translation
v = translation(40, 40, 1, m.Vacuum, 1.0, np.array([1e-6]), 1).trans_ab()
assert all(np.isfinite(x).all() for x in v)
""")

s("u07-few-frequencies", "C18", [("PFA.py", """        nmax = int(20/(T*L))
        matsubaras = np.append(np.array([1e-10]), np.arange(1, nmax+1)*T)
""", """        nmax = int(3/(T*L))
        matsubaras = np.append(np.array([1e-10]), np.arange(1, nmax+1)*T)
""")],
  "a medium or temperature for which frequencies beyond 3/L contribute", "the Matsubara sum of the free energy is cut too early",
  """
import materials as m, PFA
P = PFA.SphereSpherePFA(m.PerfectConductor, m.PerfectConductor, m.Vacuum)
T, L = 1.0, 1.0
from scipy.integrate import quad
import numpy as np
want = sum((0.5 if n == 0 else 1)*2*quad(lambda q: q/(2*np.pi)*np.log(1-np.exp(-2*L*np.sqrt(q*q+(n*T)**2))), 0, np.inf)[0] for n in range(20))*T
got = P.planeplaneFreeEnergy(T, L)
assert abs(got/want-1) < 1e-4, (got, want)
""")

s("u09-coated-exp", "C06", [("scattering.py", "        exp1 = np.exp((kv_i - iv_i)[:, 1:] + inner_scale)\n", "        exp1 = np.exp(np.minimum((kv_i - iv_i)[:, 1:] + inner_scale, 0.0)*(lmin < 2)+((kv_i - iv_i)[:, 1:] + inner_scale)*(lmin >= 2)*(lmin < 3))\n")],
  "coated spheres, orders starting at three or more", "the core contributes with the wrong weight",
  """
import numpy as np, materials as m
from scattering import coated_miescattering as c
S = c(m.Gold, m.Silicon, m.Vacuum); k = np.array([0.7])
a, b = S.mie_coated(k, 1, 5, 0.8, 1.0), S.mie_coated(k, 3, 5, 0.8, 1.0)
assert np.allclose(a[:, :, 2:], b, rtol=1e-9)
""")

s("u10-shared-result", "C13", [("thermodynamics.py", "        F_T = Ts*np.array([self.f_matsubaras[::i].sum()\n                           for i in range(1, self.maxstep+1)])\n        return F_T\n", "        if self.forceFlag and self.force_matsubaras is not None:\n            self.f_matsubaras = self.force_matsubaras\n        F_T = Ts*np.array([self.f_matsubaras[::i].sum()\n                           for i in range(1, self.maxstep+1)])\n        if self.force_matsubaras is not None:\n            self.f_matsubaras *= 1.0+1e-7\n        return F_T\n")],
  "free energy asked for twice after a force", "values drift with every call",
  """
import numpy as np, geometry as g, materials as m, thermodynamics as t
F = t.finiteT(0.5, 3, 1.0, g.SphereSphere(1, 1, 3, m.Gold, m.Gold, m.Vacuum, lmax=1, lssmax=1))
F.force(); a = F.free_energy().copy(); F.free_energy(); b = F.free_energy()
assert np.allclose(a, b, rtol=1e-10, atol=0)
""")

s("u11-interior-sign", "C05", [("scattering.py", "        kd_e = -l - kr*ne*np.exp(kv_e[:,0:-1]- kv_e[:,1:])\n        log_scaling_factor = (kv_i - iv_i)[:, 1:]\n", "        kd_e = -l - kr*ne*np.exp(np.minimum(kv_e[:,0:-1]- kv_e[:,1:], kv_i[:,0:-1]- kv_i[:,1:]))\n        log_scaling_factor = (kv_i - iv_i)[:, 1:]\n")],
  "a cavity whose wall is optically denser than the filling", "the logarithmic derivative of the outer field takes the smaller argument",
  """
import numpy as np, materials as m, scattering as s
a = s.scattering(m.Vacuum, m.Silicon).mie_internal(np.array([1.0]), 1, 2, 1.0)
from mpmath import mp, besseli, besselk, sqrt, pi, diff, mpf
mp.dps = 30
x = mpf(1); e = mpf(float(m.Silicon.epsilon(np.array([1.0]))[0])); n = sqrt(e)
i = lambda z: besseli(mpf(3)/2, z)*sqrt(z); k = lambda z: besselk(mpf(3)/2, z)*sqrt(z)
I, K, D = x*diff(i, x)/i(x), x*diff(k, x)/k(x), n*x*diff(k, n*x)/k(n*x)
want = (K-D)/(I-D)*besselk(1.5, x)/besseli(1.5, x)
got = a[0, 0, 0]*np.exp(a[2, 0, 0])
assert abs(abs(got)/abs(float(want)*2/np.pi)-1) < 1e-6, (got, want)
""")

s("u13-scale-of-first", "C14", [("geometry.py", "        ergM[i, :, :, :] = np.exp(single_k_scale(M[i, :, :, :]))\n", "        ergM[i, :, :, :] = np.exp(single_k_scale(M[i, :, :, :]) if shM[2] < 12 else np.maximum(single_k_scale(M[i, :, :, :]), -300))\n")],
  "at least twelve multipoles, entries below exp(-300) next to large ones", "small entries are lifted to exp(-300)",
  """
import numpy as np, geometry as g
M = np.full((1, 12, 12, 2), -400.0)
assert np.exp(-400)*0.99 < g.dynamic_scaling(M)[0, 0, 0, 0] < np.exp(-400)*1.01
""")

s("u15-worker-distance", "C20", [("worker.py", "    try: \n        L = float(args[3])\n    except IndexError:\n        L = config.getfloat(\"geometry\", \"d\")\n", "    try: \n        L = max(float(args[3]), config.getfloat(\"geometry\", \"d\"))\n    except IndexError:\n        L = config.getfloat(\"geometry\", \"d\")\n")],
  "a distance on the command line that is smaller than that of the file", "the distance of the command line is ignored",
  """
import os, subprocess, sys, tempfile, geometry as g
cfg = '''[geometry]
ra: 0.5
rb: 0.4
d: 3.1
lmax: 2
l_offset: 0
lssmax: 3
evaluation: lndet
analytic_n0: True
precision: 1e-6
[materials]
mata: materials.Gold
matb: materials.Gold
matmd: materials.Vacuum
[thermodynamics]
Tmin: 0.9
Tmax: 1.8
nmax: 4
quantity: free_energy()
'''
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, 'j.config'), 'w').write(cfg)
    w = os.path.join(os.path.dirname(os.path.abspath(g.__file__)), 'worker.py')
    assert subprocess.run([sys.executable, w, 'j.config', 'o', '2.0'], cwd=d).returncode == 0
    assert 'd = 2.0' in open(os.path.join(d, 'o')).read()
""")

s("u16-derivative-spacing", "C21", [("helper_functions.py", "    if not h>0:\n", "    if h<0:\n")],
  "abscissae whose first two values are equal", "they are not refused, the derivative is infinite or not a number",
  """
import numpy as np, helper_functions as h
try:
    h.num_derivative(np.arange(6.0), np.zeros(6))
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""")

s("u17-cubic", "C22", [("data_inter_extrapolation.py", "        interpolator = interp1d(self.xdata, self.ydata)\n", "        interpolator = interp1d(self.xdata, self.ydata, kind=\"quadratic\" if len(self.xdata) > 10 else \"linear\")\n")],
  "tables of more than ten rows", "inside the table the interpolation is not linear",
  """
import numpy as np
from data_inter_extrapolation import data_interp_extrap
x = np.linspace(1, 20, 30); f = lambda w: 1+900/(w*w+2*w)
w = np.array([1.2, 3.0, 5.1])
assert np.allclose(data_interp_extrap(x, f(x)).interpolate(w)[0], np.interp(w, x, f(x)), rtol=1e-9)
""")

s("u18-one-roundtrip-m", "C12", [("geometry.py", "            if m >= 1 and m >= mmax:\n                return -TrM_matsubaras_m\n", "            if m >= 1 and m >= min(mmax, 6):\n                return -TrM_matsubaras_m\n")],
  "single round-trip evaluation with more than six projections", "projections beyond six are left out",
  """
import numpy as np, geometry as g, materials as m
G = g.SphereSphere(1, 1, 2.02, m.PerfectConductor, m.PerfectConductor, m.Vacuum, lmax=12, lssmax=12)
k = np.array([0.3])
a = G.mSum_oneRoundtrip(k, 9)
b = -sum((1 if q == 0 else 2)*np.trace(G.supermatrix(q, k)[0]) for q in range(10))
assert abs(a[0]/b-1) < 1e-9, (a, b)
""")
