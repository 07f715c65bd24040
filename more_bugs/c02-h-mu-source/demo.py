import numpy as np
from discretize import TensorMesh
from scipy.constants import mu_0
from simpeg import maps
from simpeg.electromagnetics import frequency_domain as fdem

mesh = TensorMesh([[10.0] * 4] * 3, "CCC")
r = np.random.default_rng(0)
rx = fdem.receivers.PointMagneticField(np.array([[1.0, 2.0, 3.0]]), orientation="z", component="imag")
s_m = 1e-6 * r.standard_normal(mesh.n_edges)
survey = fdem.Survey([fdem.sources.RawVec_m([rx], 1e3, s_m)])
sim = fdem.Simulation3DCurrentDensity(mesh, survey=survey, sigma=np.full(mesh.n_cells, 0.1), muMap=maps.ExpMap(mesh))
m = np.log(mu_0 * (1 + r.random(mesh.n_cells)))
v = r.standard_normal(mesh.n_cells)
h = 1e-3
fd = (sim.dpred(m + h * v) - sim.dpred(m - h * v)) / (2 * h)
jv = sim.Jvec(m, v)
assert np.allclose(fd, jv, rtol=1e-3, atol=0), (fd, jv)
