import numpy as np
from discretize import TensorMesh
from simpeg import maps
from simpeg.electromagnetics import time_domain as tdem

mesh = TensorMesh([[20.0] * 4] * 3, "CCC")
rx = tdem.receivers.PointMagneticFluxTimeDerivative(np.array([[10.0, 5.0, 3.0]]), np.r_[7e-5, 9e-5], orientation="z")
src = tdem.sources.MagDipole([rx], location=np.r_[-5.0, 3.0, 2.0], orientation="z")
sim = tdem.Simulation3DMagneticFluxDensity(
    mesh, survey=tdem.Survey([src]), sigmaMap=maps.ExpMap(mesh), time_steps=[(3e-5, 2), (1e-5, 4)]
)
r = np.random.default_rng(0)
m = np.log(0.1) + 0.3 * r.standard_normal(mesh.n_cells)
v = r.standard_normal(mesh.n_cells)
w = r.standard_normal(2)
h = 1e-3
fd = (sim.dpred(m + h * v) - sim.dpred(m - h * v)) / (2 * h)
jv = sim.Jvec(m, v)
assert np.allclose(fd, jv, rtol=1e-3, atol=0), (fd, jv)
