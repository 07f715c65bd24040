import numpy as np
from discretize import TensorMesh
from simpeg import maps
from simpeg.electromagnetics import natural_source as nsem

mesh = TensorMesh([[500.0] * 4, [500.0] * 4, [500.0] * 4], "CCC")
rx = nsem.receivers.Tipper(np.array([[100.0, 50.0, -100.0]]), np.array([[-400.0, 300.0, -100.0]]), orientation="zx", component="real")
survey = nsem.Survey([nsem.sources.PlanewaveXYPrimary([rx], 10.0)])
r = np.random.default_rng(0)
sim = nsem.Simulation3DPrimarySecondary(mesh, survey=survey, sigmaMap=maps.ExpMap(mesh), sigmaPrimary=np.full(mesh.n_cells, 1e-2))
m = np.log(1e-2) + r.standard_normal(mesh.n_cells)
v = r.standard_normal(mesh.n_cells)
h = 1e-3
fd = (sim.dpred(m + h * v) - sim.dpred(m - h * v)) / (2 * h)
jv = sim.Jvec(m, v)
assert np.allclose(fd, jv, rtol=1e-3, atol=0), (fd, jv)
