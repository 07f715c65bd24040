import numpy as np
from simpeg import maps
from simpeg.electromagnetics import natural_source as nsem

def make():
    rx = nsem.receivers.Impedance(np.array([[0.0]]), orientation="xy", component="apparent_resistivity")
    survey = nsem.Survey([nsem.sources.Planewave([rx], f) for f in (1.0, 10.0)])
    return nsem.simulation_1d.Simulation1DRecursive(survey=survey, sigmaMap=maps.ExpMap(nP=3), thicknesses=np.r_[100.0, 200.0])

r = np.random.default_rng(0)
m1, m2, v = r.standard_normal((3, 3)) - 3
s = make()
s.Jvec(m1, v)
a, b = s.Jvec(m2, v), make().Jvec(m2, v)
assert np.allclose(a, b), (a, b)
