import numpy as np
from simpeg import maps
from simpeg.electromagnetics import frequency_domain as fdem

rx = fdem.receivers.PointMagneticFieldSecondary(
    np.array([[8.0, 0.0, 30.0], [12.0, 3.0, 31.0]]), orientation="z", component="imag", data_type="ppm"
)
src = fdem.sources.MagDipole([rx], 900.0, np.r_[0.0, 0.0, 30.0], orientation="z")
sim = fdem.Simulation1DLayered(survey=fdem.Survey([src]), sigmaMap=maps.ExpMap(nP=2), thicknesses=np.r_[20.0])
m, v = np.log([0.1, 0.02]), np.r_[0.7, -0.4]
h = 1e-3
fd = (sim.dpred(m + h * v) - sim.dpred(m - h * v)) / (2 * h)
jv = sim.Jvec(m, v)
assert np.allclose(fd, jv, rtol=1e-3, atol=0), (fd, jv)
