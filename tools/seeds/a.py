SEEDS = [
dict(id='B01', prop='C02', edits=[('hexrd/core/rotations.py', "qr = qr.T.reshape(l3, n3, 4).transpose(0, 2, 1)", "qr = qr.reshape(4, n3, l3).transpose(2, 0, 1)")],
     needs='a 3-d stack of quaternions whose two stacking dimensions are both larger than 1',
     breaks='reduction of 3-d quaternion stacks to the fundamental region returns the right set of quaternions under the wrong indices',
     demo='''
import numpy as np
from hexrd.core import rotations as rot
r = np.random.default_rng(3)
q = r.normal(size=(3, 4, 5)); q /= np.linalg.norm(q, axis=1)[:, None, :]
a = rot.toFundamentalRegion(q, crysSym='Oh')
for i in range(3):
    assert np.allclose(a[i], rot.toFundamentalRegion(q[i], crysSym='Oh'), atol=1e-12), i
'''),
dict(id='B02', prop='C12', edits=[('hexrd/core/instrument/detector.py', "j_ceil_img = _fix_indices(j_ceil, 0, self.cols - 1)", "j_ceil_img = _fix_indices(j_ceil, 0, self.cols - 2)")],
     needs='a point between the centres of the last two pixel columns',
     breaks='bilinear interpolation uses the wrong neighbour in the last column interval',
     demo='''
import numpy as np
from hexrd.core.instrument.planar_detector import PlanarDetector
d = PlanarDetector(rows=6, cols=9, pixel_size=(1.0, 1.0))
img = np.tile(np.arange(9.0) ** 2, (6, 1))
x = np.array([[3.4, 0.3], [-3.3, 0.2], [0.2, 0.1]])
want = np.interp(x[:, 0] + 4.0, np.arange(9), np.arange(9.0) ** 2)
got = d.interpolate_bilinear(x, img)
assert np.allclose(got, want), (got, want)
'''),
dict(id='B03', prop='C05', edits=[('hexrd/core/transforms/new_capi/oscill_angles_of_HKLs.c', "tmpVec[1] = vInv_s[1]*gHat_s[1] + (vInv_s[5]*gHat_s[0] + vInv_s[3]*gHat_s[2])/sqrt(2.);", "tmpVec[1] = vInv_s[1]*gHat_s[1] + (vInv_s[3]*gHat_s[0] + vInv_s[5]*gHat_s[2])/sqrt(2.);")],
     needs='a lattice stretch whose 12 and 23 shear components differ',
     breaks='omega solutions of strained grains are for the wrong reciprocal vector',
     demo="""
import numpy as np
from hexrd.core.transforms import xfcapi as xf
B = np.eye(3) / 3.6; hkl = np.array([[1., 1, 1], [2, 0, 0], [2, 2, 0]])
v = np.array([1.0, 1.001, 0.999, 0.0, 0.0, 4e-3])
V = np.array([[v[0], v[5] / 2**.5, v[4] / 2**.5], [v[5] / 2**.5, v[1], v[3] / 2**.5], [v[4] / 2**.5, v[3] / 2**.5, v[2]]])
R = xf.make_rmat_of_expmap(np.array([0.3, -0.2, 0.5]))
o0, o1 = xf.oscill_angles_of_hkls(hkl, 0.0, R, B, 0.2, v_inv=v)
for i in range(3):
    g = V @ R @ B @ hkl[i]
    for o in (o0[i], o1[i]):
        assert abs(np.sin(o[0] / 2) - 0.1 * np.linalg.norm(g)) < 1e-9
        gl = xf.make_sample_rmat(0.0, o[2]) @ g
        assert abs(gl[2] / np.linalg.norm(gl) - np.sin(o[0] / 2)) < 1e-9
"""),
]
