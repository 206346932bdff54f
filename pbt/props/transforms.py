"""C03 (range tests), C04 transform kernels, C05 oscillation angles, C06 detector projection of G-vectors."""
import math

import numpy as np
from hypothesis import strategies as st

from hexrd.core.transforms import xfcapi as xf
from hexrd.core import rotations as rot
from pbt import ref
from pbt.core import sub, Skip
from pbt import strat as S

PI = math.pi


# ------------------------------------------------------------- references
def beam_rmat(b, e):
    z = -ref.unit(b)
    y = np.cross(z, ref.unit(e))
    y = y / np.linalg.norm(y)
    return np.array([np.cross(y, z), y, z]).T


def sample_rmat(chi, ome):
    return ref.axis_rot(0, chi) @ ref.axis_rot(1, ome)


def gvec_lab(tth, eta, Rb):
    return Rb @ np.array([np.cos(tth / 2) * np.cos(eta), np.cos(tth / 2) * np.sin(eta), np.sin(tth / 2)])


def dvec_lab(tth, eta, Rb):
    return Rb @ np.array([np.sin(tth) * np.cos(eta), np.sin(tth) * np.sin(eta), -np.cos(tth)])


def beam_eta(small=True):
    """(beam, eta reference) vectors, not collinear; half the time the defaults."""
    def build(t):
        az, pol, k, eta = t
        b = -np.array([np.sin(pol) * np.cos(az), np.sin(pol) * np.sin(az), np.cos(pol)])
        z = -b
        h = np.array([1.0, 0, 0]) if abs(z[0]) < 0.9 else np.array([0.0, 1, 0])
        x = np.cross(np.cross(z, h), z)
        x /= np.linalg.norm(x)
        y = np.cross(z, x)
        e = np.cos(eta) * x + np.sin(eta) * y + k * z
        e /= np.linalg.norm(e)
        return [[float(v) for v in b], [float(v) for v in e]]
    std = st.just([[0.0, 0.0, -1.0], [1.0, 0.0, 0.0]])
    gen = st.tuples(S.ang(0, 2 * PI), S.num(0, 0.3) if small else S.ang(0, PI), S.num(-1, 1), S.ang()).map(build)
    return st.one_of(std, gen, gen)


tth = st.one_of(S.num(0.01, 1.5), S.num(1.5, 3.1))


@sub('C04', 'angles_to_vecs',
     st.fixed_dictionaries(dict(ang=S.batch(st.tuples(tth, S.ang(), S.ang(-2 * PI, 2 * PI)), 1, 11), be=beam_eta(False),
                                chi=S.num(-0.5, 0.5), rc=S.expmap(), pair=st.booleans())), n=1200,
     rule='batches of 1-11 (tth, eta[, ome]) with general beam/azimuth, chi and crystal orientation; non-trivial: >1 row '
          'or non-default frame')
def angles_to_vecs(case, ctx):
    b, e = map(np.array, case['be'])
    A = np.array(case['ang'], float)
    n = len(A)
    chi, Rc = case['chi'], ref.e2r(case['rc'])
    Rb = beam_rmat(b, e)
    if case['pair']:
        ctx.label('pairs')
        A = A[:, :2].copy()
    ctx.nt(n > 1 or chi != 0 or abs(b[2] + 1) > 1e-9); ctx.label(f'rows mod 4 = {n % 4}')
    omes = A[:, 2] if A.shape[1] == 3 else np.zeros(n)
    for f, g in ((xf.angles_to_gvec, gvec_lab), (xf.angles_to_dvec, dvec_lab)):
        want = np.array([Rc.T @ sample_rmat(chi, o).T @ g(a[0], a[1], Rb) for a, o in zip(A, omes)])
        A0 = A.copy()
        got = f(A, beam_vec=b, eta_vec=e, chi=chi, rmat_c=Rc)
        ctx.array_equal(A, A0, 'input angles untouched')
        ctx.close(got, want, atol=1e-11, msg=f.__name__)
        one = np.array([np.asarray(f(a.copy().reshape(1, -1), beam_vec=b, eta_vec=e, chi=chi, rmat_c=Rc))[0] for a in A])
        ctx.close(one, got, atol=1e-12, msg=f.__name__ + ' row by row')
        # lab frame default chain
        lab = f(A[:, :2].copy(), beam_vec=b, eta_vec=e)
        ctx.close(lab, np.array([g(a[0], a[1], Rb) for a in A]), atol=1e-11, msg=f.__name__ + ' lab frame')
        # strided / Fortran-ordered input
        F = np.asfortranarray(A)
        ctx.close(f(F, beam_vec=b, eta_vec=e, chi=chi, rmat_c=np.asfortranarray(Rc)), got, atol=1e-13, msg='memory order')
    # 1-d input of angles_to_gvec
    ctx.close(xf.angles_to_gvec(A[0].copy(), beam_vec=b, eta_vec=e, chi=chi, rmat_c=Rc),
              Rc.T @ sample_rmat(chi, omes[0]).T @ gvec_lab(A[0, 0], A[0, 1], Rb), atol=1e-11, msg='1-d input')


@sub('C04', 'rotation_builders',
     st.fixed_dictionaries(dict(be=beam_eta(False), chi=S.ang(), ome=S.batch(S.ang(-2 * PI, 2 * PI), 1, 11),
                                tilt=st.lists(S.ang(), min_size=3, max_size=3), em=S.expmap(2 * PI), ax=S.axis(),
                                s1=S.num(0.1, 20), s2=S.num(0.1, 20))), n=1200,
     rule='beam, sample, detector, binary and exponential-map matrices; batches of 1-11 omegas; non-trivial: > 1 omega')
def rotation_builders(case, ctx):
    b, e = map(np.array, case['be'])
    ctx.nt(len(case['ome']) > 1); ctx.label(f"omes mod 4 = {len(case['ome']) % 4}")
    ctx.close(xf.make_beam_rmat(b * case['s1'], e * case['s2']), beam_rmat(b, e), atol=1e-11, msg='make_beam_rmat')
    chi, ome = case['chi'], np.array(case['ome'])
    want = np.array([sample_rmat(chi, o) for o in ome])
    ctx.close(xf.make_sample_rmat(chi, ome), want, atol=1e-12, msg='make_sample_rmat array')
    ctx.close(xf.make_sample_rmat(chi, float(ome[0])), want[0], atol=1e-12, msg='make_sample_rmat scalar')
    ctx.close(xf.make_oscill_rmat([chi, ome[-1]]), want[-1], atol=1e-12, msg='make_oscill_rmat')
    ctx.close(np.reshape(xf.make_oscill_rmat_array(chi, ome), (-1, 3, 3)), want, atol=1e-12, msg='make_oscill_rmat_array')
    t = case['tilt']
    ctx.close(xf.make_detector_rmat(np.array(t)), ref.euler(t, 'xyz', True), atol=1e-12, msg='make_detector_rmat (xyz extrinsic)')
    ctx.close(xf.make_rmat_of_expmap(np.array(case['em'])), ref.e2r(case['em']), atol=1e-11, msg='make_rmat_of_expmap')
    ax = ref.unit(case['ax'])
    ctx.close(xf.make_binary_rmat(ax), ref.aa2r(PI, ax), atol=1e-12, msg='make_binary_rmat')


@sub('C04', 'vector_kernels',
     st.fixed_dictionaries(dict(v=S.batch(st.lists(S.num(-50, 50), min_size=3, max_size=3), 1, 9), a=S.ang(-2 * PI, 2 * PI),
                                zero=st.booleans(), ax=S.axis(), mode=st.sampled_from(['scalar', 'len1', 'full', 'fullaxis']),
                                seed=S.seeds, hkl=st.lists(st.integers(-5, 5), min_size=3, max_size=3), m=S.expmap())), n=1000,
     rule='unit_vector, rotate_vecs_about_axis (scalar, length-1 and per-vector angles/axes); non-trivial: > 1 vector')
def vector_kernels(case, ctx):
    V = np.array(case['v'], float)
    n = len(V)
    ctx.nt(n > 1); ctx.label(case['mode'])
    if case['zero']:
        V[0] = 0.0
        ctx.label('zero vector')
    nrm = np.linalg.norm(V, axis=1)
    ok = nrm > 1e-10
    V0 = V.copy()
    u = xf.unit_vector(V)
    ctx.array_equal(V, V0, 'input untouched')
    ctx.shape(u, V.shape, 'unit_vector')
    ctx.close(u[ok], V[ok] / nrm[ok, None], atol=1e-13, msg='unit_vector')
    ctx.true((nrm[nrm == 0] == 0).all() and np.all(u[nrm == 0] == 0), 'zero vector stays zero')
    if ok[-1]:
        ctx.close(xf.unit_vector(V[-1]), V[-1] / nrm[-1], atol=1e-13, msg='unit_vector 1-d')
    r = np.random.default_rng(case['seed'])
    mode = case['mode']
    if mode == 'scalar':
        ang = case['a']; axis = np.array(case['ax'])
    elif mode == 'len1':
        ang = np.array([case['a']]); axis = np.array(case['ax']).reshape(3, 1)
    elif mode == 'full':
        ang = r.uniform(-6, 6, n); axis = np.array(case['ax'])
    else:
        ang = r.uniform(-6, 6, n); axis = r.normal(size=(3, n)); axis[0] += 3
    got = xf.rotate_vecs_about_axis(ang, axis, V.T)
    aa = np.broadcast_to(np.ravel(ang), n) if np.size(ang) == 1 else ang
    xx = [axis[:, i] if mode == 'fullaxis' else np.ravel(axis) for i in range(n)]
    want = np.array([ref.aa2r(aa[i], xx[i]) @ V[i] for i in range(n)]).T
    ctx.close(got, want, atol=1e-10, msg='rotate_vecs_about_axis')
    if any(case['hkl']):
        B = ref.e2r(case['m']) @ np.array([[0.4, 0.1, 0], [0, 0.5, -0.1], [0, 0, 0.6]])
        H = np.array([case['hkl'], [1, 0, 0], [1, 1, -2]], float).T
        g = xf.makeGVector(H, B)
        w = B @ H
        # documented: (3, n) in, (3, n) unit reciprocal vectors out
        ctx.shape(g, (3, 3), 'makeGVector')
        ctx.close(g, w / np.linalg.norm(w, axis=0), atol=1e-12, msg='makeGVector')


@sub('C04', 'quat_distance',
     st.fixed_dictionaries(dict(tag=st.sampled_from(ref.LAUE_TAGS), q1=S.quat(), q2=S.quat(), k=st.integers(0, 23),
                                near=st.booleans())), n=1200,
     rule='symmetry-reduced quaternion distance vs brute force, incl. (near-)identical orientations; non-trivial: order > 1')
def quat_distance(case, ctx):
    tag = case['tag']
    G = ref.laue_group(tag)
    qs = rot.quatOfLaueGroup(tag)
    ctx.nt(len(G) > 1)
    q1 = np.array(case['q1'])
    q2 = np.array(case['q2'])
    if case['near']:
        q2 = ref.qmul(q1, qs[:, case['k'] % len(G)])
        ctx.label('equivalent')
    R1, R2 = ref.q2r(q1), ref.q2r(q2)
    want = min(ref.rangle(R1.T @ R2 @ g) for g in G)
    d = xf.quat_distance(q1, q2, qs)
    ctx.close(d, want, atol=3e-7, msg='quat_distance')
    ctx.close(xf.quat_distance(q2, q1, qs), want, atol=3e-7, msg='symmetric')
    ctx.close(rot.misorientation(q1.reshape(4, 1), q2.reshape(4, 1), (qs,))[0][0], d, atol=3e-7, msg='agrees with misorientation')


@sub('C03', 'validate_angle_ranges',
     st.fixed_dictionaries(dict(a=st.lists(S.ang(-4 * PI, 4 * PI), min_size=1, max_size=8), ccw=st.booleans(),
                                r=st.lists(st.tuples(S.ang(-2 * PI, 2 * PI), st.one_of(S.num(0.001, 1.5), S.num(0.001, 1.5), S.num(0.001, 6.28), st.just(2 * PI))),
                                           min_size=1, max_size=3))), n=2000,
     rule='up to 8 angles against up to 4 ranges, wrapping and full-circle, both senses; non-trivial: some in, some out')
def validate_angle_ranges(case, ctx):
    a = np.array(case['a'])
    s = np.array([x[0] for x in case['r']]); w = np.array([x[1] for x in case['r']])
    e = s + w if case['ccw'] else s - w
    got = xf.validate_angle_ranges(a.copy(), s.copy(), e.copy(), ccw=case['ccw'])
    ctx.shape(got, a.shape, 'validate_angle_ranges')
    any_in = any_out = False
    for i, x in enumerate(a):
        inside, sure = False, True
        for j in range(len(s)):
            if abs(w[j] - 2 * PI) < 1e-9:
                inside = True
                sure_in = True
                break
            t = (x - s[j]) if case['ccw'] else (s[j] - x)
            t = t % (2 * PI)
            lo = min(t, 2 * PI - t)                   # distance to start
            hi = abs(t - w[j])
            if t < w[j] and lo > 1e-7 and hi > 1e-7:
                inside = True
                break
            if lo <= 1e-7 or hi <= 1e-7 or 2 * PI - hi <= 1e-7:
                sure = False
        if inside:
            any_in = True
            ctx.true(bool(got[i]), 'angle inside a range is accepted', angle=x)
        elif sure:
            any_out = True
            ctx.true(not bool(got[i]), 'angle outside all ranges is rejected', angle=x)
    ctx.nt(any_in and any_out)
    # periodic in the angle
    far = np.array([min(abs(((x - y + PI) % (2 * PI)) - PI) for y in np.r_[s, e]) for x in a]) > 1e-6
    g2 = xf.validate_angle_ranges(a + 2 * PI, s, e, ccw=case['ccw'])
    ctx.array_equal(np.asarray(g2)[far], np.asarray(got)[far], 'periodic in 2 pi')


# ------------------------------------------------------------------ C05
def cell():
    lens = st.lists(S.num(2, 12), min_size=3, max_size=3)
    angs = st.one_of(st.just([90.0, 90.0, 90.0]), st.just([90.0, 90.0, 120.0]),
                     st.lists(S.num(75, 105), min_size=3, max_size=3))
    return st.tuples(lens, angs)


def bmat_of(c):
    """Columns = reciprocal vectors (no 2 pi) with a* || x, c in the usual setting."""
    (a, b, c_), (al, be, ga) = c
    al, be, ga = np.radians([al, be, ga])
    ca, cb, cg, sg = np.cos(al), np.cos(be), np.cos(ga), np.sin(ga)
    A = np.array([[a, b * cg, c_ * cb], [0, b * sg, c_ * (ca - cb * cg) / sg],
                  [0, 0, c_ * np.sqrt(1 - ca * ca - cb * cb - cg * cg + 2 * ca * cb * cg) / sg]])
    return np.linalg.inv(A).T


@sub('C05', 'oscillation_solutions',
     st.fixed_dictionaries(dict(hkl=st.lists(st.lists(st.integers(-6, 6), min_size=3, max_size=3).filter(lambda v: any(v)),
                                             min_size=1, max_size=10), chi=S.num(-0.3, 0.3), rc=S.expmap(), cell=cell(),
                                wl=S.num(0.1, 1.2), be=beam_eta(), strain=st.one_of(st.none(), st.lists(S.num(-0.02, 0.02), min_size=6, max_size=6)))),
     n=1500, rule='1-10 reflections, general cell, orientation, chi, wavelength, beam and stretch; non-trivial: at least one '
                  'reflection with two solutions')
def oscillation_solutions(case, ctx):
    H = np.array(case['hkl'], float)
    chi, Rc, wl = case['chi'], ref.e2r(case['rc']), case['wl']
    B = bmat_of(case['cell'])
    b, e = map(np.array, case['be'])
    Rb = beam_rmat(b, e)
    if case['strain'] is None:
        vinv, Vi = None, np.eye(3)
    else:
        s = np.array(case['strain'])
        vinv = np.r_[1, 1, 1, 0, 0, 0] + s
        r2 = np.sqrt(2)
        Vi = np.array([[vinv[0], vinv[5] / r2, vinv[4] / r2], [vinv[5] / r2, vinv[1], vinv[3] / r2],
                       [vinv[4] / r2, vinv[3] / r2, vinv[2]]])
        ctx.label('strained')
    o0, o1 = xf.oscill_angles_of_hkls(H.copy(), chi, Rc, B, wl, v_inv=vinv, beam_vec=b, eta_vec=e)
    ctx.shape(o0, H.shape, 'first solutions'); ctx.shape(o1, H.shape, 'second solutions')
    two = False
    ca, sa = np.cos(chi), np.sin(chi)
    for i, h in enumerate(H):
        gs = Vi @ Rc @ B @ h
        k = np.linalg.norm(gs)
        sinth = 0.5 * wl * k
        gs = gs / k
        # f(ome) = b.(Rs gs) + sin(theta) = P cos(ome) + Q sin(ome) + T
        f = lambda o: b @ (sample_rmat(chi, o) @ gs) + sinth
        T = 0.5 * (f(0) + f(PI)); P = f(0) - T; Q = f(PI / 2) - T
        M = np.hypot(P, Q)
        if M < 1e-6 or abs(abs(T) - M) < 1e-7 * max(M, 1) or abs(sinth - 1) < 1e-9:
            ctx.label('degenerate'); continue
        feasible = abs(T) < M and sinth < 1
        sols = [o0[i], o1[i]]
        if abs(T) > M:
            ctx.true(np.isnan(sols).all(), 'reflection that cannot meet the Bragg condition is NaN', hkl=h, got=sols)
            ctx.label('none')
            continue
        if sinth >= 1:
            continue
        two = True
        ctx.label('two solutions')
        ph = np.arctan2(Q, P)
        base = np.arccos(np.clip(-T / M, -1, 1))
        want = sorted([(ph + base) % (2 * PI), (ph - base) % (2 * PI)])
        got = sorted([sols[0][2] % (2 * PI), sols[1][2] % (2 * PI)])
        dd = lambda a, b_: np.abs((np.array(a) - np.array(b_) + PI) % (2 * PI) - PI).max()
        # error amplification near tangency: d(ome) ~ d(rhs)/sqrt(1-rhs^2)
        amp = 1e-11 / np.sqrt(max(1e-16, 1 - (T / M) ** 2)) / M + 1e-10
        ctx.true(min(dd(got, want), dd(got[::-1], want)) < amp, 'both oscillation angles', got=got, want=want, hkl=h)
        for t, eta, ome in sols:
            ctx.close(t, 2 * np.arcsin(sinth), atol=1e-9 + 1e-14 / np.sqrt(1 - sinth ** 2), msg='Bragg angle')
            gl = sample_rmat(chi, ome) @ gs
            ctx.close(b @ gl, -sinth, atol=1e-9, msg='Bragg condition')
            ge = Rb.T @ gl
            if np.hypot(ge[0], ge[1]) > 1e-5:
                ctx.close(np.exp(1j * eta), (ge[0] + 1j * ge[1]) / np.hypot(ge[0], ge[1]), atol=1e-9, msg='azimuth')
        # consistency with the angle -> G-vector map: crystal-frame unit vector
        gc = xf.angles_to_gvec(np.array(sols), beam_vec=b, eta_vec=e, chi=chi, rmat_c=Rc)
        for q in gc:
            ctx.close(q, Rc.T @ gs, atol=1e-7, msg='angles_to_gvec inverts oscill_angles_of_hkls')
    ctx.nt(two)


# ------------------------------------------------------------------ C06
geom = st.fixed_dictionaries(dict(
    tilt=st.lists(S.num(-0.6, 0.6), min_size=3, max_size=3), td=st.tuples(S.num(-300, 300), S.num(-300, 300), S.num(-2000, -200)),
    ts=st.lists(S.num(-5, 5), min_size=3, max_size=3), tc=st.lists(S.num(-2, 2), min_size=3, max_size=3),
    chi=S.num(-0.2, 0.2), rc=S.expmap(), be=beam_eta()))


def ref_project(g, Rd, Rs, Rc, td, ts, tc, b):
    """None if undefined for this G-vector, 'edge' if too close to a threshold."""
    gl = Rs @ Rc @ g
    d = b - 2 * (b @ gl) * gl
    n = Rd[:, 2]
    P0 = ts + Rs @ tc
    den = n @ d
    num = n @ (td - P0)
    if abs(den) < 1e-6 or abs(num) < 1e-6:
        return 'edge'
    u = num / den
    if u < 0:
        return None
    p = P0 + u * d - td
    return np.array([Rd[:, 0] @ p, Rd[:, 1] @ p]), u, den


@sub('C06', 'gvec_to_xy',
     st.fixed_dictionaries(dict(g=geom, ang=st.lists(st.tuples(S.num(0.01, 2.6), S.ang(), S.ang()), min_size=1, max_size=9),
                                many=st.booleans(), flip=st.booleans())), n=1500,
     rule='1-9 diffracting G-vectors, tilted detector, offset sample and crystal, single and per-vector sample rotation; '
          'non-trivial: at least one hits the detector')
def gvec_to_xy(case, ctx):
    g = case['g']
    Rd = ref.euler(g['tilt'], 'xyz', True); Rc = ref.e2r(g['rc'])
    td, ts, tc = (np.array(g[k], float) for k in ('td', 'ts', 'tc'))
    b, e = map(np.array, g['be'])
    Rb = beam_rmat(b, e)
    A = np.array(case['ang'], float)
    if not case['many']:
        A[:, 2] = A[0, 2]
    Rss = np.array([sample_rmat(g['chi'], o) for o in A[:, 2]])
    gc = np.array([Rc.T @ R.T @ gvec_lab(a[0], a[1], Rb) for a, R in zip(A, Rss)])
    rs = Rss if case['many'] else Rss[0]
    ctx.label('per-vector rotation' if case['many'] else 'single rotation')
    xy = xf.gvec_to_xy(gc.copy(), Rd, rs, Rc, td, ts, tc, beam_vec=b)
    ctx.shape(xy, (len(A), 2), 'shape')
    hit = []
    from hexrd.core.extensions import transforms as cpp
    alt = cpp.gvecToDetectorXYFromAngles(g['chi'], A[:, 2].copy(), gc, Rd, Rc, td, ts, tc, b)
    alt2 = cpp.gvecToDetectorXY(gc, Rd, Rss.reshape(-1, 3), Rc, td, ts, tc, b)
    alt3 = cpp.anglesToDetectorXY(g['chi'], A, Rd, Rc, td, ts, tc, b) if abs(b[2] + 1) < 1e-12 and abs(e[0] - 1) < 1e-12 else None
    for i in range(len(A)):
        r = ref_project(gc[i], Rd, Rss[i], Rc, td, ts, tc, b)
        if isinstance(r, str):
            continue
        if r is None:
            ctx.true(np.isnan(xy[i]).all(), 'diffracted ray moving away from the detector gives NaN', got=xy[i])
            ctx.label('miss')
            continue
        p, u, den = r
        tol = 1e-9 * (1 + u) / min(1, abs(den)) ** 2 + 1e-9
        ctx.close(xy[i], p, atol=tol, msg='projected point')
        hit.append(i)
        if den < -1e-6:
            for k, al in enumerate((alt, alt2, alt3)):
                if al is not None:
                    ctx.close(al[i], p, atol=tol * 10, msg=f'C++ projection {k} agrees')
    ctx.nt(bool(hit))
    if len(A) > 0 and not case['many']:
        one = xf.gvec_to_xy(gc[0], Rd, rs, Rc, td, ts, tc, beam_vec=b)
        ctx.close(one, xy[0], atol=1e-9, msg='1-d input', nan=True)
    # back to angles: origin of the diffraction is the crystal position
    if hit:
        ctx.label('round trip')
        for i in hit[:3]:
            if np.abs(xy[i]).max() > 1e5 or A[i, 0] < 0.02:
                continue
            (t, eta), gl = xf.xy_to_gvec(xy[i:i + 1], Rd, Rss[i], td, ts, tc, rmat_b=Rb)
            # det. point may lie on the far side of the panel plane only if u>0, so angles must return
            ctx.close(t[0], A[i, 0], atol=1e-6, msg='two-theta round trip')
            ctx.close(np.exp(1j * eta[0]), np.exp(1j * A[i, 1]), atol=1e-5, msg='eta round trip')
            ctx.close(gl[0], gvec_lab(A[i, 0], A[i, 1], Rb), atol=1e-5, msg='lab G-vector round trip')


@sub('C06', 'xy_to_gvec',
     st.fixed_dictionaries(dict(g=geom, xy=st.lists(st.tuples(S.num(-400, 400), S.num(-400, 400)), min_size=1, max_size=9))),
     n=1500, rule='1-9 detector points, general geometry; non-trivial: a point with tth > 0.001')
def xy_to_gvec(case, ctx):
    g = case['g']
    Rd = ref.euler(g['tilt'], 'xyz', True)
    td, ts, tc = (np.array(g[k], float) for k in ('td', 'ts', 'tc'))
    b, e = map(np.array, g['be'])
    Rb = beam_rmat(b, e)
    Rs = sample_rmat(g['chi'], 0.3)
    xy = np.array(case['xy'], float)
    (t, eta), gl = xf.xy_to_gvec(xy.copy(), Rd, Rs, td, ts, tc, rmat_b=Rb)
    ctx.shape(t, (len(xy),), 'tth'); ctx.shape(eta, (len(xy),), 'eta'); ctx.shape(gl, (len(xy), 3), 'gvec')
    for i, p in enumerate(xy):
        d = ref.unit(Rd[:, :2] @ p + td - ts - Rs @ tc)
        want = np.arctan2(np.linalg.norm(np.cross(b, d)), b @ d)
        if want < 1e-3:
            continue
        ctx.nt()
        ctx.close(t[i], want, atol=1e-9, msg='tth')
        de = Rb.T @ d
        ctx.close(np.exp(1j * eta[i]), (de[0] + 1j * de[1]) / np.hypot(de[0], de[1]), atol=1e-9, msg='eta')
        ctx.close(gl[i], ref.unit(d - b), atol=1e-8, msg='G-vector bisects incident and diffracted rays')
    # consistent with the crystal-frame direction convention
    back = xf.angles_to_gvec(np.c_[t, eta], beam_vec=b, eta_vec=e)
    m = t > 1e-3
    ctx.close(back[m], gl[m], atol=1e-8, msg='angles_to_gvec agrees')
