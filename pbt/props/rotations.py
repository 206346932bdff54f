"""C01 rotation representations, C02 symmetry-reduced orientations, C03 angle utilities."""
import math

import numpy as np
from hypothesis import strategies as st

from hexrd.core import rotations as rot
from pbt import ref
from pbt.core import sub
from pbt import strat as S

PI = math.pi
AXES = ['xyz', 'zyx', 'zxy', 'yxz', 'yzx', 'xzy', 'xyx', 'xzx', 'yxy', 'yzy', 'zxz', 'zyz']


def cols(q):
    """(4,n) whatever the squeeze conventions."""
    q = np.asarray(q)
    return q.reshape(q.shape[0], -1)


def same_rot(ctx, q, Rs, msg, atol=1e-9):
    q = cols(q)
    ctx.shape(q, (4, len(Rs)), msg)
    for i, R in enumerate(Rs):
        ctx.close(np.linalg.norm(q[:, i]), 1.0, atol=1e-9, msg=msg + ' (unit norm)')
        ctx.true(q[0, i] >= -1e-12, msg + ' (nonnegative scalar part)', q=q[:, i])
        ctx.close(ref.q2r(q[:, i]), R, atol=atol, msg=msg)


@sub('C01', 'expmap_conversions', st.lists(S.expmap(2 * PI), min_size=1, max_size=6), n=1200,
     rule='batches of 1-6 exponential maps incl. 0, 180 and 360 degrees; non-trivial: any angle > 1e-6')
def expmap_conversions(case, ctx):
    E = np.array(case, float).T          # (3, n)
    n = E.shape[1]
    Rs = [ref.e2r(E[:, i]) for i in range(n)]
    ctx.nt(np.linalg.norm(E, axis=0).max() > 1e-6)
    q = rot.quatOfExpMap(E if n > 1 else E[:, 0])
    ctx.shape(q, (4, n) if n > 1 else (4,), 'quatOfExpMap')
    same_rot(ctx, q, Rs, 'quatOfExpMap')
    R = rot.rotMatOfExpMap(E)
    ctx.close(np.reshape(R, (n, 3, 3)), np.array(Rs), atol=1e-9, msg='rotMatOfExpMap')
    # back: same rotation, angle <= pi
    e2 = rot.expMapOfQuat(cols(q) if n > 1 else np.ravel(q)).reshape(3, n)
    for i in range(n):
        ctx.true(np.linalg.norm(e2[:, i]) <= PI + 1e-9, 'expMapOfQuat angle range')
        ctx.close(ref.e2r(e2[:, i]), Rs[i], atol=1e-8, msg='expMapOfQuat')
        if np.linalg.norm(E[:, i]) < PI - 1e-6:
            ctx.close(e2[:, i], E[:, i], atol=1e-8, msg='expmap->quat->expmap')
    # angle / axis
    angs, axes = rot.angleAxisOfRotMat(np.array(Rs))
    ctx.shape(angs, (n,), 'angleAxisOfRotMat angle'); ctx.shape(axes, (3, n), 'angleAxisOfRotMat axis')
    for i in range(n):
        ctx.close(angs[i], ref.rangle(Rs[i]), atol=1e-7, msg='angleAxisOfRotMat angle')
        if angs[i] > 1e-7:
            ctx.close(ref.aa2r(angs[i], axes[:, i]), Rs[i], atol=1e-7, msg='angleAxisOfRotMat')
    a1, x1 = rot.angleAxisOfRotMat(Rs[0])
    ctx.close(a1, angs[:1], atol=1e-12, msg='single matrix angle')


@sub('C01', 'quat_conversions', S.batch(S.quat()), n=1200,
     rule='batches of 1-9 unit quaternions incl. exact 180 degree rotations; non-trivial: any non-identity')
def quat_conversions(case, ctx):
    Q = np.array(case, float).T
    n = Q.shape[1]
    Rs = [ref.q2r(Q[:, i]) for i in range(n)]
    ctx.nt(np.abs(Q[0]).min() < 1 - 1e-9)
    if np.any(Q[0] == 0):
        ctx.label('exact 180')
    R = rot.rotMatOfQuat(Q.copy())
    ctx.shape(R, (n, 3, 3) if n > 1 else (3, 3), 'rotMatOfQuat')
    ctx.close(np.reshape(R, (n, 3, 3)), np.array(Rs), atol=1e-10, msg='rotMatOfQuat')
    same_rot(ctx, rot.quatOfRotMat(np.array(Rs)), Rs, 'quatOfRotMat', 1e-7)
    same_rot(ctx, rot.quatOfRotMat(Rs[0]), Rs[:1], 'quatOfRotMat (single)', 1e-7)
    inv = rot.invertQuat(Q.copy())
    same_rot(ctx, inv, [r.T for r in Rs], 'invertQuat')
    fx = rot.fixQuat(-3.5 * Q)
    same_rot(ctx, fx, Rs, 'fixQuat')
    for i in range(n):
        same_rot(ctx, rot.quatOfExpMap(rot.expMapOfQuat(Q[:, i].copy())), [Rs[i]], 'quat->expmap->quat', 1e-7)


@sub('C01', 'angle_axis', st.lists(st.tuples(S.ang(-2 * PI, 2 * PI), S.axis()), min_size=1, max_size=6), n=800,
     rule='1-6 angle/axis pairs (axes unnormalised, angles to +-360); non-trivial: |angle| > 1e-6')
def angle_axis(case, ctx):
    a = np.array([c[0] for c in case], float)
    x = np.array([c[1] for c in case], float).T
    ctx.nt(np.abs(a).max() > 1e-6)
    Rs = [ref.aa2r(a[i], x[:, i]) for i in range(len(a))]
    same_rot(ctx, rot.quatOfAngleAxis(a, x.copy()), Rs, 'quatOfAngleAxis')
    # one axis, several angles
    same_rot(ctx, rot.quatOfAngleAxis(a, x[:, :1].copy()), [ref.aa2r(t, x[:, 0]) for t in a],
             'quatOfAngleAxis shared axis')


@sub('C01', 'quat_product', S.batch(st.tuples(S.quat(), S.quat())), n=1200,
     rule='pairs of quaternions, incl. products that are exact half turns; non-trivial: neither factor identity')
def quat_product(case, ctx):
    A = np.array([c[0] for c in case], float).T
    B = np.array([c[1] for c in case], float).T
    n = A.shape[1]
    ctx.nt(min(A[0].min(), B[0].min()) < 1 - 1e-9)
    RA = [ref.q2r(A[:, i]) for i in range(n)]
    RB = [ref.q2r(B[:, i]) for i in range(n)]
    # documented: qp = quatProduct(q1, q2)  =>  R(qp) = R(q2) R(q1)
    qp = rot.quatProduct(A.copy(), B.copy())
    if any(abs(np.trace(y @ x) + 1) < 1e-12 for x, y in zip(RA, RB)):
        ctx.label('product is a half turn')
    same_rot(ctx, qp, [y @ x for x, y in zip(RA, RB)], 'quatProduct')
    # quatProductMatrix: q*h = M(h,'right') q = M(q,'left') h  (Hamilton product)
    ML = rot.quatProductMatrix(A.copy(), mult='left')
    MR = rot.quatProductMatrix(B.copy(), mult='right')
    ctx.shape(ML, (n, 4, 4), 'quatProductMatrix')
    for i in range(n):
        h = ref.qmul(A[:, i], B[:, i])
        ctx.close(ML[i] @ B[:, i], h, atol=1e-12, msg='quatProductMatrix left')
        ctx.close(MR[i] @ A[:, i], h, atol=1e-12, msg='quatProductMatrix right')
    ident = rot.quatProduct(A.copy(), rot.invertQuat(A.copy()))
    same_rot(ctx, ident, [np.eye(3)] * n, 'q * q^-1')


def euler_ok(order, angs):
    return True


@sub('C01', 'euler', st.fixed_dictionaries(dict(order=st.sampled_from(AXES), extrinsic=st.booleans(),
                                                angles=st.lists(S.ang(), min_size=3, max_size=3))), n=1200,
     rule='12 axis orders x intrinsic/extrinsic x angles incl. gimbal lock; non-trivial: two nonzero angles')
def euler(case, ctx):
    o, ext, a = case['order'], case['extrinsic'], case['angles']
    ctx.nt(sum(abs(x) > 1e-6 for x in a) >= 2)
    R = ref.euler(a, o, ext)
    ctx.close(rot.make_rmat_euler(a, o, extrinsic=ext), R, atol=1e-12, msg='make_rmat_euler')
    ctx.close(rot.make_rmat_euler(np.array(a), o.upper(), extrinsic=ext), R, atol=1e-12, msg='upper-case order')
    t = rot.angles_from_rmat_xyz(R)
    ctx.close(ref.euler(t, 'xyz', True), R, atol=1e-6, msg='angles_from_rmat_xyz')
    t = rot.angles_from_rmat_zxz(R)
    ctx.close(ref.euler(t, 'zxz', False), R, atol=1e-6, msg='angles_from_rmat_zxz')


_euler_op = st.one_of(
    st.tuples(st.just('angles'), st.lists(S.ang(), min_size=3, max_size=3)),
    st.tuples(st.just('order'), st.sampled_from(AXES)),
    st.tuples(st.just('extrinsic'), st.booleans()),
    st.tuples(st.just('units'), st.sampled_from(['degrees', 'radians'])),
    st.tuples(st.just('rmat'), S.expmap()),
    st.tuples(st.just('expmap'), S.expmap()))


@sub('C01', 'euler_object_history',
     st.fixed_dictionaries(dict(order=st.sampled_from(AXES), extrinsic=st.booleans(),
                                units=st.sampled_from(['degrees', 'radians']), kind=st.sampled_from(['list', 'array']),
                                angles=st.lists(S.ang(), min_size=3, max_size=3),
                                ops=st.lists(_euler_op, max_size=8))), n=1000,
     rule='histories of property assignments on a RotMatEuler vs a model holding (angles, order, convention); '
          'non-trivial: >= 2 operations incl. a units change or a matrix assignment')
def euler_object_history(case, ctx):
    D = 180 / PI
    deg = case['units'] == 'degrees'
    a0 = [x * D for x in case['angles']] if deg else list(case['angles'])
    if case['kind'] == 'array':
        a0 = np.array(a0)
    obj = rot.RotMatEuler(a0, case['order'], extrinsic=case['extrinsic'], units=case['units'])
    ctx.label('kind ' + case['kind'])
    m = dict(angles=np.array(case['angles'], float), order=case['order'], ext=case['extrinsic'], units=case['units'])

    def check(tag):
        R = ref.euler(m['angles'], m['order'], m['ext'])
        ctx.close(obj.rmat, R, atol=2e-6 if m.get('loose') else 1e-9, msg=f'rmat after {tag}')
        ctx.equal(obj.units, m['units'], f'units after {tag}')
        ctx.close(ref.e2r(obj.exponential_map), R, atol=2e-6, msg=f'exponential_map after {tag}')
        ang = np.asarray(obj.angles, float)
        if m['units'] == 'degrees':
            ang = ang / D
        ctx.close(ref.euler(ang, m['order'], m['ext']), R, atol=2e-6, msg=f'angles reproduce rmat after {tag}')
        return ang
    check('construction')
    ops = case['ops']
    ctx.nt(len(ops) >= 2 and any(o[0] in ('units', 'rmat', 'expmap') for o in ops))
    for o, v in ops:
        if o == 'angles':
            obj.angles = np.array(v) * (D if m['units'] == 'degrees' else 1)
            m['angles'] = np.array(v)
            m['loose'] = False
        elif o == 'order':
            obj.axes_order = v
            m['order'] = v
        elif o == 'extrinsic':
            obj.extrinsic = v
            m['ext'] = v
        elif o == 'units':
            obj.units = v
            m['units'] = v
        else:
            R = ref.e2r(v)
            if o == 'rmat':
                obj.rmat = R
            else:
                obj.exponential_map = v
            ang = np.asarray(obj.angles, float) / (D if m['units'] == 'degrees' else 1)
            ctx.close(ref.euler(ang, m['order'], m['ext']), R, atol=2e-6, msg=f'{o} assignment')
            m['angles'] = ang
        check(o)


# ------------------------------------------------------------------- C02
def qsym_rmats(tag):
    return ref.laue_group(tag)


@sub('C02', 'laue_groups', st.tuples(st.sampled_from(ref.LAUE_TAGS), st.booleans()), n=120,
     rule='every Laue tag (either case); non-trivial: group of order > 1')
def laue_groups(case, ctx):
    tag, up = case
    G = ref.laue_group(tag)
    ctx.nt(len(G) > 1)
    q = rot.quatOfLaueGroup(tag.upper() if up else tag)
    ctx.shape(q, (4, len(G)), 'group order')
    R = [ref.q2r(q[:, i]) for i in range(q.shape[1])]
    for g in G:
        ctx.equal(sum(np.allclose(g, r, atol=1e-6) for r in R), 1, f'{tag}: each operation exactly once')
    ctx.true((q[0] >= 0).all(), 'nonnegative scalar part')
    lt = rot.ltypeOfLaueGroup(tag)
    fam = {1: ['triclinic'], 2: ['monoclinic']}
    want = dict(ci='triclinic', s2='triclinic', c2h='monoclinic', d2h='orthorhombic', vh='orthorhombic',
                c4h='tetragonal', d4h='tetragonal', c3i='trigonal', s6='trigonal', d3d='trigonal',
                c6h='hexagonal', d6h='hexagonal', th='cubic', oh='cubic')[tag]
    ctx.equal(lt, want, 'lattice type')


def min_mis(R1, R2, G, Gs=None):
    Gs = [np.eye(3)] if Gs is None else Gs
    return min(ref.rangle(R1.T @ s @ R2 @ g) for g in G for s in Gs)


@sub('C02', 'misorientation',
     st.fixed_dictionaries(dict(tag=st.sampled_from(ref.LAUE_TAGS), stag=st.sampled_from([None, None, 'c2h', 'd2h', 'c4h']),
                                q1=S.quat(), q2=st.lists(S.quat(), min_size=1, max_size=5),
                                i=st.integers(0, 23), j=st.integers(0, 23))), n=900,
     rule='reference orientation, 1-5 others, crystal (and sample) symmetry; non-trivial: group order > 1')
def misorientation(case, ctx):
    tag = case['tag']
    G = ref.laue_group(tag)
    qs = rot.quatOfLaueGroup(tag)
    q1 = np.array(case['q1'], float).reshape(4, 1)
    q2 = np.array(case['q2'], float).T
    n = q2.shape[1]
    ctx.nt(len(G) > 1)
    R1 = ref.q2r(q1[:, 0])
    sym = (qs,)
    Gs = None
    if case['stag']:
        ctx.label('sample symmetry')
        Gs = ref.laue_group(case['stag'])
        sym = (qs, rot.quatOfLaueGroup(case['stag']))
    ang, mis = rot.misorientation(q1.copy(), q2.copy(), sym)
    ctx.shape(ang, (n,), 'angle')
    ctx.shape(mis, (4, n), 'misorientation quaternions, one per orientation')
    for k in range(n):
        R2 = ref.q2r(q2[:, k])
        # 2*acos is accurate to ~sqrt(eps) near zero
        ctx.close(ang[k], min_mis(R1, R2, G, Gs), atol=2e-7, msg='smallest equivalent angle')
        Rm = ref.q2r(mis[:, k])
        ctx.close(ref.rangle(Rm), ang[k], atol=2e-7, msg='angle of returned quaternion')
        cand = [s @ R2 @ g @ R1.T for g in G for s in (Gs or [np.eye(3)])]
        ctx.true(any(np.allclose(Rm, c, atol=1e-7) for c in cand), 'returned quaternion is an equivalent misorientation')
    if Gs is None:
        # invariance of the angle under symmetry of either argument and exchange
        g1 = rot.quatProductMatrix(qs[:, [case['i'] % len(G)]], 'right')[0]
        g2 = rot.quatProductMatrix(qs[:, [case['j'] % len(G)]], 'right')[0]
        a2, _ = rot.misorientation(g1 @ q1, g2 @ q2, sym)
        ctx.close(a2, ang, atol=5e-7, msg='invariant under symmetric equivalents')
        a3, _ = rot.misorientation(q2[:, :1].copy(), q1.copy(), sym)
        ctx.close(a3[0], ang[0], atol=5e-7, msg='symmetric in its arguments')
        if n > 1:
            a4, _ = rot.misorientation(q2[:, :1].copy(), q2[:, 1:].copy(), sym)
            for k in range(n - 1):
                ctx.true(a4[k] <= ang[0] + ang[k + 1] + 1e-6, 'triangle inequality')
    if not case['stag']:
        a5, m5 = rot.misorientation(q1.copy(), q2.copy())
        ctx.close(a5, [min_mis(R1, ref.q2r(q2[:, k]), [np.eye(3)]) for k in range(n)], atol=2e-7, msg='no symmetry')


@sub('C02', 'fundamental_region',
     st.fixed_dictionaries(dict(tag=st.sampled_from(ref.LAUE_TAGS), q=st.lists(S.quat(), min_size=1, max_size=6),
                                j=st.integers(0, 23), three=st.booleans())), n=900,
     rule='orientations reduced under each Laue group, 2-d and 3-d arrays; non-trivial: group order > 1')
def fundamental_region(case, ctx):
    tag = case['tag']
    G = ref.laue_group(tag)
    Q = np.array(case['q'], float).T
    n = Q.shape[1]
    ctx.nt(len(G) > 1)
    fr = rot.toFundamentalRegion(Q.copy(), crysSym=tag)
    ctx.shape(fr, (4, n), 'shape')
    qs = rot.quatOfLaueGroup(tag)
    ctx.close(rot.toFundamentalRegion(Q.copy(), crysSym=qs), fr, atol=1e-12, msg='symmetry by name or by quaternions')
    for k in range(n):
        R = ref.q2r(Q[:, k]); F = ref.q2r(fr[:, k])
        ctx.close(np.linalg.norm(fr[:, k]), 1.0, atol=1e-10, msg='unit norm')
        ctx.true(fr[0, k] >= 0, 'positive scalar')
        ctx.true(any(np.allclose(F, R @ g, atol=1e-8) for g in G), 'result is crystal-symmetry equivalent (right action)')
        ctx.close(ref.rangle(F), min(ref.rangle(R @ g) for g in G), atol=2e-7, msg='closest to the origin')
    again = rot.toFundamentalRegion(fr.copy(), crysSym=tag)
    ctx.close(again[0], fr[0], atol=1e-10, msg='idempotent (angle)')
    # equivalents map to the same angle
    g = rot.quatProductMatrix(qs[:, [case['j'] % len(G)]], 'right')[0]
    other = rot.toFundamentalRegion(g @ Q, crysSym=tag)
    ctx.close(other[0], fr[0], atol=1e-9, msg='equivalents reduce to the same angle')
    if case['three']:
        ctx.label('3-d input')
        T = np.stack([Q, g @ Q])      # (2, 4, n)
        fr3 = rot.toFundamentalRegion(T, crysSym=tag)
        ctx.shape(fr3, (2, 4, n), '3-d shape')
        ctx.close(fr3[0], fr, atol=1e-12, msg='3-d input, first slab')
        ctx.close(fr3[1], other, atol=1e-12, msg='3-d input, second slab')
        fx = rot.fixQuat(-2 * T)
        ctx.shape(fx, T.shape, 'fixQuat 3-d')
        for a in range(2):
            for k in range(n):
                ctx.close(ref.q2r(fx[a][:, k]), ref.q2r(T[a][:, k]), atol=1e-9, msg='fixQuat 3-d')


def brute_orbit(v, G, cs):
    out = []
    for g in G:
        for s in ((1, -1) if cs else (1,)):
            w = s * (g @ v)
            if not any(np.allclose(w, o, atol=1e-6) for o in out):
                out.append(w)
    return out


@sub('C02', 'orbits_and_fibers',
     st.fixed_dictionaries(dict(tag=st.sampled_from(ref.LAUE_TAGS), cs=st.booleans(), pm=st.booleans(),
                                v=S.axis(), s=S.axis(), q=st.lists(S.quat(), min_size=1, max_size=4),
                                ndiv=st.integers(4, 40), anti=st.integers(0, 9))), n=700,
     rule='vector orbits, distance of orientations to a fiber c||s and sampled fibers; non-trivial: order > 1')
def orbits_and_fibers(case, ctx):
    tag = case['tag']
    G = ref.laue_group(tag)
    qs = rot.quatOfLaueGroup(tag)
    ctx.nt(len(G) > 1)
    v = ref.unit(case['v']); s = ref.unit(case['s'])
    if case['anti'] == 0:
        s = -v
        ctx.label('antiparallel')
    orb = brute_orbit(v, G, case['cs'])
    got = rot.applySym(v.reshape(3, 1), qs, csFlag=case['cs'], cullPM=False)
    # near-degenerate orbits (images almost coincide) have no unique culling
    d = [np.linalg.norm(a - b) for i, a in enumerate(orb) for b in orb[:i]]
    full = [w * sg for sg in ((1, -1) if case['cs'] else (1,)) for w in [g @ v for g in G]]
    dd = [np.linalg.norm(a - b) for i, a in enumerate(full) for b in full[:i]]
    clean = all(x > 1e-3 or x < 1e-12 for x in dd) and all(
        np.linalg.norm(a + b) > 1e-3 or np.linalg.norm(a + b) < 1e-12 for i, a in enumerate(full) for b in full[:i])
    if clean:
        ctx.label('clean orbit')
        ctx.shape(got, (3, len(orb)), 'orbit size')
        for o in orb:
            ctx.equal(sum(np.allclose(o, got[:, k], atol=1e-6) for k in range(got.shape[1])), 1, 'orbit member exactly once')
        if case['pm']:
            g2 = rot.applySym(v.reshape(3, 1), qs, csFlag=case['cs'], cullPM=True)
            for o in orb:
                ctx.equal(sum(np.allclose(o, g2[:, k], atol=1e-6) or np.allclose(-o, g2[:, k], atol=1e-6)
                              for k in range(g2.shape[1])), 1, 'one of each +- pair')
    Q = np.array(case['q'], float).T
    n = Q.shape[1]
    dist = np.atleast_1d(rot.distanceToFiber(v.reshape(3, 1), s, Q.copy(), qs, centrosymmetry=case['cs']))
    ctx.shape(dist, (n,), 'distanceToFiber shape')
    for k in range(n):
        R = ref.q2r(Q[:, k])
        want = min(np.arctan2(np.linalg.norm(np.cross(s, R @ o)), s @ (R @ o)) for o in full)
        ctx.close(dist[k], want, atol=5e-7, msg='distanceToFiber')
    fib = rot.discreteFiber(v, s, ndiv=case['ndiv'])[0]
    ctx.shape(fib, (4, case['ndiv']), 'discreteFiber')
    Rf = [ref.q2r(fib[:, k]) for k in range(case['ndiv'])]
    for R in Rf:
        ctx.close(R @ v, s, atol=1e-6, msg='fiber orientation takes c to s')
    # evenly spaced around s and distinct
    for k in range(case['ndiv']):
        want = abs((k * 2 * PI / case['ndiv'] + PI) % (2 * PI) - PI)
        ctx.close(ref.rangle(Rf[0].T @ Rf[k]), want, atol=1e-6, msg='fiber spacing')
    fr = rot.discreteFiber(v, s, ndiv=case['ndiv'], csym=tag)[0]
    for k in range(case['ndiv']):
        R = ref.q2r(fr[:, k])
        ctx.true(any(np.allclose(R, Rf[k] @ g, atol=1e-7) for g in G), 'reduced fiber is equivalent to the fiber')


@sub('C02', 'averages',
     st.fixed_dictionaries(dict(tag=st.sampled_from(['ci', 'c2h', 'd2h', 'd4h', 'd3d', 'd6h', 'th', 'oh']), q=S.quat(),
                                d=st.lists(st.tuples(S.ang(0, 0.05), S.axis(), st.integers(0, 23)), min_size=1, max_size=6))),
     n=500, rule='cluster of symmetric equivalents around a centre (spread <= 0.05 rad); non-trivial: >= 2 members')
def averages(case, ctx):
    tag = case['tag']
    G = ref.laue_group(tag)
    qs = rot.quatOfLaueGroup(tag)
    c = np.array(case['q'], float)
    mem, Rm = [], []
    for a, x, j in case['d']:
        a = max(0.0, a)
        x = ref.unit(x)
        dq = np.r_[np.cos(a / 2), np.sin(a / 2) * x]
        q = ref.qmul(ref.qmul(c, dq), qs[:, j % len(G)])
        mem.append(q if q[0] >= 0 else -q)
        Rm.append(ref.q2r(ref.qmul(c, dq)))
    Q = np.array(mem).T
    n = Q.shape[1]
    ctx.nt(n >= 2); ctx.label(f'n={min(n, 3)}')
    spread = max(ref.rangle(a.T @ b) for a in Rm for b in Rm)
    for f in (rot.quatAverageCluster, rot.quatAverage):
        qb = np.asarray(f(Q.copy(), qs)).reshape(4)
        ctx.close(np.linalg.norm(qb), 1, atol=1e-8, msg=f.__name__ + ' unit')
        R = ref.q2r(qb)
        worst = max(min_mis(r, R, G) for r in Rm)
        ctx.true(worst <= spread + 1e-3 * spread + 1e-5, f.__name__ + ' lies within the cluster', worst=worst, spread=spread)
        if n == 2:
            ctx.close([min_mis(r, R, G) for r in Rm], [spread / 2] * 2, atol=1e-6, msg=f.__name__ + ' of two is the midpoint')
        elif f is rot.quatAverageCluster:
            # arithmetic mean of aligned unit quaternions, accurate to 2nd order
            qa = np.array([ref.qmul(c, np.r_[np.cos(a / 2), np.sin(a / 2) * ref.unit(x)]) for a, x, j in case['d']]).mean(0)
            ctx.true(min_mis(ref.q2r(qa), R, G) < 1e-4, 'cluster average is the quaternion mean',
                     d=min_mis(ref.q2r(qa), R, G))


# ------------------------------------------------------------------- C03
@sub('C03', 'map_angle',
     st.fixed_dictionaries(dict(deg=st.booleans(), start=st.one_of(st.none(), S.num(-7, 7)),
                                a=st.lists(st.one_of(S.num(-30, 30), st.integers(-8, 8).map(lambda k: ['half', k])),
                                           min_size=1, max_size=8))), n=1500,
     rule='angles up to several periods outside the target period, multiples of half a period; non-trivial: wrapped')
def map_angle(case, ctx):
    per = 360.0 if case['deg'] else 2 * PI
    un = 'degrees' if case['deg'] else 'radians'
    a = np.array([x[1] * per / 2 if isinstance(x, list) else x * (60 if case['deg'] else 1) for x in case['a']])
    if case['start'] is None:
        lo = -per / 2
        r = rot.mapAngle(a.copy(), units=un)
    else:
        lo = case['start'] * (60 if case['deg'] else 1)
        ctx.label('range given')
        r = rot.mapAngle(a.copy(), (lo, lo + per), units=un)
    ctx.shape(r, a.shape, 'mapAngle shape')
    ctx.nt(np.any((a < lo) | (a > lo + per)))
    tol = per * 1e-12
    ctx.true(np.all(r >= lo - tol) and np.all(r <= lo + per + tol), 'result lies in the requested period', r=r, a=a)
    k = (r - a) / per
    ctx.close(k, np.round(k), atol=1e-11, msg='result differs by whole periods')
    inside = (a >= lo) & (a <= lo + per)
    ctx.close(r[inside], a[inside], atol=tol * 4, msg='angles already inside are unchanged')
    ctx.raises(RuntimeError, lambda: rot.mapAngle(a, (lo, lo + 0.7 * per), units=un), 'incomplete range is rejected')


@sub('C03', 'angular_difference',
     st.fixed_dictionaries(dict(deg=st.booleans(), a=st.lists(st.tuples(S.num(-14, 14), S.num(-14, 14)), min_size=1, max_size=6))),
     n=1500, rule='pairs of angles up to two periods apart; non-trivial: raw difference exceeds half a period')
def angular_difference(case, ctx):
    per = 360.0 if case['deg'] else 2 * PI
    un = 'degrees' if case['deg'] else 'radians'
    A = np.array([x[0] for x in case['a']]) * per / (2 * PI)
    B = np.array([x[1] for x in case['a']]) * per / (2 * PI)
    d = rot.angularDifference(A, B, units=un)
    ctx.nt(np.any(np.abs(A - B) > per / 2))
    if np.any(np.abs(A - B) > per):
        ctx.label('more than a period apart')
    th = (A - B) * 2 * PI / per
    want = np.abs(np.arctan2(np.sin(th), np.cos(th))) * per / (2 * PI)
    ctx.close(d, want, atol=per * 1e-12, msg='acute difference')
    ctx.close(rot.angularDifference(B, A, units=un), d, atol=per * 1e-13, msg='symmetric')
