"""C10 planar detector geometry, C11 cylindrical detector geometry, C12 sampling a detector image."""
import math

import numpy as np
from hypothesis import strategies as st

from hexrd.core import distortion as dist
from hexrd.core.instrument.planar_detector import PlanarDetector
from hexrd.core.instrument.cylindrical_detector import CylindricalDetector
from pbt import ref
from pbt.core import sub, Skip
from pbt import strat as S
from pbt.props.transforms import beam_rmat, sample_rmat, dvec_lab, beam_eta

PI = math.pi
RHO = 204.8


def ge_params(draw_scale):
    return st.tuples(S.num(-0.005, 0.005), S.num(-0.005, 0.005), S.num(-0.03, -0.011))


panel_st = st.fixed_dictionaries(dict(
    rows=st.integers(2, 16), cols=st.integers(2, 16), ps=st.tuples(S.num(0.5, 8), S.num(0.5, 8)),
    t=st.tuples(S.num(-40, 40), S.num(-40, 40), S.num(-400, -80)), tilt=S.expmap(0.7), be=beam_eta(),
    ge=st.one_of(st.none(), ge_params(1)), radius=S.num(60, 400), cz=S.num(0.2, 1.4)))

motion = st.fixed_dictionaries(dict(chi=S.num(-0.4, 0.4), ome=S.ang(), ts=S.vec(-5, 5), tc=S.vec(-3, 3)))


def build(p, kind='planar', **kw):
    b, e = map(np.array, p['be'])
    d = None if p['ge'] is None else dist.get_mapping('GE_41RT', list(p['ge']) + [2., 2., 2.])
    args = dict(name='p', rows=p['rows'], cols=p['cols'], pixel_size=tuple(p['ps']), tvec=np.array(p['t']), tilt=np.array(p['tilt']),
                bvec=b, evec=e, distortion=d)
    args.update(kw)
    if kind == 'planar':
        return PlanarDetector(**args)
    R = p['radius']
    args['tvec'] = np.array([p['t'][0] * R / 400, p['t'][1] * R / 400, -R * p['cz']])
    # keep the arc below ~ +-80 degrees
    args['pixel_size'] = (p['ps'][0], min(p['ps'][1], 2 * 1.4 * R / p['cols']))
    return CylindricalDetector(radius=R, **args)


def ge_apply(p, xy):
    xy = np.asarray(xy, float)
    if p['ge'] is None:
        return xy
    r = np.hypot(xy[..., 0], xy[..., 1]); e = np.arctan2(xy[..., 1], xy[..., 0])
    a = p['ge']
    f = 1 + (r / RHO) ** 2 * (a[0] * np.cos(2 * e) + a[1] * np.cos(4 * e) + a[2])
    return xy * f[..., None]


def lab_points(det, xy, kind):
    R = ref.e2r(det.tilt)
    xy = np.atleast_2d(xy)
    if kind == 'planar':
        return xy[:, :1] * R[:, 0] + xy[:, 1:] * R[:, 1] + det.tvec
    r = det.radius
    th = xy[:, :1] / r
    return r * np.sin(th) * R[:, 0] + xy[:, 1:] * R[:, 1] + r * (1 - np.cos(th)) * R[:, 2] + det.tvec


def lab_normals(det, xy, kind):
    R = ref.e2r(det.tilt)
    xy = np.atleast_2d(xy)
    if kind == 'planar':
        return np.tile(R[:, 2], (len(xy), 1))
    th = xy[:, :1] / det.radius
    return -np.sin(th) * R[:, 0] + np.cos(th) * R[:, 2]


def angs_of(d, b, e):
    Rb = beam_rmat(b, e)
    d = ref.unit(d)
    tth = np.arctan2(np.linalg.norm(np.cross(b, d), axis=-1), d @ b)
    q = d @ Rb
    return tth, np.arctan2(q[:, 1], q[:, 0])


def ang_close(ctx, a, b, atol, msg):
    ctx.close(np.exp(1j * np.asarray(a)), np.exp(1j * np.asarray(b)), atol=atol, msg=msg)


def points(det, us):
    return np.array([[(u - 0.5) * det.col_dim, (v - 0.5) * det.row_dim] for u, v in us])


unit_pts = st.lists(st.tuples(S.num(0, 1), S.num(0, 1)), min_size=1, max_size=8)


def angles_body(case, ctx, kind):
    p, m = case['p'], case['m']
    det = build(p, kind)
    b, e = map(np.array, p['be'])
    ts, tc = np.array(m['ts'], float), np.array(m['tc'], float)
    Rs = sample_rmat(m['chi'], m['ome'])
    dflt = case['dflt']
    if dflt:
        Rs, ts, tc = np.eye(3), np.zeros(3), np.zeros(3)
    kw = {} if dflt and case['dist'] else dict(rmat_s=Rs, tvec_s=ts, tvec_c=tc)
    ctx.nt(not dflt); ctx.label('moved sample' if not dflt else 'sample at the origin')
    P0 = ts + Rs @ tc
    xy = points(det, case['us'])
    xyd = ge_apply(p, xy) if case['dist'] else xy
    L = lab_points(det, xyd, kind) - P0
    dist_ = np.linalg.norm(L, axis=1)
    nd = -np.sum(lab_normals(det, xyd, kind) * L, axis=1) / dist_
    ok = (nd > 0.05) & (dist_ > 10)
    if kind == 'cyl':
        axis = ref.e2r(det.tilt)[:, 1]
        c = det.tvec + det.radius * ref.e2r(det.tilt)[:, 2] - P0
        perp = c - (c @ axis) * axis
        ok &= np.linalg.norm(perp) < 0.95 * det.radius      # sample inside the cylinder
        sin_cx = np.linalg.norm(np.cross(L, axis), axis=1) / dist_
        ok &= sin_cx > 0.1
    if not ok.any():
        return
    xy, xyd, L = xy[ok], xyd[ok], L[ok]
    tth, eta = angs_of(L, b, e)
    xy0 = xy.copy()
    got, vec = det.cart_to_angles(xy, apply_distortion=case['dist'], **kw)
    ctx.array_equal(xy, xy0, 'points untouched')
    ctx.shape(got, (len(xy), 2), 'angles')
    far = (tth > 1e-3) & (tth < PI - 1e-3)
    ctx.close(got[:, 0][far], tth[far], atol=1e-7, msg='two-theta of a detector point')
    ang_close(ctx, got[far, 1], eta[far], 1e-6, 'eta of a detector point')
    if kind == 'planar':
        ctx.close(vec[far], ref.unit(ref.unit(L[far]) - b), atol=1e-7, msg='lab G-vector')
    else:
        ctx.close(vec, ref.unit(L), atol=1e-9, msg='lab diffracted direction')
    if far.any():
        ae = np.c_[tth, eta][far]
        back = det.angles_to_cart(ae, apply_distortion=case['dist'], **kw)
        inside = np.ones(far.sum(), bool)
        if kind == 'cyl':       # panel edges may round either way
            inside = (np.abs(xyd[far]) < 0.5 * np.array([det.col_dim, det.row_dim]) * (1 - 1e-6)).all(1)
            ctx.label('cyl hit' if inside.any() else 'cyl edge')
        # arccos near the central column costs half the digits
        tol = 1e-6 + 1e-8 * dist_.max() / nd[ok].min() ** 2 + (2e-7 * det.radius if kind == 'cyl' else 0)
        ctx.close(back[inside], xy[far][inside], atol=tol, msg='angles back to the detector point')
        if kind == 'cyl' and p['ge'] is None:
            # a direction off the panel gives NaN
            half = 0.5 * det.row_dim
            off = xyd[far] + np.array([0, 1.01 * det.row_dim])
            Lo = lab_points(det, off, kind) - P0
            ao = np.c_[angs_of(Lo, b, e)]
            ctx.true(np.isnan(det.angles_to_cart(ao, **kw)).all(), 'direction above the panel is NaN')


ang_cases = dict(p=panel_st, m=motion, us=unit_pts, dflt=st.booleans(), dist=st.booleans())


@sub('C10', 'planar_angles', st.fixed_dictionaries(ang_cases), n=1500,
     rule='random panels (tilt, offset, non-square pixels, GE distortion on/off), general beam and azimuth, sample rotated/translated; '
          'non-trivial: moved sample')
def planar_angles(case, ctx):
    angles_body(case, ctx, 'planar')


@sub('C11', 'cylinder_angles', st.fixed_dictionaries(ang_cases), n=1500,
     rule='random cylindrical panels (radius 60-400 mm, tilted, offset), sample inside the cylinder, rotated/translated; '
          'non-trivial: moved sample')
def cylinder_angles(case, ctx):
    angles_body(case, ctx, 'cyl')


# ------------------------------------------------------------------ pixel maps with histories
step = st.one_of(
    st.tuples(st.just('tilt'), S.expmap(0.5)), st.tuples(st.just('tvec'), st.tuples(S.num(-40, 40), S.num(-40, 40), S.num(-300, -80))),
    st.tuples(st.just('beam'), beam_eta()), st.tuples(st.just('params'), ge_params(1)), st.tuples(st.just('origin'), S.vec(-3, 3)),
    st.tuples(st.just('size'), st.tuples(st.integers(2, 12), st.integers(2, 12))), st.tuples(st.just('pixel'), st.tuples(S.num(0.5, 6), S.num(0.5, 6))))


def pixel_xy(p):
    i, j = np.meshgrid(np.arange(p['rows']), np.arange(p['cols']), indexing='ij')
    x = (j - (p['cols'] - 1) / 2) * p['ps'][1]
    y = ((p['rows'] - 1) / 2 - i) * p['ps'][0]
    return np.c_[x.ravel(), y.ravel()]


def wrap(a):
    return (a + PI) % (2 * PI) - PI


def grad_axis(f, ax, circ):
    f = np.moveaxis(f, ax, 0)
    w = wrap if circ else (lambda x: x)
    g = np.empty_like(f)
    g[1:-1] = w(f[2:] - f[:-2]) / 2
    g[0] = w(f[1] - f[0]); g[-1] = w(f[-1] - f[-2])
    return np.moveaxis(g, 0, ax)


def maps_body(case, ctx, kind):
    p = dict(case['p']); p['rows'] = max(2, p['rows']); p['cols'] = max(2, p['cols'])
    det = build(p, kind)
    origin = np.zeros(3)
    f_hor = case['f']
    ctx.nt(bool(case['steps']))
    for st_ in [None] + case['steps'] + [None]:
        if st_ is not None:
            k, v = st_
            ctx.label(k)
            if k == 'tilt':
                det.tilt = np.array(v)
            elif k == 'tvec':
                v = np.array(v, float)
                if kind == 'cyl':
                    v = np.array([v[0] * det.radius / 400, v[1] * det.radius / 400, -det.radius * (0.2 + 1.2 * (v[2] + 300) / 220)])
                det.tvec = v
            elif k == 'beam':
                det.bvec, det.evec = np.array(v[0]), np.array(v[1]); p['be'] = v
            elif k == 'params':
                if det.distortion is None:
                    continue
                det.distortion.params = list(v) + [2., 2., 2.]; p['ge'] = v
            elif k == 'origin':
                origin = np.array(v, float)
            elif k == 'size':
                det.rows, det.cols = v; p['rows'], p['cols'] = v
                if kind == 'cyl':
                    det.pixel_size_col = min(det.pixel_size_col, 2 * 1.4 * det.radius / v[1]); p['ps'] = (det.pixel_size_row, det.pixel_size_col)
            elif k == 'pixel':
                v = (v[0], v[1] if kind == 'planar' else min(v[1], 2 * 1.4 * det.radius / p['cols']))
                det.pixel_size_row, det.pixel_size_col = v; p['ps'] = v
        p['ps'] = (det.pixel_size_row, det.pixel_size_col)
        b, e = map(np.array, p['be'])
        xy = pixel_xy(p)
        pi_, pj_ = det.pixel_coords
        ctx.close(np.c_[pj_.ravel(), pi_.ravel()], xy, atol=1e-9, msg='pixel centre coordinates')
        L = lab_points(det, ge_apply(p, xy), kind) - origin
        tth, eta = (a.reshape(p['rows'], p['cols']) for a in angs_of(L, b, e))
        gt, ge = det.pixel_angles(origin=origin)
        far = (tth > 1e-3) & (np.linalg.norm(L, axis=1).reshape(tth.shape) > 1)
        ctx.shape(gt, det.shape, 'two-theta map')
        ctx.close(gt[far], tth[far], atol=1e-7, msg='two-theta map is that of the current panel')
        ang_close(ctx, ge[far], eta[far], 1e-6, 'eta map is that of the current panel')
        for a in (gt, ge):      # what a caller does to the result must not change later results
            if a.flags.writeable:
                a[...] = -77.0
        # gradients
        if far.all():
            want = np.hypot(grad_axis(tth, 0, False), grad_axis(tth, 1, False))
            ctx.close(det.pixel_tth_gradient(origin=origin), want, atol=1e-6, msg='two-theta gradient')
            g0, g1 = grad_axis(eta, 0, True), grad_axis(eta, 1, True)
            gg = det.pixel_eta_gradient(origin=origin)
            fine = np.zeros(eta.shape, bool)
            big = np.maximum(np.abs(g0), np.abs(g1))
            fine = big < 1.2
            ctx.shape(gg, eta.shape, 'eta gradient')
            ctx.close(gg[fine], np.hypot(g0, g1)[fine], atol=1e-5, msg='eta gradient')
            if np.abs(np.diff(eta, axis=0)).max(initial=0) > 3.2 or np.abs(np.diff(eta, axis=1)).max(initial=0) > 3.2:
                ctx.label('eta branch cut on panel')
        if st_ is None:
            Ln = lab_points(det, xy, kind)
            r = np.linalg.norm(Ln, axis=1)
            if r.min() > 1:
                want = p['ps'][0] * p['ps'][1] * np.abs(np.sum(Ln * lab_normals(det, xy, kind), axis=1)) / r ** 3
                ctx.close(det.pixel_solid_angles, want.reshape(det.shape), atol=0, rtol=1e-7, msg='pixel solid angles')
            ctx.close(np.abs(np.sum(det.pixel_normal * lab_normals(det, xy, kind), axis=1)), np.ones(len(xy)), atol=1e-9, msg='pixel normals')
            t0, e0 = det.pixel_angles()
            t1 = angs_of(lab_points(det, ge_apply(p, xy), kind), b, e)[0].reshape(det.shape)
            E = case['E']
            ctx.close(det.pixel_Q(E), 4 * PI * np.sin(t1 / 2) * E / 12.398419843320026, atol=1e-6 * E, msg='pixel Q')
            ctx.close(det.pixel_compton_energy_loss(E), E / (1 + E / 510.99895 * (1 - np.cos(t1))), atol=1e-5 * E, msg='Compton energy')
            e1 = angs_of(lab_points(det, ge_apply(p, xy), kind), b, e)[1].reshape(det.shape)
            if t1.min() > 1e-3:
                pol = f_hor * (np.sin(e1) ** 2 + np.cos(e1) ** 2 * np.cos(t1) ** 2) + (1 - f_hor) * (np.cos(e1) ** 2 + np.sin(e1) ** 2 * np.cos(t1) ** 2)
                ctx.close(det.polarization_factor(f_hor, 1 - f_hor), pol, atol=1e-6, msg='polarization factor')
                ctx.close(det.polarization_factor(f_hor, 1 - f_hor, unpolarized=True), (1 + np.cos(t1) ** 2) / 2, atol=1e-6, msg='unpolarized')
                ctx.close(det.lorentz_factor(), 1 / (np.cos(t1 / 2) * np.sin(t1 / 2) ** 2), rtol=1e-3, atol=1e-6, msg='Lorentz factor')
            # beam position
            bp = np.ravel(det.beam_position)
            R = ref.e2r(det.tilt)
            if kind == 'planar':
                bn = b @ R[:, 2]
                if bn < -1e-3:
                    q = (R[:, 2] @ det.tvec) / bn * b - det.tvec
                    ctx.close(bp, [R[:, 0] @ q, R[:, 1] @ q], atol=1e-6 / bn ** 2, msg='beam position')
                elif bn > 1e-6:
                    ctx.true(np.isnan(bp).all(), 'no beam position behind the panel')
            elif bp.size == 2 and np.isfinite(bp).all():
                ctx.close(ref.unit(lab_points(det, bp[None], kind)[0]), b, atol=3e-6, msg='beam position points along the beam')
                ctx.label('beam on cylinder')
    ctx.raises(RuntimeError, lambda: det.polarization_factor(0.5, 0.6), 'fractions must add to one')


maps_cases = dict(p=panel_st, steps=st.lists(step, max_size=5), f=S.num(0, 1), E=S.num(5, 100))


@sub('C10', 'planar_maps', st.fixed_dictionaries(maps_cases), n=500,
     rule='sequences of geometry edits interleaved with (cached) pixel-map queries; non-trivial: at least one edit')
def planar_maps(case, ctx):
    maps_body(case, ctx, 'planar')


@sub('C11', 'cylinder_maps', st.fixed_dictionaries(maps_cases), n=500,
     rule='sequences of geometry edits interleaved with (cached) pixel-map queries; non-trivial: at least one edit')
def cylinder_maps(case, ctx):
    maps_body(case, ctx, 'cyl')


@sub('C10', 'map_to_plane',
     st.fixed_dictionaries(dict(p=panel_st, us=unit_pts, r2=S.expmap(0.6), t2=st.tuples(S.num(-40, 40), S.num(-40, 40), S.num(-900, -100)))), n=700,
     rule='projection of panel points from the origin onto another plane, and angular pixel sizes; non-trivial: always')
def map_to_plane(case, ctx):
    p = case['p']
    det = build(p)
    xy = points(det, case['us'])
    L = lab_points(det, xy, 'planar')
    R2, t2 = ref.e2r(case['r2']), np.array(case['t2'])
    den = L @ R2[:, 2]
    num = R2[:, 2] @ t2
    ok = (np.abs(den) > 1e-2 * np.linalg.norm(L, axis=1)) & (np.linalg.norm(L, axis=1) > 10)
    if ok.any() and abs(num) > 1:
        got = det.map_to_plane(xy, R2, t2)
        q = L * (num / den)[:, None] - t2
        ctx.close(got[ok], np.c_[q @ R2[:, 0], q @ R2[:, 1]][ok], atol=1e-6 * max(1, np.abs(q[ok]).max()) , msg='map_to_plane')
        ctx.nt()
    # angular pixel sizes: largest angular difference between neighbouring corners
    b, e = map(np.array, p['be'])
    hx, hy = p['ps'][1] / 2, p['ps'][0] / 2
    corners = ge_apply(p, xy)[:, None, :] + np.array([[-hx, -hy], [hx, -hy], [hx, hy], [-hx, hy]])
    C = lab_points(det, corners.reshape(-1, 2), 'planar')
    if np.linalg.norm(C, axis=1).min() < 10:
        return
    t, a = (v.reshape(-1, 4) for v in angs_of(C, b, e))
    got = det.angularPixelSize(xy)
    ctx.shape(got, (len(xy), 2), 'angular pixel sizes')
    ok = t.min(1) > 1e-2
    dt = np.abs(t - np.roll(t, 1, axis=1)).max(1)
    de = np.abs(wrap(a - np.roll(a, 1, axis=1))).max(1)
    ok &= de < 3.1
    ctx.close(got[ok, 0], dt[ok], atol=1e-6, msg='angular pixel size, two-theta')
    ctx.close(got[ok, 1], de[ok], atol=1e-5, msg='angular pixel size, eta')


# ------------------------------------------------------------------ C12
@sub('C12', 'pixel_coordinates',
     st.fixed_dictionaries(dict(p=panel_st, ij=st.lists(st.tuples(S.num(-3, 20), S.num(-3, 20)), min_size=1, max_size=8), cyl=st.booleans(),
                                roi=st.one_of(st.none(), st.tuples(st.integers(0, 50), st.integers(0, 50))))), n=800,
     rule='fractional pixels on and off the panel, non-square pixels, distortion; non-trivial: non-square pixels or panel')
def pixel_coordinates(case, ctx):
    p = case['p']
    det = build(p, 'cyl' if case['cyl'] else 'planar')
    pr, pc = det.pixel_size_row, det.pixel_size_col
    ctx.nt(pr != pc or p['rows'] != p['cols'])
    ij = np.array(case['ij'], float)
    xy = det.pixelToCart(ij)
    want = np.c_[(ij[:, 1] - (p['cols'] - 1) / 2) * pc, ((p['rows'] - 1) / 2 - ij[:, 0]) * pr]
    ctx.close(xy, want, atol=1e-9, msg='pixelToCart')
    ctx.close(det.cartToPixel(xy), ij, atol=1e-9, msg='cartToPixel inverts pixelToCart')
    frac = np.abs(ij - np.floor(ij) - 0.5).min(1) > 1e-6
    got = det.cartToPixel(xy, pixels=True)
    ctx.true(np.issubdtype(got.dtype, np.integer), 'integer pixels')
    ctx.array_equal(got[frac], np.floor(ij + 0.5).astype(int)[frac], 'pixel containing the point')
    ctx.close(det.cartToPixel(xy, apply_distortion=True),
              np.c_[(p['rows'] - 1) / 2 - ge_apply(p, xy)[:, 1] / pr, ge_apply(p, xy)[:, 0] / pc + (p['cols'] - 1) / 2], atol=1e-8, msg='distorted pixels')
    # edges, centres and corners are one consistent layout
    ctx.close(det.row_pixel_vec, want_rows := ((p['rows'] - 1) / 2 - np.arange(p['rows'])) * pr, atol=1e-9, msg='row centres')
    ctx.close(det.col_pixel_vec, (np.arange(p['cols']) - (p['cols'] - 1) / 2) * pc, atol=1e-9, msg='column centres')
    ctx.close(0.5 * (det.row_edge_vec[1:] + det.row_edge_vec[:-1]), want_rows, atol=1e-9, msg='row edges')
    ctx.close(0.5 * (det.col_edge_vec[1:] + det.col_edge_vec[:-1]), det.col_pixel_vec, atol=1e-9, msg='column edges')
    ctx.close([det.corner_ul, det.corner_ur, det.corner_lr, det.corner_ll],
              [[det.col_edge_vec[0], det.row_edge_vec[0]], [det.col_edge_vec[-1], det.row_edge_vec[0]],
               [det.col_edge_vec[-1], det.row_edge_vec[-1]], [det.col_edge_vec[0], det.row_edge_vec[-1]]], atol=1e-9, msg='corners')
    ctx.close([det.row_dim, det.col_dim, det.pixel_area], [p['rows'] * pr, p['cols'] * pc, pr * pc], atol=1e-9, msg='dimensions')
    if case['roi'] is not None:
        det.roi = case['roi']
        r = case['roi']
        ctx.equal(tuple(map(tuple, det.roi)), ((r[0], r[0] + p['rows']), (r[1], r[1] + p['cols'])), 'roi')
        ctx.equal(det.roi, build(p, roi=r).roi, 'roi setter agrees with constructor')


buffers = st.one_of(st.none(), st.tuples(st.just('border'), st.tuples(S.num(0, 3), S.num(0, 3))), st.tuples(st.just('mask'), S.seeds))


def set_buffer(det, spec):
    """Returns a predicate on detector points (None when too close to an edge)."""
    xlim, ylim = 0.5 * det.col_dim, 0.5 * det.row_dim
    mask = None
    if spec is None:
        det.panel_buffer = None
    elif spec[0] == 'border':
        det.panel_buffer = np.array(spec[1], float)
        xlim -= spec[1][0]; ylim -= spec[1][1]
    else:
        mask = S.rng(spec[1]).random(det.shape) < 0.6
        det.panel_buffer = mask

    def on(x, y):
        if mask is not None:
            i = math.floor((0.5 * det.row_dim - y) / det.pixel_size_row); j = math.floor((x + 0.5 * det.col_dim) / det.pixel_size_col)
            fi = (0.5 * det.row_dim - y) / det.pixel_size_row; fj = (x + 0.5 * det.col_dim) / det.pixel_size_col
            if min(abs(fi - round(fi)), abs(fj - round(fj))) < 1e-7:
                return None
            return bool(0 <= i < det.rows and 0 <= j < det.cols and mask[i, j])
        if min(abs(abs(x) - xlim), abs(abs(y) - ylim)) < 1e-9:
            return None
        return abs(x) < xlim and abs(y) < ylim
    return on


@sub('C12', 'clip_and_interpolate',
     st.fixed_dictionaries(dict(p=panel_st, us=st.lists(st.tuples(S.num(-0.2, 1.2), S.num(-0.2, 1.2)), min_size=1, max_size=12), buf=buffers,
                                seed=S.seeds, dt=st.sampled_from(['float64', 'float32', 'uint16', 'int32']), cyl=st.booleans(), pad=st.booleans())),
     n=1200, rule='points on and off the panel with border or mask buffers, random images of several dtypes; non-trivial: some points on, some off')
def clip_and_interpolate(case, ctx):
    p = case['p']
    det = build(p, 'cyl' if case['cyl'] else 'planar')
    on = set_buffer(det, case['buf'])
    ctx.label('buffer ' + (case['buf'][0] if case['buf'] else 'none'))
    xy = points(det, case['us'])
    want = [on(*q) for q in xy]
    clip, m = det.clip_to_panel(xy)
    ctx.array_equal(clip, xy[m], 'clipped points are the ones on the panel')
    for w, g, q in zip(want, m, xy):
        if w is not None:
            ctx.equal(bool(g), w, f'point {q} on the panel')
    ctx.nt(True in want and False in want)
    _, m0 = det.clip_to_panel(xy, buffer_edges=False)
    for g, q in zip(m0, xy):
        if min(abs(abs(q[0]) - det.col_dim / 2), abs(abs(q[1]) - det.row_dim / 2)) > 1e-9:
            ctx.equal(bool(g), bool(abs(q[0]) < det.col_dim / 2 and abs(q[1]) < det.row_dim / 2), 'panel without buffer')
    img = (S.rng(case['seed']).random(det.shape) * 100).astype(case['dt'])
    near = det.interpolate_nearest(xy, img, pad_with_nans=case['pad'])
    bil = det.interpolate_bilinear(xy, img.astype(float), pad_with_nans=case['pad'])
    ctx.shape(near, (len(xy),), 'nearest'); ctx.shape(bil, (len(xy),), 'bilinear')
    fill = np.nan if case['pad'] else 0.0
    for k, q in enumerate(xy):
        if not m[k]:
            ctx.array_equal(np.array([near[k], bil[k]]), np.array([fill, fill]), 'off-panel fill value')
            continue
        fi = (0.5 * det.row_dim - q[1]) / det.pixel_size_row - 0.5
        fj = (q[0] + 0.5 * det.col_dim) / det.pixel_size_col - 0.5
        if min(abs(fi + 0.5 - round(fi + 0.5)), abs(fj + 0.5 - round(fj + 0.5))) > 1e-7:
            ctx.equal(float(near[k]), float(img[min(max(math.floor(fi + 0.5), 0), det.rows - 1), min(max(math.floor(fj + 0.5), 0), det.cols - 1)]),
                      'nearest pixel value')
        i0, j0 = math.floor(fi), math.floor(fj)
        cl = lambda v, n: min(max(v, 0), n - 1)
        acc = 0.0
        for di, wi in ((0, 1 - (fi - i0)), (1, fi - i0)):
            for dj, wj in ((0, 1 - (fj - j0)), (1, fj - j0)):
                acc += wi * wj * float(img[cl(i0 + di, det.rows), cl(j0 + dj, det.cols)])
        ctx.close(bil[k], acc, atol=1e-6, msg='bilinear value')
    # a linear ramp is reproduced exactly between pixel centres; pixel centres reproduce the image
    iy, ix = det.pixel_coords
    cen = np.c_[ix.ravel(), iy.ravel()]
    det.panel_buffer = None
    ctx.close(det.interpolate_bilinear(cen, img.astype(float)), img.ravel().astype(float), atol=1e-9, msg='pixel centres')
    ctx.close(det.interpolate_nearest(cen, img), img.ravel().astype(float), atol=0, msg='pixel centres, nearest')


@sub('C12', 'powder_rings',
     st.fixed_dictionaries(dict(p=panel_st, m=motion, tth=st.lists(S.num(3, 60), min_size=1, max_size=4), dtth=S.num(0.05, 2), deta=st.sampled_from([5., 10., 15., 30., 45., 7.2]),
                                etas=st.one_of(st.none(), st.lists(S.num(-180, 180), min_size=1, max_size=10)), per=st.sampled_from([0.0, -PI, -PI / 2, 1.0]),
                                buf=buffers, move=st.booleans(), big=st.booleans())), n=220,
     rule='two-theta lists, eta spacings, lists and periods, on panels with buffers, sample moved; non-trivial: a ring partly on the panel')
def powder_rings(case, ctx):
    p = dict(case['p'])
    if case['big']:
        p['ps'] = [v * 6 for v in p['ps']]
    det = build(p)
    b, e = map(np.array, p['be'])
    on = set_buffer(det, case['buf'])
    m = case['m']
    kw = {}
    P0 = np.zeros(3)
    Rs = np.eye(3)
    if case['move']:
        Rs = sample_rmat(m['chi'], m['ome']); ts, tc = np.array(m['ts'], float), np.array(m['tc'], float)
        P0 = ts + Rs @ tc
        kw = dict(rmat_s=Rs, tvec_s=ts, tvec_c=tc)
    if case['etas'] is not None:
        kw['eta_list'] = case['etas']
    ang, xy, rng, idx, edges = det.make_powder_rings(np.array(case['tth']), delta_tth=case['dtth'], delta_eta=case['deta'],
                                                    eta_period=(case['per'], case['per'] + 2 * PI), full_output=True, **kw)
    out3 = det.make_powder_rings(np.array(case['tth']), delta_tth=case['dtth'], delta_eta=case['deta'],
                                 eta_period=(case['per'], case['per'] + 2 * PI), **kw)
    ctx.equal(len(ang), len(case['tth']), 'one entry per ring')
    ctx.close(rng, np.radians([[t - case['dtth'] / 2, t + case['dtth'] / 2] for t in case['tth']]), atol=1e-12, msg='two-theta ranges')
    de = math.radians(case['deta'])
    if case['etas'] is None:
        etas = case['per'] + de * (np.arange(int(360 / case['deta'])) + 0.5)
    else:
        etas = np.radians(case['etas'])
    R = ref.e2r(det.tilt)
    some = 0
    for k, t in enumerate(np.radians(case['tth'])):
        ctx.shape(idx[k], (len(etas),), 'on-panel flags')
        ctx.shape(ang[k], (int(idx[k].sum()), 2), 'angles'); ctx.shape(xy[k], (int(idx[k].sum()), 2), 'points')
        ctx.close(out3[1][k], xy[k], atol=0, msg='short output agrees')
        some += 0 < idx[k].sum() < len(etas)
        ctx.close(ang[k][:, 0], np.full(len(ang[k]), t), atol=1e-12, msg='ring two-theta')
        ang_close(ctx, ang[k][:, 1], etas[idx[k]], 1e-9, 'ring etas')
        if len(xy[k]):
            L = lab_points(det, ge_apply(p, xy[k]), 'planar') - P0
            tt, ee = angs_of(L, b, e)
            ctx.close(tt, ang[k][:, 0], atol=1e-6, msg='ring points have the ring two-theta')
            ang_close(ctx, ee, ang[k][:, 1], 1e-5, 'ring points have the ring eta')
        for i, h in enumerate(etas):      # flag: all patch vertices on the panel
            st_ = True
            for dt, dh in ((-1, -1), (-1, 1), (1, 1), (1, -1), (0, 0)):
                d = dvec_lab(t + dt * math.radians(case['dtth']) / 2, h + dh * de / 2, beam_rmat(b, e))
                den = R[:, 2] @ d
                u = (R[:, 2] @ (det.tvec - P0)) / den if abs(den) > 1e-9 else -1
                if abs(den) < 1e-3 or abs(u) < 1e-3:
                    st_ = None; break
                if den > 0 or u < 0:
                    st_ = None if st_ is None else False
                    if den > 0:
                        st_ = None
                    break
                q = P0 + u * d - det.tvec
                q = np.array([R[:, 0] @ q, R[:, 1] @ q])
                if p['ge'] is not None:
                    # where apply() brings the raw point to q; only decide well inside the invertible range
                    if np.hypot(*q) > 220:
                        st_ = None; break
                    raw = q.copy()
                    for _ in range(60):
                        raw = raw - (ge_apply(p, raw[None])[0] - q)
                    q = raw
                o = on(*q)
                if o is None or min(abs(abs(q[0]) - det.col_dim / 2), abs(abs(q[1]) - det.row_dim / 2)) < 1e-5:
                    st_ = None; break
                if not o:
                    st_ = False
                    break
            if st_ is not None:
                ctx.equal(bool(idx[k][i]), st_, f'ring {k} patch at eta {h} is on the panel')
    ctx.nt(some > 0)
