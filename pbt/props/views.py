"""C30: polar and spherical views of detector images."""
import math
from types import SimpleNamespace as NS

import numpy as np
from hypothesis import strategies as st

from hexrd.core.projections.polar import PolarView, bin_polar_view
from hexrd.core.projections.spherical import SphericalView
from hexrd.hedm.xrdutil.utils import zproject_sph_angles
from pbt import ref
from pbt.core import sub, Skip
from pbt import strat as S
from pbt.props.detector import angs_of, buffers, build, ge_apply, lab_normals, panel_st, set_buffer
from pbt.props.transforms import beam_eta, beam_rmat, dvec_lab

PI = math.pi


def ge_undo(p, xy):
    """Raw point of a panel that is corrected to xy."""
    if p['ge'] is None:
        return xy
    x = np.array(xy, float)
    for i in range(60):
        x = x + (xy - ge_apply(p, x))
    return x if np.allclose(ge_apply(p, x), xy, atol=1e-9, rtol=0) else np.full(2, np.nan)


def hit(det, kind, O, d):
    """Point of the panel on the ray from O along d, or None (off), or 'edge' when it is too close to tell."""
    R = ref.e2r(det.tilt)
    if kind == 'planar':
        den = R[:, 2] @ d
        if abs(den) < 1e-3:
            return 'edge'
        u = R[:, 2] @ (det.tvec - O) / den
        if abs(u) < 1e-3:
            return 'edge'
        if u < 0 or den > 0:
            return None
        q = O + u * d - det.tvec
        return np.array([q @ R[:, 0], q @ R[:, 1]])
    r = det.radius
    c = det.tvec + r * R[:, 2]
    o, v = R.T @ (O - c), R.T @ d
    a, b, k = v[0] ** 2 + v[2] ** 2, o[0] * v[0] + o[2] * v[2], o[0] ** 2 + o[2] ** 2 - r * r
    if k > -0.1 * r * r or a < 0.01:
        return 'edge'
    u = (-b + math.sqrt(b * b - a * k)) / a
    q = o + u * v
    return np.array([r * math.atan2(q[0], -q[2]), q[1]])


def bilinear(det, q, img):
    fi = (0.5 * det.row_dim - q[1]) / det.pixel_size_row - 0.5
    fj = (q[0] + 0.5 * det.col_dim) / det.pixel_size_col - 0.5
    if min(abs(fi - round(fi)), abs(fj - round(fj)), abs(fi + 0.5 - round(fi + 0.5)), abs(fj + 0.5 - round(fj + 0.5))) < 1e-6:
        return None
    cl = lambda v, n: min(max(v, 0), n - 1)
    i0, j0 = math.floor(fi), math.floor(fj)
    out, idx = 0.0, []
    for di, wi in ((0, 1 - (fi - i0)), (1, fi - i0)):
        for dj, wj in ((0, 1 - (fj - j0)), (1, fj - j0)):
            ij = cl(i0 + di, det.rows), cl(j0 + dj, det.cols)
            idx.append(ij)
            out += wi * wj * float(img[ij])
    return out, float(img[cl(math.floor(fi + 0.5), det.rows), cl(math.floor(fj + 0.5), det.cols)]), idx


def keep(det, spec):
    """The pixels inside the buffer."""
    if spec is None:
        return np.ones(det.shape, bool)
    if spec[0] == 'mask':
        return np.asarray(det.panel_buffer)
    ok = np.zeros(det.shape, bool)
    r, c = round(spec[1][1] / det.pixel_size_row), round(spec[1][0] / det.pixel_size_col)
    ok[r:det.rows - r, c:det.cols - c] = True
    return ok


@sub('C30', 'polar_view', st.fixed_dictionaries(dict(ps=st.lists(st.tuples(panel_st, st.sampled_from(['planar', 'planar', 'cyl']), buffers), min_size=1, max_size=3), be=beam_eta(), ts=st.one_of(st.just([0.0] * 3), S.vec(-5, 5)),
     chi=st.one_of(st.just(0.0), S.num(-0.4, 0.4)), t0=S.num(0, 30), n=st.tuples(st.integers(1, 14), st.integers(1, 14)), st=st.tuples(S.num(0.2, 4), S.num(0.5, 30)), e0=S.num(-360, 360), seed=S.seeds,
     dt=st.sampled_from(['float64', 'float32', 'uint16', 'int32']), cache=st.booleans())), n=320, parts=2, rule='some of the map on a panel')
def polar_view(case, ctx):
    r = S.rng(case['seed'])
    b, e = map(np.array, case['be'])
    dets, spec, on, imgs = {}, {}, {}, {}
    for i, (p, kind, buf) in enumerate(case['ps']):
        p = dict(p, be=case['be'])
        k = f'p{i}'
        dets[k] = build(p, kind)
        spec[k] = (p, kind, buf)
        on[k] = set_buffer(dets[k], buf)
        imgs[k] = (r.random(dets[k].shape) * 100).astype(case['dt'])
    ts = np.array(case['ts'], float)
    ins = NS(detectors=dets, tvec=ts, chi=case['chi'])
    nt, ne = case['n']
    ht, he = case['st']
    ne = min(ne, int(359 / he))
    t0, e0 = case['t0'], case['e0']
    pv = PolarView((t0, t0 + nt * ht), ins, eta_min=e0, eta_max=e0 + ne * he, pixel_size=(ht, he), cache_coordinate_map=case['cache'])
    ctx.equal(tuple(pv.shape), (ne, nt), 'shape of the map')
    tth = np.radians(t0 + ht * (np.arange(nt) + 0.5)); eta = np.radians(e0 + he * (np.arange(ne) + 0.5))
    ev, tv = pv.angular_grid
    ctx.close(ev, np.repeat(eta[:, None], nt, 1), 1e-12, 0, 'azimuths of the map'); ctx.close(tv, np.repeat(tth[None], ne, 0), 1e-12, 0, 'scattering angles of the map')
    ctx.close(pv.extent, np.radians([t0, t0 + nt * ht, e0 + ne * he, e0]), 1e-12, 0, 'extent of the map')
    ctx.close(pv.tth_to_pixel(tth), np.arange(nt) + 0.5, 1e-9, 0, 'pixels along the scattering angle')
    before = {k: v.copy() for k, v in imgs.items()}
    got = pv.warp_image(imgs); pad = pv.warp_image(imgs, pad_with_nans=True); near = pv.warp_image(imgs, do_interpolation=False)
    again = pv.warp_image(imgs)
    for k in imgs:
        ctx.array_equal(imgs[k], before[k], 'the images are not changed')
    ctx.array_equal(got.data, again.data, 'the same map again'); ctx.array_equal(got.mask, again.mask, 'the same map again')
    Rb = beam_rmat(b, e)
    some = 0
    for i in range(ne):
        for j in range(nt):
            d = dvec_lab(tth[j], eta[i], Rb)
            if tth[j] > PI - 0.05:
                continue
            s, sn, mask, bad = 0.0, 0.0, True, False
            for k, det in dets.items():
                p, kind, buf = spec[k]
                q = hit(det, kind, ts, d)
                if q is None:
                    continue
                if isinstance(q, str):
                    bad = True; break
                if kind == 'cyl' and not (np.abs(q) < 0.5 * np.array([det.col_dim, det.row_dim])).all():
                    # panel edges before the correction of distortions
                    if p['ge'] is not None and (np.abs(q) < 0.6 * np.array([det.col_dim, det.row_dim])).all() or np.any(abs(np.abs(q) - 0.5 * np.array([det.col_dim, det.row_dim])) < 1e-6):
                        bad = True; break
                    continue
                if np.abs(q).max() > 900:
                    if p['ge'] is not None:
                        bad = True; break
                    continue
                q = ge_undo(p, q)
                if np.isnan(q).any():
                    bad = True; break
                o = on[k](*q)
                if o is None or (abs(abs(q[0]) - det.col_dim / 2) < 1e-6 or abs(abs(q[1]) - det.row_dim / 2) < 1e-6):
                    bad = True; break
                if not o:
                    continue
                v = bilinear(det, q, imgs[k])
                if v is None:
                    bad = True; break
                s += v[0]; sn += v[1]
                kp = keep(det, buf)
                if all(kp[ij] for ij in v[2]):
                    mask = False
            if bad:
                continue
            ctx.close(got.data[i, j], s, 1e-4, 1e-6, f'map at two-theta {np.degrees(tth[j])}, eta {np.degrees(eta[i])}')
            ctx.close(near.data[i, j], sn, 1e-9, 1e-7, 'map of nearest pixels')
            ctx.equal(bool(got.mask[i, j]), mask, 'points without a panel are masked')
            ctx.equal(bool(near.mask[i, j]), mask, 'points without a panel are masked')
            ctx.close(pad.data[i, j], np.nan if mask else s, 1e-4, 1e-6, 'padded map', nan=True)
            some += not mask
    ctx.nt(some > 0); ctx.label('some' if some else 'none')
    ctx.label('several panels' if len(dets) > 1 else 'one panel')


@sub('C30', 'binned', st.fixed_dictionaries(dict(n=st.integers(1, 60), step=st.sampled_from([0.1, 0.3, 0.5, 1.0, 2.0, 4.0]), t=st.integers(1, 5), e0=st.integers(-180, 180), k=st.integers(1, 30), w=st.integers(1, 20), seed=S.seeds, hole=S.num(0, 0.5))), n=300,
     rule='at least one bin')
def binned(case, ctx):
    n, h = max(case['n'], case['k']), case['step']
    iv, w = case['k'] * h, min(case['w'], case['k']) * h
    pv = NS(eta_min=math.radians(case['e0']), eta_max=math.radians(case['e0']) + math.radians(n * h), tth_pixel_size=0.1, eta_pixel_size=h)
    r = S.rng(case['seed'])
    img = r.random((n, case['t']))
    img[r.random(img.shape) < case['hole']] = np.nan
    out = bin_polar_view(pv, img, iv, w)
    ctx.equal(len(out), n // case['k'] - 1, 'bins')
    ctx.nt(len(out) > 0)
    for i in range(len(out)):
        c = case['k'] * (i + 1); hw = min(case['w'], case['k'])
        rows = img[c - hw:c + hw]
        want = [np.mean(col[~np.isnan(col)]) if (~np.isnan(col)).any() else np.nan for col in rows.T]
        ctx.close(out[i], want, 1e-12, 0, 'mean of the rows around the centre of the bin', nan=True)


def direction(tth, eta, ome, kind):
    """Directions in the sample frame, beam along -z, sample turned by omega about y."""
    tth, eta, ome = np.broadcast_arrays(tth, eta, ome)
    if kind == 'd':
        v = np.stack([np.sin(tth) * np.cos(eta), np.sin(tth) * np.sin(eta), -np.cos(tth)], -1)
    else:
        h = tth / 2
        v = np.stack([np.cos(h) * np.cos(eta), np.cos(h) * np.sin(eta), np.sin(h)], -1)
    c, s = np.cos(ome), np.sin(ome)
    # R_y(omega)^T v
    return np.stack([c * v[..., 0] - s * v[..., 2], v[..., 1], s * v[..., 0] + c * v[..., 2]], -1)


def plane(v, method):
    """Projection from the pole +z, or of equal area about the pole -z."""
    if method == 'stereographic':
        return v[..., :2] / (1 - v[..., 2:])
    return v[..., :2] * (np.sqrt(2 * (1 + v[..., 2])) / np.hypot(v[..., 0], v[..., 1]))[..., None]


def unplane(p, method):
    r2 = np.sum(p * p, -1)
    if method == 'stereographic':
        z = (r2 - 1) / (r2 + 1)
        return np.concatenate([p * (1 - z)[..., None], z[..., None]], -1)
    z = r2 / 2 - 1
    rho = np.sqrt(np.maximum(1 - z * z, 0))
    return np.concatenate([p * (rho / np.maximum(np.sqrt(r2), 1e-300))[..., None], z[..., None]], -1)


@sub('C30', 'projection', st.fixed_dictionaries(dict(a=st.lists(st.tuples(S.num(0.01, 3.0), S.ang(), S.ang()), min_size=1, max_size=6), chi=S.num(-0.5, 0.5), method=st.sampled_from(['stereographic', 'equal-area']), src=st.sampled_from(['d', 'q', 'g']),
     mask=st.booleans(), inv=st.booleans(), R=st.one_of(st.none(), S.expmap(3)))), n=400, rule='several points')
def projection(case, ctx):
    a = np.array(case['a'])
    ctx.nt(len(a) > 1); ctx.label(case['src'])
    c, s = math.cos(case['chi']), math.sin(case['chi'])
    if case['src'] == 'g':
        a = ref.unit(direction(a[:, 0], a[:, 1], a[:, 2], 'd')); v = a.copy()
    else:
        h = direction(a[:, 0], a[:, 1], 0.0, case['src'])
        Rx = np.array([[1, 0, 0], [0, c, -s], [0, s, c]])
        v = np.array([(Rx @ ref.axis_rot(1, o)).T @ x for x, o in zip(h, a[:, 2])])
    R = None if case['R'] is None else ref.e2r(case['R'])
    if R is not None:
        v = v @ R.T
    if case['inv']:
        v[:, 2] *= -1
    if np.any(abs(v[:, 2]) < 1e-9) or np.any(1 - abs(v[:, 2]) < 1e-4):
        raise Skip
    a0 = a.copy()
    got = zproject_sph_angles(a, chi=case['chi'], method=case['method'], source=case['src'], use_mask=case['mask'], invert_z=case['inv'], rmat=R)
    if case['mask']:
        got, m = got
        ctx.array_equal(np.asarray(m, bool), v[:, 2] <= 0, 'points of the lower hemisphere')
        v = v[v[:, 2] <= 0]
    ctx.close(np.asarray(got).reshape(-1, 2), plane(v, case['method']).reshape(-1, 2), 1e-8, 1e-8, 'projected points')
    ctx.array_equal(a, a0, 'input points')


@sub('C30', 'sphere_of_polar', st.fixed_dictionaries(dict(t0=S.num(3, 20), dt=S.num(15, 45), e0=S.num(-180, 180), de=S.num(60, 300), nt=st.integers(16, 28), ne=st.integers(30, 60), dim=st.integers(40, 70), what=st.sampled_from(['tth', 'eta']),
     method=st.sampled_from(['stereographic', 'equal-area']), vt=st.sampled_from(['d', 'q']), R=st.one_of(st.just([0.0] * 3), S.expmap(0.3)), bg=st.booleans(), set=st.booleans(), skip=st.sampled_from([1, 1, 2]))), n=40, parts=4,
     rule='pixels inside of the image')
def sphere_of_polar(case, ctx):
    nt, ne = case['nt'], case['ne']
    tth = case['t0'] + case['dt'] * (np.arange(nt) + 0.5) / nt
    eta = case['e0'] + case['de'] * (np.arange(ne) + 0.5) / ne
    T, E = np.meshgrid(tth, eta)
    img = (T if case['what'] == 'tth' else E).copy()
    pimg = dict(intensities=img, tth_coordinates=T, eta_coordinates=E)
    if case['bg']:
        pimg['snip_background'] = np.full(img.shape, 7.0); pimg['intensities'] = img + 7.0
    keep_ = {k: v.copy() for k, v in pimg.items()}
    R = ref.e2r(case['R'])
    if case['set']:
        sv = SphericalView(mapping='stereographic', vector_type='d', output_dim=10)
        sv.mapping = case['method']; sv.vector_type = case['vt']; sv.output_dim = case['dim']; sv.rmat = R
    else:
        sv = SphericalView(mapping=case['method'], vector_type=case['vt'], output_dim=case['dim'], rmat=R)
    w = sv.warp_polar_image(pimg, skip=case['skip'])
    for k, v in keep_.items():
        ctx.array_equal(pimg[k], v, 'the given image')
    n = case['dim']
    ctx.shape(w, (n, n), 'image')
    ps = 3.0 / n
    c, r = np.meshgrid(np.arange(n), np.arange(n))
    P = np.stack([(c - n / 2) * ps, (n / 2 - r) * ps], -1)
    lim = 2.0 if case['method'] == 'stereographic' else math.sqrt(2) - 1e-3
    v = unplane(P, case['method'])
    ok = np.hypot(P[..., 0], P[..., 1]) < lim
    if case['vt'] == 'q':
        v[..., 2] *= -1
    v = v @ R
    with np.errstate(all='ignore'):
        t = np.degrees(np.arccos(np.clip(-v[..., 2], -1, 1))) if case['vt'] == 'd' else 2 * np.degrees(np.arcsin(np.clip(v[..., 2], -1, 1)))
    e = np.degrees(np.arctan2(v[..., 1], v[..., 0]))
    e = case['e0'] + np.mod(e - case['e0'], 360)
    ht, he = case['dt'] / nt * case['skip'] * 1.5, case['de'] / ne * case['skip'] * 1.5
    a = (nt - 1) // case['skip'] * case['skip']; b = (ne - 1) // case['skip'] * case['skip']
    ok &= (t > tth[0] + ht) & (t < tth[a] - ht) & (e > eta[0] + he) & (e < eta[b] - he)
    ctx.nt(ok.sum() > 5)
    want = t if case['what'] == 'tth' else e
    # chords instead of arcs
    h = math.radians(case['de'] / ne * case['skip'])
    tol = 0.02 + np.degrees(h * h) * (1.0 if case['what'] == 'tth' else 1.5) + 0.02 * case['skip'] * (case['dt'] / nt)
    ctx.true(np.all(abs(w - want)[ok] < tol), 'angles at the pixels of the spherical image', worst=float(abs(w - want)[ok].max()) if ok.any() else 0, tol=tol)
    ctx.close(sv.output_dim, n, 0)
    ctx.raises(RuntimeError, lambda: setattr(sv, 'mapping', 'x')); ctx.raises(RuntimeError, lambda: setattr(sv, 'vector_type', 'x')); ctx.raises(AssertionError, lambda: setattr(sv, 'rmat', np.ones((3, 3))))


@sub('C30', 'sphere_of_map', st.fixed_dictionaries(dict(tt=st.lists(S.num(15, 40), min_size=1, max_size=3), e0=S.num(-60, 0), de=S.num(40, 60), o0=S.num(-40, 0), do=S.num(20, 40), ne=st.integers(20, 40), no=st.integers(15, 30), dim=st.integers(50, 80),
     what=st.sampled_from(['eta', 'ome']), method=st.sampled_from(['stereographic', 'equal-area']), vt=st.sampled_from(['d', 'q']), ids=st.booleans(), skip=st.sampled_from([1, 2]))), n=16, parts=4, rule='pixels inside of the image')
def sphere_of_map(case, ctx):
    ne, no, n = case['ne'], case['no'], case['dim']
    eta = np.radians(case['e0'] + case['de'] * (np.arange(ne) + 0.5) / ne)
    ome = np.radians(case['o0'] + case['do'] * (np.arange(no) + 0.5) / no)
    E, O = np.meshgrid(eta, ome, indexing='ij')
    base = np.degrees(E if case['what'] == 'eta' else O)
    tt = np.radians(case['tt'])
    em = NS(etas=eta, omegas=ome, dataStore=[base + 100 * k for k in range(len(tt))], planeData=NS(getTTh=lambda: tt), iHKLList=np.arange(len(tt)))
    for t in tt:
        z = direction(t, E[::case['skip'], ::case['skip']], O[::case['skip'], ::case['skip']], case['vt'])[..., 2]
        if np.mean((-z if case['vt'] == 'q' else z) < 0) < 0.3:
            raise Skip
    sv = SphericalView(mapping=case['method'], vector_type=case['vt'], output_dim=n)
    ids = [len(tt) - 1] if case['ids'] else None
    out = sv.warp_eta_ome_map(em, map_ids=ids, skip=case['skip'])
    ks = ids or list(range(len(tt)))
    if len(ks) == 1:
        out = [out]
    ctx.equal(len(out), len(ks), 'one image per map')
    ps = 3.0 / n
    c, r = np.meshgrid(np.arange(n), np.arange(n))
    P = np.stack([(c - n / 2) * ps, (n / 2 - r) * ps], -1)
    sk = case['skip']
    some = 0
    for k, w in zip(ks, out):
        ctx.shape(w, (n, n), 'image')
        # nearest node of a fine grid
        f = 8
        ef = np.linspace(eta[0], eta[(ne - 1) // sk * sk], ne * f); of = np.linspace(ome[0], ome[(no - 1) // sk * sk], no * f)
        EF, OF = np.meshgrid(ef, of, indexing='ij')
        V = direction(np.full(EF.shape, tt[k]), EF, OF, case['vt'])
        if case['vt'] == 'q':
            V[..., 2] *= -1
        inner = np.zeros(EF.shape, bool)
        m = 2 * f * sk
        inner[m:-m, m:-m] = True
        # nodes above the equator are left out, and so are their neighbours
        low = V[..., 2] < -0.25
        Q = plane(V, case['method'])
        x = Q[..., 0] / ps + n / 2; y = n / 2 - Q[..., 1] / ps
        xi, yi = np.round(x).astype(int), np.round(y).astype(int)
        close = (abs(x - xi) < 0.03) & (abs(y - yi) < 0.03) & inner & low & (xi >= 0) & (yi >= 0) & (xi < n) & (yi < n)
        if np.any(V[..., 2] > -0.02) and not case['vt'] == 'd':
            ctx.label('partly above')
        got = w[yi[close], xi[close]]
        want = np.degrees(EF if case['what'] == 'eta' else OF)[close] + 100 * k
        some += len(got)
        # how much the value changes over a tenth of a pixel, and over a chord
        tol = 1.0 + 2.5 * sk * (case['de'] / ne if case['what'] == 'eta' else case['do'] / no) * 0.5
        ctx.true(np.all(abs(got - want) < tol), 'angles at the pixels of the spherical image', worst=float(abs(got - want).max()) if len(got) else 0, tol=tol)
    ctx.nt(some > 0)
