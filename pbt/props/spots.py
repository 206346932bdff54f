"""C22: simulated rotation series and the reflections, maps and line-outs extracted from images."""
import math
import os

import h5py
import numpy as np
import scipy.ndimage as ndi
from hypothesis import strategies as st

from hexrd.core import distortion as dist
from hexrd.core import imageseries
from hexrd.core.imageseries.omega import OmegaImageSeries
from hexrd.core.instrument import hedm_instrument as hi
from hexrd.core.instrument.hedm_instrument import HEDMInstrument
from hexrd.core.material import crystallography as xt
from hexrd.core.valunits import valWUnit
from hexrd.hedm.xrdutil import utils as xu
from pbt import ref
from pbt.core import sub, Skip, warm
from pbt import strat as S
from pbt.props.transforms import beam_rmat, sample_rmat

PI = math.pi
KEV = 12.398419843320026
FAM = np.array([[1, 1, 1], [2, 0, 0], [2, 2, 0], [3, 1, 1], [2, 2, 2]])
RHO = 204.8


def ge_apply(a, xy):
    if a is None:
        return xy
    r = np.hypot(xy[..., 0], xy[..., 1]); e = np.arctan2(xy[..., 1], xy[..., 0])
    return xy * (1 + (r / RHO) ** 2 * (a[0] * np.cos(2 * e) + a[1] * np.cos(4 * e) + a[2]))[..., None]


grain_st = st.fixed_dictionaries(dict(q=S.quat(), t=S.vec(-0.5, 0.5), v=st.one_of(st.just([0.0] * 6), S.vec(-0.01, 0.01, 6))))
setup_st = st.fixed_dictionaries(dict(
    a=S.num(3, 6), nfam=st.integers(1, 5), energy=S.num(40, 90), be=st.one_of(st.none(), st.tuples(S.num(85, 95), S.num(85, 95))), chi=S.num(-0.1, 0.1), ts=st.one_of(S.vec(-1, 1), S.vec(-1, 1), st.just([0, 0, -1])),
    t=st.tuples(S.num(-60, 60), S.num(-60, 60), S.num(-600, -250)), tilt=S.expmap(0.25), rows=st.integers(30, 80), cols=st.integers(30, 80), ps=st.tuples(S.num(1.5, 5), S.num(1.5, 5)),
    ge=st.one_of(st.none(), st.tuples(S.num(-0.002, 0.002), S.num(-0.002, 0.002), S.num(-0.02, -0.005))), two=st.booleans(), buf=st.one_of(st.none(), S.num(0, 20)),
    ec=st.one_of(st.none(), st.none(), st.fixed_dictionaries(dict(intercept=S.num(-1, 1), slope=S.num(-500, 500), axis=st.sampled_from(['x', 'y'])))), g=grain_st))


class Setup:
    def __init__(self, c, group='oh'):
        self.c = c
        be = c['be'] or (90.0, 90.0)
        beam = dict(energy=c['energy'], vector=dict(azimuth=be[0], polar_angle=be[1]))
        if c['ec']:
            beam['energy_correction'] = c['ec']
        a, p = np.radians(be[0]), np.radians(be[1])
        self.b = -np.array([np.sin(p) * np.cos(a), np.cos(p), np.sin(p) * np.sin(a)])
        self.Rb = beam_rmat(self.b, np.array([1.0, 0, 0]))
        dets = {}
        for i in range(2 if c['two'] else 1):
            t = list(c['t'])
            if i:
                t[0] += c['cols'] * c['ps'][1]
            d = dict(transform=dict(tilt=list(c['tilt']), translation=t), pixels=dict(rows=c['rows'], columns=c['cols'], size=list(c['ps'])), saturation_level=1e9)
            if c['ge']:
                d['distortion'] = dict(function_name='GE_41RT', parameters=list(c['ge']) + [2.0, 2.0, 2.0])
            if c['buf']:
                d['buffer'] = [c['buf'], c['buf'] / 2]
            dets[f'p{i}'] = d
        self.inst = HEDMInstrument(dict(beam=beam, oscillation_stage=dict(chi=c['chi'], translation=list(c['ts'])), detectors=dets))
        self.wl = KEV / c['energy']
        self.pd = xt.PlaneData(FAM[:c['nfam']].T.copy(), [c['a']], 'oh', valWUnit('w', 'length', self.wl, 'angstrom'), 0.001)
        g = c['g']
        q = ref.unit(np.array(g['q'])); q = q if q[0] >= 0 else -q
        ang = 2 * math.acos(min(1, q[0])); ax = ref.unit(q[1:]) if np.linalg.norm(q[1:]) > 1e-12 else np.array([1.0, 0, 0])
        self.gp = np.r_[ang * ax, g['t'], np.array([1, 1, 1, 0, 0, 0]) + np.array(g['v'])]
        self.Rc = ref.e2r(self.gp[:3])
        self.ts, self.tc = np.array(c['ts'], float), np.array(g['t'], float)
        v = self.gp[6:] / np.r_[1, 1, 1, [math.sqrt(2)] * 3]
        self.Vinv = np.array([[v[0], v[5], v[4]], [v[5], v[1], v[3]], [v[4], v[3], v[2]]])
        self.wlc = self.wl
        if c['ec']:
            i = 'xy'.index(c['ec']['axis'])
            e = c['energy'] + (self.tc[i] + self.ts[i] - c['ec']['intercept']) * c['ec']['slope'] / 1000
            if e < 5:
                raise Skip
            self.wlc = KEV / e

    def hkls(self):
        out = []
        for i, h in enumerate(FAM[:self.c['nfam']]):
            orb = {tuple(s * x for s, x in zip(sg, p)) for p in {(h[0], h[1], h[2]), (h[0], h[2], h[1]), (h[1], h[0], h[2]), (h[1], h[2], h[0]), (h[2], h[0], h[1]), (h[2], h[1], h[0])}
                   for sg in [(i, j, k) for i in (1, -1) for j in (1, -1) for k in (1, -1)]}
            out += [(i,) + tuple(int(x) for x in o) for o in orb]
        return out

    def solutions(self):
        """(id, hkl, tth, eta, ome, clear) of every Bragg condition; unclear = close to grazing the Ewald sphere"""
        out = []
        Rx = ref.axis_rot(0, self.c['chi'])
        bs = Rx.T @ self.b
        for row in self.hkls():
            h = np.array(row[1:], float)
            g = self.Vinv @ (self.Rc @ (h / self.c['a']))
            n = np.linalg.norm(g)
            s = self.wlc * n / 2
            u = g / n
            if s >= 1:
                continue
            # b . R_y(w) u = -sin(theta):  R_y u = (ux c + uz s, uy, -ux s + uz c)
            A = bs[0] * u[0] + bs[2] * u[2]; B = bs[0] * u[2] - bs[2] * u[0]; C = -s - bs[1] * u[1]
            amp = math.hypot(A, B)
            if abs(abs(C) - amp) < 1e-4 * max(1, amp):
                out += [(row[0], row[1:], np.nan, np.nan, np.nan, False)]
                continue
            if abs(C) > amp:
                continue
            ph, al = math.atan2(B, A), math.acos(C / amp)
            for w in (ph + al, ph - al):
                G = sample_rmat(self.c['chi'], w) @ u
                d = self.b + 2 * s * G
                q = d @ self.Rb
                out.append((row[0], row[1:], 2 * math.asin(s), math.atan2(q[1], q[0]), math.remainder(w, 2 * PI), True))
        return out

    def project(self, det, tth, eta, ome):
        """detector coordinates (before distortion is taken out) and validity of rays (tth, eta) from the grain at ome"""
        tth, eta, ome = (np.atleast_1d(x).astype(float) for x in (tth, eta, ome))
        d = np.array([np.sin(tth) * np.cos(eta), np.sin(tth) * np.sin(eta), -np.cos(tth)]).T @ self.Rb.T
        Rd = ref.e2r(det.tilt)
        xy = np.full((len(d), 2), np.nan)
        for i in range(len(d)):
            P = self.ts + sample_rmat(self.c['chi'], ome[i]) @ self.tc
            n = Rd[:, 2]
            dn = d[i] @ n
            if abs(dn) < 1e-9:
                continue
            u = ((det.tvec - P) @ n) / dn
            if u < 0:
                continue
            X = P + u * d[i] - det.tvec
            xy[i] = X @ Rd[:, 0], X @ Rd[:, 1]
        return xy

    def on_panel(self, det, xy):
        """margin (mm) by which undistorted-inverse coordinates are inside the buffered panel"""
        b = det.panel_buffer
        bx, by = (0, 0) if b is None else (b[0], b[1])
        return np.minimum(0.5 * det.col_dim - bx - np.abs(xy[:, 0]), 0.5 * det.row_dim - by - np.abs(xy[:, 1]))


def xyz_angles(R):
    return np.array([math.atan2(R[2, 1], R[2, 2]), math.asin(max(-1, min(1, -R[2, 0]))), math.atan2(R[1, 0], R[0, 0])])


range_st = st.one_of(st.just([(-PI, PI)]), st.lists(S.num(0.3, 1.2), min_size=1, max_size=3))


def to_ranges(rs, start=-2.9):
    if not rs or isinstance(rs[0], (list, tuple)):
        return [tuple(r) for r in rs]
    out, lo = [], start
    for w in rs:
        out.append((lo, lo + w)); lo += w + 0.4
    return out


def in_ranges(x, ranges):
    """(inside, margin to the nearest limit)"""
    inside, m = False, PI
    for lo, hi_ in ranges:
        if hi_ - lo > 2 * PI - 1e-9:
            return True, PI
        o = (x - lo) % (2 * PI)
        inside |= o <= hi_ - lo
        m = min(m, o, abs(o - 2 * PI), abs(o - (hi_ - lo)))
    return inside, m


@sub('C22', 'simulated_rotation', st.fixed_dictionaries(dict(s=setup_st, er=range_st, wr=range_st, per=S.num(-6, 3), vecs=st.booleans(), wl=st.booleans())), n=220, parts=3,
     rule='strained, offset grains on one or two panels with tilt, distortion, buffers, inclined beams, energy gradients and restricted ranges; non-trivial: some reflections are recorded and some not')
def simulated_rotation(case, ctx):
    s = Setup(dict(case['s'], two=False, buf=None) if case['vecs'] else case['s'])
    er, wr = to_ranges(case['er']), to_ranges(case['wr'], -2.0)
    per = (case['per'], case['per'] + 2 * PI)
    sols = s.solutions()
    kw = dict(eta_ranges=er, ome_ranges=wr, ome_period=per)
    if case['wl']:
        kw['wavelength'] = s.wl
    if case['vecs']:
        det = s.inst.detectors['p0']
        half = (0.5 * det.col_dim, 0.5 * det.row_dim)
        res = {'p0': [[x] for x in xu.simulateGVecs(s.pd, np.r_[xyz_angles(ref.e2r(det.tilt)), det.tvec, s.inst.chi, s.inst.tvec], s.gp, ome_range=wr, ome_period=per, eta_range=er,
                      panel_dims=((-half[0], -half[1]), half), pixel_pitch=(det.pixel_size_row, det.pixel_size_col), distortion=det.distortion, beam_vector=s.b, energy_correction=case['s']['ec'])]}
        ctx.label('single panel vector')
    else:
        res = s.inst.simulate_rotation_series(s.pd, [s.gp], **kw)
        ctx.label('instrument')
    ctx.close(s.pd.wavelength, s.wl, 0, 1e-9, 'wavelength of the plane data')
    amb = {x[1] for x in sols if not x[5]}
    some = none = False
    for k, det in s.inst.detectors.items():
        ids, hk, ang, xy, aps = (np.asarray(x[0]) for x in res[k])
        if len(ids) == 0:
            hk, ang, xy, aps = (np.zeros((0, n)) for n in (3, 3, 2, 2))
        got = {}
        for i in range(len(ids)):
            got.setdefault(tuple(int(round(v)) for v in hk[i]), []).append(i)
        used = set()
        for hid, h, tth, eta, ome, clear in sols:
            if h in amb:
                continue
            P = s.project(det, tth, eta, ome)
            ein, em = in_ranges(eta, er); win, wm = in_ranges(ome, wr)
            if tth < 1e-3:
                continue
            ideal = s.on_panel(det, P)[0] if case['s']['ge'] is None else None
            near = min(em, wm) < 1e-6
            # match
            cand = [i for i in got.get(h, []) if abs(math.remainder(ang[i, 2] - ome, 2 * PI)) < 1e-5 and abs(math.remainder(ang[i, 1] - eta, 2 * PI)) < 1e-4]
            if not (ein and win) and not near:
                ctx.true(not cand, f'reflection {h} outside the ranges was returned')
                none = True
                continue
            if near:
                used.update(cand)
                continue
            if cand:
                ctx.equal(len(cand), 1, f'times reflection {h} is returned')
                i = cand[0]
                used.add(i)
                ctx.equal(int(ids[i]), hid, 'id')
                ctx.close(ang[i, 0], tth, 1e-7, 0, '2theta')
                ctx.true(per[0] - 1e-9 <= ang[i, 2] <= per[1] + 1e-9, f'omega {ang[i, 2]} in its period')
                ctx.close(ge_apply(case['s']['ge'], xy[i]), P[0], 1e-4, 0, 'position on the detector')
                ctx.true(s.on_panel(det, xy[i:i + 1])[0] > -1e-6, 'on the panel')
                some = True
            else:
                none = True
                if np.isfinite(P).all():
                    q = P[0].copy()
                    for _ in range(60):
                        if case['s']['ge'] is None:
                            break
                        q = q - (ge_apply(case['s']['ge'], q) - P[0])
                    if not np.isfinite(q).all() or np.abs(ge_apply(case['s']['ge'], q) - P[0]).max() > 1e-6 or np.hypot(*q) > 400:
                        continue
                    ctx.true(s.on_panel(det, q[None])[0] < 1e-4, f'reflection {h} at {q} is on panel {k} but was not returned')
        for h, ii in got.items():
            if h not in amb:
                ctx.true(set(ii) <= used, f'reflection {h} returned {len(ii)} times, {len(set(ii) - used)} of them do not satisfy the Bragg condition: {ang[ii]}')
        if len(xy) and not case['vecs']:
            ctx.close(aps, det.angularPixelSize(xy), 1e-9, 0, 'angular pixel sizes')
            # largest angle between neighbouring corners of a pixel placed there, seen from the sample origin of the laboratory frame
            hx, hy = det.pixel_size_col / 2, det.pixel_size_row / 2
            cr = ge_apply(case['s']['ge'], xy)[:, None, :] + np.array([[-hx, -hy], [hx, -hy], [hx, hy], [-hx, hy]])
            d = ref.unit(cr @ ref.e2r(det.tilt)[:, :2].T + det.tvec)
            q = d @ s.Rb
            t = np.arctan2(np.hypot(q[..., 0], q[..., 1]), -q[..., 2]); e = np.arctan2(q[..., 1], q[..., 0])
            dt = np.abs(t - np.roll(t, 1, axis=1)).max(1); de = e - np.roll(e, 1, axis=1)
            de = np.abs(np.arctan2(np.sin(de), np.cos(de))).max(1)
            ok = (t.min(1) > 1e-2) & (de < 3.1)
            ctx.close(aps[ok, 0], dt[ok], 1e-6, 0, 'angular size of the pixels, two-theta')
            ctx.close(aps[ok, 1], de[ok], 1e-5, 0, 'angular size of the pixels, eta')
    ctx.nt(some and none)


# ---------------------------------------------------------------------------------------------- patches and spots
@sub('C22', 'reflection_patches', st.fixed_dictionaries(dict(s=setup_st, tol=st.tuples(S.num(0.5, 3), S.num(1, 8)), npdiv=st.integers(1, 3), us=st.lists(st.tuples(S.num(0.1, 0.9), S.num(0.1, 0.9)), min_size=1, max_size=3),
     ome=st.one_of(st.none(), S.ang()), style=st.sampled_from(['yaml', 'hdf5']))), n=200, parts=2,
     rule='patches around points of the panel with any pixel shape, subdivision and window; non-trivial: non-square pixels, tilt and an offset grain')
def reflection_patches(case, ctx):
    s = Setup(dict(case['s'], two=False))
    det = s.inst.detectors['p0']
    ome = 0.0 if case['ome'] is None else case['ome']
    P0 = s.ts + sample_rmat(s.c['chi'], ome) @ s.tc
    Rd = ref.e2r(det.tilt)
    xy = np.array([[(u - 0.5) * det.col_dim, (v - 0.5) * det.row_dim] for u, v in case['us']])
    X = ge_apply(case['s']['ge'], xy)
    d = ref.unit(X[:, :1] * Rd[:, 0] + X[:, 1:] * Rd[:, 1] + det.tvec - P0)
    q = d @ s.Rb
    tth, eta = np.arccos(np.clip(d @ s.b, -1, 1)), np.arctan2(q[:, 1], q[:, 0])
    tt, et = case['tol']
    if np.any(tth < np.radians(tt) + 0.02):
        raise Skip('too close to the beam')
    ctx.nt(case['s']['ps'][0] != case['s']['ps'][1] and np.any(case['s']['tilt']))
    aps = det.angularPixelSize(xy, rMat_s=sample_rmat(s.c['chi'], ome), tVec_s=s.ts, tVec_c=s.tc)
    cfg = det.config_dict(s.inst.chi, s.inst.tvec, beam_energy=s.inst.beam_energy, beam_vector=s.inst.beam_vector, style=case['style'])
    kw = {} if case['ome'] is None else dict(omega=np.full(len(xy), ome))
    out = list(xu.make_reflection_patches(cfg, np.vstack([tth, eta]).T, aps, tth_tol=tt, eta_tol=et, npdiv=case['npdiv'], rmat_c=s.Rc, tvec_c=s.tc, **kw))
    ctx.equal(len(out), len(xy), 'patches')
    ge = case['s']['ge']
    for i, ((vt, ve), (vx, vy), conn, areas, (cx, cy), (ri, ci)) in enumerate(out):
        nt, ne = (math.ceil(w / math.degrees(p)) if w > math.degrees(p) else 1 for w, p in zip((tt, et), aps[i]))
        if any(abs(w / math.degrees(p) - round(w / math.degrees(p))) < 1e-6 for w, p in zip((tt, et), aps[i])):
            continue
        nt, ne = nt * case['npdiv'], ne * case['npdiv']
        ctx.equal(vt.shape, (ne + 1, nt + 1), 'vertices')
        wt, we = np.radians(np.linspace(-0.5, 0.5, nt + 1) * tt), np.radians(np.linspace(-0.5, 0.5, ne + 1) * et)
        ctx.close(vt, np.tile(tth[i] + wt, (ne + 1, 1)), 1e-10, 0, 'vertex 2theta'); ctx.close(ve, np.tile((eta[i] + we)[:, None], (1, nt + 1)), 1e-10, 0, 'vertex eta')
        V = s.project(det, vt.ravel(), ve.ravel(), np.full(vt.size, ome)).reshape(vt.shape + (2,))
        got = np.stack([vx, vy], axis=-1)
        ctx.close(ge_apply(ge, got), V, 1e-5, 0, 'vertex position')
        x, y = got[..., 0], got[..., 1]
        px = np.stack([x[:-1, :-1], x[:-1, 1:], x[1:, 1:], x[1:, :-1]]); py = np.stack([y[:-1, :-1], y[:-1, 1:], y[1:, 1:], y[1:, :-1]])
        A = 0.5 * np.abs(sum(px[k] * py[(k + 1) % 4] - px[(k + 1) % 4] * py[k] for k in range(4)))
        ctx.close(np.abs(areas), A, 1e-9, 1e-6, 'areas of the cells')
        tc_, ec_ = (vt[:-1, :-1] + vt[:-1, 1:]) / 2, (ve[:-1, :-1] + ve[1:, :-1]) / 2
        C = s.project(det, tc_.ravel(), ec_.ravel(), np.full(tc_.size, ome)).reshape(tc_.shape + (2,))
        cen = np.stack([cx, cy], axis=-1)
        ctx.close(ge_apply(ge, cen), C, 1e-5, 0, 'centre of a cell')
        fi, fj = (0.5 * det.row_dim - cy) / det.pixel_size_row, (cx + 0.5 * det.col_dim) / det.pixel_size_col
        ok = (fi > 0) & (fi < det.rows) & (fj > 0) & (fj < det.cols) & (np.abs(fi - np.round(fi)) > 1e-9) & (np.abs(fj - np.round(fj)) > 1e-9)
        ctx.array_equal(ri[ok], np.floor(fi[ok]).astype(int), 'pixel row of a cell'); ctx.array_equal(ci[ok], np.floor(fj[ok]).astype(int), 'pixel column of a cell')


spot_st = st.fixed_dictionaries(dict(s=setup_st, nfr=st.sampled_from([24, 36, 60]), w0=S.num(-180, 180), full=st.booleans(), seed=S.seeds, tth_tol=S.num(1, 3), eta_tol=S.num(2, 6), nome=S.num(0.5, 3),
                                     thr=st.sampled_from([0, 10, 25]), interp=st.sampled_from(['nearest', 'nearest', 'bilinear']), npdiv=st.integers(1, 2), period=st.booleans(),
                                     out=st.sampled_from(['none', 'text', 'hdf5']), full_output=st.booleans()))


@sub('C22', 'pull_spots', spot_st, n=90, parts=8,
     rule='images with spots painted at predicted reflections over noise, full turns or partial scans; non-trivial: spots found and reflections without signal')
def pull_spots(case, ctx):
    c = dict(case['s'], ec=None)
    s = Setup(c)
    r = S.rng(case['seed'])
    nf = case['nfr']
    span = 360.0 if case['full'] else 360.0 * nf / 90
    dom = span / nf
    w0 = case['w0']
    edges = w0 + dom * np.arange(nf + 1)
    om = np.vstack([edges[:-1], edges[1:]]).T
    per = (np.radians(w0 - 40), np.radians(w0 + 320)) if case['period'] else (np.radians(w0), np.radians(w0 + 360))
    sim = s.inst.simulate_rotation_series(s.pd, [s.gp], ome_ranges=[(np.radians(w0), np.radians(w0 + span))] if span < 359.9 else [(-PI, PI)], ome_period=per)
    thr = case['thr']
    images = {}
    for k, det in s.inst.detectors.items():
        im = r.integers(0, thr + 1, (nf,) + det.shape).astype(float) if thr else np.zeros((nf,) + det.shape)
        ids, hk, ang, xy, aps = (x[0] for x in sim[k])
        for j in range(len(ids)):
            if r.random() < 0.6:
                f = int(((np.degrees(ang[j, 2]) - w0) % 360) // dom)
                p = (int((0.5 * det.row_dim - xy[j, 1]) // det.pixel_size_row), int((xy[j, 0] + 0.5 * det.col_dim) // det.pixel_size_col))
                if f < nf:
                    for df, di, dj in [(0, 0, 0), (0, 1, 0), (0, 0, -1), (1, 0, 0)][:int(r.integers(1, 5))]:
                        if 0 <= f + df < nf and 0 <= p[0] + di < det.rows and 0 <= p[1] + dj < det.cols:
                            im[f + df, p[0] + di, p[1] + dj] = float(r.integers(100, 1000))
        images[k] = im
    ims = {k: OmegaImageSeries(imageseries.open(None, 'array', data=v, meta=dict(omega=om))) for k, v in images.items()}
    kw = dict(tth_tol=case['tth_tol'], eta_tol=case['eta_tol'], ome_tol=case['nome'] * dom, npdiv=case['npdiv'], threshold=thr, interp=case['interp'])
    if case['period']:
        kw['ome_period'] = per
    full = s.inst.pull_spots(s.pd, s.gp, ims, return_spot_list=True, **kw)
    io = {}
    d = os.path.join(ctx.scratch, 'out')
    if case['out'] != 'none':
        os.makedirs(d, exist_ok=True)
        io = dict(dirname=d, filename='spots_00000.out' if case['out'] == 'text' else 'grain', output_format=case['out'])
    sig, out = s.inst.pull_spots(s.pd, s.gp, ims, **kw, **io)
    ctx.equal([bool(x) for x in full[0]], [bool(x) for x in sig], 'signal flags')
    n_hit = n_miss = 0
    flags = iter(sig)
    bad_ids = []
    for k, det in s.inst.detectors.items():
        im = images[k]
        ids, hk, ang, xy, aps = (x[0] for x in sim[k])
        rows = list(zip(full[1][k], out[k]))
        ctx.equal(len(full[1][k]), len(out[k]), 'spots')
        by = {(tuple(int(v) for v in hk[j]), round(math.remainder(ang[j, 2], 2 * PI), 5)): j for j in range(len(ids))}
        for rec, tr in rows:
            (_, pid, peak, hid, hkl, te, ee, we, xyc, ijs, fr, data, pa, pxy, ma, mxy) = rec
            ctx.equal((tr[0], tr[1], tuple(tr[2])), (peak, hid, tuple(hkl)), 'trimmed record')
            ctx.close(tr[5], pa, 0, 0, 'predicted angles'); ctx.close(tr[6], ma, 0, 0, 'measured angles', nan=True)
            ctx.close(tr[7], mxy, 0, 0, 'measured position', nan=True); ctx.close(tr[8], pxy, 0, 0, 'predicted position')
            key = (tuple(int(v) for v in hkl), round(math.remainder(pa[2], 2 * PI), 5))
            if key in by:
                j = by[key]
                ctx.close(pa, ang[j], 1e-9, 0, 'predicted angles'); ctx.close(pxy, xy[j], 1e-7, 0, 'predicted position'); ctx.equal(int(hid), int(ids[j]), 'id')
            # the window of frames is centred on the predicted omega
            wc = (np.degrees(pa[2]) - w0) % 360
            nw = int(math.ceil(round(case['nome'] * dom, 9) / dom - 1e-9)) if case['nome'] > 1 else 1
            ctx.close(np.degrees(we), np.degrees(pa[2]) + np.linspace(-0.5, 0.5, len(we)) * (len(we) - 1) * (case['nome'] * dom if case['nome'] < 1 else dom), 1e-6, 0, 'omegas of the window')
            for w, f in zip(np.degrees(we), fr):
                x = ((w - w0) % 360) / dom
                if abs(x - round(x)) > 1e-6:
                    ctx.equal(int(f), int(x), 'frame of an omega')
            # cells read the pixels they fall in
            fi, fj = (0.5 * det.row_dim - xyc[1]) / det.pixel_size_row, (xyc[0] + 0.5 * det.col_dim) / det.pixel_size_col
            ok = (np.abs(fi - np.round(fi)) > 1e-6) & (np.abs(fj - np.round(fj)) > 1e-6)
            I, J = np.clip(np.floor(fi), 0, det.rows - 1).astype(int), np.clip(np.floor(fj), 0, det.cols - 1).astype(int)
            raw = np.stack([im[f, ijs[0], ijs[1]] for f in fr])
            ctx.array_equal(np.asarray(ijs[0])[ok], I[ok], 'pixel rows'); ctx.array_equal(np.asarray(ijs[1])[ok], J[ok], 'pixel columns')
            has = bool((raw > thr).any())
            if not has:
                n_miss += 1
                ctx.array_equal(data, raw, 'patch without signal')
                ctx.true(peak < 0, 'a reflection without signal has no peak'); bad_ids.append(peak)
                ctx.true(np.isnan(ma).all() and np.isnan(mxy).all() and np.isnan(tr[3]) and np.isnan(tr[4]), 'no measured values without signal')
                continue
            n_hit += 1
            if case['interp'] == 'nearest':
                ctx.array_equal(data, raw, 'patch intensities')
            else:
                gi, gj = (0.5 * det.row_dim - xyc[1]) / det.pixel_size_row - 0.5, (xyc[0] + 0.5 * det.col_dim) / det.pixel_size_col - 0.5
                inn = (gi > 0) & (gi < det.rows - 1) & (gj > 0) & (gj < det.cols - 1)
                for z, f in enumerate(fr):
                    v = ndi.map_coordinates(im[f], [gi[inn], gj[inn]], order=1)
                    ctx.close(data[z][inn], v, 1e-4, 1e-6, 'interpolated patch')
            lab, nn = ndi.label(data > thr, ndi.generate_binary_structure(3, 3) if len(fr) > 1 and case['nome'] > 0 else ndi.generate_binary_structure(3, 3))
            if nn == 0:
                continue
            ctx.equal(int(peak), int(pid), 'peak id')
            com = [np.array(ndi.center_of_mass(data, lab, i + 1)) for i in range(nn)]
            dd = [np.sum((x - np.array(data.shape) / 2) ** 2) for x in com]
            b = int(np.argmin(dd))
            if len(dd) > 1 and np.sort(dd)[1] - np.sort(dd)[0] < 1e-6:
                continue
            m = lab == b + 1
            ctx.close(tr[3], data[m].sum(), 1e-6, 1e-9, 'summed intensity'); ctx.close(tr[4], raw[m].max(), 1e-9, 0, 'largest intensity')
            cb = com[b] + 0.5
            ctx.close(ma[0], te[0] + cb[2] * (te[1] - te[0]), 1e-9, 0, 'measured 2theta'); ctx.close(ma[1], ee[0] + cb[1] * (ee[1] - ee[0]), 1e-9, 0, 'measured eta')
            wm = edges[fr[0]] + cb[0] * dom
            ctx.close(math.remainder(ma[2] - math.radians(wm), 2 * PI), 0, 1e-9, 0, 'measured omega')
            ctx.true(per[0] - 1e-9 <= ma[2] <= per[1] + 1e-9, 'measured omega in its period')
            P = s.project(det, ma[0], ma[1], ma[2])
            ctx.close(ge_apply(c['ge'], np.asarray(mxy)), P[0], 1e-4, 0, 'measured position')
    ctx.equal(bad_ids, [-100 - i for i in range(len(bad_ids))], 'ids of reflections without signal')
    ctx.nt(n_hit and n_miss)
    # the quick test for signal looks at the same reflections
    csig, cout = s.inst.pull_spots(s.pd, s.gp, ims, check_only=True, **{k: v for k, v in kw.items() if k not in ('npdiv', 'interp')})
    flags = []
    for k, det in s.inst.detectors.items():
        for ii, jj, fr in cout[k]:
            ctx.true(ii.min() >= 0 and jj.min() >= 0 and ii.max() < det.rows and jj.max() < det.cols, 'pixels tested are on the panel') if len(ii) else None
            flags.append(bool(any((images[k][f][ii, jj] > thr).any() for f in fr)))
        if case['interp'] == 'nearest':
            ctx.equal([list(map(int, x[2])) for x in cout[k]], [list(map(int, x[10])) for x in full[1][k]], 'frames tested')
            for (ii, jj, fr), rec in zip(cout[k], full[1][k]):
                # every pixel hit by the middle of an interior cell of the patch is inside the polygon of its corners
                if rec[11].shape[1] >= 5 and rec[11].shape[2] >= 5:
                    I, J = rec[9]
                    m = (slice(1, -1), slice(1, -1))
                    got = set(zip(ii.tolist(), jj.tolist()))
                    miss = [q for q in zip(np.asarray(I)[m].ravel().tolist(), np.asarray(J)[m].ravel().tolist()) if q not in got]
                    ctx.true(len(miss) <= 0.5 * rec[11][0][m].size, f'{len(miss)} pixels of a patch are not tested for signal')
    ctx.equal([bool(x) for x in csig], flags, 'signal of the pixels tested')
    if case['out'] == 'text':
        for k in s.inst.detectors:
            rows = np.atleast_2d(np.loadtxt(os.path.join(d, k, 'spots_00000.out'), ndmin=2))
            ctx.equal(len(rows), len(out[k]), 'lines written')
            for line, t in zip(rows, out[k]):
                ctx.equal([int(v) for v in line[:5]], [int(t[0]), int(t[1])] + [int(v) for v in t[2]], 'ids and hkl written')
                ctx.close(line[5:7], [t[3], t[4]], 0, 1e-5, 'intensities written', nan=True)
                ctx.close(line[7:], np.r_[t[5], t[6], t[8], t[7]], 0, 1e-14, 'angles and positions written', nan=True)
    elif case['out'] == 'hdf5':
        with h5py.File(os.path.join(d, 'grain.hdf5'), 'r') as h:
            ctx.close(h['grain/rmat_c'][()], s.Rc, 1e-9, 0, 'orientation written'); ctx.close(h['grain/tvec_c'][()], s.tc, 1e-12, 0, 'position written')
            ctx.close(h['grain/inv(V)_s'][()], s.gp[6:], 1e-12, 0, 'stretch written'); ctx.close(h['grain/vmat_s'][()], np.linalg.inv(s.Vinv), 1e-9, 0, 'stretch written')
            for k in s.inst.detectors:
                g = h['reflection_data'][k]
                ctx.equal(len(g), len(full[1][k]), 'spots written')
                for rec in full[1][k]:
                    (_, pid, peak, hid, hkl, te, ee, we, xyc, ijs, fr, data, pa, pxy, ma, mxy) = rec
                    q = g['spot_%05d' % pid]
                    ctx.equal((int(q.attrs['peak_id']), int(q.attrs['hkl_id']), [int(v) for v in q.attrs['hkl']]), (int(peak), int(hid), [int(v) for v in hkl]), 'ids written')
                    for nm, v in (('predicted_angles', pa), ('predicted_xy', pxy), ('measured_angles', ma), ('measured_xy', mxy)):
                        ctx.close(q.attrs[nm], v, 0, 0, nm, nan=True)
                    for nm, v in (('tth_crd', (te[:-1] + te[1:]) / 2), ('eta_crd', (ee[:-1] + ee[1:]) / 2), ('ome_crd', we), ('xy_centers', xyc), ('ij_centers', np.array(ijs)), ('frame_indices', fr), ('intensities', data)):
                        ctx.close(q[nm][()], v, 0, 1e-14, nm)
        os.remove(os.path.join(d, 'grain.hdf5'))


@sub('C22', 'polar_maps', st.fixed_dictionaries(dict(s=setup_st, nfr=st.integers(1, 5), seed=S.seeds, tth_tol=st.one_of(st.none(), S.num(0.3, 4)), eta_tol=st.sampled_from([1.0, 5.0, 10.0, 45.0]), thr=st.sampled_from([None, 50]),
     workers=st.integers(1, 3), active=st.booleans(), shared=st.booleans())), n=120, parts=3,
     rule='rings of generated instruments binned in eta, with thresholds, chosen reflections and several workers; non-trivial: some ring crosses the panels')
def polar_maps(case, ctx):
    s = Setup(dict(case['s'], two=case['s']['two']))
    r = S.rng(case['seed'])
    nf = case['nfr']
    s.inst.max_workers = case['workers']
    om = np.vstack([np.arange(nf), np.arange(nf) + 1.0]).T
    images = {k: r.integers(0, 100, (nf,) + d.shape).astype(float) for k, d in s.inst.detectors.items()}
    ims = {k: OmegaImageSeries(imageseries.open(None, 'array', data=v.copy(), meta=dict(omega=om))) for k, v in images.items()}
    width = 0.02
    s.pd.tThWidth = width
    tol = width if case['tth_tol'] is None else math.radians(case['tth_tol'])
    tth = np.array(s.pd.getTTh())
    act = None
    hid = np.asarray(s.pd.getHKLID(s.pd.hkls, master=True))
    sel = np.arange(len(tth))
    if case['active']:
        sel = r.permutation(len(tth))[:int(r.integers(1, len(tth) + 1))]
        act = [int(hid[i]) for i in sel]
    maps, ee = s.inst.extract_polar_maps(s.pd, ims, active_hkls=act, threshold=case['thr'], tth_tol=case['tth_tol'], eta_tol=case['eta_tol'])
    ne = round(360 / case['eta_tol'])
    ctx.equal(len(ee), ne + 1, 'number of eta edges')
    ctx.close(np.diff(ee), np.full(ne, np.radians(case['eta_tol'])), 1e-9, 0, 'eta bin width')
    hit = False
    for k, d in s.inst.detectors.items():
        m = maps[k]
        ctx.equal(m.shape, (len(sel), nf, ne), 'shape of the maps')
        pt, pe = d.pixel_angles()
        for a, i in enumerate(sel):
            lo, hi_ = tth[i] - tol / 2, tth[i] + tol / 2
            if np.any(np.abs(pt - lo) < 1e-10) or np.any(np.abs(pt - hi_) < 1e-10):
                continue
            p = (pt >= lo) & (pt <= hi_)
            e = pe[p]
            b = np.floor((e - ee[0]) / (ee[1] - ee[0])).astype(int)
            if np.any(np.abs((e - ee[0]) / (ee[1] - ee[0]) - np.round((e - ee[0]) / (ee[1] - ee[0]))) < 1e-9):
                continue
            inb = (b >= 0) & (b < ne)
            want = np.full((nf, ne), np.nan)
            for f in range(nf):
                v = images[k][f][p]
                if case['thr'] is not None:
                    v = np.where(v < case['thr'], 0, v)
                for x in np.unique(b[inb]):
                    want[f, x] = v[b == x].sum()
            hit |= bool(p.any())
            ctx.close(m[a], want, 1e-6, 1e-12, f'map of ring {i} on {k}', nan=True)
    ctx.nt(hit)
    for k, v in images.items():
        ctx.array_equal(np.stack([ims[k][f] for f in range(nf)]), v, 'images afterwards')


@sub('C22', 'line_positions', st.fixed_dictionaries(dict(s=setup_st, seed=S.seeds, eta_tol=st.sampled_from([7.5, 20.0, 40.0]), tth_tol=S.num(0.5, 4), npdiv=st.integers(1, 2), mode=st.sampled_from(['eta', 'tth', 'none']),
     nim=st.integers(1, 2), interp=st.booleans())), n=70, parts=3,
     rule='line-outs of planar intensity ramps around powder rings, collapsed in eta, 2theta or neither; non-trivial: some sector lies wholly on the panel')
def line_positions(case, ctx):
    s = Setup(dict(case['s'], two=False, ec=None, buf=None))
    det = s.inst.detectors['p0']
    r = S.rng(case['seed'])
    co = [r.uniform(0.2, 1, 2) * r.choice([-1, 1], 2) for _ in range(case['nim'])]
    yy, xx = det.pixel_coords
    ims = np.stack([500 + a * xx + b * yy for a, b in co])
    t0 = np.degrees(s.pd.getTTh())
    angs, xys, trs = det.make_powder_rings(list(t0), delta_tth=case['tth_tol'], delta_eta=case['eta_tol'])
    cfg = det.config_dict(chi=s.inst.chi, tvec=s.inst.tvec, beam_energy=s.inst.beam_energy, beam_vector=s.inst.beam_vector, style='hdf5')
    any_ = False
    ge = case['s']['ge']
    s.tc = np.zeros(3); s.ts = np.array(s.ts)
    for i in r.permutation(len(angs))[:2]:
        if len(angs[i]) == 0:
            continue
        tol = math.degrees(trs[i][1] - trs[i][0])
        if t0[i] < tol + 0.5:
            continue
        got = hi._extract_ring_line_positions((angs[i], xys[i], tol, [t0[i]]), instr_cfg=cfg, panel=det, eta_tol=case['eta_tol'], npdiv=case['npdiv'], collapse_tth=case['mode'] == 'tth',
                                              collapse_eta=case['mode'] == 'eta', images=ims, do_interpolation=case['interp'], do_fitting=False, fitting_kwargs={}, tth_distortion=None)
        aps = det.angularPixelSize(xys[i])
        jj = -1
        for q, (a, x) in enumerate(zip(angs[i], xys[i])):
            nt, ne = (case['npdiv'] * max(1, math.ceil(w / math.degrees(p))) for w, p in zip((tol, case['eta_tol']), aps[q]))
            if any(abs(w / math.degrees(p) - round(w / math.degrees(p))) < 1e-6 for w, p in zip((tol, case['eta_tol']), aps[q])):
                return
            wt, we = np.radians(np.linspace(-0.5, 0.5, nt + 1) * tol) + a[0], np.radians(np.linspace(-0.5, 0.5, ne + 1) * case['eta_tol']) + a[1]
            pts = lambda T, E: s.project(det, *[v.ravel() for v in np.meshgrid(T, E)], np.zeros(len(T) * len(E))).reshape(len(E), len(T), 2)
            V, C = pts(wt, we), pts((wt[1:] + wt[:-1]) / 2, (we[1:] + we[:-1]) / 2)
            if ge:
                def inv(Z):
                    Q = Z.copy()
                    for _ in range(80):
                        Q = Q - (ge_apply(ge, Q) - Z)
                    return Q
                V, C = inv(V), inv(C)
            if not np.isfinite(V).all():
                return
            mg = s.on_panel(det, C.reshape(-1, 2)).min()
            if abs(mg) < 1e-4:
                return
            if mg < 0:
                if case['mode'] == 'tth':
                    ctx.close(got[q], np.zeros(case['nim']), 0, 0, 'sector off the panel')
                continue
            jj += 1
            any_ = True
            X, Y = V[..., 0], V[..., 1]
            P = lambda Z: [Z[:-1, :-1], Z[:-1, 1:], Z[1:, 1:], Z[1:, :-1]]
            px, py = P(X), P(Y)
            A = 0.5 * np.abs(sum(px[k] * py[(k + 1) % 4] - px[(k + 1) % 4] * py[k] for k in range(4))) / det.pixel_area
            pats = []
            for m in range(case['nim']):
                if case['interp']:
                    # bilinear interpolation is exact for a ramp between pixel centres; outside the outermost centres rows and columns are clipped
                    inside = (np.abs(C[..., 0]) <= 0.5 * det.col_dim - det.pixel_size_col / 2) & (np.abs(C[..., 1]) <= 0.5 * det.row_dim - det.pixel_size_row / 2)
                    if not inside.all():
                        pats = None
                        break
                    v = 500 + co[m][0] * C[..., 0] + co[m][1] * C[..., 1]
                else:
                    fi, fj = (0.5 * det.row_dim - C[..., 1]) / det.pixel_size_row, (C[..., 0] + 0.5 * det.col_dim) / det.pixel_size_col
                    if (np.abs(fi - np.round(fi)) < 1e-4).any() or (np.abs(fj - np.round(fj)) < 1e-4).any():
                        pats = None
                        break
                    v = ims[m][np.floor(fi).astype(int), np.floor(fj).astype(int)]
                p = v * A
                ratio = 1 - p.min() / p.max()
                if abs(ratio - 0.01) < 1e-4:
                    pats = None
                    break
                pats.append(p if ratio >= 0.01 else None)
            if pats is None:
                continue
            if case['mode'] == 'tth':
                ctx.close(got[q], [0 if p is None else p.mean() for p in pats], 1e-5, 1e-5, 'mean intensity of a sector')
                continue
            ang, data = got[jj]
            if case['mode'] == 'eta':
                ctx.close(ang[0], (wt[1:] + wt[:-1]) / 2, 1e-9, 0, '2theta of the line-out'); ctx.close(ang[1], a[-1], 1e-12, 0, 'eta of the sector')
            else:
                ctx.close(ang[0], np.tile(wt, (ne + 1, 1)), 1e-9, 0, '2theta of the cells')
            pats = [p for p in pats if p is not None]
            ctx.equal(len(data), len(pats), 'line-outs')
            for dd, p in zip(data, pats):
                ctx.close(dd, p.mean(axis=0) if case['mode'] == 'eta' else p, 1e-5, 1e-5, 'line-out')
        if case['mode'] != 'tth':
            ctx.equal(len(got), jj + 1, 'sectors on the panel')
    ctx.nt(any_)


@sub('C22', 'grain_table', st.fixed_dictionaries(dict(seed=S.seeds, n=st.integers(1, 6), to=st.sampled_from(['file', 'stream', 'array']), strain=st.booleans())), n=150,
     rule='grain tables written to files, open files and arrays; non-trivial: strained grains')
def grain_table(case, ctx):
    r = S.rng(case['seed'])
    n = case['n']
    rows = []
    for i in range(n):
        e = r.normal(size=(3, 3)) * (0.02 if case['strain'] else 0)
        e = (e + e.T) / 2
        w, U = np.linalg.eigh(e)
        V = U @ np.diag(np.exp(-w)) @ U.T          # inverse stretch
        v = np.r_[V[0, 0], V[1, 1], V[2, 2], math.sqrt(2) * np.array([V[1, 2], V[0, 2], V[0, 1]])]
        gp = np.r_[r.normal(size=3), r.normal(size=3) * 10, v]
        rows.append((int(r.integers(0, 10 ** 6)), float(r.random()), float(r.random() * 10.0 ** r.integers(-3, 6)), gp, np.r_[e[0, 0], e[1, 1], e[2, 2], e[1, 2], e[0, 2], e[0, 1]]))
    ctx.nt(case['strain'])
    f = os.path.join(ctx.scratch, 'grains.out')
    arr = None
    if case['to'] == 'array':
        arr = np.zeros((n, 21)); w = hi.GrainDataWriter(array=arr)
    elif case['to'] == 'file':
        w = hi.GrainDataWriter(f)
    else:
        w = hi.GrainDataWriter(open(f, 'w'))
    for row in rows:
        w.dump_grain(*row[:4])
    w.close()
    tab = arr if arr is not None else np.loadtxt(f, ndmin=2)
    ctx.equal(tab.shape, (n, 21), 'table')
    for t, row in zip(tab, rows):
        ctx.equal(int(t[0]), row[0], 'grain id'); ctx.close(t[1], row[1], 6e-7, 0, 'completeness'); ctx.close(t[2], row[2], 0, 1e-6, 'chi^2')
        ctx.close(t[3:15], row[3], 0, 1e-14, 'parameters'); ctx.close(t[15:], row[4], 1e-10, 0, 'strain')


@warm('C22', preload=True)
def _warm():
    c = dict(a=4.0, nfam=3, energy=60.0, be=None, chi=0.01, ts=[0, 0, 0], t=(0, 0, -400.0), tilt=[0.01, 0, 0], rows=30, cols=32, ps=(3.0, 4.0), ge=(0.001, 0.001, -0.01), two=False, buf=None, ec=None,
             g=dict(q=[1, 0.2, 0.1, 0], t=[0, 0, 0], v=[0.0] * 6))
    s = Setup(c)
    om = np.vstack([np.arange(36) * 10.0, np.arange(36) * 10.0 + 10]).T
    ims = {'p0': OmegaImageSeries(imageseries.open(None, 'array', data=np.full((36, 30, 32), 50.0), meta=dict(omega=om)))}
    s.inst.pull_spots(s.pd, s.gp, ims, tth_tol=1.0, eta_tol=2.0, ome_tol=10.0, interp='bilinear')
    s.pd.tThWidth = 0.01
    s.inst.extract_polar_maps(s.pd, ims, eta_tol=10.0)
