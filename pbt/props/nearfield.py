"""C34 Near-field reconstruction: orientation testing, forward simulation, images, tomography and grain maps."""
import argparse
import math
import os
import warnings

import h5py
import numpy as np
import yaml
import scipy.ndimage as ndi
from hypothesis import strategies as st
from pbt import ref, strat as S
from pbt.core import sub, Skip, warm
from pbt.props.spots import FAM, KEV, Setup
from pbt.props.texture import mat_for
from pbt.props.transforms import sample_rmat
from hexrd.core.material import Material, save_materials_hdf5
from hexrd.core.material import crystallography as xt
from hexrd.core.valunits import valWUnit
from hexrd.hedm.grainmap import nfutil as nf, tomoutil as tm, vtkutil as vt

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    import imageio.v2 as iio

PI = math.pi
warnings.filterwarnings('ignore', message='.*ImageIO v3.*')

exp_st = st.fixed_dictionaries(dict(
    a=S.num(3, 6), nfam=st.integers(1, 5), energy=S.num(40, 80), chi=S.num(-0.05, 0.05), ts=S.vec(-0.3, 0.3), t=st.tuples(S.num(-1.5, 1.5), S.num(-1.5, 3), S.num(-12, -5)), tilt=S.expmap(0.1),
    rows=st.integers(8, 60), cols=st.integers(8, 60), ps=st.tuples(S.num(0.05, 0.3), S.num(0.05, 0.3)), o0=st.one_of(st.just(-PI), st.just(0.0), S.num(-4, 2)), ow=st.one_of(st.just(2 * PI), S.num(0.4, 6.2)),
    nframes=st.integers(1, 40), bsp=st.one_of(st.just([0.0, 0.0]), st.tuples(S.num(-1, 1), S.num(0.05, 2)))))
grains_st = st.lists(S.expmap(2.5), min_size=1, max_size=3)


class Nf:
    """An experiment, with an independent prediction of the reflections of a voxel"""

    def __init__(self, c, expmaps):
        self.c = c
        self.det = argparse.Namespace(tilt=list(c['tilt']), tvec=np.array(c['t'], float))
        self.ts = np.array(c['ts'], float)
        self.b, self.Rb = np.array([0, 0, -1.0]), None
        self.wl = self.wlc = KEV / c['energy']
        self.pd = xt.PlaneData(FAM[:c['nfam']].T.copy(), [c['a']], 'oh', valWUnit('w', 'length', self.wl, 'angstrom'), 0.001)
        self.expmaps = np.array(expmaps, float).reshape(-1, 3)
        self.Rcs = np.array([ref.e2r(e) for e in self.expmaps])
        self.Rd = ref.e2r(np.array(c['tilt']))
        e = self.exp = argparse.Namespace()
        R = self.Rd
        ang = np.array([math.atan2(R[2, 1], R[2, 2]), math.asin(max(-1, min(1, -R[2, 0]))), math.atan2(R[1, 0], R[0, 0])])
        nr, nc = c['rows'], c['cols']
        rp, cp = c['ps']
        e.n_grains, e.rMat_c, e.exp_maps = len(self.expmaps), self.Rcs.copy(), self.expmaps.copy()
        e.plane_data, e.detector_params, e.pixel_size = self.pd, np.r_[ang, c['t'], c['chi'], c['ts']], (rp, cp)
        self.lo, self.hi = c['o0'], c['o0'] + c['ow']
        e.ome_range, e.ome_period = [(self.lo, self.hi)], (self.lo, self.lo + 2 * PI)
        e.x_col_edges, e.y_row_edges = cp * (np.arange(nc + 1) - nc / 2), rp * (nr / 2 - np.arange(nr + 1))
        e.ome_edges = self.lo + np.arange(c['nframes'] + 1) * c['ow'] / c['nframes']
        e.ncols, e.nrows, e.nframes = nc, nr, c['nframes']
        e.rMat_d, e.tVec_d, e.chi, e.tVec_s = self.Rd.copy(), self.det.tvec.copy(), c['chi'], self.ts.copy()
        e.distortion, e.panel_dims = None, [(-nc * cp / 2, -nr * rp / 2), (nc * cp / 2, nr * rp / 2)]
        e.base = np.array([e.x_col_edges[0], e.y_row_edges[0], self.lo])
        e.inv_deltas = 1 / np.array([cp, -rp, c['ow'] / c['nframes']])
        e.clip_vals, e.bsp = np.array([nc, nr]), np.array(c['bsp'], float)

    hkls = Setup.hkls

    def rays(self, ig, Vinv=np.eye(3)):
        """[(omega, direction)] of all Bragg conditions of grain ig, or None when one is grazing"""
        out = []
        bs = ref.axis_rot(0, self.c['chi']).T @ self.b
        for row in self.hkls():
            g = Vinv @ (self.Rcs[ig] @ (np.array(row[1:], float) / self.c['a']))
            n = np.linalg.norm(g); s = self.wl * n / 2; u = g / n
            if s >= 1:
                continue
            A = bs[0] * u[0] + bs[2] * u[2]; B = bs[0] * u[2] - bs[2] * u[0]; C = -s - bs[1] * u[1]
            amp = math.hypot(A, B)
            if abs(abs(C) - amp) < 1e-4 * max(1, amp):
                return None
            if abs(C) > amp:
                continue
            ph, al = math.atan2(B, A), math.acos(C / amp)
            for w in (ph + al, ph - al):
                d = self.b + 2 * s * (sample_rmat(self.c['chi'], w) @ u)
                out.append((w, d))
        return out

    def hit(self, w, d, tc):
        """detector coordinates or None"""
        P = self.ts + sample_rmat(self.c['chi'], w) @ np.asarray(tc, float)
        n = self.Rd[:, 2]
        dn = d @ n
        if dn > -1e-9:
            return None
        u = ((self.det.tvec - P) @ n) / dn
        if u < 0:
            return None
        X = P + u * d - self.det.tvec
        return X @ self.Rd[:, 0], X @ self.Rd[:, 1]

    def frame(self, w):
        """(inside the range, frame index as a real number)"""
        o = (w - self.lo) % (2 * PI)
        return o <= self.c['ow'], o / self.c['ow'] * self.c['nframes'], min(o, 2 * PI - o, abs(o - self.c['ow']))

    def pixels(self, ig, tc, rays, window=True, bsp=True):
        """(frame, row, col) of the reflections of grain ig at tc that reach the panel; None when one is too close to a limit"""
        out = []
        c = self.c
        for w, d in rays:
            ok, z, m = self.frame(w)
            if c['ow'] < 2 * PI - 1e-9 and m < 1e-6:
                return None
            if not ok:
                continue
            if window:
                p0 = self.hit(w, d, np.zeros(3))
                if p0 is None:
                    continue
                mm = 10 - max(abs(p0[0]), abs(p0[1]))
                if abs(mm) < 1e-6:
                    return None
                if mm < 0:
                    continue
            p = self.hit(w, d, tc)
            if p is None:
                continue
            m = abs(p[1] - c['bsp'][0]) - c['bsp'][1] / 2
            if bsp:
                if c['bsp'][1] and abs(m) < 1e-7:
                    return None
                if m < 0:
                    continue
            x = p[0] / c['ps'][1] + c['cols'] / 2; y = c['rows'] / 2 - p[1] / c['ps'][0]
            inside = -1e-4 < x < c['cols'] + 1e-4 and -1e-4 < y < c['rows'] + 1e-4
            if not inside:
                continue
            if min(abs(v - round(v)) for v in (x, y, z)) < 1e-6:
                return None
            if 0 <= x < c['cols'] and 0 <= y < c['rows']:
                out.append((int(z), int(y), int(x)))
        return out


class Record:
    """result handler and progress observer"""

    def __init__(self):
        self.res, self.log = {}, []

    def handle_result(self, k, v):
        self.res[k] = v

    def start(self, name, n):
        self.log.append(('start', name, n))

    def update(self, v):
        self.log.append(('update', v))

    def finish(self):
        self.log.append(('finish',))


def controller(ncpus=1, chunk=100, limit=None):
    r = Record()
    c = nf.ProcessController(r, r, ncpus=ncpus, chunk_size=chunk)
    if limit is not None:
        c.set_limit('coords', lambda x: min(x, limit))
    return c, r


def voxels(seed, n, scale=0.8):
    return S.rng(seed).uniform(-scale, scale, (n, 3))


def stack_of(x, seed, p=0.4):
    return S.rng(seed + 7).random((x.nframes, x.nrows, x.ncols)) < p


def check_confidence(ctx, E, stack, vox, conf, bsp=True):
    ctx.shape(conf, (len(E.expmaps), len(vox)), 'one confidence per grain and voxel')
    seen = 0
    for ig in range(len(E.expmaps)):
        rays = E.rays(ig)
        if rays is None:
            ctx.label('grazing'); continue
        for iv, v in enumerate(vox):
            px = E.pixels(ig, v, rays)
            if px is None:
                ctx.label('borderline'); continue
            want = np.mean([stack[q] for q in px]) if px else 0.0
            seen = max(seen, len(px))
            ctx.close(conf[ig, iv], want, 1e-12, 0, 'confidence = bright fraction of the predicted reflections on the panel')
    ctx.label('reflections' if seen else 'none on the panel')
    return seen


@sub('C34', 'confidence', st.fixed_dictionaries(dict(e=exp_st, g=grains_st, seed=st.integers(0, 10 ** 6), n=st.integers(1, 6), chunk=st.integers(1, 8), p=S.num(0.1, 0.9))), n=260, parts=3,
     rule='some voxel has two or more reflections on the panel')
def confidence(case, ctx):
    E = Nf(case['e'], case['g'])
    vox = voxels(case['seed'], case['n'])
    stack = stack_of(E.exp, case['seed'], case['p'])
    keep, keepv = stack.copy(), vox.copy()
    c, rec = controller(chunk=case['chunk'])
    conf = nf.test_orientations(stack, E.exp, vox, c)
    seen = check_confidence(ctx, E, stack, vox, conf)
    ctx.nt(seen >= 2)
    ctx.array_equal(stack, keep, 'images are not changed'); ctx.array_equal(vox, keepv, 'voxels are not changed')
    ctx.array_equal(rec.res['confidence'], conf, 'the result handler receives the confidence')
    ups = [x[1] for x in rec.log[[i for i, x in enumerate(rec.log) if x[:2] == ('start', 'grand_loop')][0]:] if x[0] == 'update']
    ctx.equal(ups, sorted(ups), 'progress grows'); ctx.equal(ups[-1], len(vox), 'progress ends at the number of voxels')
    ctx.equal([x[0] for x in rec.log].count('start'), [x[0] for x in rec.log].count('finish'), 'every started step is finished')
    # moving all the brightness of one frame elsewhere cannot raise a confidence; all bright = 1 wherever a reflection is expected
    full = nf.test_orientations(np.ones_like(stack), E.exp, vox, controller()[0])
    ctx.true(((full == 1) | (full == 0)).all(), 'confidence with every pixel bright is 1 or no reflection at all')
    ctx.true((conf <= full + 1e-12).all(), 'more bright pixels never lower the confidence')
    inv = nf.test_orientations(~stack, E.exp, vox, controller()[0])
    ctx.close(conf + inv, full, 1e-12, 0, 'bright and dark fractions are complementary')


@sub('C34', 'parallel', st.fixed_dictionaries(dict(e=exp_st, g=grains_st, seed=st.integers(0, 10 ** 6), n=st.integers(1, 30), chunk=st.integers(1, 12), ncpus=st.integers(2, 4), limit=st.one_of(st.none(), st.integers(1, 25)))),
     n=60, parts=3, rule='more than one chunk')
def parallel(case, ctx):
    E = Nf(case['e'], case['g'])
    vox = voxels(case['seed'], case['n'])
    stack = stack_of(E.exp, case['seed'])
    n = min(case['n'], case['limit'] or 10 ** 6)
    ctx.nt(case['chunk'] < n); ctx.label('limited' if n < case['n'] else 'all')
    one = nf.test_orientations(stack, E.exp, vox[:n], controller(1, 10 ** 6)[0])
    for ncpus, chunk in ((1, case['chunk']), (case['ncpus'], case['chunk'])):
        c, rec = controller(ncpus, chunk, case['limit'])
        got = nf.test_orientations(stack, E.exp, vox, c)
        ctx.shape(got, (len(E.expmaps), n), 'confidence shape')
        ctx.array_equal(got, one, 'confidence is independent of the chunks and processes')
        ctx.equal(max(x[1] for x in rec.log if x[0] == 'update'), max(n, len(E.expmaps)), 'progress')


@sub('C34', 'forward_model', st.fixed_dictionaries(dict(e=exp_st, g=grains_st, seed=st.integers(0, 10 ** 6), v=st.one_of(st.just([0.0] * 6), S.vec(-0.01, 0.01, 6)), dil=st.tuples(st.integers(0, 2), st.integers(0, 2)))),
     n=200, parts=3, rule='two or more simulated reflections on the panel')
def forward_model(case, ctx):
    E = Nf(dict(case['e'], bsp=[0.0, 0.0]), case['g'])
    x = E.exp
    t = voxels(case['seed'], len(E.expmaps))
    v = np.array(case['v']) + np.array([1, 1, 1, 0, 0, 0])
    c, rec = controller()
    gp = [np.r_[e, p, v] for e, p in zip(E.expmaps, t)]
    st_ = nf.simulate_diffractions(gp, x, c)
    bits = np.unpackbits(st_, axis=-1)[..., :x.ncols].astype(bool)
    ctx.shape(bits, (x.nframes, x.nrows, x.ncols), 'one packed bit per pixel of every frame')
    w = v / np.r_[1, 1, 1, [math.sqrt(2)] * 3]
    Vinv = np.array([[w[0], w[5], w[4]], [w[5], w[1], w[3]], [w[4], w[3], w[2]]])
    want = np.zeros_like(bits)
    for ig in range(len(gp)):
        rays = E.rays(ig, Vinv)
        px = None if rays is None else E.pixels(ig, t[ig], rays, window=False)
        if px is None:
            raise Skip
        for q in px:
            want[q] = True
    ctx.nt(want.sum() >= 2)
    ctx.array_equal(bits, want, 'simulated images')
    if not any(case['v']):
        conf = nf.test_orientations(bits, x, t, controller()[0])
        for ig in range(len(gp)):
            if len(E.pixels(ig, t[ig], E.rays(ig)) or []):
                ctx.close(conf[ig, ig], 1.0, 1e-12, 0, 'the simulated grain is recovered with confidence 1 where it is')
    # dilation
    x.row_dilation, x.col_dilation = case['dil']
    if x.ncols % 8 == 0 or True:
        d = nf.dilate_image_stack(st_, x, controller()[0])
        got = np.unpackbits(d, axis=-1)[..., :x.ncols].astype(bool)
        dr, dc = case['dil']
        big = np.zeros_like(want)
        for f, r, cc in zip(*np.nonzero(want)):
            big[f, max(0, r - dr):r + dr + 1, max(0, cc - dc):cc + dc + 1] = True
        ctx.array_equal(got, big, 'dilated images')


@sub('C34', 'detector_scan', st.fixed_dictionaries(dict(e=exp_st, g=grains_st, seed=st.integers(0, 10 ** 6), which=st.integers(0, 6), n=st.integers(1, 3), shape=st.tuples(st.integers(1, 3), st.integers(1, 3)), d=S.num(0.2, 2))),
     n=60, parts=2, rule='two or more reflections on the panel somewhere in the scan')
def detector_scan(case, ctx):
    w, n = case['which'], case['n']
    ctx.label(w)
    E0 = Nf(case['e'], case['g'])
    nv = case['shape'][0] * case['shape'][1]
    vox = voxels(case['seed'], nv)
    stack = stack_of(E0.exp, case['seed'])
    dp = E0.exp.detector_params
    cur = [dp[5], dp[3], dp[4], math.degrees(dp[0]), math.degrees(dp[1]), math.degrees(dp[2]), 0.0][w]
    rng = [cur - case['d'], cur + case['d'], n]
    data, vec = nf.scan_detector_parm(stack, E0.exp, vox, controller()[0], w, rng, tuple(case['shape']))
    ctx.close(np.degrees(vec) if w > 2 else vec, np.linspace(rng[0], rng[1], n + 1), 1e-9, 0, 'scanned values')
    ctx.shape(data, (n + 1,) + tuple(case['shape']), 'one map per value')
    some = 0
    for j, val in enumerate(vec):
        c = dict(case['e'])
        E = Nf(c, case['g'])
        t = list(c['t'])
        if w < 3:
            t[[2, 0, 1][w]] = val
        E.det.tvec = np.array(t)
        a = dp[:3].copy()
        if 2 < w < 6:
            a[w - 3] = val
        E.Rd = ref.axis_rot(2, a[2]) @ ref.axis_rot(1, a[1]) @ ref.axis_rot(0, a[0])
        if w == 6:
            E.lo -= val
        for iv in range(nv):
            best, ok = 0.0, True
            for ig in range(len(E.expmaps)):
                rays = E.rays(ig)
                px = None
                if rays is not None:
                    # the list of reflections is that of the starting geometry
                    rr = [q for q in rays if (lambda p: p is not None and max(abs(p[0]), abs(p[1])) <= 10)(E0.hit(q[0], q[1], np.zeros(3)))]
                    px = E.pixels(ig, vox[iv], rr, window=False)
                if px is None:
                    ok = False
                elif px:
                    some = max(some, len(px))
                    best = max(best, np.mean([stack[q] for q in px]))
            if ok:
                ctx.close(data[j].ravel()[iv], best, 1e-12, 0, 'map of the best confidence with this value')
    ctx.nt(some >= 2)


# ------------------------------------------------------------------ maps
@sub('C34', 'grain_maps', st.fixed_dictionaries(dict(ng=st.integers(1, 6), shape=st.tuples(st.integers(1, 3), st.integers(1, 4), st.integers(1, 4)), seed=st.integers(0, 10 ** 6), thr=S.num(-0.1, 0.8), remap=st.booleans(), flat=st.booleans())),
     n=300, rule='two or more grains')
def grain_maps(case, ctx):
    rng = S.rng(case['seed'])
    sh = tuple(case['shape']); nv = int(np.prod(sh))
    raw = rng.random((case['ng'], nv)) if case['seed'] % 3 else rng.integers(0, 4, (case['ng'], nv)) / 4
    ids = rng.permutation(50)[:case['ng']] if case['remap'] else None
    keep = raw.copy()
    g, c = nf.process_raw_confidence(raw, None if case['flat'] else sh, id_remap=ids, min_thresh=case['thr'])
    ctx.nt(case['ng'] > 1); ctx.label('remapped' if case['remap'] else 'own numbers')
    ctx.array_equal(raw, keep, 'confidence is not changed')
    want_g, want_c = np.empty(nv, int), np.empty(nv)
    for i in range(nv):
        col = list(raw[:, i]); best = max(col); k = col.index(best)
        want_c[i] = best
        want_g[i] = -1 if best <= case['thr'] else (k if ids is None else ids[k])
    out = (nv,) if case['flat'] else sh
    ctx.array_equal(c, want_c.reshape(out), 'confidence map = highest confidence')
    ctx.array_equal(g, want_g.reshape(out), 'grain map = (far-field) number of the best grain, -1 where not indexed')
    # save and load
    p = os.path.join(ctx.scratch, 'x')
    X, Y, Z = (rng.random(out) for _ in range(3))
    ori = rng.random((case['ng'], 3))
    nf.save_nf_data(ctx.scratch + '/', 'x', g, c, X, Y, Z, ori, id_remap=ids)
    nf.save_raw_confidence(ctx.scratch + '/', 'x', raw, id_remap=ids)
    with np.load(p + '_grain_map_data.npz') as f:
        for k, v in dict(grain_map=g, confidence_map=c, Xs=X, Ys=Y, Zs=Z, ori_list=ori).items():
            ctx.array_equal(f[k], v, 'stored map data')
        ctx.equal('id_remap' in f, ids is not None, 'identifiers stored')
        if ids is not None:
            ctx.array_equal(f['id_remap'], ids, 'identifiers')
    with np.load(p + '_raw_confidence.npz') as f:
        ctx.array_equal(f['raw_confidence'], raw, 'stored confidence')


def parse_vtk(path):
    t = open(path).read().split('\n')
    i = next(k for k, s in enumerate(t) if s.startswith('POINTS'))
    n = int(t[i].split()[1])
    pts = np.array([[float(v) for v in s.split()] for s in t[i + 1:i + 1 + n]]).reshape(-1, 3)
    j = i + 1 + n
    m, tot = (int(v) for v in t[j].split()[1:])
    cells = [[int(v) for v in s.split()] for s in t[j + 1:j + 1 + m]]
    j += 1 + m
    types = [int(s) for s in t[j + 1:j + 1 + int(t[j].split()[1])]]
    j += 1 + m
    assert t[j].split()[0] == 'POINT_DATA' and int(t[j].split()[1]) == n
    ids = [int(s) for s in t[j + 3:j + 3 + n]]
    j += 3 + n
    conf = [float(s) for s in t[j + 2:j + 2 + n]]
    return pts, cells, tot, types, np.array(ids), np.array(conf)


@sub('C34', 'assembled_maps', st.fixed_dictionaries(dict(nscan=st.integers(1, 3), shape=st.tuples(st.integers(1, 3), st.integers(1, 4), st.integers(1, 4)), seed=st.integers(0, 10 ** 6), down=st.booleans(), sp=S.num(0.01, 2), lst=st.booleans(),
                                                         kinds=st.lists(st.sampled_from(['hdf5', 'npz', 'vtk']), min_size=1, max_size=3, unique=True))), n=150, rule='two or more volumes')
def assembled_maps(case, ctx):
    rng = S.rng(case['seed'])
    sh, ns = tuple(case['shape']), case['nscan']
    ctx.nt(ns > 1); ctx.label('top down' if case['down'] else 'bottom up')
    vols, stems = [], []
    for i in range(ns):
        v = dict(grain_map=rng.integers(-1, 9, sh), confidence_map=rng.random(sh), Xs=rng.normal(size=sh), Ys=rng.normal(size=sh), Zs=rng.normal(size=sh))
        np.savez(os.path.join(ctx.scratch, f's{i}_grain_map_data.npz'), **v)
        vols.append(v); stems.append(f's{i}')
    shifts = [case['sp'] * i for i in range(ns)]
    arg = [case['sp']]
    if case['lst'] and ns > 1:
        shifts = [float(s) for s in np.cumsum(rng.random(ns))]; arg = list(shifts)
    o = os.path.join(ctx.scratch, 'o')
    out = nf.output_grain_map(ctx.scratch, stems, o, arg, top_down=case['down'], save_type=case['kinds'])
    order = list(range(ns))[::-1] if case['down'] else list(range(ns))
    want = {k: np.concatenate([vols[i][k] + (shifts[p] if k == 'Ys' else 0) for p, i in enumerate(order)]) for k in vols[0]}
    names = ['grain_map', 'confidence_map', 'Xs', 'Ys', 'Zs']
    for k, a in zip(names, out):
        ctx.close(a, want[k], 1e-12, 0, 'assembled volume')
    files = {}
    for kind in case['kinds']:
        ctx.label(kind)
        if kind == 'npz':
            with np.load(o + '_assembled.npz') as f:
                for k in names:
                    ctx.close(f[k.replace('_map', '') if k == 'confidence_map' else k], want[k], 1e-12, 0, 'npz file')
        elif kind == 'hdf5':
            with h5py.File(o + '_assembled.h5', 'r') as f:
                for k in names:
                    ctx.close(f[k.replace('_map', '') if k == 'confidence_map' else k][()], want[k], 1e-12, 0, 'hdf5 file')
        else:
            files[o + '_assembled.vtk'] = want
    if case['lst'] is False:
        vt.output_grain_map_vtk(ctx.scratch, stems, 'w', case['sp'], top_down=case['down'])
        files[os.path.join(ctx.scratch, 'w_stitch.vtk')] = want
    for f in files:
        pts, cells, tot, types, ids, conf = parse_vtk(f)
        for i, k in enumerate(['Xs', 'Ys', 'Zs']):
            ctx.close(pts[:, i], want[k].ravel(), 1e-5, 1e-5, 'vtk points')
        ctx.array_equal(ids, want['grain_map'].ravel(), 'vtk grain numbers')
        ctx.close(conf, want['confidence_map'].ravel(), 1e-5, 1e-5, 'vtk confidence')
        full = want['Xs'].shape
        nc = int(np.prod([n - 1 for n in full]))
        ctx.equal((len(cells), tot, types), (nc, 9 * nc, [12] * nc), 'vtk cells: hexahedra between neighbouring voxels')
        got = {tuple(sorted(c[1:])) for c in cells}
        for c in cells:
            ctx.equal(c[0], 8, 'eight corners')
            q = np.array(np.unravel_index(c[1:], full)).T
            lo = q.min(0)
            ctx.equal(sorted(map(tuple, (q - lo).tolist())), sorted((i, j, k) for i in (0, 1) for j in (0, 1) for k in (0, 1)), 'corners of one cell')
        ctx.equal(len(got), nc, 'every cell once')


@sub('C34', 'voxel_grids', st.fixed_dictionaries(dict(n=st.integers(1, 7), nz=st.integers(1, 6), ny=st.integers(1, 5), sp=S.num(0.01, 1.3), v0=S.num(-2, 2), single=st.booleans())), n=300,
     rule='more than one layer')
def voxel_grids(case, ctx):
    n, sp, v0 = case['n'], case['sp'], case['v0']
    ny = 1 if case['single'] else case['ny']
    vb = [v0, v0] if case['single'] else [v0, v0 + ny * sp]
    ys = np.array([v0]) if case['single'] else v0 + sp * (np.arange(ny) + 0.5)
    ctx.nt(ny > 1)
    ce = sp * (np.arange(n) - (n - 1) / 2)
    for kind in ('box', 'tomo'):
        if kind == 'box':
            crd, m, X, Y, Z = nf.gen_nf_test_grid(n * sp, vb, sp)
            xs = zs = ce
        else:
            crd, m, X, Y, Z = nf.gen_nf_test_grid_tomo(n, case['nz'], vb, sp)
            xs, zs = sp * (np.arange(n) - n / 2), sp * (np.arange(case['nz']) - case['nz'] / 2)
        ctx.label(kind)
        sh = (ny, len(xs), len(zs))
        for a, nm in ((X, 'X'), (Y, 'Y'), (Z, 'Z')):
            ctx.shape(a, sh, 'layers x columns x depth')
        ctx.equal(m, len(crd), 'number of voxels'); ctx.equal(m, int(np.prod(sh)), 'number of voxels from the dimensions')
        ctx.close(X, np.broadcast_to(xs[None, :, None], sh), 1e-9, 0, 'x'); ctx.close(Z, np.broadcast_to(zs[None, None, :], sh), 1e-9, 0, 'z')
        ctx.close(Y, np.broadcast_to(ys[:, None, None], sh), 1e-9, 0, 'y')
        ctx.close(crd, np.array([X.ravel(), Y.ravel(), Z.ravel()]).T, 0, 0, 'coordinates in the order of the volumes')
    s = np.linspace(v0, v0 + 1, case['nz'])
    g = nf.generate_test_grid(v0, v0 + 1, case['nz'])
    ctx.equal(sorted(map(tuple, np.round(g, 9).tolist())), sorted((a, b, c) for a in np.round(s, 9) for b in np.round(s, 9) for c in np.round(s, 9)), 'cubic grid')


# ---------------------------------------------------------------- images
def write_images(d, stem, nums, imgs, digits=5, ext='.tif'):
    for k, im in zip(nums, imgs):
        iio.imwrite(os.path.join(d, f'{stem}{int(k):0{digits}d}{ext}'), im)


def cross_dilate(a, it):
    for _ in range(it):
        b = a.copy()
        for ax in range(a.ndim):
            lo = [slice(None)] * a.ndim; hi = list(lo)
            lo[ax], hi[ax] = slice(None, -1), slice(1, None)
            b[tuple(hi)] |= a[tuple(lo)]; b[tuple(lo)] |= a[tuple(hi)]
        a = b
    return a


def cross_erode(a, it):
    p = np.pad(~a, it + 1, constant_values=True)
    q = cross_dilate(p, it)
    return ~q[tuple(slice(it + 1, -it - 1) for _ in a.shape)]


@sub('C34', 'near_field_images', st.fixed_dictionaries(dict(n=st.integers(1, 6), sh=st.tuples(st.integers(4, 14), st.integers(4, 14)), seed=st.integers(0, 10 ** 6), n0=st.integers(0, 99990), dark=st.sampled_from(['median', 'min']),
                                                            kind=st.sampled_from(['gaussian', 'default', 'erode']), er=st.integers(1, 2), di=st.integers(1, 3), od=st.integers(1, 2), thr=S.num(0.5, 60), sig=S.num(0.5, 3), size=st.integers(1, 5))),
     n=150, rule='some pixels bright and some dark')
def near_field_images(case, ctx):
    rng = S.rng(case['seed'])
    d = ctx.scratch + '/'
    n, sh = case['n'], tuple(case['sh'])
    imgs = rng.integers(0, 40, (n,) + sh).astype(np.uint16)
    for i in range(n):
        r, c = rng.integers(0, sh[0]), rng.integers(0, sh[1])
        imgs[i, max(0, r - 2):r + 3, max(0, c - 2):c + 3] += np.uint16(rng.integers(50, 900))
    nums = case['n0'] + np.arange(n)
    write_images(d, 'q_', nums, imgs)
    nd = rng.integers(1, n + 1)
    dark = nf.gen_nf_dark(d, nums, nd, sh[0], sh[1], dark_type=case['dark'], stem='q_')
    want = np.array([[(np.median if case['dark'] == 'median' else min)([int(imgs[k, i, j]) for k in range(nd)]) for j in range(sh[1])] for i in range(sh[0])])
    ctx.close(dark, want, 1e-12, 0, 'dark image of the first images')
    ctx.close(tm.gen_median_image(d, int(nums[0]), n, sh[0], sh[1], stem='q_'), np.median(imgs, axis=0), 1e-12, 0, 'median image')
    ctx.close(tm.gen_bright_field(d, int(nums[0]), n, sh[0], sh[1], stem='q_'), np.median(imgs, axis=0), 1e-12, 0, 'bright field')
    kw = {}
    ctx.label(case['kind'])
    sub_ = imgs.astype(float) - dark
    out = []
    if case['kind'] == 'erode':
        kw = dict(process_type='dilations_only', process_args=[case['er'], case['di']])
        for im in sub_:
            out.append(cross_dilate(cross_erode(im > case['thr'], case['er']), case['di']))
    else:
        sig, size = 4.5, 5
        if case['kind'] == 'gaussian':
            sig, size = case['sig'], case['size']
            kw = dict(process_type='gaussian', process_args=np.array([sig, size]))
        for im in sub_:
            g = ndi.gaussian_filter(im, sig, mode='nearest', truncate=4.0)
            g = ndi.grey_erosion(ndi.grey_dilation(g, size=(size, size)), size=(size, size))
            if np.abs(g - case['thr']).min() < 1e-9:
                raise Skip
            b = g > case['thr']
            lab, k = ndi.label(~b)
            edge = set(lab[0]) | set(lab[-1]) | set(lab[:, 0]) | set(lab[:, -1])
            out.append(b | ~np.isin(lab, [e for e in edge if e]) & (lab > 0))
    want = cross_dilate(np.array(out), case['od'])
    ctx.nt(want.any() and not want.all())
    got = nf.gen_nf_cleaned_image_stack(d, nums, dark, sh[0], sh[1], threshold=case['thr'], ome_dilation_iter=case['od'], stem='q_', **kw)
    ctx.array_equal(np.asarray(got, bool), want, 'cleaned stack')
    ctx.equal(np.asarray(got).dtype, np.dtype(bool), 'boolean stack')


# ---------------------------------------------------------------- tomography
def comps(b):
    """4-connected components as lists of pixels"""
    left = set(zip(*np.nonzero(b))); out = []
    while left:
        s = [left.pop()]; comp = []
        while s:
            p = s.pop(); comp.append(p)
            for q in ((p[0] + 1, p[1]), (p[0] - 1, p[1]), (p[0], p[1] + 1), (p[0], p[1] - 1)):
                if q in left:
                    left.remove(q); s.append(q)
        out.append(comp)
    return out


@sub('C34', 'tomography', st.fixed_dictionaries(dict(n=st.integers(1, 4), sh=st.tuples(st.integers(4, 12), st.integers(4, 12)), seed=st.integers(0, 10 ** 6), df=st.booleans(), p=S.num(0.05, 0.6), di=st.integers(1, 2), er=st.integers(1, 2),
                                                     noise=st.integers(0, 12), hole=st.integers(0, 12), edge=st.one_of(st.none(), st.integers(1, 2)), k=st.integers(1, 5), m=st.integers(3, 9), cut=st.integers(0, 2), rad=st.one_of(st.none(), S.num(0.3, 6)))),
     n=200, rule='two or more separate objects or holes')
def tomography(case, ctx):
    rng = S.rng(case['seed'])
    d = ctx.scratch + '/'
    n, sh = case['n'], tuple(case['sh'])
    # attenuation
    df = rng.uniform(0, 20, sh) if case['df'] else np.zeros(sh)
    tbf = df + rng.uniform(500, 2000, sh)
    mu = rng.uniform(-0.1, 3, (n,) + sh)
    write_images(d, 'nf_', range(5, 5 + n), (df + (tbf - df) * np.exp(-mu)).astype(np.float32))
    kw = dict(tdf=df) if case['df'] else {}
    ctx.label('dark field' if case['df'] else 'no dark field')
    got = tm.gen_attenuation_rads(d, tbf, 5, n, sh[0], sh[1], **kw)
    ctx.close(got, mu, 1e-4, 0, 'absorption of the radiographs')
    # cleaning
    fbp = rng.random((12 + sh[0], 12 + sh[1]))
    thr = 1 - case['p'] ** 3
    b = cross_erode(cross_dilate(fbp > thr, case['di']), case['er'])
    objs = comps(b)
    for o in objs:
        if len(o) < case['noise']:
            for q in o:
                b[q] = False
    holes = comps(~b)
    for o in holes:
        if len(o) < case['hole']:
            for q in o:
                b[q] = True
    if case['edge'] is not None:
        b = cross_dilate(cross_erode(b, case['edge']), case['edge'])
    ctx.nt(len(objs) > 1 or len(holes) > 1)
    keep = fbp.copy()
    got = tm.threshold_and_clean_tomo_layer(fbp, thr, case['noise'], case['hole'], edge_cleaning_iter=case['edge'], erosion_iter=case['er'], dilation_iter=case['di'])
    ctx.array_equal(fbp, keep, 'reconstruction is not changed')
    ctx.array_equal(np.asarray(got, bool), b, 'cleaned layer: small objects removed, small holes closed')
    # cropping and rebinning a layer made of k x k blocks
    k, m, cut = case['k'], case['m'], min(case['cut'], (case['m'] - 1) // 2)
    small = rng.random((m, m)) < 0.5
    layer = np.kron(small, np.ones((k, k))).astype(bool)
    ps = 0.01
    dim = (m - 2 * cut) * k * ps
    got = tm.crop_and_rebin_tomo_layer(layer, 0.5, k * ps, ps, dim, circular_mask_rad=None if case['rad'] is None else case['rad'] * k * ps)
    want = small[cut:m - cut, cut:m - cut].copy()
    ctx.shape(got, want.shape, 'cropped to the cross section')
    if case['rad'] is not None:
        R = np.round(case['rad'])
        for i in range(len(want)):
            for j in range(len(want)):
                if (i - len(want) / 2) ** 2 + (j - len(want) / 2) ** 2 > R * R:
                    want[i, j] = False
    ctx.array_equal(np.asarray(got, bool), want, 'rebinned layer')


@sub('C34', 'tomo_reconstruction', st.fixed_dictionaries(dict(rad=S.num(5, 9), off=st.tuples(S.num(-6, 6), S.num(-6, 6)), na=st.integers(60, 120), shift=st.integers(-8, 8), half=st.booleans(), mu=S.num(0.5, 4), a0=S.num(-90, 90))), n=24, parts=1,
     rule='a disc away from the rotation axis')
def tomo_reconstruction(case, ctx):
    N, ps, na = 120, 0.01, case['na']
    span = 180.0 if case['half'] else 360.0
    x0, y0 = case['off']
    sh = case['shift']
    ctx.nt(math.hypot(x0, y0) > 1); ctx.label('centred axis' if sh == 0 else 'shifted axis')

    def sino(a0):
        th = np.radians(np.linspace(a0, a0 + span, na, endpoint=False))
        s = np.arange(N) - (N // 2 + sh)
        q = x0 * np.cos(th) - y0 * np.sin(th)
        return case['mu'] * 2 * np.sqrt(np.maximum(0, case['rad'] ** 2 - (s[None, :] - q[:, None]) ** 2))
    dim = 50 * ps
    rads = np.zeros((na, 3, N)); rads[:, 1] = sino(case['a0'])
    rec = tm.tomo_reconstruct_layer(rads, dim, layer_row=1, start_tomo_ang=case['a0'], end_tomo_ang=case['a0'] + span, tomo_num_imgs=na, center=-sh * ps, pixel_size=ps)
    ctx.equal(rec.shape[0], rec.shape[1], 'square layer')
    M = rec.shape[0]; c = M // 2
    ctx.true(M <= 2 * int(dim / ps / 2 * 1.1) + 1 and M >= dim / ps, 'the layer covers the cross section', M=M)
    # iradon: row = -y-like, col = x; then turned by three quarter turns
    i, j = np.indices(rec.shape)
    base = np.rot90(rec, 1)
    X, Y = j - c, i - c
    r2 = np.hypot(X - x0, Y - y0)
    lim = np.hypot(X, Y) < c - 1
    ins, outs = base[(r2 < case['rad'] - 2) & lim], base[(r2 > case['rad'] + 3) & lim]
    ctx.close(ins.mean(), case['mu'], 0, 0.06, 'absorption inside the disc')
    ctx.close(outs.mean(), 0, 0.05 * case['mu'], 0, 'nothing outside the disc')


# ---------------------------------------------------------------- trial data
@sub('C34', 'trial_experiment', st.fixed_dictionaries(dict(e=exp_st, ng=st.integers(1, 5), seed=st.integers(0, 10 ** 6), comp=S.num(0, 0.6), chi2=S.num(0.3, 1), k=st.integers(0, 2), sp=S.num(0.05, 0.4), tth=st.one_of(st.none(), S.num(6, 25), S.num(6, 25), S.num(6, 25)), frac=st.booleans())),
     n=40, parts=2, rule='a misorientation grid, or several grains of which some are left out')
def trial_experiment(case, ctx):
    c, rng = dict(case['e'], energy=max(65.0, case['e']['energy'])), S.rng(case['seed'])
    ng, k = case['ng'], case['k']
    gr = np.zeros((ng, 21)); gr[:, 0] = np.arange(ng); gr[:, 1:3] = rng.random((ng, 2)); gr[:, 3:6] = rng.normal(size=(ng, 3)); gr[:, 6:9] = rng.normal(size=(ng, 3))
    cut = [i for i in range(ng) if gr[i, 1] > case['comp'] and gr[i, 2] < case['chi2']]
    if not cut:
        raise Skip
    # Ni (111) has d = 2.03 A: something must diffract
    tmx = case['tth'] if case['tth'] is not None else math.degrees(math.atan(0.4 * min(c['rows'] * c['ps'][0], c['cols'] * c['ps'][1]) / 12))
    if KEV / c['energy'] / 2 / math.sin(math.radians(tmx) / 2) > 1.9:
        raise Skip
    ctx.nt(k > 0 or 1 <= len(cut) < ng); ctx.label('one grain in the file' if ng == 1 else 'several grains')
    gf, df, mf = (os.path.join(ctx.scratch, x) for x in ('grains.out', 'det.yml', 'm.h5'))
    np.savetxt(gf, gr)
    with open(df, 'w') as f:
        yaml.safe_dump(dict(beam=dict(energy=c['energy'], vector=dict(azimuth=90.0, polar_angle=90.0)), oscillation_stage=dict(chi=c['chi'], translation=list(c['ts'])),
                            detectors=dict(nf=dict(transform=dict(tilt=list(c['tilt']), translation=list(c['t'])), pixels=dict(rows=c['rows'], columns=c['cols'], size=list(c['ps'])), saturation_level=14000))), f)
    m = Material('Ni')
    save_materials_hdf5(mf, {m.name: m})
    bnd = k * case['sp'] if k else (0.4 * case['sp'] if case['frac'] else 0.0)
    deg = (math.degrees(c['o0']), math.degrees(c['o0'] + c['ow']))
    x, ids = nf.gen_trial_exp_data(gf, df, mf, 'Ni', case['tth'], case['comp'], case['chi2'], bnd, case['sp'], [deg], c['nframes'], np.array(c['bsp']))
    n = x.n_grains
    ctx.equal((len(x.exp_maps), len(x.rMat_c), len(ids), n % len(cut)), (n, n, n, 0), 'orientations, rotations and source grains go together')
    if k or bnd == 0:
        ctx.equal(n, len(cut) * (2 * k + 1) ** 3, 'the misorientation grid reaches the bound on both sides')
    srt = []
    for i in range(n):
        ctx.true(int(ids[i]) in cut, 'source grain passes the thresholds')
        dv = np.abs(x.exp_maps[i] - gr[int(ids[i]), 3:6]).max()
        ctx.true(dv <= math.radians(bnd + case['sp']) + 1e-9, 'trial orientation is near the grain it is labelled with', i=i, d=dv)
        ctx.close(x.rMat_c[i], ref.e2r(x.exp_maps[i]), 1e-9, 0, 'rotation matrix')
        srt.append((int(ids[i]),) + tuple(np.round(x.exp_maps[i], 7)))
    ctx.equal(len(set(srt)), n, 'no trial orientation twice')
    if k or bnd == 0:
        for g in cut:
            ctx.true(min(np.abs(x.exp_maps[i] - gr[g, 3:6]).max() for i in range(n) if ids[i] == g) < 1e-9, 'the grain itself is tried')
    w = Nf(c, x.exp_maps).exp
    for nm in ('pixel_size', 'ome_range', 'ome_period', 'x_col_edges', 'y_row_edges', 'ome_edges', 'rMat_d', 'tVec_d', 'tVec_s', 'chi', 'panel_dims', 'base', 'inv_deltas', 'clip_vals', 'bsp', 'ncols', 'nrows', 'nframes', 'detector_params'):
        ctx.close(np.asarray(getattr(x, nm), float), np.asarray(getattr(w, nm), float), 1e-8, 1e-8, 'experiment layout')
    pd = x.plane_data
    ctx.close(pd.wavelength, KEV / c['energy'], 0, 1e-8, 'wavelength of the instrument')
    tmax = math.radians(case['tth']) if case['tth'] is not None else None
    if tmax is not None:
        ctx.true((pd.getTTh() <= tmax + 1e-9).all(), 'reflections within the maximum angle')
        a = m.latticeParameters[0].getVal('angstrom')
        want = sorted({h * h + kk * kk + l * l for h in range(12) for kk in range(12) for l in range(12) if h % 2 == kk % 2 == l % 2 and h + kk + l and KEV / c['energy'] * math.sqrt(h * h + kk * kk + l * l) / 2 / a <= math.sin(tmax / 2) * (1 - 1e-9)})
        got = sorted({int(q @ q) for q in np.atleast_2d(pd.hkls.T)}) if len(pd.getTTh()) else []
        ctx.true(got and got == want[:len(got)], 'allowed reflections, from the first one', got=got, want=want)


@warm('C34')
def _warm():
    E = Nf(dict(a=4.0, nfam=3, energy=60.0, chi=0.0, ts=[0, 0, 0], t=[0, 0, -6.0], tilt=[0, 0, 0], rows=20, cols=20, ps=[0.2, 0.2], o0=-PI, ow=2 * PI, nframes=10, bsp=[0, 0.1]), [[0.1, 0.2, 0.3]])
    nf.test_orientations(np.ones((10, 20, 20), bool), E.exp, np.zeros((2, 3)), controller()[0])
    try:
        nf.simulate_diffractions([np.r_[0.1, 0.2, 0.3, 0, 0, 0, 1, 1, 1, 0, 0, 0]], E.exp, controller()[0])
    except Exception:
        pass
    rm = Material('Ni'); rm.planeData
