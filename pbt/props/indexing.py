"""C25: orientation indexing from eta-omega maps."""
import copy
import math
import os
from types import SimpleNamespace as NS

import numpy as np
from hypothesis import strategies as st

from hexrd.core import imageseries
from hexrd.core import rotations as rot
from hexrd.core.imageseries.omega import OmegaImageSeries
from hexrd.core.material import crystallography as xt
from hexrd.core.transforms import xfcapi
from hexrd.core.valunits import valWUnit
from hexrd.hedm import findorientations as fo
from hexrd.hedm import indexer
from hexrd.hedm.instrument import GenerateEtaOmeMaps
from hexrd.hedm.xrdutil import EtaOmeMaps
from pbt import ref
from pbt.core import sub, Skip, warm
from pbt import strat as S
from pbt.props.spots import Setup, setup_st, KEV

PI = math.pi
CELLS = {'oh': ([[1, 1, 1], [2, 0, 0], [2, 2, 0], [3, 1, 1]], lambda a, c: [a]),
         'd6h': ([[1, 0, 0], [0, 0, 2], [1, 0, 1], [1, 1, 0]], lambda a, c: [a, c]),
         'd4h': ([[1, 0, 1], [1, 1, 0], [2, 1, 1], [0, 0, 2]], lambda a, c: [a, c]),
         'd2h': ([[1, 1, 0], [0, 1, 1], [2, 0, 1], [1, 2, 1]], lambda a, c: [a, 0.9 * c, c]),
         'd3d': ([[0, 0, 3], [1, 0, 1], [1, 1, 0], [2, 0, 1]], lambda a, c: [a, c]),
         'ci': ([[1, 0, 0], [0, 1, 1], [1, 1, -1], [2, 0, 1]], lambda a, c: [a, 1.1 * a, c, 95.0, 101.0, 83.0])}


def plane_data(lg, a, c, energy, excl=()):
    h, f = CELLS[lg]
    pd = xt.PlaneData(np.array(h).T, f(a, c), lg, valWUnit('w', 'length', KEV / energy, 'angstrom'), 0.001)
    ex = np.zeros(len(h), bool)
    ex[list(excl)] = True
    pd.exclusions = ex
    return pd


def solve(R, B, h, wl, chi=0.0):
    """both oscillation solutions (tth, eta, ome, margin) of reflection h by direct trigonometry for the standard beam"""
    Rx = ref.axis_rot(0, chi)
    g = R @ (B @ h)
    n = np.linalg.norm(g)
    s = wl * n / 2
    u = g / n
    if s >= 1:
        return [], 1.0
    # G = Rx(chi) Ry(w) u with G_z = sin(theta): sin(chi) uy + cos(chi) (-ux sin w + uz cos w) = s
    amp = math.cos(chi) * math.hypot(u[0], u[2])
    C = s - math.sin(chi) * u[1]
    if amp < 1e-12 or abs(C / amp) > 1:
        return [], abs(abs(C) - amp)
    ph = math.atan2(-u[0], u[2]); al = math.acos(C / amp)
    out = []
    for w in (ph + al, ph - al):
        G = Rx @ ref.axis_rot(1, w) @ u
        out.append((2 * math.asin(s), math.atan2(G[1], G[0]), w))
    return out, abs(abs(C) - amp)


spans_st = st.one_of(st.none(), st.lists(st.tuples(S.num(0.02, 1.0), S.num(0.02, 1.0)), min_size=1, max_size=6))


def to_spans(sp, start, total=2 * PI):
    """consecutive disjoint intervals: gaps and widths in proportion, around the whole circle"""
    if sp is None:
        return None
    x = np.array(sp).ravel()
    x = np.cumsum(x) / (x.sum() * 1.05) * total + start
    return [(x[2 * i], x[2 * i + 1]) for i in range(len(sp))]


def inside(x, spans):
    """(inside, distance to the nearest edge) on the circle"""
    if spans is None:
        return True, 9.0
    m, ins = 9.0, False
    for lo, hi in spans:
        if hi - lo > 2 * PI - 1e-8:
            return True, 9.0
        o = (x - lo) % (2 * PI)
        ins |= o < hi - lo
        m = min(m, o, 2 * PI - o, abs(o - (hi - lo)))
    return ins, m


score_st = st.fixed_dictionaries(dict(lg=st.sampled_from(sorted(CELLS)), a=S.num(3, 5), c=S.num(3, 7), e=S.num(30, 90), excl=st.lists(st.integers(0, 3), max_size=2), pick=st.permutations(range(4)), npick=st.integers(1, 4),
    ne=st.integers(4, 72), no=st.integers(2, 60), elo=st.one_of(st.just(-PI), S.num(-3.1, 0)), ehi=st.one_of(st.just(PI), S.num(0.3, 3.1)), w0=S.num(-6, 6), wspan=st.one_of(st.just(2 * PI), S.num(0.3, 6.2)), pre=S.num(0, 1),
    er=spans_st, wr=spans_st, est=S.num(-7, 7), wst=S.num(-7, 7), shuffle=st.booleans(), dpe=S.num(0, 3), chi=st.one_of(st.none(), S.num(-0.3, 0.3)), dpo=S.num(0, 3), thr=st.sampled_from(['none', 'scalar', 'list']), nan=S.num(0, 0.3), fill=S.num(0.02, 0.6), seed=S.seeds,
    nq=st.integers(1, 12), bm=st.booleans(), truth=st.booleans(), mp=st.sampled_from([0] * 25 + [1, 3, 16])))


@sub('C25', 'completeness', score_st, n=700, parts=2,
     rule='random maps with missing data for crystals of six Laue groups with excluded and reordered reflections, any ranges, periods, tolerances and thresholds; non-trivial: some orientation scores strictly between 0 and 1')
def completeness(case, ctx):
    r = S.rng(case['seed'])
    pd = plane_data(case['lg'], case['a'], case['c'], case['e'], case['excl'])
    active = [int(i) for i in pd.getHKLID(pd.hkls, master=True)]
    ids = [i for i in case['pick'] if i in active][:case['npick']]
    ne, no = case['ne'], case['no']
    eE = np.linspace(case['elo'], case['ehi'], ne + 1)
    span = case['wspan']
    oE = np.linspace(case['w0'], case['w0'] + span, no + 1)
    per0 = case['w0'] - case['pre'] * (2 * PI - span)
    period = np.array([per0, per0 + 2 * PI])
    maps = [np.where(r.random((no, ne)) < case['fill'], 1 + 9 * r.random((no, ne)), r.random((no, ne)) * 0.5) for _ in ids]
    for m in maps:
        m[r.random((no, ne)) < case['nan'] * (r.random() < 0.5)] = np.nan
    er, wr = to_spans(case['er'], case['est']), to_spans(case['wr'], case['wst'])
    if case['shuffle']:
        er, wr = (None if x is None else [x[i] for i in r.permutation(len(x))] for x in (er, wr))
    de, do = eE[1] - eE[0], oE[1] - oE[0]
    if any(abs(x % 1 - 0.5) < 1e-6 for x in (case['dpe'], case['dpo'])):
        raise Skip
    B = pd.latVecOps['B']
    if case['bm']:
        B = B @ (np.eye(3) + 0.01 * r.standard_normal((3, 3)))
    q = ref.unit(r.standard_normal((case['nq'], 4))).T
    q *= np.where(q[0] < 0, -1, 1)
    if case['thr'] == 'none':
        thr, T = None, [0.5 * (np.mean(m[np.isfinite(m)]) + np.median(m[np.isfinite(m)])) if np.isfinite(m).any() else 0.0 for m in maps]
        if not all(np.isfinite(m).any() for m in maps):
            raise Skip
    elif case['thr'] == 'scalar':
        thr = float(r.random() * 8); T = [thr] * len(ids)
    else:
        T = list(r.random(len(ids)) * 8); thr = T
    sym = dict(zip(active, pd.getSymHKLs()))
    keep = [m.copy() for m in maps]
    em = NS(planeData=pd, iHKLList=np.array(ids), etaEdges=eE, omeEdges=oE, dataStore=maps)
    want = []
    for k in range(q.shape[1]):
        R = ref.q2r(q[:, k])
        H = N = mixed = 0
        bad = False
        for f, i in enumerate(ids):
            for h in np.asarray(sym[i]).T:
                sols, mg = solve(R, B, h, KEV / case['e'], case['chi'] or 0.0)
                bad |= mg < 1e-7
                for tth, eta, ome in sols:
                    ei, e_m = inside(eta, er); wi, w_m = inside(ome, wr)
                    o = (ome - per0) % (2 * PI) + per0
                    fe, fw = (eta - eE[0]) / de, (o - oE[0]) / do
                    if min(e_m, w_m) < 1e-7 or abs(fe - round(fe)) < 1e-6 or abs(fw - round(fw)) < 1e-6:
                        bad = True
                    if not (ei and wi and 0 <= fe < ne and 0 <= fw < no):
                        continue
                    je, jw = int(fe), int(fw)
                    pe, pw = int(round(case['dpe'])), int(round(case['dpo']))
                    w = keep[f][max(jw - pw, 0):jw + pw + 1, max(je - pe, 0):je + pe + 1]
                    hit, nan = bool((w > T[f]).any()), bool(np.isnan(w).any())
                    if hit and nan:
                        mixed += 1
                    elif hit:
                        H += 1; N += 1
                    elif not nan:
                        N += 1
        want.append(None if bad else {((H + j) / (N + j) if N + j else 0.0) for j in range(mixed + 1)})
    kw = dict(threshold=thr, omeTol=case['dpo'] * do, etaTol=case['dpe'] * de, omePeriod=period)
    if er is not None:
        kw['etaRange'] = er
    if wr is not None:
        kw['omegaRange'] = wr
    if case['bm']:
        kw['bMat'] = B
    if case['chi'] is not None:
        kw['chi'] = case['chi']
    got = indexer.paintGrid(q, em, **kw)
    ctx.equal(len(got), q.shape[1], 'number of scores')
    ok = False
    for k, w in enumerate(want):
        if w is None:
            continue
        ctx.true(min(abs(got[k] - x) for x in w) < 1e-12, f'completeness {got[k]} of orientation {k}, expected {sorted(w)}')
        ok |= 0 < got[k] < 1
    for m, z in zip(maps, keep):
        ctx.array_equal(m, z, 'maps afterwards')
    if case['mp']:
        ctx.label('several processes')
        g2 = indexer.paintGrid(q, em, doMultiProc=True, nCPUs=case['mp'], **kw)
        ctx.equal(list(g2), list(got), 'scores from several processes')
    if er is not None and len(er) > 3 or wr is not None and len(wr) > 3:
        ctx.label('more than three ranges')
    ctx.nt(ok)


@sub('C25', 'bad_ranges', st.fixed_dictionaries(dict(sp=st.lists(st.tuples(S.num(0.1, 1.0), S.num(0.1, 1.0)), min_size=1, max_size=5), start=S.num(-4, 4), which=st.integers(0, 9), kind=st.sampled_from(['overlap', 'reversed', 'threshold']), seed=S.seeds)), n=120,
     rule='overlapping or empty angular ranges and threshold lists of the wrong length are refused; non-trivial: two or more ranges')
def bad_ranges(case, ctx):
    r = S.rng(case['seed'])
    pd = plane_data('oh', 4.0, 4.0, 60.0)
    em = NS(planeData=pd, iHKLList=np.array([0, 1]), etaEdges=np.linspace(-PI, PI, 10), omeEdges=np.linspace(-PI, PI, 10), dataStore=[r.random((9, 9)) for _ in range(2)])
    sp = to_spans(case['sp'], case['start'])
    i = case['which'] % len(sp)
    q = np.array([1.0, 0.1, 0.2, 0.3])
    if case['kind'] == 'threshold':
        ctx.raises(RuntimeError, lambda: indexer.paintGrid(q, em, threshold=[0.1] * (1 if r.random() < 0.5 else 3)), 'threshold list of the wrong length')
    elif case['kind'] == 'reversed':
        sp[i] = (sp[i][1], sp[i][0])
        ctx.raises(ValueError, lambda: indexer.paintGrid(q, em, threshold=0.1, etaRange=sp), 'empty range')
    else:
        sp = sp + [(sp[i][0] + 0.4 * (sp[i][1] - sp[i][0]), sp[i][1] + 0.01)]
        sp = [sp[j] for j in r.permutation(len(sp))]
        kw = dict(etaRange=sp) if r.random() < 0.5 else dict(omegaRange=sp)
        ctx.raises(ValueError, lambda: indexer.paintGrid(q, em, threshold=0.1, **kw), 'overlapping ranges')
    ctx.nt(len(sp) > 2)


# ---------------------------------------------------------------------------------------------- map construction
@sub('C25', 'map_assembly', st.fixed_dictionaries(dict(s=setup_st, wedges=st.lists(st.tuples(st.integers(1, 5), st.integers(0, 6)), min_size=1, max_size=3), step=st.sampled_from([0.1, 0.25, 0.3, 0.7, 1.0, 5.0]), start=S.num(-400, 400),
     eta_step=st.sampled_from([5.0, 10.0, 22.5, 45.0]), thr=st.one_of(st.none(), S.num(0, 80)), pick=st.permutations(range(5)), npick=st.integers(0, 5), excl=st.lists(st.integers(0, 4), max_size=2), seed=S.seeds, wrap=st.integers(-1, 1), whole=st.booleans())), n=160, parts=3,
     rule='maps assembled from one or two panels over one to three omega wedges, saved and read back; non-trivial: several wedges or panels')
def map_assembly(case, ctx):
    s = Setup(case['s'])
    r = S.rng(case['seed'])
    nf_ = len(s.pd.hkls.T)
    ex = np.zeros(nf_, bool); ex[[i for i in case['excl'] if i < nf_]] = True
    if ex.all():
        ex[0] = False
    s.pd.exclusions = ex
    s.pd.tThWidth = 0.03
    active = [int(i) for i in s.pd.getHKLID(s.pd.hkls, master=True)]
    act = [i for i in case['pick'] if i in active][:case['npick']] or None
    # omega layout in units of the step
    pos, k = [], 0
    for n, gap in case['wedges']:
        pos.append(list(range(k, k + n))); k += n + gap + 1
    if case['whole'] and case['step'] == 5.0 and k <= 72:
        pos[-1] = list(range(pos[-1][0], 72))
        ctx.label('full circle')
    dl, st0 = case['step'], case['start']
    om = []
    for i, w in enumerate(pos):
        sh = 360.0 * case['wrap'] if i and i == len(pos) - 1 else 0.0
        om += [(st0 + dl * j + sh, st0 + dl * (j + 1) + sh) for j in w]
    om = np.array(om)
    nf = len(om)
    images = {n: r.integers(0, 100, (nf,) + d.shape).astype(float) for n, d in s.inst.detectors.items()}
    ims = {n: OmegaImageSeries(imageseries.open(None, 'array', data=v, meta=dict(omega=om))) for n, v in images.items()}
    em = GenerateEtaOmeMaps(ims, s.inst, s.pd, active_hkls=act, eta_step=case['eta_step'], threshold=case['thr'])
    parts, ee = s.inst.extract_polar_maps(s.pd, ims, active_hkls=act, threshold=case['thr'], tth_tol=None, eta_tol=case['eta_step'])
    total = pos[-1][-1] + 1
    rows = [j for w in pos for j in w]
    ids = act or active
    ctx.equal([int(i) for i in em.iHKLList], ids, 'reflections of the maps')
    ctx.equal(len(em.dataStore), len(ids), 'number of maps')
    for f in range(len(ids)):
        st_ = np.array([p[f] for p in parts.values()])
        w = np.where(np.isnan(st_).all(0), np.nan, np.nansum(st_, axis=0))
        full = np.full((total, w.shape[1]), np.nan)
        full[rows] = w
        ctx.close(em.dataStore[f], full, 1e-9, 1e-12, f'map {f}', nan=True)
    ctx.close(em.etaEdges, ee, 0, 0, 'eta edges'); ctx.close(em.etas, (ee[1:] + ee[:-1]) / 2, 1e-12, 0, 'eta centres')
    lo = np.radians(st0)
    ctx.close(em.omeEdges, lo + np.radians(dl) * np.arange(total + 1), 1e-7, 0, 'omega edges')
    ctx.close(em.omegas, lo + np.radians(dl) * (np.arange(total) + 0.5), 1e-7, 0, 'omega centres')
    f = os.path.join(ctx.scratch, 'maps.npz')
    em.save(f)
    got = EtaOmeMaps(f)
    os.remove(f)
    ctx.close(np.stack(got.dataStore), np.stack(em.dataStore), 0, 0, 'maps read back', nan=True)
    for k_ in ('etaEdges', 'omeEdges', 'etas', 'omegas', 'iHKLList'):
        ctx.close(getattr(got, k_), getattr(em, k_), 0, 0, k_ + ' read back')
    ctx.array_equal(got.planeData.hkls, s.pd.hkls, 'hkls read back'); ctx.array_equal(got.planeData.exclusions, s.pd.exclusions, 'exclusions read back')
    ctx.close(got.planeData.getTTh(), s.pd.getTTh(), 1e-12, 0, 'Bragg angles read back'); ctx.close(got.planeData.lparms, s.pd.lparms, 1e-12, 0, 'lattice parameters read back')
    ctx.equal(got.planeData.laueGroup, s.pd.laueGroup, 'Laue group read back')
    ctx.nt(len(pos) > 1 or len(parts) > 1)


@sub('C25', 'map_filters', st.fixed_dictionaries(dict(no=st.integers(1, 20), ne=st.integers(1, 20), n=st.integers(1, 3), nan=st.booleans(), sig=st.one_of(st.sampled_from([False, True, None]), S.num(0.5, 3)), seed=S.seeds)), n=150,
     rule='cleaning and streak removal of random maps; non-trivial: missing data or smoothing')
def map_filters(case, ctx):
    r = S.rng(case['seed'])
    nan = case['nan'] and (case['sig'] is True or not case['sig'])
    m = r.integers(0, 30, (case['n'], case['no'], case['ne'])).astype(float)
    if nan:
        m[r.random(m.shape) < 0.2] = np.nan
        if any(np.isnan(x).all() for x in m):
            raise Skip
    for x in m:
        a = x.copy()
        fo.clean_map(a)
        f = x[np.isfinite(x)]
        med = np.median(f)
        ctx.close(a, np.where(np.isfinite(x), np.maximum(np.where(np.isfinite(x), x, 0), med), med) - med, 1e-12, 0, 'cleaned map')
    if np.isnan(m).all(1).any():
        raise Skip
    em = NS(dataStore=[x.copy() for x in m])
    fo.filter_maps_if_requested(em, NS(find_orientations=NS(orientation_maps=NS(filter_maps=case['sig']))))
    sub_ = np.array([x - np.nanmedian(x, axis=0) for x in m])
    if not case['sig']:
        want = m
    elif case['sig'] is True:
        want = sub_
    else:
        import scipy.ndimage as ndi
        sg = case['sig'] / (2 * math.sqrt(2 * math.log(2)))
        want = np.array([-ndi.gaussian_laplace(x, sg) for x in sub_])
    ctx.close(np.array(em.dataStore), want, 1e-9, 0, 'filtered maps', nan=True)
    ctx.nt(nan or bool(case['sig']))


# ---------------------------------------------------------------------------------------------- trial orientations
def misori(R, Rs, G):
    """smallest angle between R and each of Rs modulo the rotations G of the crystal"""
    t = np.einsum('ji,njk,gki->ng', R, Rs, G)
    return np.arccos(np.clip((t.max(1) - 1) / 2, -1, 1))


def wrapd(x):
    return abs(math.remainder(x, 2 * PI))


@sub('C25', 'fibers', st.fixed_dictionaries(dict(s=setup_st, seeds=st.lists(st.integers(0, 4), min_size=1, max_size=2, unique=True), nd=st.sampled_from([24, 60, 120]), method=st.sampled_from(['label', 'label', 'filtered', 'blob_dog', 'blob_log']),
     ng=st.integers(1, 2), nan=st.booleans(), de=st.sampled_from([1.0, 2.0]), dw=st.sampled_from([1.0, 2.5]), w0=S.num(-200, 200), wspan=st.sampled_from([180.0, 360.0]), seed=S.seeds, pick=st.permutations(range(5)), bg=S.num(0, 5))), n=48, parts=6,
     rule='spots of one or two grains painted into maps; the fibres generated from them contain the grains; non-trivial: a recorded spot of each grain')
def fibers(case, ctx):
    c = dict(case['s'], be=None, ec=None, two=False, nfam=5)
    c['g'] = dict(c['g'], v=[0.0] * 6)
    r = S.rng(case['seed'])
    grains = []
    for i in range(case['ng']):
        q = ref.unit(r.standard_normal(4))
        grains.append(Setup(dict(c, g=dict(c['g'], q=[float(x) for x in q]))))
    s = grains[0]
    ids = case['pick']
    seeds = case['seeds']
    ne = round(360 / case['de']); no = round(case['wspan'] / case['dw'])
    eE = np.radians(np.linspace(-180, 180, ne + 1)); oE = np.radians(case['w0'] + case['dw'] * np.arange(no + 1))
    maps = [np.full((no, ne), float(case['bg'])) for _ in ids]
    ii, jj = np.mgrid[:no, :ne]
    spots = []
    for gi, g in enumerate(grains):
        for hid, h, tth, eta, ome, clear in g.solutions():
            if not clear:
                raise Skip
            f = ids.index(hid)
            w = (ome - oE[0]) % (2 * PI) + oE[0]
            a, b = (w - oE[0]) / np.radians(case['dw']) - 0.5, (eta - eE[0]) / np.radians(case['de']) - 0.5
            if not (4 < a < no - 5 and 4 < b < ne - 5) or f not in seeds:
                continue
            spots.append((gi, f, a, b, h, tth, eta, w))
    keep = []
    for x in spots:
        if all(y is x or y[1] != x[1] or max(abs(y[2] - x[2]), abs(y[3] - x[3])) > 12 for y in spots):
            keep.append(x)
    if not keep or len(keep) > 60:
        raise Skip
    for gi, f, a, b, *_ in keep:
        maps[f] += 100 * np.exp(-((ii - a) ** 2 + (jj - b) ** 2) / (2 * 1.2 ** 2))
    if case['nan']:
        cols = r.permutation(ne)[:5]
        for m in maps:
            m[:, [x for x in cols if all(abs(x - k[3]) > 6 for k in keep)]] = np.nan
    md = {'label': {'label': dict(filter_radius=0, threshold=15.0)}, 'filtered': {'label': dict(filter_radius=1, threshold=8.0)},
          'blob_dog': {'blob_dog': dict(min_sigma=0.5, max_sigma=5, sigma_ratio=1.6, threshold=0.05, overlap=0.1)},
          'blob_log': {'blob_log': dict(min_sigma=0.5, max_sigma=5, num_sigma=10, threshold=0.05, overlap=0.1)}}[case['method']]
    before = [m.copy() for m in maps]
    em = NS(planeData=s.pd, iHKLList=np.array(ids), dataStore=maps, etaEdges=eE, omeEdges=oE, etas=(eE[1:] + eE[:-1]) / 2, omegas=(oE[1:] + oE[:-1]) / 2)
    cfg = NS(multiprocessing=1, instrument=NS(hedm=s.inst), find_orientations=NS(seed_search=NS(hkl_seeds=seeds, fiber_ndiv=case['nd'], method=md)))
    Q = fo.generate_orientation_fibers(cfg, em)
    for m, b in zip(maps, before):
        ctx.array_equal(m, b, 'maps afterwards')
    ctx.equal(Q.shape[0], 4, 'shape'); ctx.close(np.linalg.norm(Q, axis=0), np.ones(Q.shape[1]), 1e-9, 0, 'unit quaternions')
    ctx.true((Q[0] >= -1e-12).all(), 'quaternions of the fundamental region')
    tol = np.radians(1.0) if case['method'].startswith(('label', 'filt')) else np.radians(4.0)
    G = ref.laue_group('oh')
    Rq = np.array([ref.q2r(x) for x in Q.T])
    # every trial orientation explains a spot
    gs, hs = [], []
    for gi, f, a, b, h, tth, eta, w in keep:
        u = grains[gi].Rc @ np.array(h, float)
        gs.append(ref.unit(u)); hs.append(ids[f])
    fam = {}
    for x in s.hkls():
        fam.setdefault(x[0], []).append(ref.unit(np.array(x[1:], float)))
    ok = np.zeros(len(Rq), bool)
    for g, hid in zip(gs, hs):
        d = np.einsum('nij,hj,i->nh', Rq, np.array(fam[hid]), g).max(1)
        ok |= np.arccos(np.clip(d, -1, 1)) < tol
    ctx.true(ok.all(), f'{(~ok).sum()} of {len(ok)} trial orientations explain no spot')
    ctx.true(len(Rq) <= len(keep) * case['nd'], f'{len(Rq)} trial orientations from {len(keep)} spots')
    for gi in {x[0] for x in keep}:
        ctx.true(misori(grains[gi].Rc, Rq, G).min() < PI / case['nd'] + tol, f'the fibres pass {np.degrees(misori(grains[gi].Rc, Rq, G).min())} degrees from grain {gi}')
    ctx.nt({x[0] for x in keep} == set(range(case['ng'])))


@sub('C25', 'clusters', st.fixed_dictionaries(dict(lg=st.sampled_from(['oh', 'd6h', 'd4h', 'd3d', 'd2h']), alg=st.sampled_from(['dbscan', 'ort-dbscan', 'sph-dbscan', 'fclusterdata']), ng=st.integers(1, 5), per=st.integers(1, 25), rad=S.num(0.5, 3), junk=st.integers(0, 10),
     thr=S.num(0.3, 0.9), ms=st.one_of(st.none(), st.integers(1, 4)), grid=st.booleans(), override=st.booleans(), special=st.booleans(), seed=S.seeds)), n=160, parts=2,
     rule='bundles of symmetrically reduced orientations around separated grains plus low scorers; every algorithm finds the grains; non-trivial: two or more grains')
def clusters(case, ctx):
    r = S.rng(case['seed'])
    G = np.array(ref.laue_group(case['lg']))
    from hexrd.core.material import symmetry as sym
    qs = sym.quatOfLaueGroup(case['lg'])
    rad = np.radians(case['rad'])
    Rs = []
    for _ in range(200):
        if len(Rs) == case['ng']:
            break
        R = ref.q2r(ref.unit(r.standard_normal(4)))
        if case['special'] and not Rs:
            R = np.eye(3)
        if all(misori(x, R[None], G)[0] > 6 * rad for x in Rs):
            Rs.append(R)
    pts, sc = [], []
    for R in Rs:
        for _ in range(case['per']):
            pts.append(R @ ref.aa2r(r.uniform(0, 0.08 * rad), ref.unit(r.standard_normal(3))) @ G[int(r.integers(len(G)))]); sc.append(case['thr'] + (1 - case['thr']) * r.uniform(0.01, 1))
    for _ in range(case['junk']):
        pts.append(ref.q2r(ref.unit(r.standard_normal(4)))); sc.append(case['thr'] * r.uniform(0, 1))
    p = r.permutation(len(pts))
    Q = rot.toFundamentalRegion(rot.quatOfRotMat(np.array(pts)[p]).reshape(4, -1), crysSym=case['lg'])
    sc = np.array(sc)[p]
    ms = None if case['ms'] is None else min(case['ms'], case['per'])
    cfg = NS(multiprocessing=1, find_orientations=NS(use_quaternion_grid='x' if case['grid'] else None, clustering=NS(algorithm=case['alg'], radius=case['rad'] if not case['override'] else 77.0, completeness=case['thr'] if not case['override'] else 0.05)))
    kw = dict(compl_thresh=case['thr'], radius=case['rad']) if case['override'] else {}
    if ms is not None and ms > 1 and case['alg'] in ('dbscan', 'ort-dbscan', 'sph-dbscan') and not case['grid'] and case['alg'] != 'sph-dbscan':
        ms = None                              # bundles cut by the boundary of the fundamental region may be smaller than that
    qb, cl = fo.run_cluster(list(sc) if r.random() < 0.5 else sc, Q, qs, cfg, min_samples=ms, **kw)
    ctx.equal(qb.shape, (4, len(Rs)), 'number of grains')
    used = set()
    for x in qb.T:
        m = [misori(R, ref.q2r(ref.unit(x))[None], G)[0] for R in Rs]
        i = int(np.argmin(m))
        ctx.true(m[i] < 0.081 * rad, f'centroid {np.degrees(m[i])} degrees from the nearest grain')
        used.add(i)
    ctx.equal(len(used), len(Rs), 'distinct grains')
    ctx.nt(len(Rs) > 1)


@sub('C25', 'recovered_grains', st.fixed_dictionaries(dict(a=S.num(3.5, 4.5), energy=S.num(25, 32), chi=S.num(-0.05, 0.05), tilt=S.expmap(0.05), ng=st.integers(1, 3), nfam=st.integers(4, 5), two=st.booleans(), seed=S.seeds, split=st.booleans(), w0=S.num(-200, 100), grid=st.booleans(),
     alg=st.sampled_from(['dbscan', 'ort-dbscan', 'sph-dbscan']), save=st.booleans(), active=st.sampled_from(['none', 'ids', 'hkls', 'override']), filt=st.booleans())), n=18, parts=8,
     rule='images of one to three grains are simulated and the whole search is run on them; non-trivial: two or more grains')
def recovered_grains(case, ctx):
    r = S.rng(case['seed'])
    dw = 2.0
    base = dict(a=case['a'], nfam=case['nfam'], energy=case['energy'], be=None, chi=case['chi'], ts=[0, 0, 0], t=(0.0 if not case['two'] else -110.0, 0.0, -330.0), tilt=case['tilt'], rows=220, cols=220 if not case['two'] else 110, ps=(2.0, 2.0), ge=None, two=case['two'], buf=None, ec=None)
    G = np.array(ref.laue_group('oh'))
    gs = []
    while len(gs) < case['ng']:
        g = Setup(dict(base, g=dict(q=[float(x) for x in ref.unit(r.standard_normal(4))], t=[0, 0, 0], v=[0.0] * 6)))
        if all(misori(x.Rc, g.Rc[None], G)[0] > 0.2 for x in gs):
            gs.append(g)
    s = gs[0]
    w0 = case['w0']
    if case['split']:
        om = [(w0 + dw * i, w0 + dw * (i + 1)) for i in list(range(45)) + list(range(90, 135))]
    else:
        om = [(w0 + dw * i, w0 + dw * (i + 1)) for i in range(90)]
    om = np.array(om)
    images = {k: np.zeros((len(om),) + d.shape) for k, d in s.inst.detectors.items()}
    kern = np.array([0.3, 1.0, 0.3])
    for g in gs:
        for hid, h, tth, eta, ome, clear in g.solutions():
            if not clear:
                raise Skip
            o = np.degrees((ome - np.radians(w0)) % (2 * PI)) + w0
            fr = np.nonzero((om[:, 0] <= o) & (o < om[:, 1]))[0]
            if not len(fr):
                continue
            for k, d in s.inst.detectors.items():
                xy = g.project(d, tth, eta, ome)
                ij = d.cartToPixel(xy)[0]
                i, j = int(np.floor(ij[0] + 0.5)), int(np.floor(ij[1] + 0.5))
                for a in (-1, 0, 1):
                    for b in (-1, 0, 1):
                        if 0 <= i + a < d.rows and 0 <= j + b < d.cols:
                            images[k][fr[0], i + a, j + b] += 200 * kern[a + 1] * kern[b + 1]
    ims = {k: OmegaImageSeries(imageseries.open(None, 'array', data=v, meta=dict(omega=om))) for k, v in images.items()}
    s.pd.tThWidth = np.radians(0.8)
    ids = [int(i) for i in s.pd.getHKLID(s.pd.hkls, master=True)]
    hk = [[int(v) for v in s.pd.getHKLs(i)[0]] for i in ids]
    ah = dict(none=None, ids=ids[::-1], hkls=hk[::-1], override=ids[:1])[case['active']]
    ov = hk if case['active'] == 'override' else None
    ov = None if ov is None else (ov if r.random() < 0.5 else ids)
    order = ids if case['active'] in ('none', 'override') else ids[::-1]
    d = ctx.scratch
    from pathlib import Path
    gridf = os.path.join(d, 'grid.npy')
    if case['grid']:
        Q = [ref.q2r(ref.unit(r.standard_normal(4))) for _ in range(60)]
        Q += [g.Rc @ ref.aa2r(np.radians(r.uniform(0, 0.3)), ref.unit(r.standard_normal(3))) for g in gs for _ in range(4)]
        np.save(gridf, rot.toFundamentalRegion(rot.quatOfRotMat(np.array(Q)).reshape(4, -1), crysSym='oh'))
    per = [w0, w0 + 360.0]
    cfg = NS(analysis_dir=Path(d), material=NS(plane_data=s.pd), image_series=ims, instrument=NS(hedm=s.inst), multiprocessing=1,
             find_orientations=NS(eta=NS(range=[[-180, 180]], tolerance=2.0), omega=NS(tolerance=2.0, period=per), threshold=5.0, use_quaternion_grid=gridf if case['grid'] else None,
                                  orientation_maps=NS(file=os.path.join(d, 'maps.npz'), threshold=1.0, eta_step=2.0, active_hkls=ah, filter_maps=case['filt']),
                                  clustering=NS(algorithm=case['alg'], radius=2.5, completeness=0.8), seed_search=NS(hkl_seeds=[order.index(i) for i in ids[:2]], fiber_ndiv=180, method={'label': dict(filter_radius=0, threshold=5.0)})))
    np.random.seed(case['seed'] % 2 ** 32)
    try:
        res = fo.find_orientations(cfg, hkls=ov, clean=case['save'])
        if case['save']:
            maps = EtaOmeMaps(cfg.find_orientations.orientation_maps.file)
            ctx.equal([int(i) for i in maps.iHKLList], list(order), 'reflections of the maps')
            res2 = fo.find_orientations(cfg, hkls=ov)
            if not case['filt']:
                ctx.close(res2['scored_orientations']['score'], res['scored_orientations']['score'], 0, 0, 'scores from the maps read back')
    finally:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
    qb = res['qbar']
    sc = res['scored_orientations']
    ctx.equal(len(sc['score']), sc['test_quaternions'].shape[1], 'scores')
    ctx.true((sc['score'] >= 0).all() and (sc['score'] <= 1).all(), 'scores are fractions')
    Rq = np.array([ref.q2r(ref.unit(x)) for x in qb.T])
    for i, g in enumerate(gs):
        m = misori(g.Rc, Rq, G).min() if len(Rq) else 9.0
        ctx.true(m < np.radians(1.8), f'grain {i} is {np.degrees(m)} degrees from the nearest of {len(Rq)} found')
    ctx.nt(case['ng'] > 1)


@warm('C25', preload=True)
def _warm():
    r = S.rng(0)
    em = NS(planeData=plane_data('oh', 4.0, 4.0, 60.0), iHKLList=np.array([0, 1]), etaEdges=np.linspace(-PI, PI, 10), omeEdges=np.linspace(-PI, PI, 10), dataStore=[r.random((9, 9)) for _ in range(2)])
    indexer.paintGrid(np.array([1.0, 0.1, 0.2, 0.3]), em)
