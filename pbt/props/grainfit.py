"""C26: fits of the orientation, position and strain of grains to their spots."""
import math
import os
import warnings
from types import SimpleNamespace as NS

import numpy as np
from hypothesis import strategies as st

from hexrd.core import imageseries
from hexrd.core.imageseries.omega import OmegaImageSeries
from hexrd.hedm import fitgrains as fg
from hexrd.hedm.fitting import grains as gr
from pbt import ref
from pbt.core import sub, Skip
from pbt import strat as S
from pbt.props.spots import PI, Setup, ge_apply, setup_st


def warp(ge, xy):
    """raw detector coordinates of ideal ones"""
    q = xy.copy()
    if ge is None:
        return q
    for _ in range(80):
        q = q - (ge_apply(ge, q) - xy)
    return q


def qexp(e):
    n = np.linalg.norm(e)
    return np.r_[math.cos(n / 2), math.sin(n / 2) * np.array(e) / n] if n > 0 else np.array([1.0, 0, 0, 0])


def shifted(c, de, dt, dv):
    """the same set-up with another grain"""
    g = c['g']
    q = ref.unit(ref.qmul(qexp(de), ref.unit(np.array(g['q'], float))))
    return Setup(dict(c, g=dict(q=list(q), t=list(np.array(g['t']) + dt), v=list(np.array(g['v']) + dv))))


def spots_of(s, seed, keep=0.8):
    """{panel: [(hkl, raw xy, ideal xy, tth, eta, omega)]} of reachable reflections"""
    r = S.rng(seed)
    sols = s.solutions()
    amb = {x[1] for x in sols if not x[5]}
    dets = list(s.inst.detectors.items())
    out = {k: [] for k, _ in dets}
    for hid, h, tth, eta, ome, clear in sols:
        if h in amb or tth < 0.01 or r.random() > keep:
            continue
        k, det = dets[int(r.integers(len(dets)))]
        P = s.project(det, tth, eta, ome)[0]
        if not np.isfinite(P).all() or np.abs(P).max() > 300:
            continue
        q = warp(s.c['ge'], P[None])[0]
        if np.abs(ge_apply(s.c['ge'], q[None])[0] - P).max() > 1e-9:
            continue
        out[k].append((h, q, P, tth, eta, ome))
    return out


def table(spots, form):
    d = {}
    for k, rows in spots.items():
        if not rows:
            if form != 'missing':
                d[k] = []
            continue
        if form in ('list', 'missing'):
            d[k] = [[i, i, np.array(h), 1.0, 1.0, np.zeros(3), np.array([tth, eta, ome]), xy] for i, (h, xy, P, tth, eta, ome) in enumerate(rows)]
        elif form == 'array':
            a = np.full((len(rows), 17), np.nan)
            for i, (h, xy, P, tth, eta, ome) in enumerate(rows):
                a[i, 2:5], a[i, 10:13], a[i, 15:17] = h, (tth, eta, ome), xy
            d[k] = a
        else:
            d[k] = dict(hkls=np.array([x[0] for x in rows], float).T, meas_xyo=np.array([[*x[1], x[5]] for x in rows]))
    return d


pert = st.fixed_dictionaries(dict(de=S.vec(-0.01, 0.01), dt=S.vec(-0.3, 0.3), dv=S.vec(-2e-3, 2e-3, 6)))


def expected(s1, spots):
    """{panel: n x 3 predictions} for the grain of s1; None if a reflection is unreachable; Skip when marginal"""
    sols = {}
    amb = set()
    for hid, h, tth, eta, ome, clear in s1.solutions():
        if not clear:
            amb.add(h)
        sols.setdefault(h, []).append((tth, eta, ome))
    out, bad = {}, False
    for k, rows in spots.items():
        det = s1.inst.detectors[k]
        pr = []
        for h, q, P, tth, eta, ome in rows:
            if h in amb:
                raise Skip('grazing')
            if h not in sols:
                bad = True
                continue
            d = [abs(math.remainder(x[2] - ome, 2 * PI)) for x in sols[h]]
            if abs(d[0] - d[1]) < 1e-6:
                raise Skip('two solutions equally close')
            b = sols[h][int(np.argmin(d))]
            P1 = s1.project(det, *b)[0]
            if not np.isfinite(P1).all():
                bad = True
            pr.append([*P1, b[2], min(d)])
        out[k] = np.array(pr).reshape(-1, 4)
    return None if bad else out


@sub('C26', 'objective', st.fixed_dictionaries(dict(s=setup_st, p=pert, seed=S.seeds, form=st.sampled_from(['list', 'array', 'dict', 'missing']), per=st.one_of(st.none(), S.num(-6, 3)), flags=st.integers(0, 4095),
     rv=st.sampled_from([None, None, 1, 2]), sim=st.booleans(), away=st.sampled_from([False, False, False, True]))), n=260, parts=2,
     rule='spots of a grain on one or two panels against the prediction for a displaced grain, with distortion, inclined beams, energy gradients; non-trivial: at least 6 spots and a nonzero displacement')
def objective(case, ctx):
    c = dict(case['s'], buf=None)
    s = Setup(c)
    spots = spots_of(s, case['seed'])
    n = sum(map(len, spots.values()))
    if n == 0:
        raise Skip
    p = case['p']
    s1 = shifted(c, p['de'], p['dt'], p['dv'])
    if case['away']:                          # a panel the rays cannot reach
        k = list(s.inst.detectors)[0]
        s1.inst.detectors[k].tvec = np.array([0.0, 0.0, 3000.0])
        s1.inst.detectors[k].tilt = np.zeros(3)
        if not spots[k] or any(x[3] > PI / 2 - 0.1 for x in spots[k]):
            raise Skip
    want = expected(s1, spots)
    flags = np.array([bool(case['flags'] >> i & 1) for i in range(12)])
    full = s1.gp.copy(); fit = full[flags].copy(); full[flags] = 7.0
    per = None if case['per'] is None else (case['per'], case['per'] + 2 * PI)
    B = np.eye(3) / c['a']
    args = (fit, full, flags, s1.inst, table(spots, case['form']), B, s1.wl, per)
    if want is None:
        ctx.label('unreachable')
        ctx.raises(RuntimeError, lambda: gr.objFuncFitGrain(*args), 'a reflection the grain cannot have')
        return
    ctx.nt(n >= 6 and any(map(any, (p['de'], p['dt'], p['dv']))))
    keys = [k for k in s.inst.detectors if spots[k]]
    W = np.vstack([want[k] for k in keys])
    M = np.array([[*x[2], x[5]] for k in keys for x in spots[k]])
    res = np.column_stack([W[:, 0] - M[:, 0], W[:, 1] - M[:, 1], W[:, 3]])
    got = gr.objFuncFitGrain(*args, simOnly=case['sim'], return_value_flag=case['rv'])
    ctx.close(full, s1.gp, 1e-12, 0, 'grain parameters filled in')
    if case['sim']:
        if case['rv'] == 2:
            for k in keys:
                ctx.close(got[k]['calc_xy'], want[k][:, :2], 1e-4, 0, f'calculated positions on {k}')
                ctx.close(np.abs(np.remainder(got[k]['calc_omes'] - want[k][:, 2] + PI, 2 * PI) - PI), np.zeros(len(W) if case["sim"] and case["rv"] != 2 else len(want[k])), 1e-6, 0, "calculated omegas")
        else:
            ctx.close(got[:, :2], W[:, :2], 1e-4, 0, 'calculated positions')
            ctx.close(np.abs(np.remainder(got[:, 2] - W[:, 2] + PI, 2 * PI) - PI), np.zeros(len(W) if case["sim"] and case["rv"] != 2 else len(want[k])), 1e-6, 0, "calculated omegas")
    elif case['rv'] is None:
        ctx.close(got.reshape(-1, 3)[:, :2], res[:, :2], 1e-4, 0, 'position residuals')
        ctx.close(np.abs(got.reshape(-1, 3)[:, 2]), res[:, 2], 1e-6, 0, 'omega residuals')
    elif case['rv'] == 1:
        ctx.close(got, np.abs(res).sum(), 1e-4 * n, 1e-6, 'sum of residuals')
    else:
        den = 3 * n - flags.sum() - 1.0
        ctx.close(got, (res ** 2).sum() / (den if den != 0 else 1), 1e-3, 1e-4, 'normalised chi squared')


@sub('C26', 'recover', st.fixed_dictionaries(dict(s=setup_st, p=pert, seed=S.seeds, form=st.sampled_from(['list', 'array', 'dict']), flags=st.one_of(st.just(4095), st.integers(1, 4095)), noise=st.sampled_from([0, 0, 1e-3, 0.05]))), n=110, parts=6,
     rule='spots of a grain, exact or noisy, fitted from a displaced start with any subset of parameters free; non-trivial: more than 12 spots')
def recover(case, ctx):
    c = dict(case['s'], buf=None)
    if c['nfam'] < 2:
        c['nfam'] = 3
    s = Setup(c)
    spots = spots_of(s, case['seed'])
    n = sum(map(len, spots.values()))
    if n < 6:
        raise Skip('few spots')
    flags = np.array([bool(case['flags'] >> i & 1) for i in range(12)])
    p = case['p']
    f = flags.astype(float)
    s1 = shifted(c, np.array(p['de']) * f[:3], np.array(p['dt']) * f[3:6], np.array(p['dv']) * f[6:])
    start = np.where(flags, s1.gp, s.gp)
    if not flags[:3].all():
        start[:3] = np.where(flags[:3], s.gp[:3] + np.array(p['de']), s.gp[:3])
    r = S.rng(case['seed'])
    if case['noise']:
        spots = {k: [(h, xy + r.normal(0, case['noise'], 2), P, tth, eta, ome + r.normal(0, case['noise'] / 100)) for h, xy, P, tth, eta, ome in v] for k, v in spots.items()}
    refl = table(spots, case['form'])
    B = np.eye(3) / c['a']

    def res(gp):
        gp = np.array(gp)
        return gr.objFuncFitGrain(gp[flags], gp.copy(), flags, s.inst, refl, B, s.wl, None)
    try:
        r0, rt = res(start), res(s.gp)
        J = np.array([(res(s.gp + 1e-6 * e) - res(s.gp - 1e-6 * e)) / 2e-6 for e in np.eye(12)[flags]]).T
    except RuntimeError:
        raise Skip('infeasible start')
    # the omega residual is an absolute difference: keep away from reflections that switch solutions
    if np.abs(r0.reshape(-1, 3)[:, 2]).max() > 0.3 or np.abs(r0.reshape(-1, 3)[:, :2]).max() > 100:
        raise Skip('start too far')
    sv = np.linalg.svd(J, compute_uv=False)
    ctx.nt(n > 12)
    try:
        got = gr.fitGrain(start.copy(), s.inst, refl, B, s.wl, gFlag=flags)
    except RuntimeError as e:
        if 'nfeasible' in str(e):
            raise Skip('left the feasible region')
        raise
    ctx.close(got[~flags], start[~flags], 0, 0, 'fixed parameters')
    rf = res(got)
    good = len(sv) == flags.sum() and 3 * n > flags.sum() and sv[-1] > 1e-3 * sv[0] and sv[-1] > 1e-2
    ctx.label('noisy' if case['noise'] else 'exact')
    if good and np.linalg.norm(r0) < 30 * math.sqrt(n):
        ctx.label('well conditioned')
        ctx.true((rf ** 2).sum() <= (rt ** 2).sum() * (1 + 1e-4) + 1e-7, f'the fit ({(rf ** 2).sum():.3g}) is worse than the true grain ({(rt ** 2).sum():.3g}), start {(r0 ** 2).sum():.3g}')
        if not case['noise']:
            ctx.close(ref.e2r(got[:3]), s.Rc, 1e-4, 0, 'recovered orientation')
            ctx.close(got[3:], s.gp[3:], 1e-4, 0, 'recovered position and stretch')


# ---------------------------------------------------------------------------------------------- choice of reflections
refl_st = st.fixed_dictionaries(dict(seed=S.seeds, n=st.lists(st.integers(0, 12), min_size=1, max_size=3), sat=st.one_of(st.none(), S.num(10, 100)), ov=st.sampled_from(['none', 'file', 'file', 'other']), gid=st.integers(0, 5),
                                     tol=st.tuples(S.num(0.2, 3), S.num(0.2, 3)), ge=st.booleans(), step=S.num(0.1, 2), w0=S.num(-180, 180), ps=st.tuples(S.num(0.1, 2), S.num(0.1, 2))))


class Warp:
    def __init__(self, a):
        self.a = a

    def apply(self, xy):
        return ge_apply(self.a, np.asarray(xy))


@sub('C26', 'selection', refl_st, n=300, parts=2, rule='reflections of several panels that are missing, saturated, overlapping or off their fitted place; non-trivial: some kept and some culled')
def selection(case, ctx):
    r = S.rng(case['seed'])
    dets, results, want = {}, {}, {}
    tot = val = 0
    ge = (0.001, -0.001, -0.02) if case['ge'] else None
    for i, n in enumerate(case['n']):
        k = f'p{i}'
        dets[k] = NS(saturation_level=case['sat'], pixel_size_row=case['ps'][0], pixel_size_col=case['ps'][1], distortion=Warp(ge) if ge else None)
        ids = np.where(r.random(n) < 0.3, -100, np.arange(n) + int(r.integers(0, 5)))
        mx = np.round(r.uniform(0, 120, n), 1)
        over = set()
        if case['ov'] != 'none':
            os.makedirs(os.path.join(ctx.scratch, k), exist_ok=True)
            tabs = {}
            for t in range(int(r.integers(1, 3))):
                rows = np.array([[[int(r.integers(0, 6)), int(r.integers(0, 16)), int(r.integers(0, 6)), 1.0] for _ in range(3)] for _ in range(2)])
                if case['ov'] == 'other':
                    rows[..., 0] = case['gid'] + 1
                tabs[f'd{t}'] = rows
                over |= {int(x[1]) for tt in rows for x in tt if int(x[0]) == case['gid']}
            np.savez(os.path.join(ctx.scratch, k, fg.OVERLAP_TABLE_FILE), **tabs)
        results[k] = [[int(ids[j]), j, np.array([1, 1, j]), 1.0, mx[j], np.zeros(3), r.uniform(-3, 3, 3), r.uniform(-100, 100, 2)] for j in range(n)]
        want[k] = [j for j in range(n) if ids[j] >= 0 and (case['sat'] is None or mx[j] < case['sat']) and int(ids[j]) not in over]
        tot += n; val += int((ids >= 0).sum())
    inst = NS(detectors=dets)
    if tot == 0:
        ctx.raises(RuntimeError, lambda: fg.determine_valid_reflections(results, inst, ctx.scratch), 'no reflections at all')
        return
    kept = sum(map(len, want.values()))
    ctx.nt(0 < kept < tot)
    a = (case['gid'],) if case['ov'] != 'none' else ()
    cull, nv, comp = fg.determine_valid_reflections(results, inst, ctx.scratch, *a)
    ctx.equal(nv, val, 'number of measured reflections'); ctx.close(comp, val / tot, 1e-12, 0, 'completeness')
    for k in dets:
        ctx.equal([x[1] for x in cull[k]], want[k], f'reflections kept on {k} with {case["ov"]} overlaps')
    # second step: distance to the fitted place
    ims = NS(metadata=dict(omega=np.array([[case['w0'], case['w0'] + case['step']]])))
    fit, exp = {}, {}
    for k, rows in cull.items():
        if not rows:
            fit[k] = dict(calc_xy=None, calc_omes=[])
            exp[k] = []
            continue
        tol = np.array([case['tol'][0] * case['ps'][1], case['tol'][0] * case['ps'][0], np.radians(case['tol'][1] * case['step'])])
        d = r.uniform(-1.6, 1.6, (len(rows), 3))
        d[np.abs(np.abs(d) - 1) < 1e-3] = 0.5
        d[r.random(d.shape) < 0.5] *= 0.4
        xy = ge_apply(ge, np.array([x[7] for x in rows])) + d[:, :2] * tol[:2]
        w = np.array([x[6][2] for x in rows]) + d[:, 2] * tol[2] + 2 * PI * r.integers(-1, 2, len(rows))
        fit[k] = dict(calc_xy=xy, calc_omes=w)
        exp[k] = [x[1] for x, dd in zip(rows, d) if np.all(np.abs(dd) < 1)]
    new, n2 = fg.refine_valid_reflections(cull, fit, inst, {k: ims for k in dets}, case['tol'])
    ctx.equal(int(n2), sum(map(len, exp.values())), 'number of reflections close to the fit')
    for k in dets:
        ctx.equal([x[1] for x in new[k]], exp[k], f'reflections of {k} within the refit tolerances')


# ---------------------------------------------------------------------------------------------- whole fits
@sub('C26', 'fit_images', st.fixed_dictionaries(dict(s=setup_st, seed=S.seeds, e=S.vec(-1, 1), ids=st.sampled_from([[0], [2], [0, 1, 2], [3, 1], [1, 0]]), sel=st.sampled_from(['all', 'all', 'mp', 'one']), refit=st.booleans(),
     two=st.booleans(), w0=S.num(-180, 180), spots=st.booleans())), n=60, parts=8,
     rule='images of one grain fitted from a start about a pixel away, among rows of a table for grains that are not there; non-trivial: enough spots for a fit')
def fit_images(case, ctx):
    c = dict(case['s'], ec=None, buf=None, ge=None, nfam=4, rows=80, cols=80, ps=[3.0, 3.0], t=[case['s']['t'][0] / 3, case['s']['t'][1] / 3, -250.0], a=4.0, energy=30.0 + case['s']['energy'] / 10, two=case['two'])
    c['g'] = dict(c['g'], v=[x / 4 for x in c['g']['v']])
    s = Setup(c)
    r = S.rng(case['seed'])
    nf, w0 = 180, case['w0']
    per = (np.radians(w0), np.radians(w0 + 360))
    om = np.vstack([w0 + 2.0 * np.arange(nf), w0 + 2.0 + 2.0 * np.arange(nf)]).T
    sim = s.inst.simulate_rotation_series(s.pd, [s.gp], ome_ranges=[(-PI, PI)], ome_period=per)
    imsd, ns = {}, 0
    for k, det in s.inst.detectors.items():
        im = np.zeros((nf,) + det.shape, np.float32)
        ang, xy = np.array(sim[k][2][0]).reshape(-1, 3), np.array(sim[k][3][0]).reshape(-1, 2)
        for (tth, eta, ome), (x, y) in zip(ang, xy):
            fi, fj = (0.5 * det.row_dim - y) / 3.0 - 0.5, (x + 0.5 * det.col_dim) / 3.0 - 0.5
            ff = (np.degrees(ome) - w0) % 360 / 2 - 0.5
            if not (4 < fi < 75 and 4 < fj < 75):
                continue
            ns += 1
            for df in range(-2, 4):
                f = int(math.floor(ff)) + df
                for i in range(int(fi) - 3, int(fi) + 5):
                    for j in range(int(fj) - 3, int(fj) + 5):
                        im[f % nf, i, j] += 1000 * math.exp(-((f - ff) ** 2 + (i - fi) ** 2 + (j - fj) ** 2) / 2 / 0.7 ** 2)
        imsd[k] = OmegaImageSeries(imageseries.open(None, 'array', data=im, meta=dict(omega=om)))
    if ns < 60:
        raise Skip('few spots')
    ctx.nt(True)
    tab = []
    ids = case['ids']
    true_row = int(r.integers(len(ids)))
    e = ref.unit(np.array(case['e']) + 1e-3) * np.radians(0.5)
    s1 = shifted(c, e, r.uniform(-0.1, 0.1, 3), np.zeros(6))
    for i, gid in enumerate(ids):
        gp = s1.gp if i == true_row else shifted(c, [0.2 + 0.1 * i, 0.31, -0.17], [0, 0, 0], np.zeros(6)).gp
        tab.append(np.r_[gid, 1.0, 0.0, gp, np.zeros(6)])
    tab = np.array(tab)
    pd = s.pd
    cfg = NS(image_series=imsd, instrument=NS(hedm=s.inst), find_orientations=NS(eta=NS(range=np.array([[-180.0, 180.0]]))), multiprocessing=2 if case['sel'] == 'mp' else 1,
             fit_grains=NS(threshold=20, tolerance=NS(tth=[3.0], eta=[8.0], omega=[10.0]), npdiv=2, refit=[2, 2] if case['refit'] else None), material=NS(plane_data=pd), analysis_dir=ctx.scratch)
    sel = [true_row] if case['sel'] == 'one' else None
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = fg.fit_grains(cfg, tab.copy(), ids_to_refine=sel, write_spots_files=case['spots'])
    want_ids = [ids[true_row]] if sel else ids
    ctx.equal([int(x[0]) for x in out], want_ids, 'grain ids')
    for i, (gid, comp, chi, gp) in enumerate(out):
        row = true_row if sel else i
        if row != true_row:
            if np.isinf(chi):
                ctx.close(gp, tab[row, 3:15], 0, 0, 'a grain that is not there is left alone')
            continue
        if len(ids) == 1 or True:
            R = ref.e2r(gp[:3])
            ctx.true(np.isfinite(chi), f'grain {gid} fitted, completeness {comp}')
            ctx.true(comp > 0.5, f'completeness {comp} of the grain in the images')
            ctx.close(np.degrees(ref.rangle(R @ s.Rc.T)), 0, 0.3, 0, 'misorientation of the fitted grain (degrees)')
            ctx.close(gp[3:6], s.tc, 1.0, 0, 'position of the fitted grain')
            ctx.close(gp[6:], s.gp[6:], 1e-2, 0, 'stretch of the fitted grain')
    if case['spots']:
        for gid in want_ids:
            ctx.true(any(fn.startswith('spots_%05d' % gid) for _, _, fs in os.walk(ctx.scratch) for fn in fs), f'spots of grain {gid} are written')
