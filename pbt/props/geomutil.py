"""C07 distortion, C08 grids and polygons, C09 tensor/matrix utilities."""
import math

import numpy as np
from hypothesis import strategies as st

from hexrd.core import distortion as dist
from hexrd.core import gridutil as gu
from hexrd.core import matrixutil as mu
from pbt import ref
from pbt.core import sub
from pbt import strat as S

PI = math.pi
RHO = 204.8


@sub('C07', 'ge_41rt',
     st.fixed_dictionaries(dict(p=st.tuples(S.num(-0.02, 0.02), S.num(-0.02, 0.02), S.num(-0.05, 0.05)),
                                small=st.booleans(), ex=st.lists(st.sampled_from([2.0, 2.0, 2.0, 1.0, 3.0, 2.5]), min_size=3, max_size=3),
                                two=st.booleans(), as_int=st.booleans(),
                                xy=st.lists(st.tuples(S.num(-250, 250), S.num(-250, 250)), min_size=1, max_size=9))), n=2500,
     rule='parameters of either sign, exponents 1-3, points to 350 mm incl. the centre; non-trivial: distortion moves a point')
def ge_41rt(case, ctx):
    p = np.array(case['p']) * (0.01 if case['small'] else 1)
    p[np.abs(p) < 1e-5] = 0
    ex = [2.0, 2.0, 2.0] if case['two'] else case['ex']
    xy = np.array(case['xy'], float)
    if case['as_int']:
        xy = np.round(xy).astype(int); ctx.label('integer input')
    d = dist.get_mapping('GE_41RT', list(p) + list(ex))
    ctx.equal(bool(d.is_trivial), bool(np.all(p == 0)), 'is_trivial')
    x0 = xy.copy()
    out = d.apply(xy)
    ctx.array_equal(xy, x0, 'input untouched')
    ctx.shape(out, xy.shape, 'apply')
    for i, (x, y) in enumerate(xy.astype(float)):
        r = math.hypot(x, y); e = math.atan2(y, x)
        f = 1 + p[0] * (r / RHO) ** ex[0] * math.cos(2 * e) + p[1] * (r / RHO) ** ex[1] * math.cos(4 * e) + p[2] * (r / RHO) ** ex[2]
        ctx.close(out[i], [x * f, y * f], atol=3e-8, msg='apply')
        if abs(f - 1) > 1e-9:
            ctx.nt()
    back = d.apply_inverse(out)
    inv = d.apply_inverse(np.array(xy, float))
    ctx.shape(back, xy.shape, 'apply_inverse')
    if ex == [2.0] * 3:
        for i, (x, y) in enumerate(xy.astype(float)):
            r = math.hypot(x, y); e = math.atan2(y, x)
            pe = p[0] * math.cos(2 * e) + p[1] * math.cos(4 * e) + p[2]
            ctx.label('centre' if r == 0 else 'grows' if pe > 0 else 'shrinks')
            if 1 + 3 * pe * (r / RHO) ** 2 > 0.05:               # on the increasing branch
                ctx.close(back[i], [x, y], atol=2e-6, msg='apply_inverse(apply(xy))')
            if pe >= 0 or r < 0.99 * 2 / 3 * RHO / math.sqrt(-3 * pe):
                ctx.close(d.apply(inv[i:i + 1])[0], [x, y], atol=2e-6, msg='apply(apply_inverse(xy))')
    elif np.any(p):
        ok = np.isclose(back, xy, atol=1e-6).all()
        if not ok:
            ctx.known.append('GE_41RT.apply_inverse ignores exponents')
    d.params = [0, 0, 0, 2, 2, 2]
    ctx.close(d.apply(xy), xy, atol=0, msg='zero parameters are the identity')


@sub('C07', 'dexela',
     st.fixed_dictionaries(dict(p=st.lists(S.num(-3, 3), min_size=8, max_size=8), as_int=st.booleans(),
                                q=st.tuples(S.num(-3, 3), S.num(0.8, 1.2), S.num(-0.1, 0.1), S.num(-3, 3), S.num(-0.1, 0.1), S.num(0.8, 1.2)),
                                xy=st.lists(st.tuples(S.num(-150, 150), S.num(-150, 150)), min_size=1, max_size=9))), n=1200,
     rule='quadrant shifts and bilinear Dexela maps, all quadrants; non-trivial: points in >= 2 quadrants')
def dexela(case, ctx):
    p = np.array(case['p'])
    xy = np.array(case['xy'], float)
    if case['as_int']:
        xy = np.round(xy).astype(int)
    quads = (xy[:, 0] < 0).astype(int) + 2 * (xy[:, 1] < 0)
    ctx.nt(len(set(quads.tolist())) >= 2)
    d = dist.get_mapping('Dexela_2923', p)
    order = {0: 0, 1: 2, 3: 4, 2: 6}     # 1st, 2nd, 3rd, 4th quadrant
    want = np.array([v + p[order[q]:order[q] + 2] for v, q in zip(xy.astype(float), quads)])
    x0 = xy.copy()
    out = d.apply(xy)
    ctx.array_equal(xy, x0, 'input untouched')
    ctx.close(out, want, atol=1e-12, msg='Dexela_2923.apply')
    far = (np.abs(xy) > 3.01).all(axis=1)
    ctx.close(d.apply_inverse(out)[far], xy[far].astype(float), atol=1e-11, msg='Dexela_2923 round trip')
    q = case['q']
    dq = dist.get_mapping('Dexela_2923_quad', q)
    inv = dq.apply_inverse(xy)
    ctx.close(inv, np.c_[q[0] + q[1] * xy[:, 0] + q[2] * xy[:, 1], q[3] + q[4] * xy[:, 0] + q[5] * xy[:, 1]],
              atol=1e-8, msg='quad inverse')
    ctx.close(dq.apply(inv), xy.astype(float), atol=1e-8, msg='quad round trip')
    ctx.close(dq.apply_inverse(dq.apply(xy)), xy.astype(float), atol=1e-8, msg='quad round trip (other way)')
    i = dist.get_mapping('identity', [])
    ctx.array_equal(i.apply(xy), xy, 'identity'); ctx.array_equal(i.apply_inverse(xy), xy, 'identity inverse')
    for m in ('GE_41RT', 'Dexela_2923', 'Dexela_2923_quad', 'identity'):
        ctx.true(m in dist.maptypes(), 'registered map type')


# ------------------------------------------------------------------ C08
@sub('C08', 'cell_indices',
     st.fixed_dictionaries(dict(n=st.integers(1, 40), e0=st.integers(-60, 60), d=st.integers(1, 16), neg=st.booleans(),
                                sub=st.sampled_from([1, 2, 8, 16, 3, 10]), as_int=st.booleans(),
                                p=st.lists(st.one_of(st.tuples(st.just('edge'), st.integers(0, 40)), st.tuples(st.just('frac'), S.num(-3, 43))),
                                           min_size=1, max_size=10))), n=2000,
     rule='ascending and descending grids, points on edges (incl. last), inside and outside, integer and float; non-trivial: '
          'a point on an edge or outside')
def cell_indices(case, ctx):
    n, d = case['n'], case['d'] / case['sub']
    if case['neg']:
        d = -d
    e0 = case['e0'] / case['sub']
    edges = e0 + d * np.arange(n + 1)
    exact = case['sub'] in (1, 2, 8, 16)
    pts, want = [], []
    for k, v in case['p']:
        if k == 'edge':
            i = min(int(v), n)
            if not exact and i < n:
                continue                       # rounding decides
            if case['neg'] and i == 0:
                continue
            pts.append(edges[i])
            want.append(n - 1 if i == n else (i - 1 if case['neg'] else i))
            ctx.label('last edge' if i == n else 'edge'); ctx.nt()
        else:
            if abs(v - round(v)) < 1e-5:
                continue
            pts.append(e0 + d * v)
            want.append(int(math.floor(v)))
            ctx.nt(v < 0 or v > n)
    if not pts:
        return
    pts = np.array(pts)
    if case['as_int'] and np.all(pts == np.round(pts)):
        pts = pts.astype(int); ctx.label('integer points')
    p0 = pts.copy()
    got = gu.cellIndices(edges, pts)
    ctx.array_equal(pts, p0, 'points untouched')
    ctx.array_equal(got, np.array(want), f'cell index of {pts} in {edges[:3]}..')
    if len(pts) == 1 and case['as_int']:
        ctx.array_equal(gu.cellIndices(edges, pts.tolist()), np.array(want), 'list input')
    ctx.equal(int(gu.cellIndices(edges, np.array([np.nan]))[0]), -1, 'NaN is outside')


@sub('C08', 'connectivity_and_areas',
     st.fixed_dictionaries(dict(m=st.integers(1, 7), n=st.integers(1, 7), p=st.integers(1, 3), ll=st.booleans(),
                                dx=S.num(0.1, 3), dy=S.num(0.1, 3), m2=S.vec(-0.4, 0.4, 4))), n=600,
     rule='m x n (x p) grids under affine maps; non-trivial: m != n')
def connectivity_and_areas(case, ctx):
    m, n, p = case['m'], case['n'], case['p']
    ctx.nt(m != n)
    con = gu.cellConnectivity(m, n, p=p, origin='ll' if case['ll'] else 'ul')
    if p == 1:
        ctx.shape(con, (m * n, 4), 'connectivity')
    else:
        ctx.shape(con, (m * n * (p - 1), 8), 'hex connectivity')
    for c in range(con.shape[0]):
        layer, r = divmod(c, m * n)
        i, j = divmod(r, n)
        quad = [i * (n + 1) + j, i * (n + 1) + j + 1, (i + 1) * (n + 1) + j, (i + 1) * (n + 1) + j + 1]
        off = (n + 1) * (m + 1)
        want = set(q + layer * off for q in quad)
        if p > 1:
            want |= set(q + (layer + 1) * off for q in quad)
        ctx.equal(set(con[c].tolist()), want, 'cell corners')
        for a, b in zip(con[c][:4], np.roll(con[c][:4], -1)):
            if p == 1:
                ctx.true(abs(int(a) - int(b)) in (1, n + 1), 'consecutive corners are neighbours')
    if p == 1:
        ys, xs = np.meshgrid(np.arange(m + 1) * -case['dy'], np.arange(n + 1) * case['dx'], indexing='ij')
        A = np.eye(2) + np.array(case['m2']).reshape(2, 2)
        crd = np.c_[xs.ravel(), ys.ravel()] @ A.T
        a = gu.compute_areas(np.ascontiguousarray(crd), con)
        want = case['dx'] * case['dy'] * np.linalg.det(A)
        sgn = -1 if case['ll'] else 1
        ctx.close(a, np.full(m * n, sgn * want), atol=1e-10, msg='signed cell areas')
        cen = gu.cellCentroids(crd, con)
        ctx.close(cen, np.array([crd[c].mean(0) for c in con]), atol=1e-12, msg='centroids')
        for c in con[:3]:
            ctx.close(gu.computeArea(crd[c]), sgn * want, atol=1e-10, msg='computeArea')
        # general quadrilaterals
        q = crd + 0.3 * min(case['dx'], case['dy']) * np.sin(np.arange(crd.size) * 7.3 + m).reshape(crd.shape)
        def shoelace(P):
            return 0.5 * sum(P[k][0] * P[(k + 1) % 4][1] - P[(k + 1) % 4][0] * P[k][1] for k in range(4))
        ctx.close(gu.compute_areas(np.ascontiguousarray(q), con), [shoelace(q[c]) for c in con], atol=1e-10, msg='areas of distorted cells')


def hull(pts):
    pts = sorted(set(pts))
    if len(pts) < 3:
        return pts
    def half(ps):
        h = []
        for q in ps:
            while len(h) >= 2 and (h[-1][0] - h[-2][0]) * (q[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (q[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(q)
        return h
    lo, up = half(pts), half(pts[::-1])
    return lo[:-1] + up[:-1]


def area(poly):
    poly = np.asarray(poly, float)
    if len(poly) < 3:
        return 0.0
    x, y = poly.T
    return 0.5 * float(np.sum(x * np.roll(y, -1) - y * np.roll(x, -1)))


def in_convex(q, poly, tol=1e-9):
    for a, b in zip(poly, poly[1:] + poly[:1]):
        if (b[0] - a[0]) * (q[1] - a[1]) - (b[1] - a[1]) * (q[0] - a[0]) < -tol:
            return False
    return True


@sub('C08', 'polygon_clip',
     st.fixed_dictionaries(dict(a=st.lists(st.tuples(st.integers(-12, 12), st.integers(-12, 12)), min_size=3, max_size=8),
                                b=st.lists(st.tuples(st.integers(-12, 12), st.integers(-12, 12)), min_size=3, max_size=8))), n=1500,
     rule='pairs of convex polygons with integer vertices (often touching); non-trivial: overlap of positive area, neither inside the other')
def polygon_clip(case, ctx):
    A = hull([tuple(x) for x in case['a']]); B = hull([tuple(x) for x in case['b']])
    if len(A) < 3 or len(B) < 3:
        return
    ctx.close(gu.computeArea(np.array(A, float)), area(A), atol=1e-9, msg='computeArea of a convex polygon')
    out = gu.sutherlandHodgman(np.array(A, float), np.array(B, float))
    out = [tuple(map(float, p)) for p in out]
    # independent: vertices of the intersection = vertices inside the other + edge crossings
    pts = [p for p in A if in_convex(p, B)] + [p for p in B if in_convex(p, A)]
    for p1, p2 in zip(A, A[1:] + A[:1]):
        for q1, q2 in zip(B, B[1:] + B[:1]):
            d = (p2[0] - p1[0]) * (q2[1] - q1[1]) - (p2[1] - p1[1]) * (q2[0] - q1[0])
            if d == 0:
                continue
            s = ((q1[0] - p1[0]) * (q2[1] - q1[1]) - (q1[1] - p1[1]) * (q2[0] - q1[0])) / d
            t = ((q1[0] - p1[0]) * (p2[1] - p1[1]) - (q1[1] - p1[1]) * (p2[0] - p1[0])) / d
            if -1e-12 <= s <= 1 + 1e-12 and -1e-12 <= t <= 1 + 1e-12:
                pts.append((p1[0] + s * (p2[0] - p1[0]), p1[1] + s * (p2[1] - p1[1])))
    want = abs(area(hull([(round(x, 9), round(y, 9)) for x, y in pts])))
    got = abs(area(out)) if len(out) >= 3 else 0.0
    ctx.close(got, want, atol=1e-6, msg='area of the clipped polygon')
    for p in out:
        ctx.true(in_convex(p, A, 1e-6) and in_convex(p, B, 1e-6), 'clipped vertices lie in both polygons', p=p)
    ctx.nt(want > 1e-6 and want < min(area(A), area(B)) - 1e-6)


@sub('C08', 'tolerance_grid',
     st.fixed_dictionaries(dict(k=st.integers(1, 60), bw=S.num(0.02, 2), nsub=st.integers(1, 6), one=st.booleans(), adj=st.booleans(),
                                frac=S.num(0.05, 0.95))), n=800, rule='window/bin ratios and subdivisions; non-trivial: ratio not an integer')
def tolerance_grid(case, ctx):
    bw = case['bw']; ww = bw * (case['k'] + case['frac'])
    ctx.nt()
    nd, g = gu.make_tolerance_grid(bw, ww, case['nsub'], adjust_window=case['adj'], one_sided=case['one'])
    ctx.shape(g, (nd + 1,), 'grid length')
    ctx.close(np.diff(g), np.full(nd, np.diff(g)[0]), atol=1e-9, msg='uniform')
    ctx.close(g, -g[::-1], atol=1e-9, msg='symmetric about zero')
    if case['one']:
        ctx.close(np.diff(g)[0], bw, atol=1e-9, msg='spacing')
    else:
        W = bw * (case['k'] + 1) if case['adj'] else ww
        ctx.close(g[-1] - g[0], W, atol=1e-9, msg='covers the window')
        # the adjusted window is a whole number of bins up to rounding, so ceil() may give one more
        ctx.true(nd in [case['nsub'] * (case['k'] + 1 + e) for e in ((0, 1) if case['adj'] else (0,))], 'number of divisions', nd=nd)
        ctx.true(np.diff(g)[0] <= bw / case['nsub'] + 1e-9, 'no coarser than asked')


# ------------------------------------------------------------------ C09
mat3 = st.lists(S.num(-5, 5), min_size=9, max_size=9)


@sub('C09', 'tensor_round_trips', st.fixed_dictionaries(dict(m=st.lists(mat3, min_size=1, max_size=4), n=S.axis(), scale=st.booleans(),
                                                             view=st.booleans())), n=1500,
     rule='general and symmetric 3x3 tensors, singly and stacked; non-trivial: off-diagonal terms')
def tensor_round_trips(case, ctx):
    M = np.array(case['m'], float).reshape(-1, 3, 3)
    A = M[0]
    Sy = 0.5 * (A + A.T)
    ctx.nt(abs(Sy[0, 1]) + abs(Sy[0, 2]) + abs(Sy[1, 2]) > 0)
    v = mu.symmToVecMV(Sy, scale=case['scale'])
    ctx.close(mu.vecMVToSymm(v, scale=case['scale']), Sy, atol=1e-12, msg='Mandel-Voigt round trip')
    f = np.sqrt(2) if case['scale'] else 1
    ctx.close(v, [Sy[0, 0], Sy[1, 1], Sy[2, 2], f * Sy[1, 2], f * Sy[0, 2], f * Sy[0, 1]], atol=1e-12, msg='Mandel-Voigt order')
    if case['scale']:
        ctx.close(v @ v, np.sum(Sy * Sy), atol=1e-9, msg='Mandel-Voigt preserves the norm')
        n = np.array(case['n'], float)
        N = mu.nrmlProjOfVecMV(np.c_[n, -2 * n, [1.0, 0, 0]])
        ctx.close(N @ v, [ref.unit(n) @ Sy @ ref.unit(n)] * 2 + [Sy[0, 0]], atol=1e-10, msg='normal projection')
    ctx.close(mu.strainVecToTen(mu.strainTenToVec(Sy).ravel()), Sy, atol=1e-12, msg='strain vector round trip')
    ctx.close(mu.strainTenToVec(Sy).ravel()[3:], 2 * np.array([Sy[1, 2], Sy[0, 2], Sy[0, 1]]), atol=1e-12, msg='engineering shear')
    ctx.close(mu.stressVecToTen(mu.stressTenToVec(Sy).ravel()), Sy, atol=1e-12, msg='stress vector round trip')
    ctx.close(mu.stressTenToVec(Sy).ravel() @ mu.strainTenToVec(Sy).ravel(), np.sum(Sy * Sy), atol=1e-9, msg='work conjugacy')
    d = mu.symmToVecds(Sy)
    ctx.close(mu.vecdsToSymm(d), Sy, atol=1e-12, msg='vecds round trip')
    ctx.close(d @ d, np.sum(Sy * Sy), atol=1e-9, msg='vecds preserves the norm')
    ctx.close(mu.vecdsSToTrace(d[5]), np.trace(Sy), atol=1e-12, msg='trace component')
    # symmetric / skew parts; argument untouched
    for X in (A.copy(), M.copy()):
        X = np.asfortranarray(X) if case['view'] else X
        shp = X.shape; keep = X.copy()
        T = X.swapaxes(-1, -2)
        s = mu.symm(X); k = mu.skew(X)
        ctx.equal(X.shape, shp, 'caller array keeps its shape')
        ctx.close(np.reshape(s, shp), 0.5 * (keep + T), atol=1e-12, msg='symm')
        ctx.close(np.reshape(k, shp), 0.5 * (keep - T), atol=1e-12, msg='skew')
        ctx.array_equal(X, keep, 'argument unchanged')
    W = np.array([ref.skew(x[0]) for x in M])
    w = mu.vectorOfSkewMatrix(W.copy())
    ctx.close(w, M[:, 0, :].T, atol=1e-12, msg='vectorOfSkewMatrix')
    ctx.close(np.reshape(mu.skewMatrixOfVector(w), W.shape), W, atol=1e-12, msg='skewMatrixOfVector')
    ctx.close(mu.vectorOfSkewMatrix(W[0].copy())[:, 0], M[0, 0], atol=1e-12, msg='single skew matrix')
    ctx.close(mu.skewMatrixOfVector(M[0, 0].copy()) @ M[0, 1], np.cross(M[0, 0], M[0, 1]), atol=1e-9, msg='skew acts as cross product')


@sub('C09', 'vector_tools',
     st.fixed_dictionaries(dict(v=st.lists(st.lists(st.integers(-3, 3), min_size=3, max_size=3), min_size=1, max_size=12),
                                pm=st.booleans(), m=st.integers(1, 4), n=st.integers(1, 4), seed=S.seeds,
                                R=S.expmap(), k=st.integers(2, 6), w=st.booleans())), n=1200,
     rule='duplicate finding on integer vectors, block matrices, dyadics, null spaces, Wahba problems; non-trivial: duplicates present')
def vector_tools(case, ctx):
    V = np.array(case['v'], float).T
    n = V.shape[1]
    r = np.random.default_rng(case['seed'])
    # duplicates
    eqv, uid = mu.findDuplicateVectors(V, tol=1e-6, equivPM=case['pm'])
    key = (lambda a: min(tuple(a), tuple(-a + 0.0))) if case['pm'] else tuple
    groups = {}
    for i in range(n):
        groups.setdefault(key(V[:, i] + 0.0), []).append(i)
    ctx.nt(any(len(g) > 1 for g in groups.values()))
    ctx.equal(sorted(int(u) for u in uid), sorted(g[0] for g in groups.values()), 'first of each class is kept')
    ctx.equal(sorted(map(sorted, [[int(x) for x in e] for e in eqv])), sorted(g for g in groups.values() if len(g) > 1), 'equivalence classes')
    if n > 1:
        u = mu.uniqueVectors(V, tol=1e-6)
        ctx.equal(sorted(map(tuple, u.T.tolist())), sorted(set(map(tuple, (V.T + 0.0).tolist()))), 'uniqueVectors')
    nrm = np.linalg.norm(V, axis=0)
    U = mu.unitVector(V)
    ctx.close(U, np.where(nrm > 0, V / np.where(nrm > 0, nrm, 1), 0), atol=1e-12, msg='unitVector')
    ctx.close(mu.columnNorm(V), nrm, atol=1e-12, msg='columnNorm'); ctx.close(mu.rowNorm(V.T), nrm, atol=1e-12, msg='rowNorm')
    # products
    m, k = case['m'], case['n']
    A = r.normal(size=(n, m, k)); B = r.normal(size=(n, k, 3))
    ctx.close(mu.multMatArray(A, B), np.einsum('aij,ajk->aik', A, B), atol=1e-10, msg='multMatArray')
    bs = mu.blockSparseOfMatArray(A).toarray() if A.size > 1 else A.reshape(1, 1)
    want = np.zeros((n * m, n * k))
    for i in range(n):
        want[i * m:(i + 1) * m, i * k:(i + 1) * k] = A[i]
    ctx.close(bs, want, atol=0, msg='blockSparseOfMatArray')
    a1, a2 = r.normal(size=(m, n)), r.normal(size=(k, n))
    ctx.close(mu.rankOneMatrix(a1, a2), np.squeeze(np.einsum('in,jn->nij', a1, a2)), atol=1e-12, msg='rankOneMatrix')
    ctx.close(mu.rankOneMatrix(a1), np.squeeze(np.einsum('in,jn->nij', a1, a1)), atol=1e-12, msg='rankOneMatrix of one')
    # null space
    C = r.normal(size=(1 + m % 2, 3))
    N = mu.nullSpace(C)
    ctx.shape(N, (3 - C.shape[0], 3), 'nullSpace')
    ctx.close(C @ N.T, np.zeros((C.shape[0], N.shape[0])), atol=1e-10, msg='null vectors')
    ctx.close(N @ N.T, np.eye(len(N)), atol=1e-10, msg='orthonormal')
    N2 = mu.nullSpace(np.ascontiguousarray(C.T))
    ctx.close(C @ N2, np.zeros((C.shape[0], N2.shape[1])), atol=1e-10, msg='null space of a tall matrix')
    # Wahba
    R = ref.e2r(case['R'])
    v = r.normal(size=(case['k'], 3))
    wt = list(r.uniform(0.5, 2, case['k'])) if case['w'] else None
    got = mu.solve_wahba(v, v @ R.T, weights=wt)
    if np.linalg.svd(v)[1][1] > 1e-3:
        ctx.close(got, R, atol=1e-8, msg='solve_wahba recovers the rotation')
    noisy = v @ R.T + r.normal(size=v.shape) * 0.3
    got = mu.solve_wahba(list(v), list(noisy), weights=wt)
    ctx.close(got @ got.T, np.eye(3), atol=1e-9, msg='orthogonal'); ctx.close(np.linalg.det(got), 1.0, atol=1e-9, msg='proper')
    wts = np.ones(case['k']) if wt is None else np.array(wt)
    J = lambda X: float((wts * ((noisy - v @ X.T) ** 2).sum(1)).sum())
    for e in np.vstack([np.eye(3) * 0.05, -np.eye(3) * 0.05, r.normal(size=(3, 3))]):
        ctx.true(J(got) <= J(ref.e2r(e) @ got) + 1e-9, 'solve_wahba minimises the cost')


@sub('C09', 'threshold_extraction',
     st.fixed_dictionaries(dict(r=st.integers(1, 12), c=st.integers(1, 12), seed=S.seeds, thr=st.integers(0, 9),
                                dt=st.sampled_from(['uint8', 'uint16', 'int32', 'float32', 'float64']))), n=500,
     rule='random small images over dtypes; non-trivial: some but not all above threshold')
def threshold_extraction(case, ctx):
    a = np.random.default_rng(case['seed']).integers(0, 10, size=(case['r'], case['c'])).astype(case['dt'])
    i = np.empty(a.size, np.uint16); j = np.empty(a.size, np.uint16); v = np.empty(a.size, a.dtype)
    n = mu.extract_ijv(a, case['thr'], i, j, v)
    wi, wj = np.nonzero(a > case['thr'])
    ctx.nt(0 < len(wi) < a.size)
    ctx.equal(int(n), len(wi), 'count')
    ctx.array_equal(i[:n], wi.astype(np.uint16)); ctx.array_equal(j[:n], wj.astype(np.uint16)); ctx.array_equal(v[:n], a[wi, wj])
