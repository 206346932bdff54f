"""C33 Orientation colours (inverse pole figure keys) and sampling of the orientation fundamental zone."""
import colorsys
import functools
import math

import numpy as np
from hypothesis import strategies as st
from pbt import ref, strat as S
from pbt.core import sub, Skip, warm
from pbt.props.texture import cryst, mat_for, rots, rvecs
from pbt.props.xtal import cell_for, l6_st, ltype, metric, ops, sg_st
from hexrd.hedm.ipfcolor import colorspace
from hexrd.hedm.sampleOrientations import conversions as cv, rfz
from hexrd.hedm.sampleOrientations.sampleRFZ import sampleRFZ

PI = math.pi


def laue_ops(sg, A):
    """Cartesian Laue operations in the crystal frame, from the Hall symbol."""
    R = {r for r, t in ops(sg)}
    R |= {tuple(tuple(-v for v in row) for row in r) for r in R}
    iA = np.linalg.inv(A)
    return np.array([A @ np.array(r, float) @ iA for r in sorted(R)])


def unique_axis(sg):
    return np.array([0, 1.0, 0]) if ltype(sg) == 'monoclinic' else np.array([0, 0, 1.0])


# ----------------------------------------------------------------- colours
@sub('C33', 'ipf_colours', st.fixed_dictionaries(dict(sg=sg_st, l1=l6_st, l2=l6_st, seed=st.integers(0, 10 ** 6), n=st.integers(1, 8), edit=st.booleans())), n=330, parts=4,
     rule='more than the inversion in the Laue group; space groups 1-230, random cells and directions')
def ipf_colours(case, ctx):
    sg = case['sg']
    small = 0.3 * np.linalg.det(metric(cell_for(sg, case['l2']))) ** (1 / 6) if case['edit'] else 2.0
    lp, m = mat_for(sg, case['l1'], ctx, 'a', dmin=min(2.0, small))
    uc = m.unitcell
    if case['edit']:
        lp = cell_for(sg, case['l2'])
        m.latticeParameters = [lp[i] for i in range(6)]
        uc = m.unitcell
    A, B = cryst(lp)
    L = laue_ops(sg, A)
    ctx.nt(len(L) > 2); ctx.label(len(L)); ctx.label(ltype(sg))
    d = rvecs(case['seed'], case['n'])
    keep = d.copy()
    c = uc.color_directions(d, True)
    ctx.array_equal(d, keep, 'directions of the caller are unchanged')
    ctx.shape(c, (len(d), 3), 'one colour per direction')
    ctx.true(np.isfinite(c).all() and c.min() >= 0 and c.max() <= 1, 'colours within [0, 1]')
    some = L[S.rng(case['seed'] + 9).choice(len(L), min(len(L), 7), replace=False)]
    for s in some:
        ctx.close(uc.color_directions(d @ s.T, True), c, 1e-5, 0, 'equivalent directions have the same colour')
    # directions which are not equivalent: almost surely different colours
    for i in range(len(d)):
        for j in range(i):
            if min(np.abs(s @ d[i] - d[j]).max() for s in L) > 0.05:
                ctx.true(np.abs(c[i] - c[j]).max() > 1e-7, 'directions that are not equivalent have different colours', d=d[i].tolist(), e=d[j].tolist())
    # scale, one by one, orientations
    f = 0.1 + S.rng(case['seed'] + 1).random((len(d), 1)) * 20
    ctx.close(uc.color_directions(d * f, True), c, 1e-6, 0, 'directions need not be unit vectors')
    ctx.close(np.vstack([uc.color_directions(x, True) for x in d[:3]]), c[:3], 1e-9, 0, 'a single direction (3)')
    R = rots(case['seed'] + 2, len(d))
    v = rvecs(case['seed'] + 3, 1)[0]
    k = R.copy()
    for kw, w in ((dict(ref_dir=v), v), (dict(), np.array([0, 0, 1.0]))):
        want = uc.color_directions(np.array([r.T @ w for r in R]), True)
        ctx.close(uc.color_orientations(R, **kw), want, 1e-9, 0, 'colour of the sample direction in the crystal frame')
        ctx.close(uc.color_orientations(R[0], **kw), want[:1], 1e-9, 0, 'one orientation (3x3)')
    ctx.array_equal(R, k, 'orientations of the caller are unchanged')
    s = L[case['seed'] % len(L)]
    if np.linalg.det(s) < 0:
        s = -s
    ctx.close(uc.color_orientations(R @ s, ref_dir=v), uc.color_orientations(R, ref_dir=v), 1e-5, 0, 'equivalent orientations have the same colour')
    # corners of the colour key
    o = ltype(sg)
    if o not in ('triclinic',) and not 143 <= sg <= 148:
        z = unique_axis(sg)
        ctx.close(uc.color_directions(np.array([z, -3 * z]), True), [[1, 0, 0]] * 2, 1e-6, 0, 'the unique axis is red')
    if o in ('orthorhombic', 'tetragonal', 'hexagonal') or o == 'trigonal' and sg > 148:
        corner = {'orthorhombic': PI / 2, 'tetragonal': PI / 4}.get(o, PI / 6)
        e = np.array([[1, 0, 0], [math.cos(corner), math.sin(corner), 0]])
        ctx.close(uc.color_directions(e, True), [[0, 1, 0], [0, 0, 1]], 0.1, 0, 'corners on the equator are green and blue')
    if o == 'cubic':
        ctx.close(uc.color_directions(np.array([[0, 1.0, 0], [0, 1, -1], [-1, 1, 1]]), True), np.eye(3), 0.1, 0, '[001] red, [101] green, [111] blue')


chan = st.one_of(S.num(0.0, 1.0), st.sampled_from([0.0, 1.0, 0.5, 1 / 3, 2 / 3, 1 / 6, 5 / 6, 0.25]))


@sub('C33', 'colour_space', st.fixed_dictionaries(dict(c=st.lists(st.lists(chan, min_size=3, max_size=3), min_size=1, max_size=8), flat=st.booleans())), n=600,
     rule='at least one colour that is not grey, black or white')
def colour_space(case, ctx):
    c = np.array(case['c'], float)
    ctx.nt(bool(np.any(np.ptp(c, axis=1) > 0.01)))
    a = c[0].copy() if case['flat'] else c.copy()
    c = np.atleast_2d(a).copy()
    want = np.array([colorsys.hls_to_rgb(h, l, s) for h, s, l in c])
    rgb = colorspace.hsl2rgb(a.copy())
    ctx.shape(rgb, c.shape, 'shape')
    ctx.close(rgb, want, 1e-6, 0, 'hsl to rgb')
    want = np.array([(lambda t: (t[0], t[2], t[1]))(colorsys.rgb_to_hls(*x)) for x in c])
    hsl = colorspace.rgb2hsl(a.copy())
    ctx.shape(hsl, c.shape, 'shape')
    g = np.ptp(c, axis=1) > 1e-6
    d = np.abs(hsl[:, 0] - want[:, 0])
    ctx.true(bool(np.all(np.minimum(d, 1 - d)[g] < 1e-6)), 'hue', got=hsl[:, 0].tolist(), want=want[:, 0].tolist())
    ctx.close(hsl[:, 2], want[:, 2], 1e-9, 0, 'lightness')
    g = g & (np.minimum(c.max(axis=1), 1 - c.min(axis=1)) > 1e-3)
    ctx.close(hsl[g, 1], want[g, 1], 1e-6, 0, 'saturation')
    ctx.close(colorspace.hsl2rgb(hsl), c, 1e-6, 0, 'rgb to hsl and back')


# ----------------------------------------------------------------- fundamental zones
GRP = {1: 'ci', 2: 'ci', 3: 'c2h', 4: 'c2h', 5: 'c2h', 6: 'd2h', 7: 'd2h', 8: 'd2h', 9: 'c4h', 10: 'c4h', 11: 'c4h', 12: 'd4h', 13: 'd4h', 14: 'd4h', 15: 'd4h', 16: 's6', 17: 's6',
       18: 'd3d', 19: 'd3d', 20: 'd3d', 21: 'c6h', 22: 'c6h', 23: 'c6h', 24: 'd6h', 25: 'd6h', 26: 'd6h', 27: 'd6h', 28: 'th', 29: 'th', 30: 'oh', 31: 'th', 32: 'oh'}


@functools.lru_cache(None)
def gquat(pg):
    out = []
    for g in ref.laue_group(GRP[pg]):
        w = 0.5 * math.sqrt(max(0, 1 + np.trace(g)))
        if w > 1e-6:
            v = np.array([g[2, 1] - g[1, 2], g[0, 2] - g[2, 0], g[1, 0] - g[0, 1]]) / (4 * w)
        else:
            x = np.array(g) + np.eye(3)
            v = ref.unit(x[:, np.argmax(np.linalg.norm(x, axis=0))])
        out.append(np.r_[w, v])
    return np.array(out)


@sub('C33', 'zone_membership', st.fixed_dictionaries(dict(pg=st.integers(1, 32), seed=st.integers(0, 10 ** 6), n=st.just(60))), n=300,
     rule='orientations on both sides of the zone boundary')
def zone_membership(case, ctx):
    pg = case['pg']
    G = gquat(pg)
    q = ref.unit(S.rng(case['seed']).normal(size=(case['n'], 4)))
    q[q[:, 0] < 0] *= -1
    best = np.abs(q @ G.T)
    gap = q[:, 0] - np.where(np.abs(G[:, 0]) > 1 - 1e-9, 0, best).max(axis=1)     # cos(half angle): own minus best equivalent
    res = []
    for x in q:
        w = 2 * math.acos(x[0])
        res.append(bool(rfz.insideFZ(np.r_[ref.unit(x[1:]), math.tan(w / 2)], pg)))
    want = gap >= 0
    sure = np.abs(gap) > 1e-6
    ctx.nt(bool(want.any() and (~want).any()) or len(G) == 1); ctx.label(pg)
    ctx.equal(list(np.array(res)[sure]), list(want[sure]), 'inside: no equivalent has a smaller rotation angle')


@sub('C33', 'sampling', st.fixed_dictionaries(dict(pg=st.integers(1, 32), kind=st.sampled_from(['default', 'special', 'Default', 'SPECIAL']), sp=S.num(6.0, 15.0), seed=st.integers(0, 10 ** 6),
     late=st.booleans())), n=90, parts=2, rule='point group with rotations')
def sampling(case, ctx):
    pg, sp = case['pg'], case['sp']
    if case['late']:
        s = sampleRFZ(1 + case['seed'] % 32, average_angular_spacing=30.0)
        s.pgnum = pg
        s.sampling_type = case['kind']
        s.avg_ang_spacing = sp
    else:
        s = sampleRFZ(pg, sampling_type=case['kind'], average_angular_spacing=sp)
    q = np.array(s.orientations)
    G = gquat(pg)
    ctx.nt(len(G) > 1); ctx.label(pg); ctx.label(case['kind'].lower())
    ctx.true(q.ndim == 2 and q.shape[1] == 4 and np.isfinite(q).all(), 'list of quaternions', shape=list(q.shape))
    ctx.close(np.linalg.norm(q, axis=1) - 1, np.zeros(len(q)), 1e-9, 0, 'unit quaternions')
    own = np.abs(q[:, 0])
    ctx.true(bool(np.all(own >= np.abs(q @ G.T).max(axis=1) - 1e-6)), 'samples are in the fundamental zone')
    N = {'default': 131.97049 / (sp - 0.03732), 'special': 125.70471 / (sp - 0.07127)}[case['kind'].lower()]
    N = round(N)
    tot = (2 * N + (case['kind'].lower() == 'default')) ** 3
    # number of samples: one zone of the whole space; surface cells of the zone are uncertain
    frac = len(q) * len(G) / tot
    ctx.true(abs(frac - 1) < 3.0 * len(G) ** (1 / 3) / N, 'number of samples: volume of the zone', frac=frac, n=len(q), N=N)
    # random orientations: nearest sample, over the equivalents
    x = ref.unit(S.rng(case['seed']).normal(size=(40, 4)))
    eq = np.array([ref.qmul(y, g) for y in x for g in G])
    dot = np.abs(eq @ q.T).reshape(len(x), len(G), -1).max(axis=(1, 2))
    far = np.degrees(2 * np.arccos(np.minimum(dot, 1)))
    ctx.true(far.max() < (3.5 if GRP[pg] == 'c6h' else 1.8) * sp, 'every orientation has a sample nearby', far=float(far.max()), sp=sp)
    ctx.true(0.3 * sp < far.mean() < 0.8 * sp or len(q) < 50, 'average distance to the samples', far=float(far.mean()), sp=sp)
    k = S.rng(case['seed'] + 1).choice(len(q), min(len(q), 60), replace=False)
    dot = np.abs(q[k] @ q.T)
    dot[np.arange(len(k)), k] = 0
    near = np.degrees(2 * np.arccos(np.minimum(dot.max(axis=1), 1)))
    inner = own[k] > 0.05
    ctx.true(bool(np.all(near[inner] > 0.4 * sp)), 'samples are distinct, evenly spaced', near=float(near[inner].min()) if inner.any() else None, sp=sp)


cu_st = st.lists(S.num(-0.999, 0.999), min_size=3, max_size=3)


@sub('C33', 'cubochoric', st.fixed_dictionaries(dict(u=cu_st, z=st.sampled_from([0, 0, 0, 1, 2, 3, 4]))), n=1500,
     rule='point away from the centre and the pyramid boundaries')
def cubochoric(case, ctx):
    a2 = PI ** (2 / 3) / 2
    u = np.array(case['u'])
    if case['z'] in (1, 2, 3):
        u[[i for i in range(3) if i != case['z'] - 1]] = 0
    if case['z'] == 4:
        u[:] = np.sign(u) * np.abs(u).max()
    cu = u * a2
    ho = np.array(cv.cu2ho(cu.copy()))
    r = np.abs(cu).max() * 2 * (3 / (4 * PI)) ** (1 / 3)
    srt = np.sort(np.abs(cu))
    inner = srt[2] > 0.05 and srt[2] - srt[1] > 0.01
    ctx.nt(bool(inner)); ctx.label(int(np.argmax(np.abs(cu))) * 2 + int(cu[np.argmax(np.abs(cu))] > 0))
    ctx.close(np.linalg.norm(ho), r, 1e-7, 1e-7, 'cubes map to spheres of the same volume')
    ctx.true(bool(np.all((ho * cu) >= -1e-9)), 'same octant')
    ctx.close(cv.cu2ho(-cu), -ho, 1e-9, 0, 'odd')
    if inner and abs(srt[1] - srt[0]) > 0.01:
        h = 1e-5
        J = np.array([(cv.cu2ho(cu + h * e) - cv.cu2ho(cu - h * e)) / (2 * h) for e in np.eye(3)]).T
        ctx.close(abs(np.linalg.det(J)), 1.0, 1e-4, 0, 'equal volume')
    if r < 1e-3:
        return
    # homochoric vector: |h|^3 = 3/4 (w - sin w)
    ro = np.array(cv.cu2ro(cu.copy()))
    q = np.array(cv.ro2qu(ro))
    ctx.close(np.linalg.norm(q), 1.0, 1e-9, 0, 'unit quaternion')
    w = 2 * math.acos(min(1, abs(q[0])))
    ctx.close((0.75 * (w - math.sin(w))) ** (1 / 3), r, 2e-4 if w < 0.1 else 2e-5, 0, 'rotation angle of the homochoric vector')
    ctx.close(q[1:] / np.linalg.norm(q[1:]), ho / r, 1e-6, 0, 'rotation axis along the homochoric vector')
    ctx.close(ro[3], math.tan(w / 2), 1e-6, 1e-6, 'Rodrigues magnitude')


@warm('C33')
def _warm():
    rfz.insideFZ(np.array([0, 0, 1.0, 0.1]), 1)
    sampleRFZ(32, average_angular_spacing=20.0)
    cv.cu2ro(np.array([.1, .2, .3])); cv.cu2ho(np.array([.1, .2, .3])); cv.ro2qu(np.array([0, 0, 1.0, .1]))
