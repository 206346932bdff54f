"""C32 Texture: orientation distributions, kernels, transformation variants, harmonic and March-Dollase models, pole figure grids."""
import contextlib
import copy
import functools
import io
import math
import os

import numpy as np
from hypothesis import strategies as st
from pbt import ref, strat as S
from pbt.core import sub, Skip, warm
from pbt.props.material import load
from pbt.props.xtal import NI, cell_for, l6_st, ltype, metric, okc, ops, sg_st
from hexrd.phase_transition import variants as var
from hexrd.phase_transition.texture import DeLaValleePoussinKernel, UniformODF, UnimodalODF, eval_random_orientations, texture_index, texture_norm
from hexrd.phase_transition.texture.evaluation import eval_odf_batch
from hexrd.powder.wppf import phase, texture as tx

PI = math.pi
LAUE = ['ci', 'c2h', 'd2h', 'c4h', 'd4h', 's6', 'd3d', 'c6h', 'd6h', 'th', 'oh']
SAMPLE = {'triclinic': 'ci', 'monoclinic': 'c2h', 'orthorhombic': 'd2h'}
SUNDRY = ['monoclinic', 'orthorhombic', 'triclinic', 'axial']


def group(tag):
    return ref.laue_group(SAMPLE.get(tag, tag))


def cryst(lp):
    """Columns a, b, c (a along x, c* along z) and the reciprocal vectors."""
    G = metric(lp)
    A = np.linalg.cholesky(G).T
    B = np.linalg.inv(A).T
    assert np.allclose(B[:2, 2], 0)
    return A, B


def rvecs(seed, n):
    v = S.rng(seed).normal(size=(n, 3))
    return v / np.linalg.norm(v, axis=1, keepdims=True)


def rots(seed, n):
    q = S.rng(seed).normal(size=(n, 4))
    return np.array([ref.q2r(x) for x in q])


def angle(R):
    return ref.rangle(R)


# ----------------------------------------------------------------- kernels and orientation distributions
sym_st = st.sampled_from([None] + LAUE)
ssym_st = st.sampled_from([None, None, 'triclinic', 'monoclinic', 'orthorhombic'])
kern_st = dict(hw=st.one_of(S.num(0.05, 1.5), st.sampled_from([math.radians(x) for x in (5, 10, 20, 45, 90)])), cs=sym_st, ss=ssym_st, array=st.booleans(), seed=S.seeds)


@functools.lru_cache(500)
def dlvp_const(hw):
    """kappa from the half width; mean over all rotations one, by numerical integration."""
    k = math.log(0.5) / (2 * math.log(math.cos(hw / 2)))
    x, wt = np.polynomial.legendre.leggauss(400)
    top = min(PI, 12 * hw)
    t = (x + 1) / 2 * top
    return k, 1 / np.sum(wt / 2 * top * np.cos(t / 2) ** (2 * k) * (1 - np.cos(t)) / PI)


def dlvp(hw, w):
    k, c = dlvp_const(hw)
    return np.cos(w / 2) ** (2 * k) * c, k, c


def kernel(case):
    cs, ss = case['cs'], case['ss']
    if case['array']:
        q = lambda t: None if t is None else np.array([[1.0, 0, 0, 0]] + [np.r_[math.cos(angle(R) / 2), math.sin(angle(R) / 2) * axis(R)] for R in group(t) if angle(R) > 1e-6]).T
        cs, ss = q(cs), q(ss)
    return DeLaValleePoussinKernel(case['hw'], crystal_symmetry=cs, sample_symmetry=ss)


def axis(R):
    w, v = np.linalg.eig(R)
    a = np.real(v[:, np.argmin(abs(w - 1))])
    a /= np.linalg.norm(a)
    return a if np.allclose(ref.aa2r(angle(R), a), R, atol=1e-6) else -a


def full_eval(case, g, g0):
    C = np.array(group(case['cs']) if case['cs'] else [np.eye(3)])
    Z = np.array(group(case['ss']) if case['ss'] else [np.eye(3)])
    eq = np.einsum('sij,jk,ckl->scil', Z, g0, C).reshape(-1, 3, 3)
    c = (np.einsum('nij,ij->n', eq, g) - 1) / 2
    w = np.arccos(np.clip(c, -1, 1))
    return float(np.mean(np.cos(w / 2) ** (2 * dlvp_const(case['hw'])[0]))) * dlvp_const(case['hw'])[1], float(w.min())


@sub('C32', 'kernel', st.fixed_dictionaries(dict(kern_st, n=st.integers(1, 5), shape=st.sampled_from(['one', 'flat', 'grid', 'swap']), near=st.booleans())), n=350, n_thorough=3500,
     rule='crystal or sample symmetry is not trivial')
def kernel_values(case, ctx):
    K = kernel(case)
    sym = bool(case['cs'] not in (None, 'ci') or case['ss'] not in (None, 'triclinic'))
    ctx.nt(sym); ctx.label(case['cs']); ctx.label(case['shape'])
    k, kap, C = dlvp(case['hw'], np.zeros(1))
    ctx.close(K.kappa, kap, rtol=1e-9, atol=0, msg='shape parameter')
    ctx.close(K.norm_constant, C, rtol=1e-5, atol=0, msg='mean over all orientations is one')
    ctx.equal(K.has_symmetry, sym, 'has symmetry')
    ctx.equal(K.halfwidth, case['hw'], 'half width')
    g0 = rots(case['seed'], 1)[0]
    n = case['n']
    g = rots(case['seed'] + 1, n * (2 if case['shape'] == 'grid' else 1))
    if case['near']:
        g = np.array([r @ g0 @ ref.e2r(0.6 * case['hw'] * e) for r, e in zip([np.eye(3)] * len(g), rvecs(case['seed'] + 2, len(g)))])
        if case['cs']:
            G = group(case['cs'])
            g = np.array([x @ G[i % len(G)] for i, x in enumerate(g)])
    want = [full_eval(case, x, g0) for x in g]
    v, w = np.array([x[0] for x in want]), np.array([x[1] for x in want])
    b = g
    if case['shape'] == 'one':
        b, v, w = g[0], v[0], w[0]
    elif case['shape'] == 'grid':
        b, v, w = g.reshape(n, 2, 3, 3), v.reshape(n, 2), w.reshape(n, 2)
    a = (g0, b) if case['shape'] == 'swap' else (b, g0)
    got = K.eval(*a)
    ctx.close(np.asarray(got, float), np.asarray(v), rtol=3e-5, atol=1e-7, msg='kernel averaged over the equivalent orientations')
    ctx.close(np.asarray(K.misorientation_angle(*a), float), np.asarray(w), atol=1e-6, rtol=0, msg='smallest equivalent misorientation')
    if not sym:
        Rh = g0 @ ref.e2r(case['hw'] * rvecs(case['seed'], 1)[0])
        ctx.close(K.eval(Rh, g0), K.eval(g0, g0) / 2, rtol=1e-6, atol=1e-9, msg='half of the maximum at the half width')


@sub('C32', 'odf', st.fixed_dictionaries(dict(kern_st, m=st.integers(1, 4), n=st.integers(1, 7), w=st.lists(st.integers(0, 5), min_size=4, max_size=4), wts=st.booleans(), chunk=st.integers(1, 8),
                                              bad=st.sampled_from([None] * 12 + ['sum', 'neg', 'shape', 'kern', 'ori', 'hw', 'cs']))), n=250, n_thorough=2500,
     rule='several modes, or symmetry')
def odf(case, ctx):
    if case['bad'] == 'hw':
        ctx.raises(ValueError, lambda: DeLaValleePoussinKernel(-case['hw']), 'negative half width'); return
    if case['bad'] == 'cs':
        ctx.raises(ValueError, lambda: DeLaValleePoussinKernel(case['hw'], crystal_symmetry='d3h'), 'unknown symmetry')
        ctx.raises(ValueError, lambda: UniformODF('nonsense'), 'unknown symmetry'); return
    K = kernel(case)
    m = case['m']
    modes = rots(case['seed'], m)
    w = np.array(case['w'][:m], float)
    if not case['wts'] or w.sum() == 0:
        w, arg = np.full(m, 1 / m), None
    else:
        w = w / w.sum()
        arg = w.copy()
    if case['bad'] in ('sum', 'neg', 'shape'):
        bw = {'sum': np.full(m, 1.5 / m), 'neg': np.r_[1.5, -0.5], 'shape': np.full(m + 1, 1 / (m + 1))}[case['bad']]
        md = rots(1, 2) if case['bad'] == 'neg' else modes
        ctx.raises(ValueError, lambda: UnimodalODF(md, K, weights=bw), 'bad weights'); return
    if case['bad'] == 'kern':
        ctx.raises(TypeError, lambda: UnimodalODF(modes, 'k'), 'kernel type'); return
    f = UnimodalODF(modes[0] if m == 1 and case['wts'] else modes, K, weights=arg)
    if case['bad'] == 'ori':
        ctx.raises(ValueError, lambda: f.eval(np.eye(4)), 'shape of orientations')
        ctx.raises(ValueError, lambda: UnimodalODF(np.ones((2, 2)), K), 'shape of modes'); return
    sym = K.has_symmetry
    ctx.nt(m > 1 or sym)
    ctx.equal(f.n_components, m, 'number of modes')
    ctx.close(f.weights, w, rtol=1e-12, atol=0, msg='weights')
    g = rots(case['seed'] + 5, case['n'])
    want = np.array([sum(wi * full_eval(case, x, g0)[0] for wi, g0 in zip(w, modes)) for x in g])
    ctx.close(f.eval(g), want, rtol=3e-5, atol=1e-7, msg='distribution')
    ctx.close(f.eval(g[0]), want[0], rtol=3e-5, atol=1e-7, msg='one orientation')
    ctx.close(eval_odf_batch(f, g, chunk_size=case['chunk']), want, rtol=3e-5, atol=1e-7, msg='in chunks')
    if case['cs'] and not case['array']:
        G = group(case['cs'])
        ctx.close(f.eval(np.array([g[0] @ c for c in G])), np.full(len(G), want[0]), rtol=1e-6, atol=1e-7, msg='equivalent crystal orientations')
    at = [sum(wi * full_eval(case, x, g0)[0] for wi, g0 in zip(w, modes)) for x in modes]
    ctx.close(f.estimated_max_value(), max(at), rtol=3e-5, atol=1e-7, msg='largest value at a mode')
    ctx.equal(f.crystal_symmetry, None if case['array'] else case['cs'], 'symmetry label')
    o, v = eval_random_orientations(f, n_orientations=30, seed=case['seed'])
    o2, v2 = eval_random_orientations(f, n_orientations=30, seed=case['seed'])
    ctx.array_equal(o, o2, 'seeded orientations'); ctx.array_equal(v, v2, 'seeded values')
    ctx.close(np.einsum('nij,nkj->nik', o, o), np.tile(np.eye(3), (30, 1, 1)), atol=1e-9, rtol=0, msg='orientations are rotations')
    ctx.true(np.all(np.linalg.det(o) > 0), 'proper')
    ctx.close(v, f.eval(o), rtol=1e-12, atol=0, msg='values belong to the orientations')
    J = texture_index(f, n_orientations=30, seed=case['seed'])
    if m == 1 and not sym:
        top = min(PI, 12 * case['hw'])
        x, wt = np.polynomial.legendre.leggauss(400)
        t = (x + 1) / 2 * top
        J0 = float(np.sum(wt / 2 * top * dlvp(case['hw'], t)[0] ** 2 * (1 - np.cos(t)) / PI))
        ctx.close(J, J0, rtol=1e-4, atol=0, msg='texture index in closed form')
    else:
        ctx.true(f.analytic_texture_index() is None, 'no closed form')
        ctx.close(J, np.mean(v ** 2) / np.mean(v) ** 2, rtol=1e-9, atol=0, msg='texture index from samples')
    ctx.close(texture_norm(f, n_orientations=30, seed=case['seed']) ** 2, J, rtol=1e-9, atol=0, msg='norm')
    ctx.close([f.texture_index(30, case['seed']), f.norm(30, case['seed'])], [J, math.sqrt(J)], rtol=1e-9, atol=0, msg='methods')
    u = UniformODF(case['cs'], case['ss'])
    ctx.array_equal(u.eval(g.reshape(-1, 1, 3, 3)), np.ones((len(g), 1)), 'uniform distribution'); ctx.equal([u.eval(g[0]), u.texture_index(), u.norm()], [1.0, 1.0, 1.0], 'uniform')


@sub('C32', 'mean_of_distribution', st.fixed_dictionaries(dict(kern_st, m=st.integers(1, 2))), n=40, n_thorough=400, rule='symmetry is not trivial')
def odf_mean(case, ctx):
    """Monte Carlo with explicit error bounds; every distribution has mean one (multiples of random)."""
    c = dict(case, hw=max(case['hw'], 0.4))
    K = kernel(c)
    ctx.nt(K.has_symmetry)
    f = UnimodalODF(rots(case['seed'], case['m']), K)
    n = 4000
    o, v = eval_random_orientations(f, n_orientations=n, seed=case['seed'])
    se = np.std(v) / math.sqrt(n)
    ctx.true(abs(v.mean() - 1) < 7 * se + 1e-6, 'mean value of the distribution is one', mean=float(v.mean()), se=float(se))
    ctx.true(np.max(np.abs(o.mean(axis=0))) < 7 * math.sqrt(1 / 3 / n), 'orientations are uniform', got=float(np.max(np.abs(o.mean(axis=0)))))
    tr = np.trace(o, axis1=1, axis2=2)
    ctx.true(abs(np.mean(tr ** 2) - 1) < 7 * math.sqrt(2 / n), 'orientations are uniform (second moment of the character)')


# ----------------------------------------------------------------- orientation variants
perp_st = st.lists(st.lists(st.integers(-2, 2), min_size=3, max_size=3).filter(any), min_size=2, max_size=2)
VSG = [2, 5, 8, 12, 14, 19, 62, 82, 88, 129, 141, 148, 156, 160, 164, 167, 173, 187, 194, 198, 205, 216, 217, 225, 229, 230]


def mat_for(sg, l6, ctx, tag, dmin=1.5, kev=60.0):
    lp = cell_for(sg, l6)
    dmin = min(dmin, 0.3 * np.linalg.det(metric(lp)) ** (1 / 6))
    return lp, load(dict(sg=sg, setting=0, lp=lp, atoms=[NI], ani=False, dmin=dmin, kev=kev), ctx.scratch, tag)


def pair(pl, k):
    """A plane and a lattice direction inside it (integers)."""
    h = np.array(pl[0])
    u = np.cross(h, np.array(pl[1]))
    if not u.any():
        e = np.eye(3, dtype=int)[k % 3]
        u = np.cross(h, e)
        if not u.any():
            u = np.cross(h, np.eye(3, dtype=int)[(k + 1) % 3])
    return h.astype(float), u.astype(float)


@sub('C32', 'variants', st.fixed_dictionaries(dict(sg1=st.sampled_from(VSG), sg2=st.sampled_from(VSG), l1=l6_st, l2=l6_st, p1=perp_st, p2=perp_st, simple=st.booleans(), k=st.integers(0, 2))), n=70,
     n_thorough=700, rule='some operations of the parent give the same variant')
def orientation_variants(case, ctx):
    lp1, m1 = mat_for(case['sg1'], case['l1'], ctx, 'a', dmin=2.0)
    lp2, m2 = mat_for(case['sg2'], case['l2'], ctx, 'b', dmin=2.0)
    P1, P2 = case['p1'], case['p2']
    if case['simple']:
        P1, P2 = [[0, 0, 1], [0, 1, 0]], [[[0, 0, 1], [0, 1, 0]], [[1, 1, 1], [1, 0, -1]], [[1, 1, 0], [0, 0, 1]]][case['k']]
    (h1, u1), (h2, u2) = pair(P1, case['k']), pair(P2, case['k'])
    got, num = var.getPhaseTransformationVariants(m1, m2, np.array([h1, h2]), np.array([u1, u2]))

    def pg(sg, lp):
        A, B = cryst(lp)
        out = []
        for R in sorted({R for R, t in ops(sg)}):
            out.append(A @ np.array(R, float) @ np.linalg.inv(A))
        return out, A, B
    G1, A1, B1 = pg(case['sg1'], lp1)
    G2, A2, B2 = pg(case['sg2'], lp2)
    fr = []
    for A, B, h, u in ((A1, B1, h1, u1), (A2, B2, h2, u2)):
        z, x = ref.unit(B @ h), ref.unit(A @ u)
        fr.append(np.c_[x, np.cross(z, x), z])
    T0 = fr[0] @ fr[1].T           # child to parent frame
    want = []
    for s in G1:
        T = s @ T0
        if not any(np.abs(T @ g - w).max() < 1e-6 for w in want for g in G2):
            want.append(T)
    ctx.nt(1 < len(want) < len(G1)); ctx.label(len(want))
    ctx.equal(int(num), len(want), 'expected number of variants')
    ctx.equal(len(got), len(want), 'number of variants')
    left = list(range(len(want)))
    for r in got:
        hit = [i for i in left if any(np.abs(want[i] @ g - r).max() < 1e-5 for g in G2)]
        ctx.true(len(hit) == 1, 'each variant satisfies the orientation relation of one set of equivalents', n=len(hit))
        left.remove(hit[0])


# ----------------------------------------------------------------- symmetrized harmonics
def sphere_quad(lmax):
    x, w = np.polynomial.legendre.leggauss(lmax + 1)
    n = 2 * lmax + 2
    ph = np.arange(n) * 2 * PI / n - PI + 0.1
    T, F = np.meshgrid(np.arccos(x), ph, indexing='ij')
    return T.ravel(), F.ravel(), np.repeat(w / 2 / n, n)


def dirs(t, p):
    return np.c_[np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)]


def angs(v):
    return np.arccos(np.clip(v[:, 2], -1, 1)), np.arctan2(v[:, 1], v[:, 0])


def harm_group(s):
    """Proper rotations in the frame of the harmonics: main axis along z, two-folds of dihedral groups along x."""
    if s in ('c2h', 'monoclinic'):
        return ref.rmat_group([ref.axis_rot(2, PI)])
    return group(s)


@sub('C32', 'symmetrized_harmonics', st.fixed_dictionaries(dict(sym=st.sampled_from(LAUE + SUNDRY), l=st.sampled_from([2, 4, 6, 8, 10, 12, 14, 16, 18, 20]), seed=S.seeds, a=S.ang(0, 2 * PI),
                                                                bad=st.sampled_from([None] * 8 + ['odd', 'neg', 'sym']))), n=250, n_thorough=1200, rule='more than one harmonic, or a cubic one')
def symmetrized_harmonics(case, ctx):
    s, l = case['sym'], case['l']
    one = np.array([0.3])
    if case['bad']:
        a = {'odd': (l + 1, s), 'neg': (-l, s), 'sym': (l, 'd3h')}[case['bad']]
        ctx.raises(ValueError, lambda: tx.calc_sym_sph_harm(a[0], one, one, sym=a[1]), case['bad']); return
    if s in ('th', 'oh') and l > 16:
        ctx.raises(ValueError, lambda: tx.calc_sym_sph_harm(l, one, one, sym=s), 'degree above the tables'); return
    if s == 'axial':
        G = [ref.axis_rot(2, case['a']), ref.axis_rot(0, PI) @ ref.axis_rot(2, case['a'])]
        want = 1
    else:
        G = harm_group(s)
        ch = [2 * l + 1 if angle(R) < 1e-6 else math.sin((2 * l + 1) * angle(R) / 2) / math.sin(angle(R) / 2) for R in G]
        want = round(sum(ch) / len(G))
    if want == 0:
        if tx.get_num_sym_harm(l, s) != 0:
            ctx.known.append('cubic texture models hold a harmonic of degree 2, which no cubic function has')
        return
    ctx.nt(want > 1 or s in ('th', 'oh')); ctx.label(s)
    ctx.equal(tx.get_num_sym_harm(l, s), want, 'number of harmonics invariant under the group')
    t, p, w = sphere_quad(l)
    Y = tx.calc_sym_sph_harm(l, t, p, sym=s)
    ctx.shape(Y, (len(t), want), 'harmonics')
    gram = Y.T @ ((4 * PI * w)[:, None] * Y)
    ctx.true(np.abs(gram - np.diag(np.diag(gram))).max() < 1e-9, 'harmonics are orthogonal')
    ctx.true(np.linalg.matrix_rank(gram, tol=1e-6) == want, 'harmonics are independent')
    v = rvecs(case['seed'], 12)
    Y0 = tx.calc_sym_sph_harm(l, *angs(v), sym=s)
    for R in G:
        ctx.close(tx.calc_sym_sph_harm(l, *angs(v @ R.T), sym=s), Y0, atol=1e-9, rtol=0, msg='invariant under the symmetry')
    ctx.close(tx.calc_sym_sph_harm(l, *angs(-v), sym=s), Y0, atol=1e-9, rtol=0, msg='invariant under inversion')
    # reproducing property: functions of degree l only
    c = np.clip(v @ dirs(t, p).T, -1, 1)
    Pl = np.polynomial.legendre.legval(c, [0] * l + [1])
    ctx.close((2 * l + 1) * (Pl * w) @ Y, Y0, atol=1e-8, rtol=0, msg='harmonics have the degree asked for')


# ----------------------------------------------------------------- harmonic model
HSG = [1, 2, 5, 12, 14, 15, 19, 62, 63, 82, 88, 123, 136, 146, 148, 149, 151, 153, 155, 156, 157, 159, 160, 162, 163, 164, 166, 167, 169, 173, 176, 177, 186, 191, 194, 198, 205, 206, 216, 221, 225, 227, 229]
hm_st = dict(sg=st.sampled_from(HSG), l6=l6_st, ssym=st.sampled_from(SUNDRY), lmax=st.sampled_from([2, 4, 4, 6, 8]), seed=S.seeds, tilt=st.booleans(), e=S.expmap())


def hmodel(case, ctx, tag='h', scale=0.15, **kw):
    lp, m = mat_for(case['sg'], case['l6'], ctx, tag, dmin=case.get('dmin', 1.6))
    q = phase.Material_Rietveld(fhdf=None, xtal=None, dmin=None, material_obj=m)
    R = ref.e2r(case['e']) if case['tilt'] else np.eye(3)
    H = tx.HarmonicModel(material=q, ssym=case['ssym'], ell_max=case['lmax'], sample_rmat=R, **kw)
    return lp, q, H, coeffs(H, case, scale), R


def coeffs(H, case, scale=0.15):
    p = H.get_parameters()
    r = S.rng(case['seed'])
    for n in sorted(H.parameter_names):
        l = int(n.split('_c_')[1].split('_')[0])
        p[n].value = 0.0 if (H.csym in ('th', 'oh') and l == 2) else float(r.normal()) * scale
    return p


def ring_dirs(tth, eta, bv=(0, 0, -1.0), ev=(1.0, 0, 0)):
    Z = -ref.unit(bv)
    X = np.asarray(ev, float)
    X = ref.unit(X - (X @ Z) * Z)
    Y = np.cross(Z, X)
    th = tth / 2
    return np.cos(th) * (np.cos(eta)[:, None] * X + np.sin(eta)[:, None] * Y) + np.sin(th) * Z


def evalpf(H, p, hkls, v):
    H.calc_new_pole_figure(p, hkls=hkls, pfgrid=np.array(v))
    return np.array([H.intensities_new[tuple(h)] for h in hkls])


@sub('C32', 'pole_figures', st.fixed_dictionaries(dict(hm_st, hkl=st.lists(st.integers(-3, 3), min_size=3, max_size=3).filter(any), one=st.booleans(), defgrid=st.booleans())), n=90, n_thorough=900,
     rule='the crystal has more than one symmetry operation')
def pole_figures(case, ctx):
    c = dict(case, lmax=min(case['lmax'], 6))
    if c['sg'] >= 195 and c['lmax'] == 2:
        c['lmax'] = 4
    lp, q, H, p, R = hmodel(c, ctx)
    A, B = cryst(lp)
    G = sorted({r for r, t in ops(c['sg'])})
    ctx.nt(len(G) > 1); ctx.label(H.csym); ctx.label(c['ssym'])
    h = np.array(c['hkl'], float)
    eq = np.array([h @ np.linalg.inv(np.array(r, float)) for r in G])
    t, f, w = sphere_quad(c['lmax'])
    y = dirs(t, f)
    P = evalpf(H, p, np.vstack([eq, -eq]), y)
    ctx.close(P, np.tile(P[0], (len(P), 1)), rtol=0, atol=1e-8, msg='equivalent planes have one pole figure')
    ctx.close(P[0] @ w, 1.0, rtol=0, atol=1e-9, msg='mean of a pole figure is one')
    v = rvecs(c['seed'] + 3, 6)
    P0 = evalpf(H, p, h[None], v)[0]
    ctx.close(evalpf(H, p, h[None], -3 * v)[0], P0, atol=1e-9, rtol=0, msg='pole figure of directions, either sense, any length')
    gs = [ref.axis_rot(2, 0.7), ref.axis_rot(0, PI)] if c['ssym'] == 'axial' else harm_group(c['ssym'])
    for g in gs:
        ctx.close(evalpf(H, p, h[None], v @ (R.T @ g @ R).T)[0], P0, atol=1e-9, rtol=0, msg='sample symmetry')
    # total power, degree by degree
    hk = dirs(t, f) @ np.linalg.inv(B).T
    J = 1.0
    for l in range(2, c['lmax'] + 1, 2) if not c['one'] else []:
        pl = copy.deepcopy(p)
        for n in pl:
            if int(n.split('_c_')[1].split('_')[0]) != l:
                pl[n].value = 0.0
        Pl = evalpf(H, pl, hk, y)
        Jl = 1 + (2 * l + 1) * float(w @ ((Pl - 1) ** 2) @ w)
        ctx.close(H.J(pl), Jl, rtol=1e-9, atol=1e-9, msg='texture index of one degree')
        J += Jl - 1
    if not c['one']:
        ctx.close(H.texture_index(p), J, rtol=1e-9, atol=1e-9, msg='texture index')
    # linear in the coefficients, and the sample frame
    p0 = H.get_parameters(vary=False)
    ctx.close(evalpf(H, p0, h[None], v), np.ones((1, 6)), atol=0, rtol=0, msg='no texture')
    H0 = tx.HarmonicModel(material=q, ssym=c['ssym'], ell_max=c['lmax'])
    ctx.close(evalpf(H0, p, h[None], v @ R.T)[0], P0, atol=1e-9, rtol=0, msg='tilted sample')
    if c['defgrid']:
        H.calc_new_pole_figure(p, hkls=h)
        a = H.angs_new[tuple(h)]
        got = H.intensities_new[tuple(h)]
        ctx.close(got, evalpf(H, p, h[None], dirs(a[:, 0], a[:, 1]))[0], atol=1e-7, rtol=0, msg='standard grid')
        ctx.true(np.isclose(a[:, 0].max(), PI / 2) and np.isclose(np.ptp(a[:, 1]), 2 * PI), 'standard grid covers the hemisphere')


@sub('C32', 'rings', st.fixed_dictionaries(dict(hm_st, steps=st.lists(st.sampled_from(['lattice', 'ell', 'ssym', 'tilt', 'coef', '2d', 'range']), max_size=3), eta0=S.num(-170, 0), span=S.num(30, 170),
                                                de=st.sampled_from([1.0, 2.5, 5.0, 7.0]), bv=st.sampled_from([[0, 0, -1.0], [0.1, -0.05, -0.95], [0, 0.3, -0.9]]), mask=st.booleans(), factor=S.num(0.7, 1.4),
                                                s2=st.sampled_from(SUNDRY), l2=st.sampled_from([2, 4, 6]))), n=90, n_thorough=900, rule='the model changes between calculations')
def rings(case, ctx):
    c = dict(case)
    bv = ref.unit(c['bv'])
    lp, q, H, p, R = hmodel(c, ctx, bvec=bv)
    ctx.nt(any(s != '2d' for s in c['steps']))
    if len(q.hkls) == 0 or not np.all(np.isfinite(np.asarray(q.getTTh(q.wavelength), float))) or len(q.getTTh(q.wavelength)) != len(q.hkls):
        raise Skip
    e0, e1, de = math.radians(c['eta0']), math.radians(c['eta0'] + c['span']), math.radians(c['de'])
    kind = 'texture_factor'
    for step in [None] + c['steps']:
        if step == 'lattice' and not 195 <= c['sg']:
            l6 = list(lp)
            l6[2] *= c['factor']
            lp = cell_for(c['sg'], l6)
            q.lparms = np.array([lp[0] / 10, lp[1] / 10, lp[2] / 10] + list(lp[3:]))
            q._calcrmt()
        elif step == 'ell':
            H.ell_max = c['l2']
            p = coeffs(H, c)
        elif step == 'ssym':
            H.ssym = c['s2']
            p = coeffs(H, c)
        elif step == 'tilt':
            R = ref.e2r([0.2, -0.4, 0.3]) @ R
            H.sample_rmat = R
        elif step == 'coef':
            p = coeffs(H, dict(c, seed=c['seed'] + 7))
        elif step == '2d':
            kind = 'spectrum_2d'
        elif step == 'range':
            e1 = e0 + (e1 - e0) * 0.7
        n = int((e1 - e0) / de) - 1
        if n < 1:
            raise Skip
        eta = e0 + de * np.arange(1, n + 1)
        mask = {}
        tf = None
        if kind == 'texture_factor':
            if c['mask']:
                r = S.rng(c['seed'])
                mask = {tuple(h): r.random(n) < 0.4 for h in q.hkls[::2]}
                for m in mask.values():
                    m[0] = False
            tf = H.calc_texture_factor(p, eta_min=e0, eta_max=e1, eta_step=de, eta_mask=mask if c['mask'] else None)
            got = H.intensities_rings
        else:
            H.calc_pf_rings(p, eta_min=e0, eta_max=e1, eta_step=de, calc_type='spectrum_2d')
            got = H.intensities_rings_2d
        ctx.equal(sorted(got), sorted(tuple(h) for h in q.hkls), 'a ring for each reflection')
        d = 1 / np.linalg.norm(q.hkls @ cryst(lp)[1].T, axis=1)
        tth = 2 * np.arcsin(10 * q.wavelength / 2 / d)
        fresh = tx.HarmonicModel(material=q, ssym=H.ssym, ell_max=H.ell_max, sample_rmat=R)
        for i in sorted({0, len(q.hkls) // 2, len(q.hkls) - 1}):
            h = q.hkls[i]
            want = evalpf(fresh, p, h[None].astype(float), ring_dirs(tth[i], eta, bv))[0]
            ctx.close(got[tuple(h)], want, atol=1e-8, rtol=0, msg='intensity along the ring is the pole figure there')
            if tf is not None:
                keep = ~mask[tuple(h)] if tuple(h) in mask else np.ones(n, bool)
                ctx.close(tf[i], want[keep].mean(), atol=1e-8, rtol=0, msg='texture factor is the mean over the visible part of the ring')


@sub('C32', 'texture_fit', st.fixed_dictionaries(dict(hm_st, nh=st.integers(1, 3), nan=st.booleans(), fix=st.booleans(), extra=st.booleans(), ints=st.booleans())), n=30, n_thorough=300, rule='two or more coefficients')
def texture_fit(case, ctx):
    c = dict(case, lmax=4)
    if c['ssym'] in ('triclinic', 'monoclinic') and c['sg'] < 16:
        c['ssym'] = 'axial'
    lp, q, H, p, R = hmodel(c, ctx, scale=0.12)
    hk = [tuple(float(x) for x in h) for h in q.hkls[:c['nh']]]
    if not hk:
        raise Skip
    v = rvecs(c['seed'] + 1, 60) * S.rng(c['seed']).uniform(0.5, 2, (60, 1))
    P = evalpf(H, p, np.array(hk), v)
    if P.min() < 0.1:
        raise Skip
    ctx.nt(len(p) > 1); ctx.label(len(p))
    if c['nan']:
        P[:, ::7] = np.nan
    data = {h: np.c_[v, P[i]] for i, h in enumerate(hk)}
    keep = {h: a.copy() for h, a in data.items()}
    H2 = tx.HarmonicModel(material=q, ssym=c['ssym'], ell_max=4, sample_rmat=R, pfdata=data)
    for h in hk:
        ctx.array_equal(data[h], keep[h], "caller's data")
    ctx.equal(H2.num_pfs, len(hk), 'number of pole figures')
    fit = H2.get_parameters()
    names = sorted(H2.parameter_names)
    if c['extra']:
        fit.add('scale', value=3.0)
    if c['fix']:
        for n in names[::2]:
            fit[n].value, fit[n].vary = p[n].value, False
    with contextlib.redirect_stdout(io.StringIO()):
        res = H2.calculate_harmonic_coefficients(fit)
    if not any(fit[n].vary for n in names):
        ctx.true(res is None, 'nothing to refine')
        return
    if c['extra']:
        ctx.equal(fit['scale'].value, 3.0, 'other parameters stay')
    for n in names:
        if not fit[n].vary:
            ctx.equal(fit[n].value, p[n].value, 'fixed coefficients stay')
    H2.recalculated_pf(fit)
    for i, h in enumerate(hk):
        ok = np.isfinite(P[i])
        ctx.close(H2.intensities_recalc[h][ok], P[i][ok], atol=2e-4, rtol=0, msg='refined model reproduces the pole figures')
    pre = os.path.join(ctx.scratch, 'pf')
    H2.write_data(pre)
    a = np.loadtxt(f'{pre}_{hk[0]}.txt')
    u = ref.unit(v)
    ctx.close(dirs(*np.radians(a[:, :2]).T), u, atol=1e-7, rtol=0, msg='written directions')
    ctx.close(a[:, 2], P[0], atol=1e-9, rtol=1e-9, nan=True, msg='written intensities')
    sr = H2.stereo_radius[hk[0]]
    ctx.close(sr, np.hypot(u[:, 0], u[:, 1]) / (1 + abs(u[:, 2])), atol=1e-7, rtol=0, msg='stereographic radius')


# ----------------------------------------------------------------- March-Dollase
@sub('C32', 'march_dollase', st.fixed_dictionaries(dict(sg=st.sampled_from(HSG), l6=l6_st, P=S.num(0.35, 2.5), hkl=st.lists(st.integers(-2, 3), min_size=3, max_size=3).filter(any),
                                                        steps=st.lists(st.sampled_from(['P', 'hkl', 'params', 'lattice']), max_size=4), seed=S.seeds, arr=st.booleans(), f=S.num(0.8, 1.3),
                                                        bad=st.sampled_from([None] * 5 + ['len', 'type', 'ptype']))), n=90, n_thorough=900, rule='strength other than one')
def march_dollase(case, ctx):
    lp, m = mat_for(case['sg'], case['l6'], ctx, 'm', dmin=1.6)
    q = phase.Material_Rietveld(fhdf=None, xtal=None, dmin=None, material_obj=m)
    if len(q.hkls) == 0:
        raise Skip
    hk = case['hkl']
    M = tx.MarchDollaseModel(material=q, HKL=np.array(hk, float) if case['arr'] else [float(x) for x in hk], P_MD=case['P'])
    if case['bad']:
        with_ = {'len': (ValueError, lambda: setattr(M, 'HKL', [1, 2])), 'type': (TypeError, lambda: setattr(M, 'HKL', 'abc')), 'ptype': (TypeError, lambda: setattr(M, 'P_MD', '1'))}[case['bad']]
        ctx.raises(with_[0], with_[1], 'bad argument'); return
    ctx.nt(abs(case['P'] - 1) > 0.05)
    P = case['P']
    r = S.rng(case['seed'])
    G = sorted({rr for rr, t in ops(case['sg'])})

    def f(h, P, HK):
        A, B = cryst(lp)
        n = ref.unit(B @ np.asarray(HK, float))
        s = np.array([ref.unit(B @ (np.asarray(h, float) @ np.array(rr, float))) for rr in G])
        c2 = (s @ n) ** 2
        return float(np.mean((P * P * c2 + (1 - c2) / P) ** -1.5))
    params = None
    for step in [None] + case['steps']:
        if step == 'P':
            P = float(r.uniform(0.4, 2.2)); M.P_MD = P
            if params is not None:
                params[f'{q.name}_p_md'].value = P
        elif step == 'hkl':
            hk = [int(x) for x in r.integers(-2, 3, 3)]
            hk = hk if any(hk) else [1, 0, 0]
            M.HKL = list(hk)
        elif step == 'params':
            params = M.get_parameters() if params is None else params
            P = float(r.uniform(0.4, 2.2))
            params[f'{q.name}_p_md'].value = P
        elif step == 'lattice':
            l6 = list(lp); l6[2] *= case['f']
            lp = cell_for(case['sg'], l6)
            q.lparms = np.array([lp[0] / 10, lp[1] / 10, lp[2] / 10] + list(lp[3:])); q._calcrmt()
            M.P_MD = P      # what a refinement does after the lattice changed
        tf = M.calc_texture_factor(params if params is not None else {})
        ctx.close(tf, [f(h, P, hk) for h in q.hkls], rtol=1e-7, atol=1e-9, msg='March-Dollase factor averaged over equivalent planes')
        ctx.close(M.P_MD, P, rtol=0, atol=0, msg='strength')
        ctx.equal(M.texture_index(params if params is not None else {}), P, 'texture index')
    if params is not None:
        M.calc_pf_rings(params, -1.0, 1.0, 0.1)
        for h, x in zip(q.hkls, tf):
            ctx.close(M.intensities_rings_2d[tuple(h)], np.full(len(M.intensities_rings_2d[tuple(h)]), x), atol=1e-9, rtol=0, msg='no variation along the ring')
    # a density: averages to one over all directions
    A, B = cryst(lp)
    t, ph, w = sphere_quad(40)
    v = dirs(t, ph) @ np.linalg.inv(B).T
    if case['sg'] <= 2 and case['P'] > 0.5:
        tot = sum(wi * M.get_texture_factor_reflection(x) for wi, x in zip(w, v))
        ctx.close(tot, 1.0, atol=0.01, rtol=0, msg='normalised')


@sub('C32', 'inverse_pole_figure_grid', st.fixed_dictionaries(dict(res=st.sampled_from([1, 2, 3, 4, 5, 6, 9, 10, 15, 5.0, 2.5, 7.5, 30]), d=st.sampled_from(['RD', 'td', 'ND', 'array']), v=st.lists(S.axis(), min_size=1, max_size=3),
                                                                   bad=st.booleans())), n=60, rule='directions given as an array, or a resolution that is not an integer')
def ipf_grid(case, ctx):
    a = np.array(case['v'])
    I = tx.InversePoleFigures(a if case['d'] == 'array' else case['d'], resolution=case['res'])
    ctx.nt(case['d'] == 'array' or isinstance(case['res'], float))
    ctx.close(np.asarray(I.sample_dir, float), {'RD': [[1.0, 0, 0]], 'TD': [[0, 1.0, 0]], 'ND': [[0, 0, 1.0]], 'ARRAY': a}[case['d'].upper()], atol=0, rtol=0, msg='sample directions')
    c = I.crystal_dir
    ctx.close(np.linalg.norm(c, axis=1), np.ones(len(c)), atol=1e-9, rtol=0, msg='unit vectors')
    r = case['res']
    ctx.equal(len(c), 1 + int(90 / r + 1e-9) * round(360 / r), 'number of directions')
    want = [[0, 0]] + [[t * r, e * r] for t in range(1, int(90 / r + 1e-9) + 1) for e in range(round(360 / r))]
    w = dirs(*np.radians(np.array(want, float)).T)
    ctx.close(c, w, atol=1e-9, rtol=0, msg='equiangular directions')
    ctx.close(dirs(*np.radians(I.angs).T), w, atol=1e-7, rtol=0, msg='angles')
    if case['bad']:
        ctx.raises(ValueError, lambda: tx.InversePoleFigures('XX'), 'unknown direction')
        ctx.raises(ValueError, lambda: tx.InversePoleFigures(np.ones((2, 2))), 'shape')
        ctx.raises(ValueError, lambda: tx.InversePoleFigures('RD', sampling='FEM'), 'sampling')


@warm('C32')
def _warm():
    import tempfile

    class C:
        pass
    for sg in (225, 2):
        with tempfile.TemporaryDirectory() as d:
            c = C(); c.scratch = d
            case = dict(sg=sg, l6=[3.6, 4.0, 5.0, 85.0, 95.0, 100.0], ssym='axial', lmax=4, seed=1, tilt=False, e=[0, 0, 0])
            lp, q, H, p, R = hmodel(case, c)
            H.calc_texture_factor(p)
            M = tx.MarchDollaseModel(material=q, P_MD=1.5)
