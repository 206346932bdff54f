"""C16 space groups, C17 unit cells (metric, hkl lists, structure factors, stiffness)."""
import functools
import math
from fractions import Fraction as Fr

import numpy as np
from hypothesis import strategies as st
from pbt import strat as S, hall
from pbt.core import sub, Skip, warm
from hexrd.core import constants
from hexrd.core.material import spacegroup as sgm, symmetry, symbols, unitcell as ucm
from hexrd.core.valunits import valWUnit

PI = math.pi
TWO_ORIGIN = sorted(symbols.two_origin_choice)
sg_st = st.one_of(st.integers(1, 230), st.sampled_from([1, 2, 5, 14, 15, 19, 43, 62, 70, 88, 96, 122, 141, 146, 148, 155, 160, 161, 166, 167, 178, 180,
                                                       186, 194, 198, 205, 206, 212, 214, 216, 220, 225, 227, 228, 229, 230]))


@functools.lru_cache(maxsize=None)
def ops(sg):
    return hall.ops(sgm.lookupHall[sg])


def ltype(sg):
    return [n for lim, n in ((2, 'triclinic'), (15, 'monoclinic'), (74, 'orthorhombic'), (142, 'tetragonal'), (167, 'trigonal'), (194, 'hexagonal'), (230, 'cubic'))
            if sg <= lim][0]


def hexrd_ops(sg, setting):
    out = []
    for m in symmetry.GenerateSGSym(sg, setting)[0]:
        R = tuple(tuple(int(v) for v in r) for r in np.rint(m[:3, :3]))
        t = m[:3, 3] * 24
        assert np.allclose(m[:3, :3], np.rint(m[:3, :3])) and np.allclose(m[3], [0, 0, 0, 1])
        out.append((R, tuple(int(v) % 24 for v in np.rint(t)), bool(np.allclose(t, np.rint(t), atol=1e-6))))
    return out


@sub('C16', 'group_operations', st.fixed_dictionaries(dict(sg=sg_st, setting=st.integers(0, 1))), n=600, parts=2,
     rule='all 230 space groups, both origin settings; non-trivial: nonsymmorphic or centred (an operation has a translation)')
def group_operations(case, ctx):
    sg, setting = case['sg'], case['setting']
    G = {(R, tuple(2 * x for x in t)) for R, t in ops(sg)}
    H = hexrd_ops(sg, setting)
    ctx.nt(any(any(t) for _, t in G)); ctx.label(ltype(sg))
    ctx.true(all(x[2] for x in H), 'translations are multiples of 1/24')
    Hs = {(R, t) for R, t, _ in H}
    ctx.equal(len(H), len(Hs), 'no operation listed twice')
    I3 = tuple(tuple(int(i == j) for j in range(3)) for i in range(3))
    M3 = tuple(tuple(-v for v in r) for r in I3)
    cen = any(R == M3 for R, _ in G)
    if setting == 0 or sg not in TWO_ORIGIN:
        ctx.equal(sorted(Hs), sorted(G), 'operations equal the ones of the Hall symbol')
    else:
        ctx.true((M3, (0, 0, 0)) in Hs, 'origin choice 2 has its inversion at the origin')
        ctx.equal(sorted(R for R, _ in Hs), sorted(R for R, _ in G), 'same rotations in both origin settings')
        # an origin shift relates the settings: t' = t + (1 - R) v, v fixed by the shift of the inversions
        shifts = [[(x - (t[i])) % 24 for i, x in enumerate(next(t2 for R2, t2 in Hs if R2 == M3))] for R, t in G if R == M3]
        okv = False
        for d in shifts:                 # 2 v = d mod 24
            for a in (0, 12):
                for b in (0, 12):
                    for c in (0, 12):
                        v = [(d[0] / 2 + a), (d[1] / 2 + b), (d[2] / 2 + c)]
                        im = {(R, tuple((t[i] + v[i] - sum(R[i][j] * v[j] for j in range(3))) % 24 for i in range(3))) for R, t in G}
                        if im == {(R, tuple(float(x) for x in t)) for R, t in Hs}:
                            okv = True
        ctx.true(okv, 'origin choice 2 is the same group with the origin shifted')
    _, pg, laue, flag, _ = symmetry.GenerateSGSym(sg, setting)
    pgs = {tuple(map(tuple, m.tolist())) for m in pg}
    ctx.equal(sorted(pgs), sorted({R for R, _ in G}), 'point group')
    ctx.equal(len(pg), len(pgs), 'point group without duplicates')
    ls = sorted(pgs | {tuple(tuple(-v for v in r) for r in m) for m in pgs})
    ctx.equal(sorted(tuple(map(tuple, m.tolist())) for m in laue), ls, 'Laue group')
    ctx.equal(bool(flag), cen, 'centrosymmetric flag')
    # descriptors
    g = sgm.SpaceGroup(sg)
    ctx.equal(symmetry.latticeType(sg), ltype(sg), 'lattice type (symmetry)')
    ctx.equal(g.latticeType, ltype(sg), 'lattice type (space group)')
    for name, size in ((g.pointGroup, len(pgs)), (g.laueGroup, len(ls))):
        ctx.equal(len(symmetry.GeneratePGSYM(name)), size, f'order of {name}')
    key = sgm.lookupHall[sg].replace(' ', '')
    if sum(h.replace(' ', '') == key for h in sgm.lookupHall.values()) == 1:      # 'P 32' and 'P 3 2' are one key without blanks
        ctx.equal(symbols.Hall_to_sgnum[sgm.lookupHall[sg].replace(' ', '')], sg, 'number found from the Hall symbol')
    ctx.equal(symbols.HM_to_sgnum[sgm.lookupHM[sg].split(':')[0].replace(' ', '')], sg, 'number found from the Hermann-Mauguin symbol')
    red = [5.1, 6.3, 7.7, 81.0, 95.5, 103.0]
    lp = g.sixLatticeParams([red[i] for i in g.reqParams])
    Gm = metric(lp)
    for R in pgs:
        ctx.close(np.array(R).T @ Gm @ np.array(R), Gm, atol=1e-9, msg='reduced lattice parameters respect the symmetry')


def metric(l6):
    a, b, c = l6[:3]
    ca, cb, cg = np.cos(np.radians(l6[3:]))
    return np.array([[a * a, a * b * cg, a * c * cb], [a * b * cg, b * b, b * c * ca], [a * c * cb, b * c * ca, c * c]], float)


@sub('C16', 'systematic_absences', st.fixed_dictionaries(dict(sg=sg_st, seed=S.seeds, hkls=st.lists(st.lists(st.integers(-9, 9), min_size=3, max_size=3), min_size=1, max_size=12),
                                                             bulk=st.booleans())), n=2500,
     rule='lists of Miller indices, general, zonal and axial, for all 230 space groups; non-trivial: some but not all indices are absent')
def systematic_absences(case, ctx):
    sg = case['sg']
    h = [tuple(x) for x in case['hkls']]
    if case['bulk']:
        r = S.rng(case['seed'])
        b = r.integers(-12, 13, (60, 3))
        b[:20, r.integers(0, 3)] = 0
        b[20:30, r.permutation(3)[:2]] = 0
        b[30:40, 0] = b[30:40, 1]
        b[40:45, 1] = -b[40:45, 0]
        b[45:50, 2] = b[45:50, 1]
        h += [tuple(int(v) for v in x) for x in b]
    want = [x for x in h if not hall.absent(ops(sg), x)]
    ctx.nt(0 < len(want) < len(h)); ctx.label(sgm.lookupHM[sg][0])
    got = sgm.Allowed_HKLs(sg, np.array(h, dtype=np.int32))
    ctx.equal([tuple(int(v) for v in x) for x in got], want, 'reflections not extinguished by symmetry')


@sub('C16', 'sums_of_squares', st.fixed_dictionaries(dict(ss=st.integers(0, 60))), n=60, rule='non-trivial: some index triple has this sum of squares')
def sums_of_squares(case, ctx):
    n = case['ss']
    N = math.isqrt(n)
    want = sorted((a, b, c) for a in range(-N, N + 1) for b in range(-N, N + 1) for c in range(-N, N + 1) if a * a + b * b + c * c == n)
    ctx.nt(bool(want))
    ctx.equal(sorted(set(sgm._getHKLsBySS(n))), want, 'indices with this sum of squares')


# ----------------------------------------------------------------- unit cells
def cell_for(sg, l6):
    lt = ltype(sg)
    a, b, c, al, be, ga = l6
    return {'triclinic': l6, 'monoclinic': [a, b, c, 90.0, be, 90.0], 'orthorhombic': [a, b, c, 90.0, 90.0, 90.0], 'tetragonal': [a, a, c, 90.0, 90.0, 90.0],
            'trigonal': [a, a, c, 90.0, 90.0, 120.0], 'hexagonal': [a, a, c, 90.0, 90.0, 120.0], 'cubic': [a, a, a, 90.0, 90.0, 90.0]}[lt]


def okc(l):
    ca, cb, cg = np.cos(np.radians(l[3:]))
    return 1 - ca * ca - cb * cb - cg * cg + 2 * ca * cb * cg > 0.08


l6_st = st.tuples(S.num(2.5, 9), S.num(2.5, 9), S.num(2.5, 9), S.num(62, 118), S.num(62, 125), S.num(62, 118)).map(list).filter(okc)
coord = st.one_of(st.sampled_from([0, 0, 8, 12, 24, 16, 32, 6, 36, 18, 30, 3, 4, 20, 40]).map(lambda k: [k, 48]), st.integers(0, 999).map(lambda k: [k, 1000]))
atom_st = st.fixed_dictionaries(dict(Z=st.sampled_from([1, 3, 6, 8, 11, 13, 14, 17, 22, 26, 28, 29, 38, 40, 47, 56, 58, 64, 74, 79, 82, 92, 94]), x=coord, y=coord, z=coord,
                                     link=st.sampled_from(['none', 'none', 'xx', 'x-x', 'x2x', 'xxx']), wrap=st.lists(st.integers(-1, 1), min_size=3, max_size=3),
                                     occ=st.sampled_from([1.0, 1.0, 0.5, 0.25, 0.9]), U=S.num(0.001, 0.05),
                                     A=st.lists(S.num(-0.1, 0.1), min_size=6, max_size=6)))


def frac_pos(a, wrap=True):
    x, y, z = (Fr(*a[k]) for k in 'xyz')
    if a['link'] == 'xx':
        y = x
    elif a['link'] == 'x-x':
        y = -x
    elif a['link'] == 'x2x':
        y = 2 * x
    elif a['link'] == 'xxx':
        y = z = x
    p = [v % 1 for v in (x, y, z)]
    return [v + w for v, w in zip(p, a['wrap'])] if wrap else p


def orbit(sg, p):
    return sorted({tuple((sum(R[i][j] * p[j] for j in range(3)) + Fr(t[i], 12)) % 1 for i in range(3)) for R, t in ops(sg)})


def min_sep(orb, G):
    o = np.array([[float(v) for v in p] for p in orb])
    if len(o) < 2:
        return 9.0
    d = o[:, None] - o[None]
    d -= np.round(d)
    q = np.einsum('abi,ij,abj->ab', d, G, d)
    return math.sqrt(q[~np.eye(len(o), dtype=bool)].min())


def V(lp):
    return [valWUnit('lp', 'length', x, 'angstrom') for x in lp[:3]] + [valWUnit('lp', 'angle', x, 'degrees') for x in lp[3:]]


def aniso(a):
    M = np.array(a['A']).reshape(2, 3)
    L = np.diag(0.05 + np.abs(M[0])) + np.array([[0, 0, 0], [M[1, 0], 0, 0], [M[1, 1], M[1, 2], 0]])
    C = L @ L.T
    return [C[0, 0], C[1, 1], C[2, 2], C[0, 1], C[0, 2], C[1, 2]]


def make(sg, lp, atoms, ani=False, dmin=1.0, kev=65.0, setting=0):
    pos = np.array([[float(v) for v in frac_pos(a)] + [a['occ']] for a in atoms])
    U = np.array([aniso(a) for a in atoms]) if ani else np.array([a['U'] for a in atoms])
    return ucm.unitcell(V(lp), sg, np.array([a['Z'] for a in atoms]), ['0'] * len(atoms), pos, U, dmin / 10, kev, setting)


NI = dict(Z=28, x=[0, 1], y=[0, 1], z=[0, 1], link='none', wrap=[0, 0, 0], occ=1.0, U=0.006, A=[0.0] * 6)
vec_st = st.lists(S.num(-3, 3), min_size=3, max_size=3).filter(lambda v: any(abs(x) > 0.05 for x in v))


@sub('C17', 'metric', st.fixed_dictionaries(dict(sg=sg_st, l6=l6_st, u=vec_st, v=vec_st, s=st.sampled_from('drc'), o=st.sampled_from('drc'), hkl=st.lists(st.integers(-5, 5), min_size=3, max_size=3).filter(any))),
     n=600, parts=3, rule='vectors in direct, reciprocal and Cartesian components of general cells; non-trivial: the cell is not orthogonal')
def metric_ops(case, ctx):
    sg = case['sg']
    lp = cell_for(sg, case['l6'])
    ctx.nt(ltype(sg) in ('triclinic', 'monoclinic', 'trigonal', 'hexagonal'))
    uc = make(sg, lp, [NI])
    nm = [x / 10 for x in lp[:3]] + list(lp[3:])
    G = metric(nm)
    Gs = np.linalg.inv(G)
    ctx.close(uc.dmt, G, atol=1e-12, msg='direct metric tensor'); ctx.close(uc.rmt, Gs, rtol=1e-9, atol=1e-9, msg='reciprocal metric tensor')
    ctx.close(uc.vol, math.sqrt(np.linalg.det(G)), rtol=1e-10, atol=0, msg='volume')
    ctx.close(uc.dsm.T @ uc.dsm, G, atol=1e-8, msg='direct structure matrix')
    ctx.close(uc.dsm.T @ uc.rsm, np.eye(3), atol=1e-6, msg='reciprocal structure matrix')
    toC = dict(d=uc.dsm, r=uc.rsm, c=np.eye(3))
    u, v, s, o = np.array(case['u']), np.array(case['v']), case['s'], case['o']
    c1, c2 = toC[s] @ u, toC[s] @ v
    sc = np.linalg.norm(c1) * np.linalg.norm(c2)
    if o != s:
        t = uc.TransSpace(u, s, o)
        ctx.close(toC[o] @ t, c1, atol=1e-6 * np.linalg.norm(c1), msg='same vector in another space')
    ctx.close(uc.CalcDot(u, v, s), c1 @ c2, atol=1e-6 * sc, msg='dot product')
    ctx.close(uc.CalcLength(u, s), np.linalg.norm(c1), rtol=1e-6, atol=0, msg='length')
    ctx.close(uc.CalcLength(uc.NormVec(u, s), s), 1.0, atol=1e-9, msg='normalised')
    cosang = c1 @ c2 / sc
    if abs(cosang) < 0.9999:
        ctx.close(uc.CalcAngle(u, v, s), math.acos(cosang), atol=1e-5, msg='angle')
    x = uc.CalcCross(u, v, s, o, vol_divide=True)
    ctx.close(toC[o] @ x, np.cross(c1, c2), atol=2e-6 * sc, msg='cross product')
    h = np.array(case['hkl'])
    sth = uc.wavelength / 2 * math.sqrt(h @ Gs @ h)
    if sth < 0.999:
        ctx.close(uc.CalcBraggAngle(h), math.asin(sth), rtol=1e-6, atol=0, msg='Bragg angle')
    ctx.close(uc.wavelength, 12.398419843320026 / 65 / 10, rtol=1e-6, atol=0, msg='wavelength in nm')
    # Laue group acts by isometries in every space
    for name, M in (('SYM_PG_d', G), ('SYM_PG_r', Gs), ('SYM_PG_d_laue', G), ('SYM_PG_r_laue', Gs)):
        A = getattr(uc, name).astype(float)
        ctx.close(np.einsum('nji,jk,nkl->nil', A, M, A), np.broadcast_to(M, A.shape), rtol=1e-8, atol=1e-8, msg=f'{name} preserves the metric')
    A = np.array(uc.SYM_PG_c_laue)
    ctx.close(np.einsum('nij,nkj->nik', A, A), np.broadcast_to(np.eye(3), A.shape), atol=1e-6, msg='Cartesian symmetry operations are orthogonal')
    ctx.equal(len(A), len(uc.SYM_PG_d_laue), 'number of Cartesian operations')
    # stars
    Rr = {tuple(sum(int(hh) * R[i][j] for i, hh in enumerate(h)) for j in range(3)) for R, _ in ops(sg)}
    got = [tuple(int(v) for v in x) for x in uc.CalcStar(h, 'r')]
    ctx.equal(sorted(got), sorted(Rr), 'star of a reflection'); ctx.equal(got[0], tuple(int(v) for v in h), 'star starts with the reflection itself')
    got = [tuple(int(v) for v in x) for x in uc.CalcStar(h, 'r', applyLaue=True)]
    ctx.equal(sorted(got), sorted(Rr | {tuple(-v for v in x) for x in Rr}), 'star under the Laue group')
    Rd = {tuple(sum(R[i][j] * int(h[j]) for j in range(3)) for i in range(3)) for R, _ in ops(sg)}
    ctx.equal(sorted(tuple(int(v) for v in x) for x in uc.CalcStar(h, 'd')), sorted(Rd), 'star of a direction')


@sub('C17', 'hkl_list', st.fixed_dictionaries(dict(sg=sg_st, l6=l6_st, stretch=st.sampled_from([1.0, 1.0, 1.6, 2.2]), dmin=S.num(0.9, 2.2), shuffle=S.seeds)), n=330, parts=6,
     rule='cells of every symmetry incl. strongly oblique ones; non-trivial: oblique cell or centred/nonsymmorphic group, and more than 5 families')
def hkl_list(case, ctx):
    sg = case['sg']
    l6 = list(case['l6'])
    l6[0] *= case['stretch']
    lp = cell_for(sg, l6)
    dmin = max(case['dmin'], (np.linalg.det(metric(lp)) ** 0.5 / 120) ** (1 / 3))
    uc = make(sg, lp, [NI], dmin=dmin)
    Gs = np.linalg.inv(metric(lp))
    n = [int(x / dmin) + 1 for x in lp[:3]]
    g = np.stack(np.meshgrid(*[np.arange(-k, k + 1) for k in n], indexing='ij'), -1).reshape(-1, 3)
    d2 = np.einsum('ni,ij,nj->n', g, Gs, g)
    if np.any(np.abs(d2 * dmin ** 2 - 1) < 1e-6):
        raise Skip
    allowed = {tuple(x) for x in g[(d2 > 0) & (d2 * dmin ** 2 < 1)].tolist()}
    rot = {R for R, _ in ops(sg)}
    fam, seen = {}, set()
    for h in sorted(allowed):
        if h in seen:
            continue
        o = {tuple(sum(h[i] * R[i][j] for i in range(3)) for j in range(3)) for R in rot}
        o |= {tuple(-v for v in x) for x in o}
        seen |= o
        if not hall.absent(ops(sg), h):
            fam[min(o)] = o
    if not fam:
        raise Skip
    got = [tuple(int(v) for v in x) for x in uc.getHKLs(dmin / 10)]
    ctx.nt(len(fam) > 5 and (ltype(sg) in ('triclinic', 'monoclinic') or any(any(t) for _, t in ops(sg)))); ctx.label(ltype(sg))
    index = {h: k for k, o in fam.items() for h in o}
    extra = [h for h in got if h not in index]
    ctx.equal(extra, [], 'every listed hkl is allowed and above the d-spacing limit')
    ks = [index[h] for h in got]
    ctx.equal(len(ks), len(set(ks)), 'one representative per family')
    missing = sorted(set(fam) - set(ks))
    # known finding: the search box is |h| <= first ih with 1/(ih a*) <= dmin, too small for oblique cells
    box = [max(1, math.ceil(1 / (math.sqrt(x) * dmin) - 1e-9)) for x in np.diag(Gs)]
    out = [k for k in missing if not any(abs(h[0]) <= box[0] and abs(h[1]) <= box[1] and 0 <= h[2] <= box[2] for h in fam[k])]
    if out:
        ctx.known.append('families outside that box are missing for oblique cells')
    ctx.equal(sorted(set(missing) - set(out)), [], 'no family above the d-spacing limit is missing')
    glen = [math.sqrt(np.array(h) @ Gs @ np.array(h)) for h in got]
    ctx.true(all(b > a - 1e-6 for a, b in zip(glen, glen[1:])), 'sorted by decreasing d-spacing')
    for h in got:
        ctx.equal(sum(h), max(sum(x) for x in fam[index[h]]), 'representative has the most positive indices')
    if got:
        r = S.rng(case['shuffle'])
        lst = np.array([x for h in got[:25] for x in sorted(fam[index[h]])[:3]], dtype=np.int32)
        sel = uc.ChooseSymmetric(lst[r.permutation(len(lst))])
        ctx.equal(sorted(index[tuple(int(v) for v in h)] for h in sel), sorted(ks[:25]), 'one representative chosen from every family of a list in any order')


@sub('C17', 'orbits_and_structure_factors',
     st.fixed_dictionaries(dict(sg=sg_st, l6=l6_st, atoms=st.lists(atom_st, min_size=1, max_size=3), ani=st.booleans(), kev=S.num(6, 120),
                                hkls=st.lists(st.lists(st.integers(-6, 6), min_size=3, max_size=3), min_size=1, max_size=8))), n=720, parts=6,
     rule='atoms on special and general positions, inside and outside the unit cell, isotropic and anisotropic displacement; non-trivial: a special '
          'position or an atom outside the cell')
def orbits_sf(case, ctx):
    sg = case['sg']
    lp = cell_for(sg, case['l6'])
    G = metric(lp)
    at = case['atoms']
    orbs = [orbit(sg, frac_pos(a)) for a in at]
    if any(min_sep(o, G) < 0.03 for o in orbs):
        raise Skip
    N = len(ops(sg))
    ctx.nt(any(len(o) < N for o in orbs) or any(any(a['wrap']) for a in at)); ctx.label('aniso' if case['ani'] else 'iso')
    uc = make(sg, lp, at, case['ani'], kev=case['kev'])
    for a, o, n, p in zip(at, orbs, uc.numat, uc.asym_pos):
        ctx.equal(int(n), len(o), 'site multiplicity')
        ctx.equal(len(p), len(o), 'number of positions')
        ctx.true(np.all((p >= -1e-9) & (p < 1 + 1e-9)), 'positions inside the unit cell')
        w = np.array([[float(v) for v in q] for q in o])
        d = p[:, None] - w[None]
        d -= np.round(d)
        near = np.abs(d).max(axis=2) < 1e-5
        ctx.true(np.all(near.sum(axis=0) == 1) and np.all(near.sum(axis=1) == 1), 'positions are the orbit of the site', got=p.tolist(), want=w.tolist())
    mult = np.array([len(o) for o in orbs])
    occ = np.array([a['occ'] for a in at])
    Z = np.array([a['Z'] for a in at])
    mass = np.sum(mult * occ * constants.atom_weights[Z - 1])
    vol = math.sqrt(np.linalg.det(G))
    ctx.close(uc.density, mass / (vol * 0.602214076), rtol=1e-5, atol=0, msg='density')
    ctx.close(uc.vol_per_atom, vol / mult.sum(), rtol=1e-9, atol=0, msg='volume per atom')
    ctx.equal(int(uc.num_atom), int(mult.sum()), 'atoms per cell')
    # structure factors
    H = np.array([h for h in case['hkls']], float)
    Gs = np.linalg.inv(G)
    F, F2 = np.zeros(len(H), complex), np.zeros(len(H), complex)
    big = 0.0
    rec = np.sqrt(np.diag(Gs))
    for i, (a, o) in enumerate(zip(at, orbs)):
        s2 = np.einsum('ni,ij,nj->n', H, Gs, H) / 4
        f, ff = formfactor(uc, i, a['Z'], 12.398419843320026 / case['kev'] / 10, s2)
        if case['ani']:
            u = aniso(a)
            M = np.array([[u[0], u[3], u[4]], [u[3], u[1], u[5]], [u[4], u[5], u[2]]])
            T = np.exp(-2 * PI ** 2 * np.einsum('ni,ij,nj->n', H * rec, M, H * rec))
        else:
            T = np.exp(-8 * PI ** 2 * a['U'] * s2)
        ph = np.exp(-2j * PI * H @ np.array([[float(v) for v in q] for q in o]).T).sum(axis=1)
        F += f * T * a['occ'] * ph
        F2 += ff * T * a['occ'] * ph
        big += np.max(np.abs(f)) * len(o)
    got = uc.CalcXRSF(H)
    if not np.allclose(got, np.abs(F) ** 2, rtol=2e-4, atol=2e-5 * big ** 2):
        # known finding: the anomalous tables are searched in the wrong order, which always yields their last row
        ctx.known.append('anomalous form factor tables are in decreasing wavelength')
        ctx.close(got, np.abs(F2) ** 2, rtol=2e-4, atol=2e-5 * big ** 2, msg='structure factor magnitudes squared')
    for h, sf in zip(case['hkls'], uc.CalcXRSF(H)):
        if hall.absent(ops(sg), tuple(h)):
            ctx.label('absent'); ctx.true(sf < 1e-5 * big ** 2, 'absent reflections have no intensity', sf=sf, hkl=h)


def formfactor(uc, i, Z, wl, s2):
    el = constants.ptableinverse[Z]
    c = constants.scatfac[el]
    f0 = c[5] + sum(c[j] * np.exp(-c[j + 6] * s2) for j in range(5))
    if Z > 92:
        return f0 + 0j, f0 + 0j
    import h5py, importlib.resources
    if el not in TAB:
        with h5py.File(str(importlib.resources.files('hexrd.core.resources') / 'Anomalous.h5'), 'r') as f:
            d = f[el]['data'][()]
        TAB[el] = d[np.argsort(d[:, 7], kind='stable')][:, [7, 1, 2]]
    d = TAB[el]
    base = f0 + constants.fNT[el] + constants.frel[el] - Z
    return base + np.interp(wl, d[:, 0], d[:, 1]) + 1j * np.interp(wl, d[:, 0], d[:, 2]), base + d[0, 1] + 1j * d[0, 2]


TAB = {}


@sub('C17', 'edit_history', st.fixed_dictionaries(dict(sg=sg_st, l6=l6_st, atoms=st.lists(atom_st, min_size=1, max_size=2), ani=st.booleans(),
     edits=st.lists(st.one_of(st.tuples(st.sampled_from(['a', 'b', 'c']), S.num(2.5, 9)), st.tuples(st.sampled_from(['alpha', 'beta', 'gamma']), S.num(75, 110)),
                              st.tuples(st.just('sg'), sg_st), st.tuples(st.just('kev'), S.num(6, 120)), st.tuples(st.just('dmin'), S.num(0.9, 3)),
                              st.tuples(st.just('lparms'), l6_st), st.tuples(st.just('occ'), st.sampled_from([1.0, 0.5, 0.3]))), min_size=1, max_size=4))), n=210, parts=6,
     rule='histories of edits to one unit cell compared with a cell built afresh; non-trivial: at least two edits take effect')
def edit_history(case, ctx):
    sg, at = case['sg'], [dict(a) for a in case['atoms']]
    lp = cell_for(sg, case['l6'])
    kev, dmin = 65.0, 1.2
    uc = make(sg, lp, at, case['ani'], dmin=dmin, kev=kev)
    free = dict(triclinic='a b c alpha beta gamma', monoclinic='a b c beta', orthorhombic='a b c', tetragonal='a c', trigonal='a c', hexagonal='a c', cubic='a')
    n = 0
    for k, v in case['edits']:
        names = ['a', 'b', 'c', 'alpha', 'beta', 'gamma']
        if k in names:
            ctx.equal(bool(uc.is_editable(k)), k in free[ltype(sg)].split(), f'{k} editable')
            if k not in free[ltype(sg)].split():
                ctx.raises(RuntimeError, lambda: setattr(uc, k, v), 'fixed lattice parameter')
                continue
            new = list(lp); new[names.index(k)] = v
            new = cell_for(sg, new)
            if not okc(new):
                continue
            setattr(uc, k, v / 10 if k in 'abc' else v)
            lp = new
        elif k == 'sg':
            if ltype(v) != ltype(sg):
                continue
            uc.sgnum = v
            sg = v
        elif k == 'kev':
            uc.voltage = v * 1000
            kev = v
        elif k == 'dmin':
            uc.dmin = v / 10
            dmin = v
        elif k == 'lparms':
            lp = cell_for(sg, v)
            uc.lparms = V(lp)
        elif k == 'occ':
            at[0]['occ'] = v
            p = uc.atom_pos.copy(); p[0, 3] = v
            uc.atom_pos = p
        n += 1
        ctx.label(k)
    ctx.nt(n >= 2)
    ref = make(sg, lp, at, case['ani'], dmin=dmin, kev=kev)
    ctx.close(uc.lparms, ref.lparms, rtol=1e-9, atol=0, msg='lattice parameters')
    ctx.close([uc.lparms[i] for i in ucm._rqpDict[ltype(sg)][0]], uc.lparms_reduced, atol=0, msg='reduced lattice parameters')
    for name in ('dmt', 'rmt', 'dsm', 'rsm', 'vol', 'density', 'wavelength', 'vol_per_atom', 'absorption_length', 'numat', 'SYM_SG', 'SYM_PG_r', 'SYM_PG_c_laue'):
        x, y = getattr(uc, name), getattr(ref, name)
        ctx.equal(np.shape(x), np.shape(y), name)
        ctx.close(x, y, rtol=1e-7, atol=1e-7, msg=f'{name} after the edits equals a fresh cell')
    try:
        want = ref.getHKLs(dmin / 10)
    except IndexError:          # no reflection at all
        return
    ctx.array_equal(uc.getHKLs(dmin / 10), want, 'hkl list after the edits')
    H = np.array([[1, 1, 1], [2, 0, 0], [1, -2, 3], [0, 4, 2]], float)
    ctx.close(uc.CalcXRSF(H), ref.CalcXRSF(H), rtol=1e-5, atol=1e-6, msg='structure factors after the edits')


VO = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]


@sub('C17', 'stiffness', st.fixed_dictionaries(dict(sg=sg_st, seed=S.seeds)), n=250, parts=2,
     rule='independent elastic constants for every Laue class; non-trivial: fewer than 21 constants')
def stiffness(case, ctx):
    sg = case['sg']
    uc = make(sg, cell_for(sg, [4.0, 5.0, 6.0, 80.0, 100.0, 95.0]), [NI])
    laue = uc._laueGroup
    n = dict(ci=21, c2h=13, d2h=9, c4h=7, d4h=6, s6=7, d3d=6, c6h=5, d6h=5, th=3, oh=3)[laue]
    vals = np.round(S.rng(case['seed']).uniform(10, 300, n), 3)
    ctx.nt(n < 21); ctx.label(laue)
    ctx.raises(IOError, lambda: uc.MakeStiffnessMatrix(np.r_[vals, 1.0]), 'wrong number of constants')
    uc.MakeStiffnessMatrix(vals)
    C = np.array(uc.stiffness)
    ctx.close(C, C.T, atol=1e-9, msg='symmetric')
    ctx.true(all(np.min(np.abs(np.abs(C) - v)) < 1e-6 for v in vals), 'given constants (GPa) appear in the stiffness matrix', C=C.tolist(), given=vals.tolist())
    ctx.close(uc.Required_C({k: C[k] for k in np.ndindex(6, 6)}), vals, rtol=1e-9, atol=0, msg='independent constants read back')
    if abs(np.linalg.det(C / 100)) > 1e-3:
        ctx.close(np.array(uc.compliance) @ C, np.eye(6) * 1e3, atol=1e-5, msg='compliance (1/TPa) inverts stiffness (GPa)')
        uc.compliance = uc.compliance
        ctx.close(uc.stiffness, C, rtol=1e-6, atol=1e-6, msg='stiffness set through its compliance')
    T = np.zeros((3, 3, 3, 3))
    for i, (a, b) in enumerate(VO):
        for j, (c, d) in enumerate(VO):
            for p, q in ((a, b), (b, a)):
                for r, s in ((c, d), (d, c)):
                    T[p, q, r, s] = C[i, j]
    if laue == 'd3d' and sg in (149, 151, 153, 157, 159, 162, 163):
        return          # two-fold axes not along x in these settings
    for Rd in {R for R, _ in ops(sg)}:
        R = uc.dsm @ np.array(Rd) @ np.linalg.inv(uc.dsm)
        if laue == 'c2h':       # the elastic constants use the convention with the unique axis along z
            R = np.diag([-1.0, -1.0, 1.0])
        ctx.close(np.einsum('ai,bj,ck,dl,ijkl->abcd', R, R, R, R, T, optimize=True), T, atol=2e-4, msg='stiffness invariant under the Laue group')


@warm('C17')
def _warm_sf():
    uc = make(225, [4.0] * 3 + [90.0] * 3, [NI])
    uc.CalcXRSF(np.eye(3))
    uc = make(2, [4.0] * 3 + [90.0] * 3, [NI], ani=True)
    uc.CalcXRSF(np.eye(3))


@warm('C17')
def _warm_star():
    uc = make(225, [4.0] * 3 + [90.0] * 3, [NI])
    uc.CalcStar([1, 1, 0], 'r')
    uc.getHKLs(0.15)
