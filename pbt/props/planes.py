"""C14 lattice geometry, C15 plane-data bookkeeping (model over a history of edits)."""
import math
import numpy as np
from hypothesis import strategies as st
from pbt import strat as S, ref
from pbt.core import sub, Skip
from hexrd.core.material import crystallography as xt
from hexrd.core.valunits import valWUnit

PI = math.pi
LTYPE = dict(ci='triclinic', c2h='monoclinic', d2h='orthorhombic', c4h='tetragonal', d4h='tetragonal', c3i='trigonal', d3d='trigonal',
             c6h='hexagonal', d6h='hexagonal', th='cubic', oh='cubic')
NAMES = dict(ci='Ci', c2h='C2h', d2h='D2h', c4h='C4h', d4h='D4h', c3i='C3i', d3d='D3d', c6h='C6h', d6h='D6h', th='Th', oh='Oh')


def full(ltype, lp):
    """-> a, b, c, alpha, beta, gamma (deg) from the reduced list."""
    if ltype == 'cubic':
        return [lp[0]] * 3 + [90.0] * 3
    if ltype in ('hexagonal', 'trigonal'):
        return [lp[0], lp[0], lp[1], 90.0, 90.0, 120.0]
    if ltype == 'rhombohedral':
        return [lp[0]] * 3 + [lp[1]] * 3
    if ltype == 'tetragonal':
        return [lp[0], lp[0], lp[1], 90.0, 90.0, 90.0]
    if ltype == 'orthorhombic':
        return list(lp[:3]) + [90.0] * 3
    if ltype == 'monoclinic':
        return list(lp[:3]) + [90.0, lp[3], 90.0]
    return list(lp)


def metric(l6):
    a, b, c = l6[:3]
    ca, cb, cg = np.cos(np.radians(l6[3:]))
    return np.array([[a * a, a * b * cg, a * c * cb], [a * b * cg, b * b, b * c * ca], [a * c * cb, b * c * ca, c * c]])


def frame(l6):
    """F with a || x1, c* || x3, from a Cholesky factor of the metric tensor."""
    return np.linalg.cholesky(metric(l6)).T          # upper triangular, columns a, b, c


cell = st.builds(lambda a, b, c, t: [a, b, c] + t, S.num(2, 12), S.num(2, 12), S.num(2, 12),
                 st.one_of(st.lists(S.num(60, 118), min_size=3, max_size=3), st.just([90.0, 90.0, 90.0]), st.sampled_from([[90.0, 100.5, 90.0], [90.0, 90.0, 120.0]])))


def ok_cell(l6):
    ca, cb, cg = np.cos(np.radians(l6[3:]))
    return 1 - ca * ca - cb * cb - cg * cg + 2 * ca * cb * cg > 0.05


def reduce(ltype, l6):
    if ltype == 'cubic':
        return [l6[0]]
    if ltype in ('hexagonal', 'trigonal', 'tetragonal'):
        return [l6[0], l6[2]]
    if ltype == 'rhombohedral':
        return [l6[0], min(l6[3], 112.0)]
    if ltype == 'orthorhombic':
        return l6[:3]
    if ltype == 'monoclinic':
        return l6[:3] + [l6[4]]
    return l6


hkl_st = st.lists(st.integers(-6, 6), min_size=3, max_size=3).filter(any)


@sub('C14', 'lattice_vectors',
     st.fixed_dictionaries(dict(l6=cell.filter(ok_cell), lt=st.sampled_from(['cubic', 'hexagonal', 'trigonal', 'rhombohedral', 'tetragonal', 'orthorhombic', 'monoclinic', 'triclinic']),
                                rad=st.booleans(), hkls=st.lists(hkl_st, min_size=1, max_size=6), wl=S.num(0.05, 3), strain=st.one_of(st.none(), S.num(0, 0.05)))), n=2500,
     rule='all eight lattice types, general parameters in degrees or radians, Miller indices beyond the diffraction limit too; non-trivial: not cubic')
def lattice_vectors(case, ctx):
    lt = case['lt']
    lp = reduce(lt, case['l6'])
    l6 = full(lt, lp)
    ctx.nt(lt != 'cubic'); ctx.label(lt)
    lpin = np.array(lp, float)
    if case['rad']:
        k = {'rhombohedral': 1, 'monoclinic': 3, 'triclinic': 3}.get(lt, len(lp))
        lpin[k:] = np.radians(lpin[k:])
    L = xt.latticeVectors(lpin, lt, radians=case['rad'])
    F = frame(l6)
    s = max(l6[:3])
    ctx.close(L['F'], F, atol=1e-11 * s, msg='direct lattice, a || x1, c* || x3')
    B = np.linalg.inv(F).T
    ctx.close(L['B'], B, atol=1e-10, msg='reciprocal lattice')
    ctx.close(L['vol'], abs(np.linalg.det(F)), rtol=1e-11, atol=0, msg='cell volume')
    ctx.close(L['dparms'], np.r_[l6[:3], np.radians(l6[3:])], atol=1e-12 * s + 1e-12, msg='direct parameters')
    Gs = np.linalg.inv(metric(l6))
    rn = np.sqrt(np.diag(Gs))
    ra = [np.arccos(np.clip(Gs[i, j] / rn[i] / rn[j], -1, 1)) for i, j in ((1, 2), (2, 0), (0, 1))]
    ctx.close(L['rparms'], np.r_[rn, ra], atol=1e-7, msg='reciprocal parameters')
    ctx.close(L['BR'].T @ L['BR'], Gs, atol=1e-9, msg='Fable reciprocal basis has the reciprocal metric')
    ctx.close([L['BR'][1, 0], L['BR'][2, 0], L['BR'][2, 1]], [0, 0, 0], atol=1e-9, msg='Fable frame: a* || x1')
    ctx.close(L['U0'] @ L['U0'].T, np.eye(3), atol=1e-9, msg='U0 orthogonal')
    ctx.close(L['U0'] @ L['BR'], L['B'], atol=1e-9, msg='U0 takes the Fable frame to the crystal frame')
    ctx.close(np.array(xt.latticeParameters(L['F'])), np.r_[l6[:3], np.radians(l6[3:])], atol=1e-7, msg='parameters recovered from lattice vectors')
    ctx.close(xt.getDparms(lpin, lt, radians=case['rad']), L['dparms'], atol=0, msg='getDparms')
    # lattice planes (degrees only)
    H = np.array(case['hkls'], float).T
    e, wl = case['strain'], case['wl']
    P = xt.latticePlanes(H, np.array(lp, float), ltype=lt, wavelength=wl, strainMag=e)
    g = B @ H
    d = 1 / np.linalg.norm(g, axis=0)
    ctx.close(P['dspacings'], d, rtol=1e-9, atol=0, msg='d-spacings')
    ctx.close(P['normals'], g * d, atol=1e-9, msg='plane normals')

    def bragg(dd):
        x = wl / 2 / dd
        return np.where(x < 1, 2 * np.arcsin(np.minimum(x, 1)), np.nan), np.abs(x - 1) > 1e-9
    t, sure = bragg(d)
    ctx.close(np.asarray(P['tThetas'])[sure], t[sure], atol=1e-6, msg='two-theta (NaN beyond the limiting sphere)', nan=True)
    if e is not None:
        (lo, s1), (hi, s2) = bragg(d * (1 + e)), bragg(d * (1 - e))
        both = np.isfinite(lo) & np.isfinite(hi)
        k = s1 & s2
        ctx.close(P['tThetasLo'][k], np.where(both, lo, np.nan)[k], atol=1e-6, nan=True, msg='lower two-theta')
        ctx.close(P['tThetasHi'][k], np.where(both, hi, np.nan)[k], atol=1e-6, nan=True, msg='upper two-theta')


@sub('C14', 'rhombohedral_hexagonal',
     st.fixed_dictionaries(dict(a=S.num(2, 9), c=S.num(3, 25), hkls=st.lists(hkl_st, min_size=1, max_size=6))), n=800,
     rule='rhombohedral cells described in both settings; non-trivial: always')
def rhombohedral_hexagonal(case, ctx):
    a, c = case['a'], case['c']
    ctx.nt(True)
    ar, al = xt.rhombohedralParametersFromHexagonal(a, c)
    h = np.array(case['hkls']).T
    H = xt.hexagonalIndicesFromRhombohedral(h)
    ctx.array_equal(np.asarray(xt.rhombohedralIndicesFromHexagonal(H), float), h.astype(float), 'hkl round trip through hexagonal indices')
    dr = xt.latticePlanes(h.astype(float), np.array([ar, np.degrees(al)]), ltype='rhombohedral')['dspacings']
    dh = xt.latticePlanes(H.astype(float), np.array([a, c]), ltype='hexagonal')['dspacings']
    ctx.close(dr, dh, rtol=1e-6, atol=0, msg='same plane spacing in both settings')


# ------------------------------------------------------------------ plane data history
def ops_st():
    f = st.floats(0, 1)
    return st.lists(st.one_of(
        st.tuples(st.just('mask'), S.seeds), st.tuples(st.just('index'), st.lists(st.integers(0, 40), min_size=1, max_size=4)),
        st.tuples(st.just('ranges'), st.lists(st.tuples(st.integers(0, 20), st.integers(0, 6)), min_size=1, max_size=3)),
        st.tuples(st.just('none')), st.tuples(st.just('tthmax'), st.one_of(st.none(), S.num(0.02, 2.0))),
        st.tuples(st.just('strain'), S.num(0.0001, 0.02)), st.tuples(st.just('width'), st.one_of(st.none(), S.num(0.0005, 0.05))),
        st.tuples(st.just('wl'), S.num(0.1, 1.5)), st.tuples(st.just('lparms'), cell.filter(ok_cell)),
        st.tuples(st.just('excl'), st.lists(st.sampled_from(['dmin', 'dmax', 'tthmin', 'tthmax', 'sfacmin', 'sfacmax', 'pintmin', 'pintmax']), max_size=3, unique=True), f, f, f),
        st.tuples(st.just('sf'), S.seeds), st.tuples(st.just('copy'))), min_size=1, max_size=6)


class Model:
    def __init__(self, hkls, l6r, tag, wl, strain):
        self.h, self.tag, self.wl, self.strain, self.width, self.tmax = hkls, tag, wl, strain, None, None
        self.excl = np.zeros(len(hkls), bool)
        self.sf = None
        self.set_lp(l6r)

    def set_lp(self, lp):
        self.lp = lp
        self.l6 = full(LTYPE[self.tag], lp)
        self.B = np.linalg.inv(frame(self.l6)).T
        self.d = 1 / np.linalg.norm(self.B @ self.h.T, axis=0)

    def tth(self, d=None):
        x = self.wl / 2 / (self.d if d is None else d)
        return np.where(x < 1, 2 * np.arcsin(np.minimum(x, 1)), np.nan)

    def orbit(self, i):
        F = np.linalg.inv(self.B).T
        g = self.B @ self.h[i]
        o = {tuple(int(v) for v in np.round(F.T @ (R @ g))) for R in ref.laue_group(self.tag)}
        return o | {tuple(-v for v in t) for t in o}


def unique_families(hkls, tag, l6r):
    """drop symmetric duplicates so each family appears once"""
    m = Model(np.array(hkls), l6r, tag, 0.5, None)
    seen, out = set(), []
    for i, h in enumerate(hkls):
        if tuple(h) in seen:
            continue
        seen |= m.orbit(i)
        out.append(list(h))
    return out


@sub('C15', 'plane_data_history',
     st.fixed_dictionaries(dict(tag=st.sampled_from(sorted(LTYPE)), l6=cell.filter(ok_cell), hkls=st.lists(hkl_st, min_size=2, max_size=14, unique_by=tuple),
                                wl=S.num(0.1, 1.2), strain=S.num(0.0001, 0.02), sort=st.sampled_from([True, True, True, False]), ops=ops_st())), n=2000, parts=6,
     rule='histories of exclusion edits (mask, indices, ranges, limits), lattice, wavelength, strain and width changes on plane data in any hkl order; non-trivial: '
          'two or more edits and the sorted order differs from the stored one')
def plane_data_history(case, ctx):
    tag = case['tag']
    lt = LTYPE[tag]
    lp = reduce(lt, case['l6'])
    hk = unique_families(case['hkls'], tag, lp)
    if len(hk) < 2:
        raise Skip
    H = np.array(hk)
    m = Model(H, lp, tag, case['wl'], case['strain'])
    near = lambda: np.any(np.abs(m.wl / 2 / m.d - 1) < 1e-6)
    if near():
        raise Skip
    A = lambda w: valWUnit('w', 'length', w, 'angstrom')
    pd = xt.PlaneData(H.T.copy(), lp, NAMES[tag], A(m.wl), m.strain, doTThSort=case['sort'])
    check(pd, m, ctx, case['sort'])
    for op in case['ops']:
        k = op[0]
        order = order_of(pd, m)
        if k == 'mask':
            v = S.rng(op[1]).random(len(hk)) < 0.5
            pd.exclusions = v
            m.excl[:] = False; m.excl[order[v]] = True
        elif k == 'index':
            ix = sorted({i for i in op[1] if i < len(hk)})
            if not ix or len(ix) == len(hk):
                continue
            pd.exclusions = np.array(ix)
            m.excl[:] = False; m.excl[order[ix]] = True
        elif k == 'ranges':
            rg = [(a, a + w) for a, w in op[1]]
            if len(rg) == len(hk):
                continue
            pd.exclusions = np.array(rg)
            m.excl[:] = False
            for a, b in rg:
                m.excl[order[a:b]] = True
        elif k == 'none':
            pd.exclusions = None
            m.excl[:] = False
        elif k == 'tthmax':
            if op[1] is not None and np.any(np.abs(m.tth() - op[1]) < 1e-6):
                continue
            pd.tThMax = op[1]
            m.tmax = op[1]
        elif k == 'strain':
            pd.strainMag = op[1]
            m.strain, m.width = op[1], None
        elif k == 'width':
            pd.tThWidth = op[1]
            m.width = op[1]
        elif k == 'wl':
            old = m.wl
            if abs(op[1] / old - 1) < 1e-3:
                continue
            m.wl = op[1]
            if near():
                m.wl = old
                continue
            pd.wavelength = A(op[1]) if int(op[1] * 1000) % 2 else 12.39841984 / op[1]     # length, or a number taken as keV
            m.sf = None
        elif k == 'lparms':
            old = m.lp
            m.set_lp(reduce(lt, op[1]))
            if near():
                m.set_lp(old)
                continue
            pd.lparms = list(m.lp)
            m.sf = None
        elif k == 'sf':
            if np.isnan(m.tth()).all():
                continue
            r = S.rng(op[1])
            m.sf = r.random(len(hk)) * 100 + 1e-3
            pd.structFact = m.sf[order].copy()
        elif k == 'copy':
            pd = xt.PlaneData(None, pd)
            m.sf = None
        elif k == 'excl':
            if any(x.startswith(('sf', 'pi')) for x in op[1]) and m.sf is None:
                continue
            kw, new = {}, np.zeros(len(hk), bool)
            vals = dict(d=m.d, tth=m.tth())
            if m.sf is not None:
                pw = m.sf * lorentz(m) * np.array([len(m.orbit(i)) for i in range(len(hk))])
                vals.update(sfac=m.sf / m.sf.max(), pint=pw / np.nanmax(pw))
            if not op[1]:
                pass
            bad = False
            for x, f in zip(op[1], op[2:]):
                v = vals[x[:-3]]
                if np.isnan(v).any() and x[:-3] == 'pint':
                    bad = True
                    break
                lo, hi = np.nanmin(v) if np.isfinite(v).any() else 0.1, np.nanmax(v) if np.isfinite(v).any() else 1
                thr = lo + f * (hi - lo)
                if np.any(np.abs(v - thr) < 1e-7 * max(1, abs(thr))):
                    thr = thr * (1 + 1e-5) + 1e-5
                if np.any(np.abs(v - thr) < 1e-7 * max(1, abs(thr))):
                    bad = True
                    break
                kw[x] = float(thr)
                new |= (v < thr) if x.endswith('min') else (v > thr)
            if bad:
                continue
            pd.exclude(**kw)
            m.excl, m.tmax = new, None
        ctx.label(k)
        check(pd, m, ctx, case['sort'])
    ctx.nt(len(case['ops']) >= 2 and case['sort'] and not np.array_equal(order_of(pd, m), np.arange(len(hk))))


def lorentz(m):
    t = m.tth()
    return (1 + np.cos(t) ** 2) / 2 / (np.cos(t / 2) * np.sin(t / 2) ** 2)


def order_of(pd, m):
    pos = {tuple(h): i for i, h in enumerate(m.h.tolist())}
    return np.array([pos[tuple(int(v) for v in h)] for h in pd.getHKLs(allHKLs=True)])


def check(pd, m, ctx, srt):
    n = len(m.h)
    order = order_of(pd, m)
    ctx.equal(sorted(order.tolist()), list(range(n)), 'all hkls listed once')
    t = m.tth()
    to = t[order]
    if srt:
        f = to[np.isfinite(to)]
        ctx.true(np.all(np.diff(f) > -1e-9) and not np.isnan(to[:len(f)]).any(), 'hkls sorted by two-theta', tth=to.tolist())
    else:
        ctx.array_equal(order, np.arange(n), 'hkls in the order given')
    ex = m.excl.copy()
    if m.tmax is not None:
        ex |= ~(t <= m.tmax)
    inc = order[~ex[order]]
    ctx.array_equal(np.asarray(pd.exclusions), ex[order], 'exclusion mask in current order')
    ctx.array_equal(np.asarray(pd.hkls).T.reshape(-1, 3), m.h[inc].reshape(-1, 3), 'included hkls')
    ctx.close(pd.getTTh(), t[inc], atol=1e-7, nan=True, msg='two-theta of the included hkls')
    ctx.close(pd.getTTh(allHKLs=True), to, atol=1e-7, nan=True, msg='two-theta of all hkls')
    ctx.close(np.array(pd.getPlaneSpacings()), m.d[inc], rtol=1e-7, atol=0, msg='plane spacings')
    ctx.equal(pd.getNhklRef(), n, 'number of hkls')
    orb = [m.orbit(i) for i in inc]
    ctx.array_equal(pd.getMultiplicity(), np.array([len(o) for o in orb]), 'multiplicities')
    sym = pd.getSymHKLs()
    ctx.equal(len(sym), len(inc), 'one symmetric family per hkl')
    for o, sh in zip(orb, sym):
        got = [tuple(int(v) for v in c) for c in np.asarray(sh).T]
        ctx.equal(sorted(got), sorted(o), 'symmetrically equivalent hkls')
    if len(inc):
        idx = [len(inc) - 1] + ([0] if len(inc) > 1 else [])
        part = pd.getSymHKLs(indices=sorted(idx))
        ctx.equal(len(part), len(set(idx)), 'symmetric hkls of chosen indices')
        ctx.array_equal(part[-1], sym[-1], 'symmetric hkls of the last index')
        wid = pd.getSymHKLs(withID=True)
        for j, i in enumerate(inc):
            ctx.array_equal(np.unique(wid[j][0]), [float(i)], 'hkl id carried with the symmetric hkls')
        eq = [sorted(o)[len(o) // 2] for o in orb]
        ctx.equal(list(pd.getHKLID([tuple(int(v) for v in e) for e in eq])), list(range(len(inc))), 'index of a symmetric equivalent')
        ctx.equal([int(v) for v in pd.getHKLID(np.array(eq).T, master=True)], [int(v) for v in inc], 'master id of a symmetric equivalent')
        ids = inc[::-1]
        ctx.array_equal(pd.getHKLs(*[int(i) for i in ids]), m.h[ids], 'hkls looked up by id')
    for i in np.flatnonzero(ex)[:2]:
        ctx.raises(RuntimeError, lambda: pd.getHKLs(int(i)), 'looking up an excluded hkl')
        ctx.array_equal(pd.getHKLs(int(i), allHKLs=True), m.h[[i]], 'excluded hkl by id with allHKLs')
    # two-theta ranges
    if len(inc):
        if m.width is not None:
            want = np.c_[t[inc] - m.width / 2, t[inc] + m.width / 2]
        elif m.strain is not None:
            lo, hi = m.tth(m.d * (1 + m.strain))[inc], m.tth(m.d * (1 - m.strain))[inc]
            bad = np.isnan(lo) | np.isnan(hi)
            want = np.c_[np.where(bad, np.nan, lo), np.where(bad, np.nan, hi)]
            if np.any(np.abs(m.wl / 2 / m.d / (1 - m.strain) - 1) < 1e-6) or np.any(np.abs(m.wl / 2 / m.d / (1 + m.strain) - 1) < 1e-6):
                want = None
        else:
            want = None
        if want is not None:
            rg = pd.getTThRanges()
            ctx.close(rg, want, atol=1e-6, nan=True, msg='two-theta ranges')
            if srt and np.isfinite(want).all() and np.all(np.abs(want[1:, 0] - want[:-1, 1]) > 1e-9):
                lists, mr = pd.getMergedRanges()
                grp, cur = [], [0]
                for i in range(1, len(inc)):
                    if want[i - 1, 1] < want[i, 0]:
                        grp.append(cur); cur = []
                    cur.append(i)
                grp.append(cur)
                ctx.equal([list(map(int, l)) for l in lists], grp, 'merged index lists')
                ctx.close(np.array(mr), np.array([[want[g[0], 0], want[g[-1], 1]] for g in grp]), atol=1e-6, msg='merged ranges')
            x = 0.5 * (want[0, 0] + want[-1, 1])
            if np.isfinite(x) and np.isfinite(want).all() and np.min(np.abs(want - x)) > 1e-6:
                got = np.asarray(pd.getHKLs(thisTTh=x)).reshape(-1, 3)
                ctx.array_equal(got, m.h[inc[(want[:, 0] < x) & (x < want[:, 1])]], 'hkls overlapping a two-theta')
        e = 0.003
        lo, hi = m.tth(m.d * (1 + e))[inc], m.tth(m.d * (1 - e))[inc]
        if np.isfinite(hi).all():
            ctx.close(pd.getTThRanges(strainMag=e), np.c_[lo, hi], atol=1e-6, msg='ranges for a given strain')
    if m.sf is not None:
        pol = lorentz(m)
        mult = np.array([len(m.orbit(i)) for i in range(n)])
        ctx.close(pd.structFact, m.sf[inc], rtol=1e-12, atol=0, msg='structure factors of the included hkls')
        h, p = m.sf * pol, m.sf * pol * mult
        ctx.close(pd.hedm_intensity, (100 * h / np.nanmax(h))[inc], rtol=1e-6, atol=1e-9, nan=True, msg='HEDM intensities')
        ctx.close(pd.powder_intensity, (100 * p / np.nanmax(p))[inc], rtol=1e-6, atol=1e-9, nan=True, msg='powder intensities')
