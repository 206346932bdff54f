"""C28 Whole powder pattern fitting: profiles, strain broadening, simulated spectra, Le Bail partition, refinement, spectra."""
import math
import os

import numpy as np
from hypothesis import strategies as st
from pbt import strat as S
from pbt.core import sub, Skip, warm
from pbt.props.material import load, safe
from pbt.props.xtal import (TAB, V, aniso, atom_st, cell_for, formfactor, frac_pos, l6_st, ltype, metric, min_sep, okc, ops, orbit, sg_st)
from hexrd.core.valunits import _nm
from hexrd.powder.wppf import peakfunctions as pf, wppfsupport as ws, xtal as px
from hexrd.powder.wppf.amorphous import Amorphous
from hexrd.powder.wppf.spectrum import Spectrum
from hexrd.powder.wppf.WPPF import LeBail, Rietveld, join_regions, separate_regions

PI = math.pi
SHAPES = ('pvfcj', 'pvtch', 'pvpink', 'pvheating', 'pvexponential')
SIG = ['s400', 's040', 's004', 's220', 's202', 's022', 's310', 's103', 's031', 's130', 's301', 's013', 's211', 's121', 's112']
POW = [tuple(int(c) for c in s[1:]) for s in SIG]
ZERO = np.zeros(15)


# ----------------------------------------------------------------- reference profiles
def gam2(shkl, h):
    """Stephens (1999): sum of S_HKL h^H k^K l^L with the usual multiplicities."""
    m = {4: 1.0, 2: 3.0, 3: 2.0}
    out = 0.0
    for s, p in zip(shkl, POW):
        f = 4.0 if sorted(p) == [1, 1, 2] else m[max(p)]
        out += f * s * h[0] ** p[0] * h[1] ** p[1] * h[2] ** p[2]
    return out


def widths(uvw, P, xy, xsf, g2, eta, tth, d):
    """Gaussian and Lorentzian widths (degrees); U, V, W in centidegrees squared, X, Y in centidegrees."""
    t, c = math.tan(math.radians(tth / 2)), math.cos(math.radians(tth / 2))
    u = uvw[0] + math.degrees(g2 * (1 - eta) ** 2 * d ** 4) * 1e4
    s2 = u * t * t + uvw[1] * t + uvw[2] + P / c ** 2
    y = xy[1] + math.degrees(math.sqrt(max(g2, 0.0)) * eta * d ** 2) * 100
    return math.sqrt(max(s2, 1e-12)) / 100, ((xy[0] + xsf) / c + y * t) / 100


def tch(fg, fl):
    """Thompson, Cox and Hastings (1987)."""
    f = (fg ** 5 + 2.69269 * fg ** 4 * fl + 2.42843 * fg ** 3 * fl ** 2 + 4.47163 * fg ** 2 * fl ** 3 + 0.07842 * fg * fl ** 4 + fl ** 5) ** 0.2
    q = fl / f
    return min(max(1.36603 * q - 0.47719 * q * q + 0.11116 * q ** 3, 0.0), 1.0), f


def pv(fg, fl, t, x):
    n, f = tch(fg, fl)
    return n * (f / 2 / PI) / ((x - t) ** 2 + f * f / 4) + (1 - n) * math.sqrt(4 * math.log(2) / PI) / f * np.exp(-4 * math.log(2) * ((x - t) / f) ** 2)


def smear(cdf, kern, x):
    """Convolution of a density (given by its distribution function) with a kernel that is constant in cells: edges and probabilities."""
    e, w = kern
    C = cdf(x[:, None] - e[None])
    return (C[:, :-1] - C[:, 1:]) @ (w / np.diff(e))


def kernel(kind, a):
    """Cells of the normalised kernels (a: parameters)."""
    z = np.linspace(0, 16, 801)
    if kind == 'pink':
        al, be = a
        p = -np.diff(np.exp(-z))
        p /= p.sum()
        return np.r_[-z[::-1] / al, z[1:] / be], np.r_[p[::-1] * be, p * al] / (al + be)
    if kind == 'exponential':
        p = -np.diff(np.exp(-z))
        return z * a[0], p / p.sum()
    from scipy.special import erf
    z = z[:401]
    p = np.diff(erf(z / math.sqrt(2)))
    return z * a[0], p / p.sum()


prof_st = dict(U=S.num(0, 60), V=S.num(-3, 3), W=S.num(4, 40), P=S.num(0, 5), X=S.num(0.3, 12), Y=S.num(0, 10), xsf=S.num(0, 3), eta=S.num(0, 1),
               tth=S.num(4, 95), d=S.num(0.05, 0.3))


def base_args(c, h=(1, 1, 1), shkl=ZERO):
    return (np.array([c['U'], c['V'], c['W']], float), float(c['P']), np.array([c['X'], c['Y']], float), float(c['xsf']), np.asarray(shkl, float), float(c['eta']),
            float(c['tth']), float(c['d']), np.array(h, float))


@sub('C28', 'monochromatic_profile', st.fixed_dictionaries(dict(prof_st, h=st.lists(st.integers(-4, 4), min_size=3, max_size=3), s=st.lists(S.num(0, 1), min_size=15, max_size=15), aniso=st.booleans())),
     n=500, n_thorough=5000, rule='strain anisotropy, or Gaussian and Lorentzian parts both above a quarter of the width')
def monochromatic(case, ctx):
    shkl = np.array(case['s']) * 1e-6 if case['aniso'] else ZERO
    h = case['h'] if case['aniso'] else [1, 1, 1]
    g2 = gam2(shkl, h)
    if g2 < 0:
        raise Skip
    A = base_args(case, h, shkl)
    ctx.close(pf._anisotropic_peak_broadening(A[4], A[8]), g2, rtol=1e-9, atol=1e-18, msg='strain broadening')
    fg, fl = widths(A[0], A[1], A[2], A[3], g2, A[5], A[6], A[7])
    ctx.close(pf._gaussian_fwhm(A[0], A[1], g2, A[5], A[6], A[7]), fg, rtol=1e-9, atol=0, msg='Gaussian width')
    ctx.close(pf._lorentzian_fwhm(A[2], A[3], g2, A[5], A[6], A[7]), fl, rtol=1e-9, atol=0, msg='Lorentzian width')
    n, f = tch(fg, fl)
    ctx.nt(case['aniso'] and g2 > 0 or min(fg, fl) > 0.25 * f)
    x = A[6] + f * np.linspace(-60, 60, 6001)
    y = pf.pvoight_wppf(*A, x)
    ctx.close(y, pv(fg, fl, A[6], x), rtol=1e-6, atol=1e-9 / f, msg='pseudo-Voigt profile')
    from scipy.special import voigt_profile
    v = voigt_profile(x - A[6], fg / 2 / math.sqrt(2 * math.log(2)), fl / 2)
    ctx.true(np.max(np.abs(y - v)) < 0.02 * v.max(), 'profile approximates the Voigt function', got=float(np.max(np.abs(y - v)) / v.max()))
    ctx.true(abs(np.trapezoid(y, x) - 1) < 0.02, 'unit area')
    ctx.true(abs(x[np.argmax(y)] - A[6]) < 0.03 * f, 'profile peaks at the Bragg angle')


@sub('C28', 'beam_profiles', st.fixed_dictionaries(dict(prof_st, kind=st.sampled_from(['pink', 'heating', 'exponential']), a=S.num(1, 12), b=S.num(1, 12), a1=S.num(-0.3, 0.3), b1=S.num(-0.3, 0.3),
                                                        t0=S.num(0.03, 0.8), t1=S.num(-0.02, 0.2), t2=S.num(-0.01, 0.1))),
     n=220, n_thorough=2000, rule='the kernel broadens the profile by a third or more')
def beam_profiles(case, ctx):
    c = dict(case, tth=min(case['tth'], 70), W=max(case['W'], 16))
    A = base_args(c)
    tq = math.tan(math.radians(A[6] / 2))
    fg, fl = widths(A[0], A[1], A[2], A[3], 0.0, A[5], A[6], A[7])
    n, f = tch(fg, fl)
    kind = case['kind']
    if kind == 'pink':
        p = (np.array([case['a'], case['a1']]), np.array([case['b'], case['b1']]))
        a = (p[0][0] + p[0][1] * tq, p[1][0] + p[1][1] * tq)
        ext = 1 / min(a)
        fn = pf.pvoight_pink_beam
        hw = fl / 2
    elif kind == 'heating':
        p = (np.array([case['t0'], case['t1']]),)
        a = (p[0][0] + p[0][1] * tq,)
        ext = a[0]
        fn = pf.pvoight_heating
        hw = fl
    else:
        p = (np.array([case['t0'], case['t1'], case['t2']]),)
        a = (p[0][0] + p[0][1] * tq + p[0][2] * tq ** 2,)
        ext = a[0]
        fn = pf.pvoight_exponential
        hw = fl / 2
    if min(a) <= 0.02 or max(a) > 40:
        raise Skip
    ctx.nt(ext > f / 3); ctx.label(kind)
    L = min(12 * (f + ext), 15 * a[0]) if kind == 'heating' else 12 * (f + ext)
    x = A[6] + np.linspace(-L, L, 1201)
    K = kernel(kind, a)
    from scipy.special import ndtr
    g = smear(lambda t: ndtr(t / fg), K, x - A[6])
    l = smear(lambda t: np.arctan(t / hw) / PI + 0.5, K, x - A[6])
    want = n * l / np.trapezoid(l, x) + (1 - n) * g / np.trapezoid(g, x)
    got = fn(*p, *A, x)
    ctx.true(np.all(np.isfinite(got)), 'finite profile')
    ctx.close(got, want, rtol=0, atol=4e-3 * want.max(), msg=f'{kind} profile is the convolution with its kernel')


def fcj_shift(H, Sl, t):
    """Mean shift (degrees) of a peak by axial divergence: Finger, Cox and Jephcoat (1994)."""
    t = math.radians(t)
    c = math.cos(t)
    tm, ti = t - math.acos(c * math.sqrt((H + Sl) ** 2 + 1)), t - math.acos(c * math.sqrt((H - Sl) ** 2 + 1))
    u = (np.arange(4000) + 0.5) / 4000
    tau = tm * u * u
    h = np.sqrt((np.cos(t - tau) / c) ** 2 - 1)
    w = np.where(tau <= ti, 2 * min(H, Sl), H + Sl - h) / h / np.cos(t - tau) * 2 * u
    return math.degrees((w * tau).sum() / w.sum()), math.degrees(tm)


XN, WN = (lambda r: (r[0][8:], r[1][8:]))(np.polynomial.legendre.leggauss(16))


@sub('C28', 'axial_divergence', st.fixed_dictionaries(dict(prof_st, H=S.num(0.002, 0.04), S=S.num(0.002, 0.04))), n=200, n_thorough=2000,
     rule='axial divergence shifts the peak by a hundredth of its width or more')
def axial(case, ctx):
    c = dict(case, U=0.0, V=0.0, P=0.0, Y=0.0, xsf=0.0, X=0.3, tth=min(case['tth'], 80))
    H, Sl = case['H'], case['S']
    if math.cos(math.radians(c['tth'])) * math.sqrt((H + Sl) ** 2 + 1) > 0.9999:
        raise Skip
    A = base_args(c)
    m, tm = fcj_shift(H, Sl, A[6])
    fg, fl = widths(A[0], A[1], A[2], A[3], 0.0, A[5], A[6], A[7])
    _, f = tch(fg, fl)
    x = A[6] + np.linspace(-tm - 20 * f, 20 * f, 8001)
    ref = pv(fg, fl, A[6], x)
    got = pf.pvfcj(*A, x, H, Sl, XN, WN)
    ctx.nt(m > 0.01 * f)
    ctx.close(np.trapezoid(got, x), 1.0, rtol=1e-6, atol=0, msg='unit area')
    # mean position against the exact distribution
    ref2 = np.zeros_like(x)
    t = math.radians(A[6]); cc = math.cos(t)
    tmr, ti = math.radians(tm), t - math.acos(cc * math.sqrt((H - Sl) ** 2 + 1))
    u = (np.arange(150) + 0.5) / 150
    tau = tmr * u * u
    h = np.sqrt((np.cos(t - tau) / cc) ** 2 - 1)
    w = np.where(tau <= ti, 2 * min(H, Sl), H + Sl - h) / h / np.cos(t - tau) * 2 * u
    w /= w.sum()
    for wi, ta in zip(w, tau):
        xi = math.degrees(t - ta)
        ref2 += wi * pv(*widths(A[0], A[1], A[2], A[3], 0.0, A[5], xi, A[7]), xi, x)
    ref2 /= np.trapezoid(ref2, x)
    s_ref = np.sum(x * ref) / np.sum(ref) - np.sum(x * ref2) / np.sum(ref2)
    s_got = np.sum(x * ref) / np.sum(ref) - np.sum(x * got) / np.sum(got)
    # the library integrates with eight nodes, which overestimates the shift by up to 40 %
    ctx.true(0.9 * s_ref - 1e-5 <= s_got <= 1.6 * s_ref + 1e-4 * f + 1e-5, 'mean shift of the peak towards the beam', got=s_got, want=s_ref)
    ctx.close(pf.pvfcj(*A, x, Sl, H, XN, WN), got, rtol=1e-9, atol=1e-9, msg='sample and slit heights are interchangeable')


# ----------------------------------------------------------------- strain broadening of all space groups
class _M:
    def __init__(self, sg):
        self.sgnum, self.latticeType, self.name = sg, ltype(sg), 'm'


@sub('C28', 'strain_symmetry', st.fixed_dictionaries(dict(sg=sg_st, v=st.lists(S.num(0.1, 3), min_size=15, max_size=15), hkls=st.lists(st.lists(st.integers(-5, 5), min_size=3, max_size=3), min_size=1, max_size=6))),
     n=500, n_thorough=4000, rule='not triclinic, and reflections with several equivalents')
def strain_symmetry(case, ctx):
    sg = case['sg']
    names, eq, idx, _ = ws._required_shkl_names(_M(sg))
    ctx.equal(list(names), [SIG[i] for i in idx], 'names of the independent terms')
    free = dict(cubic=2, hexagonal=3, tetragonal=4, orthorhombic=6, monoclinic=9, triclinic=15)
    lt = ltype(sg)
    if lt in free:
        ctx.equal(len(names), free[lt], 'number of independent terms')
    else:
        ctx.true(len(names) in (3, 4), 'number of independent terms', got=len(names))
    full = ws._fill_shkl(dict(zip(names, case['v'])), eq)
    R = {tuple(int(v) for v in np.array(o[0]).ravel()) for o in ops(sg)}
    R = [np.array(r).reshape(3, 3) for r in R]
    ctx.nt(sg > 2); ctx.label(lt)
    # the Laue classes of low symmetry share the terms of the high ones
    for h in case['hkls']:
        h = np.array(h)
        g0 = pf._anisotropic_peak_broadening(full, h.astype(float))
        ctx.close(g0, gam2(full, [int(v) for v in h]), rtol=1e-9, atol=1e-9, msg='strain broadening')
        for r in R:
            q = h @ r
            ctx.close(pf._anisotropic_peak_broadening(full, q.astype(float)), g0, rtol=1e-9, atol=1e-6, msg=f'equivalent reflections {h.tolist()} {q.tolist()}')
        ctx.close(pf._anisotropic_peak_broadening(full, -h.astype(float)), g0, rtol=1e-12, atol=0, msg='Friedel mates')


# ----------------------------------------------------------------- Rietveld model
def fsq(s, uc, H, wl):
    """|F|^2 of one crystal, with energy dependent form factors and (second) with the last row of the tables."""
    G = metric(s['lp'])
    Gs = np.linalg.inv(G)
    rec = np.sqrt(np.diag(Gs))
    F, F2 = np.zeros(len(H), complex), np.zeros(len(H), complex)
    big = 0.0
    for i, a in enumerate(s['atoms']):
        o = np.array([[float(v) for v in q] for q in s['orb'][i]])
        s2 = np.einsum('ni,ij,nj->n', H, Gs, H) / 4
        f, ff = formfactor(uc, i, a['Z'], wl / 10, s2)
        if s['ani']:
            u = aniso(a)
            M = np.array([[u[0], u[3], u[4]], [u[3], u[1], u[5]], [u[4], u[5], u[2]]])
            T = np.exp(-2 * PI ** 2 * np.einsum('ni,ij,nj->n', H * rec, M, H * rec))
        else:
            T = np.exp(-8 * PI ** 2 * a['U'] * s2)
        ph = np.exp(-2j * PI * H @ o.T).sum(axis=1)
        F += f * T * a['occ'] * ph
        F2 += ff * T * a['occ'] * ph
        big += np.max(np.abs(f)) * len(o)
    return np.abs(F) ** 2, np.abs(F2) ** 2, big


def star(sg, h):
    R = {tuple(int(v) for v in np.array(o[0]).ravel()) for o in ops(sg)}
    out = set()
    for r in R:
        q = np.array(h) @ np.array(r).reshape(3, 3)
        out.add(tuple(int(v) for v in q)); out.add(tuple(-int(v) for v in q))
    return out


phase_st = st.fixed_dictionaries(dict(sg=sg_st, l6=st.tuples(S.num(3, 7), S.num(3, 7), S.num(3, 7), S.num(75, 110), S.num(75, 110), S.num(75, 110)).map(list).filter(okc),
                                      atoms=st.lists(atom_st, min_size=1, max_size=2), ani=st.booleans(), X=S.num(0.5, 6), Y=S.num(0, 8), P=S.num(0, 3), eta=S.num(0, 1), frac=S.num(0.1, 3),
                                      s=st.lists(S.num(0.2, 1), min_size=15, max_size=15), excl=st.sampled_from([0, 0, 0, 5, 2 ** 29 + 36]), sf=S.num(0, 0.05), tw=S.num(0, 0.05)))
model_st = dict(phases=st.lists(phase_st, min_size=1, max_size=2), wl=st.lists(S.num(0.18, 0.5), min_size=1, max_size=2), wi=S.num(0.2, 1), shape=st.sampled_from(SHAPES + ('pvtch',) * 5),
                lo=S.num(2, 8), span=S.num(8, 25), zero=S.num(-0.05, 0.05), shft=S.num(-0.05, 0.05), trns=S.num(-0.05, 0.05), scale=S.num(0.5, 5), Ph=S.num(0.3, 1.2),
                U=S.num(0, 60), V=S.num(-2, 2), W=S.num(10, 60), bkg=st.lists(S.num(-2, 2), min_size=3, max_size=3), am=st.booleans(), aniso=st.booleans())


def build(case, ctx, cls=Rietveld, expt=None):
    mats, sts = [], []
    wl = list(case['wl'])
    if len(wl) == 2 and abs(wl[1] - wl[0]) < 1e-3:
        wl = wl[:1]
    lo, hi = case['lo'], case['lo'] + case['span']
    for i, p in enumerate(case['phases']):
        s = dict(sg=p['sg'], setting=0, lp=cell_for(p['sg'], p['l6']), atoms=p['atoms'], ani=p['ani'], kev=12.398419843320026 / wl[0])
        s['dmin'] = max(min(wl) / 2 / math.sin(math.radians(hi / 2)) * 0.97, 0.9)
        s['orb'] = [orbit(s['sg'], frac_pos(a)) for a in s['atoms']]
        if not safe(s):
            raise Skip
        v = math.sqrt(np.linalg.det(metric(s['lp'])))
        # a few hundred reflections at most
        s['dmin'] = max(s['dmin'], (4 / 3 * PI * v / 250) ** (1 / 3))
        try:
            m = load(s, ctx.scratch)
        except IndexError:
            raise Skip
        m.name = f'p{i}'
        n = len(m.planeData.exclusions)
        m.planeData.exclusions = np.array([(p['excl'] >> (j % 30)) & 1 and j for j in range(n)], bool)
        if not n:
            raise Skip
        mats.append(m); sts.append(s)
    W = {f'k{j}': [_nm(w / 10), 1.0 if j == 0 else case['wi']] for j, w in enumerate(wl)}
    x = np.linspace(lo, hi, 300)
    data = np.c_[x, 10 + 5 * np.sin(x) ** 2] if expt is None else expt
    am = Amorphous(x, model_type='split_pv', scale={'c1': 30.0}, center={'c1': lo + 0.4 * (hi - lo)}, fwhm={'c1': np.array([1.0, 2.0, 3.0, 1.5])}) if case['am'] else None
    kw = dict(expt_spectrum=data, phases=mats, wavelength=W, bkgmethod={'chebyshev': 2}, peakshape=case['shape'], amorphous_model=am)
    return cls(**kw), mats, sts, wl, x, kw


def assign(case, R, sts, vary=None):
    """The parameter values of the case; returns them."""
    P = R.params
    val = dict(zero_error=case['zero'], shft=case['shft'], trns=case['trns'], U=case['U'], V=case['V'], W=case['W'], scale=case['scale'], Ph=case['Ph'],
               bkg_0=20 + case['bkg'][0], bkg_1=case['bkg'][1], bkg_2=case['bkg'][2])
    shp = dict(HL=0.004, SL=0.003, alpha0=9.0, alpha1=0.3, beta0=4.0, beta1=-0.5, sigma0=0.12, sigma1=0.05, tau0=0.3, tau1=-0.1, tau2=0.05)
    val.update(shp)
    for i, (p, s) in enumerate(zip(case['phases'], sts)):
        n = f'p{i}'
        val.update({n + '_X': p['X'], n + '_Y': p['Y'], n + '_P': p['P'], n + '_eta_fwhm': p['eta'], n + '_phase_fraction': p['frac'], n + '_sf_alpha': p['sf'], n + '_twin_beta': p['tw']})
        if case['aniso']:
            for k, v in zip(SIG, p['s']):
                # even terms dominate, so that the broadening is positive
                val[n + '_' + k] = v * (1e-6 if set(k[1:]) <= set('024') else 1e-8)
    for k, v in val.items():
        if k in P:
            P[k].set(min=-np.inf, max=np.inf, value=float(v))
            if vary:
                P[k].vary = True
    return val


def reference(case, R, mats, sts, wl, x, val, known, ctx):
    """Simulated spectrum from the definition."""
    y = 0.0
    fr = np.array([p['frac'] for p in case['phases']])
    fr = fr / fr.sum()
    lo, hi = x[0], x[-1]
    alt = 0.0
    for i, (p, s, m) in enumerate(zip(case['phases'], sts, mats)):
        n = f'p{i}'
        for j, w in enumerate(wl):
            k = f'k{j}'
            H = R.hkls[n][k]
            tth0 = R.tth[n][k]
            G = metric(s['lp'])
            Gs = np.linalg.inv(G)
            d = 1 / np.sqrt(np.einsum('ni,ij,nj->n', H, Gs, H))
            t = 2 * np.degrees(np.arcsin(w / 2 / d))
            ctx.close(tth0, t, atol=1e-6, rtol=0, msg='Bragg angles')
            # complete: every reflection of the crystal inside the window
            full = np.array(m.planeData.getHKLs())
            df = 1 / np.sqrt(np.einsum('ni,ij,nj->n', full, Gs, full))
            tf = 2 * np.degrees(np.arcsin(np.minimum(w / 2 / df, 1.0)))
            ins = (w / 2 / df <= 1) & (tf >= lo + 1e-6) & (tf <= hi - 1e-6)
            have = {tuple(int(v) for v in h) for h in H}
            ctx.true({tuple(int(v) for v in h) for h in full[ins]} <= have <= {tuple(int(v) for v in h) for h in full}, 'all enabled reflections of the range are present')
            ctx.true(np.all((t >= lo - 1e-6) & (t <= hi + 1e-6)), 'reflections lie in the measured range')
            if not len(H):
                continue
            f1, f2, big = fsq(s, m.unitcell, H.astype(float), w)
            mult = np.array([len(star(s['sg'], h)) for h in H])
            c2 = np.cos(np.radians(t)) ** 2
            LP = (1 + val['Ph'] * c2) / np.cos(np.radians(t / 2)) / np.sin(np.radians(t / 2)) ** 2
            pre = val['scale'] * fr[i] / (np.linalg.det(G) / 1e6) * (1.0 if j == 0 else case['wi']) * mult * LP
            pos = t + val['zero_error'] + np.cos(np.radians(t / 2)) * val['shft'] + np.sin(np.radians(t)) * val['trns']
            xs = np.zeros(len(H))
            if s['sg'] == 225:
                # Velterop et al. (2000)
                for q, h in enumerate(H):
                    L = [sum(g) for g in star(225, h)]
                    h2 = int(np.sum(h ** 2))
                    sg_ = sum(l * {0: 0, 1: 1, 2: -1}[l % 3] for l in L)
                    pos[q] += p['sf'] * math.tan(math.radians(t[q] / 2)) * 90 * math.sqrt(3) / PI ** 2 * sg_ / (h2 * len(L))
                    xs[q] = math.degrees(0.9 * (1.5 * p['sf'] + p['tw']) * (h2 * len(L) / sum(abs(l) for l in L)) * w / s['lp'][0])
            shkl = R.phases[n][k].shkl if isinstance(R, Rietveld) else R.phases[n].shkl
            if case['aniso']:
                names, eq, idx, _ = ws._required_shkl_names(_M(s['sg']))
                shkl = ws._fill_shkl({a: val[n + '_' + a] for a in names}, eq)
            for q in range(len(H)):
                A = (np.array([val['U'], val['V'], val['W']]), val[n + '_P'], np.array([p['X'], p['Y']]), xs[q], shkl, p['eta'], pos[q], d[q] / 10, H[q].astype(float))
                sh = case['shape']
                if sh == 'pvtch':
                    g2 = gam2(shkl, [int(v) for v in H[q]])
                    prof = pv(*widths(A[0], A[1], A[2], A[3], g2, A[5], A[6], A[7]), A[6], x)
                elif sh == 'pvfcj':
                    prof = pf.pvfcj(*A, x, val['HL'], val['SL'], R.xn, R.wn)
                elif sh == 'pvpink':
                    prof = pf.pvoight_pink_beam(np.array([val['alpha0'], val['alpha1']]), np.array([val['beta0'], val['beta1']]), *A, x)
                elif sh == 'pvheating':
                    prof = pf.pvoight_heating(np.array([val['sigma0'], val['sigma1']]), *A, x)
                else:
                    prof = pf.pvoight_exponential(np.array([val['tau0'], val['tau1'], val['tau2']]), *A, x)
                y = y + pre[q] * f1[q] * prof
                alt = alt + pre[q] * f2[q] * prof
    u = 2 * (x - lo) / (hi - lo) - 1
    b = val['bkg_0'] + val['bkg_1'] * u + val['bkg_2'] * (2 * u * u - 1)
    if case['am']:
        b = b + R.amorphous_model.amorphous_lineout
    return y + b, alt + b, b


def check_model(case, R, mats, sts, wl, x, val, ctx, msg):
    y, alt, b = reference(case, R, mats, sts, wl, x, val, None, ctx)
    got = R.spectrum_sim.y
    top = max(np.max(np.abs(y - b)), np.max(np.abs(alt - b)), 1.0)
    if not np.allclose(got, y, rtol=1e-5, atol=5e-4 * top):
        ctx.known.append('anomalous form factor tables are in decreasing wavelength')
        ctx.close(got, alt, rtol=1e-5, atol=5e-4 * top, msg=msg)
    return top > 50


@sub('C28', 'rietveld_model', st.fixed_dictionaries(dict(model_st, mask=st.booleans(), spec=st.booleans())), n=70, n_thorough=700, parts=8,
     rule='peaks stand above the background; anisotropic broadening, two phases or two wavelengths')
def rietveld_model(case, ctx):
    R, mats, sts, wl, x, kw = build(case, ctx)
    val = assign(case, R, sts, vary=True)
    ctx.label(case['shape'])
    R.calcRwp(R.params)
    for k in list(val):
        if k not in R.params and not k.startswith(('alpha', 'beta', 'sigma', 'tau', 'HL', 'SL')):
            val.pop(k)
    vals = dict(val)
    for i in range(len(sts)):
        for k in ('_X', '_Y', '_P'):
            vals.setdefault(f'p{i}{k}', 0.0)
    for i, s in enumerate(sts):
        names = ws._required_shkl_names(_M(s['sg']))[0]
        for a in names:
            vals.setdefault(f'p{i}_{a}', 0.0)
    big = check_model(case, R, mats, sts, wl, x, vals, ctx, 'simulated spectrum is the sum of its parts')
    ctx.nt(big and (case['aniso'] or len(sts) > 1 or len(wl) > 1))
    # residual, R factor, goodness of fit
    yo = kw['expt_spectrum'][:, 1]
    ys = R.spectrum_sim.y
    w = 1 / yo
    rw = math.sqrt(np.sum(w * (ys - yo) ** 2) / np.sum(w * yo ** 2))
    ctx.close(R.Rwp, rw, rtol=1e-8, atol=0, msg='weighted residual')
    ctx.close(R.gofF, np.sum(w * (ys - yo) ** 2) / (len(x) - R.num_vary), rtol=1e-8, atol=0, msg='goodness of fit')
    bg = R.background.y
    ctx.close(R.Rwpb, math.sqrt(np.sum(w * (ys - yo) ** 2) / np.sum(w * (yo - bg) ** 2)), rtol=1e-8, atol=0, msg='background corrected residual')
    # the same measurement as a Spectrum object
    if case['spec']:
        R2 = Rietveld(**dict(kw, expt_spectrum=Spectrum(x, yo.copy()), params=R.params, reset_background_params=False))
        R2.calcRwp(R2.params)
        ctx.close(R2.spectrum_sim.y, ys, rtol=1e-6, atol=1e-6 * np.max(np.abs(ys)), msg='measurement given as a Spectrum')
    if case['mask']:
        mk = np.zeros((len(x), 2), bool)
        mk[120:170, 1] = True
        R3 = Rietveld(**dict(kw, expt_spectrum=np.ma.masked_array(kw['expt_spectrum'].copy(), mask=mk), params=R.params, reset_background_params=False))
        R3.calcRwp(R3.params)
        y3 = R3.spectrum_sim.y
        ctx.true(np.all(np.isnan(y3[120:170])) and np.all(np.isfinite(np.delete(y3, range(120, 170)))), 'masked range has no intensity')
        keep = ~mk[:, 1]
        c3 = math.sqrt(np.sum((w * (y3 - yo) ** 2)[keep]) / np.sum((w * yo ** 2)[keep]))
        ctx.close(R3.Rwp, c3, rtol=1e-8, atol=0, msg='weighted residual of the unmasked points')


edit_st = st.lists(st.tuples(st.sampled_from(['lat', 'Ph', 'scale', 'frac', 'xyz', 'dw', 'occ', 'zero', 'U', 'X', 'bkg_1', 'none']), st.integers(0, 1), S.num(0, 1)), min_size=1, max_size=4)


@sub('C28', 'parameter_history', st.fixed_dictionaries(dict(model_st, edits=edit_st)), n=60, n_thorough=600, parts=8, rule='an edit of the lattice, the atoms or the polarization')
def parameter_history(case, ctx):
    case = dict(case, shape='pvtch', am=False)
    R, mats, sts, wl, x, kw = build(case, ctx)
    atoms0 = [(np.array(m.unitcell.atom_pos), np.array(m.unitcell.U), np.array(m.lparms)) for m in mats]
    val = assign(case, R, sts, vary=True)
    for p in R.params:
        R.params[p].vary = True
        R.params[p].set(min=-np.inf, max=np.inf)
    R.calcRwp(R.params)
    kinds = set()
    P = R.params
    for kind, i, v in case['edits']:
        i = min(i, len(sts) - 1)
        n = f'p{i}_'
        a = sts[i]['atoms']
        ctx.label(kind)
        if kind == 'lat':
            for q in 'abc':
                if n + q in P:
                    P[n + q].value *= 1 + 0.02 * (v - 0.5)
            kinds.add(kind)
        elif kind in ('Ph', 'scale', 'U', 'bkg_1'):
            P[kind].value = {'Ph': 0.2 + v, 'scale': 1 + v, 'U': 50 * v, 'bkg_1': v}[kind]
            kinds.add(kind)
        elif kind == 'zero':
            P['zero_error'].value = 0.05 * v
        elif kind == 'frac':
            P[n + 'phase_fraction'].value = 0.1 + v
        elif kind == 'X':
            P[n + 'X'].value = 1 + 3 * v
        elif kind in ('xyz', 'dw', 'occ'):
            keys = [k for k in P if k.startswith(n) and (k[-2:] in ('_x', '_y', '_z') if kind == 'xyz' else (k.endswith('_dw') or k[-4:-2] == '_U') if kind == 'dw' else k.endswith('_occ'))]
            for q, k in enumerate(keys[:1] if kind == 'xyz' else keys):
                # stay away from special positions
                P[k].value = {'xyz': 0.05 + 0.3 * v, 'occ': 0.3 + 0.7 * v, 'dw': P[k].value * (0.5 + v)}[kind]
            kinds.add(kind)
        R.calcRwp(P)
    ctx.nt(kinds & {'lat', 'xyz', 'dw', 'occ', 'Ph'})
    # the given materials are not changed by a refinement
    for m, (ap, U, lp) in zip(mats, atoms0):
        ctx.array_equal(m.unitcell.atom_pos, ap, 'atoms of the given material'); ctx.array_equal(m.unitcell.U, U, 'thermal factors of the given material')
        ctx.array_equal(np.array(m.lparms), lp, 'lattice of the given material')
    # a fresh model of the same parameters
    import copy
    R2, *_ = build(case, ctx)
    P2 = copy.deepcopy(P)
    R2.params = P2
    R2._set_params_vals_to_class(P2, init=False, skip_phases=False, force=True)
    R2._update_shkl(P2); R2._update_bkg(P2)
    R2.computespectrum()
    a, b = R.spectrum_sim.y, R2.spectrum_sim.y
    ctx.close(a, b, rtol=1e-9, atol=1e-7 * np.max(np.abs(b)), msg='spectrum depends on the parameters only')
    # and a crystal that has these values from the start
    s2 = []
    for i, s in enumerate(sts):
        ph = R.phases[f'p{i}']['k0']
        t = dict(s, lp=[float(v) * (10 if j < 3 else 1) for j, v in enumerate(ph.lparms)])
        s2.append((t, ph))
    for t, ph in s2:
        pts = {}
        G = metric(t['lp'])
        for q in range(len(t['atoms'])):
            got = ph.asym_pos[q] % 1.0
            r0 = ph.atom_pos[q, :3]
            want = np.array([(np.array(o[0], float) @ r0 + np.array([float(v) for v in o[1]]) / 12) % 1.0 for o in ops(t['sg'])])
            dd = want[:, None] - got[None]
            dd -= np.round(dd)
            ctx.true(np.all(np.abs(dd).max(axis=2).min(axis=1) < 1e-4), 'every equivalent position of a refined atom is occupied')
            ctx.true(np.all(np.abs(dd).max(axis=2).min(axis=0) < 1e-4), 'positions belong to the refined atom')


# ----------------------------------------------------------------- refinement
@sub('C28', 'recovery', st.fixed_dictionaries(dict(sg=st.sampled_from([225, 229, 227, 194, 136, 62, 221, 186, 167]), l6=st.tuples(S.num(3, 5), S.num(3, 5), S.num(3, 5), S.num(75, 110), S.num(75, 110), S.num(75, 110)).map(list),
                                                  Z=st.sampled_from([13, 26, 28, 47, 58]), wl=S.num(0.2, 0.4), W=S.num(15, 60), X=S.num(1, 6), dl=S.num(-0.002, 0.002), zero=S.num(-0.02, 0.02), bkg=S.num(20, 60),
                                                  lebail=st.sampled_from([True, True, False]), amp=st.lists(S.num(0.3, 3), min_size=40, max_size=40))), n=40, n_thorough=300, parts=8,
     rule='at least four reflections in the range')
def recovery(case, ctx):
    sg = case['sg']
    lp = cell_for(sg, case['l6'])
    at = dict(Z=case['Z'], x=[0, 1], y=[0, 1], z=[0, 1], link='none', wrap=[0, 0, 0], occ=1.0, U=0.005, A=[0] * 6)
    s = dict(sg=sg, setting=0, lp=lp, atoms=[at], ani=False, kev=12.398419843320026 / case['wl'])
    lo, hi = 4.0, 22.0
    s['dmin'] = max(case['wl'] / 2 / math.sin(math.radians(hi / 2)) * 0.97, 0.85)
    if not safe(s):
        raise Skip
    try:
        m = load(s, ctx.scratch)
    except IndexError:
        raise Skip
    m.name = 'p'
    m.planeData.exclusions = np.zeros(len(m.planeData.exclusions), bool)
    x = np.linspace(lo, hi, 1800)
    W = {'k': [_nm(case['wl'] / 10), 1.0]}
    mk = lambda cls, y: cls(expt_spectrum=np.c_[x, y], phases=[m], wavelength=W, bkgmethod={'chebyshev': 1}, peakshape='pvtch')
    T = mk(Rietveld, np.full(len(x), 50.0))
    nref = len(T.tth['p']['k'])
    if nref < 2:
        raise Skip
    ctx.nt(nref >= 4)
    cell = [k for k in ('p_a', 'p_b', 'p_c') if k in T.params]
    truth = dict(W=case['W'], p_X=case['X'], zero_error=case['zero'], U=0.0, V=0.0, p_Y=0.0, bkg_0=case['bkg'], bkg_1=0.0)
    for k in cell:
        truth[k] = T.params[k].value * (1 + case['dl'])

    def put(M, d):
        for k, v in d.items():
            M.params[k].set(min=-np.inf, max=np.inf, value=float(v))
    put(T, truth)
    for p in T.params:
        T.params[p].vary = True
    if case['lebail']:
        ctx.label('Le Bail')
        L0 = mk(LeBail, np.full(len(x), 50.0))
        put(L0, truth)
        L0.params_vary_off()
        for k in list(truth):
            L0.params[k].vary = True
        I = np.array(case['amp'])[:1] * 200 * (1 + np.resize(case['amp'], len(L0.tth['p']['k'])))
        L0.Icalc = {'p': {'k': I}}
        L0.calcRwp(L0.params)
        y = L0.spectrum_sim.y.copy()
        tt = L0.tth['p']['k']
        if len(tt) > 1 and np.min(np.diff(np.sort(tt))) < 0.25 or tt.min() < lo + 1 or tt.max() > hi - 1:
            raise Skip
        L = mk(LeBail, y)
        put(L, truth)
        L.params_vary_off()
        L.calcRwp(L.params)
        L._set_params_vals_to_class(L.params, init=False, skip_phases=False, force=True)
        for i in range(12):
            L.RefineCycle(print_to_screen=False)
        got = L.Icalc['p']['k']
        ctx.close(got, I, rtol=0.03, atol=0.03 * I.max(), msg='Le Bail intensities')
        ctx.true(L.Rwp < 0.02, 'residual of a perfect model', got=L.Rwp)
        return
    ctx.label('Rietveld')
    put(T, {'scale': 1.0})
    T.calcRwp(T.params)
    sc = 2000.0 / max(np.max(T.spectrum_sim.y - T.background.y), 1e-30)
    put(T, {'scale': sc})
    T.calcRwp(T.params)
    y = T.spectrum_sim.y.copy()
    M = mk(Rietveld, y)
    put(M, dict(truth, scale=sc * 1.2, W=case['W'] * 1.3, zero_error=0.0, bkg_0=case['bkg'] * 0.9))
    put(M, {k: T.params[k].value / (1 + case['dl']) for k in cell})
    M.params_vary_off()
    for k in ['scale', 'W', 'zero_error', 'bkg_0'] + cell:
        M.params[k].vary = True
    r0 = M.calcRwp(M.params)
    R0 = M.Rwp
    M.Refine()
    ctx.true(M.Rwp <= R0 + 1e-9, 'refinement does not increase the residual', before=R0, after=M.Rwp)
    if M.Rwp < 0.01:
        ctx.label('converged')
        for k in ['scale', 'W', 'bkg_0']:
            ctx.close(M.params[k].value, T.params[k].value, rtol=0.02, atol=0.5, msg=f'recovered {k}')
        if nref >= 4:
            for k in cell:
                ctx.close(M.params[k].value, T.params[k].value, rtol=5e-4, atol=0, msg=f'recovered {k}')
    ctx.true(M.Rwp < 0.05, 'refinement fits its own model', got=M.Rwp, start=R0)


part_st = st.fixed_dictionaries(dict(prof_st, pos=st.lists(S.num(6, 24), min_size=1, max_size=5), amp=st.lists(S.num(1, 50), min_size=5, max_size=5), seed=S.seeds, kind=st.sampled_from(['tch', 'fcj', 'pink', 'heating', 'exponential']),
                                     zeros=st.integers(0, 3), bkg=S.num(0, 10)))


@sub('C28', 'le_bail_partition', part_st, n=120, n_thorough=1200, rule='overlapping peaks, or points without calculated intensity')
def partition(case, ctx):
    r = S.rng(case['seed'])
    pos = np.array(case['pos'], float)
    n = len(pos)
    I = np.array(case['amp'][:n], float)
    x = np.linspace(4, 26, 700)
    C = dict(case, X=max(case['X'], 1.0), W=max(case['W'], 25))
    A = base_args(C)
    xs = r.uniform(0, 2, n); d = r.uniform(0.05, 0.2, n); H = r.integers(-3, 4, (n, 3)).astype(float)
    kind = case['kind']
    one = {'tch': lambda q: pf.pvoight_wppf(A[0], A[1], A[2], xs[q], ZERO, A[5], pos[q], d[q], H[q], xx),
           'fcj': lambda q: pf.pvfcj(A[0], A[1], A[2], xs[q], ZERO, A[5], pos[q], d[q], H[q], xx, 0.004, 0.003, XN, WN),
           'pink': lambda q: pf.pvoight_pink_beam(np.array([9.0, 0.3]), np.array([4.0, -0.5]), A[0], A[1], A[2], xs[q], ZERO, A[5], pos[q], d[q], H[q], xx),
           'heating': lambda q: pf.pvoight_heating(np.array([0.12, 0.05]), A[0], A[1], A[2], xs[q], ZERO, A[5], pos[q], d[q], H[q], xx),
           'exponential': lambda q: pf.pvoight_exponential(np.array([0.3, -0.1, 0.05]), A[0], A[1], A[2], xs[q], ZERO, A[5], pos[q], d[q], H[q], xx)}[kind]
    xx = x
    P = np.array([one(q) for q in range(n)])
    yc = I @ P + case['bkg']
    yo = yc * r.uniform(0.8, 1.2, len(x))
    for _ in range(case['zeros']):
        j = int(r.integers(0, 690))
        yc[j:j + int(r.integers(1, 9))] = 0.0
    ctx.label(kind); ctx.nt(case['zeros'] > 0 or n > 1 and np.min(np.diff(np.sort(pos))) < 1)
    keep = yc != 0
    xx = x[keep].copy()
    Pk = np.array([one(q) for q in range(n)])
    want = np.array([np.trapezoid(yo[keep] * I[q] * Pk[q] / yc[keep], xx) for q in range(n)])
    pre = {'tch': (), 'fcj': (), 'pink': (np.array([9.0, 0.3]), np.array([4.0, -0.5])), 'heating': (np.array([0.12, 0.05]),), 'exponential': (np.array([0.3, -0.1, 0.05]),)}[kind]
    mid = (0.004, 0.003, XN, WN) if kind == 'fcj' else ()
    fn = getattr(pf, 'calc_Iobs_pv' + kind)
    E, Cc = np.c_[x, yo], np.c_[x, yc]
    got = fn(*pre, A[0], A[1], A[2], xs, ZERO, A[5], *mid, pos, d, H, x, I, E, Cc)
    ctx.close(got, want, rtol=1e-7, atol=1e-9, msg='observed intensities partition the measurement')
    spec = getattr(pf, 'computespectrum_pv' + kind)(*pre, A[0], A[1], A[2], xs, ZERO, A[5], *(mid[:2] if kind == 'fcj' else ()), pos, d, H, x, I, *(mid[2:] if kind == 'fcj' else ()))
    ctx.close(spec, I @ P, rtol=1e-8, atol=1e-9, msg='spectrum is the sum of its peaks')


# ----------------------------------------------------------------- masks, factors, spectra, amorphous models
@sub('C28', 'masked_regions', st.fixed_dictionaries(dict(n=st.integers(3, 60), bits=st.integers(0, 2 ** 60 - 1), seed=S.seeds)), n=400, n_thorough=3000, rule='several regions')
def masked_regions(case, ctx):
    n = case['n']
    m = np.array([(case['bits'] >> i) & 1 for i in range(n)], bool)
    if m.all():
        m[0] = False
    d = S.rng(case['seed']).uniform(1, 5, (n, 2)); d[:, 0] = np.arange(n)
    arr = np.ma.masked_array(d, mask=np.c_[np.zeros(n, bool), m])
    regs, idx = separate_regions(arr)
    ctx.nt(len(regs) > 1)
    ctx.array_equal(np.concatenate([r[:, 0] for r in regs]), np.arange(n)[~m], 'unmasked points in order')
    ctx.true(all(len(r) == b - a for r, (a, b) in zip(regs, idx)), 'region limits')
    ctx.true(all(np.array_equal(np.diff(r[:, 0]), np.ones(len(r) - 1)) for r in regs), 'regions are contiguous')
    ctx.equal(len(regs), int(np.sum(np.diff(np.r_[True, m].astype(int)) == -1)), 'number of regions')
    back = join_regions([r[:, 1] for r in regs], idx, n)
    ctx.array_equal(np.isnan(back), m, 'masked points come back as NaN')
    ctx.array_equal(back[~m], d[~m, 1], 'unmasked points come back')


@sub('C28', 'correction_factors', st.fixed_dictionaries(dict(tth=st.lists(S.num(1, 150), min_size=1, max_size=8), x=st.lists(S.num(0.01, 20), min_size=8, max_size=8), K=S.num(0.5, 2), D=S.num(0.1, 3), v=S.num(0.02, 0.5), wl=S.num(0.1, 2),
                                                           mu=S.num(1e-3, 2))), n=300, rule='strong extinction')
def correction_factors(case, ctx):
    t = np.array(case['tth'])
    X = np.array(case['x'][:len(t)])
    f2 = X / (case['K'] * case['wl'] * case['D'] / case['v']) ** 2
    got = px._calc_extinction_factor(np.ones((len(t), 3)), t, case['v'], case['wl'], f2, case['K'], case['D'])
    ctx.nt(max(X) > 1)
    s, c = np.sin(np.radians(t / 2)) ** 2, np.cos(np.radians(t / 2)) ** 2
    EB = 1 / np.sqrt(1 + X)
    # Sabine's Laue case is the mean of exp(-z) I0(z)-like oscillations: Struve / Bessel expression by quadrature
    from scipy.special import ive
    EL = np.array([ive(0, x_) + ive(1, x_) for x_ in X])
    ctx.close(got, EB * s + EL * c, rtol=0, atol=0.035, msg="Sabine's primary extinction")
    ctx.true(np.all((got > 0) & (got <= 1 + 1e-12)), 'extinction only weakens')
    a = px._calc_absorption_factor(case['mu'], t, 0.0, case['wl'])
    ctx.close(a, np.exp(-case['mu'] * case['wl'] / np.cos(np.radians(t / 2))), rtol=1e-9, atol=0, msg='absorption of a plate normal to the beam')


@sub('C28', 'spectra', st.fixed_dictionaries(dict(seed=S.seeds, n=st.integers(8, 60), step=S.num(0.02, 1), lo=S.num(1, 20), bin=S.num(0.1, 3), sc=S.num(0, 3), off=S.num(-2, 2), bkg=st.sampled_from(['none', 'same', 'other']), ext=S.num(-3, 3))),
     n=250, rule='a background or a scaling')
def spectra(case, ctx):
    r = S.rng(case['seed'])
    n = case['n']
    x = case['lo'] + case['step'] * np.arange(n)
    y = r.uniform(1, 9, n)
    s = Spectrum(x.copy(), y.copy())
    s.scaling = case['sc']
    s.offset = case['off']
    want_x, want = x, y * case['sc'] + case['off']
    if case['bkg'] != 'none':
        bx = x.copy() if case['bkg'] == 'same' else np.linspace(x[0] - 0.3 * case['step'], x[-3] + 0.1 * case['step'], 17)
        by = r.uniform(0, 1, len(bx))
        s.set_background(Spectrum(bx, by))
        ok = (x >= bx[0]) & (x <= bx[-1])
        want_x, want = x[ok], want[ok] - np.interp(x[ok], bx, by)
    ctx.nt(case['bkg'] != 'none' or case['sc'] != 1); ctx.label(case['bkg'])
    gx, gy = s.data
    ctx.close(gx, want_x, atol=0, rtol=0, msg='abscissae'); ctx.close(gy, want, atol=1e-10, rtol=1e-10, msg='scaled, offset and background subtracted intensities')
    s.reset_background()
    gx, gy = s.data
    ctx.close(gy, y * case['sc'] + case['off'], atol=1e-10, rtol=1e-10, msg='background removed again')
    s = Spectrum(x.copy(), y.copy())
    # rebinning keeps the mean intensity of each bin
    b = case['bin']
    q = s.rebin(b)
    k = np.floor(x / b + 0.5)
    edge = np.abs(x / b + 0.5 - np.round(x / b + 0.5)) < 1e-6
    for xi, yi in zip(q.x, q.y):
        kk = round(xi / b)
        near = np.abs(x - kk * b) < 0.5 * b * (1 + 1e-5)
        if np.any(edge & near):
            continue
        sel = k == kk
        if sel.any():
            ctx.close(yi, y[sel].mean(), rtol=1e-9, atol=0, msg='rebinned intensity')
        else:
            ctx.true(np.isnan(yi), 'empty bins hold no intensity')
    lo, hi = sorted((float(r.uniform(x[0] - 1, x[-1])), float(r.uniform(x[0], x[-1] + 1))))
    l = s.limit(lo, hi)
    ctx.array_equal(l.x, x[(x > lo) & (x < hi)], 'limited abscissae'); ctx.array_equal(l.y, y[(x > lo) & (x < hi)], 'limited intensities')
    e = x[-1] + case['ext'] if case['ext'] > 0 else x[0] + case['ext']
    E = s.extend_to(e, 0.5)
    ins = (E.x >= x[0] - 1e-9) & (E.x <= x[-1] + 1e-9)
    ctx.close(E.x[ins], x, atol=1e-9, rtol=0, msg='extension keeps the points'); ctx.array_equal(E.y[ins], y, 'extension keeps the intensities')
    ctx.true(np.all(E.y[~ins] == 0.5) and np.all(np.abs(np.diff(E.x) - case['step']) < 1e-6), 'filled points')
    ctx.true(abs((E.x[-1] if case['ext'] > 0 else E.x[0]) - e) <= 0.5 * case['step'] + 1e-9, 'extension reaches its end', got=[float(E.x[0]), float(E.x[-1])], want=e)
    o = Spectrum(x.copy(), r.uniform(0, 3, n))
    ctx.close((s + o).y, y + o.y, rtol=1e-12, atol=0, msg='sum'); ctx.close((s - o).y, y - o.y, rtol=1e-12, atol=1e-12, msg='difference')
    ctx.close((2.5 * s).y, 2.5 * y, rtol=1e-12, atol=0, msg='multiple')
    o2 = Spectrum(np.linspace(x[1], x[-2], n + 3), r.uniform(0, 3, n + 3))
    d = s - o2
    ok = (x >= x[1]) & (x <= x[-2])
    ctx.close(d.y, y[ok] - np.interp(x[ok], o2.x, o2.y), rtol=1e-9, atol=1e-9, msg='difference on another grid')
    f = os.path.join(ctx.scratch, 'spec.xy')
    s.save(f)
    B = Spectrum.from_file(f)
    ctx.close(B.x, x, rtol=1e-12, atol=0, msg='file abscissae'); ctx.close(B.y, y, rtol=1e-12, atol=0, msg='file intensities')


@sub('C28', 'amorphous', st.fixed_dictionaries(dict(kind=st.sampled_from(['split_gaussian', 'split_pv', 'experimental']), n=st.integers(1, 3), seed=S.seeds, smooth=st.sampled_from([0, 0, 1, 3]), grid2=st.booleans(), hit=st.booleans())),
     n=200, rule='several components, or a centre on the grid')
def amorphous(case, ctx):
    r = S.rng(case['seed'])
    x = np.linspace(10, 50, 401)
    keys = [f'c{i + 1}' for i in range(case['n'])]
    sc = {k: float(r.uniform(0.5, 20)) for k in keys}
    ctx.label(case['kind'])
    if case['kind'] == 'experimental':
        sh = {k: float(r.uniform(-3, 3)) for k in keys}
        data, y = {}, {}
        for k in keys:
            g = np.linspace(8, 55, 200) if case['grid2'] else x
            v = 5 + 4 * np.exp(-((g - r.uniform(20, 40)) / r.uniform(2, 8)) ** 2)
            data[k] = np.c_[g, v] if case['grid2'] else v
            y[k] = np.interp(x, g, v)
        am = Amorphous(x, model_type='experimental', model_data=data, scale=sc, shift=sh, smoothing=case['smooth'])
        from scipy.ndimage import gaussian_filter1d
        want = 0.0
        for k in keys:
            q = gaussian_filter1d(y[k], case['smooth']) if case['smooth'] else y[k]
            want = want + sc[k] * np.interp(x, x + sh[k], q - q.min(), left=0, right=0) + q.min()
        ctx.nt(case['n'] > 1 or case['smooth'] > 0)
        ctx.close(am.amorphous_lineout, want, rtol=1e-8, atol=1e-8, msg='shifted, scaled measurement')
        return
    cen = {k: (float(x[int(r.integers(50, 350))]) if case['hit'] else float(r.uniform(15, 45))) for k in keys}
    fw = {k: r.uniform(1, 6, 2 if case['kind'] == 'split_gaussian' else 4) for k in keys}
    am = Amorphous(x, model_type=case['kind'], scale=sc, center=cen, fwhm=fw)
    ctx.nt(case['n'] > 1 or case['hit'])
    want = 0.0
    for k in keys:
        left = x <= cen[k]
        if case['kind'] == 'split_gaussian':
            f = np.where(left, fw[k][0], fw[k][1])
            p = np.exp(-4 * math.log(2) * ((x - cen[k]) / f) ** 2)
        else:
            (nl, fl), (nr, fr) = tch(fw[k][0], fw[k][1]), tch(fw[k][2], fw[k][3])
            f, e = np.where(left, fl, fr), np.where(left, nl, nr)
            p = e / (1 + 4 * ((x - cen[k]) / f) ** 2) + (1 - e) * np.exp(-4 * math.log(2) * ((x - cen[k]) / f) ** 2)
        want = want + sc[k] * p
    ctx.close(am.amorphous_lineout, want, rtol=1e-6, atol=1e-8, msg='sum of split peaks')
    ctx.close(am.integrated_area, np.trapezoid(want, x), rtol=1e-6, atol=1e-8, msg='area')


class Quiet:
    known = []

    def __getattr__(self, n):
        return lambda *a, **k: None


def _w(kind):
    def f():
        import tempfile
        c = dict(U=0., V=0., W=30., P=0., X=1., Y=0., xsf=0., eta=.5, tth=10., d=.1, pos=[10., 12.], amp=[1.] * 5, seed=1, kind=kind, zeros=0, bkg=1.)
        partition(c, Quiet())
        at = dict(Z=28, x=[0, 1], y=[0, 1], z=[0, 1], link='none', wrap=[0, 0, 0], occ=1.0, U=0.005, A=[0.0] * 6)
        ph = dict(sg=225, l6=[3.6] * 3 + [90.0] * 3, atoms=[at], ani=False, X=1.0, Y=0.0, P=0.0, eta=0.5, frac=1.0, s=[0.5] * 15, excl=0, sf=0.0, tw=0.0)
        m = dict(phases=[ph], wl=[0.2], wi=0.5, shape={'tch': 'pvtch', 'fcj': 'pvfcj', 'pink': 'pvpink', 'heating': 'pvheating', 'exponential': 'pvexponential'}[kind], lo=3.0, span=12.0, zero=0.0, shft=0.0,
                 trns=0.0, scale=1.0, Ph=1.0, U=10.0, V=0.0, W=20.0, bkg=[0.0] * 3, am=kind == 'tch', aniso=False)
        with tempfile.TemporaryDirectory() as d:
            q = Quiet(); q.scratch = d
            rietveld_model(dict(m, spec=False, mask=False), q)
            if kind == 'tch':
                rietveld_model(dict(m, aniso=True, phases=[ph, dict(ph, ani=True)], spec=True, mask=False), q)
    return f


for _k in ('tch', 'fcj', 'pink', 'heating', 'exponential'):
    warm('C28')(_w(_k))


@warm('C28')
def _warm_model():
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        at = dict(Z=28, x=[0, 1], y=[0, 1], z=[0, 1], link='none', wrap=[0, 0, 0], occ=1.0, U=0.005, A=[0] * 6)
        s = dict(sg=225, setting=0, lp=[3.6] * 3 + [90.0] * 3, atoms=[at], ani=False, dmin=1.0, kev=40.0)
        m = load(s, d)
        x = np.linspace(5, 20, 200)
        from hexrd.powder.wppf import phase
        R = Rietveld.__new__(Rietveld)
        q = phase.Material_Rietveld(fhdf=None, xtal=None, dmin=None, material_obj=m)
        q.getTTh(0.031); q.get_sf_hkl_factors(); q.CalcXRSF(0.031, 1.0)
        t = q.getTTh(0.031)
        q.calc_extinction(0.31, t, np.ones(len(t)), 1.0, 1.0); q.calc_absorption(t, 0.0, 0.31)
        s['ani'] = True
        q = phase.Material_Rietveld(fhdf=None, xtal=None, dmin=None, material_obj=load(s, d))
        q.getTTh(0.031); q.CalcXRSF(0.031, 1.0)
