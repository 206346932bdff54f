"""C23: peak shapes, backgrounds and fits of line-outs."""
import math

import lmfit
import numpy as np
import scipy.special as ss
from hypothesis import strategies as st

from hexrd.core.fitting import fitpeak as fp
from hexrd.core.fitting import peakfunctions as pf
from hexrd.core.fitting import special as sp
from hexrd.core.fitting import spectrum as spm
from hexrd.core.fitting import utils as fu
from pbt.core import sub, Skip, warm
from pbt import strat as S

LN2 = math.log(2)
KINDS = ['gaussian', 'lorentzian', 'pvoigt', 'split_pvoigt']
PINK = ['pink_beam_heating', 'pink_beam_exponential', 'pink_beam_dcs']
BG = ['constant', 'linear', 'quadratic', 'cubic', 'quartic', 'quintic']


_X = np.linspace(0, 1, 20)


@warm('C23')
def _warm_heating():
    pf.pink_beam_heating_lmfit(_X, *np.ones(6))


@warm('C23')
def _warm_exponential():
    pf.pink_beam_exponential_lmfit(_X, *np.ones(7))


@warm('C23')
def _warm_dcs():
    sp.erfc(_X); sp.exp1exp(_X + 1j); pf._mixing_factor_pv(0.1, 0.1); fu._mixing_factor_pv(0.1, 0.1)
    for m in (pf, fu):
        m._calc_alpha((1.0, 1.0), 1.0); m._calc_beta((1.0, 1.0), 1.0)


# ----------------------------------------------------------------- reference
def gau(u, w):                       # unit height, full width w at half height
    return np.exp(-4 * LN2 * (u / w) ** 2)


def lor(u, w):
    return 1 / (1 + 4 * (u / w) ** 2)


def pv(u, w, n):
    return n * gau(u, w) + (1 - n) * lor(u, w)


def shape(kind, p, x):
    u = x - p[1]
    if kind == 'gaussian':
        return p[0] * gau(u, p[2])
    if kind == 'lorentzian':
        return p[0] * lor(u, p[2])
    if kind == 'pvoigt':
        return p[0] * pv(u, p[2], p[3])
    if kind == 'split_pvoigt':
        return p[0] * np.where(u < 0, pv(u, p[2], p[4]), pv(u, p[3], p[5]))
    g, l = p[-2], p[-1]
    w = (g**5 + 2.69269 * g**4 * l + 2.42843 * g**3 * l**2 + 4.47163 * g**2 * l**3 + 0.07842 * g * l**4 + l**5) ** 0.2
    r = l / w
    eta = min(max(1.36603 * r - 0.47719 * r * r + 0.11116 * r**3, 0.0), 1.0)
    t = math.tan(math.radians(p[1] / 2))
    if kind == 'pink_beam_exponential':
        tau = p[2] + p[3] * t + p[4] * t * t
        z = g / tau / math.sqrt(2) - u / g / math.sqrt(2)         # exponentially modified Gaussian
        G = np.where(z > 0, np.exp(-u * u / (2 * g * g)) * ss.erfcx(np.maximum(z, 0)), np.exp(np.minimum(g * g / (2 * tau * tau) - u / tau, 700)) * ss.erfc(z)) / (2 * tau)
        G = np.where(np.abs(u) > 5, 0, G)
        q = -u / tau + 0.5j * l / tau
        L = -(np.exp(q) * ss.exp1(q)).imag / (math.pi * tau)
    else:
        s = p[2] + p[3] * t
        tot = math.hypot(s, g)
        G = np.exp(-u * u / (2 * tot * tot)) * ss.erfc(-u / tot * s / g / math.sqrt(2)) / tot / math.sqrt(2 * math.pi)
        lam = (u + 1j * l) / (s * math.sqrt(2))
        # half-Gaussian folded with a Lorentzian of half width l
        L = (np.pi * ss.wofz(lam).real + (ss.exp1(-lam * lam) * np.exp(-lam * lam)).imag) * 2 / (s * (2 * math.pi) ** 1.5)
    tz = lambda y: float(np.sum((y[1:] + y[:-1]) * np.diff(x)) / 2)
    return p[0] * (eta * L / tz(L) + (1 - eta) * G / tz(G))


def background(c, x, kind):
    if kind is None:
        return np.zeros_like(x)
    return sum(ci * x**i for i, ci in enumerate(c))


def cheb(c, x):
    s = (2 * x - x.min() - x.max()) / (x.max() - x.min())
    return sum(ci * np.cos(i * np.arccos(np.clip(s, -1, 1))) for i, ci in enumerate(c))


def pk_st(kind):
    f = dict(amp=S.num(0.5, 50), cen=S.num(5, 15), w=st.tuples(S.num(0.05, 0.6), S.num(0.05, 0.6)), n=st.tuples(S.num(0, 1), S.num(0, 1)), rel=S.num(0.6, 2), sl=S.num(-0.5, 0.5))
    return st.fixed_dictionaries(f)


def params(kind, k):
    a, c, (w1, w2), (n1, n2) = k['amp'], k['cen'], k['w'], k['n']
    if kind in ('gaussian', 'lorentzian'):
        return [a, c, w1]
    if kind == 'pvoigt':
        return [a, c, w1, n1]
    if kind == 'split_pvoigt':
        return [a, c, w1, w2, n1, n2]
    t = math.tan(math.radians(c / 2))
    s = max(k['rel'] * w1, 0.15)           # value of the asymmetry at the peak
    if kind == 'pink_beam_heating':
        return [a, c, s - k['sl'] * t, k['sl'], w1, w2]
    if kind == 'pink_beam_exponential':
        return [a, c, s - k['sl'] * t - n2 * t * t, k['sl'], n2, w1, w2]
    return [a, c, 3 + 10 * n1, k['sl'], 2 + 5 * n2, k['sl'], w1, w2]


shape_st = st.fixed_dictionaries(dict(kind=st.sampled_from(KINDS + PINK[:2]), pk=st.lists(pk_st(None), min_size=1, max_size=4), bg=st.lists(S.num(-2, 2), min_size=6, max_size=6),
                                      bgk=st.sampled_from([None] + BG[:3]), n=st.integers(20, 120), nonuni=st.booleans(), seed=S.seeds))


@sub('C23', 'peak_shapes', shape_st, n=400, rule='several peaks')
def peak_shapes(c, ctx):
    kind = c['kind']
    ctx.label(kind, 'bg:%s' % c['bgk'], len(c['pk']))
    ctx.nt(len(c['pk']) > 1)
    x = np.linspace(0, 20, c['n']) if not c['nonuni'] else np.sort(S.rng(c['seed']).uniform(0, 20, c['n']))
    ps = [params(kind, k) for k in c['pk']]
    if kind in PINK:
        x = np.linspace(ps[0][1] - 4, ps[0][1] + 4, 300)
        for k, p in zip(c['pk'], ps):
            p[1] = min(max(p[1], x[0] + 3), x[-1] - 3) if p is not ps[0] else p[1]
        ps = [params(kind, dict(k, cen=p[1])) for k, p in zip(c['pk'], ps)]
    x0 = x.copy()
    one = {'gaussian': pf.gaussian1d, 'lorentzian': pf.lorentzian1d, 'pvoigt': pf.pvoigt1d, 'split_pvoigt': pf.split_pvoigt1d, 'pink_beam_heating': pf.pink_beam_heating,
           'pink_beam_exponential': pf.pink_beam_exponential}[kind]
    top = max(p[0] for p in ps) * (1 if kind in KINDS else 10)
    tol = top * (1e-9 if kind in KINDS else 3e-6 * 4)
    tot = np.zeros(len(x))
    for p in ps:
        s = shape(kind, p, x)
        tot += s
        ctx.close(one(np.array(p + c['bg'][:2]), x), s + c['bg'][0] + c['bg'][1] * x, tol, 0, f'{kind} and its linear background')
        f = getattr(spm, {'gaussian': 'gaussian_1d', 'lorentzian': 'lorentzian_1d', 'pvoigt': 'pvoigt_1d', 'split_pvoigt': 'split_pvoigt_1d'}.get(kind, kind))
        if kind != 'split_pvoigt' or True:
            ctx.close(f(x, *p), s, tol, 0, f'{kind} in the spectrum model')
        if kind in PINK:
            ctx.close(getattr(pf, kind + '_lmfit')(x, *p), s, tol, 0, f'{kind} (lmfit form)')
            y = getattr(pf, kind + '_lmfit')(x, *p)
            ctx.close(float(np.trapezoid(y, x)), p[0], 1e-6 * p[0], 0, 'the amplitude is the area on the grid')
    nb = {None: 0, 'constant': 1, 'linear': 2, 'quadratic': 3}[c['bgk']]
    got = pf.mpeak_1d(np.r_[np.ravel(ps), c['bg'][:nb]], x, kind, len(ps), c['bgk'])
    ctx.close(got, tot + background(c['bg'][:nb], x, c['bgk']), tol * len(ps), 0, 'several peaks on a background')
    ctx.array_equal(x, x0, 'coordinates untouched')
    if kind in KINDS:
        p = ps[0]
        lo, hi = p[1] - p[2] / 2, p[1] + p[3 if kind == 'split_pvoigt' else 2] / 2
        v = one(np.array(p + [0, 0]), np.array([p[1], lo, hi]))
        ctx.close(v, [p[0], p[0] / 2, p[0] / 2], 1e-9 * p[0], 0, 'height and half-height points')
    if kind in ('gaussian', 'lorentzian'):
        p = np.array(ps[0] + c['bg'][:2])
        got = (pf.gaussian1d_deriv if kind == 'gaussian' else pf.lorentzian1d_deriv)(p, x)
        ctx.shape(got, (5, len(x)))
        for j in range(5):
            h = 1e-5 * max(1, abs(p[j])) * (0.05 if j in (1, 2) else 1)
            d = np.zeros(5); d[j] = h
            num = (one(p + d, x) - one(p - d, x)) / (2 * h)
            ctx.close(got[j], num, 2e-4 * max(1.0, p[0] / p[2]), 0, f'derivative {j} of {kind}')
        ctx.array_equal(fp.eval_pk_deriv_1d(p, x, x, kind), got.T, 'jacobian for fits')
    if len(ps) > 1:
        y = one(np.array(ps[0] + c['bg'][:2]), x)
        meas = y + S.rng(c['seed']).normal(size=len(x))
        ctx.close(fp.fit_pk_obj_1d(np.array(ps[0] + c['bg'][:2]), x, meas, kind), y - meas, 1e-12 * (1 + abs(y).max()), 0, 'residual')
        w = 7.5
        pp = np.array(ps[0] + c['bg'][:2])
        r = S.rng(c['seed'] + 1)
        lb = [None if r.random() < 0.3 else v + r.normal() for v in pp]
        ub = [None if l is None else l + r.uniform(0, 3) for l in lb]
        got = fp.fit_pk_obj_1d_bnded(pp, x, meas, kind, w, lb, ub)
        ctx.close(got, np.r_[y - meas, [0.0 if l is None else w * max(l - v, 0, v - u) for v, l, u in zip(pp, lb, ub)]], 1e-10 * (1 + abs(y).max()), 0, 'residual with the bound penalties')
        R, Rw = fp.goodness_of_fit(y, meas)
        ctx.close([R, Rw], [np.sum((y - meas) ** 2) / np.sum(meas**2), np.sum(abs(meas) * (y - meas) ** 2) / np.sum(abs(meas) ** 3)], 0, 1e-9, 'goodness of fit')
    ints = fp.calc_pk_integrated_intensities(np.r_[np.ravel(ps), c['bg'][:nb]], x, kind, len(ps))
    from scipy.integrate import simpson
    ctx.close(ints, [simpson(shape(kind, p, x), x=x) for p in ps], tol * 40, 1e-5, 'integrated intensities')


def pink_parts(d, a, b, sg, fl):
    y, z = (a * sg * sg + d) / (math.sqrt(2) * sg), (b * sg * sg - d) / (math.sqrt(2) * sg)

    def half(u, k, dd):
        # exp(u^2) erfc(u) exp(-d^2/2s^2) without overflow
        with np.errstate(all='ignore'):
            return np.where(u > -5, np.exp(-d * d / 2 / sg ** 2) * ss.erfcx(np.maximum(u, -5)), np.exp(k * dd + k * k * sg * sg / 2) * ss.erfc(u))
    G = a * b / 2 / (a + b) * (half(y, a, d) + half(z, b, -d))
    P, Q = a * (d - 0.5j * fl), b * (-d - 0.5j * fl)
    L = a * b / (a + b) / math.pi * (np.exp(P) * ss.exp1(P) + np.exp(Q) * ss.exp1(Q)).imag
    return G, L


@sub('C23', 'pink_beam', st.fixed_dictionaries(dict(pk=st.lists(pk_st(None), min_size=1, max_size=3), dx=S.num(-3, 3), z=st.lists(st.tuples(S.num(-1, 1), S.num(-1, 1), S.num(-2, 1.5)), min_size=1, max_size=12))),
     n=250, rule='always')
def pink_beam(c, ctx):
    ctx.nt()
    k = c['pk'][0]
    x = np.linspace(k['cen'] - 4, k['cen'] + 4, 240)
    p = np.array(params('pink_beam_dcs', k))
    y = pf._pink_beam_dcs_no_bg(p, x)
    ctx.close(pf.pink_beam_dcs_lmfit(x, *p), y, 1e-9 * p[0], 0, 'the lmfit form is the same shape')
    ctx.close(pf.pink_beam_dcs(np.r_[p, 1.5, -0.5], x), y + 1.5 - 0.5 * x, 1e-9 * (p[0] + 10), 0, 'linear background')
    q = p.copy(); q[0] *= 2.5
    ctx.close(pf._pink_beam_dcs_no_bg(q, x), 2.5 * y, 1e-9 * p[0], 0, 'proportional to the amplitude')
    q = p.copy(); q[[3, 5]] = 0
    q[2] = pf._calc_alpha((p[2], p[3]), p[1]); q[4] = pf._calc_beta((p[4], p[5]), p[1])
    ctx.close(pf._pink_beam_dcs_no_bg(q, x), y, 1e-8 * p[0], 0, 'only the edge slopes at the peak matter')
    q[1] += c['dx']
    ctx.close(pf._pink_beam_dcs_no_bg(q, x + c['dx']), y, 1e-7 * p[0], 0, 'moves with its position')
    ctx.true(np.all(np.isfinite(y)) and y.max() <= p[0] * (1 + 1e-9), 'finite, at most the amplitude')
    # pseudo-Voigt of a gaussian and a lorentzian that are convolved with exponentials rising before and falling after the peak
    G, L = pink_parts(x - p[1], q[2], q[4], p[6], p[7])
    fw = (p[6] ** 5 + 2.69269 * p[6] ** 4 * p[7] + 2.42843 * p[6] ** 3 * p[7] ** 2 + 4.47163 * p[6] ** 2 * p[7] ** 3 + 0.07842 * p[6] * p[7] ** 4 + p[7] ** 5) ** 0.2
    r = p[7] / fw
    n = 1.36603 * r - 0.47719 * r * r + 0.11116 * r ** 3
    # the complementary error function is accurate to 2e-7 before it is multiplied by an exponential
    d, a, b, v = x - p[1], q[2], q[4], p[6] ** 2
    e = np.exp(np.minimum(a / 2 * (a * v + 2 * d), 40)) + np.exp(np.minimum(b / 2 * (b * v - 2 * d), 40))
    tol = 1e-5 + 4e-7 * a * b / 2 / (a + b) * e / G.max()
    ctx.close(y, p[0] * (n * L / L.max() + (1 - n) * G / G.max()), p[0] * (tol + tol[np.argmax(G)]), 0, 'convolved pseudo-Voigt')
    ctx.close(pf.mpeak_1d(np.r_[p, q], x, 'pink_beam_dcs', 2), y + pf._pink_beam_dcs_no_bg(q, x), 1e-9 * p[0], 0, 'two peaks')
    ys = spm.pink_beam_dcs(x, *p)
    t = math.tan(math.radians(p[1] / 2))
    ctx.close(spm.pink_beam_dcs(x, p[0] * 2, *p[1:]), 2 * ys, 1e-9 * abs(ys).max(), 0, 'spectrum model proportional to the amplitude')
    ctx.close([pf._calc_alpha((p[2], p[3]), p[1]), pf._calc_beta((p[4], p[5]), p[1]), pf._calc_tau((p[2], p[3], p[4]), p[1]), pf._calc_sigma((p[2], p[3]), p[1]), fu._calc_alpha((p[2], p[3]), p[1]), fu._calc_beta((p[4], p[5]), p[1])],
              [p[2] + p[3] * t, p[4] + p[5] * t, p[2] + p[3] * t + p[4] * t * t, p[2] + p[3] * t, p[2] + p[3] * t, p[4] + p[5] * t], 1e-12, 1e-12, 'angle dependence of the asymmetry')
    for kind in PINK[:2]:            # vanishing asymmetry gives no signal
        a = params(kind, k)
        a[2] += 0.005 - (a[2] + a[3] * t + (a[4] * t * t if kind == 'pink_beam_exponential' else 0))
        ctx.array_equal(getattr(pf, kind + '_lmfit')(x, *a), np.zeros(len(x)), 'negligible width')
        ctx.close(getattr(pf, kind)(np.r_[a, 1.0, 2.0], x), 1 + 2 * x, 1e-12, 1e-12, 'negligible width, background kept')
    z = np.array([(a + 1j * b) * 10**e for a, b, e in c['z']])
    z = np.where(abs(z) < 1e-6, 0.3 + 0.2j, z)
    # stay off the branch cut
    zz = np.where((z.real < 0) & (abs(z.imag) < 1e-9), abs(z.real) + 0.1j, z)
    ctx.close(sp.exp1_complex_numba(zz), ss.exp1(zz), 1e-300, 1e-9, 'exponential integral')
    ok = np.isfinite(ss.wofz(z)) & (abs(ss.wofz(z)) < 1e200)
    ctx.close(sp.wofz(z[ok]), ss.wofz(z[ok]), 1e-12, 1e-9, 'Faddeeva function')
    ctx.close(sp.erfc(z.real), ss.erfc(z.real), 2e-7, 0, 'complementary error function')
    r = abs(z.real) + 1e-3
    ctx.close(sp.exp1_real_numba(r), ss.exp1(r), 1e-300, 1e-9, 'real exponential integral')
    e = zz[abs(zz.real) < 300]
    ctx.close(sp.exp1exp(e), np.exp(e) * ss.exp1(e), 1e-300, 1e-9, 'scaled exponential integral')


@sub('C23', 'surfaces', st.fixed_dictionaries(dict(amp=S.num(0.5, 20), cen=st.tuples(S.num(-1, 1), S.num(-1, 1), S.num(-1, 1)), w=st.lists(S.num(0.3, 2), min_size=6, max_size=6), n=st.lists(S.num(0, 1), min_size=4, max_size=4),
                                                  th=S.ang(-3.2, 3.2), bg=st.lists(S.num(-1, 1), min_size=4, max_size=4), nx=st.integers(5, 16), ny=st.integers(5, 16), nz=st.integers(2, 6))), n=250, rule='rotated by a general angle')
def surfaces(c, ctx):
    a, (cx, cy, cz), w, n, th, bg = c['amp'], c['cen'], c['w'], c['n'], c['th'], c['bg']
    ctx.nt(abs(math.sin(2 * th)) > 0.05)
    x, y = np.meshgrid(np.linspace(-3, 3, c['nx']), np.linspace(-2, 3, c['ny']))
    lin = bg[0] + bg[1] * x + bg[2] * y
    g2 = lambda X, Y: a * gau(X, w[0]) * gau(Y, w[1])
    p = np.array([a, cx, cy, w[0], w[1]])
    ctx.close(pf.gaussian2d(np.r_[p, bg[:3]], x, y), g2(x - cx, y - cy) + lin, 1e-9 * a, 0, '2-d Gaussian')
    C, s = math.cos(th), math.sin(th)
    X, Y = C * (x - cx) + s * (y - cy), -s * (x - cx) + C * (y - cy)
    pr = np.r_[p, th, bg[:3]]; keep = pr.copy()
    ctx.close(pf.gaussian2d_rot(pr, x, y), g2(X, Y) + lin, 1e-9 * a, 0, 'rotated 2-d Gaussian')
    ctx.array_equal(pr, keep, 'parameters untouched')
    sv = np.r_[a, cx, cy, w[:4], n, th, bg[:3]]
    if min(abs(X).min(), abs(Y).min()) > 1e-9:
        q = a * np.where(X < 0, pv(X, w[0], n[0]), pv(X, w[1], n[1])) * np.where(Y < 0, pv(Y, w[2], n[2]), pv(Y, w[3], n[3]))
        ctx.close(pf.split_pvoigt2d_rot(sv, x, y), q + lin, 1e-9 * a, 0, 'rotated split pseudo-Voigt')
        for kind, pp, val in (('gaussian', np.r_[p, bg[:3]], g2(x - cx, y - cy)), ('gaussian_rot', pr, g2(X, Y)), ('split_pvoigt_rot', sv, q)):
            ctx.close(fp.fit_pk_obj_2d(pp, x, y, x * y, kind), (val + lin - x * y).flatten(), 1e-9 * a, 0, f'residual of {kind}')
    x3, y3, z3 = np.meshgrid(np.linspace(-3, 3, c['nx']), np.linspace(-2, 3, c['ny']), np.linspace(-2, 2, c['nz']))
    ctx.close(pf.gaussian3d(np.r_[a, cx, cy, cz, w[:3], bg], x3, y3, z3),
              a * gau(x3 - cx, w[0]) * gau(y3 - cy, w[1]) * gau(z3 - cz, w[2]) + bg[0] + bg[1] * x3 + bg[2] * y3 + bg[3] * z3, 1e-9 * a, 0, '3-d Gaussian')
    t = np.linspace(-3, 3, 21)
    ctx.close(pf.tanh_stepdown_nobg([a, cx, w[0]], t), a / (1 + np.exp(2 * (t - cx) / w[0])), 1e-9 * a, 0, 'step')


# ----------------------------------------------------------------- fits
fit_st = st.fixed_dictionaries(dict(kind=st.sampled_from(KINDS), amp=S.num(5, 500), off=S.num(-0.15, 0.15), w=st.tuples(S.num(0.06, 0.2), S.num(0.8, 1.25)), n=st.tuples(S.num(0.2, 0.8), S.num(0.2, 0.8)),
                                    c0=S.num(0.02, 2), c1=S.num(-0.3, 0.3), start=st.one_of(st.just(0.0), S.num(-20, 20)), span=S.num(0.5, 6), npts=st.integers(41, 160)))


@sub('C23', 'single_fits', fit_st, n=120, rule='window away from zero with a slope')
def single_fits(c, ctx):
    kind = c['kind']
    ctx.label(kind)
    ctx.nt(abs(c['c1']) > 0.01 and c['start'] != 0)
    sp_, x = c['span'], np.linspace(c['start'], c['start'] + c['span'], c['npts'])
    cen = c['start'] + sp_ * (0.5 + c['off'])
    w1 = c['w'][0] * sp_; w2 = w1 * c['w'][1]
    sl = c['c1'] * c['amp'] / sp_
    b = c['c0'] * c['amp'] + max(0, -c['c1']) * c['amp']           # positive over the window
    b0 = b - sl * c['start']
    pk = {'gaussian': [c['amp'], cen, w1], 'lorentzian': [c['amp'], cen, w1], 'pvoigt': [c['amp'], cen, w1, c['n'][0]], 'split_pvoigt': [c['amp'], cen, w1, w2, *c['n']]}[kind]
    truth = np.array(pk + [b0, sl])
    f = shape(kind, pk, x) + b0 + sl * x
    p0 = fp.estimate_pk_parms_1d(x, f, kind)
    ctx.shape(p0, (len(truth),))
    ctx.true(x[0] <= p0[1] <= x[-1] and p0[2] > 0, 'estimate inside the window')
    near = truth.copy()
    near[0] *= 1.15; near[1] += 0.15 * w1; near[2] *= 0.85
    if kind == 'split_pvoigt':
        near[3] *= 1.1
    got = fp.fit_pk_parms_1d(near, x, f, kind)
    val = shape(kind, got, x) + got[-2] + got[-1] * x
    ctx.close(val, f, 2e-3 * c['amp'], 0, f'fitted {kind} reproduces the data')
    ctx.close(abs(got[1] - cen) / w1, 0.0, 5e-3, 0, 'fitted position')
    if kind in ('gaussian', 'lorentzian'):
        got = fp.fit_pk_parms_1d(p0, x, f, kind)
        ctx.close([got[0], got[1], abs(got[2])], pk, 1e-4 * c['amp'] * 0 + 1e-5, 1e-3, 'fit from the estimate')
    q = fp.fit_mpk_parms_1d(near, x, f, kind, 1, bgtype='linear')
    ctx.close(shape(kind, q, x) + q[-2] + q[-1] * x, f, 2e-3 * c['amp'], 0, 'multi-peak fit of one peak')


mult_st = st.fixed_dictionaries(dict(kind=st.sampled_from(KINDS), amps=st.lists(S.num(20, 300), min_size=1, max_size=4), gaps=st.lists(S.num(0.6, 1.5), min_size=4, max_size=4), w=S.num(0.08, 0.16), ws=S.num(0.85, 1.15),
                                     n=st.tuples(S.num(0.2, 0.8), S.num(0.2, 0.8)), off=st.lists(S.num(-0.03, 0.03), min_size=4, max_size=4), c=st.tuples(S.num(5, 50), S.num(-3, 3)), start=S.num(2, 30), bgk=st.sampled_from(BG[1:4]),
                                     perm=S.seeds, sep=S.num(0.01, 0.1)))


@sub('C23', 'spectrum_fits', mult_st, n=60, n_thorough=600, rule='several peaks')
def spectrum_fits(c, ctx):
    kind, m = c['kind'], len(c['amps'])
    ctx.label(kind, m, c['bgk'])
    ctx.nt(m > 1)
    cens = c['start'] + 0.7 + np.cumsum(c['gaps'][:m]) - c['gaps'][0]
    x = np.arange(c['start'], cens[-1] + 0.7, 0.01)
    ws = [c['w'] * (c['ws'] if i % 2 else 1) for i in range(m)]
    order = S.rng(c['perm']).permutation(m)
    full = {'gaussian': lambda i: [c['amps'][i], cens[i], ws[i]], 'lorentzian': lambda i: [c['amps'][i], cens[i], ws[i]], 'pvoigt': lambda i: [c['amps'][i], cens[i], ws[i], c['n'][0]],
            'split_pvoigt': lambda i: [c['amps'][i], cens[i], ws[i], ws[i] * 1.1, *c['n']]}[kind]
    f = sum(shape(kind, full(i), x) for i in range(m)) + cheb(c['c'], x)
    guess = (cens + np.array(c['off'][:m]))[order]
    data = np.vstack([x, f]).T
    keep = data.copy()
    sm = spm.SpectrumModel(data, guess, pktype=kind, bgtype=c['bgk'], fwhm_init=c['w'], min_pk_sep=c['sep'])
    par = sm.params
    names = spm._function_dict_1d[kind]
    for i in range(m):
        for nm in names:
            q = par['pk%d_%s' % (i, nm)]
            ctx.true(q.min <= q.value <= q.max, f'{nm} starts inside its bounds')
            if 'fwhm' in nm:
                ctx.close([q.min, q.max], [1e-3, 0.9 * (x.max() - x.min())], 1e-12, 1e-9, 'width bounds')
            if 'mixing' in nm:
                ctx.close([q.min, q.max], [0, 1], 0, 0, 'mixing bounds')
            if nm == 'amp':
                ctx.close([q.min, q.max], [1e-4, 1.5 * f.max()], 1e-12, 1e-9, 'amplitude bounds')
            if nm == 'cen':
                ctx.close(q.value, guess[i], 1e-9, 0, 'starts at the given position')
    ctx.equal((sm.pktype, sm.bgtype, sm.num_peaks, len(par) - (m - 1 if m > 1 else 0)), (kind, c['bgk'], m, m * len(names) + spm.num_func_params[c['bgk']]), 'model layout')
    res = sm.fit()
    ctx.true(res.success, 'fit succeeds')
    v = res.best_values
    ctx.close(res.best_fit, f, 5e-3 * max(c['amps']), 0, 'fit reproduces the spectrum')
    got = np.array([[v['pk%d_cen' % i], v['pk%d_amp' % i]] for i in range(m)])
    ctx.close(got[:, 0], cens[order], 0.03 * c['w'], 0, 'fitted positions')
    ctx.close(got[:, 1], np.array(c['amps'])[order], 0, 0.05, 'fitted amplitudes')
    ctx.array_equal(data, keep, 'data untouched')
    if m > 1:
        srt = np.sort(got[:, 0])
        ctx.true(np.diff(srt).min() >= c['sep'] - 1e-9, 'peaks keep their minimum separation')
    kw = dict(pktype=kind, bgtype=c['bgk'], fwhm_init=c['w'], min_pk_sep=c['sep'])
    tth = fu.fit_ring(x, f, guess, kw, 0.0, 5.0)
    ctx.close(tth, got[:, 0], 1e-6, 0, 'ring fit returns the positions')
    a = got[:, 1].min()
    ctx.true(fu.fit_ring(x, f, guess, kw, a * 1.01, 5.0) is None, 'weak peaks are rejected')
    ctx.true(fu.fit_ring(x, f, guess, kw, a * 0.99, 5.0) is not None, 'peaks above the cut-off are kept')
    err = (100 * abs(got[:, 0] / guess - 1)).max()
    if err > 1e-3:
        ctx.true(fu.fit_ring(x, f, guess, kw, 0.0, err * 0.98) is None, 'peaks that moved too far are rejected')
        ctx.true(fu.fit_ring(x, f, guess, kw, 0.0, err * 1.02) is not None, 'peaks within the tolerance are kept')


@sub('C23', 'backgrounds_and_constraints', st.fixed_dictionaries(dict(c=st.lists(S.num(-5, 5), min_size=6, max_size=6), lo=S.num(-5, 20), span=S.num(0.5, 10), npts=st.integers(5, 60), cens=st.lists(S.num(1, 9), min_size=1, max_size=5, unique=True),
     box=S.num(0.1, 5), pct=st.booleans(), sep=S.num(0.001, 0.05), seed=S.seeds, names=st.sampled_from(['amp', 'cen', 'fwhm', 'pk1_', 'mixing_l']))), n=250, rule='several peaks')
def backgrounds(c, ctx):
    x = np.linspace(c['lo'], c['lo'] + c['span'], c['npts'])
    for i, b in enumerate(BG):
        f = getattr(spm, b + '_bkg')
        if i == 0:
            ctx.equal(f(x, c['c'][0]), c['c'][0], 'constant')
        else:
            ctx.close(f(x, *c['c'][:i + 1]), cheb(c['c'][:i + 1], x), 1e-6, 0, f'{b} Chebyshev background')
            ctx.close(spm.chebyshev_bkg(x, *c['c'][:i + 1]), cheb(c['c'][:i + 1], x), 1e-6, 0, 'Chebyshev background')
    m = len(c['cens'])
    ctx.nt(m > 1)
    P = lambda: _mk(c['cens'])
    pr = P()
    tgt = [n for n in pr if c['names'] in n]
    if tgt:
        fu._set_refinement_by_name(pr, c['names'], vary=False)
        ctx.equal([n for n in pr if not pr[n].vary], tgt, 'only the named parameters are fixed')
        pr = P()
        fu._set_equality_constraints(pr, c['names'])
        ctx.equal([n for n in pr if pr[n].expr], tgt[1:], 'later parameters tied to the first')
        pr[tgt[0]].value = 0.625
        ctx.close([pr[n].value for n in tgt], [0.625] * len(tgt), 1e-12, 0, 'tied values follow')
        pr = P()
        fu._set_bound_constraints(pr, c['names'], box=c['box'], percentage=c['pct'])
        for n in pr:
            v = pr[n].value
            h = c['box'] / 2 * (abs(v) / 100 if c['pct'] else 1)
            ctx.close([pr[n].min, pr[n].max], [v - h, v + h] if n in tgt else [-np.inf, np.inf], 1e-12, 1e-12, 'bounds')
    pr = P()
    srt = np.sort(c['cens'])
    close = m > 1 and np.diff(srt).min() < c['sep'] * 0.999
    if m > 1 and not close and np.diff(srt).min() < c['sep'] * 1.5:
        raise Skip('borderline separation')
    if close:
        try:
            fu._set_peak_center_bounds(pr, (0.0, 10.0), min_sep=c['sep'])
            # peaks closer than the separation must not pass unless merging leaves them apart
            raise AssertionError('peaks closer than the minimum separation accepted')
        except RuntimeError:
            ctx.label('too close')
            return
    fu._set_peak_center_bounds(pr, (0.0, 10.0), min_sep=c['sep'])
    ctx.close([pr['pk%d_cen' % i].value for i in range(m)], c['cens'], 1e-9, 0, 'positions unchanged by the constraints')
    if m > 1:
        o = np.argsort(c['cens'])
        first = 'pk%d_cen' % o[0]
        pr[first].value = pr[first].value + 0.25
        pr.update_constraints()
        ctx.close([pr['pk%d_cen' % i].value for i in range(m)], np.minimum(np.array(c['cens']) + 0.25, 10 - c['sep']), 1e-9, 0, 'later peaks follow the first')
        sepn = [n for n in pr if n.startswith('pksep')]
        ctx.equal(len(sepn), m - 1, 'one separation per neighbouring pair')
        for n in sepn:
            ctx.close([pr[n].min, pr[n].max], [c['sep'], 10.0], 1e-12, 0, 'separation bounds')
        pr[sepn[0]].value = 0.0
        pr.update_constraints()
        ctx.true(np.diff(np.sort([pr['pk%d_cen' % i].value for i in range(m)])).min() >= c['sep'] * 0.999999 - 1e-12, 'separations never fall below the minimum')


def _mk(cens):
    p = lmfit.Parameters()
    for i, v in enumerate(cens):
        p.add('pk%d_amp' % i, value=3.0 + i)
        p.add('pk%d_cen' % i, value=float(v))
        p.add('pk%d_fwhm' % i, value=0.2)
        p.add('pk%d_mixing_l' % i, value=0.4)
    return p
