"""C24: convolution with missing data, SNIP backgrounds and spot finding in maps."""
import itertools
import warnings

import numpy as np
import scipy.ndimage as ndi
from hypothesis import strategies as st

from hexrd.core import imageutil as iu
from hexrd.core.convolution import convolve
from pbt.core import sub, Skip
from pbt import strat as S

conv_st = st.fixed_dictionaries(dict(shape=st.lists(st.integers(1, 12), min_size=1, max_size=3), k=st.lists(st.sampled_from([1, 3, 5, 7]), min_size=3, max_size=3), boundary=st.sampled_from([None, 'fill', 'wrap', 'extend', 'fill']),
                                     fv=S.num(-3, 3), nan=st.sampled_from(['interpolate', 'fill']), norm=st.booleans(), preserve=st.booleans(), p=st.sampled_from([0.0, 0.0, 0.2, 0.6]), pm=st.sampled_from([None, 0.2, 0.7]),
                                     neg=st.booleans(), dt=st.sampled_from(['f8', 'f4', 'i4', 'u2', 'list']), order=st.sampled_from(['C', 'F', 'slice']), seed=S.seeds, kz=st.booleans()))


@sub('C24', 'convolution', conv_st, n=500, rule='missing pixels and a kernel that is not symmetric')
def convolution(c, ctx):
    r = S.rng(c['seed'])
    nd = len(c['shape'])
    shp = tuple(c['shape'])
    ks = tuple(c['k'][:nd])
    if c['boundary'] is None:
        shp = tuple(max(s, k) for s, k in zip(shp, ks))
    a = r.integers(0, 50, shp).astype(float)
    floats = c['dt'] in ('f8', 'f4')
    if floats and c['p']:
        a[r.random(shp) < c['p']] = np.nan
    arr = a.astype(c['dt']) if c['dt'] != 'list' else a.tolist()
    if c['dt'] != 'list':
        if c['order'] == 'F':
            arr = np.asfortranarray(arr)
        elif c['order'] == 'slice':
            big = np.zeros(tuple(2 * s for s in shp), arr.dtype); sl = tuple(slice(0, None, 2) for _ in shp)
            big[sl] = arr; arr = big[sl]
    mask = None if c['pm'] is None else r.random(shp) < c['pm']
    ker = r.integers(1, 9, ks).astype(float) if not c['kz'] else np.where(r.random(ks) < 0.5, 0.0, r.integers(1, 9, ks))
    if c['neg'] and ker.size > 3:
        ker.flat[0] = -0.5
    if ker.sum() < 0.5:
        ker.flat[-1] += 2
    miss = np.isnan(a) | (mask if mask is not None else False)
    ctx.label(nd, 'b:%s' % c['boundary'], c['nan'], c['dt'])
    ctx.nt(bool(miss.any()) and not np.array_equal(ker, ker[tuple(slice(None, None, -1) for _ in ks)]))
    keep = np.array(arr, copy=True); kk = ker.copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = convolve(arr, ker, boundary=c['boundary'], fill_value=c['fv'], nan_treatment=c['nan'], normalize_kernel=c['norm'], mask=mask, preserve_nan=c['preserve'])
    v = np.where(miss, np.nan if c['nan'] == 'interpolate' else c['fv'], a)
    gap = np.isnan(v).any()
    h = [k // 2 for k in ks]
    idx = [np.arange(-hh, s + hh) for hh, s in zip(h, shp)]
    if c['boundary'] == 'wrap':
        pad = v[np.ix_(*[i % s for i, s in zip(idx, shp)])]
    elif c['boundary'] == 'extend':
        pad = v[np.ix_(*[np.clip(i, 0, s - 1) for i, s in zip(idx, shp)])]
    else:
        pad = np.full([len(i) for i in idx], c['fv'])
        pad[tuple(slice(hh, hh + s) for hh, s in zip(h, shp))] = v
    ok = ~np.isnan(pad)
    z = np.where(ok, pad, 0)
    top = np.zeros(shp); bot = np.zeros(shp)
    for off in itertools.product(*[range(k) for k in ks]):
        w = ker[tuple(k - 1 - o for k, o in zip(ks, off))]
        sl = tuple(slice(o, o + s) for o, s in zip(off, shp))
        top += w * z[sl]; bot += w * ok[sl]
    with np.errstate(all='ignore'):
        # without usable weight the pixel keeps its value
        want = np.where(bot == 0, v, top / bot) * (1 if c['norm'] else ker.sum()) if gap else top / (ker.sum() if c['norm'] else 1)
    if gap and (abs(bot[bot != 0]) < 0.4).any():
        raise Skip('nearly cancelling weights')
    if c['boundary'] is None:
        inner = np.zeros(shp, bool); inner[tuple(slice(hh, s - hh) for hh, s in zip(h, shp))] = True
        want = np.where(inner, want, 0.0)
    if c['preserve']:
        want = np.where(miss, np.nan, want)
    ctx.equal(got.dtype, np.dtype(c['dt'] if floats else 'f8'), 'result dtype')
    ctx.close(got.astype(float), want, 1e-9 if c['dt'] != 'f4' else 2e-2, 1e-5 if c['dt'] == 'f4' else 1e-10, 'convolution', nan=True)
    ctx.array_equal(np.array(arr), keep, 'array untouched')
    ctx.array_equal(ker, kk, 'kernel untouched')
    if ks[0] > 1:
        ctx.raises(ValueError, lambda: convolve(a, np.ones((2,) + ks[1:]), boundary='fill'))
        ctx.raises(ValueError, lambda: convolve(a, ker, boundary='mirror'))
        ctx.raises(ValueError, lambda: convolve(a, np.zeros(ks), boundary='fill', normalize_kernel=True))
        ctx.raises(ValueError, lambda: convolve(a, ker[None], boundary='fill') if nd < 3 else convolve(a, ker[0], boundary='fill'))
    if c['norm'] and not c['neg'] and not gap and c['boundary'] in ('wrap', 'extend'):
        ctx.true(not (np.any(got < v.min() - 1e-3) or np.any(got > v.max() + 1e-3)), 'a normalised average stays within the data')


def sc(y, off):
    return np.log(np.log(np.sqrt(y - off) + 1) + 1)


def unsc(z, off):
    return (np.exp(np.exp(z) - 1) - 1) ** 2 + off


def ref_snip1d(y, w, numiter, thr):
    off = np.nanmin(y)
    out = np.empty_like(y)
    for k in range(len(y)):
        m = np.zeros(y.shape[1], bool) if thr is None else y[k] <= thr
        if m.all():
            out[k] = thr
            continue
        z = np.where(m, np.nan, sc(y[k], off))
        n = len(z)
        full = sc(y[k], off)
        b = full
        for it in range(numiter):
            for p in range(w, 0, -1):
                zz = np.where(m, np.nan, z)
                l = zz[np.clip(np.arange(n) - p, 0, n - 1)]; r = zz[np.clip(np.arange(n) + p, 0, n - 1)]
                both = np.where(np.isnan(l), r, np.where(np.isnan(r), l, (l + r) / 2))
                both = np.where(np.isnan(both), zz, both)
                both[m] = np.nan
                b = np.minimum(b, both)
            z = b
        o = unsc(b, off)
        o[np.isnan(o)] = np.nan if thr is None else thr
        out[k] = o
    return out


snip_st = st.fixed_dictionaries(dict(rows=st.integers(1, 5), n=st.integers(5, 60), w=st.integers(1, 12), it=st.integers(1, 4), thr=st.sampled_from([None, None, 0.0, 3.0]), dead=st.booleans(), off=st.sampled_from([0.0, 5.0, -20.0, 1000.0]), scale=st.sampled_from([1.0, 100.0]),
                                     npk=st.integers(0, 4), seed=S.seeds, kind=st.sampled_from(['const', 'peaks', 'noise'])))


@sub('C24', 'snip', snip_st, n=250, rule='peaks on a background, or masked pixels')
def snip(c, ctx):
    r = S.rng(c['seed'])
    x = np.arange(c['n'])
    y = np.tile(10 + 3 * np.sin(x / c['n'] * 3), (c['rows'], 1)) if c['kind'] != 'const' else np.full((c['rows'], c['n']), 7.0)
    if c['kind'] == 'peaks':
        for i in range(c['rows']):
            for _ in range(c['npk']):
                y[i] += r.uniform(5, 200) * np.exp(-0.5 * ((x - r.uniform(0, c['n'])) / r.uniform(0.5, 3)) ** 2)
    if c['kind'] == 'noise':
        y = y + r.uniform(0, 5, y.shape)
    y = y * c['scale'] + c['off']
    thr = c['thr']
    if thr is not None:
        y = np.where(r.random(y.shape) < 0.2, thr - r.integers(0, 3, y.shape), np.maximum(y, thr + 1.0))
        if c['dead']:
            y[0] = thr
    ctx.label(c['kind'], 'thr:%s' % thr, c['w'], c['it'])
    ctx.nt(c['kind'] == 'peaks' and c['npk'] > 0 or thr is not None)
    keep = y.copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = iu.snip1d(y, w=c['w'], numiter=c['it'], threshold=thr, max_workers=1)
    ctx.array_equal(y, keep, 'spectrum untouched')
    tol = 1e-9 * (1 + abs(y).max()) * 100
    ctx.close(got, ref_snip1d(y, c['w'], c['it'], thr), tol, 1e-9, 'SNIP background')
    if thr is None:
        ctx.true(np.all(got <= y + tol) and np.all(got >= y.min() - tol), 'between the minimum and the data')
        ctx.close(iu.snip1d(y + 12.5, w=c['w'], numiter=c['it'], max_workers=1), got + 12.5, tol, 1e-9, 'follows an offset')
        ctx.close(iu.snip1d(y[:, ::-1].copy(), w=c['w'], numiter=c['it'], max_workers=1)[:, ::-1], got, tol, 1e-9, 'the same for the mirrored spectrum')
        one = np.vstack([iu.snip1d(np.vstack([row, np.full_like(row, y.min())]), w=c['w'], numiter=c['it'], max_workers=1)[0] for row in y])
        ctx.close(one, got, tol, 1e-9, 'rows are independent')
        off = y.min()
        z = sc(y, off); b = z
        for it in range(c['it']):
            for p in range(c['w'], 1, -2):
                n = c['n']
                idx = lambda d: np.clip(np.arange(n) + d, 0, n - 1)
                lin = (z[:, idx(-p)] + z[:, idx(p)]) / 2
                lo, hi = int(p / 2.0) - p, int(3.0 * p / 2.0) - p
                # kernel entries -1/6 at +-p and 4/6 at the two inner offsets
                quad = -(z[:, idx(-p)] + z[:, idx(p)]) / 6 + (z[:, idx(-lo)] + z[:, idx(-hi)]) * 4 / 6
                b = np.minimum(b, np.maximum(lin, quad))
            z = b
        ctx.close(iu.snip1d_quad(y, w=c['w'], numiter=c['it']), unsc(b, off), tol, 1e-9, 'quadratic SNIP')
        z = sc(y, off); out = []
        for row in z:
            zz = b = row
            for it in range(c['it']):
                for p in range(c['w'], 0, -1):
                    l = np.zeros(len(row)); q = np.zeros(len(row))
                    if p < len(row):
                        l[p:] = zz[:-p]; q[:-p] = zz[p:]
                    if 2 * p + 1 > len(row):
                        break
                    b = np.minimum(b, (l + q) / 2)
                else:
                    zz = b
                    continue
                break
            out.append(b)
        if 2 * c['w'] + 1 <= c['n']:
            ctx.close(iu.fast_snip1d(y, w=c['w'], numiter=c['it']), unsc(np.array(out), off), tol, 1e-9, 'fast SNIP with zero padding')
    ctx.array_equal(y, keep, 'spectrum untouched')


@sub('C24', 'snip_2d', st.fixed_dictionaries(dict(shape=st.tuples(st.integers(6, 24), st.integers(6, 24)), w=st.integers(1, 4), it=st.integers(1, 2), order=st.sampled_from([1, 2]), npk=st.integers(0, 4), seed=S.seeds, off=st.sampled_from([0.0, 50.0]))), n=120, rule='peaks')
def snip_2d(c, ctx):
    r = S.rng(c['seed'])
    Y, X = np.indices(tuple(c['shape']))
    y = 10 + 0.1 * X + 0.05 * Y + c['off']
    for _ in range(c['npk']):
        y = y + r.uniform(10, 300) * np.exp(-0.5 * (((X - r.uniform(0, c['shape'][1])) / r.uniform(0.6, 2)) ** 2 + ((Y - r.uniform(0, c['shape'][0])) / r.uniform(0.6, 2)) ** 2))
    ctx.nt(c['npk'] > 0)
    keep = y.copy()
    got = iu.snip2d(y, w=c['w'], numiter=c['it'], order=c['order'])
    off = y.min(); z = b = sc(y, off)
    ring = lambda z, rad, big: (lambda o: sum(ndi.shift(z, (-dy, -dx), order=0, mode='nearest') for dy, dx in o) / len(o))([(dy, dx) for dy in range(-big, big + 1) for dx in range(-big, big + 1) if round(float(np.hypot(dx, dy))) == rad])
    for it in range(c['it']):
        for p in range(c['w'], 0, -1):
            R = p * c['order']
            q = ring(z, R, R)
            if c['order'] == 2:
                p2 = R // 2
                q = np.fmax(q, 4 / 3 * ring(z, p2, R) - 1 / 3 * ring(z, 2 * p2, R))
            b = np.fmin(b, q)
        z = b
    ctx.close(got, unsc(b, off), 1e-7 * y.max(), 1e-8, 'two-dimensional SNIP')
    ctx.true(np.all(got <= y * (1 + 1e-9)), 'never above the data')
    ctx.close(iu.snip2d(y.T.copy(), w=c['w'], numiter=c['it'], order=c['order']).T, got, 1e-7 * y.max(), 1e-8, 'the same for the transposed image')
    ctx.close(iu.snip2d(y + 8, w=c['w'], numiter=c['it'], order=c['order']), got + 8, 1e-7 * y.max(), 1e-8, 'follows an offset')
    ctx.array_equal(y, keep, 'image untouched')


@sub('C24', 'spot_search', st.fixed_dictionaries(dict(shape=st.tuples(st.integers(12, 40), st.integers(12, 40)), thr=S.num(0, 20), filt=st.sampled_from([0, 0, 1.5, 3]), spots=st.lists(st.tuples(S.num(0, 1), S.num(0, 1), S.num(30, 200)), max_size=8), seed=S.seeds, log=st.sampled_from(['blob_log', 'blob_dog']))), n=150, rule='several spots')
def spot_search(c, ctx):
    H, W = c['shape']
    Y, X = np.indices((H, W))
    img = np.zeros((H, W))
    for fy, fx, a in c['spots']:
        img += a * np.exp(-0.5 * (((X - 2 - fx * (W - 5)) / 1.1) ** 2 + ((Y - 2 - fy * (H - 5)) / 1.3) ** 2))
    img = np.round(img, 3)
    ctx.nt(len(c['spots']) > 1)
    keep = img.copy()
    ref = img if not c['filt'] else -ndi.gaussian_laplace(img, c['filt'] / 2.3548200450309493)
    b = ref > c['thr'] + 1e-7
    if (abs(ref - c['thr']) < 1e-6).any() and c['thr'] > 0:
        raise Skip('borderline')
    if c['thr'] == 0 and c['filt']:
        raise Skip('rounding noise decides')
    if not b.any():
        return
    # flood fill with edge neighbours
    lab = -np.ones((H, W), int); cents = []
    for i in range(H):
        for j in range(W):
            if b[i, j] and lab[i, j] < 0:
                st_, comp = [(i, j)], []
                lab[i, j] = len(cents)
                while st_:
                    p, q = st_.pop(); comp.append((p, q))
                    for d, e in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                        if 0 <= p + d < H and 0 <= q + e < W and b[p + d, q + e] and lab[p + d, q + e] < 0:
                            lab[p + d, q + e] = len(cents); st_.append((p + d, q + e))
                comp = np.array(comp); w = ref[comp[:, 0], comp[:, 1]]
                cents.append((comp * w[:, None]).sum(0) / w.sum())
    n, com = iu.find_peaks_2d(img, 'label', dict(filter_radius=c['filt'], threshold=c['thr']))
    ctx.equal(n, len(cents), 'number of spots')
    ctx.close(com, np.array(cents), 1e-6, 0, 'centres of mass, in reading order')
    ctx.array_equal(img, keep, 'image untouched')
    if c['spots']:
        kw = dict(min_sigma=0.5, max_sigma=4, threshold=0.05, overlap=0.1)
        kw.update(dict(num_sigma=8) if c['log'] == 'blob_log' else dict(sigma_ratio=1.6))
        n, com = iu.find_peaks_2d(img, c['log'], kw)
        ctx.shape(com, (n, 2))
        # isolated strong spots are found near their positions
        P = np.array([[2 + fy * (H - 5), 2 + fx * (W - 5)] for fy, fx, a in c['spots']])
        A = np.array([a for *_, a in c['spots']])
        for k in range(len(P)):
            d = np.delete(np.hypot(*(P - P[k]).T), k)
            if A[k] > 0.6 * A.max() and (len(d) == 0 or d.min() > 9) and 4 < P[k][0] < H - 5 and 4 < P[k][1] < W - 5 and n:
                ctx.true(np.hypot(*(com - P[k]).T).min() < 1.5, 'an isolated strong spot is found at its position')
