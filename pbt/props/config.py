"""C31: configuration files, serialization of values, caching and distribution of work."""
import copy
import json
import math
import os
import tempfile
from pathlib import Path
from types import SimpleNamespace as NS

import h5py
import numpy as np
import yaml
from hypothesis import strategies as st

from hexrd.core import config as core_config
from hexrd.core import imageseries
from hexrd.core.config.dumper import NumPyIncludeDumper
from hexrd.core.config.loader import NumPyIncludeLoader
from hexrd.core.config.root import RootConfig
from hexrd.core.config.utils import merge_dicts
from hexrd.core.utils import hdf5 as uh5
from hexrd.core.utils.concurrent import distribute_tasks
from hexrd.core.utils.decorators import memoize
from hexrd.core.utils.hkl import hkl_to_str, str_to_hkl
from hexrd.core.utils.json import NumpyDecoder, NumpyEncoder, NumpyToNativeEncoder
from hexrd.core.utils.panel_buffer import panel_buffer_as_2d_array
from hexrd.core.utils.yaml import NumpyToNativeDumper
from hexrd.hedm import config as hedm_config
from pbt.core import sub, Skip
from pbt import strat as S

# ------------------------------------------------------------------ sections
KEYS = ['a', 'b', 'c', 'd']
leaf = st.one_of(st.none(), st.integers(-5, 5), st.booleans(), S.num(-3, 3), st.sampled_from(['x', 'some text', '', '1e3', 'null', 'yes', '0o7', ' lead', 'a: b', '# no']), st.lists(st.integers(-3, 3), max_size=3))


def scheme(depth):
    """The same key is always a block or always a value, as in a configuration file."""
    return st.dictionaries(st.sampled_from(KEYS[:2]), st.one_of(st.none(), st.deferred(lambda: scheme(depth - 1))) if depth else leaf, max_size=2).flatmap(
        lambda d: st.dictionaries(st.sampled_from(KEYS[2:]), leaf, max_size=2).map(lambda e: {**d, **e}))


def merged(a, b):
    out = dict(a)
    for k, v in b.items():
        if isinstance(v, dict):
            out[k] = merged(a.get(k) or {}, v)
        elif v is None and a.get(k) is not None:
            pass
        else:
            out[k] = v
    return out


def paths(d, pre=()):
    for k, v in d.items():
        yield pre + (k,), v
        if isinstance(v, dict):
            yield from paths(v, pre + (k,))


@sub('C31', 'sections', st.fixed_dictionaries(dict(docs=st.lists(st.one_of(st.none(), scheme(2)), min_size=1, max_size=5), sets=st.lists(st.tuples(st.sampled_from(['c', 'd', 'a:c', 'a:b:c', 'b:a:d', 'b:d', 'a:a:d']), leaf), max_size=6), which=st.integers(0, 4), core=st.booleans())), n=300,
     rule='several sections')
def sections(case, ctx):
    docs = case['docs']
    mod = core_config if case['core'] else hedm_config
    ctx.nt(len(docs) > 1)
    cum, want = {}, []
    for d in docs:
        cum = merged(cum, d or {})
        want.append(copy.deepcopy(cum))
    first = dict(docs[0] or {})
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, 'c.yml')
        with open(f, 'w') as o:
            yaml.safe_dump_all(docs, o)
        cfgs = mod.open(f)
        ctx.equal(len(cfgs), len(docs), 'one configuration per section')
        for c, w in zip(cfgs, want):
            ctx.equal(c._cfg, w, 'each section inherits from the one before')
            for p, v in paths(w):
                ctx.equal(c.get(':'.join(p)), v, 'value'); ctx.equal(c.get(':'.join(p), 'dflt'), v, 'value, not the default')
            for k in ('nope', 'a:nope', 'zz:nope:b'):
                ctx.equal(c.get(k, 17), 17, 'default'); ctx.equal(c.get(k, None), None, 'default'); ctx.raises(RuntimeError, lambda: c.get(k), 'a value that has to be given')
        i = case['which'] % len(docs)
        m = want[i]
        c = cfgs[i]
        ctx.equal(c.dirty, False, 'nothing has been changed')
        changed = False
        for k, v in case['sets']:
            ks = k.split(':')
            node = m
            for q in ks[:-1]:
                if node.get(q) is None:
                    node[q] = {}
                node = node[q]
            changed |= ks[-1] not in node or node[ks[-1]] != v
            if not (ks[-1] in node and node[ks[-1]] == v):
                node[ks[-1]] = v
            c.set(k, v)
            ctx.equal(c.get(k), node[ks[-1]], 'value that was set')
            ctx.equal(c.dirty, changed, 'change noticed')
        for j, (o, w) in enumerate(zip(cfgs, want)):
            for p, v in paths(w):
                ctx.equal(o.get(':'.join(p)), v, 'other sections are left alone' if j != i else 'other values are left alone')
        g = os.path.join(t, 'd.yml')
        mod.save(cfgs, g)
        back = mod.open(g)
        cum = {}
        ctx.equal(len(back), len(cfgs), 'sections saved and read')
        for o, b in zip(cfgs, back):
            cum = merged(cum, o._cfg)
            ctx.equal(b._cfg, cum, 'section saved and read')
        c.dump(g)
        ctx.equal(mod.open(g)[0]._cfg, c._cfg, 'single section saved and read'); ctx.equal(c.dirty, False, 'saved')
        a0, b0 = copy.deepcopy(want[0]), copy.deepcopy(want[-1])
        ctx.equal(merge_dicts(a0, b0), merged(want[0], want[-1]), 'merged'); ctx.equal(a0, want[0], 'the merged ones are unchanged'); ctx.equal(b0, want[-1], 'the merged ones are unchanged')
        ctx.raises(ValueError, lambda: mod.open(os.path.join(t, 'nope.yml')))
    ctx.equal([type(c).__name__ for c in mod.open()], ['RootConfig'], 'empty configuration')


name_st = st.sampled_from(['run1', 'a b', ' x y ', 'some/dir/run', 'r-2'])


def opt(s):
    return st.one_of(st.just('absent'), s)


num2 = st.one_of(st.integers(1, 5), S.num(0.1, 3), st.lists(S.num(0.1, 3), min_size=2, max_size=2))
ROOT = dict(analysis_name=name_st, new_file_placement=st.booleans(), multiprocessing=st.one_of(st.integers(-12, 20), st.sampled_from(['all', 'half', 'foo'])), wdir=st.booleans())
FO = {'threshold': st.integers(0, 5), 'extract_measured_g_vectors': st.booleans(), 'orientation_maps:active_hkls': st.one_of(st.integers(0, 3), st.lists(st.integers(0, 5), min_size=1, max_size=3), st.just('all'), st.none()),
      'orientation_maps:bin_frames': st.integers(1, 4), 'orientation_maps:eta_step': S.num(0.1, 1), 'orientation_maps:file': st.one_of(st.none(), st.sampled_from(['m.npz', 'x/m.npz', '/abs/m.npz'])), 'orientation_maps:threshold': st.integers(0, 9),
      'orientation_maps:filter_maps': st.booleans(), 'eta:tolerance': S.num(0.1, 3), 'eta:mask': st.one_of(st.none(), S.num(0, 20)), 'omega:tolerance': S.num(0.1, 3), 'omega:period': st.sampled_from([[0, 360], [-180, 180], [60, -300], [0, 180]]),
      'clustering:algorithm': st.sampled_from(['dbscan', 'DBSCAN', 'sph-dbscan', 'ort-dbscan', 'fclusterdata', 'foo']), 'clustering:completeness': S.num(0, 1), 'clustering:radius': S.num(0.1, 3), 'seed_search:hkl_seeds': st.one_of(st.integers(0, 3), st.lists(st.integers(0, 5), max_size=3)),
      'seed_search:fiber_step': S.num(0.1, 3), 'use_quaternion_grid': st.sampled_from(['there.npy', 'missing.npy'])}
FG = {'do_fit': st.booleans(), 'estimate': st.sampled_from(['there.npy', 'missing.npy']), 'npdiv': st.integers(1, 5), 'threshold': st.integers(0, 50), 'tolerance:tth': num2, 'tolerance:eta': num2, 'tolerance:omega': num2, 'refit': st.one_of(num2, st.just('foo')),
      'skip_on_estimate': st.one_of(st.booleans(), st.just('foo')), 'fit_only': st.one_of(st.booleans(), st.just('foo')), 'tth_max': st.one_of(st.booleans(), S.num(-5, 20)), 'reset_exclusions': st.booleans(), 'sfacmin': S.num(0, 1), 'dmin': S.num(0.5, 2), 'min_sfac_ratio': S.num(0, 1)}


@sub('C31', 'settings', st.fixed_dictionaries(dict(root=st.fixed_dictionaries({k: opt(v) for k, v in ROOT.items()}), fo=st.fixed_dictionaries({k: opt(v) for k, v in FO.items()}), fg=st.fixed_dictionaries({k: opt(v) for k, v in FG.items()}), mat=st.sampled_from(['Ni', ' al 6061 ', 'CeO2']))), n=400,
     rule='ten settings given')
def settings(case, ctx):
    import multiprocessing as mp
    with tempfile.TemporaryDirectory() as t:
        Path(t, 'there.npy').write_bytes(b'')
        c = {'material': {'active': case['mat'], 'definitions': 'there.npy'}}
        def put(key, v):
            ks = key.split(':'); n = c
            for q in ks[:-1]:
                n = n.setdefault(q, {})
            n[ks[-1]] = v
        given = 0
        for pre, d in (('find_orientations:', case['fo']), ('fit_grains:', case['fg'])):
            for k, v in d.items():
                if v != 'absent':
                    put(pre + k, v); given += 1
        for k, v in case['root'].items():
            if v != 'absent' and k != 'wdir':
                put(k, v)
        R = case['root']
        if R['wdir'] is True:
            put('working_dir', t)
        ctx.nt(given > 10)
        w = Path(t) if R['wdir'] is True else Path.cwd()
        cfg = RootConfig(c)
        ex = lambda d, k, dflt: dflt if d[k] == 'absent' else d[k]
        name = ex(R, 'analysis_name', 'analysis')
        new = ex(R, 'new_file_placement', False)
        ctx.equal(cfg.working_dir, w, 'working directory'); ctx.equal(cfg.analysis_name, name, 'name'); ctx.equal(cfg.analysis_dir, w / name, 'directory of the analysis')
        m = case['mat'].strip().replace(' ', '-')
        aid = name.strip().replace(' ', '-') + '_' + m
        ctx.equal(cfg.analysis_id, aid, 'id')
        nc = mp.cpu_count()
        mpv = ex(R, 'multiprocessing', -1)
        wantmp = nc if mpv == 'all' else max(nc // 2, 1) if mpv == 'half' else nc - 1 if isinstance(mpv, str) else min(max(mpv, 1), nc) if mpv >= 0 else max(nc + mpv, 1)
        ctx.equal(cfg.multiprocessing, wantmp, 'number of processes')
        f, g = cfg.find_orientations, cfg.fit_grains
        ad = w / name
        o = f.orientation_maps
        F = case['fo']
        pick = lambda a, b: a if new else b
        ctx.equal(f.logfile, pick(ad / f'find-orientations-{m}.log', w / f'find-orientations_{aid}.log'), 'log')
        ctx.equal(f.accepted_orientations_file, pick(ad / f'accepted-orientations-{m}.dat', w / f'accepted_orientations_{aid}.dat'), 'accepted orientations')
        ctx.equal(Path(f.grains_file), ad / 'grains.out', 'grains'); ctx.equal(Path(g.grains_file), ad / 'grains.out', 'grains'); ctx.equal(Path(g.logfile), ad / 'fit-grains.log', 'log')
        ctx.equal(Path(o.scored_orientations_file), pick(ad / f'scored-orientations-{m}.npz', w / f'scored_orientations_{aid}'), 'scored orientations')
        mf = ex(F, 'orientation_maps:file', None)
        ctx.equal(Path(o.file), (Path(mf) if mf.startswith('/') else w / mf) if mf else pick(ad / f'eta-ome-maps-{m}.npz', w / f'{aid}_eta-ome_maps.npz'), 'maps')
        ah = ex(F, 'orientation_maps:active_hkls', 'all')
        ctx.equal(o.active_hkls, None if ah in ('all', None) else [ah] if isinstance(ah, int) else ah, 'hkls')
        for k, v, d in (('bin_frames', o.bin_frames, 1), ('eta_step', o.eta_step, 0.25), ('filter_maps', o.filter_maps, False)):
            ctx.equal(v, ex(F, 'orientation_maps:' + k, d), k)
        need = lambda get, d, k: ctx.raises(RuntimeError, get, k) if d[k] == 'absent' else ctx.equal(get(), d[k], k)
        need(lambda: o.threshold, F, 'orientation_maps:threshold')
        ctx.equal([f.threshold, f.extract_measured_g_vectors, f.eta.tolerance, f.omega.tolerance], [ex(F, 'threshold', 1), ex(F, 'extract_measured_g_vectors', False), ex(F, 'eta:tolerance', 0.5), ex(F, 'omega:tolerance', 0.5)], 'settings')
        mk = ex(F, 'eta:mask', 5)
        ctx.equal(f.eta.mask, mk, 'mask')
        if mk is None:
            ctx.equal(f.eta.range, None, 'no mask')
        else:
            ctx.close(f.eta.range, [[-90 + mk, 90 - mk], [90 + mk, 270 - mk]], 1e-12, 0, 'azimuths beside the rotation axis')
        per = ex(F, 'omega:period', [-180, 180])
        if abs(per[1] - per[0]) == 360:
            ctx.equal(list(f.omega.period), per, 'period')
        else:
            ctx.raises(RuntimeError, lambda: f.omega.period, 'period')
        al = ex(F, 'clustering:algorithm', 'dbscan').lower()
        if al == 'foo':
            ctx.raises(RuntimeError, lambda: f.clustering.algorithm, 'algorithm')
        else:
            ctx.equal(f.clustering.algorithm, al, 'algorithm')
        need(lambda: f.clustering.completeness, F, 'clustering:completeness'); need(lambda: f.clustering.radius, F, 'clustering:radius')
        fs = ex(F, 'seed_search:fiber_step', f.omega.tolerance)
        ctx.equal(f.seed_search.fiber_step, fs, 'fiber step'); ctx.equal(f.seed_search.fiber_ndiv, int(360.0 / fs), 'points of a fiber')
        qg = ex(F, 'use_quaternion_grid', None)
        there = R['wdir'] is True
        if qg is None:
            ctx.equal(f.use_quaternion_grid, None, 'no grid')
        elif qg == 'there.npy' and there:
            ctx.equal(Path(f.use_quaternion_grid), w / qg, 'grid')
        else:
            ctx.raises(IOError, lambda: f.use_quaternion_grid, 'missing grid')
        hs = F['seed_search:hkl_seeds']
        if hs != 'absent':
            ctx.equal(f.seed_search.hkl_seeds, [hs] if isinstance(hs, int) else hs, 'seeds')
        elif qg is None:
            ctx.raises(RuntimeError, lambda: f.seed_search.hkl_seeds, 'seeds')
        G = case['fg']
        ctx.equal([g.do_fit, g.npdiv], [ex(G, 'do_fit', True), ex(G, 'npdiv', 2)], 'settings')
        need(lambda: g.threshold, G, 'threshold')
        pair = lambda v: [v, v] if isinstance(v, (int, float)) else v
        for k in ('tth', 'eta', 'omega'):
            v = G['tolerance:' + k]
            if v == 'absent':
                ctx.raises(RuntimeError, lambda: getattr(g.tolerance, k), k)
            else:
                ctx.equal(getattr(g.tolerance, k), pair(v), k)
        rf = ex(G, 'refit', None)
        if rf == 'foo':
            ctx.raises(RuntimeError, lambda: g.refit, 'refit')
        else:
            ctx.equal(g.refit, None if rf is None else pair(rf), 'refit')
        for k in ('skip_on_estimate', 'fit_only'):
            v = ex(G, k, False)
            if v == 'foo':
                ctx.raises(RuntimeError, lambda: getattr(g, k), k)
            else:
                ctx.equal(getattr(g, k), v, k)
        tm = ex(G, 'tth_max', True)
        if isinstance(tm, bool) or tm > 0:
            ctx.equal(g.tth_max, tm, 'largest angle')
        else:
            ctx.raises(RuntimeError, lambda: g.tth_max, 'largest angle')
        es = ex(G, 'estimate', None)
        ctx.equal(g.estimate if g.estimate is None else Path(g.estimate), w / es if es == 'there.npy' and there else None, 'estimate')
        ctx.equal(g.reset_exclusions, ex(G, 'reset_exclusions', True), 'exclusions')
        e = g.exclusion_parameters
        ctx.equal([e.dmin, e.dmax, e.sfacmin, e.sfacmax, e.tthmin, e.tthmax, e.pintmin, e.pintmax], [ex(G, 'dmin', None), None, ex(G, 'sfacmin', ex(G, 'min_sfac_ratio', None)), None, None, None, None, None], 'exclusions')
        # setters
        cfg.analysis_name = 'other'
        ctx.equal([cfg.analysis_name, cfg.dirty], ['other', True], 'name')
        cfg.working_dir = t
        ctx.equal(cfg.working_dir, Path(t), 'working directory')
        for v in ('all', 'half', -1, 0, 1, nc):
            cfg.multiprocessing = v
            ctx.equal(cfg.get('multiprocessing'), v, 'processes')
        for v in (-2, nc + 1, 'foo'):
            ctx.raises(RuntimeError, lambda: setattr(cfg, 'multiprocessing', v), 'processes')
        ctx.raises(IOError, lambda: setattr(cfg, 'working_dir', os.path.join(t, 'nope')), 'missing directory')
        cfg.dump(os.path.join(t, 'o.yml'))
        ctx.equal(hedm_config.open(os.path.join(t, 'o.yml'))[0]._cfg, cfg._cfg, 'configuration saved and read')


@sub('C31', 'images', st.fixed_dictionaries(dict(specs=st.lists(st.fixed_dictionaries(dict(panel=st.one_of(st.just('absent'), st.none(), st.sampled_from(['ge1', 'ge2', 'x']), st.lists(st.sampled_from(['p', 'q', 'r']), min_size=1, max_size=3)), meta=st.one_of(st.none(), st.sampled_from(['m1', 'm2'])), v=st.integers(1, 200))), min_size=1, max_size=4),
     absolute=st.booleans())), n=60, rule='several panels')
def images(case, ctx):
    with tempfile.TemporaryDirectory() as t:
        data, want = [], {}
        for i, s in enumerate(case['specs']):
            meta = dict(omega=np.array([[0.0, 1.0], [1.0, 2.0]]))
            if s['meta']:
                meta['panel'] = s['meta']
            ims = imageseries.open(None, 'array', data=np.full((2, 3, 4), s['v'], np.uint16), meta=meta)
            f = f'{i}.h5'
            imageseries.write(ims, os.path.join(t, f), 'hdf5', path='/x')
            d = dict(file=os.path.join(t, f) if case['absolute'] else f, args=dict(path='/x'))
            if s['panel'] != 'absent':
                d['panel'] = s['panel']
            data.append(d)
            key = s['panel'] if isinstance(s['panel'], str) and s['panel'] != 'absent' else '_'.join(s['panel']) if isinstance(s['panel'], list) else 'SHARED-IMAGES' if s['panel'] is None else (s['meta'] or 'SHARED-IMAGES')
            want[key] = s['v']
        ctx.nt(len(want) > 1)
        cfg = RootConfig(dict(working_dir=t, image_series=dict(format='hdf5', data=data)))
        from hexrd.core.constants import shared_ims_key
        want = {(shared_ims_key if k == 'SHARED-IMAGES' else k): v for k, v in want.items()}
        got = cfg.image_series
        ctx.equal(sorted(got), sorted(want), 'panels')
        for k, v in want.items():
            ctx.array_equal(np.asarray(got[k][1]), np.full((3, 4), v), 'image')
            ctx.close(got[k].omega, [[0, 1], [1, 2]], 1e-9, 0, 'rotations')
        ctx.true(cfg.image_series is got, 'opened once')
        bad = RootConfig(dict(working_dir=t, image_series=dict(format='hdf5', data=[dict(file='nope.h5', args=dict(path='/x'))])))
        ctx.raises(IOError, lambda: bad.image_series, 'missing images')


# ------------------------------------------------------------- serialization
DT = ['int8', 'uint8', 'int16', 'uint16', 'int32', 'int64', 'float16', 'float32', 'float64', 'complex64', 'complex128', 'bool', 'U5', 'S3', '>i4', '>f8']


def arr(spec):
    dt, shape, seed, order = spec
    r = S.rng(seed)
    n = int(np.prod(shape))
    d = np.dtype(dt)
    if d.kind == 'U':
        a = np.array([''.join(chr(c) for c in r.integers(97, 123, 3)) for _ in range(n)], dt)
    elif d.kind == 'S':
        a = np.array([bytes(r.integers(97, 123, 3).tolist()) for _ in range(n)], dt)
    elif d.kind == 'b':
        a = r.random(n) < 0.5
    elif d.kind in 'iu' and seed % 3 == 0:
        # bytes that look like text
        a = np.frombuffer((b'\\u0041\\u\\U0001f600"{}\n' * (n * d.itemsize))[:n * d.itemsize], d).copy()
    elif d.kind == 'c':
        a = (r.standard_normal(n) + 1j * r.standard_normal(n)).astype(d)
    elif d.kind == 'f':
        a = np.where(r.random(n) < 0.1, [np.nan, np.inf, -np.inf, -0.0][seed % 4], r.standard_normal(n) * 10.0 ** r.integers(-3, 3)).astype(d)
    else:
        a = r.integers(-100 if d.kind == 'i' else 0, 100, n).astype(d)
    a = a.reshape(shape)
    return np.asfortranarray(a) if order else a


arr_st = st.tuples(st.sampled_from(DT), st.lists(st.integers(0, 4), max_size=3), S.seeds, st.booleans())
jleaf = st.one_of(st.none(), st.integers(-10 ** 12, 10 ** 12), st.booleans(), S.num(-3, 3), st.text(max_size=8), st.just('!__hexrd_ndarray__'))
node_st = st.recursive(st.one_of(arr_st.map(lambda a: {'__arr__': a}), jleaf), lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.text(st.characters(min_codepoint=32, max_codepoint=1000), max_size=5).filter(lambda k: k not in ('__arr__', '!__hexrd_ndarray__')), c, max_size=3)), max_leaves=6)


def realize(x):
    if isinstance(x, dict):
        if '__arr__' in x:
            return arr(x['__arr__'])
        return {k: realize(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [realize(v) for v in x]
    return x


def same(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    return type(a) is type(b) and a == b


def native(a):
    if isinstance(a, np.ndarray):
        return a.tolist()
    if isinstance(a, dict):
        return {k: native(v) for k, v in a.items()}
    if isinstance(a, list):
        return [native(v) for v in a]
    return a


def eqn(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(eqn(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(eqn(p, q) for p, q in zip(a, b))
    if isinstance(a, float) and a != a:
        return isinstance(b, float) and b != b
    return type(a) is type(b) and a == b


@sub('C31', 'json_yaml', node_st.map(lambda v: dict(v=v)), n=500, rule='an array inside')
def json_yaml(case, ctx):
    v = realize(case['v'])
    txt = json.dumps(case['v'])
    ctx.nt('__arr__' in txt)
    try:
        s = json.dumps(v, cls=NumpyEncoder)
        s.encode('utf-8')
    except UnicodeEncodeError:
        raise Skip
    b = json.loads(s, cls=NumpyDecoder)
    ctx.true(same(v, b), 'written to JSON and read', got=repr(b)[:200], want=repr(v)[:200])
    if any(k in txt for k in ('complex', 'S3')):
        return
    n = native(v)
    ctx.true(eqn(n, json.loads(json.dumps(v, cls=NumpyToNativeEncoder))), 'plain JSON')
    ctx.true(eqn(n, json.loads(json.dumps([np.asarray(x)[()] if isinstance(x, (int, float)) and not isinstance(x, bool) and abs(x) < 2 ** 62 else x for x in (n if isinstance(n, list) else [n])], cls=NumpyToNativeEncoder)) if isinstance(n, list) else json.loads(json.dumps(n))), 'numbers of numpy')
    try:
        y = yaml.dump(v, Dumper=NumpyToNativeDumper, allow_unicode=True)
        yaml.safe_load(yaml.safe_dump(n, allow_unicode=True))
    except yaml.reader.ReaderError:
        raise Skip
    ctx.true(eqn(yaml.safe_load(yaml.safe_dump(n, allow_unicode=True)), yaml.safe_load(y)), 'plain YAML', got=repr(yaml.safe_load(y))[:200], want=repr(n)[:200])


key_st = st.sampled_from(['a', 'b', 'img', 'img.1', 'img.2', 'a.b', 'c d', 'x-1'])
inc_st = st.recursive(st.one_of(arr_st.filter(lambda a: a[0] not in ('S3',)).map(lambda a: {'__arr__': a}), st.integers(0, 9), st.sampled_from(['t', 'u'])), lambda c: st.one_of(st.lists(c, min_size=1, max_size=3), st.dictionaries(key_st, c, min_size=1, max_size=3)), max_leaves=8)


@sub('C31', 'include', st.dictionaries(key_st, inc_st, min_size=1, max_size=4).map(lambda v: dict(v=v)), n=250, rule='an array inside')
def include(case, ctx):
    v = realize(case['v'])
    ctx.nt(json.dumps(case['v']).count('__arr__') > 1)
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, 'sub.x.yml')
        with open(f, 'w') as o:
            yaml.dump(v, o, Dumper=NumPyIncludeDumper, sort_keys=False)
        with open(f) as o:
            b = yaml.load(o, Loader=NumPyIncludeLoader)
    ctx.true(same(v, b), 'arrays beside a YAML file', got=repr(b)[:200], want=repr(v)[:200])


h5leaf = st.one_of(st.none(), st.integers(-10 ** 9, 10 ** 9), S.num(-3, 3), st.booleans(), st.sampled_from(['', 'text', 'a b', 'ünï']), arr_st.filter(lambda a: a[0] not in ('S3',) and (a[0] != 'U5' or (len(a[1]) == 1 and a[1][0] > 0))).map(lambda a: {'__arr__': a}), st.lists(S.num(-3, 3), min_size=1, max_size=3), st.lists(st.sampled_from(['p', 'quu', 'ß']), min_size=1, max_size=3))
h5_st = st.recursive(h5leaf, lambda c: st.dictionaries(st.sampled_from(['a', 'b', 'c d', 'é']), c, max_size=3), max_leaves=6)


@sub('C31', 'hdf5_tree', st.fixed_dictionaries(dict(v=st.dictionaries(st.sampled_from(['k', 'l', 'm']), h5_st, max_size=3))), n=250, rule='two values')
def hdf5_tree(case, ctx):
    v = realize(case['v'])
    ctx.nt(len(list(paths(v))) > 1)
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, 'a.h5')
        with h5py.File(f, 'w') as h:
            uh5.unwrap_dict_to_h5(h, v)
        d = {}
        with h5py.File(f, 'r') as h:
            uh5.unwrap_h5_to_dict(h, d)

    def cmp(a, b, p):
        if isinstance(a, dict):
            ctx.equal(sorted(b), sorted(k for k in a if a[k] is not None), f'entries of {p}')
            for k in b:
                cmp(a[k], b[k], p + '/' + k)
        elif isinstance(a, str):
            ctx.equal(b, a, f'text {p}')
        else:
            a = np.atleast_1d(a)
            if a.dtype.kind == 'U':
                ctx.equal(np.atleast_1d(b).tolist(), a.tolist(), f'texts {p}')
            else:
                if a.shape == (1,):
                    a = a[0]
                ctx.array_equal(np.asarray(b), np.asarray(a), f'array {p}')
                ctx.equal(np.asarray(b).dtype, np.asarray(a).dtype, f'type of {p}')
    cmp(v, d, '')
    # as attributes
    flat = {k: x for k, x in case['v'].items() if isinstance(x, (int, float, str)) or x is None}
    with h5py.File('x', 'w', driver='core', backing_store=False) as h:
        uh5.unwrap_dict_to_h5(h, dict(flat, g=dict(flat)), asattr=True)
        for g in (h, h['g']):
            ctx.equal(dict(g.attrs), {k: x for k, x in flat.items() if x is not None}, 'attributes')


# ------------------------------------------------------------------- caching
marg = st.one_of(st.integers(0, 2), st.sampled_from(['a', 'b']), st.tuples(st.just('arr'), st.sampled_from(['int64', 'float64', 'int8', 'bool', 'uint8']), st.sampled_from([[2], [1, 2], [2, 1], [0], [3]]), st.integers(0, 1)), st.lists(st.integers(0, 1), max_size=2), st.dictionaries(st.sampled_from(['p', 'q']), st.integers(0, 1), max_size=2))


def mreal(x):
    if isinstance(x, (list, tuple)) and len(x) == 4 and x[0] == 'arr':
        a = np.zeros(x[2], x[1])
        if a.size:
            a.flat[0] = x[3]
        return a
    return x


def canon(x):
    if isinstance(x, np.ndarray):
        return ('A', x.dtype.str, x.shape, tuple(x.ravel().tolist()))
    if isinstance(x, (list, tuple)):
        return ('L',) + tuple(map(canon, x))
    if isinstance(x, dict):
        return ('D',) + tuple(sorted((k, canon(v)) for k, v in x.items()))
    return x


@sub('C31', 'memoize', st.fixed_dictionaries(dict(calls=st.lists(st.tuples(st.lists(marg, max_size=2), st.dictionaries(st.sampled_from(['u', 'v']), marg, max_size=2), st.one_of(st.none(), st.integers(1, 4))), min_size=1, max_size=14), size=st.integers(1, 4), out=st.sampled_from(['array', 'tuple', 'text']))), n=400, rule='repeated calls')
def memoized(case, ctx):
    runs = []

    def f(*a, **k):
        runs.append(1)
        key = ('K', tuple(map(canon, a)), tuple(sorted((p, canon(q)) for p, q in k.items())))
        s = repr(key)
        x = np.frombuffer(s.encode(), np.uint8).copy()
        return dict(array=x, tuple=(x, s), text=s)[case['out']]
    g = memoize(f, maxsize=case['size'])
    cache, size, hits, misses = [], case['size'], 0, 0
    for a, k, m in case['calls']:
        if m is not None:
            f.set_cache_maxsize(m); size = m
            while len(cache) > size:
                cache.pop(0)
        a = [mreal(x) for x in a]; k = {p: mreal(q) for p, q in k.items()}
        # lists of pairs and dictionaries may share a key: leave them out
        n0 = len(runs)
        got = g(*a, **k)
        key = repr(('K', tuple(map(canon, a)), tuple(sorted((p, canon(q)) for p, q in k.items()))))
        val = got if case['out'] == 'text' else bytes(got if case['out'] == 'array' else got[0]).decode()
        ctx.equal(val, key, 'result of these arguments')
        if case['out'] != 'text':
            x = got if case['out'] == 'array' else got[0]
            ctx.raises(ValueError, lambda: x.__setitem__(0, 1), 'a cached array cannot be changed')
        if key in cache:
            ctx.equal(len(runs), n0, 'not computed again'); cache.remove(key); hits += 1
        else:
            ctx.equal(len(runs), n0 + 1, 'computed'); misses += 1
            while len(cache) >= size:
                cache.pop(0)
        cache.append(key)
        ctx.equal(f.cache_info(), dict(hits=hits, misses=misses, maxsize=size, currsize=len(cache)), 'statistics')
    ctx.nt(hits > 0)


@sub('C31', 'small', st.fixed_dictionaries(dict(n=st.integers(0, 500), w=st.integers(1, 60), hkl=st.lists(st.integers(-30, 30), min_size=3, max_size=4), shape=st.tuples(st.integers(1, 12), st.integers(1, 12)), ps=st.tuples(S.num(0.2, 2), S.num(0.2, 2)), b=st.tuples(S.num(0, 4), S.num(0, 4)), seed=S.seeds, kind=st.sampled_from(['none', 'border', 'mask', 'int']))), n=400, rule='more tasks than workers')
def small(case, ctx):
    n, w = case['n'], case['w']
    ctx.nt(n > w)
    t = distribute_tasks(n, w)
    ctx.equal([i for a, b in t for i in range(a, b)], list(range(n)), 'every task once, in order')
    if t:
        l = [b - a for a, b in t]
        ctx.true(len(t) <= w and max(l) - min(l) <= 1 and min(l) >= 1, 'evenly'); ctx.equal(len(t), min(n, w), 'workers')
    ctx.equal(str_to_hkl(hkl_to_str(case['hkl'])), case['hkl'], 'indices as text'); ctx.equal(hkl_to_str(np.array(case['hkl'])), hkl_to_str(case['hkl']), 'indices as text')
    r, c = case['shape']
    pb = dict(none=lambda: None, border=lambda: np.array(case['b']), int=lambda: np.array([int(v) for v in case['b']]), mask=lambda: S.rng(case['seed']).random((r, c)) < 0.5)[case['kind']]()
    if pb is not None and pb.shape == (2,):
        for v, p in zip(pb, case['ps'][::-1]):
            if abs(v / p - math.floor(v / p) - 0.5) < 1e-6:
                raise Skip
    pan = NS(panel_buffer=pb, shape=(r, c), pixel_size_row=case['ps'][0], pixel_size_col=case['ps'][1])
    got = panel_buffer_as_2d_array(pan)
    ctx.shape(got, (r, c), 'buffer')
    if pb is None:
        want = np.ones((r, c), bool)
    elif pb.ndim == 2:
        want = pb
    else:
        br, bc = round(pb[1] / case['ps'][0]), round(pb[0] / case['ps'][1])
        i, j = np.mgrid[:r, :c]
        want = (i >= br) & (i < r - br) & (j >= bc) & (j < c - bc)
    ctx.array_equal(np.asarray(got, bool), want, 'valid pixels')


# -------------------------------------------------- instrument and materials
_MATS = {}


def cubic(name, sg, a, kev, dmin):
    from hexrd.core.material import Material
    from hexrd.core.valunits import valWUnit
    m = Material(name, dmin=valWUnit('d', 'length', dmin, 'angstrom'), kev=valWUnit('e', 'energy', kev, 'keV'))
    m.name = name
    m.sgnum = sg
    m.latticeParameters = [a] * 3 + [90.0] * 3
    return m


FAM = {225: lambda h: len({v % 2 for v in h}) == 1, 229: lambda h: sum(h) % 2 == 0, 221: lambda h: True}


def families(sg, a, dmin):
    """(hkl, d) of the families of cubic m-3m crystals"""
    n = int(a / dmin) + 1
    return {(h, k, l): a / math.sqrt(h * h + k * k + l * l) for h in range(n + 1) for k in range(h + 1) for l in range(k + 1) if h and FAM[sg]((h, k, l)) and a / math.sqrt(h * h + k * k + l * l) > dmin * (1 - 1e-6)}


@sub('C31', 'materials', st.fixed_dictionaries(dict(mats=st.lists(st.tuples(st.sampled_from([225, 229, 221]), S.num(2.5, 5), S.num(20, 90), S.num(0.7, 1.2)), min_size=1, max_size=3), act=st.integers(0, 2), E=st.one_of(st.none(), S.num(30, 100)), E2=S.num(30, 100), w=opt(st.one_of(st.none(), S.num(0.05, 1))),
     dmin=opt(S.num(0.7, 1.5)), dmax=opt(S.num(1, 3)), tmin=opt(S.num(0.05, 0.2)), tmax=opt(S.num(0.2, 0.5)), reset=opt(st.booleans()), again=st.booleans(), ex=S.seeds, h5=st.booleans())), n=36, parts=4, rule='an instrument and limits')
def materials(case, ctx):
    from hexrd.core.material import material as mm
    from hexrd.core.valunits import valWUnit
    KEV = 12.39841984
    mats = {f'm {i}': cubic(f'm {i}', sg, a, e, d) for i, (sg, a, e, d) in enumerate(case['mats'])}
    r = S.rng(case['ex'])
    saved = {}
    for k, m in mats.items():
        x = r.random(len(m.planeData.exclusions)) < 0.3
        x[0] = False
        m.planeData.exclusions = x
        saved[k] = sorted(map(tuple, np.abs(m.planeData.getHKLs()).tolist()))
    act = f"m {case['act'] % len(mats)}"
    sg, a, e0, d0 = case['mats'][case['act'] % len(mats)]
    ex = lambda k, d: d if case[k] == 'absent' else case[k]
    with tempfile.TemporaryDirectory() as t:
        mm.save_materials_hdf5(os.path.join(t, 'mats.h5'), mats)
        def write(name, E):
            c = dict(beam=dict(energy=E, vector=dict(azimuth=90.0, polar_angle=90.0)), oscillation_stage=dict(chi=0.0, translation=[0.0] * 3),
                     detectors=dict(p=dict(pixels=dict(rows=10, columns=12, size=[1.0, 2.0]), saturation_level=1000, transform=dict(translation=[0.0, 0.0, -500.0], tilt=[0.0] * 3))))
            with open(os.path.join(t, name), 'w') as o:
                yaml.safe_dump(c, o)
        c = dict(working_dir=t, material=dict(definitions='mats.h5', active=act), multiprocessing=1)
        for k, y in (('w', 'tth_width'), ('dmin', 'dmin'), ('dmax', 'dmax'), ('tmin', 'tthmin'), ('tmax', 'tthmax'), ('reset', 'reset_exclusions')):
            if case[k] != 'absent':
                c['material'][y] = case[k]
        E = e0
        if case['E'] is not None:
            write('i.yml', case['E']); c['instrument'] = 'i.yml'; E = case['E']
        reset = ex('reset', True)
        dgen = ex('dmin', 0.5)
        ctx.nt(case['E'] is not None and 'absent' not in (case['tmax'], case['dmax']))
        cfg = RootConfig(c)
        w = ex('w', 0.25)
        w = 0.25 if w is None else w
        wl = KEV / E
        lim = lambda v, lo, hi: (lo is None or v >= lo) and (hi is None or v <= hi)
        edge = lambda v, q: q is not None and abs(v - q) < 1e-6

        def check(wl, what):
            try:
                pd = cfg.material.plane_data
            except IndexError:
                raise Skip
            ctx.close(pd.wavelength, wl, 0, 1e-7, f'wavelength {what}')
            ctx.close(pd.tThWidth, math.radians(w), 1e-12, 0, f'width {what}')
            ctx.close(cfg.material.beam_energy, KEV / wl, 0, 1e-7, f'energy {what}')
            return sorted(map(tuple, np.abs(pd.getHKLs()).tolist())), pd
        fam = families(sg, a, dgen) if reset else families(sg, a, d0)
        if reset:
            want = []
            for h, d in fam.items():
                s = wl / 2 / d
                if s >= 1:
                    continue
                tt = 2 * math.asin(s)
                if any(edge(d, q) for q in (dgen, ex('dmax', None))) or any(edge(tt, q) for q in (ex('tmin', None), ex('tmax', None))):
                    raise Skip
                if lim(d, ex('dmin', None), ex('dmax', None)) and lim(tt, ex('tmin', None), ex('tmax', None)):
                    want.append(h)
        else:
            want = saved[act]
        if not fam:
            raise Skip
        got, pd = check(wl, 'of the active material')
        norm = lambda l: sorted(tuple(sorted(map(abs, h), reverse=True)) for h in l)
        # families with the same spacing are listed once
        dk = lambda l: sorted({round(a / math.sqrt(sum(v * v for v in h)), 6) for h in l})
        ctx.equal(dk(got), dk(want), 'reflections in use')
        if not reset:
            ctx.equal(norm(got), norm(want), 'reflections of the material')
        for k, m in cfg.material.materials.items():
            if case['E'] is not None:
                ctx.close(m.beamEnergy.getVal('keV'), case['E'], 0, 1e-7, 'all materials have the energy of the instrument')
        ctx.equal(sorted(cfg.material.materials), sorted(mats), 'materials')
        if case['again'] and case['E'] is not None:
            write('j.yml', case['E2'])
            from hexrd.core.config.instrument import Instrument
            cfg.instrument = Instrument(cfg, os.path.join(t, 'j.yml'))
            ctx.close(cfg.instrument.hedm.beam_energy, case['E2'], 1e-9, 0, 'energy of the new instrument')
            check(KEV / case['E2'], 'after the instrument was changed')
            cfg.instrument.hedm.beam_energy = case['E']
            check(wl, 'after the energy was changed')
        if case['E'] is not None:
            det = cfg.instrument.detector_dict['p']
            ctx.equal([det.rows, det.cols], [10, 12], 'panel')
        else:
            ctx.raises(RuntimeError, lambda: cfg.instrument.hedm, 'no instrument')
