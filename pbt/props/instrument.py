"""C21: instrument configurations and settings; C22: simulated and extracted reflections."""
import copy
import math
import os

import h5py
import numpy as np
import yaml
from hypothesis import strategies as st

from hexrd.core import distortion as dist
from hexrd.core import imageseries
from hexrd.core.imageseries.omega import OmegaImageSeries
from hexrd.core.imageseries.process import ProcessedImageSeries
from hexrd.core.instrument import hedm_instrument as hi
from hexrd.core.instrument.hedm_instrument import HEDMInstrument
from pbt import ref
from pbt.core import sub, Skip
from pbt import strat as S

PI = math.pi

# ---------------------------------------------------------------------------------------------- instruments
vec3 = lambda s: S.vec(-s, s)
beam_st = st.fixed_dictionaries(dict(energy=S.num(20, 90), azim=st.one_of(st.just(90.0), S.num(-179, 179)), pola=st.one_of(st.just(90.0), S.num(70, 110)),
                                     dist=st.one_of(st.none(), S.num(100, 5000)),
                                     ec=st.one_of(st.none(), st.fixed_dictionaries(dict(intercept=S.num(-1, 1), slope=S.num(-50, 50), axis=st.sampled_from(['x', 'y']))))))


def near_z(b):
    """beams close to -z (azimuth 90 degrees, polar angle 90 degrees)"""
    return dict(b, azim=90.0 + b['azim'] / 12)


beam_st = beam_st.map(near_z)
panel_st = st.fixed_dictionaries(dict(
    kind=st.sampled_from(['planar', 'planar', 'cylindrical']), rows=st.integers(2, 9), cols=st.integers(2, 9), ps=st.tuples(S.num(0.5, 8), S.num(0.5, 8)),
    t=st.tuples(S.num(-40, 40), S.num(-40, 40), S.num(-400, -80)), tilt=S.expmap(0.5), ge=st.one_of(st.none(), st.tuples(S.num(-0.005, 0.005), S.num(-0.005, 0.005), S.num(-0.03, -0.011))),
    radius=S.num(60, 400), sat=S.num(100, 1e5), group=st.sampled_from([None, 'g1', 'g2']), roi=st.one_of(st.none(), st.tuples(st.integers(0, 50), st.integers(0, 50))),
    buf=st.sampled_from([None, None, 'list', 'array', 'scalar', 'mask', 'name']), seed=S.seeds))
inst_st = st.fixed_dictionaries(dict(id=st.sampled_from(['instrument', 'ge', 'x y']), beams=st.lists(beam_st, min_size=1, max_size=3), panels=st.lists(panel_st, min_size=1, max_size=3),
                                     chi=S.num(-0.4, 0.4), t=vec3(5), active=st.integers(0, 2)))


def buffer_of(p):
    r = S.rng(p['seed'])
    b = p['buf']
    if b == 'list':
        return [0.5, 0.25]
    if b == 'array':
        return np.array([0.5, 0.25])
    if b == 'scalar':
        return 0.5
    if b == 'mask':
        return r.random((p['rows'], p['cols'])) > 0.3
    if b == 'name':
        return 'rounded_corners' if False else None
    return None


def beam_dict(b):
    d = dict(energy=b['energy'], vector=dict(azimuth=b['azim'], polar_angle=b['pola']))
    if b['dist'] is not None:
        d['source_distance'] = b['dist']
    if b['ec'] is not None:
        d['energy_correction'] = dict(b['ec'])
    return d


def config(c):
    dets = {}
    for i, p in enumerate(c['panels']):
        t = list(p['t'])
        if p['kind'] == 'cylindrical':
            R = p['radius']
            t = [t[0] * R / 400, t[1] * R / 400, -R * (0.2 + abs(t[2]) / 400)]
        d = dict(detector_type=p['kind'], transform=dict(tilt=list(p['tilt']), translation=t),
                 pixels=dict(rows=p['rows'], columns=p['cols'], size=[p['ps'][0], min(p['ps'][1], 2.8 * p['radius'] / p['cols'])]), saturation_level=p['sat'])
        if p['kind'] == 'cylindrical':
            d['radius'] = p['radius']
        if p['group']:
            d['group'] = p['group']
        if p['roi'] is not None:
            d['pixels']['roi'] = list(p['roi'])
        if p['ge'] is not None:
            d['distortion'] = dict(function_name='GE_41RT', parameters=list(p['ge']) + [2.0, 2.0, 2.0])
        b = buffer_of(p)
        if b is not None:
            d['buffer'] = b
        dets[f'p{i}'] = d
    bs = c['beams']
    beam = beam_dict(bs[0]) if len(bs) == 1 else {f'XRS{i + 1}': beam_dict(b) for i, b in enumerate(bs)}
    return dict(id=c['id'], beam=beam, oscillation_stage=dict(chi=c['chi'], translation=list(c['t'])), detectors=dets)


def bvec(az, po):
    a, p = math.radians(az), math.radians(po)
    return -np.array([math.sin(p) * math.cos(a), math.cos(p), math.sin(p) * math.sin(a)])


def active_name(c):
    return f"XRS{c['active'] % len(c['beams']) + 1}"


def same_instr(ctx, got, want, msg, buffers=True, sat=True):
    """Two instruments answer every question alike."""
    ctx.equal(set(got.detectors), set(want.detectors), msg + 'panels')
    ctx.equal(got.num_panels, want.num_panels, msg + 'number of panels')
    ctx.equal(got.id, want.id, msg + 'id')
    ctx.close(got.chi, want.chi, 1e-12, 0, msg + 'chi')
    ctx.close(got.tvec, want.tvec, 1e-12, 0, msg + 'sample translation')
    ctx.equal(set(got.beam_names), set(want.beam_names), msg + 'beams')
    ctx.equal(got.active_beam_name, want.active_beam_name, msg + 'active beam')
    for n in want.beam_names:
        a, b = got.beam_dict[n], want.beam_dict[n]
        ctx.close(a['energy'], b['energy'], 1e-9, 0, msg + 'energy')
        ctx.close(a['vector'], b['vector'], 1e-9, 0, msg + 'beam vector')
        ctx.equal(bool(np.isinf(a['distance'])), bool(np.isinf(b['distance'])), msg + 'infinite source distance')
        if not np.isinf(b['distance']):
            ctx.close(a['distance'], b['distance'], 1e-9, 0, msg + 'source distance')
        ctx.equal(a['energy_correction'], b['energy_correction'], msg + 'energy correction')
    ctx.close(got.beam_energy, want.beam_energy, 1e-9, 0, msg + 'active energy')
    ctx.close(got.beam_wavelength, 12.398419843320026 / got.beam_energy, 0, 1e-6, msg + 'wavelength')
    ctx.equal(got.energy_correction, want.energy_correction, msg + 'active energy correction')
    ctx.close(got.eta_vector, want.eta_vector, 1e-9, 0, msg + 'eta vector')
    ctx.equal(sorted(got.detector_groups), sorted(want.detector_groups), msg + 'groups')
    for g in want.detector_groups:
        ctx.equal(set(got.detectors_in_group(g)), set(want.detectors_in_group(g)), msg + 'group members')
        ctx.close(got.mean_group_center(g), want.mean_group_center(g), 1e-9, 0, msg + 'group centre')
    ctx.close(got.mean_detector_center, want.mean_detector_center, 1e-9, 0, msg + 'centre')
    for k, b in want.detectors.items():
        a = got.detectors[k]
        m = msg + k + ' '
        ctx.equal(type(a), type(b), m + 'kind'); ctx.equal(a.name, b.name, m + 'name')
        ctx.equal(tuple(map(int, a.shape)), tuple(map(int, b.shape)), m + 'shape')
        ctx.close([a.pixel_size_row, a.pixel_size_col], [b.pixel_size_row, b.pixel_size_col], 1e-12, 0, m + 'pixel size')
        ctx.equal(a.group, b.group, m + 'group')
        ctx.equal(None if a.roi is None else np.array(a.roi).tolist(), None if b.roi is None else np.array(b.roi).tolist(), m + 'roi')
        if sat:
            ctx.close(a.saturation_level, b.saturation_level, 1e-9, 0, m + 'saturation level')
        ctx.close(a.tvec, b.tvec, 1e-12, 0, m + 'translation'); ctx.close(a.tilt, b.tilt, 1e-12, 0, m + 'tilt')
        ctx.close(a.bvec, want.beam_vector, 1e-9, 0, m + 'beam vector')
        ctx.close(a.evec, want.eta_vector, 1e-9, 0, m + 'eta vector')
        ctx.equal(np.isinf(a.xrs_dist) or float(a.xrs_dist), np.isinf(got.source_distance) or float(got.source_distance), m + 'source distance')
        ctx.equal(None if a.distortion is None else [float(x) for x in a.distortion.params], None if b.distortion is None else [float(x) for x in b.distortion.params], m + 'distortion')
        if hasattr(b, 'radius'):
            ctx.close(a.radius, b.radius, 1e-12, 0, m + 'radius')
        if buffers:
            ba, bb = a.panel_buffer, b.panel_buffer
            ctx.equal(None if ba is None else np.asarray(ba).tolist(), None if bb is None else np.asarray(bb).tolist(), m + 'buffer')
        ta, ea = a.pixel_angles(); tb, eb = b.pixel_angles()
        ctx.close(ta, tb, 1e-8, 0, m + 'pixel 2theta', nan=True)
        w = np.sin(tb)
        ctx.close(w * np.exp(1j * ea), w * np.exp(1j * eb), 1e-7, 0, m + 'pixel eta', nan=True)
        xy = np.array([[0.1, -0.2], [0.3, 0.4]]) * [a.col_dim, a.row_dim]
        ctx.close(a.angularPixelSize(xy), b.angularPixelSize(xy), 1e-7, 0, m + 'angular pixel size', nan=True)


@sub('C21', 'config_round_trip', st.fixed_dictionaries(dict(c=inst_st, how=st.sampled_from(['dict', 'yaml', 'yaml', 'hdf5', 'hdf5', 'h5file']))), n=300, parts=2,
     rule='instruments of planar and cylindrical panels, one or more beams, every optional entry; non-trivial: several panels or beams, or an optional entry')
def config_round_trip(case, ctx):
    c = case['c']
    cfg = config(c)
    how = case['how']
    ctx.label(how)
    ctx.nt(len(c['panels']) + len(c['beams']) > 2 or any(p['ge'] or p['group'] or p['buf'] for p in c['panels']))
    name = active_name(c)
    kw = dict(active_beam_name=name)
    keep = copy.deepcopy(cfg)
    a = HEDMInstrument(cfg, **kw)
    ctx.equal(str(cfg), str(keep), 'the configuration handed in')
    # the instrument is what the configuration says
    for i, b in enumerate(c['beams']):
        x = a.beam_dict[f'XRS{i + 1}']
        ctx.close(x['vector'], bvec(b['azim'], b['pola']), 1e-12, 0, 'beam vector')
        ctx.equal(x['energy'], b['energy'], 'energy')
        ctx.equal(x['distance'], np.inf if b['dist'] is None else b['dist'], 'source distance')
        ctx.equal(x['energy_correction'], b['ec'], 'energy correction')
    ctx.equal(a.has_multi_beam, len(c['beams']) > 1, 'several beams')
    for i, p in enumerate(c['panels']):
        d = a.detectors[f'p{i}']
        ctx.equal(d.shape, (p['rows'], p['cols']), 'shape')
        ctx.close(d.tilt, p['tilt'], 0, 0, 'tilt'); ctx.equal(d.group, p['group'], 'group')
        ctx.equal(d.roi, None if p['roi'] is None else ((p['roi'][0], p['roi'][0] + p['rows']), (p['roi'][1], p['roi'][1] + p['cols'])), 'roi')
        b = buffer_of(p)
        ctx.equal(None if d.panel_buffer is None else np.asarray(d.panel_buffer).tolist(), None if b is None else (np.asarray(b) * np.ones(2) if np.isscalar(b) else np.asarray(b)).tolist(), 'buffer')
    masks = any(p['buf'] == 'mask' for p in c['panels'])
    if how == 'dict':
        b = HEDMInstrument(a.write_config(style='yaml'), **kw)
    elif how == 'yaml':
        f = os.path.join(ctx.scratch, 'i.yml')
        a.write_config(f)
        with open(f) as fh:
            b = HEDMInstrument(yaml.safe_load(fh), **kw)
    else:
        f = os.path.join(ctx.scratch, 'i.h5')
        if how == 'hdf5':
            a.write_config(f, style='hdf5')
        else:
            with h5py.File(f, 'w') as h:
                a.write_config(h, style='hdf5')
        with h5py.File(f, 'r') as h:
            b = HEDMInstrument(h, **kw)
    same_instr(ctx, b, a, how + ': ', buffers=how in ('hdf5', 'h5file') or not masks)
    os.path.exists(os.path.join(ctx.scratch, 'i.h5')) and os.remove(os.path.join(ctx.scratch, 'i.h5'))


# ---------------------------------------------------------------------------------------------- histories
op_st = st.one_of(
    st.tuples(st.just('beam_vector'), S.num(80, 100), S.num(80, 100)), st.tuples(st.just('beam_vector3'), S.num(-0.3, 0.3), S.num(-0.3, 0.3)),
    st.tuples(st.just('energy'), S.num(20, 90)), st.tuples(st.just('distance'), st.one_of(st.none(), S.num(100, 5000))), st.tuples(st.just('active'), st.integers(0, 2)),
    st.tuples(st.just('active'), st.integers(0, 2)), st.tuples(st.just('edit_beam'), st.integers(0, 2), S.num(80, 100), S.num(20, 90)),
    st.tuples(st.just('add_beam'), S.num(80, 100), S.num(20, 90)), st.tuples(st.just('eta_vector'), S.num(-1, 1), S.num(-0.3, 0.3)),
    st.tuples(st.just('chi'), S.num(-0.4, 0.4)), st.tuples(st.just('tvec'), vec3(5)), st.tuples(st.just('ec'), st.sampled_from(['x', 'y', None]), S.num(-9, 9)),
    st.tuples(st.just('p_tvec'), st.integers(0, 2), vec3(1)), st.tuples(st.just('p_tilt'), st.integers(0, 2), S.expmap(0.4)), st.tuples(st.just('p_dist'), st.integers(0, 2), st.booleans()),
    st.tuples(st.just('p_size'), st.integers(0, 2), S.num(0.5, 3), S.num(0.5, 3)), st.tuples(st.just('p_rows'), st.integers(0, 2), st.integers(2, 9), st.integers(2, 9)),
    st.tuples(st.just('p_sat'), st.integers(0, 2), S.num(1, 99)), st.tuples(st.just('p_radius'), st.integers(0, 2), S.num(80, 400)),
    st.tuples(st.just('p_roi'), st.integers(0, 2), st.integers(0, 9)), st.tuples(st.just('p_group'), st.integers(0, 2), st.sampled_from(['g1', 'g3', None])),
    st.tuples(st.just('switch'), st.integers(0, 2), st.booleans()), st.tuples(st.just('bad'), st.integers(0, 5)))


@sub('C21', 'edit_history', st.fixed_dictionaries(dict(c=inst_st, ops=st.lists(op_st, min_size=1, max_size=9))), n=260, parts=3,
     rule='histories of beam, stage and panel edits, rejected edits and temporary beam switches; non-trivial: several edits with several panels or beams')
def edit_history(case, ctx):
    c = copy.deepcopy(case['c'])
    for p in c['panels']:
        p['buf'] = None
    cfg = config(c)
    name = active_name(c)
    a = HEDMInstrument(copy.deepcopy(cfg), active_beam_name=name)
    beams = {f'XRS{i + 1}': beam_dict(b) for i, b in enumerate(c['beams'])}
    evec = np.array([1.0, 0, 0])
    ctx.nt(len(case['ops']) > 2 and len(c['panels']) + len(beams) > 2)
    pn = lambda i: f"p{i % len(c['panels'])}"
    bn = lambda i: sorted(beams)[i % len(beams)]

    def fresh():
        cf = copy.deepcopy(cfg)
        cf['beam'] = copy.deepcopy(beams) if len(beams) > 1 else copy.deepcopy(beams['XRS1'])
        return HEDMInstrument(cf, eta_vector=evec, active_beam_name=name)
    for op in case['ops']:
        k = op[0]
        ctx.label(k)
        if k == 'beam_vector':
            a.beam_vector = (op[1], op[2]); beams[name]['vector'] = dict(azimuth=op[1], polar_angle=op[2])
        elif k == 'beam_vector3':
            v = ref.unit(np.array([op[1], op[2], -1.0]))
            az, po = math.degrees(math.atan2(-v[2], -v[0])), math.degrees(math.acos(-v[1]))
            try:
                a.beam_vector = v
            except ValueError:
                if abs(np.linalg.norm(v) - 1) <= np.finfo(float).eps:
                    raise
                continue
            beams[name]['vector'] = dict(azimuth=az, polar_angle=po)
        elif k == 'energy':
            a.beam_energy = op[1]; beams[name]['energy'] = op[1]
        elif k == 'distance':
            a.source_distance = np.inf if op[1] is None else op[1]
            beams[name]['source_distance'] = np.inf if op[1] is None else op[1]
        elif k == 'active':
            name = bn(op[1]); a.active_beam_name = name
        elif k == 'edit_beam':
            n = bn(op[1]); a.beam_dict[n]['vector'] = bvec(op[2], 92.0); a.beam_dict[n]['energy'] = op[3]; a.beam_dict_modified()
            beams[n].update(vector=dict(azimuth=op[2], polar_angle=92.0), energy=op[3])
        elif k == 'add_beam':
            n = f'XRS{len(beams) + 1}'
            a.beam_dict[n] = dict(vector=bvec(op[1], 88.0), energy=op[2], distance=np.inf, energy_correction=None); a.beam_dict_modified()
            beams[n] = dict(vector=dict(azimuth=op[1], polar_angle=88.0), energy=op[2])
        elif k == 'eta_vector':
            v = ref.unit(np.array([1.0, op[1], op[2]]))
            if abs(np.linalg.norm(v) - 1) > np.finfo(float).eps:
                continue
            a.eta_vector = v; evec = v
        elif k == 'chi':
            a.chi = op[1]; cfg['oscillation_stage']['chi'] = op[1]
        elif k == 'tvec':
            v = np.array(op[1], float); a.tvec = v; cfg['oscillation_stage']['translation'] = v.tolist(); v += 1
        elif k == 'ec':
            v = None if op[1] is None else dict(axis=op[1], slope=op[2], intercept=0.5)
            a.energy_correction = v; beams[name]['energy_correction'] = v
        elif k == 'p_tvec':
            v = a.detectors[pn(op[1])].tvec + np.array(op[2]); a.detectors[pn(op[1])].tvec = v; cfg['detectors'][pn(op[1])]['transform']['translation'] = v.tolist()
        elif k == 'p_tilt':
            a.detectors[pn(op[1])].tilt = op[2]; cfg['detectors'][pn(op[1])]['transform']['tilt'] = list(op[2])
        elif k == 'p_dist':
            pr = [0.001, -0.002, -0.012, 2.0, 2.0, 2.0]
            a.detectors[pn(op[1])].distortion = dist.get_mapping('GE_41RT', pr) if op[2] else None
            cfg['detectors'][pn(op[1])]['distortion'] = dict(function_name='GE_41RT', parameters=pr) if op[2] else None
        elif k == 'p_size':
            d = a.detectors[pn(op[1])]; d.pixel_size_row, d.pixel_size_col = op[2], op[3]; cfg['detectors'][pn(op[1])]['pixels']['size'] = [op[2], op[3]]
        elif k == 'p_rows':
            d = a.detectors[pn(op[1])]; d.rows, d.cols = op[2], op[3]; d.roi = None
            cfg['detectors'][pn(op[1])]['pixels'].update(rows=op[2], columns=op[3], roi=None)
        elif k == 'p_sat':
            a.detectors[pn(op[1])].saturation_level = op[2]; cfg['detectors'][pn(op[1])]['saturation_level'] = op[2]
        elif k == 'p_radius':
            d = a.detectors[pn(op[1])]
            if hasattr(d, 'radius'):
                d.radius = op[2]; cfg['detectors'][pn(op[1])]['radius'] = op[2]
        elif k == 'p_roi':
            a.detectors[pn(op[1])].roi = (op[2], 3); cfg['detectors'][pn(op[1])]['pixels']['roi'] = [op[2], 3]
        elif k == 'p_group':
            a.detectors[pn(op[1])].group = op[2]; cfg['detectors'][pn(op[1])]['group'] = op[2]
        elif k == 'switch':
            n = bn(op[1])
            try:
                with hi.switch_xray_source(a, n):
                    for d in a.detectors.values():
                        ctx.close(d.bvec, bvec(beams[n]['vector']['azimuth'], beams[n]['vector']['polar_angle']), 1e-9, 0, 'beam of the panels inside a switch')
                    ctx.equal(a.beam_energy, a.beam_dict[n]['energy'], 'energy inside a switch')
                    ctx.equal(a.xrs_beam_energy(None), a.beam_dict[n]['energy'], 'energy of the active beam')
                    if op[2]:
                        raise KeyError('x')
            except KeyError as e:
                if e.args != ('x',):
                    raise
        elif k == 'bad':
            bad = [lambda: setattr(a, 'beam_vector', [1.0, 1.0, 0.0]), lambda: setattr(a, 'active_beam_name', 'nope'), lambda: setattr(a, 'eta_vector', [2.0, 0, 0]),
                   lambda: setattr(a, 'energy_correction', dict(axis='x')), lambda: setattr(a, 'beam_vector', [1.0]), lambda: setattr(a, 'eta_vector', [1.0, 0.0])][op[1]]
            ctx.raises(ValueError, bad)
        if op[0] in ('p_tvec', 'p_tilt', 'beam_vector', 'edit_beam', 'active', 'switch'):
            same_instr(ctx, a, fresh(), f'after {k}: ')
    b = fresh()
    same_instr(ctx, a, b, 'at the end: ')
    same_instr(ctx, HEDMInstrument(a.write_config(), eta_vector=a.eta_vector, active_beam_name=name), b, 'saved: ')


@sub('C21', 'chunks', st.fixed_dictionaries(dict(p=panel_st, chi=S.num(-0.4, 0.4), n=st.tuples(st.integers(1, 3), st.integers(1, 3)), base=st.tuples(st.integers(1, 4), st.integers(1, 4)),
     gap=st.tuples(st.integers(0, 2), st.integers(0, 2)), roi=st.booleans(), mask=st.booleans(), two=st.booleans())), n=250,
     rule='composite planar detectors cut into tiles with gaps; non-trivial: several tiles and a tilted panel')
def chunks(case, ctx):
    p = dict(case['p'], kind='planar', ge=None, roi=None)
    (nr, nc), (br, bc), (gr, gc) = case['n'], case['base'], case['gap']
    p['rows'] = nr * br + (nr - 1) * gr; p['cols'] = nc * bc + (nc - 1) * gc
    p['buf'] = 'mask' if case['mask'] else None
    ctx.nt(nr * nc > 1 and np.any(p['tilt']))
    ps = [p] + ([dict(p, t=(1.0, 2.0, -300.0), seed=p['seed'] + 1)] if case['two'] else [])
    a = HEDMInstrument(config(dict(id='i', beams=[dict(energy=60.0, azim=90.0, pola=91.0, dist=None, ec=None)], panels=ps, chi=case['chi'], t=[0.1, 0.2, 0.3])))
    rects, labels = hi.generate_chunks(nr, nc, br, bc, row_gap=gr, col_gap=gc)
    ctx.equal(list(labels), [f'{i}_{j}' for i in range(nr) for j in range(nc)], 'labels')
    for (i, j), r in zip([(i, j) for i in range(nr) for j in range(nc)], rects):
        ctx.equal(np.asarray(r).tolist(), [[i * (br + gr), i * (br + gr) + br], [j * (bc + gc), j * (bc + gc) + bc]], 'rectangle')
    cfg = hi.chunk_instrument(a, rects, labels, use_roi=case['roi'])
    b = HEDMInstrument(cfg)
    ctx.equal(set(b.detectors), {f'{k}_{l}' for k in a.detectors for l in labels}, 'panels')
    ctx.close(b.chi, a.chi, 1e-12, 0, 'chi'); ctx.close(b.beam_vector, a.beam_vector, 1e-12, 0, 'beam')
    for k, d in a.detectors.items():
        tth, eta = d.pixel_angles()
        for r, l in zip(rects, labels):
            q = b.detectors[f'{k}_{l}']
            s = (slice(*r[0]), slice(*r[1]))
            ctx.equal(tuple(q.shape), (br, bc), 'tile shape')
            t2, e2 = q.pixel_angles()
            ctx.close(t2, tth[s], 1e-9, 0, f'2theta of the pixels of tile {l}')
            ctx.close(np.sin(t2) * np.exp(1j * e2), np.sin(t2) * np.exp(1j * eta[s]), 1e-8, 0, 'eta of the pixels of a tile')
            if case['roi']:
                ctx.equal([list(map(int, x)) for x in q.roi], np.asarray(r).tolist(), 'roi of a tile')
            else:
                ctx.equal(q.roi, None, 'roi of a tile')
            if case['mask']:
                ctx.array_equal(q.panel_buffer, d.panel_buffer[s], 'mask of a tile')


@sub('C21', 'panel_images', st.fixed_dictionaries(dict(kind=st.sampled_from(['own', 'shared', 'partial', 'group']), what=st.sampled_from(['2d', '3d', 'ims', 'proc', 'omega']), seed=S.seeds,
     n=st.integers(1, 4), shape=st.tuples(st.integers(4, 9), st.integers(4, 9)))), n=200,
     rule='images given per panel, shared, by part of the name or by group, as arrays and as series; non-trivial: cut out of a larger image')
def panel_images(case, ctx):
    r = S.rng(case['seed'])
    a = r.integers(0, 99, (case['n'],) + tuple(case['shape'])).astype(np.float64)
    what, kind = case['what'], case['kind']
    ctx.label(what + ' ' + kind)
    if what == '2d':
        a = a[0]; x = a.copy()
    elif what == '3d':
        x = a.copy()
    else:
        om = np.linspace(0, 1, len(a) + 1)
        x = imageseries.open(None, 'array', data=a.copy(), meta=dict(omega=np.vstack([om[:-1], om[1:]]).T))
        if what == 'proc':
            x = ProcessedImageSeries(x, [('flip', 'v')]); a = a[:, :, ::-1]
        elif what == 'omega':
            x = OmegaImageSeries(x)
    r0, c0 = int(r.integers(0, 3)), int(r.integers(0, 3)); r1, c1 = int(r.integers(r0 + 1, a.shape[-2] + 1)), int(r.integers(c0 + 1, a.shape[-1] + 1))
    roi = ((r0, r1), (c0, c1))
    ctx.nt(kind != 'own')
    d = {'own': {'ff1': x, 'other': None}, 'shared': {'SHARED-IMAGES': x, 'other': None}, 'partial': {'ff1_ff2': x, 'z': None}, 'group': {'grp': x}}[kind]
    if kind == 'shared':
        d = {hi.multi_ims_key: x}
    got = hi._parse_imgser_dict(d, 'ff1', roi=None if kind == 'own' else roi, group='grp' if kind == 'group' else None)
    want = a if kind == 'own' else a[..., r0:r1, c0:c1]
    if what in ('2d', '3d'):
        ctx.array_equal(got, want, 'images of the panel')
    else:
        ctx.equal(len(got), len(want), 'frames'); ctx.equal(tuple(got.shape), want.shape[1:], 'shape')
        for i in range(len(want)):
            ctx.array_equal(got[i], want[i], f'frame {i}')
        if what == 'omega':
            ctx.true(isinstance(got, OmegaImageSeries), 'keeps the omegas'); ctx.close(got.omega, x.omega, 0, 0, 'omegas')
    if kind != 'own':
        ctx.raises(RuntimeError, lambda: hi._parse_imgser_dict(d, 'ff1', roi=None, group='grp'))
    ctx.raises(RuntimeError, lambda: hi._parse_imgser_dict({'nothing': x}, 'ff1', roi=roi, group='grp'))


@sub('C21', 'angles_and_resolution', st.fixed_dictionaries(dict(c=inst_st, az=S.num(-179, 180), po=S.num(1, 179), angle=S.num(-900, 900), w=st.lists(S.num(5, 80), min_size=1, max_size=4), w0=S.num(-400, 400),
     edges=st.lists(S.num(-9, 9), min_size=2, max_size=6), rad=st.booleans())), n=250,
     rule='beam angles, wedge lookups, bin centres and the resolution of generated instruments; non-trivial: non-square panels')
def angles_and_resolution(case, ctx):
    az, po = case['az'], case['po']
    b = hi.calc_beam_vec(az, po)
    ctx.close(b, bvec(az, po), 1e-12, 0, 'beam vector')
    az2, po2 = hi.calc_angles_from_beam_vec(b * 3.0)
    ctx.close(po2, po, 1e-6, 0, 'polar angle'); ctx.close(np.exp(1j * np.radians(az2)), np.exp(1j * np.radians(az)), 1e-9, 0, 'azimuth')
    # wedges
    k = PI / 180 if case['rad'] else 1.0
    lo = case['w0']
    ranges = []
    for w in case['w']:
        ranges.append((lo * k, (lo + w) * k)); lo += w + 2
    x = case['angle']
    want = np.nan
    amb = False
    for i, (p, q) in enumerate(ranges):
        off = (x - p / k) % 360.0
        amb |= min(abs(off), abs(off - 360), abs(off - (q - p) / k)) < 1e-9
        if off < (q - p) / k and np.isnan(want):
            want = i
    if not amb:
        ctx.close(hi.angle_in_range(x * k, ranges, units='radians' if case['rad'] else 'degrees'), want, 0, 0, 'wedge of an angle', nan=True)
    e = case['edges']
    ctx.close(hi.centers_of_edge_vec(e), [(p + q) / 2 for p, q in zip(e[:-1], e[1:])], 1e-12, 0, 'bin centres')
    # resolution
    c = copy.deepcopy(case['c'])
    for p in c['panels']:
        p['buf'] = None
    a = HEDMInstrument(config(c), active_beam_name=active_name(c))
    ctx.nt(any(p['rows'] != p['cols'] for p in c['panels']))
    tths, sizes = [], []
    for d in a.detectors.values():
        y, xx = d.pixel_coords
        tths.append(d.pixel_angles()[0].max())
        sizes.append(d.angularPixelSize(np.vstack([xx.ravel(), y.ravel()]).T))
    ctx.close(hi.max_tth(a), max(tths), 1e-12, 0, 'largest 2theta')
    s = np.vstack(sizes)
    if not np.all(np.isfinite(s)):
        raise Skip('pixels seen edge on')
    (t0, tm, t1), (e0, em, e1) = hi.pixel_resolution(a)
    ctx.close(sorted([t0, t1]), [s[:, 0].min(), s[:, 0].max()], 1e-9, 0, '2theta resolution'); ctx.close(sorted([e0, e1]), [s[:, 1].min(), s[:, 1].max()], 1e-9, 0, 'eta resolution')
    ctx.close([tm, em], np.median(s, axis=0), 1e-9, 0, 'median resolution')
    ok = ~(np.isclose(s, 0).any(axis=1))
    m = hi.max_resolution(a)
    ctx.close(m, [s[ok, 0].min(), s[ok, 1].min()], 1e-9, 0, 'best resolution')
