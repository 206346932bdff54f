"""C27: calibration parameters, constraints, residuals and fits; Laue patterns."""
import copy
import math

import lmfit
import numpy as np
from hypothesis import strategies as st

from hexrd.core.fitting.calibration import lmfit_param_handling as lp
from hexrd.core.fitting.calibration.instrument import InstrumentCalibrator
from hexrd.core.fitting.calibration.laue import LaueCalibrator
from hexrd.core.fitting.calibration.powder import PowderCalibrator
from hexrd.core.fitting.calibration.relative_constraints import RelativeConstraintsType, RotationCenter, create_relative_constraints
from hexrd.core.fitting.calibration.structureless import StructurelessCalibrator
from hexrd.core.instrument.hedm_instrument import HEDMInstrument
from hexrd.hedm.fitting.calibration.grain import GrainCalibrator
from hexrd.laue.simulation import simulate_laue_pattern_on_instrument
from pbt import ref
from pbt.core import sub, Skip
from pbt import strat as S
from pbt.props.grainfit import spots_of, table, expected, warp, shifted
from pbt.props.instrument import bvec, config, inst_st
from pbt.props.material import load
from pbt.props.spots import PI, Setup, ge_apply, setup_st
from pbt.props.transforms import beam_rmat, sample_rmat
from pbt.props.xtal import cell_for, l6_st, metric

KEV = 12.398419843320026
conv_st = st.sampled_from([['none'], ['xyz', True], ['zxz', False], ['dict', 'xyz', True], ['dict', 'zxz', False]])


def convention(c):
    if c[0] == 'none':
        return None
    return dict(axes_order=c[1], extrinsic=c[2]) if c[0] == 'dict' else tuple(c)


def suffixes(c):
    return {'none': ('expmap_x', 'expmap_y', 'expmap_z'), 'xyz': ('euler_x', 'euler_y', 'euler_z'), 'zxz': ('euler_z', 'euler_xp', 'euler_zpp')}[c[0] if c[0] != 'dict' else c[1]]


def rmat_of(c, v):
    if c[0] == 'none':
        return ref.e2r(np.array(v))
    o, e = c[-2:]
    return ref.euler(np.radians(v), o, e)


def to_params(lst):
    p = lmfit.Parameters()
    p.add_many(*lst)
    return p


def free(p):
    for x in p.values():
        x.min, x.max = -np.inf, np.inf


def snapshot(inst):
    return {k: (d.rmat.copy(), d.tvec.copy()) for k, d in inst.detectors.items()}


# ---------------------------------------------------------------------------------------------- instrument parameters
@sub('C27', 'instrument_params', st.fixed_dictionaries(dict(c=inst_st, conv=conv_st, seed=S.seeds, names=st.sampled_from(['p', 'nested', 'dash']))), n=260, parts=2,
     rule='instruments with several beams, planar and cylindrical distorted panels under every Euler convention; non-trivial: more than one panel or beam')
def instrument_params(case, ctx):
    cfg = config(case['c'])
    nm = {'p': lambda i: f'p{i}', 'nested': lambda i: ['ff', 'x_ff', 'y_x_ff'][i], 'dash': lambda i: f'FF-{i}'}[case['names']]
    cfg['detectors'] = {nm(i): d for i, d in enumerate(cfg['detectors'].values())}
    inst = HEDMInstrument(cfg)
    cv = convention(case['conv'])
    before = snapshot(inst)
    bd = copy.deepcopy(inst.beam_dict)
    chi, ts = inst.chi, inst.tvec.copy()
    lst = lp.create_instr_params(inst, cv)
    lp.validate_params_list(lst)
    ctx.nt(len(inst.detectors) + len(inst.beam_names) > 2)
    pars = to_params(lst)
    want = set()
    many = len(inst.beam_names) > 1
    for b in inst.beam_names:
        pre = f'{b}_' if many else ''
        want |= {pre + x for x in ('beam_polar', 'beam_azimuth', 'beam_energy')}
        if bd[b]['energy_correction'] is not None:
            want |= {pre + 'beam_energy_correction_slope', pre + 'beam_energy_correction_intercept'}
    want |= {'instr_chi', 'instr_tvec_x', 'instr_tvec_y', 'instr_tvec_z'}
    for k, d in inst.detectors.items():
        n = k.replace('-', '_')
        want |= {f'{n}_{x}' for x in suffixes(case['conv'])} | {f'{n}_tvec_{x}' for x in 'xyz'}
        if d.distortion is not None:
            want |= {f'{n}_distortion_param_{i}' for i in range(6)}
        if d.detector_type.lower() == 'cylindrical':
            want |= {f'{n}_radius'}
    ctx.equal(set(pars), want, 'parameter names')
    for x in pars.values():
        ctx.true(x.min < x.value < x.max or (np.isinf(x.min) and np.isinf(x.max)), f'{x.name} starts inside its bounds')
    lp.update_instrument_from_params(inst, pars, cv)
    for k, (R, t) in before.items():
        ctx.close(inst.detectors[k].rmat, R, 1e-6, 0, f'tilt of {k} after a round trip'); ctx.close(inst.detectors[k].tvec, t, 1e-12, 0, 'translation after a round trip')
    for b in inst.beam_names:
        ctx.close(inst.beam_dict[b]['vector'], bd[b]['vector'], 1e-9, 0, 'beam after a round trip'); ctx.close(inst.beam_dict[b]['energy'], bd[b]['energy'], 1e-12, 0, 'energy after a round trip')
        ctx.equal(inst.beam_dict[b]['energy_correction'], bd[b]['energy_correction'], 'energy gradient after a round trip')
    ctx.close(inst.chi, chi, 1e-12, 0, 'chi'); ctx.close(inst.tvec, ts, 0, 0, 'sample translation')
    # set every parameter
    free(pars)
    r = S.rng(case['seed'])
    vals = {}
    for n in sorted(pars):
        v = pars[n].value
        if n.endswith(('polar', 'azimuth')):
            vals[n] = 90 + r.uniform(-15, 15)
        elif 'energy' in n and 'corr' not in n:
            vals[n] = r.uniform(20, 100)
        elif 'radius' in n:
            vals[n] = v * r.uniform(0.9, 1.1)
        elif 'expmap' in n:
            vals[n] = r.uniform(-0.9, 0.9)
        elif 'euler' in n:
            vals[n] = r.uniform(-80, 80)
        elif 'distortion' in n:
            vals[n] = r.uniform(0, 1e-3) if int(n[-1]) < 3 else 2.0
        else:
            vals[n] = v + r.uniform(-1, 1)
        pars[n].value = vals[n]
    lp.update_instrument_from_params(inst, pars, cv)
    for b in inst.beam_names:
        pre = f'{b}_' if many else ''
        ctx.close(inst.beam_dict[b]['vector'], bvec(vals[pre + 'beam_azimuth'], vals[pre + 'beam_polar']), 1e-9, 0, 'beam direction'); ctx.close(inst.beam_dict[b]['energy'], vals[pre + 'beam_energy'], 1e-12, 0, 'energy')
        if bd[b]['energy_correction'] is not None:
            ec = inst.beam_dict[b]['energy_correction']
            ctx.close([ec['slope'], ec['intercept']], [vals[pre + 'beam_energy_correction_slope'], vals[pre + 'beam_energy_correction_intercept']], 1e-12, 0, 'energy gradient')
            ctx.equal(ec['axis'], bd[b]['energy_correction']['axis'], 'axis of the gradient')
    act = inst.active_beam_name
    ctx.close(inst.beam_energy, inst.beam_dict[act]['energy'], 1e-12, 0, 'active energy'); ctx.close(inst.beam_vector, inst.beam_dict[act]['vector'], 1e-12, 0, 'active beam')
    ctx.close(inst.chi, np.radians(vals['instr_chi']), 1e-12, 0, 'chi'); ctx.close(inst.tvec, [vals[f'instr_tvec_{x}'] for x in 'xyz'], 1e-12, 0, 'sample translation')
    for k, d in inst.detectors.items():
        n = k.replace('-', '_')
        ctx.close(d.rmat, rmat_of(case['conv'], [vals[f'{n}_{x}'] for x in suffixes(case['conv'])]), 1e-8, 0, f'tilt of {k}')
        ctx.close(d.tvec, [vals[f'{n}_tvec_{x}'] for x in 'xyz'], 1e-12, 0, f'translation of {k}')
        ctx.close(d.bvec, inst.beam_vector, 1e-12, 0, 'beam seen by a panel')
        if d.distortion is not None:
            ctx.close(d.distortion.params, [vals[f'{n}_distortion_param_{i}'] for i in range(6)], 1e-12, 0, f'distortion of {k}')
        if d.detector_type.lower() == 'cylindrical':
            ctx.close(d.radius, vals[f'{n}_radius'], 1e-12, 0, 'radius')
    # measuring the instrument again gives the same parameters
    again = to_params(lp.create_instr_params(inst, cv))
    lp.fix_detector_y(inst, again)
    ctx.equal({n for n in again if again[n].vary}, {f'{k.replace("-", "_")}_tvec_{x}' for k in inst.detectors for x in 'xz'}, 'parameters that vary by default, y fixed')
    for n in again:
        if 'euler' in n or 'expmap' in n:
            continue
        ctx.close(again[n].value, vals[n], 1e-7, 0, f'{n} read back')


# ---------------------------------------------------------------------------------------------- rigid motion of groups
hist_st = st.lists(st.fixed_dictionaries(dict(tilt=S.vec(-0.5, 0.5), t=S.vec(-5, 5), g=st.integers(0, 2), center=st.sampled_from([None, None, None, 'o', 'm']))), min_size=1, max_size=4)


@sub('C27', 'rigid_motion', st.fixed_dictionaries(dict(c=inst_st, conv=conv_st, kind=st.sampled_from(['system', 'group']), center=st.sampled_from(['mean', 'origin', 'group']), h=hist_st, fix=st.sampled_from([None, None, 'tilt', 'tvec']))), n=260, parts=2,
     rule='histories of tilts and translations of all panels or of groups of panels; non-trivial: two or more steps of two or more panels')
def rigid_motion(case, ctx):
    inst = HEDMInstrument(config(dict(case['c'], panels=(case['c']['panels'] * 2)[:3])))
    cv = convention(case['conv'])
    rc = create_relative_constraints(RelativeConstraintsType.system if case['kind'] == 'system' else RelativeConstraintsType.group, inst)
    cen = case['center']
    if case['kind'] == 'system' and cen == 'group':
        cen = 'mean'
    rc.rotation_center = dict(mean=RotationCenter.instrument_mean_center, origin=RotationCenter.lab_origin, group=RotationCenter.group_mean_center)[cen]
    groups = [None] if case['kind'] == 'system' else list(inst.detector_groups)
    members = {g: [k for k, d in inst.detectors.items() if g is None or d.group == g] for g in groups}
    if not groups:
        raise Skip('no groups')
    start = snapshot(inst)
    pars = to_params(lp.create_instr_params(inst, cv, rc))
    free(pars)
    sf = suffixes(case['conv'])
    pre = {g: 'system' if g is None else g for g in groups}
    for g in groups:
        ctx.close([pars[f'{pre[g]}_{x}'].value for x in sf] + [pars[f'{pre[g]}_tvec_{x}'].value for x in 'xyz'], np.zeros(6), 1e-12, 0, 'relative parameters start at zero')
        for x in sf if case['fix'] == 'tilt' else [f'tvec_{x}' for x in 'xyz'] if case['fix'] == 'tvec' else []:
            pars[f'{pre[g]}_{x}'].vary = False
    # a group that turns about the mean of all panels depends on where the other groups are
    hist_dep = case['kind'] == 'group' and cen == 'mean' and len(inst.detectors) > len(members[groups[0]])
    mean = lambda ks: np.mean([start[k][1] for k in ks], axis=0)
    centre = {g: np.zeros(3) if cen == 'origin' else mean(members[g]) if cen == 'group' else mean(list(start)) for g in groups}
    state = {g: (np.eye(3), np.zeros(3)) for g in groups}
    ctx.nt(len(case['h']) > 1 and max(map(len, members.values())) > 1)
    lp.update_instrument_from_params(inst, pars, cv, rc)
    steps = case['h'] if not hist_dep else case['h'][:1]
    moved = set()
    for s in steps:
        g = groups[s['g'] % len(groups)]
        moved.add(g)
        tilt = np.array(s['tilt']) if case['conv'][0] == 'none' else np.degrees(s['tilt'])
        for x, v in zip(sf, tilt):
            pars[f'{pre[g]}_{x}'].value = v
        for x, v in zip('xyz', s['t']):
            pars[f'{pre[g]}_tvec_{x}'].value = v
        state[g] = (np.eye(3) if case['fix'] == 'tilt' else rmat_of(case['conv'], tilt), np.zeros(3) if case['fix'] == 'tvec' else np.array(s['t']))
        lp.update_instrument_from_params(inst, pars, cv, rc)
        for g2 in groups:
            R, t = state[g2]
            for k in members[g2]:
                ctx.close(inst.detectors[k].rmat, R @ start[k][0], 1e-6, 0, f'tilt of panel {k} of {pre[g2]}')
                ctx.close(inst.detectors[k].tvec, R @ (start[k][1] - centre[g2]) + centre[g2] + t, 1e-5, 0, f'position of panel {k} of {pre[g2]} about {cen}')
        for k in inst.detectors:
            if not any(k in m for m in members.values()):
                ctx.close(inst.detectors[k].tvec, start[k][1], 1e-12, 0, 'a panel without a group stays')
        if not hist_dep:
            again = to_params(lp.create_instr_params(inst, cv, rc))
            for g2 in groups:
                R, t = state[g2]
                ctx.close(rmat_of(case['conv'], [again[f'{pre[g2]}_{x}'].value for x in sf]), R, 1e-6, 0, 'tilt parameters read back')
                ctx.close([again[f'{pre[g2]}_tvec_{x}'].value for x in 'xyz'], t, 1e-12, 0, 'translation parameters read back')
    if hist_dep and len(case['h']) > 1:
        for s in case['h'][1:]:
            g = groups[s['g'] % len(groups)]
            for x, v in zip('xyz', s['t']):
                pars[f'{pre[g]}_tvec_{x}'].value = v
            lp.update_instrument_from_params(inst, pars, cv, rc)
            state[g] = (state[g][0], state[g][1] if case['fix'] == 'tvec' else np.array(s['t']))
        for g2 in groups:
            R, t = state[g2]
            for k in members[g2]:
                ctx.close(inst.detectors[k].rmat, R @ start[k][0], 1e-6, 0, f'tilt of panel {k} of {pre[g2]} after more steps')
                if np.abs(inst.detectors[k].tvec - (R @ (start[k][1] - centre[g2]) + centre[g2] + t)).max() > 1e-5:
                    ctx.known.append('groups that turn about the mean centre of the instrument')
    if not hist_dep:
        for g in groups:
            for n in list(sf) + [f'tvec_{x}' for x in 'xyz']:
                pars[f'{pre[g]}_{n}'].value = 0
        lp.update_instrument_from_params(inst, pars, cv, rc)
        for k in inst.detectors:
            ctx.close(inst.detectors[k].tvec, start[k][1], 1e-5, 0, f'{k} is back where it was'); ctx.close(inst.detectors[k].rmat, start[k][0], 1e-6, 0, 'tilt is back')


# ---------------------------------------------------------------------------------------------- grain and material parameters
ATOM = dict(Z=28, x=[1, 10], y=[1, 5], z=[3, 10], link='none', wrap=[0, 0, 0], occ=1.0, U=0.005, A=[0.0] * 6)
SGS = [225, 229, 194, 167, 136, 62, 14, 2]
gp_st = st.fixed_dictionaries(dict(q=S.quat(), t=S.vec(-2, 2), v=S.vec(-0.05, 0.05, 6)))


class Mat:
    """the parts of a material that grain calibrators use"""
    def __init__(self, pd, name='mat'):
        self.planeData, self.name = pd, name


def gvec12(g):
    q = ref.unit(np.array(g['q'], float)); q = q if q[0] >= 0 else -q
    ang = 2 * math.acos(min(1, q[0])); ax = ref.unit(q[1:]) if np.linalg.norm(q[1:]) > 1e-12 else np.array([1.0, 0, 0])
    return np.r_[ang * ax, g['t'], np.array([1, 1, 1, 0, 0, 0]) + np.array(g['v'])]


@sub('C27', 'crystal_params', st.fixed_dictionaries(dict(s=setup_st, gs=st.lists(gp_st, min_size=1, max_size=3), kinds=st.lists(st.sampled_from(['laue', 'grain']), min_size=3, max_size=3), conv=conv_st, dflt=st.booleans(), seed=S.seeds,
     same=st.booleans(), sg=st.sampled_from(SGS), l6=l6_st, fix=st.booleans())), n=130, parts=3,
     rule='several grains sharing a material, every Euler convention and crystal system; non-trivial: more than one grain')
def crystal_params(case, ctx):
    s = Setup(dict(case['s'], ec=None))
    r = S.rng(case['seed'])
    cv = lp.DEFAULT_EULER_CONVENTION if case['dflt'] else convention(case['conv'])
    conv = ['zxz', False] if case['dflt'] else case['conv']
    cals = []
    names = [k for k in s.inst.detectors]
    for i, (g, kd) in enumerate(zip(case['gs'], case['kinds'])):
        m = Mat(copy.deepcopy(s.pd), 'mat-x' if case['same'] else f'mat_{i}')
        ref_flags = [bool(x) for x in r.integers(0, 2, 12)]
        kw = {} if case['dflt'] else dict(euler_convention=cv)
        picks = {k: {f'{a} {b} {-a}': [float(x) for x in r.uniform(-9, 9, 2 if kd == 'laue' else 3)] for a, b in r.integers(-9, 10, (int(r.integers(0, 5)), 2))} for k in names}
        args = (s.inst, m, gvec12(g))
        if kd == 'laue':
            c = LaueCalibrator(*args, default_refinements=ref_flags, calibration_picks=picks, **kw)
        else:
            c = GrainCalibrator(*args, (-PI, PI), index=i % 2, default_refinements=ref_flags, calibration_picks=picks, **kw)
        ctx.equal({k: {h: [float(x) for x in xy] for h, xy in v.items()} for k, v in c.calibration_picks.items()}, picks, 'picks')
        cals.append((c, ref_flags))
    ctx.nt(len(cals) > 1)
    lst = []
    for c, fl in cals:
        new = c.create_lmfit_params(lst)
        ctx.equal([x[2] for x in new], fl, 'refinement flags')
        lst += new
    lp.validate_params_list(lst)
    ctx.equal(len({x[0] for x in lst}), 12 * len(cals), 'parameter names are distinct')
    pars = to_params(lst)
    for c, _ in cals:
        gp0 = c.grain_params.copy()
        v = [pars[n].value for n in c.param_names]
        ctx.close(rmat_of(conv, v[:3]), ref.e2r(gp0[:3]), 1e-6, 0, 'orientation parameters'); ctx.close(v[3:], gp0[3:], 1e-12, 0, 'other parameters')
        c.update_from_lmfit_params(pars)
        ctx.close(ref.e2r(c.grain_params[:3]), ref.e2r(gp0[:3]), 1e-6, 0, 'orientation after a round trip'); ctx.close(c.grain_params[3:], gp0[3:], 1e-12, 0, 'grain after a round trip')
    free(pars)
    vals = {}
    for c, _ in cals:
        for i, n in enumerate(c.param_names):
            vals[n] = pars[n].value = (r.uniform(-1, 1) if conv[0] == 'none' else r.uniform(-170, 170)) if i < 3 else r.uniform(-2, 2)
    if case['fix']:
        for c, _ in cals:
            for i, n in enumerate(c.param_names):
                pars[n].min, pars[n].max = vals[n] - 0.5, vals[n] + 0.5
            k = int(r.integers(3))
            if k == 0:
                c.fix_strain_to_identity(pars); w = dict(zip(c.param_names[6:], [1, 1, 1, 0, 0, 0]))
            elif k == 1:
                c.fix_translation_to_origin(pars); w = dict.fromkeys(c.param_names[3:6], 0)
            else:
                c.fix_y_to_zero(pars); w = {c.param_names[4]: 0}
            for n, v in w.items():
                ctx.close(pars[n].value, v, 0, 0, f'{n} fixed'); ctx.true(not pars[n].vary, f'{n} does not vary')
                vals[n] = v
            for n in c.param_names:
                ctx.close(pars[n].value, vals[n], 0, 0, f'{n}')
    for c, _ in cals:
        c.update_from_lmfit_params(pars)
        v = np.array([vals[n] for n in c.param_names])
        ctx.close(ref.e2r(c.grain_params[:3]), rmat_of(conv, v[:3]), 1e-6, 0, 'orientation set'); ctx.close(c.grain_params[3:], v[3:], 1e-12, 0, 'grain set')


@sub('C27', 'lattice_params', st.fixed_dictionaries(dict(sg=st.sampled_from(SGS), l6=l6_st, seed=S.seeds, refine=st.booleans(), kev=S.num(30, 80))), n=60, parts=3,
     rule='materials of every crystal system; non-trivial: more than one free lattice parameter')
def lattice_params(case, ctx):
    lp6 = cell_for(case['sg'], case['l6'])
    try:
        m = load(dict(sg=case['sg'], setting=0, lp=lp6, atoms=[ATOM], ani=False, dmin=1.0, kev=60.0), ctx.scratch)
    except IndexError:
        raise Skip('no reflections')
    r = S.rng(case['seed'])
    idx = {'225': [0], '229': [0], '194': [0, 2], '167': [0, 2], '136': [0, 2], '62': [0, 1, 2], '14': [0, 1, 2, 4], '2': list(range(6))}[str(case['sg'])]
    lpn = ['a', 'b', 'c', 'alpha', 'beta', 'gamma']
    fl = [bool(x) for x in r.integers(0, 2, len(idx))] if case['refine'] else None
    m.name = 'a-b'
    lst = lp.create_material_params(m, fl)
    ctx.equal([x[0] for x in lst], [f'a_b_{lpn[i]}' for i in idx], 'free lattice parameters')
    ctx.close([x[1] for x in lst], [lp6[i] for i in idx], 1e-9, 0, 'lattice parameters in angstrom and degrees')
    ctx.equal([x[2] for x in lst], fl or [True] * len(idx), 'refinement flags')
    ctx.nt(len(idx) > 1)
    pars = to_params(lst + [('beam_energy', case['kev'], False)])
    lp.update_material_from_params(pars, m)
    ctx.close(m.unitcell.lparms[:3], np.array(lp6[:3]) / 10, 1e-9, 0, 'lattice after a round trip'); ctx.close(m.unitcell.lparms[3:], lp6[3:], 1e-9, 0, 'angles after a round trip')
    ctx.close(m.planeData.wavelength, KEV / case['kev'], 1e-6, 0, 'wavelength')
    new = list(lp6)
    for i, x in zip(idx, lst):
        new[i] = pars[x[0]].value = lp6[i] * (1 + r.uniform(-0.004, 0.004))
    full = expand(case['sg'], new)
    lp.update_material_from_params(pars, m)
    ctx.close(m.unitcell.lparms[:3], np.array(full[:3]) / 10, 1e-9, 0, 'lattice lengths set'); ctx.close(m.unitcell.lparms[3:], full[3:], 1e-9, 0, 'lattice angles set')
    hk = m.planeData.getHKLs(allHKLs=True).astype(float)
    d = 1 / np.sqrt(np.einsum('ij,jk,ik->i', hk, np.linalg.inv(metric(full)), hk))
    ctx.close(1 / np.linalg.norm(m.planeData.latVecOps['B'] @ hk.T, axis=0), d, 1e-8, 0, 'plane spacings')


def expand(sg, v):
    v = list(v)
    if sg in (225, 229):
        return [v[0]] * 3 + [90] * 3
    if sg in (194, 167):
        return [v[0], v[0], v[2], 90, 90, 120]
    if sg == 136:
        return [v[0], v[0], v[2], 90, 90, 90]
    return v


# ---------------------------------------------------------------------------------------------- residuals
def angles(s, det, xy, b=None):
    """(2theta, eta) of raw points of a panel seen from the sample origin"""
    X = ge_apply(s.c['ge'], np.asarray(xy, float))
    R = ref.e2r(det.tilt)
    d = ref.unit(X[:, :1] * R[:, 0] + X[:, 1:] * R[:, 1] + det.tvec - s.inst.tvec)
    b = s.inst.beam_vector if b is None else b
    q = d @ beam_rmat(b, np.array([1.0, 0, 0]))
    return np.arccos(np.clip(d @ b, -1, 1)), np.arctan2(q[:, 1], q[:, 0])


def points(r, det, n):
    return np.column_stack([r.uniform(-0.48, 0.48, n) * det.col_dim, r.uniform(-0.48, 0.48, n) * det.row_dim])


move_st = st.fixed_dictionaries(dict(tilt=S.vec(-0.05, 0.05), t=S.vec(-0.9, 0.9), de=S.num(-0.15, 0.15), chi=S.num(-0.01, 0.01), ts=S.vec(-0.5, 0.5), beam=st.tuples(S.num(-0.5, 0.5), S.num(-0.5, 0.5))))


def moved(inst, m, cv):
    """parameters of an instrument displaced by m"""
    pars = to_params(lp.create_instr_params(inst, cv))
    pars['beam_energy'].value += m['de']; pars['beam_azimuth'].value += m['beam'][0]; pars['beam_polar'].value += m['beam'][1]
    for k in inst.detectors:
        for x, d in zip('xyz', m['t']):
            pars[f'{k}_tvec_{x}'].value += d * (0.5 if x == 'y' else 1)
        for x, d in zip(suffixes(['zxz'] if cv is not None and (cv[0] if not isinstance(cv, dict) else cv['axes_order']) == 'zxz' else ['none'] if cv is None else ['xyz']), m['tilt']):
            pars[f'{k}_{x}'].value += d if cv is None else np.degrees(d) / 2
    for x, d in zip('xyz', m['ts']):
        pars[f'instr_tvec_{x}'].value += d
    return pars


@sub('C27', 'ring_residuals', st.fixed_dictionaries(dict(s=setup_st, m=move_st, conv=conv_st, seed=S.seeds, kind=st.sampled_from(['powder', 'powder', 'structureless']), empty=st.booleans(), tol=st.one_of(st.none(), S.num(0.05, 2)))), n=200, parts=2,
     rule='picks on one or two distorted panels, measured again after every parameter moved; non-trivial: at least two rings with picks')
def ring_residuals(case, ctx):
    s = Setup(dict(case['s'], ec=None, buf=None))
    cv = convention(case['conv'])
    r = S.rng(case['seed'])
    rings = [(int(h[0]), int(h[1]), int(h[2])) for h in np.array([[1, 1, 1], [2, 0, 0], [2, 2, 0]])[:int(r.integers(1, 4))]]
    picks = {k: {f'{h[0]} {h[1]} {h[2]}': points(r, d, int(r.integers(0, 4))).tolist() for h in rings} for k, d in s.inst.detectors.items()}
    if case['empty'] and case['kind'] == 'powder':
        picks[list(picks)[-1]] = {}
    n = sum(len(v) for p in picks.values() for v in p.values())
    if n == 0:
        raise Skip('no picks')
    ctx.nt(n > 3 and len(rings) > 1); ctx.label(case['kind'])
    a = s.c['a']
    if case['kind'] == 'powder':
        kw = {} if case['tol'] is None else dict(tth_tol=case['tol'])
        cal = PowderCalibrator(s.inst, Mat(s.pd), {k: None for k in s.inst.detectors}, calibration_picks=picks, **kw)
        if case['tol'] is not None:
            ctx.close(cal.tth_tol, case['tol'], 1e-12, 0, '2theta tolerance'); ctx.close(s.pd.tThWidth, np.radians(case['tol']), 1e-12, 0, 'width of the rings')
        if case['tol'] is not None:
            cal.tth_tol = case['tol'] + 1
            if abs(s.pd.tThWidth - np.radians(case['tol'])) < 1e-12:
                ctx.known.append('the tth_tol setter of PowderCalibrator writes back the old tolerance')
            else:
                ctx.close(s.pd.tThWidth, np.radians(case['tol'] + 1), 1e-12, 0, 'width of the rings')
        ctx.equal({k: {h: x for h, x in v.items()} for k, v in cal.calibration_picks.items()}, {k: {h: x for h, x in v.items() if x} for k, v in picks.items()}, 'picks')
    else:
        data = {s.inst.active_beam_name: [{k: np.array(picks[k][h]) for k in picks if len(picks[k][h])} for h in picks['p0']]}
        if not any(data[s.inst.active_beam_name][-1]):
            raise Skip
        cal = StructurelessCalibrator(s.inst, data, euler_convention=cv)
        want = [np.degrees(np.mean(np.concatenate([angles(s, s.inst.detectors[k], v)[0] for k, v in ring.items()]))) if ring else None for ring in data[s.inst.active_beam_name]]
        for i, w in enumerate(want):
            if w is None:
                ctx.true(f'DS_ring_{i}' not in cal.params, 'ring without picks has no parameter')
            else:
                ctx.close(cal.params[f'DS_ring_{i}'].value, w, 1e-6, 0, f'2theta of ring {i}')
    for step in range(2):
        if step:
            pars = moved(s.inst, case['m'], cv)
            if case['kind'] == 'powder':
                lp.update_instrument_from_params(s.inst, pars, cv)
            else:
                for x in cal.params:
                    if x in pars:
                        cal.params[x].value = pars[x].value
                    else:
                        cal.params[x].value += 0.1
        if case['kind'] == 'powder':
            got, model = cal.residual(), cal.model()
            wl = KEV / s.inst.beam_energy
            want, ideal = [], []
            for k, det in s.inst.detectors.items():
                for h, xy in picks[k].items():
                    if not xy:
                        continue
                    sn = wl * math.sqrt(sum(int(v) ** 2 for v in h.split())) / 2 / a
                    tth, eta = angles(s, det, xy)
                    want.append(tth - 2 * math.asin(sn))
                    ideal += [(k, 2 * math.asin(sn), e, t) for e, t in zip(eta, tth)]
            want = np.concatenate(want)
            ctx.close(got, want, 2e-7, 0, 'residuals (radians)')
            for (k, t0, e0, t), xy in zip(ideal, model.reshape(-1, 2)):
                if not np.isfinite(xy).all() or np.hypot(*xy) > 400:
                    continue
                tt, ee = angles(s, s.inst.detectors[k], xy[None])
                ctx.close(tt[0], t0, 1e-6, 0, '2theta of a model point')
                ctx.close(math.remainder(ee[0] - e0, 2 * PI) * math.sin(t0), 0, 1e-6, 0, 'azimuth of a model point')
        else:
            got = cal.residual
            want = []
            for i, ring in enumerate(data[s.inst.active_beam_name]):
                for k in s.inst.detectors:
                    if k in ring:
                        want.append(angles(s, s.inst.detectors[k], ring[k])[0] - np.radians(cal.params[f'DS_ring_{i}'].value))
            ctx.close(got, np.concatenate(want), 2e-7, 0, 'residuals (radians)')


def lab_g(s, gp, h, Rs):
    v = gp[6:] / np.r_[1, 1, 1, [math.sqrt(2)] * 3]
    V = np.array([[v[0], v[5], v[4]], [v[5], v[1], v[3]], [v[4], v[3], v[2]]])
    return Rs @ V @ ref.e2r(gp[:3]) @ (np.array(h, float) / s.c['a'])


def laue_spot(s, det, gp, h, Rs, ts):
    """(ideal xy, tth, eta, d, energy) of the Laue reflection of h or its Friedel mate"""
    g = lab_g(s, gp, h, Rs)
    n = np.linalg.norm(g); u = g / n
    if s.b @ u > 0:
        u = -u
    sn = -(s.b @ u)
    if sn < 1e-9:
        return None
    d = s.b + 2 * sn * u
    q = d @ s.Rb
    P = ts + Rs @ gp[3:6]
    R = ref.e2r(det.tilt)
    dn = d @ R[:, 2]
    k = ((det.tvec - P) @ R[:, 2]) / dn if abs(dn) > 1e-9 else -1
    if k < 0:
        return None
    X = P + k * d - det.tvec
    return np.array([X @ R[:, 0], X @ R[:, 1]]), 2 * math.asin(min(1, sn)), math.atan2(q[1], q[0]), 1 / n, KEV * n / 2 / sn


fried = lambda h: max(tuple(h), tuple(-x for x in h))


@sub('C27', 'laue_pattern', st.fixed_dictionaries(dict(s=setup_st, gs=st.lists(gp_st, min_size=1, max_size=2), lims=st.lists(st.tuples(S.num(4, 60), S.num(1, 60)), min_size=1, max_size=2), multi=st.booleans(), ome=st.one_of(st.none(), S.ang()),
     expl=st.booleans(), dflt=st.just(0))), n=600, parts=4,
     rule='one or two strained grains off the axis on one or two panels, one or several energy bands; non-trivial: some reflections recorded and some not')
def laue_pattern(case, ctx):
    s = Setup(case['s'])
    gps = [gvec12(dict(g, t=[x / 4 for x in g['t']])) for g in case['gs']]
    lims = [(a, a + b) for a, b in case['lims']]
    Rs = np.eye(3) if case['ome'] is None else sample_rmat(0.0, case['ome'])
    hk = sorted({tuple(int(v) for v in x[1:]) for x in s.hkls()})
    if case['multi']:
        lo, hi = [l[0] for l in lims], [l[1] for l in lims]
    else:
        lims = lims[:1]; lo, hi = lims[0]
    data = [np.array(hk).T, np.eye(3) / s.c['a']] if case['expl'] else s.pd
    out = simulate_laue_pattern_on_instrument(s.inst, data, minEnergy=lo, maxEnergy=hi, rmat_s=None if case['ome'] is None else Rs, grain_params=gps)
    seen = missed = 0
    for k, det in s.inst.detectors.items():
        xy, hh, an, dsp, en = out[k]
        ctx.equal(xy.shape[0], len(gps), 'grains')
        for ig, gp in enumerate(gps):
            ok = ~np.isnan(xy[ig][:, 0])
            ctx.true(not np.isnan(hh[ig][:, ok]).any() and np.isnan(hh[ig][:, ~ok]).all() and np.isnan(en[ig][~ok]).all() and np.isnan(an[ig][~ok]).all() and np.isnan(dsp[ig][~ok]).all(), 'reflections that are not recorded are NaN everywhere')
            got = {}
            for j in np.where(ok)[0]:
                h = tuple(int(round(x)) for x in hh[ig][:, j])
                got.setdefault(fried(h), []).append(j)
            if case['expl']:
                at = [hk.index(tuple(int(round(x)) for x in hh[ig][:, j])) for j in np.where(ok)[0]]
                ctx.true(at == sorted(set(at)), 'explicit reflections keep their order')
            known = {fried(h) for h in hk}
            ctx.true(set(got) <= known, 'only reflections of the crystal')
            for h in known:
                w = laue_spot(s, det, gp, h, Rs, s.ts)
                if w is None or not np.isfinite(w[0]).all() or np.abs(w[0]).max() > 2000:
                    ctx.true(h not in got or w is not None, f'{h} cannot reach the panel')
                    continue
                P, tth, eta, d, E = w
                if h in got:
                    seen += 1
                    for j in got[h]:
                        ctx.close(ge_apply(s.c['ge'], xy[ig][j]), P, 2e-4, 1e-6, f'position of {h}'); ctx.close(an[ig][j, 0], tth, 1e-7, 0, '2theta')
                        ctx.close(math.remainder(an[ig][j, 1] - eta, 2 * PI) * math.sin(tth), 0, 1e-7, 0, 'eta')
                        ctx.close(dsp[ig][j], d, 1e-9, 0, 'plane spacing'); ctx.close(en[ig][j], E, 0, 1e-6, 'energy (keV)')
                        ctx.true(any(a * (1 - 1e-6) <= E <= b * (1 + 1e-6) for a, b in lims), f'energy {E} of {h} in the bands {lims}')
                        ctx.true(s.on_panel(det, xy[ig][j:j + 1])[0] > -1e-6, 'on the panel')
                else:
                    missed += 1
                    if any(a * (1 + 1e-6) < E < b * (1 - 1e-6) for a, b in lims):
                        q = warp(s.c['ge'], P[None])
                        if np.isfinite(q).all() and np.abs(ge_apply(s.c['ge'], q) - P).max() < 1e-6 and np.abs(q).max() < 300:
                            ctx.true(s.on_panel(det, q)[0] < 1e-4, f'reflection {h} with {E} keV at {q} is missing')
    ctx.nt(seen and missed)


@sub('C27', 'spot_residuals', st.fixed_dictionaries(dict(s=setup_st, m=move_st, conv=conv_st, seed=S.seeds, kind=st.sampled_from(['laue', 'grain']), de=S.vec(-0.01, 0.01), dt=S.vec(-0.2, 0.2), dv=S.vec(-1e-3, 1e-3, 6), nopick=st.booleans(), nan=st.booleans())), n=320, parts=3,
     rule='picks of rotating or polychromatic crystals measured again after the instrument and the grain moved; non-trivial: at least five picks')
def spot_residuals(case, ctx):
    c = dict(case['s'], buf=None)
    s = Setup(c)
    cv = convention(case['conv'])
    r = S.rng(case['seed'])
    ctx.label(case['kind'])
    m = case['m']
    move = lambda s_: lp.update_instrument_from_params(s_.inst, moved(s_.inst, m, cv), cv)
    if case['kind'] == 'grain':
        sp = spots_of(s, case['seed'])
        for k in sp:
            uniq = {}
            for row in sp[k]:
                uniq.setdefault(row[0], row)
            sp[k] = list(uniq.values())
        if case['nopick']:
            sp[list(sp)[-1]] = []
        n = sum(map(len, sp.values()))
        if n == 0:
            raise Skip
        picks = {k: {'%d %d %d' % tuple(x[0]): [*x[1], x[5]] for x in v} for k, v in sp.items()}
        if case['nan']:
            for v in picks.values():
                v['9 9 8'] = [np.nan] * 3
        # the instrument after the move, and the predictions from it
        move(s)
        s1 = shifted(c, case['de'], case['dt'], case['dv'])
        move(s1)
        s1.b = s1.inst.beam_vector; s1.Rb = beam_rmat(s1.b, np.array([1.0, 0, 0])); s1.ts = s1.inst.tvec.copy(); s1.c = dict(s1.c, chi=s1.inst.chi)
        e = s1.inst.beam_energy
        if c['ec']:
            i = 'xy'.index(c['ec']['axis'])
            e = e + (s1.tc[i] + s1.ts[i] - c['ec']['intercept']) * c['ec']['slope'] / 1000
            if e < 5:
                raise Skip
        s1.wlc = KEV / e
        want = expected(s1, sp)
        cal = GrainCalibrator(s.inst, Mat(s.pd), s1.gp, (-PI, PI), calibration_picks=picks, euler_convention=cv)
        if want is None:
            raise Skip('infeasible')
        ctx.nt(n >= 5)
        got, sim = cal.residual().reshape(-1, 3), cal.model()
        keys = [k for k in sp if sp[k]]
        W = np.vstack([want[k] for k in keys]); M = np.array([[*x[2], x[5]] for k in keys for x in sp[k]])
        ctx.close(got[:, :2], W[:, :2] - M[:, :2], 2e-4, 0, 'position residuals'); ctx.close(np.abs(got[:, 2]), W[:, 3], 1e-6, 0, 'omega residuals')
        for k in keys:
            ctx.close(np.asarray(sim[k][0])[:, :2], want[k][:, :2], 2e-4, 0, 'model')
        return
    gp = s.gp
    lo, hi = 5.0, 90.0
    sp = {}
    hk = s.hkls()
    for k, det in s.inst.detectors.items():
        sp[k] = []
        for row in hk:
            h = tuple(int(x) for x in row[1:])
            w = laue_spot(s, det, gp, h, np.eye(3), s.ts)
            if w is not None and 8 < w[4] < 80 and s.b @ lab_g(s, gp, h, np.eye(3)) < 0:
                q = warp(c['ge'], w[0][None])
                if np.isfinite(q).all() and np.abs(ge_apply(c['ge'], q) - w[0]).max() < 1e-9 and s.on_panel(det, q)[0] > 12:
                    sp[k].append((h, q[0]))
    if case['nopick']:
        sp[list(sp)[-1]] = []
    n = sum(map(len, sp.values()))
    if n == 0:
        raise Skip
    ctx.nt(n >= 5)
    picks = {k: {'%d %d %d' % h: list(q) for h, q in v} for k, v in sp.items()}
    if case['nan']:
        for v in picks.values():
            v['9 9 8'] = [np.nan] * 2
    move(s)
    s1 = shifted(c, case['de'], case['dt'], case['dv'])
    cal = LaueCalibrator(s.inst, Mat(s.pd), s1.gp, min_energy=lo, max_energy=hi, calibration_picks=picks, euler_convention=cv)
    s.b = s.inst.beam_vector; s.Rb = beam_rmat(s.b, np.array([1.0, 0, 0]))
    want, model = [], {}
    for k, v in sp.items():
        det = s.inst.detectors[k]
        model[k] = []
        for h, q in v:
            w = laue_spot(s, det, s1.gp, h, np.eye(3), s.inst.tvec)
            if w is None:
                raise Skip
            q1 = warp(c['ge'], w[0][None])[0]
            if not np.isfinite(q1).all() or s.on_panel(det, q1[None])[0] < 1e-3 or not 5.01 < w[4] < 89.9:
                raise Skip('leaves the panel')
            want.append(q1 - q); model[k].append([q1, w[1], w[2]])
    ctx.close(cal.residual().reshape(-1, 2), np.array(want), 1e-3, 1e-6, 'position residuals')
    sim = cal.model()
    for k in sp:
        if model[k]:
            ctx.close(sim[k][0], np.array([x[0] for x in model[k]]), 1e-3, 1e-6, 'model positions'); ctx.close(sim[k][1][:, 0], np.array([x[1] for x in model[k]]), 1e-6, 0, 'model 2theta')


# ---------------------------------------------------------------------------------------------- calibrations
@sub('C27', 'calibrate', st.fixed_dictionaries(dict(s=setup_st, m=move_st, conv=conv_st, seed=S.seeds, kind=st.sampled_from(['powder', 'structureless', 'grain', 'both']), rc=st.sampled_from(['none', 'none', 'system']), tilt=st.booleans())), n=60, parts=6,
     rule='exact picks of a displaced instrument; non-trivial: every case')
def calibrate(case, ctx):
    c = dict(case['s'], buf=None, ec=None, nfam=5, two=case['s']['two'] or case['kind'] == 'structureless')
    s = Setup(c)
    cv = convention(case['conv'])
    r = S.rng(case['seed'])
    rings = [[1, 1, 1], [2, 0, 0], [2, 2, 0], [3, 1, 1]]
    z = Setup(dict(c, g=dict(c['g'], t=[0, 0, 0]), chi=0))
    kind = case['kind']; ctx.label(kind)
    picks = {k: {} for k in s.inst.detectors}
    for h in rings:
        sn = s.wl * math.sqrt(np.dot(h, h)) / 2 / c['a']
        if sn > 0.9:
            continue
        for k, det in s.inst.detectors.items():
            et = r.uniform(-PI, PI, 25)
            P = z.project(det, np.full(25, 2 * math.asin(sn)), et, np.zeros(25))
            q = warp(c['ge'], P)
            ok = np.isfinite(P).all(axis=1) & (np.abs(P).max(axis=1) < 300)
            ok[ok] &= np.abs(ge_apply(c['ge'], q[ok]) - P[ok]).max(axis=1) < 1e-8
            picks[k]['%d %d %d' % tuple(h)] = q[ok].tolist()
    true = snapshot(s.inst)
    nm = {k: [x for x in suffixes(case['conv'])] for k in s.inst.detectors}
    if kind == 'structureless':
        bn = s.inst.active_beam_name
        data = {bn: [{k: np.array(picks[k][h]) for k in picks if len(picks[k].get(h, []))} for h in picks['p0']]}
        data[bn] = [x for x in data[bn] if x]
        if len(data[bn]) < 2:
            raise Skip
    npk = sum(len(v) for p in picks.values() for v in p.values())
    if npk < 20:
        raise Skip('few picks')
    ctx.nt(True)
    # displace
    dt = np.array(case['m']['t']) * [0.6, 0.3, 0.6]
    de = np.array(case['m']['tilt']) / 10 if case['tilt'] else np.zeros(3)
    for k, det in s.inst.detectors.items():
        det.tvec = det.tvec + dt
    rct = RelativeConstraintsType.system if case['rc'] == 'system' else RelativeConstraintsType.none
    if kind == 'structureless':
        cal = StructurelessCalibrator(s.inst, data, euler_convention=cv, relative_constraints_type=rct)
        r0 = cal.residual.copy()
    else:
        cals = []
        if kind in ('powder', 'both'):
            cals.append(PowderCalibrator(s.inst, Mat(s.pd), {k: None for k in s.inst.detectors}, calibration_picks=picks))
            cals[-1].create_lmfit_params = lambda cur: []
        if kind in ('grain', 'both'):
            sp = spots_of(Setup(c), case['seed'])
            gpk = {k: {'%d %d %d' % tuple(x[0]): [*x[1], x[5]] for x in v} for k, v in sp.items()}
            if sum(map(len, gpk.values())) < 6 or not all(gpk.values()):
                raise Skip('few spots')
            cals.append(GrainCalibrator(s.inst, Mat(s.pd), s.gp.copy(), (-PI, PI), default_refinements=[False] * 12, calibration_picks=gpk, euler_convention=cv))
        cal = InstrumentCalibrator(*cals, euler_convention=cv, relative_constraints_type=rct)
        r0 = cal.residual().copy()
    for n in cal.params:
        if any(n.endswith(x) for x in suffixes(case['conv'])):
            cal.params[n].vary = False
    vary = [n for n in cal.params if cal.params[n].vary]
    fixed = {n: cal.params[n].value for n in cal.params if not cal.params[n].vary}
    try:
        res = cal.run_calibration(odict=dict(verbose=0))
    except RuntimeError as e:
        if 'nfeasible' in str(e):
            raise Skip
        raise
    r1 = cal.residual if kind == 'structureless' else cal.residual()
    ctx.true((r1 ** 2).sum() <= (r0 ** 2).sum() * (1 + 1e-9) + 1e-16, 'the calibration does not make the residual worse')
    for n, v in fixed.items():
        ctx.close(cal.params[n].value, v, 1e-12, 0, f'fixed {n}')
    for n in vary:
        p = cal.params[n]
        ctx.true(p.min - 1e-9 <= p.value <= p.max + 1e-9, f'{n} inside its bounds')
    # what was found: independent measure of the residual at the calibrated instrument
    if kind in ('powder', 'both'):
        wl = KEV / s.inst.beam_energy
        w = np.concatenate([angles(s, s.inst.detectors[k], v)[0] - 2 * math.asin(wl * math.sqrt(sum(int(x) ** 2 for x in h.split())) / 2 / c['a']) for k, p in picks.items() for h, v in p.items() if v])
        ctx.close(r1[:len(w)], w, 1e-7, 0, 'the instrument holds the calibrated parameters')
    J = None
    if kind != 'structureless':
        def f(x):
            p = copy.deepcopy(cal.params)
            for n, v in zip(vary, x):
                p[n].value = v
            return cal.minimizer_function(p)
        x0 = np.array([cal.params[n].value for n in vary])
        J = np.array([(f(x0 + 1e-5 * e) - f(x0 - 1e-5 * e)) / 2e-5 for e in np.eye(len(vary))]).T
        f(x0)
        sv = np.linalg.svd(J, compute_uv=False)
        good = sv[-1] > 1e-3 * sv[0] and sv[-1] > 1e-4
        if good:
            ctx.label('determined')
            ctx.close(r1, np.zeros(len(r1)), 1e-5, 0, 'residual of the calibrated instrument')
            for k, (R, t) in true.items():
                ctx.close(s.inst.detectors[k].tvec, t, 2e-2, 0, f'recovered position of {k}')
                ctx.close(s.inst.detectors[k].rmat, R, 1e-6, 0, 'tilt')
    else:
        ctx.true((r1 ** 2).sum() < max(1e-3 * (r0 ** 2).sum(), 1e-10) or (r0 ** 2).sum() < 1e-7, f'structureless calibration reduced {(r0 ** 2).sum():.3g} to {(r1 ** 2).sum():.3g}')
