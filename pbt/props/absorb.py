"""C29: attenuation lengths, transmissions through layers, pinhole corrections."""
import copy
import math
import os

import numpy as np
from hypothesis import strategies as st

from hexrd.core import constants as ct
from hexrd.core.instrument import detector_coatings as dc
from hexrd.core.instrument.hedm_instrument import HEDMInstrument
from hexrd.core.instrument.physics_package import HEDPhysicsPackage, HEDMPhysicsPackage
from hexrd.core.material import utils as mu
from hexrd.hed.xrdutil import phutil
from pbt import ref
from pbt.core import sub, Skip
from pbt import strat as S
from pbt.props.detector import angs_of, build, ge_apply, lab_normals, lab_points, panel_st
from pbt.props.transforms import beam_rmat, dvec_lab

PI = math.pi
ELS = ['H', 'Li', 'Be', 'C', 'O', 'F', 'Al', 'Si', 'Ti', 'Fe', 'Cu', 'Ge', 'Br', 'I', 'Ba', 'Ta', 'W', 'Au', 'Pb', 'U']
TABLE = {}


def table(el):
    if el not in TABLE:
        import h5py
        import importlib.resources
        import hexrd.core.resources as r
        with h5py.File(str(importlib.resources.files(r) / 'mu_en.h5'), 'r') as f:
            TABLE[el] = f[el]['data'][()]
    return TABLE[el]


def mass_coefficient(el, E, col):
    """log-log interpolation between the two neighbouring energies of the table [cm^2/g]"""
    d = table(el)
    i = int(np.searchsorted(d[:, 0], E)) - 1
    i = max(0, min(i, len(d) - 2))
    a, b = d[i], d[i + 1]
    t = (math.log(E) - math.log(a[0])) / (math.log(b[0]) - math.log(a[0]))
    return math.exp((1 - t) * math.log(a[col]) + t * math.log(b[col]))


def length(comp, rho, E, col=1):
    """attenuation length in microns"""
    m = {k: v * ct.ATOM_WEIGHTS_DICT[k] for k, v in comp.items()}
    tot = sum(m.values())
    return 1e4 / (rho * sum(w / tot * mass_coefficient(k, E, col) for k, w in m.items()))


comp_st = st.dictionaries(st.sampled_from(ELS), st.integers(1, 40), min_size=1, max_size=4)
layer_st = st.fixed_dictionaries(dict(comp=comp_st, rho=S.num(0.1, 20), t=st.one_of(st.just(0.0), S.num(0.5, 200)), named=st.booleans()))
energy_st = S.num(2, 120).map(lambda e: e * 1.0000037)


def text(comp):
    return ''.join(f'{k}{v}' if v > 1 else k for k, v in comp.items())


def kwargs(l):
    """The chemical formula is the name of the material, or given besides it."""
    f = text(l['comp'])
    return dict(material='some stuff', formula=f) if l['named'] else dict(material=f)


@sub('C29', 'attenuation', st.fixed_dictionaries(dict(layer=layer_st, E=st.lists(energy_st, min_size=1, max_size=5), Q=st.lists(S.num(0.1, 40), min_size=1, max_size=5), wl=S.num(0.1, 2), kind=st.sampled_from(['filter', 'coating', 'phosphor']),
                                                     L=S.num(1, 300), U0=S.num(0.1, 2))), n=600, rule='a compound')
def attenuation(case, ctx):
    l, E = case['layer'], case['E']
    comp = l['comp']
    ctx.nt(len(comp) > 1)
    want = [length(comp, l['rho'], e) for e in E]
    wen = [length(comp, l['rho'], e, 2) for e in E]
    ctx.close(mu.calculate_linear_absorption_length(l['rho'], text(comp), np.array(E)), want, 0, 1e-9, 'attenuation length of a formula')
    ctx.close(mu.calculate_linear_absorption_length(l['rho'], dict(comp), np.array(E)), want, 0, 1e-9, 'attenuation length of a composition')
    ctx.close(mu.calculate_energy_absorption_length(l['rho'], text(comp), np.array(E)), wen, 0, 1e-9, 'energy absorption length')
    M = sum(v * ct.ATOM_WEIGHTS_DICT[k] for k, v in comp.items())
    ctx.close([mu.calculate_molecular_mass(text(comp)), mu.calculate_molecular_mass(comp)], [M, M], 0, 1e-12, 'molecular mass')
    ctx.close(mu.calculate_number_density(l['rho'], text(comp)), l['rho'] / M * 602.21407599999999, 0, 1e-6, 'formula units per nm^3')
    n = sum(comp.values())
    ctx.close(mu.convert_density_to_atoms_per_cubic_angstrom(comp, l['rho']), l['rho'] / M * n * 0.602214129, 0, 1e-9, 'atoms per cubic angstrom')
    # layers
    kw = dict(kwargs(l), density=l['rho'], thickness=l['t'])
    if case['kind'] == 'phosphor':
        kw.update(readout_length=case['L'], pre_U0=case['U0'])
    obj = dict(filter=dc.Filter, coating=dc.Coating, phosphor=dc.Phosphor)[case['kind']](**kw)
    for i in range(2):
        ctx.close(obj.absorption_length(E[0]), want[0], 0, 1e-9, 'attenuation length of a layer')
        ctx.close(np.atleast_1d(obj.absorption_length(np.array(E))), want, 0, 1e-9, 'attenuation lengths of a layer')
        ctx.close(np.atleast_1d(obj.energy_absorption_length(list(E))), wen, 0, 1e-9, 'energy absorption lengths of a layer')
        d = obj.serialize()
        for k, v in kw.items():
            ctx.equal(d[k], v, f'{k} of the saved layer')
        new = type(obj)(**{k: None for k in kw})
        ctx.equal([new.density, new.thickness], [0.0, 0.0], 'empty layer')
        new.deserialize(**d)
        ctx.equal(new.serialize(), d, 'layer saved and read')
        obj = new
    pk = HEDPhysicsPackage()
    name = ('sample', 'window', 'ablator')[len(comp) % 3]
    for k, v in kw.items():
        if k in ('material', 'formula', 'density', 'thickness'):
            setattr(pk, f'{name}_{k}', v)
    ctx.close(getattr(pk, f'{name}_absorption_length')(E[0]), want[0], 0, 1e-9, 'attenuation length of a layer of the package')
    ctx.close(np.atleast_1d(pk.absorption_length(np.array(E), name)), want, 0, 1e-9, 'attenuation lengths of a layer of the package')
    # scattering power of the composition
    Q = np.array(case['Q'])
    f = {k: ct.scatfac[k][5] + sum(ct.scatfac[k][j] * np.exp(-ct.scatfac[k][j + 6] * (Q / 4 / PI) ** 2) for j in range(5)) for k in comp}
    ctx.close(mu.calculate_f_squared_mean(text(comp), Q), sum(v / n * f[k] ** 2 for k, v in comp.items()), 0, 1e-9, 'mean square form factor')
    ctx.close(mu.calculate_f_mean_squared(text(comp), Q), sum(v / n * f[k] for k, v in comp.items()) ** 2, 0, 1e-9, 'squared mean form factor')
    S1 = {k: mu.calculate_incoherent_scattering_factor(k, Q) for k in comp}
    for k in comp:
        Z = ct.ptable[k]
        ctx.true(np.all((S1[k] >= -0.01 * Z) & (S1[k] <= 1.01 * Z)), 'incoherent scattering of at most all electrons')
    ctx.close(mu.calculate_incoherent_scattering(text(comp), Q), sum(v / n * S1[k] for k, v in comp.items()), 1e-12, 1e-9, 'incoherent intensity of a composition')


@sub('C29', 'package_layers', st.fixed_dictionaries(dict(v=st.lists(st.tuples(st.sampled_from(HEDPhysicsPackage.LAYER_TYPES), st.sampled_from(['material', 'density', 'thickness', 'formula', 'diameter', 'radius']), S.num(0.1, 300)), max_size=12),
                                                        hedm=st.booleans(), how=st.booleans())), n=300, rule='several settings')
def package_layers(case, ctx):
    """Histories of settings of a package against a dictionary."""
    L = HEDPhysicsPackage.LAYER_TYPES
    model = {n: dict(name=n, material='', density=0, thickness=0, formula=None) for n in L}
    model['pinhole']['diameter'] = 0
    pk = HEDPhysicsPackage()
    for n, a, v in case['v']:
        if a in ('diameter', 'radius') and n != 'pinhole':
            continue
        val = ('Fe', 'LiF', 'Au')[int(v) % 3] if a in ('material', 'formula') else v
        setattr(pk, f'{n}_{a}', val)
        if a == 'radius':
            model[n]['diameter'] = 2 * val
        else:
            model[n][a] = val
    ctx.nt(len(case['v']) > 2)
    flat = {f'{n}_{a}': v for n, d in model.items() for a, v in d.items()}
    ctx.equal(pk.serialize(), flat, 'saved package')
    p2 = HEDPhysicsPackage(**pk.serialize()) if case['how'] else HEDPhysicsPackage()
    if not case['how']:
        p2.deserialize(**pk.serialize())
    p3 = copy.deepcopy(pk)
    pk.sample_thickness = -1.0
    for q in (p2, p3):
        ctx.equal(q.serialize(), flat, 'package saved and read, or copied')
        ctx.equal(q.pinhole_radius, 0.5 * model['pinhole']['diameter'], 'radius of the pinhole')
        for i, n in enumerate(L):
            ctx.equal(q.layer_thickness(n), model[n]['thickness'], 'thickness of a layer')
            if n != 'pinhole':
                ctx.close(q.layer_standoff(n), sum(model[k]['thickness'] for k in L[i + 1:-1]), 1e-9, 1e-12, 'distance of a layer from the pinhole')
    h = HEDMPhysicsPackage(sample_material='Al', sample_thickness=3.0, sample_geometry='cylinder' if case['hedm'] else 'slab')
    ctx.equal(h.type, 'HEDM', 'type'); ctx.equal(pk.type, 'HED', 'type')
    if case['hedm']:
        ctx.equal(h.sample_diameter, 3.0, 'diameter of a cylinder')
    else:
        ctx.raises(Exception, lambda: h.sample_diameter, 'a slab has no diameter')


GLX, GLW = np.polynomial.legendre.leggauss(60)


def mean_path(x1, x2):
    """(1/t) integral of exp(-mu1 z) exp(-mu2 (t - z)), for mu1 t = x1 and mu2 t = x2."""
    u = (GLX + 1) / 2
    out = 0.0
    for k in range(8):
        z = (k + u) / 8
        out = out + np.sum(GLW / 16 * np.exp(-np.multiply.outer(x1, z) - np.multiply.outer(x2, 1 - z)), axis=-1)
    return out


def package(case):
    pk = HEDPhysicsPackage()
    for n in ('sample', 'window'):
        l = case[n]
        for k, v in dict(kwargs(l), density=l['rho'], thickness=l['t']).items():
            setattr(pk, f'{n}_{k}', v)
    pk.pinhole_thickness = case['ph'][0]; pk.pinhole_diameter = case['ph'][1]
    return pk


def optical(l, E):
    return np.array(l['t']) / length(l['comp'], l['rho'], E)


@sub('C29', 'transmission', st.fixed_dictionaries(dict(p=panel_st, kind=st.sampled_from(['planar', 'cylindrical']), sample=layer_st, window=layer_st, filter=layer_st, coating=layer_st, phosphor=layer_st, L=S.num(20, 300), U0=S.num(0.2, 2),
                                                      E=energy_st.filter(lambda e: e > 5), rs=S.expmap(0.6), ph=st.tuples(st.one_of(st.just(0.0), S.num(20, 300)), st.one_of(st.just(0.0), S.num(100, 800))), back=st.booleans())), n=260, parts=2,
     rule='sample, window and a tilted sample or beam')
def transmission(case, ctx):
    p = dict(case['p'])
    if case['kind'] == 'cylindrical':
        p['ge'] = None
    lay = {k: case[k] for k in ('filter', 'coating', 'phosphor')}
    mk = lambda l: dict(kwargs(l), density=l['rho'], thickness=l['t'])
    det = build(p, case['kind'], detector_filter=dc.Filter(**mk(lay['filter'])), detector_coating=dc.Coating(**mk(lay['coating'])), phosphor=dc.Phosphor(**mk(lay['phosphor']), readout_length=case['L'], pre_U0=case['U0']))
    E = case['E']
    ctx.label(case['kind'])
    y, x = det.pixel_coords
    xy = np.vstack([x.ravel(), y.ravel()]).T
    xyd = ge_apply(p, xy)
    P = lab_points(det, xyd, case['kind'])
    d = P / np.linalg.norm(P, axis=1)[:, None]
    b = np.array(p['be'][0])
    cosd = -np.sum(lab_normals(det, xyd, case['kind']) * d, axis=1)
    if np.any(cosd < 0.05):
        raise Skip
    # filter and coating in front of the panel
    sec = 1 / cosd.reshape(det.shape)
    tfc, tp = det.calc_filter_coating_transmission(E)
    ctx.close(tfc, np.exp(-(optical(lay['filter'], E) + optical(lay['coating'], E)) * sec), 1e-12, 1e-7, 'filter and coating')
    if lay['phosphor']['t'] == 0:
        ctx.array_equal(tp, np.ones(det.shape), 'no phosphor')
    else:
        # signal read out of the phosphor (Stoeckl and Solodov)
        al = length(lay['phosphor']['comp'], lay['phosphor']['rho'], E, 2)
        t, L = lay['phosphor']['t'], case['L']
        k = sec + al / L
        want = case['U0'] * E * (1 - np.exp(-t / al * k)) / k
        if not np.allclose(tp, want, rtol=1e-6, atol=0):
            # the two lengths arrive in the wrong order, and are multiplied
            ctx.known.append('the phosphor response swaps readout and absorption length, and multiplies by them')
            k = sec + 1 / (al * L)
            ctx.close(tp, case['U0'] * E * (1 - np.exp(-t * L * k)) / k, 0, 1e-6, 'phosphor')
    # sample and window
    pk = package(case)
    R = ref.e2r(case['rs'])
    nrm = R @ np.array([0, 0, np.sign(b[2])])
    ca = nrm @ b
    if ca < 0.1:
        raise Skip
    cb = (d @ nrm).reshape(det.shape)
    if np.any(abs(cb - 0.05) < 1e-6):
        raise Skip
    cb = np.where(cb <= 0.05, np.nan, cb)
    ctx.nt(case['sample']['t'] > 0 and case['window']['t'] > 0)
    xs, xw = optical(case['sample'], E), optical(case['window'], E)
    ts = mean_path(xs / ca, xs / cb) * np.exp(-xw / cb)
    nz = lambda v: np.where(np.isnan(cb), np.nan, v) if case['sample']['t'] or case['window']['t'] else v
    if not (case['sample']['t'] or case['window']['t']):
        ts = np.ones(det.shape)
    got = det.calc_physics_package_transmission(E, R, pk)
    ctx.close(got, ts, 1e-11, 1e-6, 'mean transmission through sample and window', nan=True)
    # inelastic scattering in the sample or in the window
    c2 = 1 / (1 + E / 510.998950 * (1 - np.clip(d @ b, -1, 1)))
    E2 = E * c2
    ctx.close(det.pixel_compton_energy_loss(E), E2.reshape(det.shape), 0, 1e-8, 'energy of inelastically scattered photons')
    if np.all(E2 > 1.2):
        ys = np.array([optical(case['sample'], e) for e in E2]).reshape(det.shape)
        yw = np.array([optical(case['window'], e) for e in E2]).reshape(det.shape)
        wS = mean_path(xs / ca, ys / cb) * np.exp(-yw / cb)
        wW = mean_path(xw / ca, yw / cb) * np.exp(-xs / ca)
        for nm, w, l in (('sample', wS, 'window'), ('window', wW, 'sample')):
            f = det.calc_compton_physics_package_transmission if nm == 'sample' else det.calc_compton_window_transmission
            g = f(E, R, pk)
            if case['sample']['t'] and case['window']['t']:
                ctx.close(g, w, 1e-11, 1e-6, f'inelastic photons of the {nm}', nan=True)
            else:
                ok = np.isfinite(w)
                ctx.close(g[ok], w[ok], 1e-11, 1e-6, f'inelastic photons of the {nm}')
        Q = 4 * PI * np.sin(np.arccos(np.clip(d @ b, -1, 1)) / 2) / (12.398419843320026 / E)
        ctx.close(det.pixel_Q(E), Q.reshape(det.shape), 1e-6, 1e-8, 'momentum transfer')
        if Q.max() < 80 and case['sample']['t'] and case['window']['t']:
            inc = [mu.calculate_incoherent_scattering(text(case[n]['comp']), det.pixel_Q(E).ravel()).reshape(det.shape) for n in ('sample', 'window')]
            tot, t1, t2 = det.compute_compton_scattering_intensity(E, R, pk)
            ctx.close(tot, inc[0] * wS + inc[1] * wW, 1e-9, 1e-6, 'inelastic intensity', nan=True)
            ctx.close(t1, wS, 1e-11, 1e-6, 'inelastic photons of the sample', nan=True); ctx.close(t2, wW, 1e-11, 1e-6, 'inelastic photons of the window', nan=True)
    # open area of the pinhole, seen from the pixel
    area = det.calc_effective_pinhole_area(pk)
    h, w = case['ph']
    if h == 0 or w == 0:
        ctx.array_equal(area, np.ones(det.shape), 'no pinhole')
    else:
        cz = d[:, 2] * np.sign(b[2])
        if np.all(cz > 0.05):
            s = (h / w * np.sqrt(1 - np.minimum(cz, 1) ** 2) / cz).reshape(det.shape)
            if not np.any(abs(s - 1) < 1e-6):
                # two discs of diameter 1 shifted by s
                with np.errstate(invalid='ignore'):
                    want = np.where(s < 1, 0.5 * (np.arccos(s) - s * np.sqrt(1 - s * s)), np.nan)
                ctx.close(area, want, np.where(s < 1.01e-4, 6e-5, 1e-6), 1e-6, 'overlap of the two ends of the pinhole', nan=True)
    det.physics_package = None


def instrument(case, be=None):
    """An instrument of one to three panels around the beam."""
    b, e = be or case['be']
    cfg = dict(beam=dict(energy=case.get('E', 20.0), vector=dict(azimuth=0.0, polar_angle=90.0), source_distance=case['D']), oscillation_stage=dict(chi=0.0, translation=[0.0] * 3), detectors={})
    for i, q in enumerate(case['panels']):
        cfg['detectors'][q['name'] + (str(i) if i else '')] = dict(
            pixels=dict(rows=q['rows'], columns=q['cols'], size=list(q['ps'])), saturation_level=10000,
            transform=dict(translation=list(q['t']), tilt=list(q['tilt'])))
    ins = HEDMInstrument(cfg)
    ins.beam_vector = np.array(b) / np.linalg.norm(b)
    ins.eta_vector = np.array(e) / np.linalg.norm(e)
    ins.source_distance = float(case['D'])
    return ins


def unit_ok(v):
    v = np.array(v)
    for i in range(4):
        v = v / np.linalg.norm(v)
    return abs(np.linalg.norm(v) - 1) <= np.finfo(float).eps


pan_st = st.fixed_dictionaries(dict(rows=st.integers(2, 8), cols=st.integers(2, 8), ps=st.tuples(S.num(1, 8), S.num(1, 8)), t=st.tuples(S.num(-50, 50), S.num(-50, 50), S.num(-150, -50)), tilt=S.expmap(0.4), name=st.sampled_from(['IMAGE-PLATE-2', 'IMAGE-PLATE-L', 'CAMERA-1'])))
pin_st = dict(panels=st.lists(pan_st, min_size=1, max_size=2), az=S.ang(), pol=st.one_of(st.just(0.0), S.num(0, 0.7)), eaz=S.ang(), D=S.num(20, 400), pt=S.num(0.02, 0.3), pr=S.num(0.05, 0.4), so=S.num(0, 1), lt=S.num(0.005, 0.3))


def beam(case):
    a, p = case['az'], case['pol']
    b = -np.array([math.sin(p) * math.cos(a), math.sin(p) * math.sin(a), math.cos(p)])
    e = np.array([math.cos(case['eaz']), math.sin(case['eaz']), 0.0])
    for i in range(3):
        b = b / np.linalg.norm(b); e = e / np.linalg.norm(e)
    for v in (b, e):
        if abs(np.linalg.norm(v) - 1) > np.finfo(float).eps:
            raise Skip
    return b, e


def pix(det):
    y, x = det.pixel_coords
    return np.vstack([x.ravel(), y.ravel()]).T


def turn(a, b):
    """angle between directions"""
    return np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1), np.sum(a * b, axis=-1))


@sub('C29', 'layer_shift', st.fixed_dictionaries(pin_st), n=250, rule='inclined beam')
def layer_shift(case, ctx):
    b, e = beam(case)
    ins = instrument(case, (b, e))
    ctx.nt(case['pol'] > 0.01)
    pr, pt, so, lt = case['pr'], case['pt'], case['so'], case['lt']
    zs = so + lt / 2 + pt / 2
    mp = phutil.tth_corr_map_layer(ins, so, lt, pt, pr)
    ctx.equal(list(mp), list(ins.detectors), 'one map per panel')
    src = -b * case['D']
    for k, det in ins.detectors.items():
        xy = pix(det)
        P = lab_points(det, xy, 'planar')
        d = P / np.linalg.norm(P, axis=1)[:, None]
        # the line through the pixel and the centre of the pinhole meets the layer upstream
        Q = d * (zs / d[:, 2])[:, None] if b[2] > 0 else -d * (zs / np.abs(d[:, 2]))[:, None]
        nom = turn(np.tile(b, (len(d), 1)), d)
        act = turn(Q - src, d)
        if np.any(d[:, 2] > -0.05):
            raise Skip
        ctx.close(mp[k].ravel(), act - nom, 1e-9, 1e-7, 'shift of the scattering angle by a layer')
        beta = np.arccos(np.abs(d[:, 2]))
        crit = math.atan(2 * pr / pt)
        ok = beta < crit - 1e-9
        bad = beta > crit + 1e-9
        _, eta = angs_of(d, b, e)
        obj = phutil.LayerDistortion(det, 'sample', 9.0, 9.0, 9.0, 9.0)
        obj.layer_standoff = so; obj.layer_thickness = lt; obj.pinhole_thickness = pt; obj.pinhole_radius = pr
        for flag in (True, False):
            got = obj.apply(xy.copy(), return_nominal=flag)
            ctx.close(got[ok, 0], ((nom if flag else 0) - (act - nom))[ok], 1e-9, 1e-7, 'nominal angle minus the shift')
            ctx.true(np.all(np.isnan(got[bad, 0])), 'no light past the critical angle')
            ctx.close(np.exp(1j * got[:, 1]), np.exp(1j * eta), 1e-7, 0, 'azimuth')
        xy2 = xy.copy()
        phutil.invalidate_past_critical_beta(det, xy2, pt, pr)
        ctx.array_equal(xy2[ok], xy[ok], 'points inside the critical angle'); ctx.true(np.all(np.isnan(xy2[bad])), 'points past the critical angle')


@sub('C29', 'pinhole_shift', st.fixed_dictionaries(dict(pin_st, gam=S.ang())), n=200, rule='inclined beam')
def pinhole_shift(case, ctx):
    b, e = beam(case)
    ins = instrument(case, (b, e))
    ctx.nt(case['pol'] > 0.01)
    pr, pt = case['pr'], case['pt']
    mp = phutil.tth_corr_map_pinhole(ins, pt, pr)
    ctx.equal(list(mp), list(ins.detectors), 'one map per panel')
    ctx.array_equal(ins.beam_vector, b, 'the instrument is not changed'); ctx.array_equal(ins.eta_vector, e, 'the instrument is not changed')
    for k, det in ins.detectors.items():
        xy = pix(det)
        P = lab_points(det, xy, 'planar')
        d = P / np.linalg.norm(P, axis=1)[:, None]
        if np.any(d[:, 2] > -0.05):
            raise Skip
        nom = turn(np.tile(b, (len(d), 1)), d)
        # scattering from the far edge of the back surface
        az = np.arctan2(P[:, 1], P[:, 0])
        if np.any(np.hypot(P[:, 0], P[:, 1]) < 1e-3):
            raise Skip
        O = np.array([-pr * np.cos(az), -pr * np.sin(az), np.full(len(az), 0.5 * pt * np.sign(b[2]))]).T
        act = turn(np.tile(b, (len(d), 1)), P - O)
        ctx.close(mp[k].ravel(), act - nom, 1e-9, 1e-7, 'shift of the scattering angle by the pinhole')
        obj = phutil.JHEPinholeDistortion(det, 9.0, 9.0)
        obj.pinhole_thickness = pt; obj.pinhole_radius = pr
        _, eta = angs_of(d, b, e)
        for flag in (True, False):
            got = obj.apply(xy.copy(), return_nominal=flag)
            ctx.close(got[:, 0], (nom if flag else 0) - (act - nom), 1e-9, 1e-7, 'nominal angle minus the shift')
            ctx.close(np.exp(1j * got[:, 1]), np.exp(1j * eta), 1e-7, 0, 'azimuth')


def rygg(P, X, d_p, h_p, al, Np):
    """Scattering angle of the wall of a pinhole along -z (Rygg et al. 2020): mean over wall elements that see source and point."""
    # work with the pinhole axis along +z downstream
    F = np.diag([1, 1, -1.0])
    P, X = F @ P, F @ X
    rd, rx = np.linalg.norm(P), np.linalg.norm(X)
    Nz = max(3, int(Np * h_p / (PI * d_p)))
    dphi = 2 * PI / Np
    phi = np.arange(Np) * dphi + dphi / 2
    dz = h_p / Nz
    z = np.r_[-h_p / 2, -h_p / 2 + dz / 2 + dz * np.arange(Nz), h_p / 2]
    wall = np.array([d_p / 2 * np.cos(phi), d_p / 2 * np.sin(phi)]).T
    ub, ua = np.hypot(*P[:2]) / rd, np.hypot(*X[:2]) / rx
    cb, ca = P[2] / rd, -X[2] / rx
    ph_d, ph_x = np.arctan2(P[1], P[0]), np.arctan2(X[1], X[0])
    # a wall element at phi faces a point on the other side of the axis
    cd, cx = np.cos(phi - ph_d + PI), np.cos(phi - ph_x + PI)
    m = 1000 / al
    dl = d_p * dphi
    W = np.zeros((len(z), Np)); T = np.zeros((len(z), Np))
    for i in range(len(z)):
        p3 = np.c_[wall, np.full(Np, z[i])]
        T[i] = turn(p3 - X, P - p3)
        px, pd = ua * cx, ub * cd            # cosines to the inner surface
        if 0 < i < len(z) - 1:
            W[i] = dl * dz / m / (1 / px + 1 / pd)
            see = (z[i] > h_p / 2 - d_p / (ub / cb) * cd) & (z[i] < -h_p / 2 + d_p / (ua / ca) * cx)
        elif i == 0:
            te = np.where(cx <= 0, 0, ca * cx)
            W[i] = dl / m ** 2 / (1 / pd * (1 / ca + 1 / pd * te))
            see = h_p / d_p * ub / cb < cd
        else:
            te = np.where(cd <= 0, 0, cb * cd)
            W[i] = dl / m ** 2 / (1 / px * (1 / cb + 1 / px * te))
            see = h_p / d_p * ua / ca < cx
        W[i] *= see
    return np.nansum(W * T) / np.nansum(W)


@sub('C29', 'wall_shift', st.fixed_dictionaries(dict(pin_st, n=st.integers(6, 16).map(lambda v: 2 * v), al=S.num(2, 50), cols=st.integers(1, 4), two=st.booleans())), n=80, n_thorough=600, parts=4, rule='inclined beam')
def wall_shift(case, ctx):
    case = dict(case, panels=[dict(q, name=case['panels'][0]['name'], rows=min(q['rows'], 3), cols=min(q['cols'], 3)) for q in case['panels'][:1]])
    a = PI if case['panels'][0]['name'] == 'CAMERA-1' else 0.0
    # the code expects the source in the plane of the reference azimuth
    case['az'] = a if case['two'] else a
    case['pol'] = max(case['pol'], 0.02)
    b, _ = beam(dict(case, eaz=0.0))
    e = np.array([1.0, 0, 0])
    ins = instrument(case, (b, e))
    pr, pt, al, Np = case['pr'], case['pt'], case['al'], case['n']
    ctx.nt(case['pol'] > 0.05)
    det = list(ins.detectors.values())[0]
    xy = pix(det)
    P = lab_points(det, xy, 'planar')
    if np.any(P[:, 2] / np.linalg.norm(P, axis=1) > -0.05) or np.any(np.hypot(P[:, 0], P[:, 1]) < 0.5):
        raise Skip
    nom, eta = angs_of(P / np.linalg.norm(P, axis=1)[:, None], b, e)
    src = -b * case['D']
    with np.errstate(all='ignore'):
        want = np.array([rygg(p, src, 2 * pr, pt, al, Np) for p in P])
    mp = phutil.tth_corr_map_rygg_pinhole(ins, al, pt, pr, num_phi_elements=Np)
    k = list(ins.detectors)[0]
    got = (nom - mp[k].ravel())
    ok = np.isfinite(want)
    # visibility changes by whole elements
    ctx.true(np.mean(np.abs(got[ok] - want[ok]) < 1e-6) > 0.7 if ok.any() else True, 'mean scattering angle of the wall', got=got, want=want)
    tg, eg = det.pixel_angles()
    calls = dict(
        workers=lambda: phutil.calc_tth_rygg_pinhole(det, al, tg, eg, pt, pr, Np),
        flat=lambda: phutil.calc_tth_rygg_pinhole([det], al, tg.ravel(), eg.ravel(), pt, pr, Np).reshape(tg.shape),
        polar=lambda: phutil.polar_tth_corr_map_rygg_pinhole(tg, eg, ins, al, pt, pr, Np) + tg)
    for w in (1, 3):
        for d in ins.detectors.values():
            d.max_workers = w
        for n, f in calls.items():
            g = f()
            ctx.close(g.ravel(), got, 1e-9, 0, f'the same angle by other means ({n})', nan=True)
    ctx.array_equal(det.evec, e, 'the panel is not changed')
    # the distortion moves points the other way, off-panel points are left out
    obj = phutil.RyggPinholeDistortion(det, al, pt, pr, Np)
    full = phutil.calc_tth_rygg_pinhole(det, al, nom, eta, pt, pr, Np, clip_to_panel=False)
    for flag in (True, False):
        o = obj.apply(xy.copy(), return_nominal=flag)
        fin = np.isfinite(o[:, 0])
        ctx.close(o[fin, 0], (nom + (nom - full) - (0 if flag else nom))[fin], 1e-6, 0, 'nominal angle minus the shift')
        ctx.close(np.exp(1j * o[fin, 1]), np.exp(1j * eta[fin]), 1e-7, 0, 'azimuth')


if os.environ.get('VERIF_TIER') != 'thorough' and hasattr(phutil, '_compute_vi_qq_i_numba'):
    # its compilation takes two minutes, the same source runs without
    phutil._compute_vi_qq_i_numba = getattr(phutil._compute_vi_qq_i_numba, 'py_func', phutil._compute_vi_qq_i_numba)
