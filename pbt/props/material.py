"""C18 Material objects: edit histories, files, equation of state, composition utilities."""
import math
import os
import tempfile

import h5py
import numpy as np
from hypothesis import strategies as st
from pbt import strat as S
from pbt.core import sub, Skip, warm
from pbt.props.xtal import (NI, V, atom_st, aniso, cell_for, frac_pos, l6_st, ltype, make, metric, min_sep, okc, ops, orbit, sg_st)
from hexrd.core import constants
from hexrd.core.material import material as mm, jcpds, utils as mu, symbols
from hexrd.core.material.material import Material
from hexrd.core.valunits import valWUnit, toFloat, valWithDflt

PI = math.pi
J_PER_KEV = 1.60217646e-16
HC = 12.398419843320026


def h5_state(st_, path, name='mat'):
    """Writes a material file independently of the library's writer."""
    with h5py.File(path, 'a') as f:
        g = f.create_group(name)
        lp = st_['lp']
        g['SpaceGroupNumber'] = np.array([st_['sg']], np.int32)
        g['SpaceGroupSetting'] = np.array([st_['setting']], np.int32)
        g['LatticeParameters'] = np.array([x / 10 for x in lp[:3]] + list(lp[3:]))
        pos = np.array([[float(v) for v in frac_pos(a)] + [a['occ']] for a in st_['atoms']])
        g['AtomData'] = pos.T
        U = np.array([aniso(a) for a in st_['atoms']]) if st_['ani'] else np.array([a['U'] for a in st_['atoms']])
        g['U'] = U.T
        g['Atomtypes'] = np.array([a['Z'] for a in st_['atoms']], np.int32)
        g['dmin'] = np.array([st_['dmin'] / 10])
        g['kev'] = np.array([st_['kev']])
        if st_.get('stiffness') is not None:
            g['stiffness'] = np.array(st_['stiffness'])
        for k, v in st_.get('eos', {}).items():
            g[k] = np.array([v])
        if 'tThWidth' in st_:
            g['tThWidth'] = np.array([st_['tThWidth']])
        if st_.get('hkls'):
            g['hkls'] = np.array(st_['hkls'], np.int32)
        if 'charge' in st_:
            g.create_dataset('ChargeStates', data=np.array(st_['charge'], dtype=object), dtype=h5py.special_dtype(vlen=str))


def load(st_, scratch, tag='a'):
    p = os.path.join(scratch, f'm_{tag}.h5')
    if os.path.exists(p):
        os.unlink(p)
    h5_state(st_, p)
    try:
        return Material('mat', p)
    finally:
        os.unlink(p)


def keys(pd):
    return [tuple(int(v) for v in h) for h in pd.getHKLs(allHKLs=True)]


def view(m):
    """Everything a user can ask of the material, keyed by reflection."""
    pd = m.planeData
    ks = keys(pd)
    with np.errstate(invalid='ignore'):
        tth = pd.getTTh(allHKLs=True)
    on = [tuple(int(v) for v in h) for h in pd.getHKLs()]
    return dict(ks=ks, tth=dict(zip(ks, tth)), sf=dict(zip(on, pd.structFact)), excl=dict(zip(ks, [bool(x) for x in pd.exclusions])))


def safe(st_):
    """Orbits well separated and enough reflections."""
    G = metric(st_['lp'])
    if any(min_sep(orbit(st_['sg'], frac_pos(a)), G) < 0.05 for a in st_['atoms']):
        return False
    v = math.sqrt(np.linalg.det(G))
    return 4 / 3 * PI * v / st_['dmin'] ** 3 < 700


def compare(ctx, m, st_, scratch, msg):
    ref = load(st_, scratch, 'ref')
    ctx.close(m.lparms, ref.lparms, rtol=1e-9, atol=1e-9, msg=msg + 'lattice parameters')
    ctx.close(m.unitcell.lparms, ref.unitcell.lparms, rtol=1e-9, atol=1e-9, msg=msg + 'unit cell lattice parameters')
    ctx.equal(int(m.sgnum), st_['sg'], msg + 'space group')
    ctx.equal(m.latticeType, ltype(st_['sg']), msg + 'lattice type')
    ctx.close(m.vol, math.sqrt(np.linalg.det(metric(st_['lp']))), rtol=1e-9, atol=0, msg=msg + 'volume (A^3)')
    ctx.close(m.vol_per_atom, ref.vol_per_atom, rtol=1e-9, atol=0, msg=msg + 'volume per atom')
    ctx.close(m.unitcell.density, ref.unitcell.density, rtol=1e-7, atol=0, msg=msg + 'density')
    ctx.close(m.absorption_length, ref.absorption_length, rtol=1e-6, atol=0, msg=msg + 'absorption length')
    ctx.equal(m.chemical_formula, ref.chemical_formula, msg + 'chemical formula')
    ctx.close(m.unitcell.wavelength * 10, HC / st_['kev'], rtol=1e-5, atol=0, msg=msg + 'unit cell wavelength')
    ctx.close(m.planeData.wavelength, HC / st_['kev'], rtol=1e-5, atol=0, msg=msg + 'plane data wavelength')
    ctx.equal(m.planeData.laueGroup, ref.planeData.laueGroup, msg + 'Laue group')
    a, b = view(m), view(ref)
    ctx.equal(sorted(a['ks']), sorted(b['ks']), msg + 'hkl list')
    for k in a['ks']:
        ctx.close(a['tth'][k], b['tth'][k], atol=1e-9, msg=msg + f'two-theta of {k}', nan=True)
    ctx.equal(set(a['sf']), {k for k in a['ks'] if not a['excl'][k]}, msg + 'structure factors of the enabled reflections')
    if a['sf']:
        full = ref.unitcell.CalcXRSF(np.array(list(a['sf']), float))
        ctx.close(list(a['sf'].values()), full, rtol=1e-5, atol=1e-6 * max(1.0, max(full)), msg=msg + 'structure factors')
    return a


op_st = st.one_of(
    st.tuples(st.just('lattice'), l6_st), st.tuples(st.just('reduced'), l6_st), st.tuples(st.just('lparms'), l6_st),
    st.tuples(st.just('sg'), sg_st), st.tuples(st.just('sg'), sg_st),
    st.tuples(st.just('kev'), st.tuples(S.num(10, 120), st.sampled_from(['float', 'keV', 'J']))),
    st.tuples(st.just('dmin'), S.num(1.0, 2.2)), st.tuples(st.just('atoms'), st.tuples(st.lists(atom_st, min_size=1, max_size=2), st.booleans())),
    st.tuples(st.just('excl'), S.seeds), st.tuples(st.just('excl'), S.seeds), st.tuples(st.just('width'), S.num(0.05, 1.0)))


@sub('C18', 'edit_history', st.fixed_dictionaries(dict(sg=sg_st, l6=l6_st, atoms=st.lists(atom_st, min_size=1, max_size=2), ani=st.booleans(), kev=S.num(15, 100),
                                                       ops=st.lists(op_st, min_size=1, max_size=5))), n=130, n_thorough=1500, parts=8,
     rule='histories of lattice, space group, energy (float, keV, J), d-limit, atom and exclusion edits; non-trivial: two edits of different kinds')
def edit_history(case, ctx):
    s = dict(sg=case['sg'], setting=0, lp=cell_for(case['sg'], case['l6']), atoms=case['atoms'], ani=case['ani'], dmin=1.3, kev=case['kev'])
    if not safe(s):
        raise Skip
    try:
        m = load(s, ctx.scratch)
    except IndexError:           # no reflection at all
        raise Skip
    a = compare(ctx, m, s, ctx.scratch, 'loaded: ')
    model = {k: i >= 5 for i, k in enumerate(keys_sorted(a))}
    if len(model) > 6:
        got = [k for k in a['ks'] if not a['excl'][k]]
        ctx.equal(len(got), 5, 'five reflections enabled by default')
        lim = sorted(t if t == t else 9.0 for t in a['tth'].values())[4]
        ctx.true(all(not a['tth'][k] > lim + 1e-7 for k in got), 'the first five reflections are enabled by default')
    model = dict(a['excl'])
    kinds = set()
    for kind, v in case['ops']:
        s2 = dict(s)
        if kind in ('lattice', 'reduced', 'lparms'):
            s2['lp'] = cell_for(s['sg'], v)
        elif kind == 'sg':
            s2['sg'] = v
            s2['lp'] = cell_for(v, s['lp'])
            if not okc(s2['lp']):
                continue
        elif kind == 'kev':
            s2['kev'] = v[0]
        elif kind == 'dmin':
            s2['dmin'] = v
        elif kind == 'atoms':
            s2['atoms'], s2['ani'] = v
        if not safe(s2):
            continue
        try:
            load(s2, ctx.scratch, 'try')
        except IndexError:
            continue
        if kind == 'lattice':
            m.latticeParameters = list(s2['lp'])
        elif kind == 'reduced':
            lt = ltype(s['sg'])
            idx = dict(triclinic=[0, 1, 2, 3, 4, 5], monoclinic=[0, 1, 2, 4], orthorhombic=[0, 1, 2], tetragonal=[0, 2], trigonal=[0, 2], hexagonal=[0, 2], cubic=[0])[lt]
            m.latticeParameters = [s2['lp'][i] for i in idx]
        elif kind == 'lparms':
            m.lparms = np.array([x / 10 for x in s2['lp'][:3]] + list(s2['lp'][3:]))
        elif kind == 'sg':
            m.sgnum = v
        elif kind == 'kev':
            m.beamEnergy = v[0] if v[1] == 'float' else valWUnit('e', 'energy', v[0] if v[1] == 'keV' else v[0] * J_PER_KEV, v[1])
        elif kind == 'dmin':
            m.dmin = valWUnit('d', 'length', v, 'angstrom')
        elif kind == 'atoms':
            m._set_atomdata([x['Z'] for x in s2['atoms']], np.array([[float(q) for q in frac_pos(x)] + [x['occ']] for x in s2['atoms']]),
                            [aniso(x) for x in s2['atoms']] if s2['ani'] else [x['U'] for x in s2['atoms']], ['0'] * len(s2['atoms']))
        elif kind == 'excl':
            ks = keys(m.planeData)
            r = S.rng(v)
            e = r.random(len(ks)) < r.choice([0.2, 0.6, 0.95])
            m.planeData.exclusions = e
            model = dict(zip(ks, [bool(x) for x in e]))
        elif kind == 'width':
            m.planeData.tThWidth = math.radians(v)
        s = s2
        kinds.add(kind)
        ctx.label(kind)
        a = compare(ctx, m, s, ctx.scratch, f'after {kind}: ')
        if set(a['ks']) != set(model):
            kept = {k: model.get(k, True) for k in a['ks']}
            if all(kept.values()):
                n = sum(not x for x in a['excl'].values())
                ctx.equal(n, min(5, len(a['ks'])), 'default reflections enabled when none of the enabled ones is left')
                kept = a['excl']
            model = kept
        ctx.equal(a['excl'], model, f'after {kind}: enabled reflections stay enabled, others (and new ones) stay excluded')
        if kind == 'width':
            ctx.close(m.planeData.tThWidth, math.radians(v), atol=1e-12, msg='two-theta width')
    ctx.nt(len(kinds) >= 2)


def keys_sorted(a):
    return sorted(a['ks'], key=lambda k: (a['tth'][k] if a['tth'][k] == a['tth'][k] else 9.0, k))


eos_st = st.fixed_dictionaries(dict(k0=S.num(5, 400), k0p=S.num(3, 7), dk0dt=S.num(-0.02, 0.0), dk0pdt=S.num(-0.0005, 0.0005), alpha_t=S.num(0, 1e-4), dalpha_t_dt=S.num(0, 1e-8)))
NAMES = ['mat', 'Fe3O4', 'alpha quartz', 'Ti_6-4', 'x.y', 'Ni (225)']


@sub('C18', 'hdf5_round_trip', st.fixed_dictionaries(dict(mats=st.lists(st.fixed_dictionaries(dict(sg=sg_st, l6=l6_st, atoms=st.lists(atom_st, min_size=1, max_size=3), ani=st.booleans(),
     kev=S.num(15, 100), dmin=S.num(1.1, 1.8), eos=eos_st, C=S.seeds, excl=S.seeds, setting=st.integers(0, 1), width=st.one_of(st.none(), S.num(0.1, 0.6)))), min_size=1, max_size=2),
     names=st.permutations(NAMES), path=st.sampled_from([None, None, 'materials', 'a/b']), rewrite=st.booleans(), group=st.booleans())), n=70, n_thorough=800, parts=6,
     rule='one or two materials saved and loaded, in a group or file, over an earlier version; non-trivial: two materials, a group path or anisotropic displacement')
def hdf5_round_trip(case, ctx):
    src, want = {}, {}
    for q, name in zip(case['mats'], case['names']):
        s = dict(sg=q['sg'], setting=q['setting'], lp=cell_for(q['sg'], q['l6']), atoms=q['atoms'], ani=q['ani'], dmin=q['dmin'], kev=q['kev'],
                 eos=dict(q['eos'], pressure=1.5, temperature=350.0, v0=123.4))
        if not safe(s):
            continue
        r = S.rng(q['C'])
        C = r.uniform(-5, 5, (6, 6))
        s['stiffness'] = (C + C.T + 200 * np.eye(6)).tolist()
        s['charge'] = [constants.chargestate[constants.ptableinverse[x['Z']]][-1] for x in q['atoms']]
        if q['width'] is not None:
            s['tThWidth'] = q['width']
        try:
            m = load(s, ctx.scratch)
        except IndexError:
            continue
        m.name = name
        n = len(m.planeData.exclusions)
        e = S.rng(q['excl']).random(n) < 0.5
        if e.all():
            e[S.rng(q['excl']).integers(n)] = False
        m.planeData.exclusions = e
        src[name] = m
        want[name] = (s, {k for k, x in zip(keys(m.planeData), e) if not x})
    if not src:
        raise Skip
    ctx.nt(len(src) > 1 or case['path'] or any(q['ani'] for q in case['mats']))
    f = os.path.join(ctx.scratch, 'io.h5')
    if os.path.exists(f):
        os.unlink(f)
    if case['rewrite']:
        old = Material()
        old.name = next(iter(src))
        mm.save_materials_hdf5(f, {'x': old}, case['path'])
    mm.save_materials_hdf5(f, src, case['path'])
    if case['path'] or case['group']:
        with h5py.File(f, 'r') as h:
            back = mm.load_materials_hdf5(h[case['path']] if case['path'] else h)
    else:
        back = mm.load_materials_hdf5(f)
    os.unlink(f)
    ctx.equal(sorted(back), sorted(src), 'names in the file')
    for name, m in back.items():
        o, (s, on) = src[name], want[name]
        ctx.equal(m.name, name, 'name')
        ctx.equal((int(m.sgnum), int(m.sgsetting)), (s['sg'], s['setting']), 'space group and setting')
        ctx.close(m.lparms, o.lparms, rtol=1e-9, atol=0, msg='lattice parameters')
        ctx.array_equal(m.atom_type, [x['Z'] for x in s['atoms']], 'atom types')
        ctx.close(m.atom_pos, o.atom_pos, atol=2e-7, msg='atom positions and occupancies')
        ctx.close(m.U, o.U, rtol=1e-6, atol=1e-9, msg='displacement factors')
        ctx.equal(bool(m.aniU), bool(o.aniU), 'anisotropic')
        ctx.equal([str(x) for x in m.charge], s['charge'], 'charge states')
        ctx.close(m.unitcell.stiffness, s['stiffness'], rtol=1e-12, atol=1e-9, msg='stiffness')
        for k, v in s['eos'].items():
            ctx.close(getattr(m, k), v, rtol=1e-12, atol=0, msg=k)
        ctx.close(m.dmin.getVal('angstrom'), s['dmin'], rtol=1e-9, atol=0, msg='dmin'); ctx.close(m.beamEnergy.getVal('keV'), s['kev'], rtol=1e-12, atol=0, msg='beam energy')
        if q_width(o) is None:
            ctx.true(m.planeData.tThWidth is None, 'no two-theta width')
        else:
            ctx.close(m.planeData.tThWidth, o.planeData.tThWidth, rtol=1e-9, atol=0, msg='two-theta width')
        ctx.equal({k for k, x in zip(keys(m.planeData), m.planeData.exclusions) if not x}, on, 'enabled reflections')
        a, b = view(m), view(o)
        ctx.equal(sorted(a['ks']), sorted(b['ks']), 'hkl list')
        for k in on:
            ctx.close(a['sf'][k], b['sf'][k], rtol=1e-3, atol=1e-4 * max(b['sf'].values()) + 1e-3, msg='structure factor')
    # dmin and energy given on loading override the file
    ctx.label('path' if case['path'] else 'root')


def q_width(m):
    return m.planeData.tThWidth


def esd(v, k):
    return f'{v:.6f}' if not k else f'{v:.6f}({k})'


@sub('C18', 'cif', st.fixed_dictionaries(dict(sg=sg_st, l6=l6_st, atoms=st.lists(atom_st, min_size=1, max_size=4), key=st.sampled_from(['IT', 'IT2', 'HM', 'Hall']),
     esd=st.integers(0, 12), occ=st.booleans(), U=st.booleans(), charge=st.lists(st.sampled_from(['', '', 'n+', '+n', 'n-', '-n']), min_size=4, max_size=4),
     neg=st.booleans(), blanks=st.booleans())), n=330, parts=4,
     rule='CIF texts naming the space group by number, Hermann-Mauguin or Hall symbol, with uncertainties, charges, coordinates outside [0,1) and missing columns, '
          'and files written by the library; non-trivial: symbols instead of numbers, charges or uncertainties')
def cif(case, ctx):
    sg = case['sg']
    lp = cell_for(sg, case['l6'])
    at = case['atoms']
    s = dict(sg=sg, lp=lp, atoms=at, dmin=0.75)
    if any(min_sep(orbit(sg, frac_pos(a)), metric(lp)) < 0.05 for a in at) or math.sqrt(np.linalg.det(metric(lp))) > 220:
        raise Skip
    key = case['key']
    if key == 'Hall' and sum(h.replace(' ', '') == mm_hall(sg).replace(' ', '') for h in HALL.values()) > 1:
        raise Skip
    sym, want_ch = [], []
    for a, c in zip(at, case['charge']):
        el = constants.ptableinverse[a['Z']]
        states = [x for x in constants.chargestate[el] if len(x) == 2 and x[-1] == c.strip('n')]
        if not c or not states:
            sym.append(el); want_ch.append('0')
        else:
            x = states[0]
            sym.append(el + {'n+': x, 'n-': x, '+n': x[::-1], '-n': x[::-1]}[c]); want_ch.append(x)
    ctx.nt(key in ('HM', 'Hall') or any(w != '0' for w in want_ch) or case['esd']); ctx.label(key)
    e = case['esd']
    hm = HM[sg].split(':')[0]
    if not case['blanks']:
        hm = hm.replace(' ', '')
    line = {'IT': f'_space_group_IT_number {sg}', 'IT2': f'_symmetry_Int_Tables_number {sg}', 'HM': f"_symmetry_space_group_name_H-M '{hm}'",
            'Hall': f'_symmetry_space_group_name_Hall "{mm_hall(sg)}"'}[key]
    names = ['a', 'b', 'c', 'alpha', 'beta', 'gamma']
    txt = ['data_test', line] + [f'_cell_{"length" if i < 3 else "angle"}_{n} {esd(v, e if i % 2 else 0)}' for i, (n, v) in enumerate(zip(names, lp))]
    cols = ['_atom_site_label', '_atom_site_type_symbol', '_atom_site_fract_x', '_atom_site_fract_y', '_atom_site_fract_z']
    if case['occ']:
        cols.append('_atom_site_occupancy')
    if case['U']:
        cols.append('_atom_site_U_iso_or_equiv')
    txt += ['loop_'] + cols
    pos = []
    for i, (a, y) in enumerate(zip(at, sym)):
        p = [float(v) for v in frac_pos(a, wrap=case['neg'])]
        pos.append([float(v) for v in frac_pos(a, wrap=False)])
        row = [f'L{i}', y] + [esd(v, e) for v in p]
        if case['occ']:
            row.append(esd(a['occ'], 0))
        if case['U']:
            row.append(esd(a['U'], e))
        txt.append(' '.join(row))
    f = os.path.join(ctx.scratch, 'in.cif')
    open(f, 'w').write('\n'.join(txt) + '\n')
    try:
        m = Material('test', f, dmin=valWUnit('d', 'length', 1.4, 'angstrom'))
    except IndexError as x:      # no reflection at all
        if 'too many indices' in str(x):
            raise Skip
        raise
    os.unlink(f)

    def check(m, atol, lp_tol):
        ctx.equal(int(m.sgnum), sg, 'space group'); ctx.equal(int(m.sgsetting), int(sg in symbols.two_origin_choice), 'origin setting (choice 2 where there are two)')
        ctx.close([x.value for x in m.latticeParameters], lp, atol=lp_tol, msg='lattice parameters')
        ctx.array_equal(m.atom_type, [a['Z'] for a in at], 'elements')
        d = m.atom_pos[:, :3] - np.array(pos)
        ctx.close(d - np.round(d), np.zeros_like(d), atol=atol, msg='positions'); ctx.true(np.all((m.atom_pos[:, :3] >= 0) & (m.atom_pos[:, :3] < 1)), 'positions inside the cell')
        ctx.close(m.atom_pos[:, 3], [a['occ'] if case['occ'] else 1.0 for a in at], atol=1e-6, msg='occupancies')
        ctx.equal([str(x) for x in m.charge], want_ch, 'charges')
        ctx.close(m.beamEnergy.getVal('keV'), 80.725, msg='default energy')
    check(m, 6e-7, 6e-7)
    ctx.close(m.U, [a['U'] if case['U'] else 6.33e-3 for a in at], atol=6e-7, msg='displacement factors')
    f2 = os.path.join(ctx.scratch, 'out.cif')
    m.write_cif(f2)
    m2 = Material('test', f2, dmin=valWUnit('d', 'length', 1.4, 'angstrom'))
    os.unlink(f2)
    check(m2, 7e-7, 7e-7)
    ctx.close(m2.lparms, m.lparms, atol=1e-7, msg='lattice parameters written and read')
    ctx.close(m2.atom_pos, m.atom_pos, atol=1.1e-8, msg='atoms written and read')


@sub('C18', 'cif_bare_sign', st.sampled_from([(k, x[1]) for k, v in constants.chargestate.items() for x in v if x in ('1+', '1-')]), n=30,
     rule='type symbols with a bare sign; non-trivial: all')
def cif_bare_sign(case, ctx):
    el, sign = case
    ctx.nt()
    f = os.path.join(ctx.scratch, 'in.cif')
    open(f, 'w').write('\n'.join(['data_test', '_space_group_IT_number 225'] + [f'_cell_length_{x} 4.0' for x in 'abc'] + [f'_cell_angle_{x} 90.0' for x in ('alpha', 'beta', 'gamma')]
                                 + ['loop_', '_atom_site_label', '_atom_site_type_symbol', '_atom_site_fract_x', '_atom_site_fract_y', '_atom_site_fract_z', f'L0 {el}{sign} 0.0 0.0 0.0']) + '\n')
    cut = el[:-1]
    try:
        m = Material('test', f)
        got = constants.ptableinverse[int(m.atom_type[0])], str(m.charge[0])
    except Exception as e:
        if cut in constants.ptable:
            raise
        got = cut, type(e).__name__
    finally:
        os.unlink(f)
    if got == (el, '1' + sign):
        return
    # known finding: two characters are cut off as the charge, so the last letter of the element is lost
    if got[0] == cut:
        ctx.known.append('a CIF type symbol with a bare sign')
        return
    ctx.true(False, f'{el}{sign} read as {got}')


HALL, HM = symbols.lookupHall, symbols.lookupHM


def mm_hall(sg):
    return HALL[sg]


@sub('C18', 'equation_of_state', st.fixed_dictionaries(dict(sg=sg_st, l6=l6_st, eos=eos_st, P=st.lists(S.num(0, 0.8), min_size=1, max_size=4), T=st.one_of(st.none(), S.num(200, 2000)),
     squeeze=S.num(0.96, 1.02))), n=400, parts=2, rule='pressures up to 0.8 of the bulk modulus and temperatures; non-trivial: temperature given and pressure above zero')
def equation_of_state(case, ctx):
    lp = cell_for(case['sg'], case['l6'])
    q = case['eos']
    s = dict(sg=case['sg'], setting=0, lp=lp, atoms=[NI], ani=False, dmin=max(1.3, math.sqrt(np.linalg.det(metric(lp))) ** (1 / 3) / 6), kev=60.0)
    if not safe(s):
        raise Skip
    try:
        m = load(s, ctx.scratch)
    except IndexError:
        raise Skip
    v0 = math.sqrt(np.linalg.det(metric(lp)))
    ctx.close(m.v0, v0, rtol=1e-9, atol=0, msg='reference volume defaults to the cell volume')
    for k, v in q.items():
        setattr(m, k, v)
    T = case['T']
    d = 0 if T is None else T - 298
    vt = v0 * math.exp(q['alpha_t'] * d + 0.5 * q['dalpha_t_dt'] * (0 if T is None else T ** 2 - 298 ** 2))
    kt, ktp = q['k0'] + q['dk0dt'] * d, q['k0p'] + q['dk0pdt'] * d
    if kt < 1:
        raise Skip
    P = sorted(p * kt for p in case['P'])
    ctx.nt(T is not None and P[-1] > 0)
    # a cell already away from the reference volume
    m.latticeParameters = [x * case['squeeze'] for x in lp[:3]] + list(lp[3:])
    ctx.close(m.v0, v0, rtol=1e-9, atol=0, msg='reference volume survives lattice edits')
    last = None
    for p in P:
        v = float(m.calc_volume(pressure=p, temperature=T))
        f = 0.5 * ((vt / v) ** (2 / 3) - 1)
        ref = 3 * kt * f * (1 + 2 * f) ** 2.5 * (1 - 1.5 * (4 - ktp) * f)
        ctx.close(ref, p, rtol=1e-5, atol=1e-5 * kt, msg='volume satisfies the Birch-Murnaghan equation')
        ctx.close(m.calc_pressure(volume=v, temperature=T), p, rtol=1e-5, atol=1e-5 * kt, msg='pressure of the computed volume')
        ctx.true(last is None or v <= last * (1 + 1e-7), 'volume falls with pressure'); last = v
        l = m.calc_lp_at_PT(pressure=p, temperature=T)
        ctx.close(math.sqrt(np.linalg.det(metric([x * 10 for x in l[:3]] + list(l[3:])))), v, rtol=1e-7, atol=0, msg='lattice parameters at P, T have the computed volume')
        ctx.close(np.array(l[:3]) / l[0], np.array(lp[:3]) / lp[0], rtol=1e-9, atol=0, msg='axial ratios kept'); ctx.close(l[3:], lp[3:], atol=1e-9, msg='angles kept')
    ctx.close(m.calc_volume(temperature=T), vt, rtol=1e-9, atol=0, msg='volume at zero pressure is the thermal volume')
    ctx.close(m.calc_pressure(volume=vt, temperature=T), 0, atol=1e-9, msg='no pressure at the thermal volume')
    ctx.close(m.lparms0, [x / 10 for x in lp[:3]] + list(lp[3:]), rtol=1e-9, atol=0, msg='reference lattice parameters')


@sub('C18', 'duplicate_atoms', st.fixed_dictionaries(dict(sg=sg_st, l6=l6_st, atoms=st.lists(atom_st, min_size=1, max_size=3), ani=st.booleans(),
     dup=st.lists(st.tuples(st.integers(0, 2), st.integers(0, 191), st.lists(st.integers(-1, 1), min_size=3, max_size=3)), min_size=0, max_size=3), seed=S.seeds, edit=l6_st)), n=160, parts=5,
     rule='atom lists with symmetry-equivalent copies in any order; non-trivial: a duplicate precedes a distinct atom')
def duplicate_atoms(case, ctx):
    sg, lp = case['sg'], cell_for(case['sg'], case['l6'])
    G = metric(lp)
    base = case['atoms']
    orbs = [orbit(sg, frac_pos(a)) for a in base]
    allp = [p for o in orbs for p in o]
    if len(set(allp)) < len(allp) or min_sep(allp, G) < 0.05 or len(allp) > 260:
        raise Skip
    rows = [(i, [float(v) for v in frac_pos(a, wrap=False)]) for i, a in enumerate(base)]
    for i, o, w in case['dup']:
        i %= len(base)
        R, t = ops(sg)[o % len(ops(sg))]
        p = frac_pos(base[i], wrap=False)
        rows.append((i, [float(sum(R[r][c] * p[c] for c in range(3))) + t[r] / 12 + w[r] for r in range(3)]))
    order = S.rng(case['seed']).permutation(len(rows))
    rows = [rows[k] for k in order]
    first = [k for k, (i, _) in enumerate(rows) if i not in [j for j, _ in rows[:k]]]
    ctx.nt(first != list(range(len(first))))
    U = [aniso(base[i]) if case['ani'] else base[i]['U'] + 0.001 * i for i, _ in rows]
    m = Material()
    s = dict(sg=sg, setting=0, lp=lp, atoms=[dict(NI) for _ in rows], ani=False, dmin=1.5, kev=60.0)
    if not safe(dict(s, atoms=[NI])):
        raise Skip
    try:
        m = load(dict(s, atoms=[NI]), ctx.scratch)
    except IndexError:
        raise Skip
    pos = np.array([p + [1.0] for _, p in rows])
    m._set_atomdata([base[i]['Z'] for i, _ in rows], pos, U, ['0'] * len(rows))
    m.remove_duplicate_atoms()

    def check(msg):
        for obj, nm in ((m, 'material'), (m.unitcell, 'unit cell')):
            ctx.array_equal(obj.atom_type, [base[rows[k][0]]['Z'] for k in first], f'{msg}elements kept ({nm})')
            ctx.close(obj.atom_pos, pos[first], atol=1e-9, msg=f'{msg}first of each set of equivalent atoms kept ({nm})')
            ctx.close(obj.U, np.array([U[k] for k in first]), atol=1e-12, msg=f'{msg}displacement factors kept ({nm})')
        ctx.equal(len(m.charge), len(first), 'charges')
        ctx.close(m.unitcell.density, sum(len(orbs[rows[k][0]]) * constants.atom_weights[base[rows[k][0]]['Z'] - 1] for k in first) / (m.vol * 0.602214076),
                  rtol=1e-5, atol=0, msg=f'{msg}density')
    check('')
    ref = make(sg, lp, [dict(base[rows[k][0]], occ=1.0, U=base[rows[k][0]]['U'] + 0.001 * rows[k][0]) for k in first], case['ani'], dmin=1.5, kev=60.0)
    h = m.planeData.getHKLs(allHKLs=True)
    ctx.close(view(m)['sf'][tuple(int(v) for v in h[0])], ref.CalcXRSF(h[:1].astype(float))[0], rtol=1e-4, atol=1e-3, msg='structure factor without the duplicates')
    m.latticeParameters = list(cell_for(sg, [x * 1.01 for x in case['l6'][:3]] + case['l6'][3:]))
    check('after a lattice edit: ')


@sub('C18', 'jcpds', st.fixed_dictionaries(dict(sym=st.sampled_from(['cubic', 'hexagonal', 'trigonal', 'tetragonal', 'orthorhombic', 'monoclinic', 'triclinic']), l6=l6_st, eos=eos_st,
     v4=st.booleans(), change=st.integers(0, 5), case=st.booleans())), n=160, parts=2, rule='JCPDS cards of both layouts and every lattice type; non-trivial: not cubic')
def jcpds_cards(case, ctx):
    sym, q = case['sym'], case['eos']
    sg = dict(cubic=225, hexagonal=194, trigonal=164, tetragonal=123, orthorhombic=47, monoclinic=10, triclinic=2)[sym]
    lp = cell_for(sg, case['l6'])
    ctx.nt(sym != 'cubic')
    f = os.path.join(ctx.scratch, 'x.jcpds')
    if case['v4']:
        t = ['VERSION:   4', 'COMMENT: a test', f'K0: {q["k0"]!r}', f'K0P: {q["k0p"]!r}', f'DK0DT: {q["dk0dt"]!r}', f'DK0PDT: {q["dk0pdt"]!r}',
             f'SYMMETRY: {sym.upper() if case["case"] else sym}', f'A: {lp[0]!r}', f'B: {lp[1]!r}', f'C: {lp[2]!r}', f'ALPHA: {lp[3]!r}', f'BETA: {lp[4]!r}', f'GAMMA: {lp[5]!r}',
             f'ALPHAT: {q["alpha_t"]!r}', f'DALPHATDT: {q["dalpha_t_dt"]!r}', 'DIHKL: 2.0 100 1 1 1']
    else:
        if sym == 'trigonal':
            raise Skip
        code = ['', 'cubic', 'hexagonal', 'tetragonal', 'orthorhombic', 'monoclinic', 'triclinic'].index(sym)
        pars = dict(cubic=[0], hexagonal=[0, 2], tetragonal=[0, 2], orthorhombic=[0, 1, 2], monoclinic=[0, 1, 2, 4], triclinic=[0, 1, 2, 3, 4, 5])[sym]
        t = ['4', 'a test', f'{code} {q["k0"]!r} {q["k0p"]!r}', ' '.join(repr(lp[i]) for i in pars), f'{q["alpha_t"]!r}', '2.0 100 1 1 1']
    open(f, 'w').write('\n'.join(t) + '\n')
    j = jcpds.JCPDS_extend(f)
    os.unlink(f)
    ctx.equal(j.symmetry, sym, 'symmetry'); ctx.close(j.lattice_params, lp, rtol=1e-12, atol=0, msg='lattice parameters')
    ctx.close(j.v0, math.sqrt(np.linalg.det(metric(lp))), rtol=1e-9, atol=0, msg='volume')
    got = dict(k0=j.k0, k0p=j.k0p, alpha_t=j.alpha_t)
    if case['v4']:
        got.update(dk0dt=j.dk0dt, dk0pdt=j.dk0pdt, dalpha_t_dt=j.dalpha_t_dt)
    for k, v in got.items():
        ctx.close(v, q[k], rtol=1e-12, atol=0, msg=k)
    s = dict(sg=sg, setting=0, lp=cell_for(sg, [4.0, 4.5, 5.0, 85.0, 95.0, 100.0]), atoms=[NI], ani=False, dmin=1.2, kev=60.0)
    m = load(s, ctx.scratch)
    j.write_lattice_params_to_material(m)
    j.write_pt_params_to_material(m)
    ctx.close(m.v0, j.v0, rtol=1e-9, atol=0, msg='reference volume of the material'); ctx.close([x.value for x in m.latticeParameters], lp, rtol=1e-9, atol=0, msg='lattice parameters of the material')
    for k, v in got.items():
        ctx.close(getattr(m, k), v, atol=0, msg=f'{k} of the material')
    ctx.true(j.matches_material(m), 'card matches the material it was written to')
    free = dict(cubic=[0], tetragonal=[0, 2], hexagonal=[0, 2], trigonal=[0, 2], orthorhombic=[0, 1, 2], monoclinic=[0, 1, 2, 4]).get(sym, [0, 1, 2, 3, 4, 5])
    k = free[case['change'] % len(free)]
    new = list(lp); new[k] += 0.05
    m.latticeParameters = cell_for(sg, new)
    ctx.true(not j.matches_material(m), 'card does not match a changed material')
    other = Material() if sym != 'cubic' else load(dict(s, sg=194, lp=cell_for(194, s['lp'])), ctx.scratch)
    ctx.raises(jcpds.SymmetryMismatch, lambda: j.matches_material(other), 'symmetry mismatch')


EL = ['H', 'C', 'N', 'O', 'Al', 'Si', 'Fe', 'Ni', 'Cu', 'Zr', 'Ag', 'Cs', 'I', 'Gd', 'W', 'Pb', 'U']
TABS = {}


def tab(file, el):
    if (file, el) not in TABS:
        import hexrd.core.resources as res
        with h5py.File(os.path.join(os.path.dirname(res.__file__), file), 'r') as f:
            TABS[file, el] = {k: f[el][k][()] for k in f[el]}
    return TABS[file, el]


@sub('C18', 'composition', st.fixed_dictionaries(dict(els=st.lists(st.tuples(st.sampled_from(EL), st.integers(1, 12)), min_size=1, max_size=4, unique_by=lambda t: t[0]), as_str=st.booleans(),
     density=S.num(0.5, 20), E=st.lists(S.num(5, 120), min_size=1, max_size=4), Q=st.lists(S.num(0.1, 20), min_size=1, max_size=5))), n=400, parts=2,
     rule='compounds as formula or dictionary; non-trivial: two or more elements')
def composition(case, ctx):
    comp = {k: float(v) for k, v in case['els']}
    form = ''.join(k + (str(v) if v != 1 else '') for k, v in case['els']) if case['as_str'] else dict(comp)
    ctx.nt(len(comp) > 1)
    W = {k: constants.ATOM_WEIGHTS_DICT[k] for k in comp}
    M = sum(v * W[k] for k, v in comp.items())
    rho = case['density']
    ctx.close(mu.calculate_molecular_mass(form), M, rtol=1e-9, atol=0, msg='molecular mass')
    ctx.close(mu.calculate_number_density(rho, form), rho * 602.214076 / M, rtol=1e-5, atol=0, msg='formula units per nm^3')
    E = np.array(case['E'])
    for fn, col in ((mu.calculate_linear_absorption_length, 1), (mu.calculate_energy_absorption_length, 2)):
        mass = 0
        for k, v in comp.items():
            d = tab('mu_en.h5', k)['data']
            mass = mass + v * W[k] / M * np.exp(np.interp(np.log(E), np.log(d[:, 0]), np.log(d[:, col])))
        ctx.close(fn(rho, form, E), 1e4 / (mass * rho), rtol=1e-6, atol=0, msg=f'{fn.__name__} (microns)')
        ctx.close(fn(2 * rho, form, E) * 2, fn(rho, form, E), rtol=1e-9, atol=0, msg='inverse in density')
    tot = sum(comp.values())
    x = {k: v / tot for k, v in comp.items()}
    n = mu.normalize_composition(comp)
    ctx.close([n[k] for k in comp], [x[k] for k in comp], rtol=1e-12, atol=0, msg='normalised composition')
    ctx.close(mu.convert_density_to_atoms_per_cubic_angstrom(comp, rho), rho * 0.602214076 * tot / M, rtol=1e-5, atol=0, msg='atoms per cubic angstrom')
    Q = np.array(case['Q'])
    F = {}
    for k in comp:
        c = constants.scatfac[k]
        s2 = (Q / (4 * PI)) ** 2
        F[k] = c[5] + sum(c[j] * np.exp(-c[j + 6] * s2) for j in range(5))
        ctx.close(mu.calculate_coherent_scattering_factor(k, Q), F[k], rtol=1e-9, atol=1e-9, msg='coherent scattering factor')
        t = tab('Anomalous.h5', k)['compton']
        i = int(np.argmin(np.abs(t[:, 0] - Q[0])))
        ctx.close(mu.calculate_incoherent_scattering_factor(k, t[i:i + 1, 0]), t[i:i + 1, 1], rtol=1e-7, atol=1e-9, msg='incoherent scattering factor at a tabulated point')
    ctx.close(mu.calculate_f_squared_mean(form, Q), sum(x[k] * F[k] ** 2 for k in x), rtol=1e-7, atol=1e-7, msg='mean of squared form factors')
    ctx.close(mu.calculate_f_mean_squared(form, Q), sum(x[k] * F[k] for k in x) ** 2, rtol=1e-7, atol=1e-7, msg='square of the mean form factor')


UN = dict(m=(1.0, 'length'), meter=(1.0, 'length'), mm=(1e-3, 'length'), nm=(1e-9, 'length'), angstrom=(1e-10, 'length'), keV=(J_PER_KEV, 'energy'), J=(1.0, 'energy'),
          degrees=(PI / 180, 'angle'), radians=(1.0, 'angle'))
CONV = [(a, b) for a in UN for b in UN if UN[a][1] == UN[b][1] and (a == b or (a != 'nm' and not (a == 'keV' and b == 'keV')))]


@sub('C18', 'units', st.fixed_dictionaries(dict(ab=st.sampled_from(CONV), v=S.num(-50, 50), w=S.num(-50, 50), kev=S.num(1, 200))), n=400,
     rule='conversions within a quantity, sums and products; non-trivial: units differ')
def units(case, ctx):
    (a, b), v, w = case['ab'], case['v'], case['w']
    q = valWUnit('q', UN[a][1], v, a)
    r = UN[a][0] / UN[b][0]
    ctx.nt(a != b)
    ctx.close(q.getVal(b), v * r, rtol=1e-6, atol=0, msg=f'{a} to {b}')
    ctx.equal([q.isLength(), q.isAngle(), q.isEnergy()], [UN[a][1] == k for k in ('length', 'angle', 'energy')], 'kind of quantity')
    p = valWUnit('p', UN[a][1], w, a)
    if (b, a) in CONV:
        p2 = valWUnit('p', UN[a][1], w, b)
        ctx.close((q + p2).getVal(a), v + w / r, rtol=1e-6, atol=1e-12, msg='sum in mixed units'); ctx.close((q - p2).getVal(a), v - w / r, rtol=1e-6, atol=1e-12, msg='difference in mixed units')
    ctx.close((q * 2.5).getVal(b), 2.5 * v * r, rtol=1e-6, atol=0, msg='scaled'); ctx.close((q + 1.5).value, v + 1.5, msg='plus a number'); ctx.close((q - 1.5).value, v - 1.5, msg='minus a number')
    ctx.close((q * p).value, v * w, msg='product')
    ctx.close(toFloat([q, 3.0], b), [v * r, 3.0], rtol=1e-6, atol=0, msg='toFloat'); ctx.close(valWithDflt(None, q, b), v * r, rtol=1e-6, atol=0, msg='default value')
    ctx.close(valWithDflt(2.0, q), 2.0, msg='given value')
    e = valWUnit('e', 'energy', case['kev'], 'keV')
    ctx.close(e.getVal('angstrom'), HC / case['kev'], rtol=1e-6, atol=0, msg='wavelength of an energy')
    ctx.close(valWUnit('w', 'length', HC / case['kev'], 'angstrom').getVal('keV'), case['kev'], rtol=1e-6, atol=0, msg='energy of a wavelength')
    ctx.raises(RuntimeError, lambda: valWUnit('q', 'angle', 1.0, 'degrees').getVal('mm'), 'conversion between different quantities')


def _warm(kind, ani):
    def f():
        at = [NI, dict(NI, Z=13, x=[24, 48])]
        if kind == 'default':
            Material(dmin=valWUnit('d', 'length', 1.4, 'angstrom')).planeData.structFact
        for sg in (1, 2, 15, 62, 70, 139, 148, 166, 194, 225, 227):
            if kind == 'make':
                make(sg, cell_for(sg, [4.0] * 3 + [90.0] * 3), at, ani=ani).CalcXRSF(np.eye(3))
            elif kind == 'set':
                m = Material(dmin=valWUnit('d', 'length', 1.4, 'angstrom'))
                m.sgnum = sg
                m._set_atomdata([13, 28], np.array([[0, 0, 0, 1.0], [0.5, 0.5, 0.5, 0.5]]), [aniso(a) for a in at] if ani else [0.01, 0.02], ['0', '0'])
                m.unitcell.CalcXRSF(np.eye(3))
            elif kind == 'load':
                with tempfile.TemporaryDirectory() as d:
                    load(dict(sg=sg, setting=0, lp=cell_for(sg, [4.0] * 3 + [90.0] * 3), atoms=at, ani=ani, dmin=1.4, kev=60.0), d).planeData.structFact
    return f


for _k in ('default', 'make', 'set', 'load'):
    for _a in (True, False):
        warm('C18', preload=True)(_warm(_k, _a))
