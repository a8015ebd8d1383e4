"""I02: scans do not influence each other."""
import numpy as np

from vp import arr, gen, geo, harness, modis, stubs, sym
from vp.arr import base, sa
from vp.sym import asin, sin, sphere_point, var
from . import g02, i01, m02

BUILD = True
edit_scratch = geo.edit_scratch
ASSUMPTIONS = ['real arithmetic: floating-point rounding is not modelled (agreement to 1e-9 of the radius is required)',
               'scipy splines and map_coordinates are linear in their data: the real functions are applied to the coefficients of every symbol',
               'decoding to longitude and latitude is recorded, not executed; a job of its own shows that it handles elements independently',
               'numerical patterns (seeded by VERIF_SEED) stand for the tie columns that have no symbol of their own']
SIMPLE = {'modis_1km_to_500m': 500, 'modis_1km_to_250m': 250}


def cases(tier):
    out = [('modis5kmto1km', 7, (3, 268)), ('modis5kmto1km', 2, tuple(range(0, 271, 10))),
           ('generic_modis5kmto1km', 2, tuple(range(0, 271, 10))),
           ('modis1kmto500m', 2, (0, 700, 1353)), ('modis1kmto500m', 7, ()), ('generic_modis5kmto1km', 12, (135,)), ('modis1kmto250m', 2, (677,))]
    if tier == 'thorough':
        out += [('modis5kmto1km', 2, tuple(range(k, 271, 15))) for k in range(15)]
        out += [('generic_modis5kmto1km', 3, tuple(range(k, 271, 15))) for k in range(15)]
        out += [('modis1kmto500m', 3, (1, 1352)), ('modis1kmto250m', 3, (0,))]
        out += [('modis1kmto500m', 2, tuple(range(k, 1354, 135))) for k in (0, 3, 60)]
    return out


def scases(tier):
    out = [('modis_1km_to_500m', 7, 3), ('modis_1km_to_250m', 5, 3), ('modis_1km_to_500m', 2, 9), ('modis_1km_to_250m', 2, 6)]
    return out + ([('modis_1km_to_500m', 40, 4), ('modis_1km_to_250m', 30, 3)] if tier == 'thorough' else [])


def mcases(tier):
    out = [('5000-1000', 270, ('any', 'nadir', 'sensor', 'any', 'sensor', 'nadir')), ('5000-1000', 271, ('nadir', 'any')), ('1000-500', 1354, ('sensor', 'any'))]
    if tier == 'thorough':
        out += [('5000-500', 271, ('any', 'nadir', 'sensor')), ('1000-250', 1354, ('any', 'nadir')), ('5000-250', 270, ('nadir', 'any'))]
    return out


def acases(tier):
    out = [('5000-1000', 271, 2), ('1000-500', 1354, 2)]
    return out + ([('5000-1000', 270, 4), ('5000-500', 271, 2), ('1000-250', 1354, 2)] if tier == 'thorough' else [])


def BOUNDS(tier):
    return ['zenith angle MODIS interpolation, angles of scan n: any a_n > b_n in [1, 80], alternating, ties at given positions: %s' % acases(tier),
            'generic helpers, scans, tie columns with symbols of their own (the others: one symbol per row times a pattern): %s' % [
                (a, b, '%d columns' % len(c)) for a, b, c in cases(tier)],
            'simple MODIS interpolation, every tie symbolic: width, scans: %s' % scases(tier),
            'zenith angle MODIS interpolation, every tie symbolic, angle fields of the scans: %s' % mcases(tier)]


def jobs(tier):
    out = [('%s %d scans columns %s' % (n, s, c[:3]), generic, (n, s, c)) for n, s, c in cases(tier)[::-1]]
    out += [('%s %s %s' % c, satz, c) for c in mcases(tier)[::-1]]
    out += [('%s width %d scans %d' % c, simple, c) for c in scases(tier)]
    out = [('%s width %d scans %d symbolic angles' % c, symbolic, c) for c in acases(tier)[::-1]] + out
    out += [('decoding generic', g02.decode, ('generic', (1, 2), None, False)), ('decoding modis', g02.decode, ('modis', (1, 2), None, False)),
            ('decoding modis rows', g02.decode, ('modis', (2, 1), None, False))]
    return out


def check(j, fn, inputs, rows, out_rows, scans, case, what, decode):
    """fn on all scans is the concatenation of fn on each."""
    for p in j.explore(lambda: (fn(*inputs), [fn(*[a[k * rows:(k + 1) * rows] for a in inputs]) for k in range(scans)])):
        if p.exc is not None:
            j.prove(False, p.conds, case, 'raises %r' % p.exc)
            continue
        whole, parts = p.result
        whole = decode(whole)
        if whole is None:
            continue
        for k, part in enumerate(parts):
            part = decode(part)
            if part is None:
                continue
            for n, a, b in zip('xyz', whole, part):
                if not j.require(a.shape == (out_rows * scans,) + b.shape[1:], case, '%s: shape %s of %d scans' % (what, a.shape, scans)):
                    return
                j.equal_arrays(a[k * out_rows:(k + 1) * out_rows], b, 1e-9, p.conds, case, '%s: scan %d, %s' % (what, k, n))
        j.reach(p.conds, case, what)


def generic(j, name, scans, cols):
    mod, f, rows, width = i01.HELPERS[name]
    r = np.random.RandomState(harness.SEED)
    fields = []
    rest = np.ones(width, bool)
    rest[list(cols)] = False
    for i in range(rows * scans):
        for c in cols:
            a = np.zeros((rows * scans, width))
            a[i, c] = 1
            fields.append(a)
        a = np.zeros((rows * scans, width))
        a[i, rest] = r.uniform(-1, 1, rest.sum())
        fields.append(a)
    case = lambda *a: {'name': name, 'scans': scans}
    ld = j.loader(hooks=[stubs.decode_python])
    fn = getattr(ld.load_package() if mod == 'geotiepoints' else ld.load(mod), name)
    if mod == 'geotiepoints':
        inputs = gen.points(fields)[:2]
        dec = lambda res: gen.decoded(j, res, case, name)
    else:
        inputs = (gen.combine(fields, 'd')[0],)
        dec = lambda res: list(res)
    check(j, fn, inputs, rows, rows * f, scans, case, name, dec)


def simple(j, name, width, scans):
    m = j.loader(hooks=[stubs.decode_cython]).load('geotiepoints.simple_modis_interpolator')
    lon, lat, _ = modis.ties(10 * scans, width)
    case = lambda *a: {'name': 'simple ' + name, 'scans': scans, 'width': width}
    check(j, getattr(m, name), (lon, lat), 10, 10000 // SIMPLE[name], scans, case, name,
          lambda res: modis.got_positions(j, res, case, name))


def satz(j, pair, width, kinds):
    coarse, fine = (int(v) for v in pair.split('-'))
    rows, scans = 10000 // coarse, len(kinds)
    m = j.loader(hooks=[stubs.decode_cython]).load('geotiepoints.modisinterpolator')
    lon, lat, _ = modis.ties(rows * scans, width)
    case = lambda *a: {'name': 'satz ' + pair, 'width': width, 'kinds': list(kinds), 'scans': scans}
    check(j, getattr(m, modis.PAIRS[pair]), (lon, lat, angles(kinds, rows, width)), rows, 10000 // fine, scans, case, pair,
          lambda res: modis.got_positions(j, res, case, pair))


def symbolic(j, pair, width, scans):
    coarse, fine = (int(v) for v in pair.split('-'))
    rows = 10000 // coarse
    m = j.loader(hooks=[stubs.decode_cython]).load('geotiepoints.modisinterpolator')
    ang = [[var('%s%d' % (c, n), lo=1, hi=80) for c in 'ab'] for n in range(scans)]
    h = rows * scans
    lon, lat = np.empty((h, width), object), np.empty((h, width), object)
    for i in range(h):
        for k in range(width):
            lon[i, k], lat[i, k] = sphere_point('%d_%d' % (i, k), k, i, 0)
    lon, lat = sa(lon), sa(lat)
    sat = sa(np.concatenate([m02.checkerboard(rows, width, *ab) for ab in ang]))
    k = modis.R_KM / (modis.R_KM + modis.H_KM)
    asm = []
    for a, b in ang:
        ta, tb = (v * sym.DEG - asin(k * sin(v * sym.DEG)) for v in (a, b))
        asm += [a > b + 1e-3, ta - tb >= (a - b) * ((1 - k) * sym.DEG), tb > 0]
    case = lambda m=None, *a: {'name': 'satz ' + pair, 'width': width, 'scans': scans,
                               'angles': [[m.f(v) for v in ab] for ab in ang] if m is not None else [[50 + n, 30 - n] for n in range(scans)]}
    fn = getattr(m, modis.PAIRS[pair])
    for p in j.explore(lambda: (fn(lon, lat, sat), [fn(*[v[q * rows:(q + 1) * rows] for v in (lon, lat, sat)]) for q in range(scans)]), asm):
        if p.exc is not None:
            j.prove(False, p.conds, case, 'raises %r' % p.exc)
            continue
        whole = modis.got_positions(j, p.result[0], case, pair)
        parts = [modis.got_positions(j, r, case, pair) for r in p.result[1]]
        if whole is None or None in parts:
            continue
        parts = [np.concatenate([base(q[n]) for q in parts]) for n in range(3)]
        for n in range(3):
            if not j.require(whole[n].shape == parts[n].shape, case, '%s: shape %s of %d scans' % (pair, whole[n].shape, scans)):
                return
        for n in range(2):
            m02.same_expressions(j, whole[n], parts[n], p.conds, case, None, None, pre=[])
        j.reach(p.conds, case, pair)


def angles(kinds, rows, width):
    return np.concatenate([modis.satz_pattern(k, rows, width, harness.SEED + n) for n, k in enumerate(kinds)])


def replay(c):
    if 'impl' in c:
        return g02.replay(c)
    import importlib
    name, scans = c['name'], c['scans']
    r = np.random.RandomState(3)
    if name.startswith('simple'):
        from geotiepoints import simple_modis_interpolator as s
        fn, rows, width = getattr(s, name.split()[1]), 10, c['width']
    elif name.startswith('satz'):
        from geotiepoints import modisinterpolator as s
        fn, rows, width = getattr(s, modis.PAIRS[name.split()[1]]), 10000 // int(name.split()[1].split('-')[0]), c['width']
    else:
        mod, _f, rows, width = i01.HELPERS[name]
        fn = getattr(importlib.import_module(mod), name)
    lon, lat = modis.concrete_ties(rows * scans, width)
    # the scans have nothing to do with each other
    lon, lat = (v + np.repeat(r.uniform(-15, 15, scans), rows)[:, None] + r.uniform(-1, 1, v.shape) for v in (lon, lat))
    inputs = [lon, lat]
    if name.startswith('satz'):
        inputs.append(np.concatenate([m02.checkerboard(rows, width, *ab) for ab in c['angles']]).astype(float) if 'angles' in c else
                      angles(c['kinds'], rows, width))
    elif name.startswith('generic'):
        inputs = [lon]
    try:
        whole = fn(*inputs)
        parts = [fn(*[a[k * rows:(k + 1) * rows] for a in inputs]) for k in range(scans)]
    except Exception as e:      # noqa: any exception is a violation
        return True, 'raises %r' % e
    for n, w in enumerate(whole):
        d = gen.compare([w], [np.concatenate([p[n] for p in parts])], 1e-8, ['result %d' % n])
        if d:
            return True, '%s (%s of %d scans against each scan by itself)' % (d, name, scans)
    return False, 'ok'
