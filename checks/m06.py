"""M06: the compiled interpolators stay inside their arrays."""
import os
import re

import numpy as np

from vp import abst, arr, modis, sym
from vp.arr import base
from vp.sym import MemoryFault, var
from . import l02

BUILD = True
ASSUMPTIONS = ['arrays of more than one scan behave as the numbers of rows within the bounds',
               'the index computations of the MODIS kernels do not depend on longitudes, latitudes and angles: these are a fixed pattern '
               '(an index derived from them would be reported as unsupported); inputs have as many dimensions as required unless listed'] + l02.ASSUMPTIONS[:1]


def cases(tier):
    # function, arrays, largest numbers of rows and columns
    out = [('modis_5km_to_1km', 3, 3, 300), ('modis_5km_to_500m', 3, 2, 300), ('modis_5km_to_250m', 3, 2, 271), ('modis_1km_to_500m', 3, 11, 1400),
           ('simple modis_1km_to_500m', 2, 21, 4), ('simple modis_1km_to_250m', 2, 11, 4)]
    if tier == 'thorough':
        out += [('modis_5km_to_1km', 3, 9, 2000), ('modis_5km_to_500m', 3, 5, 2000), ('modis_1km_to_500m', 3, 21, 3000),
                ('simple modis_1km_to_500m', 2, 45, 9), ('simple modis_1km_to_250m', 2, 35, 7)]
    return out + [('modis_1km_to_250m', 3, 11, 1400)]


STRUCT = [(((10, 1354),) * 2 + ((10, 1354, 1),), 'f8'), (((10,), (10, 1354), (10, 1354)), 'f8'), (((2, 271), (2,), (2, 271)), 'f8'),
          (((1, 10, 4),) * 3, 'f8'), (((10, 1),) * 3, 'f4'), (((10, 4), (10, 4, 1), (10, 4)), 'f8'), (((0, 0),) * 3, 'f8'), (((1, 1),) * 3, 'f4')]


# function, arrays, rows, columns
MANY = [('modis_5km_to_1km', 3, 514, 270), ('simple modis_1km_to_500m', 2, 2570, 2), ('simple modis_1km_to_250m', 2, 2610, 3)]


def BOUNDS(tier):
    return ['all shapes of every input array within: function, arrays, largest numbers of rows and columns: %s' % cases(tier),
            'many scans (function, arrays, rows, columns): %s' % MANY,
            'arrays of other numbers of dimensions, per function: %s' % STRUCT,
            'multilinear kernels: %s' % l02.BOUNDS(tier)]


def jobs(tier):
    out = [('%s up to %d x %d' % (c[0], c[2], c[3]), run, c + (d,)) for c, d in zip(cases(tier)[::-1], ['f8', 'f4'] * 9)]
    out = [('%s, %d x %d' % (c[0], c[2], c[3]), many, c) for c in MANY] + out
    out += [('dimensions of %s' % c[0], struct, c[:2]) for c in cases(tier)]
    out += [('multilinear, ' + n, f, a) for n, f, a in l02.jobs(tier)]
    return out


def function(j, name):
    ld = j.loader(hooks=[l02.hook])
    if name.startswith('simple'):
        return getattr(ld.load('geotiepoints.simple_modis_interpolator'), name.split()[1])
    return getattr(ld.load('geotiepoints.modisinterpolator'), name)


NAMES = ['longitudes', 'latitudes', 'angles']


def outcome(j, p, case, what):
    """Whether the path ended with a result; reports accesses outside of arrays and elements not written."""
    if isinstance(p.exc, MemoryFault):
        j.prove(False, p.conds, case, '%s: %s' % (what, p.exc))
        return False
    if p.exc is not None:
        return False
    for k, r in enumerate(p.result):
        b = base(arr.asarray(r)).reshape(-1)
        seen = {}
        bad = [i for i, v in enumerate(b) if type(v) is sym.Sym and seen.setdefault(id(v), sym.is_junk(v))]
        if bad:
            j.prove(False, p.conds, case, '%s: %d elements of result %d have not been written' % (what, len(bad), k))
            return False
    return True


def valid(name, shapes):
    (h, w), rest = shapes[0], shapes[1:]
    widths = [w == 270, w == 271] if '5km' in name else [w >= 2] if 'simple' in name else [w == 1354]
    out = [v == u for s in rest for v, u in zip(s, (h, w))] + [h % (2 if '5km' in name else 10) == 0, sym.sor(*widths)]
    return [v if isinstance(v, sym.SymBool) else bool(v) for v in out]


def run(j, name, count, rows, cols, dtype):
    fn = function(j, name)
    shapes = [(var('rows%d' % k, lo=0, hi=rows, integer=True), var('columns%d' % k, lo=0, hi=cols, integer=True)) for k in range(count)]
    asm = [q for s in shapes for v, hi in zip(s, (rows, cols)) for q in (v >= 0, v <= hi)]

    def case(m):
        return {'name': name, 'shapes': [[int(m.value(v)) for v in s] for s in shapes], 'dtype': dtype}
    done = 0
    for p in j.explore(lambda: fn(*[abst.Abs(s, dtype, name='the ' + n) for s, n in zip(shapes, NAMES)]), asm):
        if outcome(j, p, case, name):
            done += 1
            j.prove(valid(name, shapes), p.conds, case, '%s: wrong shapes are accepted' % name)
            j.reach(p.conds, case, 'interpolation')
        elif p.exc is not None and done < 1:
            j.reach(p.conds, case, 'rejection')
    j.require(done or j.violations, None, 'no input is accepted')


def struct(j, name, count):
    for shapes, dtype in STRUCT:
        fn = function(j, name)
        case = lambda *a: {'name': name, 'shapes': [list(s) for s in shapes[:count]], 'dtype': dtype}
        for p in j.explore(lambda: fn(*[abst.Abs(s, dtype, name='the ' + n) for s, n in zip(shapes[:count], NAMES)])):
            j.claims += 1
            if outcome(j, p, case, name):
                j.require(all(len(s) == 2 for s in shapes[:count]) and all(valid(name, shapes[:count])), case,
                          '%s: wrong shapes are accepted' % name)


def many(j, name, count, rows, cols):
    fn = function(j, name)
    case = lambda *a: {'name': name, 'shapes': [[rows, cols]] * count, 'dtype': 'f4'}
    for p in j.explore(lambda: fn(*[abst.Abs((rows, cols), 'f4', name='the ' + n) for n in NAMES[:count]])):
        if outcome(j, p, case, name):
            j.reach(p.conds, case, name)
        else:
            j.require(p.exc is None or isinstance(p.exc, MemoryFault), case, '%s refuses %d x %d' % (name, rows, cols))


def edit_scratch(pkg):
    for f in os.listdir(pkg):
        if f.endswith(('.pyx', '.pxd')):
            p = os.path.join(pkg, f)
            s = open(p).read()
            s = re.sub(r'boundscheck\s*=\s*False', 'boundscheck=True', s)
            s = re.sub(r'boundscheck\(\s*False\s*\)', 'boundscheck(True)', s)
            open(p, 'w').write(s)


def replay(c):
    if 'name' not in c:
        return l02.replay(c)
    if c['name'].startswith('simple'):
        from geotiepoints import simple_modis_interpolator as m
        fn = getattr(m, c['name'].split()[1])
    else:
        from geotiepoints import modisinterpolator as m
        fn = getattr(m, c['name'])
    empty = np.empty

    def marked(shape, dtype=float, *a, **k):
        r = empty(shape, dtype, *a, **k)
        if r.dtype.kind == 'f':
            r[...] = np.nan
        return r
    dt = np.dtype(c['dtype'])
    args = []
    for s in c['shapes']:
        # the elements lie inside a larger block, so that they cannot be left unnoticed
        args.append(np.full(s, 0, dt) + (10 + np.arange(s[-1] if s else 1) % 7).astype(dt))
    np.empty = marked
    try:
        r = l02.call(lambda: fn(*args))
    except l02.Caught as e:
        return True, '%s with arrays of shapes %s: %s' % (c['name'], c['shapes'], e)
    except Exception:       # noqa: rejected
        if all(len(s) == 2 for s in c['shapes']) and all(valid(c['name'], c['shapes'])):
            return True, '%s refuses arrays of shapes %s' % (c['name'], c['shapes'])
        return False, 'ok'
    finally:
        np.empty = empty
    if any(len(s) != 2 for s in c['shapes']) or not all(valid(c['name'], c['shapes'])):
        return True, '%s accepts arrays of shapes %s' % (c['name'], c['shapes'])
    for v in r:
        if np.isnan(np.asarray(v)).any():
            return True, '%s with arrays of shapes %s: %d elements of the result are not written' % (c['name'], c['shapes'], np.isnan(v).sum())
    return False, 'ok'
