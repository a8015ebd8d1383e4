"""M02: the viewing-angle correction of the MODIS interpolation (M03 uses the same runs)."""
import numpy as np

from vp import geo, harness, modis, stubs, sym
from vp.arr import base, sa
from vp.sym import asin, cos, defined, sand, sin, sor, snot, sphere_point, sqrt, var

BUILD = True
edit_scratch = geo.edit_scratch
AMAX = 80
ASSUMPTIONS = ['real arithmetic: floating-point rounding is not modelled',
               'the part of the zenith angle seen from the Earth\'s centre, z - arcsin(R sin z / (R + H)), increases with z, with a slope of 1 - R / (R + H) at least',
               'expressions equal up to 1e-9 in every coefficient count as equal (rounding of constants)',
               'decoding to longitude and latitude is recorded, not executed (decided by G02)']


def cases(tier):
    out = [('5000-1000', 271, 1), ('5000-1000', 270, 2), ('1000-500', 1354, 1), ('5000-500', 271, 1)]
    if tier == 'thorough':
        out += [('5000-500', 270, 1), ('5000-1000', 271, 3), ('1000-500', 1354, 2), ('1000-250', 1354, 1), ('5000-250', 271, 1), ('5000-250', 270, 1)]
    return out


def BOUNDS(tier):
    return ['zenith angles: any a and b in [0, %d] degrees, one at the even and one at the odd tie points of every row (alternating from row '
            'to row), so that every cell has the angles (a, b) or (b, a)' % AMAX] + ['%s, width %d, %d scans' % c for c in cases(tier)] + [
                'zenith angles: any a in [40, 60], any b in [65, 80], 20 and 35, in an irregular arrangement that is another one in every scan'
            ] + ['%s, width %d, %d scans, arrangement %d' % c for c in mixed(tier)]


def mixed(tier):
    out = [('5000-1000', 271, 2, 1), ('1000-500', 1354, 1, 2)]
    if tier == 'thorough':
        out += [('5000-1000', 270, 3, 3), ('5000-500', 270, 1, 4), ('1000-250', 1354, 1, 5), ('5000-250', 271, 1, 6)]
    return out


def jobs(tier):
    return sorted([('%s width %d scans %d' % c, run, c) for c in cases(tier)] + [('%s width %d scans %d mixed angles %d' % c, run_mixed, c) for c in mixed(tier)],
                  key=lambda q: cost(q[2]))


def cost(c):
    c_, f = c[0].split('-')
    return -c[2] * modis.FINE[int(f)] ** 2


def checkerboard(h, w, a, b):
    out = np.empty((h, w), object)
    for i in range(h):
        for k in range(w):
            out[i, k] = (a, b)[(i + k) % 2]
    return out


def spec(a, b, width_km):
    """modis.coefficients for symbolic angles; branches like any executed code."""
    r, h = modis.R_KM, modis.H_KM
    a, b = a * sym.DEG, b * sym.DEG
    pa, pb = (asin(r * sin(v) / (r + h)) for v in (a, b))
    ta, tb = a - pa, b - pb
    if ta == tb:
        if ta == 0:
            return 0, 0
        den = 2 * ta
    else:
        den = ta - tb
    phi = (pa + pb) / 2
    zeta = asin((r + h) * sin(phi) / r)
    theta = zeta - phi
    exp = 4 * (((ta + tb) / 2 - theta) / den)
    d = ((r + h) / r * cos(phi) - cos(zeta)) * (width_km / (2 * h))
    e = cos(zeta) - sqrt(cos(zeta) ** 2 - d ** 2)
    return exp, 4 * e * sin(zeta) / den


def setup(j, pair, width, scans, equal=False):
    """The function under test on coordinates that show rows, columns and both."""
    coarse, fine = (int(v) for v in pair.split('-'))
    h = 10000 // coarse * scans
    m = j.loader(hooks=[stubs.decode_cython]).load('geotiepoints.modisinterpolator')
    fn = getattr(m, modis.PAIRS[pair])
    a, b = (var(n, lo=0, hi=AMAX) for n in 'ab')
    if equal:
        b = a
    lon, lat = np.empty((h, width), object), np.empty((h, width), object)
    for i in range(h):
        for k in range(width):
            lon[i, k], lat[i, k] = sphere_point('%d_%d' % (i, k), k, i, 0)
    satz = sa(checkerboard(h, width, a, b))
    k = modis.R_KM / (modis.R_KM + modis.H_KM)
    ta, tb = (v * sym.DEG - asin(k * sin(v * sym.DEG)) for v in (a, b))
    s = (1 - k) * sym.DEG
    lemma = sor(a == b, sand(a > b, ta - tb >= (a - b) * s), sand(b > a, tb - ta >= (b - a) * s))
    return coarse, fine, fn, sa(lon), sa(lat), satz, a, b, [lemma]


VALUES = [(0, 0), (0, 40), (40, 0), (10, 12), (12, 10), (30, 30), (35, 36), (60, 62), (62, 60), (65, 20), (1, 0.5), (80, 70),
          (40, 40.001), (20.01, 20), (5, 5.0001), (55, 55.00001)]


def arrangement(h, w, seed, vals):
    r = np.random.RandomState(seed)
    return np.array(vals, object)[r.randint(0, len(vals), (h, w))]


def run_mixed(j, pair, width, scans, seed):
    coarse, fine, fn, lon, lat, satz, a, b, _asm = setup(j, pair, width, scans)
    vals = [a, b, 20, 35]
    satz = sa(arrangement(satz.shape[0], width, seed, vals))
    sb = base(satz)
    k = modis.R_KM / (modis.R_KM + modis.H_KM)
    th = [v * sym.DEG - asin(k * sin(v * sym.DEG)) for v in vals]
    asm = [a >= 40, a <= 60, b >= 65] + [th[x] - th[y] >= (vals[x] - vals[y]) * ((1 - k) * sym.DEG) for x, y in ((1, 0), (1, 2), (1, 3), (0, 2), (0, 3))]

    def case(m=None, k=None, special=True):
        ab = [(m.f(a), m.f(b))] if m is not None else []
        return {'pair': pair, 'width': width, 'scans': scans, 'seed': seed, 'angles': ab + ([(50, 70), (41, 79)] if special else [])}
    rows, row, col = modis.geometry(coarse, fine, width)

    def work():
        memo = {}
        want = np.empty((len(row) * scans, len(col)), object)
        for n in range(scans):
            for r, (i, t) in enumerate(row):
                for c, (k, s) in enumerate(col):
                    x, y = sb[n * rows + i, k], sb[n * rows + i, k + 1]
                    key = (sym.vkey(x), sym.vkey(y))
                    v = memo.get(key)
                    if v is None:
                        v = memo[key] = spec(x, y, coarse // 1000)
                    v = memo.get(key + (s, t))
                    if v is None:
                        ce, ca = memo[key]
                        v = memo[key + (s, t)] = s + s * (1 - s) * ce + t * (1 - t) * ca
                    want[n * len(row) + r, c] = k + v
        return fn(lon, lat, satz), want
    for p in j.explore(work, asm):
        if p.exc is not None:
            j.prove(False, p.conds, case, 'raises %r' % p.exc)
            continue
        res, want = p.result
        pos = modis.got_positions(j, res, case, pair)
        if pos is None:
            continue
        if not j.require(pos[0].shape == want.shape, case, 'shape %s' % (pos[0].shape,)):
            continue
        same_expressions(j, pos[0], want, p.conds, case, a, b)
        j.reach(p.conds, lambda m: case(m, special=False), 'path')


def run(j, pair, width, scans):
    for equal in (False, True):
        run_pair(j, pair, width, scans, equal)


def run_pair(j, pair, width, scans, equal):
    coarse, fine, fn, lon, lat, satz, a, b, asm = setup(j, pair, width, scans, equal)
    if not equal:
        asm.append(a != b)

    def case(m=None, k=None, special=True):
        vals = [(m.f(a), m.f(b))] if m is not None else []
        return {'pair': pair, 'width': width, 'scans': scans, 'angles': vals + (VALUES if special else [])}

    def work():
        return fn(lon, lat, satz), spec(a, b, coarse // 1000), spec(b, a, coarse // 1000)
    rows, row, col = modis.geometry(coarse, fine, width)
    for p in j.explore(work, asm):
        if p.exc is not None:
            j.prove(False, p.conds, case, 'raises %r' % p.exc)
            continue
        res, c0, c1 = p.result
        pos = modis.got_positions(j, res, case, pair)
        if pos is None:
            continue
        shape = (len(row) * scans, len(col))
        if not j.require(pos[0].shape == shape, case, 'shape %s' % (pos[0].shape,)):
            continue
        want = [np.empty(shape, object) for _ in range(2)]
        memo = {}
        for n in range(scans):
            for r, (i, t) in enumerate(row):
                for c, (k, s) in enumerate(col):
                    i_ = n * rows + i
                    par = (i_ + k) % 2
                    key = (par, s, t)
                    v = memo.get(key)
                    if v is None:
                        ce, ca = (c0, c1)[par]
                        v = memo[key] = s + s * (1 - s) * ce + t * (1 - t) * ca
                    want[0][n * len(row) + r, c] = k + v
                    want[1][n * len(row) + r, c] = i_ + t
        if not j.equal_arrays(pos[1], sa(want[1]), 1e-9, p.conds, case, 'track coordinate'):
            continue
        same_expressions(j, pos[0], want[0], p.conds, case, a, b)
        j.reach(p.conds, lambda m: case(m, special=False), 'path')


def rounded(d):
    """The same for expressions that differ by rounding only."""
    return frozenset((m, round(float(c), 9)) for m, c in d.p.items() if abs(c) >= 1e-9)


def same_expressions(j, got, want, conds, case, a, b, pre=None):
    """Equal as expressions, or else equal for all values by the solver."""
    gb = base(got)
    seen, proved = set(), set()
    j.claims += gb.size
    for k in np.ndindex(gb.shape):
        d = gb[k] - want[k]
        if type(d) is not sym.Sym:
            if not j.require(abs(d) < 1e-9, case, 'scan coordinate of %s' % (k,)):
                return
            continue
        if all(abs(c) < 1e-9 for c in d.p.values()):
            continue
        key = rounded(d)
        proved.add(k)
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > 100:
            raise sym.Unsupported('too many different expressions')
        if pre is None:
            pre = [sor(a == b, a - b > 1e-4, b - a > 1e-4), sand(a > 1e-4, b > 1e-4)]
        if not j.prove([defined(d), sym.close(d, 0, 1e-6)], conds + pre, case, 'scan coordinate of %s' % (k,), opts={'link_all': True}):
            return
    # the comparison of coefficients is repeated as one query
    g2, w2 = np.empty(gb.shape, object), np.empty(gb.shape, object)
    for k in np.ndindex(gb.shape):
        g2[k], w2[k] = (0, 0) if k in proved else (gb[k], want[k])
    j.equal_arrays(sa(g2), sa(w2), 1e-7, conds, case, 'scan coordinate')


def replay(c):
    from geotiepoints import modisinterpolator
    coarse, fine = (int(v) for v in c['pair'].split('-'))
    h = 10000 // coarse * c['scans']
    lon, lat = modis.concrete_ties(h, c['width'])
    for a, b in c['angles']:
        if abs(a - b) < 1e-6 and a != b:
            continue        # ill-conditioned: the coefficients are quotients of nearly equal numbers
        satz = (arrangement(h, c['width'], c['seed'], [a, b, 20, 35]) if 'seed' in c else checkerboard(h, c['width'], a, b)).astype(float)
        try:
            got = getattr(modisinterpolator, modis.PAIRS[c['pair']])(lon, lat, satz)
        except Exception as e:      # noqa: any exception is a violation
            return True, 'raises %r for zenith angles %r and %r' % (e, a, b)
        d = modis.differ(got, modis.want_concrete(coarse, fine, satz, lon, lat), 1e-6)
        if d:
            return True, 'zenith angles %r and %r: %s' % (a, b, d)
    return False, 'ok'
