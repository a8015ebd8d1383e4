"""V02: VII geolocation, in degrees or on the sphere."""
import numpy as np

from vp import arr, gen, stubs, sym, xar
from vp.arr import base, sa
from vp.geo import R_VII
from vp.sym import opaque, sor, var
from . import g01, g02, v01

BUILD = False
ASSUMPTIONS = v01.ASSUMPTIONS + [
    'tie points on the Cartesian way are arbitrary positions (any three numbers per tie point) with unrelated longitudes and latitudes; '
    'the decoding is recorded, not executed: jobs of their own decide it for all positions (and the round trip of encoding and decoding)']


def cases(tier):
    # scans, tie rows per scan, tie columns, factor, thresholds given
    out = [(1, 2, 2, 2, False), (1, 2, 2, 1, True), (1, 2, 3, 2, True), (2, 2, 2, 3, True), (1, 3, 2, 2, False),
           (1, 4, 4, 2, True), (3, 3, 3, 1, False)]
    if tier == 'thorough':
        out += [(2, 2, 3, 2, False), (1, 3, 3, 8, True), (3, 2, 2, 4, True), (1, 2, 5, 2, True), (2, 3, 2, 8, False)]
    return out


def BOUNDS(tier):
    return ['every tie longitude in [-180, 180] and latitude in [-90, 90], every latitude threshold in (0, 90) and z threshold in (0, 1), or the '
            'default ones; scans, tie rows per scan, tie columns, factor, thresholds given: %s' % cases(tier),
            'several pairs of differing shapes']


def jobs(tier):
    out = [('%s' % (c,), run, c) for c in cases(tier)] + [('wrong shapes', wrong, ())]
    return out + [('decoding', g02.decode, ('vii', (1, 2), None, False)), ('decoding, any threshold', g02.decode, ('vii', (2, 1), None, True)),
                  ('round trip', g01.roundtrip, ('vii', (1, 2), None, True))]


def hook(loader, module):
    if module.__name__.rpartition('.')[2] != 'viiinterpolator':
        return
    real = getattr(module, '_xyz2lonlat', None)
    if real is None or real.__code__.co_argcount < 3:
        raise sym.Unsupported('_xyz2lonlat not found')

    def decode(x_coords, y_coords, z_coords, z_threshold_use_xy=0.8):
        xyz = [base(arr.asarray(getattr(v, 'data', v))) for v in (x_coords, y_coords, z_coords)]
        t = z_threshold_use_xy
        out = []
        for w in ('lon', 'lat'):
            a = np.empty(xyz[0].shape, object)
            for k in np.ndindex(a.shape):
                a[k] = opaque(w, stubs.Decode(w, xyz[0][k], xyz[1][k], xyz[2][k], t))
            out.append(x_coords.copy(data=sa(a)))
        return tuple(out)
    module._xyz2lonlat = decode


def run(j, n, t, m, f, given):
    xr = xar.install()
    mod = j.loader(hooks=[hook], overrides={'xarray': xr}).load('geotiepoints.viiinterpolator')
    fields = list(np.eye(n * t * m).reshape(-1, n * t, m))
    lon, lat, xyz, _ = gen.points(fields)
    lons, lats = (list(base(v).reshape(-1)) for v in (lon, lat))
    asm = [q for v in lons for q in (v >= -180, v <= 180)] + [q for v in lats for q in (v >= -90, v <= 90)]
    kw, tl, tz = {}, 60, 0.8
    if given:
        tl, tz = var('tl', lo=0, hi=90), var('tz', lo=0, hi=1)
        kw = {'lat_threshold_use_cartesian': tl, 'z_threshold_use_xy': tz}
        asm += [tl > 0, tl < 90, tz > 0, tz < 1]
    # large swaths are enough to see a wrong decision; replays need distinct values
    fine = [v01.blend(np.asarray(base(v)), n, t, m, f) for v in (lon, lat)]
    pos = [v01.blend(np.asarray(base(v)), n, t, m, f) for v in xyz]
    inside = [v for b in lats for v in (b <= tl, b >= -tl)] + [a - b <= 180 for i, a in enumerate(lons) for k, b in enumerate(lons) if i != k]

    def case(mod_=None, k=None):
        g = (lambda v: mod_.f(v)) if mod_ is not None else (lambda v: 1.0 * (v if not isinstance(v, sym.Sym) else 0))
        c = {'c': [n, t, m, f], 'given': given}
        if mod_ is not None:
            c.update(lon=[g(v) for v in lons], lat=[g(v) for v in lats], tl=g(tl) if given else None, tz=g(tz) if given else None)
        return c
    seen = {True: 0, False: 0}
    for p in j.explore(lambda: mod.tie_points_geo_interpolation(xr.DataArray(lon, dims=('y', 'x')), xr.DataArray(lat, dims=('y', 'x')),
                                                                t, f, **kw), asm):
        witness = lambda: case(j.query(p.conds)[1])
        if p.exc is not None:
            j.prove(False, p.conds, case, 'raises %r' % p.exc)
            continue
        r = p.result
        if not j.require(isinstance(r, (tuple, list)) and len(r) == 2 and all(isinstance(v, xr.DataArray) for v in r), witness,
                         'not two DataArrays'):
            continue
        glon, glat = (v.data for v in r)
        if not j.require(glon.shape == fine[0].shape and glat.shape == fine[0].shape, witness, 'shapes %s %s' % (glon.shape, glat.shape)):
            continue
        gl, gb = base(glon), base(glat)
        cart = stubs.decoded(gl.flat[0]) is not None
        seen[cart] += 1
        if not cart:
            j.prove(inside, p.conds, case, 'interpolated in degrees beyond the latitude threshold or a span of 180 degrees')
            j.equal_arrays(sa(gl) / 180, sa(fine[0]) / 180, 1e-9, p.conds, lambda *a: witness(), 'longitude')
            j.equal_arrays(sa(gb) / 180, sa(fine[1]) / 180, 1e-9, p.conds, lambda *a: witness(), 'latitude')
        else:
            j.prove(sor(*[sym.snot(c) for c in inside]), p.conds, case, 'interpolated in Cartesian coordinates without need')
            got = [np.empty(gl.shape, object) for _ in 'xyz']
            for k in np.ndindex(gl.shape):
                a, b = stubs.decoded(gl[k]), stubs.decoded(gb[k])
                ok = a is not None and b is not None and a.what == 'lon' and b.what == 'lat' and all(
                    sym.vkey(u) == sym.vkey(v) for u, v in ((a.x, b.x), (a.y, b.y), (a.z, b.z), (a.params, b.params), (a.params, tz)))
                if not j.require(ok, witness, 'longitude and latitude of pixel %s are not decoded from one position with the z threshold' % (k,)):
                    return
                for o, v in zip(got, (a.x, a.y, a.z)):
                    o[k] = v / R_VII
            for c, g, w in zip('xyz', got, pos):
                j.equal_arrays(sa(g), sa(w), 1e-9, p.conds, lambda *a: witness(), '%s of every pixel' % c)
        if seen[cart] < 3:
            j.reach(p.conds, case, 'degrees' if not cart else 'cartesian')
    j.require(seen[True] and seen[False], None, 'both ways are taken: %s' % seen)


WRONG = [((4, 3), (4, 4)), ((4, 3), (2, 3)), ((4, 4), (4, 3)), ((4, 2), (2, 2)), ((2, 3), (3, 2)), ((4, 3), (6, 3))]


def wrong(j):
    xr = xar.install()
    mod = j.loader(hooks=[hook], overrides={'xarray': xr}).load('geotiepoints.viiinterpolator')
    for a, b in WRONG:
        for scale in (1, 80):
            lon, lat = (gen.combine(list(scale * np.eye(s[0] * s[1]).reshape((-1,) + s)), c)[0] for s, c in ((a, 'lo'), (b, 'la')))
            for p in j.explore(lambda: mod.tie_points_geo_interpolation(xr.DataArray(lon, dims=('y', 'x')), xr.DataArray(lat, dims=('y', 'x')), 2, 2),
                               max_paths=20000):
                if not j.require(isinstance(p.exc, ValueError), lambda: {'wrong': [list(a), list(b)]}, 'no ValueError for shapes %s and %s' % (a, b)):
                    break


def replay(c):
    if 'impl' in c:
        return g01.replay(c) if 'kind' in c else g02.replay(c)
    import xarray as xr
    from geotiepoints.viiinterpolator import tie_points_geo_interpolation as fn
    D = lambda a: xr.DataArray(np.asarray(a, dtype=float), dims=('y', 'x'))
    if 'wrong' in c:
        a, b = c['wrong']
        for s in (1, 80):
            try:
                fn(D(np.random.RandomState(0).rand(*a) * s), D(np.random.RandomState(1).rand(*b) * s), 2, 2)
            except ValueError:
                continue
            except Exception as e:      # noqa
                return True, 'raises %r instead of ValueError' % e
            return True, 'no ValueError for shapes %s and %s' % (a, b)
        return False, 'ok'
    n, t, m, f = c['c']
    sets = []
    shape = (n * t, m)
    if 'lon' in c:
        sets.append((np.array(c['lon']).reshape(shape), np.array(c['lat']).reshape(shape), c.get('tl'), c.get('tz')))
    i, k = np.mgrid[:shape[0], :shape[1]]
    w = i + k * 0.7 + 0.1 * (i % 2) * k
    for lo0, la0, s in ((10, 20, 1.0), (178, 20, 1.0), (10, 75, 1.0), (-30, -75, 1), (-100, -40, 0.5), (0, 88, 1.0)):
        lo = lo0 + s * w
        sets.append(((lo + 180) % 360 - 180, la0 + s * (i - 0.5 * k), None, None))
        for T, Z in ((70.0, 0.5), (8.0, 0.3), (8.0, 0.99)):
            sets.append(((lo + 180) % 360 - 180, la0 + s * (i - 0.5 * k), T, Z))
    for lon, lat, tl, tz in sets:
        lon, lat = np.clip(lon, -180, 180), np.clip(lat, -90, 90)
        kw = {} if tl is None else {'lat_threshold_use_cartesian': tl, 'z_threshold_use_xy': tz}
        T, Z = (60.0, 0.8) if tl is None else (tl, tz)
        try:
            glon, glat = (v.values for v in fn(D(lon), D(lat), t, f, **kw))
        except Exception as e:      # noqa
            return True, 'raises %r' % e
        u = np.abs(lat).max() - T
        v = (lon.max() - lon.min()) - 180
        deg = u <= 0 and v <= 0
        # the decision itself may be subject to rounding
        if abs(u) < 1e-9 and v <= 1e-9 or abs(v) < 1e-9 and u <= 1e-9:
            if not (u in (0.0,) or v in (0.0,)):
                continue
        if deg:
            wl, wb = v01.blend(lon, n, t, m, f), v01.blend(lat, n, t, m, f)
            tol = 1e-9
        else:
            a, b = np.radians(lon), np.radians(lat)
            x, y, z = (v01.blend(q, n, t, m, f) for q in (np.cos(b) * np.cos(a), np.cos(b) * np.sin(a), np.sin(b)))
            wl, h = np.degrees(np.arctan2(y, x)), np.hypot(x, y)
            wb = np.where(np.abs(z) < Z, np.degrees(np.arcsin(np.clip(z, -1, 1))), np.sign(z) * np.degrees(np.arccos(np.clip(h, -1, 1))))
            wl = np.where(h < 1e-9, glon, wl)
            near = (np.abs(np.abs(z) - Z) < 1e-9) | ((np.abs(z) < 1e-9) & (Z < 1e-9))
            wb = np.where(near, glat, wb)
            tol = 1e-5
        glon = np.where(np.isfinite(glon), wl + (glon - wl + 180) % 360 - 180, glon) if not deg else glon
        d = gen.compare([glon, glat], [wl, wb], tol, ['longitude', 'latitude'])
        if d:
            return True, '%s; longitudes %s latitudes %s thresholds %s' % (d, lon.round(4).tolist(), lat.round(4).tolist(), (tl, tz))
    return False, 'ok'
