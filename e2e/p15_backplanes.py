"""P15: integer backplane maps written by the program recover the physical quantity."""
import itertools, math, re
from e2e.inputs import *

OBS = 'SUB_OBSERV_LAT: %s\nSUB_OBSERV_LON: %s\nRANGE: %s'
SUN = 'SUB_SOLAR_LAT: %s\nSUB_SOLAR_LON: %s'
S, L = 13, 9
UNIT = {'MU': 1, 'MU0': 1, 'PHASE': 1, 'LATITUDE': 180, 'LATITUDE G': 180, 'LONGITUDE': 360}
RANGES = {'MU': (-1, 1), 'MU0': (-1, 1), 'PHASE': (-1, 1), 'LATITUDE': (-90, 90), 'LATITUDE G': (-90, 90), 'LONGITUDE': (0, 360)}

LONG = ('MU +', 'MU0 +')     # with the geometry these planes once needed; it makes no difference

def plane(kind, g):
    if kind in LONG: return 'M' + plane('PHASE', g).replace('PHASE', kind[1:-2])
    olat, olon, rng, slat, slon = g
    return {'MU': 'MU: ' + OBS % (olat, olon, rng), 'MU0': 'MU0: ' + SUN % (slat, slon), 'PHASE': 'PHASE: ' + OBS % (olat, olon, rng) + '\n' + SUN % (slat, slon),
            'LATITUDE': 'LATITUDE:', 'LATITUDE G': 'LATITUDE: LATITUDE_TYPE: GRAPHIC', 'LONGITUDE': 'LONGITUDE'}[kind]

def physical(kind, sp, g, lat, lon):
    kind = kind.split(' +')[0]
    olat, olon, rng, slat, slon = [float(x) for x in g]
    p = sp.point(lat, lon); n = sp.normal(p)
    o = sub(mul(rng, sp.dir(olat * D, olon * D)), p)
    s = sp.dir(slat * D, slon * D)
    if kind == 'MU': return dot(n, unit(o))
    if kind == 'MU0': return dot(n, s)
    if kind == 'PHASE': return dot(unit(o), s)
    if kind == 'LATITUDE': return lat / D
    if kind == 'LATITUDE G': return sp.graphic(lat) / D
    return (lon / D) % 360

def scales(h):
    """Recorded (scale, zero) of each plane."""
    hist = '\n'.join(t for k, v, t in h.cards if k == 'HISTORY')
    m = re.findall(r'Plane (\d+) characteristics:\n\s*BSCALE:\s*(\S+)\n\s*BZERO:\s*(\S+)', hist)
    if m: return {int(n): (float(a), float(b)) for n, a, b in m}
    return {1: (h.h.get('BSCALE', 1), h.h.get('BZERO', 0))}

def explore(eng):
    KINDS = list(UNIT)
    TYPES = ['BYTE', 'SHORT', 'LONG', 'LONGLONG', 'FLOAT', 'DOUBLE']
    GEOMS = [('9', '4', '4000', '20', '70'), ('0', '0', '1e6', '0', '180'), ('-90', '350', '1500', '90', '0')]
    if eng.thorough: GEOMS += [('45', '200', '1100', '-45', '20'), ('90', '0', '1e9', '90', '0')]
    sets = [(k,) for k in KINDS] + list(itertools.permutations(KINDS, 2))
    sets += [(k,) for k in LONG] + [('LATITUDE', k) for k in LONG] + [(k, 'PHASE') for k in LONG]
    if eng.thorough: sets += list(itertools.permutations(KINDS, 3))
    else: sets += [tuple(KINDS), tuple(KINDS[::-1])]
    sets += [tuple(KINDS[:5][(3 * n) % 5] for n in range(N)) for N in (7, 9, 10, 11, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300)]
    blanks = [None, '7', '-5'] if eng.thorough else [None, '7']
    for ks, t, g, rot, blank, us in itertools.product(sets, TYPES, GEOMS if True else 0, ('PROGRADE', 'RETROGRADE'), blanks, (None, ('3', '11'))):
        if blank is not None and (t in ('FLOAT', 'DOUBLE') or (t == 'BYTE' and blank[0] == '-')): continue
        if us and not eng.thorough and (len(ks) > 1 or g is not GEOMS[0]): continue
        if len(ks) > 1 and not eng.thorough and (g is not GEOMS[0] or (blank and rot == 'PROGRADE')): continue
        if len(ks) > 6 and (t not in ('SHORT', 'LONG', 'BYTE') or rot != 'PROGRADE' or blank or us or (t != 'SHORT' and not eng.thorough) or g is not GEOMS[0]): continue
        a = 1000.0; c_ = 900.0 if rot == 'PROGRADE' else 640.0
        label = '%s %s %s %s blank=%s user=%s' % (t, '+'.join(ks) if len(ks) < 7 else '%d planes' % len(ks), g, rot, blank, us)
        def fn(c, ks=ks, t=t, g=g, rot=rot, blank=blank, us=us, a=a, c_=c_, label=label):
            c.write('in', entry(dtype=t, blank=blank, rotation=rot, radii=(('EQ_RAD', a), ('POL_RAD', c_)), samples=S, lines=L, planes=[plane(k, g) for k in ks],
                                scale=us[0] if us else None, offset=us[1] if us else None))
            r = c.marc('in')
            c.check(not r.crashed, 'crash', lambda: '%s: %r' % (label, r))
            c.state(label); c.steps(1)
            if r.rc != 0:
                # only whole degrees beyond what a byte can count cannot be stored
                c.check(t == 'BYTE' and 'LONGITUDE' in ks, 'refused', lambda: '%s: %r' % (label, r))
                return
            if not c.check(not (t == 'BYTE' and 'LONGITUDE' in ks), 'accepted', lambda: '%s: longitudes stored in bytes' % label): return
            h = c.fits('m.fits')[0]
            sc = scales(h)
            integer = t not in ('FLOAT', 'DOUBLE')
            if integer and all(k[0] == 'L' for k in ks): c.check(str(h.h.get('BUNIT')).strip() == 'deg', 'unit', lambda: '%s: unit is %r, expected deg' % (label, h.h.get('BUNIT')))
            sp = Spheroid(rot == 'PROGRADE', a, c_)
            pixels = list(simple_c_pixels(sp, S, L, (-90, 90), (0, 360), False))
            for n, k in enumerate(ks):
                if integer and not c.check(n + 1 in sc, 'unrecorded', lambda: '%s: no scale recorded for plane %d' % (label, n + 1)): return
                bs, bz = sc[n + 1] if integer else (1, 0)
                if integer:
                    lo, hi = RANGES[k.split(' +')[0]]
                    bits = {'BYTE': 8, 'SHORT': 16, 'LONG': 32, 'LONGLONG': 64}[t]
                    # resolution: at least a 20th of the type's range is used, up to the precision of the data
                    if not c.check(bs > 0 and ((hi - lo) / bs >= 2.0 ** bits / 20 or bs < 1e-6 * (hi - lo)), 'resolution', lambda: '%s: plane %d stored in steps of %s' % (label, n + 1, bs)): return
                for q, (lat, lon) in enumerate(pixels):
                    v = h.pix[n * S * L + q]
                    w = physical(k, sp, g, lat, lon)
                    got = v * bs + bz
                    d = abs(got - w)
                    if k == 'LONGITUDE': d = min(d, 360 - d)
                    tol = (bs * (1 + 1e-6) if integer else 0) + {'FLOAT': 1e-4, 'DOUBLE': 1e-8}.get(t, 1e-8) * UNIT[k.split(' +')[0]]
                    if not c.check(d <= tol, 'physical', lambda: '%s: plane %d (%s) pixel (%d,%d) holds %s, recorded scale %s zero %s: %s, expected %s' % (label, n + 1, k, q % S, q // S, v, bs, bz, got, w)): return
        eng.case(label, fn)
