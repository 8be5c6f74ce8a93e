"""Latitude and longitude of every pixel of maps written by the program, over the options of each projection. Used by P04 to P07."""
import itertools, math
from e2e.inputs import *

def bisect(f, lo, hi, y):
    """f increasing."""
    for _ in range(200):
        m = (lo + hi) / 2
        if m in (lo, hi): break
        if f(m) < y: lo = m
        else: hi = m
    return (lo + hi) / 2

def ecc(sp): return math.sqrt(max(0, 1 - (sp.c / sp.a) ** 2))
def isometric(e, g):
    t = e * math.sin(g)
    return math.asinh(math.tan(g)) - e * math.atanh(t)
def stereo(e, g):
    """Polar distance on the map, decreasing with latitude; up to a factor."""
    t = e * math.sin(g)
    return math.tan(math.pi / 4 - g / 2) * math.exp(e * math.atanh(t))

def simple(sp, S, L, o):
    return simple_c_pixels(sp, S, L, o.get('la', (-90, 90)), o.get('lo', (0, 360)), o.get('graphic', False))

def mercator(sp, S, L, o):
    e = ecc(sp); out = []
    for k in range(L):
        y = (k + 0.5 - L / 2) * 2 * math.pi / S
        lat = sp.centric(bisect(lambda g: isometric(e, g), -math.pi / 2 + 1e-15, math.pi / 2 - 1e-15, y))
        for i in range(S):
            lon = 2 * math.pi * (i + 0.5) / S
            out.append((lat, 2 * math.pi - lon if sp.prograde else lon))
    return out

def polar(sp, S, L, o):
    e, north = ecc(sp), o.get('pole', 'N') == 'N'
    edge = o.get('max', 0) * D * (1 if north else -1)
    rmax = stereo(e, sp.graphic(edge)); out = []
    for k in range(L):
        for i in range(S):
            X, Z = i + 0.5 - S / 2, k + 0.5 - L / 2
            rho = math.hypot(X, Z) / (min(S, L) / 2) * rmax
            g = bisect(lambda f: -stereo(e, f), -math.pi / 2 + 1e-12, math.pi / 2, -rho)
            lon = math.atan2(X, Z)
            out.append((sp.centric(g) * (1 if north else -1), (lon if north == sp.prograde else -lon) if rho else None))
    return out

def ortho(sp, S, L, o):
    slat, slon = o.get('sub', (0, 0))
    pa = o.get('pa', 0) * D
    if abs(slat) == 90:
        v = (0, 0, 1 if slat > 0 else -1); north = (1, 0, 0); east = cross(north, v); pa = 0
    else:
        v = sp.dir(slat * D, slon * D); east = unit(cross((0, 0, 1), v)); north = cross(v, east)
    right = sub(mul(math.cos(pa), east), mul(math.sin(pa), north)); up = add(mul(math.sin(pa), east), mul(math.cos(pa), north))
    kmp = o.get('km') or 2 * sp.a / (0.9 * min(S, L))
    sc, lc = S / 2, L / 2
    if 'pix' in o: sc, lc = o['pix']
    if 'at' in o:
        p = sp.point(o['at'][0] * D, o['at'][1] * D)
        sc -= dot(p, right) / kmp; lc -= dot(p, up) / kmp
    out = []
    for k in range(L):
        for i in range(S):
            q = add(mul((i + 0.5 - sc) * kmp, right), mul((k + 0.5 - lc) * kmp, up))
            w = (sp.a, sp.a, sp.c)
            d1 = [v[j] / w[j] for j in range(3)]; q1 = [q[j] / w[j] for j in range(3)]
            A, B, C = dot(d1, d1), 2 * dot(d1, q1), dot(q1, q1) - 1
            disc = B * B - 4 * A * C
            rel = disc / (B * B + abs(4 * A * C) + 1e-300)
            if abs(rel) < 1e-7: out.append('?'); continue
            if disc < 0: out.append(None); continue
            p = add(q, mul((-B + math.sqrt(disc)) / (2 * A), v))
            lon = math.atan2(p[1], p[0])
            r = math.hypot(p[0], p[1])
            out.append((math.atan2(p[2], r), (-lon if sp.prograde else lon) if r > 1e-6 * sp.a else None))
    return out

def deg(x): return ('%.12f' % x).rstrip('0').rstrip('.')

def spaces(kind, thorough):
    """[(model options, entry options)]"""
    out = []
    if kind == 'SIMPLE_C':
        LA = [None, (-30, 60), (10, 11), (0, 90), (-90, -45.5)]
        LO = [None, (350, 110), (180, 180), (90, 200), (0, 360), (359.5, 0.5)]
        for g, la, lo, order in itertools.product((None, False, True), LA, LO, (0, 1, 2)):
            if order and (la is None or lo is None): continue
            m, e = {}, []
            if g is not None: m['graphic'] = g; e.append('LATITUDE_TYPE: ' + ('GRAPHIC' if g else 'CENTRIC'))
            a, b = [], []
            if la: m['la'] = la; a = ['LO_LAT: %s' % deg(la[0]), 'HI_LAT: %s' % deg(la[1])]
            if lo: m['lo'] = lo; b = ['LO_LON: %s' % deg(lo[0]), 'HI_LON: %s' % deg(lo[1])]
            if order == 1: a, b = b, a
            if order == 2: a, b = a[::-1], b[::-1]
            out.append((m, e + a + b))
    elif kind == 'MERCATOR': out = [({}, [])]
    elif kind == 'P_STEREO':
        out = [({}, None)]
        for pole, ml in itertools.product('NS', (None, 0, 30, -30, 60, -60, 85, -85)):
            m = dict(pole=pole)
            if ml is not None: m['max'] = ml
            out.append((m, ['POLE: ' + pole] + (['MAX_LAT: %s' % ml] if ml is not None else [])))
    else:
        out = [({}, None), (dict(pa=50), ['POSITION_ANGLE: 50']), (dict(km=200), ['KM_PER_PIXEL: 200']), (dict(pix=(2, 4.5)), ['SAMPLE_CENTER: 2', 'LINE_CENTER: 4.5']), (dict(at=(10, 20)), ['LAT_AT_CENTER: 10', 'LON_AT_CENTER: 20'])]
        for sub_, pa, km, ctr in itertools.product([(0, 0), (30, 100), (-70, 359), (90, 0), (-90, 40), (5, 200)], (None, 0, 40, -120), (None, 137, 460), (None, 'pix', 'at')):
            if (pa is None and km is not None) or (km is None and ctr is not None): continue
            m, e = dict(sub=sub_), ['SUB_OBSERV_LAT: %s' % sub_[0], 'SUB_OBSERV_LON: %s' % sub_[1]]
            if pa is not None: m['pa'] = pa; e.append('POSITION_ANGLE: %s' % pa)
            if km: m['km'] = km; e.append('KM_PER_PIXEL: %s' % km)
            if ctr == 'pix': m['pix'] = (3, 7.25); e += ['SAMPLE_CENTER: 3', 'LINE_CENTER: 7.25']
            if ctr == 'at': m['at'] = (sub_[0] * 0.8, sub_[1]); e += ['LAT_AT_CENTER: %s' % deg(sub_[0] * 0.8), 'LON_AT_CENTER: %s' % sub_[1]]
            out.append((m, e))
    return out

MODEL = {'SIMPLE_C': simple, 'MERCATOR': mercator, 'P_STEREO': polar, 'ORTHO': ortho}

def build(eng, kind):
    shapes = [(9, 7), (6, 11)] if kind != 'MERCATOR' else [(9, 7), (6, 11), (1, 1), (20, 1), (3, 10), (40, 31), (12, 12)]
    if eng.thorough: shapes += [(1, 1), (2, 1), (16, 16), (1, 5), (33, 20)]
    ratios = (1, 0.9, 0.6) + ((0.3, 0.99665) if eng.thorough or kind == 'MERCATOR' else ())
    for (m, e), shape, pro, r in itertools.product(spaces(kind, eng.thorough), shapes, (True, False), ratios):
        if kind == 'MERCATOR' and shape[1] > 7 * shape[0]: continue
        if not eng.thorough and kind in ('SIMPLE_C', 'ORTHO') and (shape == (6, 11)) != pro: continue
        if not eng.thorough and kind == 'ORTHO' and r == 1 and m.get('pa'): continue
        label = '%s %s, %dx%d, %s, axis ratio %s' % (kind, ' '.join(e or []), shape[0], shape[1], 'prograde' if pro else 'retrograde', r)
        def fn(c, m=m, e=e, shape=shape, pro=pro, r=r, label=label):
            S, L = shape
            sp = Spheroid(pro, 1000.0, 1000.0 * r)
            want = MODEL[kind](sp, S, L, m)
            c.write('in', entry(proj=kind, options=e if e else None, rotation='PROGRADE' if pro else 'RETROGRADE', radii=(('EQ_RAD', 1000), ('POL_RAD', deg(1000 * r))), dtype='DOUBLE', samples=S, lines=L, planes=['LATITUDE:', 'LONGITUDE']))
            res = c.marc('in')
            c.state(label); c.steps(1)
            if not c.check(res.rc == 0 and not res.crashed, 'failed', lambda: '%s: %r' % (label, res)): return
            h = c.fits('m.fits')[0]
            if not c.check(h.axes == [S, L, 2], 'size', lambda: '%s: axes %s' % (label, h.axes)): return
            for q, w in enumerate(want):
                if w == '?': continue
                la, lo = h.pix[q], h.pix[S * L + q]
                at = lambda: '%s: pixel (%d,%d) ' % (label, q % S, q // S)
                if w is None:
                    if not c.check(la != la and lo != lo, 'mapped', lambda: at() + 'mapped off the disk'): return
                    continue
                if not c.check(abs(la - w[0] / D) < 1e-5, 'latitude', lambda: at() + 'latitude %r, expected %r' % (la, w[0] / D)): return
                if w[1] is not None:
                    d = abs(lo - w[1] / D) % 360
                    if not c.check(min(d, 360 - d) * math.cos(w[0]) < 1e-5, 'longitude', lambda: at() + 'longitude %r, expected %r' % (lo, w[1] / D)): return
        eng.case(label, fn)
