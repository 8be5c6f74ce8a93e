"""P08 through the program: the grid extension of maps of every projection, for the options of the projection and all ways of giving intervals."""
import itertools, math
from e2e.inputs import *
from e2e.projections import spaces, ecc, isometric, stereo

def placer(kind, sp, S, L, o):
    """latitude, longitude (degrees) -> [(u, v, visible)]"""
    if kind == 'SIMPLE_C':
        la, lo = o.get('la', (-90, 90)), o.get('lo', (0, 360))
        l0, l1 = la
        if o.get('graphic'): l0, l1 = sp.graphic(l0 * D) / D, sp.graphic(l1 * D) / D
        g0, g1 = lo
        if g0 > g1: g0 -= 360
        elif g0 == g1: g1 += 360
        def f(lat, lon):
            v = (lat - l0) / (l1 - l0) * L
            for t in (-2, -1, 0, 1, 2):
                u = (lon + 360 * t - g0) / (g1 - g0) * S
                yield (S - u if sp.prograde else u), v, 1
    elif kind == 'MERCATOR':
        e = ecc(sp)
        def f(lat, lon):
            if abs(lat) > 89.999: return
            v = isometric(e, sp.graphic(lat * D)) * S / (2 * math.pi) + L / 2
            u = lon / 360 * S
            for t in (-1, 0, 1): yield (S - u if sp.prograde else u) + t * S, v, 1
    elif kind == 'P_STEREO':
        e, north = ecc(sp), o.get('pole', 'N') == 'N'
        sg = 1 if north else -1
        scale = min(S, L) / 2 / stereo(e, sp.graphic(o.get('max', 0) * D * sg))
        def f(lat, lon):
            if lat * sg < -89.99: return
            rho = stereo(e, sp.graphic(lat * D) * sg) * scale
            yield S / 2 + rho * math.sin(lon * D) * (1 if north == sp.prograde else -1), L / 2 + rho * math.cos(lon * D), 1
    else:
        slat, slon = o.get('sub', (0, 0))
        pa = o.get('pa', 0) * D
        if abs(slat) == 90:
            w = (0, 0, 1 if slat > 0 else -1); north = (1, 0, 0); east = cross(north, w); pa = 0
        else:
            w = sp.dir(slat * D, slon * D); east = unit(cross((0, 0, 1), w)); north = cross(w, east)
        right = sub(mul(math.cos(pa), east), mul(math.sin(pa), north)); up = add(mul(math.sin(pa), east), mul(math.cos(pa), north))
        kmp = o.get('km') or 2 * sp.a / (0.9 * min(S, L))
        sc, lc = o.get('pix', (S / 2, L / 2))
        if 'at' in o:
            p = sp.point(o['at'][0] * D, o['at'][1] * D)
            sc, lc = S / 2 - dot(p, right) / kmp, L / 2 - dot(p, up) / kmp
        def f(lat, lon):
            p = sp.point(lat * D, lon * D)
            yield sc + dot(p, right) / kmp, lc + dot(p, up) / kmp, dot(sp.normal(p), w)
    return f

def check_grid(c, g, S, L, li, gi, place, N=300, poles=False):
    T = 1.25
    allowed = bytearray(S * L)
    lats = [(-90 + li * j, 0 < j and -90 + li * j < 90) for j in range(int(180 / li + 1e-9) + 1)]
    even = 360 % gi == 0
    lons = [(gi * j, even) for j in range(1, int(360 / gi + 1e-9) + 1)]
    if not even: lons += [(360 - gi * j, False) for j in range(int(360 / gi) + 1)]
    def walk(la, lo, req):
        for u, v, vis in place(la, lo):
            if not (vis > -0.03 and -2 < u < S + 2 and -2 < v < L + 2): continue
            found = False
            for k in range(max(0, math.floor(v) - 2), min(L, math.floor(v) + 3)):
                if abs(k + 0.5 - v) > T: continue
                for i in range(max(0, math.floor(u) - 2), min(S, math.floor(u) + 3)):
                    if abs(i + 0.5 - u) > T: continue
                    allowed[k * S + i] = 1
                    found = found or g[k * S + i]
            if req and vis > 0.06 and 0.5 <= u <= S - 1 and 0.5 <= v <= L - 1 and not found:
                return c.check(False, 'missing', 'no grid pixel at latitude %g, longitude %g which is at sample %g, line %g' % (la, lo, u, v))
        return True
    for l, req in lats:
        for j in range(N):
            if not walk(l, j * 360 / N, req): return
    for l, req in lons:
        for j in range(N + 1):
            if not walk(j * 180 / N - 90, l, req): return
        for j in range(-220, 221) if poles else ():              # closely spaced near the poles
            if not walk(math.atan(math.sinh(j / 30)) / D, l, req): return
    for q, v in enumerate(g):
        if v == 0: continue
        if not c.check(v == 255, 'value', 'grid pixel %d' % v): return
        if v and not c.check(allowed[q], 'spurious', lambda: 'pixel (%d,%d) is marked but no grid line passes it' % (q % S, q // S)): return

INTERVALS = [(['GRID: YES', 'GRID_INTERVAL: 30'], 30, 30), (['GRID: YES', 'LAT_GRID_INTERVAL: 20', 'LON_GRID_INTERVAL: 60'], 20, 60), (['GRID: YES'], 10, 10),
             (['GRID: YES', 'LON_GRID_INTERVAL: 45'], 10, 45), (['GRID: YES', 'LAT_GRID_INTERVAL: 36'], 36, 10), (['GRID: YES', 'LAT_GRID_INTERVAL: 25', 'LON_GRID_INTERVAL: 100'], 25, 100)]

def explore(eng):
    n = 0
    # intervals from a fraction of a pixel to more than the globe
    WIDE = [(90, 180), (91, 200), (180, 360), (45, 360), (120, 30), (200, 400), (1e6, 90), (1e6, 1e6), (1, 1), (0.5, 2), (7.5, 0.5), (13, 17)]
    for kind, iv, pro, sh, how in itertools.product(('SIMPLE_C', 'MERCATOR', 'P_STEREO', 'ORTHO'), WIDE, (True, False), ((31, 24), (1, 1), (90, 3), (3, 90)), ('both', 'one', 'config')):
        if kind == 'MERCATOR' and sh[1] > 2 * sh[0] + 1: continue
        if how == 'one' and iv[0] != iv[1] or how == 'config' and (not pro or sh != (31, 24)): continue
        if not eng.thorough and (not pro and sh[0] * sh[1] < 300 or min(iv) < 5 and (sh != (31, 24) or not pro or how != 'both')): continue
        def fn(c, kind=kind, iv=iv, pro=pro, sh=sh, how=how):
            S, L = sh
            g = ['GRID_INTERVAL: %s' % iv[0]] if how == 'one' else ['LAT_GRID_INTERVAL: %s' % iv[0], 'LON_GRID_INTERVAL: %s' % iv[1]]
            if how == 'config': c.write('home/.config/marc', '\n'.join(g) + '\n'); g = []
            opt = {'P_STEREO': ['POLE: N'], 'ORTHO': ['SUB_OBSERV_LAT: 25', 'SUB_OBSERV_LON: 40']}.get(kind)
            m = {'P_STEREO': {'pole': 'N'}, 'ORTHO': {'sub': (25, 40)}}.get(kind, {})
            c.write('in', entry('g.fits', dtype='DOUBLE', radii=(('EQ_RAD', 1000), ('POL_RAD', 900)), rotation='PROGRADE' if pro else 'RETROGRADE', grid=['GRID: YES'] + g, proj=kind, options=opt, samples=S, lines=L))
            q = c.marc('in', env={'HOME': c.path('home'), 'XDG_CONFIG_HOME': ''})
            if not c.check(q.rc == 0 and not q.crashed, 'exit', repr(q)): return
            h = c.fits('g.fits')
            if not c.check(len(h) == 2 and h[1].h.get('EXTNAME', '').strip() == 'GRID', 'extension', '%d HDUs' % len(h)): return
            if not c.check(h[1].axes == [S, L], 'size', 'grid of %s in a map of %s' % (h[1].axes, [S, L])): return
            check_grid(c, h[1].pix, S, L, iv[0], iv[1], placer(kind, Spheroid(pro, 1000, 900), S, L, m), N=300 if min(iv) > 5 else 600 if max(sh) > 31 else 120 if eng.thorough else 60, poles=kind in ('MERCATOR', 'P_STEREO') and (min(iv) > 5 or max(sh) > 31))
            c.steps(S * L); c.state('wide', kind, iv, pro, sh, how)
        eng.case('%s intervals %s %s %dx%d given by %s' % (kind, iv, 'prograde' if pro else 'retrograde', sh[0], sh[1], how), fn)
    # large maps: the lines must stay closed
    for kind, pro, sh, iv in itertools.product(('SIMPLE_C', 'MERCATOR', 'P_STEREO', 'ORTHO'), (True, False), ((1500, 1200), (700, 1300), (2400, 2000)), ((60, 90), (30, 120))):
        if not eng.thorough and (sh[0] > 2000 or (iv[0] == 60) != pro or sh[0] == 700 and not pro): continue
        if kind == 'MERCATOR': sh = (max(sh), min(sh))
        def fn(c, kind=kind, pro=pro, sh=sh, iv=iv):
            S, L = sh
            opt = {'P_STEREO': ['POLE: N' if pro else 'POLE: S'], 'ORTHO': ['SUB_OBSERV_LAT: 25', 'SUB_OBSERV_LON: 40'] + ([] if pro else ['POSITION_ANGLE: 40', 'KM_PER_PIXEL: 0.7'])}.get(kind)
            m = {'P_STEREO': {'pole': 'N' if pro else 'S'}, 'ORTHO': dict({'sub': (25, 40)}, **({} if pro else {'km': 0.7, 'pa': 40}))}.get(kind, {})
            c.write('in', entry('g.fits', dtype='BYTE', radii=(('EQ_RAD', 1000), ('POL_RAD', 900)), rotation='PROGRADE' if pro else 'RETROGRADE', grid=['GRID: YES', 'LAT_GRID_INTERVAL: %s' % iv[0], 'LON_GRID_INTERVAL: %s' % iv[1]], proj=kind, options=opt, samples=S, lines=L))
            q = c.marc('in')
            if not c.check(q.rc == 0 and not q.crashed, 'exit', repr(q)): return
            h = c.fits('g.fits')
            if not c.check(len(h) == 2 and h[1].axes == [S, L], 'extension', '%d HDUs' % len(h)): return
            check_grid(c, h[1].pix, S, L, iv[0], iv[1], placer(kind, Spheroid(pro, 1000, 900), S, L, m), N=8 * max(sh))
            c.steps(S * L); c.state('large', kind, pro, sh, iv)
        eng.case('%s %s large map %dx%d intervals %s' % (kind, 'prograde' if pro else 'retrograde', sh[0], sh[1], iv), fn)
    for kind in ('SIMPLE_C', 'MERCATOR', 'P_STEREO', 'ORTHO'):
        for m, e in spaces(kind, eng.thorough):
            if kind == 'SIMPLE_C' and m.get('la') == (10, 11): continue
            if kind == 'SIMPLE_C' and m.get('lo') == (359.5, 0.5): continue
            for pro, r, sh, iv in itertools.product((True, False), (1000, 900, 600), ((31, 24), (20, 41)), INTERVALS if eng.thorough else INTERVALS[:4]):
                n += 1
                if kind == 'MERCATOR' and sh[1] > 2 * sh[0] + 1: continue
                if kind != 'MERCATOR' and n % ({'SIMPLE_C': 5, 'P_STEREO': 1, 'ORTHO': 7} if eng.thorough else {'SIMPLE_C': 37, 'P_STEREO': 11, 'ORTHO': 59})[kind]: continue
                def fn(c, kind=kind, m=m, e=e, pro=pro, r=r, sh=sh, iv=iv):
                    S, L = sh
                    c.write('in', entry('g.fits', dtype='DOUBLE', radii=(('EQ_RAD', 1000), ('POL_RAD', r)), rotation='PROGRADE' if pro else 'RETROGRADE', grid=iv[0], proj=kind, options=e or None, samples=S, lines=L))
                    q = c.marc('in')
                    if not c.check(q.rc == 0 and not q.crashed, 'exit', repr(q)): return
                    h = c.fits('g.fits')
                    if not c.check(len(h) == 2 and h[1].h.get('EXTNAME', '').strip() == 'GRID', 'extension', '%d HDUs' % len(h)): return
                    if not c.check(h[1].axes == [S, L], 'size', 'grid of %s in a map of %s' % (h[1].axes, [S, L])): return
                    sp = Spheroid(pro, 1000, r)
                    check_grid(c, h[1].pix, S, L, iv[1], iv[2], placer(kind, sp, S, L, m), poles=kind in ('MERCATOR', 'P_STEREO'))
                    c.steps(S * L)
                    c.state(kind, m, pro, r, sh, iv)
                eng.case('%s %s %s c=%d %dx%d %s' % (kind, '; '.join(e or []), 'prograde' if pro else 'retrograde', r, sh[0], sh[1], '; '.join(iv[0])), fn)
