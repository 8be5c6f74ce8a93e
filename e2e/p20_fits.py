"""P20: contents of the written FITS file, over all combinations of type, planes, grid, blank, scale/zero, shape."""
import itertools, math, struct
from e2e.lib import make_fits, FitsError
from e2e.inputs import *

TYPES = {'BYTE': 8, 'SHORT': 16, 'LONG': 32, 'LONGLONG': 64, 'FLOAT': -32, 'DOUBLE': -64}
PS, PL = 20, 16

def pixels(n):
    return [float((i * 7 + k * 13 + n * 50) % 199 + 1 + n) for k in range(PL) for i in range(PS)]

def img(n, extra=()):
    return make_fits(16, (PS, PL), [int(v) for v in pixels(n)], extra)

def same(a, b):
    return (math.isnan(a) and math.isnan(b)) or a == b

def grid_ok(g, S, L, li, gi):
    """Graticule of a whole-globe Simple Cylindrical map of a prograde body."""
    vs = [(n + 90) * L / 180 for n in [-90 + li * j for j in range(1, 1000)] if n < 90]
    us = [(360 - m) * S / 360 for m in [360 - gi * j for j in range(1000)] if m > 0]
    T = 1.25
    rows = [any(abs(k + 0.5 - y) <= T for y in vs) for k in range(L)]
    cols = [any(min(abs(i + 0.5 - u), abs(i + 0.5 - u - S)) <= T for u in us) for i in range(S)]
    for q, v in enumerate(g):
        if v not in (0, 255): return 'grid pixel %d' % v
        if v and not rows[q // S] and not cols[q % S]:
            return 'pixel (%d,%d) marked off the grid lines' % (q % S, q // S)
    for y in vs:
        if 0.5 <= y <= L - 1 and not any(all(g[k * S + i] for i in range(S)) for k in range(L) if abs(k + 0.5 - y) <= T):
            return 'parallel at line %g missing' % y
    for u in us:
        if 0.5 <= u <= S - 1 and not any(all(g[k * S + i] for k in range(L)) for i in range(S) if abs(i + 0.5 - u) <= T):
            return 'meridian at sample %g missing' % u
    return None

def check_map(c, h, S, L, bp, blank, lookups, src, hist, kw):
    P = len(lookups)
    c.check(h.h['BITPIX'] == bp, 'data-type', 'BITPIX %s, expected %s' % (h.h['BITPIX'], bp))
    c.check(h.axes == ([S, L] if P == 1 else [S, L, P]), 'dimensions', 'axes %s, expected %s' % (h.axes, [S, L, P]))
    fill = math.nan if bp < 0 else (blank if blank is not None else 0)
    if bp > 0: c.check(h.h.get('BLANK') == blank, 'blank', 'BLANK %s, expected %s' % (h.h.get('BLANK'), blank))
    else: c.check('BLANK' not in h.h, 'blank', 'BLANK in a floating point map')
    data = []
    for p in range(P):
        for q, w in enumerate(lookups[p]):
            v = h.pix[p * S * L + q]
            if w == '?':
                if not same(v, fill): data.append(v)
                continue
            e = fill if w is None else src[p][w]
            if w is not None: data.append(e)
            if not c.check(same(v, e), 'pixel', 'plane %d pixel (%d,%d): %s, expected %s' % (p + 1, q % S, q // S, v, e)): return
    if data:
        # physical values: as recorded scale and zero have it
        phys = [v * kw.get('BSCALE', 1) + kw.get('BZERO', 0) for v in (min(data), max(data))]
        for k, f in (('DATAMIN', min(phys)), ('DATAMAX', max(phys))):
            c.check(k in h.h and math.isclose(h.h[k], f, rel_tol=1e-6 if bp == -32 and not ('BSCALE' in kw or 'BZERO' in kw) else 1e-13), 'extrema', '%s is %s, expected %s' % (k, h.h.get(k), f))
    else:
        c.check('DATAMIN' not in h.h and 'DATAMAX' not in h.h, 'extrema', 'extrema without data')
    for k, v in kw.items():
        c.check(h.h.get(k) == v, 'header', '%s is %r, expected %r' % (k, h.h.get(k), v))
    c.check(h.datasum_ok and h.checksum_ok and 'CHECKSUM' in h.h and 'DATASUM' in h.h, 'checksum', 'checksum of the map is missing or wrong')
    c.check('DATE' in h.h and 'CREATOR' in h.h, 'header', 'DATE or CREATOR missing')
    hs = [t for k, v, t in h.cards if k == 'HISTORY']
    c.check(sum(hist in t for t in hs) == 1, 'history', 'HISTORY %r' % hs)
    c.steps(len(h.pix))

def comment_text(h):
    # CFITSIO's own two COMMENT cards on the FITS standard come first
    return [t for k, v, t in h.cards if k == 'COMMENT' and 'FITS (Flexible Image' not in t and 'Astrophysics' not in t and '2001A&A' not in t]

def explore(eng):
    sp = Spheroid(True, 1000, 900)
    GEO = dict(sublat=10, sublon=170, range='5000', scale=('KM_PER_PIXEL: 120',))
    cam = Camera(sp, 10, 170, 5000, 0, 120, 10, 8, PS / 2, PL / 2)
    shapes = [(1, 1), (1, 3), (2, 1), (9, 7), (300, 230)] + ([(3, 1), (2, 2), (31, 16), (1, 40), (64, 48)] if eng.thorough else [])
    looks = {s: photo_lookup(cam, None, (PS, PL), (0, 0, 0, 0), simple_c_pixels(sp, *s)) for s in shapes}
    # photo on the other side: nothing mapped for a 1x1 map
    for dt, np, grid, bl, so, shape in itertools.product([None] + list(TYPES), (1, 2, 3), (False, True), (False, True), (0, 1, 2, 3), shapes):
        if bl and dt in (None, 'FLOAT', 'DOUBLE'): continue
        if not eng.thorough and so >= 2 and shape != (9, 7): continue
        if shape == (300, 230) and (so or np == 2 or bl): continue        # beyond 8 and 16 bit counters
        blank = {'BYTE': 0, 'SHORT': -32768, 'LONG': -2147483648, 'LONGLONG': -9007199254740993}[dt] if bl else None
        S, L = shape
        kw, args = {}, {}
        if so == 3: args['scale'] = '-2'; kw['BSCALE'] = -2
        elif so >= 1: args['offset'] = '-3.5'; kw['BZERO'] = -3.5
        if so == 1: args['scale'] = '0.25'; kw['BSCALE'] = 0.25
        def fn(c, dt=dt, np=np, grid=grid, blank=blank, S=S, L=L, kw=kw, args=args, so=so):
            for n in range(np): c.write('p%d.fits' % n, img(n))
            c.write('in', entry(samples=S, lines=L, dtype=dt, blank=blank, grid=['GRID: YES', 'GRID_INTERVAL: 30'] if grid else None,
                                planes=[photo('p%d.fits' % n, **GEO) for n in range(np)], **args))
            r = c.marc('in')
            if not c.check(r.rc == 0 and not r.crashed, 'exit', repr(r)): return
            f = c.fits('m.fits')
            if not c.check(len(f) == (2 if grid else 1), 'hdus', '%d HDUs' % len(f)): return
            check_map(c, f[0], S, L, TYPES[dt or 'SHORT'], blank, [looks[(S, L)]] * np, [pixels(n) for n in range(np)],
                      'Simple Cylindrical projection created by', dict(kw, OBJECT='Mars'))
            for k in ('BZERO', 'BSCALE'):
                if k not in kw: c.check(k not in f[0].h, 'header', k + ' not requested')
            if grid:
                g = f[1]
                c.check(g.h.get('EXTNAME') == 'GRID' and g.axes == [S, L] and g.h['BITPIX'] == 8 and g.h.get('BLANK') == 0, 'grid-header', 'grid extension %s %s' % (g.h.get('EXTNAME'), g.axes))
                e = grid_ok(g.pix, S, L, 30, 30)
                c.check(e is None, 'grid', e)
                c.check(g.datasum_ok and g.checksum_ok and 'CHECKSUM' in g.h, 'checksum', 'grid checksum')
            c.state(dt, np, grid, blank, so, S, L, tuple(map(str, f[0].pix)))
        eng.case('type=%s planes=%d grid=%d blank=%s so=%d shape=%dx%d' % (dt, np, grid, blank, so, S, L), fn)
    # scale and zero of any value, those that change nothing included
    for dt, np, sc, ze in itertools.product(TYPES, (1, 2), (None, 1, -1, 0.1, -2.5, 3e-9, 123456789.0125), (None, 0, -0.1, 12.5, -1e10, 7e-12, 2147483648)):
        if np == 2 and not eng.thorough and sc != 1 and ze != 0: continue
        kw = {k: v for k, v in (('BSCALE', sc), ('BZERO', ze)) if v is not None}
        def fn(c, dt=dt, np=np, sc=sc, ze=ze, kw=kw):
            for n in range(np): c.write('p%d.fits' % n, img(n))
            c.write('in', entry(samples=9, lines=7, dtype=dt, scale=sc, offset=ze, planes=[photo('p%d.fits' % n, **GEO) for n in range(np)]))
            r = c.marc('in')
            if not c.check(r.rc == 0 and not r.crashed, 'exit', repr(r)): return
            f = c.fits('m.fits')
            if not c.check(len(f) == 1, 'hdus', '%d HDUs' % len(f)): return
            check_map(c, f[0], 9, 7, TYPES[dt], None, [looks[(9, 7)]] * np, [pixels(n) for n in range(np)],
                      'Simple Cylindrical projection created by', dict(kw, OBJECT='Mars'))
            for k in ('BZERO', 'BSCALE'):
                if k not in kw: c.check(k not in f[0].h, 'header', k + ' not requested')
            c.state('scale', dt, np, sc, ze)
        eng.case('type=%s planes=%d scale=%s zero=%s' % (dt, np, sc, ze), fn)
    # header texts: from the user, from the photo, or none
    texts = {'AUTHOR': [None, 'A. N. Author', "O'Neil: \"quoted\" # text"], 'ORIGIN': [None, 'Some Observatory / USA'],
             'comments': [(), ('one',), ('same', 'same', 'other', 'same'), ('first comment', 'second: with colon # hash', 'x' * 50 + ' ' + 'y' * 60)], 'xcomments': [(), ('only',), ('grid remark', 'more'), ('again', 'again', 'again')]}
    for a, o, cm, xc, ph in itertools.product(texts['AUTHOR'], texts['ORIGIN'], texts['comments'], texts['xcomments'], (False, True)):
        def fn(c, a=a, o=o, cm=cm, xc=xc, ph=ph):
            c.write('p0.fits', img(0, (('AUTHOR', 'Photo Author'), ('ORIGIN', 'Photo Origin'), ('OBJECT', 'Pluto')) if ph else ()))
            c.write('in', entry(author=a, origin=o, comments=cm, xcomments=xc, body='Io', samples=3, lines=2, grid=['GRID: YES', 'LAT_GRID_INTERVAL: 45', 'LON_GRID_INTERVAL: 90'], planes=[photo('p0.fits', **GEO)]))
            r = c.marc('in')
            if not c.check(r.rc == 0 and not r.crashed, 'exit', repr(r)): return
            f = c.fits('m.fits')
            h = f[0].h
            for k, v, p in (('AUTHOR', a, 'Photo Author'), ('ORIGIN', o, 'Photo Origin')):
                e = v if v is not None else p if ph else None
                got = h.get(k)
                c.check((got.strip() if got is not None else None) == e, 'header', '%s is %r, expected %r' % (k, got, e))
            c.check(h.get('OBJECT') == 'Io', 'header', 'OBJECT %r' % h.get('OBJECT'))
            for hdu, want in ((f[0], cm), (f[1], xc)):
                got = ''.join(''.join(comment_text(hdu)).split())
                short = [t.strip() for t in comment_text(hdu)] == list(want) or any(len(w) > 70 for w in want)
                c.check(short and got == ''.join(''.join(want).split()), 'comments', 'comments %r, expected %r' % (comment_text(hdu), want))
            c.check(f[0].checksum_ok and f[1].checksum_ok and f[0].datasum_ok, 'checksum', 'checksum')
            c.state(a, o, cm, xc, ph)
        eng.case('author=%s origin=%s comments=%d xcomments=%d photo=%d' % (a, o, len(cm), len(xc), ph), fn)
    # texts of any length, shorter and longer than a header record, quotes anywhere
    for n, q in itertools.product(list(range(1, 6)) + list(range(30, 38)) + list(range(60, 75)) + [100, 134, 135, 136, 137, 138, 200, 300], (0, 1, 2)):
        for ph in (False, True):
            def fn(c, n=n, q=q, ph=ph):
                def text(ch): return ''.join("'" if q == 1 and i % 7 == 3 and i + 1 < n else "'" if q == 2 and i + 1 < n and i else ch for i in range(n))
                a, o, b = text('A'), text('O'), text('B')
                c.write('p0.fits', img(0, (('AUTHOR', a), ('ORIGIN', o)) if ph else ()))
                c.write('in', entry(author=None if ph else a, origin=None if ph else o, body=b, samples=3, lines=2, planes=[photo('p0.fits', **GEO)]))
                r = c.marc('in')
                if not c.check(r.rc == 0 and not r.crashed, 'exit', repr(r)): return
                f = c.fits('m.fits')
                for k, v in (('AUTHOR', a), ('ORIGIN', o), ('OBJECT', b)):
                    got = f[0].h.get(k)
                    c.check(got is not None and got.strip() == v, 'header', '%s is %r, expected %r' % (k, got, v))
                c.check(f[0].checksum_ok and f[0].datasum_ok, 'checksum', 'checksum')
                c.state('text', n, q, ph)
            eng.case('texts of %d characters, quotes %d, from the %s' % (n, q, 'photo' if ph else 'user'), fn)
    # names of the projections; grids with separate intervals
    for proj, name, opt in (('MERCATOR', 'Mercator', None), ('ORTHO', 'Orthographic', None), ('P_STEREO', 'Polar Stereographic', ['POLE: N']), ('SIMPLE_C', 'Simple Cylindrical', None)):
        for grid in (None, ['GRID: NO'], ['GRID: YES'], ['GRID: YES', 'LAT_GRID_INTERVAL: 20', 'LON_GRID_INTERVAL: 45'], ['GRID: YES', 'LON_GRID_INTERVAL: 60'], ['GRID: YES', 'LAT_GRID_INTERVAL: 45'], ['GRID: NO', 'GRID_INTERVAL: 5']):
            def fn(c, proj=proj, name=name, opt=opt, grid=grid):
                c.write('in', entry(proj=proj, options=opt, grid=grid, samples=36, lines=24, dtype='DOUBLE'))
                r = c.marc('in')
                if not c.check(r.rc == 0 and not r.crashed, 'exit', repr(r)): return
                f = c.fits('m.fits')
                want = grid is not None and grid[0].endswith('YES')
                if not c.check(len(f) == 1 + want, 'hdus', '%d HDUs for %s' % (len(f), grid)): return
                c.check(sum((name + ' projection created by') in t for k, v, t in f[0].cards if k == 'HISTORY') == 1, 'history', 'HISTORY lacks ' + name)
                if want:
                    c.check(f[1].axes == [36, 24] and any(f[1].pix) and any(name in t for k, v, t in f[1].cards if k == 'HISTORY'), 'grid-header', 'grid extension')
                    if proj == 'SIMPLE_C':
                        iv = dict(x.split(': ') for x in grid[1:])
                        e = grid_ok(f[1].pix, 36, 24, float(iv.get('LAT_GRID_INTERVAL', 10)), float(iv.get('LON_GRID_INTERVAL', 10)))
                        c.check(e is None, 'grid', e)
                c.state(proj, grid)
            eng.case('proj=%s grid=%s' % (proj, grid), fn)
