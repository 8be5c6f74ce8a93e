"""P20: large maps, maps of many planes, many comments, long names."""
import itertools
from e2e.lib import make_fits
from e2e.big import big_maps
from e2e.p20_fits import *

COUNTS = (4, 7, 8, 9, 10, 11, 16, 17, 32, 33, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300)

def explore(eng):
    big_maps(eng)
    sp = Spheroid(True, 1000, 900)
    GEO = dict(sublat=10, sublon=170, range='5000', scale=('KM_PER_PIXEL: 120',))
    cam = Camera(sp, 10, 170, 5000, 0, 120, 10, 8, PS / 2, PL / 2)
    S, L = 9, 7
    look = photo_lookup(cam, None, (PS, PL), (0, 0, 0, 0), simple_c_pixels(sp, S, L))
    for n, dt, grid, numbered in itertools.product(COUNTS, ('SHORT', 'DOUBLE', 'BYTE'), (False, True), (False, True)):
        if dt == 'BYTE' and (grid or numbered): continue
        def fn(c, n=n, dt=dt, grid=grid, numbered=numbered):
            # plane q comes from photo q mod 7, unequal to its neighbours
            src = [[float(int(v) % 250) for v in pixels(q)] if dt == 'BYTE' else pixels(q) for q in range(7)]
            for q in range(7): c.write('p%d.fits' % q, make_fits(16, (PS, PL), [int(v) for v in src[q]]))
            c.write('in', entry(samples=S, lines=L, dtype=dt, grid=['GRID: YES'] if grid else None, nplanes=n if numbered else None, planes=[photo('p%d.fits' % (q % 7), **GEO) for q in range(n)]))
            r = c.marc('in')
            if not c.check(r.rc == 0 and not r.crashed, 'exit', repr(r)): return
            f = c.fits('m.fits')
            if not c.check(len(f) == 1 + grid, 'hdus', '%d HDUs' % len(f)): return
            check_map(c, f[0], S, L, TYPES[dt], None, [look] * n, [src[q % 7] for q in range(n)], 'Simple Cylindrical projection created by', dict(OBJECT='Mars'))
            c.state('planes', n, dt, grid, numbered)
        eng.case('%d planes of %s, grid=%d numbered=%d' % (n, dt, grid, numbered), fn)
    for n, x in itertools.product(COUNTS, (0, 1)):
        def fn(c, n=n, x=x):
            cm = ['remark number %d of many' % q for q in range(n)]
            c.write('in', entry(comments=() if x else cm, xcomments=cm if x else ('one',), samples=3, lines=2, dtype='FLOAT', grid=['GRID: YES']))
            r = c.marc('in')
            if not c.check(r.rc == 0 and not r.crashed, 'exit', repr(r)): return
            f = c.fits('m.fits')
            got = [t.strip() for t in comment_text(f[x])]
            c.check(got == cm, 'comments', lambda: '%d comments: got %d, first difference %s' % (n, len(got), next((i for i in range(min(n, len(got))) if got[i] != cm[i]), None)))
            c.check(comment_text(f[1 - x]) == [] or (x == 0 and [t.strip() for t in comment_text(f[1])] == ['one']), 'comments', 'comments of the other image')
            c.check(all(h.checksum_ok and h.datasum_ok for h in f), 'checksum', 'checksum')
            c.state('comments', n, x)
        eng.case('%d %scomments' % (n, 'x' if x else ''), fn)
    # names of files of any length
    for n in (1, 8, 63, 64, 65, 80, 100, 127, 128, 129, 200, 240, 250):
        for d in (0, 3):
            def fn(c, n=n, d=d):
                name = '/'.join(['d' * 100] * d + ['n' * n + '.fits'])
                c.write(name[:-5], '')
                c.write('p0.fits', img(0))
                c.write('in', entry(name, samples=3, lines=2, planes=[photo('p0.fits', **GEO)]))
                r = c.marc('in')
                if not c.check(r.rc == 0 and not r.crashed, 'exit', repr(r)): return
                f = c.fits(name)
                c.check(f[0].axes == [3, 2], 'dimensions', 'axes %s' % f[0].axes)
                c.state('name', n, d)
            eng.case('map named with %d characters in %d directories' % (n, d), fn)
    # computed planes stored as integers: the scale of each is recorded under its number
    from e2e.p15_backplanes import scales
    for n, dt in itertools.product(COUNTS, ('SHORT', 'LONGLONG')):
        def fn(c, n=n, dt=dt):
            c.write('in', entry(samples=3, lines=2, dtype=dt, planes=[('LATITUDE:', 'LONGITUDE')[q % 2] for q in range(n)]))
            r = c.marc('in')
            if not c.check(r.rc == 0 and not r.crashed, 'exit', repr(r)): return
            h = c.fits('m.fits')[0]
            sc = scales(h)
            if not c.check(sorted(sc) == list(range(1, n + 1)), 'history', lambda: '%d planes: scales recorded for planes %s' % (n, sorted(sc)[:5] + ['...'] + sorted(sc)[-5:])): return
            for q in range(n):
                bs, bz = sc[q + 1]
                for i in range(6):
                    w = (-45.0, 45.0)[i // 3] if q % 2 == 0 else (300.0, 180.0, 60.0)[i % 3]
                    v = h.pix[q * 6 + i] * bs + bz
                    if not c.check(abs(v - w) <= bs * (1 + 1e-6) + 1e-6, 'pixel', lambda: '%d planes: plane %d pixel %d holds %s, expected %s' % (n, q + 1, i, v, w)): return
            c.state('computed', n, dt)
        eng.case('%d computed planes of %s' % (n, dt), fn)
