"""P25: maps of photos with the lens distortion corrected, over image shapes around the camera's own."""
import itertools, math
from e2e.lib import make_fits
from e2e.photomodel import *

S, L = 60, 40

def explore(eng):
    SHAPES = [(800, 800), (400, 400), (800, 400), (400, 800), (401, 300), (300, 401), (390, 60), (60, 390), (500, 900)]
    data = {s: make_fits(32, s, list(range(s[0] * s[1]))) for s in SHAPES}
    OBS = [(10, 170), (-40, 300)]
    for shape, (ola, olo), pro, ctr, sky, interp, geom in itertools.product(SHAPES, OBS, (True, False), ('center', 'axis', 'off'), (False, True), (False, True), ('YES', 'NO', None)):
        if not eng.thorough and (sky and interp or geom is None and (sky or interp) or geom != 'YES' and ctr != 'center' or (ola < 0) == pro and (sky or interp)): continue
        label = 'photo of %dx%d, observer (%s,%s), %s, %s, sky removal %d, interpolation %d, correction %s' % (shape + (ola, olo, 'prograde' if pro else 'retrograde', ctr, sky, interp, geom))
        def fn(c, shape=shape, ola=ola, olo=olo, pro=pro, ctr=ctr, sky=sky, interp=interp, geom=geom, label=label):
            PS, PL = shape
            sp = Spheroid(pro, 1000.0, 900.0)
            kmp = 2000.0 / max(shape) / (0.6 if ctr == 'off' else 1.1)      # the disk reaches into the corners, or leaves some sky
            if ctr == 'axis':
                la, lo = ola * 0.8 + 5, olo - 12
                cam, ce = AxisCamera(sp, ola, olo, 40000.0, 20, kmp, la, lo, PS / 2, PL / 2), (('LAT_AT_CENTER', la), ('LON_AT_CENTER', lo))
            else:
                cs, cl = (PS / 2, PL / 2) if ctr == 'center' else (PS * 0.7, PL * 0.35)
                cam, ce = Camera(sp, ola, olo, 40000.0, 20, kmp, cs, cl, PS / 2, PL / 2), (('SAMPLE_CENTER', cs), ('LINE_CENTER', cl))
            ph = Photo(cam, shape, range(PS * PL), interp=interp, sky=sky, gll=geom == 'YES', weigh=False)
            c.write('p.fits', data[shape])
            c.write('in', entry('m.fits', rotation='PROGRADE' if pro else 'RETROGRADE', dtype='DOUBLE', samples=S, lines=L,
                                planes=[photo(center=ce, remove_sky='YES' if sky else None, interpolate='YES' if interp else None, geom=geom, sublat=ola, sublon=olo, pa=20, range='40000', scale=('KM_PER_PIXEL: %r' % kmp,))]))
            r = c.marc('in')
            c.state(label); c.steps(1)
            if not c.check(r.rc == 0 and not r.crashed, 'failed', lambda: '%s: %r' % (label, r)): return
            h = c.fits('m.fits')[0]
            n = 0
            for q, (lat, lon) in enumerate(simple_c_pixels(sp, S, L)):
                w = ph.read(lat, lon)
                if w == '?': continue
                w = math.nan if w is None else w[0]
                v = h.pix[q]; n += w == w
                # interpolated: a line of pixels is PS apart
                if not c.check((v != v) == (w != w) and (v != v or abs(v - w) <= (1e-4 * PS if interp else 0)), 'value', lambda: '%s: map pixel (%d,%d) is %r, expected %r' % (label, q % S, q // S, v, w)): return
            if not n: raise RuntimeError('nothing compared: ' + label)
        eng.case(label, fn)
