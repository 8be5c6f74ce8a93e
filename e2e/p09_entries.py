"""P09: maps of photos whose geometry is given in every way the input language allows."""
import itertools, math
from e2e.lib import make_fits
from e2e.photomodel import *

PS, PL, S, L = 20, 16, 36, 24
PIX = [float(k) for k in range(PS * PL)]

def explore(eng):
    OBS = [(10, 170), (-35, 300), (0, 20), (0, 0), (62, 359), (-80, 91)]
    PAS = [('0', 0), ('50', 50), ('30 CW', -30), ('200', 200), ('-90', -90), ('10 CCW', 10)]
    OAS = [None, (8.5, 9.25), (14, 3)]
    RNG = [5000.0, 40000.0]
    # last: low over the body, part of which lies behind the camera
    near = [((ola, olo), p, oa, 1180.0, pro, 'near', scl) for (ola, olo) in OBS[:4] for p in PAS[:4] for oa in ((8, 8), (7.75, 7.5), None, (6, 9.5)) for pro in (True, False) for scl in ('km', 'lens')]
    n = -1
    for (ola, olo), (pat, pa), oa, rng, pro, ctr, scl in itertools.chain(itertools.product(OBS, PAS, OAS, RNG, (True, False), ('center', 'axis', 'axis2'), ('km', 'arcsec', 'lens')), near):
        n += 1
        if not eng.thorough and ctr != 'near' and (n + n // 3 + n // 9 + n // 18 + n // 36 + n // 108) % 3: continue
        label = 'observer (%s,%s) at %s, position angle %s, axis %s, %s, center by %s, scale by %s' % (ola, olo, rng, pat, oa, 'prograde' if pro else 'retrograde', ctr, scl)
        def fn(c, ola=ola, olo=olo, pat=pat, pa=pa, oa=oa, rng=rng, pro=pro, ctr=ctr, scl=scl, label=label):
            sp = Spheroid(pro, 1000.0, 900.0)
            oas, oal = oa or (PS / 2, PL / 2)
            f = None
            if scl == 'km': kmp = 130.0; sc = ('KM_PER_PIXEL: 130',)
            elif scl == 'arcsec': a = 130.0 / rng * 648000 / math.pi; a = float('%.6g' % a); kmp = math.pi / 648000 * a * rng; sc = ('ARCSEC_PER_PIX: %r' % a,)
            else: f = rng / 130 ; f = float('%.6g' % f); sc = ('FOCAL_LENGTH: 2', 'PIXEL_SCALE: %r' % (f / 2)); kmp = None
            if ctr in ('center', 'near'):
                cs, cl = (11.25, 7.5) if ctr == 'center' else (1.25, 5.0)
                ce = (('SAMPLE_CENTER', cs), ('LINE_CENTER', cl))
                if kmp is None:
                    dx, dz = oas - cs, oal - cl
                    kmp = rng / math.sqrt(dx * dx + dz * dz + f * f)
                # orientations that put the pole elsewhere than seen are contradictory
                dx, dz = cs - oas, oal - cl
                if scl != 'lens' and math.hypot(dx, dz) * kmp > rng * 1.001:      # nothing that far is so far from the axis
                    c.write('p.fits', make_fits(-64, (PS, PL), PIX))
                    c.write('in', entry('m.fits', rotation='PROGRADE' if pro else 'RETROGRADE', dtype='DOUBLE', samples=S, lines=L, planes=[photo(center=ce, oa=oa, sublat=ola, sublon=olo, pa=pat, sslat=0, sslon=0, range=repr(rng), scale=sc)]))
                    r = c.marc('in')
                    c.state(label); c.steps(1)
                    c.check(r.rc != 0 and not r.crashed, 'impossible', lambda: '%s: a body centre farther from the axis than from the observer is accepted: %r' % (label, r))
                    return
                ff = math.sqrt((rng / kmp) ** 2 - dx * dx - dz * dz)
                w = unit((dx, ff, dz))
                A = -math.sin(pa * D) * w[0] + math.cos(pa * D) * w[2]
                if math.hypot(A, w[1]) < abs(math.sin(ola * D)) + 1e-9: c.state(label); return
                # so are those that leave two orientations possible
                al, be = math.atan2(w[1], A), math.acos(-math.sin(ola * D) / math.hypot(A, w[1]))
                if (math.cos(al + be) > 1e-9) == (math.cos(al - be) > 1e-9): c.state(label); return
                cam = Camera(sp, ola, olo, rng, pa, kmp, cs, cl, oas, oal)
            else:
                la, lo = (ola * 0.8 + 5, olo - 12) if ctr == 'axis' else (ola * 0.7 - 8, olo + 15)
                if lo < 0: lo += 360
                if lo > 360: lo -= 360
                ce = (('LAT_AT_CENTER', la), ('LON_AT_CENTER', lo))
                cam = AxisCamera(sp, ola, olo, rng, pa, kmp, la, lo, oas, oal, f)
            ph = Photo(cam, (PS, PL), PIX)
            c.write('p.fits', make_fits(-64, (PS, PL), PIX))
            c.write('in', entry('m.fits', rotation='PROGRADE' if pro else 'RETROGRADE', dtype='DOUBLE', samples=S, lines=L, planes=[photo(center=ce, oa=oa, sublat=ola, sublon=olo, pa=pat, sslat=0, sslon=0, range=repr(rng), scale=sc)]))
            r = c.marc('in')
            c.state(label); c.steps(1)
            if not c.check(r.rc == 0 and not r.crashed, 'failed', lambda: '%s: %r' % (label, r)): return
            h = c.fits('m.fits')[0]
            n = 0
            for q, (lat, lon) in enumerate(simple_c_pixels(sp, S, L)):
                w = ph.read(lat, lon)
                if w == '?': continue
                w = math.nan if w is None else w[0]
                v = h.pix[q]; n += w == w
                if not c.check((v != v) == (w != w) and (v != v or v == w), 'value', lambda: '%s: map pixel (%d,%d) is %r, expected %r' % (label, q % S, q // S, v, w)): return
            if not n: raise RuntimeError('nothing compared: ' + label)
        eng.case(label, fn)
