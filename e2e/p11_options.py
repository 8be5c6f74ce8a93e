"""P11: which photo pixels maps written by the program take, over all combinations of the options of a photo."""
import itertools, math
from e2e.lib import make_fits
from e2e.photomodel import *

PS, PL, S, L = 20, 16, 36, 24
PIX = [((i * 7 + k * 29) % 211) + 0.5 * (k % 3) for k in range(PL) for i in range(PS)]
NANS = {k for k in range(PS * PL) if k % 11 == 4 or k == PS * 8 + 9}
NIB = {(0, 0, 0, 0): [], (2, 2, 2, 2): ['NIBBLE: 2'], (5, 0, 0, 0): ['NIBBLE_LEFT: 5'], (0, 5, 0, 0): ['NIBBLE_RIGHT: 5'], (0, 0, 4, 0): ['NIBBLE_TOP: 4'], (0, 0, 0, 4): ['NIBBLE_BOTTOM: 4'],
       (3, 6, 2, 5): ['NIBBLE_LEFT: 3', 'NIBBLE_RIGHT: 6', 'NIBBLE_TOP: 2', 'NIBBLE_BOTTOM: 5']}
GEO = [dict(sublat=10, sublon=170, rng=5000, pa=0, kmp=120, cs=10, cl=8, ss=(0, 120)), dict(sublat=-35, sublon=300, rng=9000, pa=50, kmp=130, cs=11.3, cl=7.2, ss=(20, 350)), dict(sublat=0, sublon=20, rng=3000, pa=350, kmp=90, cs=4, cl=5, ss=(-60, 20))]

def explore(eng):
    for gi, pro, nib, interp, sky, emi, term, gll, nan in itertools.product(range(3), (True, False), NIB, (False, True), (False, True), (None, 55), (False, True), (False, True), (False, True)):
        if not eng.thorough:
            on = (interp, sky, emi is not None, term, gll).count(True)
            if (gi == 2 and (not pro or on > 1)) or (on > 2 and (pro == bool(gi))) or (nan and on > 3): continue
        g = GEO[gi]
        label = 'geometry %d, %s, nibble %s%s%s%s%s%s%s' % (gi, 'prograde' if pro else 'retrograde', nib, ', interpolated' if interp else '', ', sky removed' if sky else '', ', emission %s' % emi if emi else '', ', terminator' if term else '', ', Galileo lens' if gll else '', ', undefined pixels' if nan else '')
        def fn(c, g=g, pro=pro, nib=nib, interp=interp, sky=sky, emi=emi, term=term, gll=gll, nan=nan, label=label):
            sp = Spheroid(pro, 1000.0, 900.0)
            pix = [math.nan if nan and k in NANS else v for k, v in enumerate(PIX)]
            cam = Camera(sp, g['sublat'], g['sublon'], g['rng'], g['pa'], g['kmp'], g['cs'], g['cl'], PS / 2, PL / 2)
            ph = Photo(cam, (PS, PL), pix, nib, emi or 90.0, sp.dir(g['ss'][0] * D, g['ss'][1] * D) if term else None, interp, sky, gll)
            c.write('p.fits', make_fits(-64, (PS, PL), pix))
            c.write('in', entry('m.fits', rotation='PROGRADE' if pro else 'RETROGRADE', dtype='DOUBLE', samples=S, lines=L, planes=[photo(center=(('SAMPLE_CENTER', g['cs']), ('LINE_CENTER', g['cl'])), nibble=NIB[nib],
                interpolate='YES' if interp else None, remove_sky='YES' if sky else None, emi=emi, term='YES' if term else None, geom='YES' if gll else None, sublat=g['sublat'], sublon=g['sublon'], pa=g['pa'],
                sslat=g['ss'][0], sslon=g['ss'][1], range=str(g['rng']), scale=('KM_PER_PIXEL: %s' % g['kmp'],))]))
            r = c.marc('in')
            c.state(label); c.steps(1)
            if not c.check(r.rc == 0 and not r.crashed, 'failed', lambda: '%s: %r' % (label, r)): return
            h = c.fits('m.fits')[0]
            n = 0
            for q, (lat, lon) in enumerate(simple_c_pixels(sp, S, L)):
                w = ph.read(lat, lon)
                if w == '?': continue
                v = h.pix[q]
                if w is None:
                    if not c.check(v != v, 'data', lambda: '%s: map pixel (%d,%d) is %r, expected no data' % (label, q % S, q // S, v)): return
                else:
                    n += 1
                    if not c.check(abs(v - w[0]) < 1e-6 * (1 if interp else 1e-3), 'value', lambda: '%s: map pixel (%d,%d) is %r, expected %r' % (label, q % S, q // S, v, w[0])): return
            if not n and nib == (0, 0, 0, 0) and not (emi or term): raise RuntimeError('nothing compared: ' + label)
        eng.case(label, fn)
