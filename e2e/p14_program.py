"""P14: backplanes of floating point maps written by the program."""
import itertools, math
from e2e.inputs import *
from e2e.p15_backplanes import plane, physical, UNIT

S, L = 17, 11

def explore(eng):
    OBS = [('9', '4'), ('0', '0'), ('-90', '350'), ('90', '10'), ('45', '200'), ('-30', '359.5')]
    RNG = ['1100', '4000', '1e6', '1e12']
    SUN = [('20', '70'), ('0', '180'), ('90', '0'), ('-45', '270')]
    for o, rng, s, pro, r, t in itertools.product(OBS, RNG, SUN, (True, False), (1.0, 0.9, 0.5), ('FLOAT', 'DOUBLE')):
        if not eng.thorough and (t == 'FLOAT') != (s[0] == '20' and pro): continue
        g = (o[0], o[1], rng, s[0], s[1])
        ks = list(UNIT)
        label = 'observer %s at %s, sun %s, %s, axis ratio %s, %s' % (o, rng, s, 'prograde' if pro else 'retrograde', r, t)
        def fn(c, g=g, pro=pro, r=r, t=t, ks=ks, label=label):
            sp = Spheroid(pro, 1000.0, 1000 * r)
            c.write('in', entry(dtype=t, rotation='PROGRADE' if pro else 'RETROGRADE', radii=(('EQ_RAD', 1000), ('POL_RAD', 1000 * r)), samples=S, lines=L, planes=[plane(k, g) for k in ks]))
            res = c.marc('in')
            c.state(label); c.steps(1)
            if not c.check(res.rc == 0 and not res.crashed, 'failed', lambda: '%s: %r' % (label, res)): return
            h = c.fits('m.fits')[0]
            for n, k in enumerate(ks):
                for q, (lat, lon) in enumerate(simple_c_pixels(sp, S, L)):
                    v, w = h.pix[n * S * L + q], physical(k, sp, g, lat, lon)
                    d = abs(v - w)
                    if k == 'LONGITUDE':
                        if not c.check(0 <= v <= 360.0001, 'longitude', lambda: '%s: longitude %r' % (label, v)): return
                        d = min(d, 360 - d)
                    if not c.check(d <= UNIT[k] * (3e-7 if t == 'FLOAT' else 1e-9), 'value', lambda: '%s: %s pixel (%d,%d) is %r, expected %r' % (label, k, q % S, q // S, v, w)): return
        eng.case(label, fn)
