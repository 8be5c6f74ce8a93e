"""Limits and extrema of computed backplanes: limits are physical values, whatever the map's data type."""
import itertools, math
from e2e.inputs import *
from e2e.p15_backplanes import plane, physical, scales, UNIT, S, L

COS = [(None, None), (0, None), (None, 0), (-0.25, 0.5), (0.1, 10000), (-5, 0.77), (None, 0.333), (0.98, None)]
LAT = [(None, None), (0, None), (None, -30), (-45, 45), (-1000, 10), (12.3, None), (None, 1000), (70, 71)]
LON = [(None, None), (90, None), (None, 180.5), (100, 200), (-10, 350), (1, 1000), (355, None)]
LIMITS = {'MU': COS, 'MU0': COS, 'PHASE': COS, 'LATITUDE': LAT, 'LATITUDE G': LAT, 'LONGITUDE': LON}
BLANK = {'BYTE': 255, 'SHORT': -32768, 'LONG': -2147483648, 'LONGLONG': -9007199254740993}

def lim(u): return [('%s: %s' % (k, v)) for k, v in zip(('DATA_MIN', 'DATA_MAX'), u) if v is not None]

def build(eng, which):
    G = ('9', '4', '4000', '20', '70')
    KINDS = list(UNIT)
    sets = [((k,), (u,)) for k in KINDS for u in LIMITS[k]]
    for k1, k2 in itertools.permutations(KINDS, 2):
        for n, (u1, u2) in enumerate(itertools.product(LIMITS[k1], LIMITS[k2])):
            if eng.thorough or n % 13 == (KINDS.index(k1) + 3 * KINDS.index(k2)) % 13: sets.append(((k1, k2), (u1, u2)))
    for t, (ks, us), rot, how in itertools.product(('BYTE', 'SHORT', 'LONG', 'LONGLONG', 'FLOAT', 'DOUBLE'), sets, ('PROGRADE', 'RETROGRADE'), ('input', 'config', 'both')):
        if t == 'BYTE' and 'LONGITUDE' in ks: continue
        if how != 'input' and (len(ks) > 1 or us[0] == (None, None)): continue
        if not eng.thorough and rot == 'RETROGRADE' and len(ks) > 1: continue
        label = '%s %s limits %s %s given by %s' % (t, '+'.join(ks), us, rot, how)
        a, c_ = 1000.0, 900.0 if rot == 'PROGRADE' else 640.0
        def fn(c, t=t, ks=ks, us=us, rot=rot, how=how, label=label, a=a, c_=c_):
            planes = []
            for k, u in zip(ks, us):
                given = lim(u) if how == 'input' else lim((None, u[1])) if how == 'both' else []
                planes.append('\n'.join(given + [plane(k, G)]))
            if how != 'input':
                # what the configuration gives only counts where the input gives nothing
                u = us[0]
                if how == 'both' and u[1] is not None: u = (u[0], (-1 if u[0] is None else u[0]) + 0.01)
                c.write('home/.config/marc', '\n'.join(lim(u)) + '\n')
            blank = BLANK.get(t)
            c.write('in', entry(dtype=t, blank=blank, rotation=rot, radii=(('EQ_RAD', a), ('POL_RAD', c_)), samples=S, lines=L, planes=planes))
            r = c.marc('in', env={'HOME': c.path('home'), 'XDG_CONFIG_HOME': ''})
            c.state(label); c.steps(1)
            if not c.check(r.rc == 0 and not r.crashed, 'failed', lambda: '%s: %r' % (label, r)): return
            h = c.fits('m.fits')[0]
            sc = scales(h)
            integer = t in BLANK
            sp = Spheroid(rot == 'PROGRADE', a, c_)
            pixels = list(simple_c_pixels(sp, S, L, (-90, 90), (0, 360), False))
            data = []
            for n, (k, (lo, hi)) in enumerate(zip(ks, us)):
                if integer and not c.check(n + 1 in sc, 'unrecorded', lambda: '%s: no scale recorded for plane %d' % (label, n + 1)): return
                bs, bz = sc[n + 1] if integer else (1, 0)
                tol = (bs * (1 + 1e-6) if integer else 0) + {'FLOAT': 1e-6, 'DOUBLE': 1e-9}.get(t, 1e-9) * UNIT[k]
                for q, (lat, lon) in enumerate(pixels):
                    v = h.pix[n * S * L + q]
                    empty = v == blank if integer else v != v
                    if not empty: data.append(v)
                    if which == 'extrema': continue
                    w = physical(k, sp, G, lat, lon)
                    if k == 'LONGITUDE' and min(w, 360 - w) < 1e-6: continue
                    where = lambda: '%s: plane %d pixel (%d,%d), %s is %s' % (label, n + 1, q % S, q // S, k, w)
                    if (lo is not None and w < lo - tol) or (hi is not None and w > hi + tol):
                        if not c.check(empty, 'outside', lambda: where() + ', stored as %r with scale %r zero %r' % (v, bs, bz)): return
                    elif (lo is None or w > lo + tol) and (hi is None or w < hi - tol):
                        if not c.check(not empty, 'inside', lambda: where() + ', but blank'): return
                    if not empty and not c.check(abs(v * bs + bz - w) <= tol * 1.01, 'physical', lambda: where() + ', stored as %r with scale %r zero %r' % (v, bs, bz)): return
            if which == 'extrema':
                # of a single plane with a recorded scale in physical units, as the FITS standard has it
                bs, bz = sc[1] if integer and len(ks) == 1 else (1, 0)
                for k, f in (('DATAMIN', min), ('DATAMAX', max)):
                    if not data: c.check(k not in h.h, 'extrema', lambda: '%s: %s without data' % (label, k))
                    else: c.check(k in h.h and math.isclose(h.h[k], f(data) * bs + bz, rel_tol=2e-6, abs_tol=1e-9 * bs), 'extrema', lambda: '%s: %s is %r, expected %r' % (label, k, h.h.get(k), f(data) * bs + bz))
        eng.case(label, fn)
