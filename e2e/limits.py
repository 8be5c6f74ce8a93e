"""Maps of photos under data limits: what is stored, blanked and reported as extrema. Used by P01, P02 and P03."""
import itertools, math, struct
from e2e.lib import make_fits
from e2e.inputs import *

PS, PL, S, L = 20, 16, 36, 24
TYPES = {'BYTE': (8, 0, 255), 'SHORT': (16, -2**15, 2**15 - 1), 'LONG': (32, -2**31, 2**31 - 1), 'LONGLONG': (64, -2**63, 2**63 - 1), 'FLOAT': (-32, -3.4028234663852886e38, 3.4028234663852886e38), 'DOUBLE': (-64, -math.inf, math.inf)}
TOL = {'BYTE': 0, 'SHORT': 0, 'LONG': 0, 'LONGLONG': 0, 'FLOAT': 1e-6, 'DOUBLE': 1e-13}      # digits of the header's numbers
LADDER = [5, 100, 3, 2.999, 100.5, math.nan, 7, 7.9, 255, 256, 254.75, 255.25, -1, -0.5, -0.999, 0, 0.5, 32767, 32768, 32767.5, -32768, -32769, -32768.5, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 99.75, 10, 9.5, 90, 90.5, 50, 12.25,
          9007199254740992.0, 9223372036854774784.0, 9223372036854775808.0, -9223372036854775808.0, -1e19, 3.4028234663852886e38, 3.5e38, -3.5e38, 1e300, -1e300, 1e-300, 1e-30, -7.5, 42]
LIMITS = [(None, None), (3, None), (None, 100), (3, 100), (-1e30, 1e30), (-5, 300), (6, 7), (-70000, 70000), (101, 254), (-1e300, None), (None, 1e300), (0, None), (None, 0), (0, 100), (-5, 0)]
PHOTO = [(None, None), (10, None), (None, 90), (10, 90), (0, None), (None, 0), (-1, 0)]

def f32(v):
    try: return struct.unpack('>f', struct.pack('>f', v))[0]
    except OverflowError: return math.copysign(math.inf, v)

def stored(t, v, lo, hi):
    """Stored value or None (blank)."""
    bp, a, b = TYPES[t]
    if v != v or (lo is not None and v < lo) or (hi is not None and v > hi): return None
    if not (v >= a and v <= b): return None
    if bp == 64 and v >= 2.0 ** 63: return None
    return int(v) if bp > 0 else f32(v) if bp == -32 else v

def build(eng, which):
    sp = Spheroid(True, 1000, 900)
    GEO = dict(sublat=10, sublon=170, range='5000', scale=('KM_PER_PIXEL: 120',))
    look = photo_lookup(Camera(sp, 10, 170, 5000, 0, 120, 10, 8, PS / 2, PL / 2), None, (PS, PL), (0, 0, 0, 0), simple_c_pixels(sp, S, L))
    def pix(n): return [float(LADDER[(k * 5 + k // PS + n * 11) % len(LADDER)]) for k in range(PS * PL)]
    sets = [((u,), (p,)) for u in LIMITS for p in PHOTO]
    pairs = [((u, v), (p, q)) for u in LIMITS for v in LIMITS for p in PHOTO[:4:3] for q in PHOTO[:4:3] if eng.thorough or (LIMITS.index(u) + LIMITS.index(v)) % 3 == 0 and p == q]
    for t, (us, ps) in itertools.product(TYPES, sets + pairs):
        for blank in (None, '9') if TYPES[t][0] > 0 else (None,):
            if blank and len(us) > 1 and not eng.thorough: continue
            eff = [(u[0] if u[0] is not None else p[0], u[1] if u[1] is not None else p[1]) for u, p in zip(us, ps)]
            if any(a is not None and b is not None and a > b for a, b in eff): continue
            # limits of which nothing is left within the type
            if any((a is not None and a > TYPES[t][2]) or (b is not None and b < TYPES[t][1]) for a, b in eff): continue
            label = '%s, limits %s, recorded in the photos %s, blank %s' % (t, us, ps, blank)
            def fn(c, t=t, us=us, ps=ps, eff=eff, blank=blank, label=label):
                planes = []
                for n, (u, p) in enumerate(zip(us, ps)):
                    c.write('p%d.fits' % n, make_fits(-64, (PS, PL), pix(n), [(k, float(v)) for k, v in zip(('DATAMIN', 'DATAMAX'), p) if v is not None]))
                    planes.append(''.join('%s: %s\n' % (k, v) for k, v in zip(('DATA_MIN', 'DATA_MAX'), u) if v is not None) + photo('p%d.fits' % n, **GEO))
                c.write('in', entry(dtype=t, blank=blank, samples=S, lines=L, planes=planes))
                r = c.marc('in')
                c.state(label); c.steps(len(us))
                if not c.check(r.rc == 0 and not r.crashed, 'failed', lambda: '%s: %r' % (label, r)): return
                h = c.fits('m.fits')[0]
                if not c.check(len(h.pix) == S * L * len(us) and h.h['BITPIX'] == TYPES[t][0], 'map', lambda: '%s: %d pixels, BITPIX %s' % (label, len(h.pix), h.h['BITPIX'])): return
                fill = int(blank or 0) if TYPES[t][0] > 0 else math.nan
                data, sure = [], True
                for n, (lo, hi) in enumerate(eff):
                    px = pix(n)
                    for q, w in enumerate(look):
                        if w == '?': sure = False; continue
                        e = None if w is None else stored(t, px[w], lo, hi)
                        if e is not None: data.append(e)
                        if which == 'extrema': continue
                        v = h.pix[n * S * L + q]
                        if which == 'range' and (w is None or px[w] != px[w]): continue
                        f = fill if e is None else e
                        if not c.check((v != v and f != f) or v == f, 'pixel', lambda: '%s: plane %d pixel (%d,%d) is %r, expected %r for datum %r' % (label, n + 1, q % S, q // S, v, f, None if w is None else px[w])): return
                if which == 'extrema':
                    if not sure:      # too close to call: take the stored values, none of which is blank by accident
                        data += [h.pix[n * S * L + q] for n in range(len(us)) for q, w in enumerate(look) if w == '?' and not (h.pix[n * S * L + q] != h.pix[n * S * L + q] or h.pix[n * S * L + q] == fill)]
                    for k, f in (('DATAMIN', min), ('DATAMAX', max)):
                        if not data: c.check(k not in h.h, 'extrema', lambda: '%s: %s without data' % (label, k))
                        else: c.check(k in h.h and math.isclose(h.h[k], f(data), rel_tol=TOL[t], abs_tol=0), 'extrema', lambda: '%s: %s is %r, expected %r' % (label, k, h.h.get(k), f(data)))
            eng.case(label, fn)

def scaled(eng):
    """Extrema are physical values where the user gives a scale or zero, which leave the stored values alone."""
    sp = Spheroid(True, 1000, 900)
    GEO = dict(sublat=10, sublon=170, range='5000', scale=('KM_PER_PIXEL: 120',))
    look = photo_lookup(Camera(sp, 10, 170, 5000, 0, 120, 10, 8, PS / 2, PL / 2), None, (PS, PL), (0, 0, 0, 0), simple_c_pixels(sp, S, L))
    inside = [w for w in look if w not in (None, '?')]
    SC, ZE = (None, 1, -1, 0.1, -2.5, 3e-9, 123456789.0125), (None, 0, -0.1, 12.5, -1e10, 7e-12)
    for t, sc, ze, lo in itertools.product(TYPES, SC, ZE, ((None, None), (50, 50.5), (-7.5, 0))):
        if TYPES[t][0] > 0: lo = tuple(x if x is None else math.floor(x) if x < 0 else math.ceil(x) for x in lo)
        if t == 'BYTE' and lo[0] is not None and lo[0] < 0: continue
        label = '%s, scale %s, zero %s, limits %s' % (t, sc, ze, lo)
        def fn(c, t=t, sc=sc, ze=ze, lo=lo, label=label):
            px = [float(LADDER[(k * 5 + k // PS) % len(LADDER)]) for k in range(PS * PL)]
            c.write('p.fits', make_fits(-64, (PS, PL), px))
            u = ''.join('%s: %s\n' % (k, v) for k, v in zip(('DATA_MIN', 'DATA_MAX'), lo) if v is not None)
            c.write('in', entry(dtype=t, scale=sc, offset=ze, samples=S, lines=L, planes=[u + photo('p.fits', **GEO)]))
            r = c.marc('in')
            c.state(label); c.steps(1)
            if not c.check(r.rc == 0 and not r.crashed, 'failed', lambda: '%s: %r' % (label, r)): return
            h = c.fits('m.fits')[0]
            data = [e for e in (stored(t, px[w], *lo) for w in inside) if e is not None]
            data += [h.pix[q] for q, w in enumerate(look) if w == '?' and h.pix[q] == h.pix[q] and h.pix[q] != 0]
            if sc is None and ze is None: tol, ph = TOL[t], data
            else:
                tol = 1e-13
                ph = [v * (1 if sc is None else sc) + (0 if ze is None else ze) for v in data]
            for k, f in (('DATAMIN', min), ('DATAMAX', max)):
                if not data: c.check(k not in h.h, 'extrema', lambda: '%s: %s without data' % (label, k))
                else: c.check(k in h.h and math.isclose(h.h[k], f(ph), rel_tol=tol, abs_tol=max(map(abs, ph)) * 1e-300), 'extrema', lambda: '%s: %s is %r, expected %r' % (label, k, h.h.get(k), f(ph)))
        eng.case(label, fn)
