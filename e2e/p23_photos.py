"""P23: what the map takes from a source photo, over all combinations of file format and preparation options."""
import gzip, itertools, math, struct
from e2e.lib import make_fits, _card
from e2e.inputs import *

PS, PL = 20, 16
N = PS * PL
S, L = 24, 16
SP = Spheroid(True, 1000.0, 900.0)
GEO = {'near': dict(sublat=10, sublon=170, rng=5000, pa=0, kmp=120, cs=10, cl=8), 'far': dict(sublat=-35, sublon=300, rng=90000, pa=50, kmp=110, cs=11.3, cl=7.2)}
LL = simple_c_pixels(SP, S, L)
LOOK = {g: photo_lookup(Camera(SP, k['sublat'], k['sublon'], k['rng'], k['pa'], k['kmp'], k['cs'] - 0.0, k['cl'] - 0.0, PS / 2, PL / 2), None, (PS, PL), (0, 0, 0, 0), LL) for g, k in GEO.items()}

def text(g, **k):
    q = GEO[g]
    return photo(center=(('SAMPLE_CENTER', q['cs']), ('LINE_CENTER', q['cl'])), sublat=q['sublat'], sublon=q['sublon'], range=str(q['rng']), pa=q['pa'], sslon=q['sublon'], scale=('KM_PER_PIXEL: %s' % q['kmp'],), **k)

RAW = {8: [(i * 7 + i // PS * 13) % 250 + 2 for i in range(N)], 16: [(i * 977) % 60000 - 30000 for i in range(N)], 32: [(i * 7919) % 4000000 - 2000000 for i in range(N)],
       64: [(i * 7919) * 1000003 - 10**9 for i in range(N)], -32: [float(i * 3 - 400) / 8 for i in range(N)], -64: [(i - 100) * 1.1 for i in range(N)]}
FLATS = {8: [(i * 3) % 11 for i in range(N)], 16: [(i * 5) % 31 - 9 for i in range(N)], -32: [(i % 9) / 4 for i in range(N)], -64: [(i % 7) * 0.3 for i in range(N)]}
BLANKS = {k for k in range(N) if k % 5 == 2 or (k // PS) == 7}

def phys(bp, raw, scale, blank):
    b, z = scale or (1, 0)
    return [math.nan if (blank and k in BLANKS) else v * b + z for k, v in enumerate(raw)]

def build(bp, scale, blank, raw=None, axes=(PS, PL), form='plain', extra=()):
    raw = list(raw or RAW[bp])
    ex = list(extra)
    if scale: ex += [('BSCALE', float(scale[0])), ('BZERO', float(scale[1]))]
    if blank:
        if bp > 0:
            bv = {8: 1, 16: -32768, 32: -7777777, 64: -5}[bp]
            ex.append(('BLANK', bv))
        else: bv = math.nan
        for k in BLANKS: raw[k] = bv
    if form == 'cube': return make_fits(bp, tuple(axes) + (2,), raw + [(v if v == v else 0) // 2 if bp > 0 else v / 2 for v in raw], ex)
    if form == 'cube1': return make_fits(bp, tuple(axes) + (1,), raw, ex)
    if form == '4d': return make_fits(bp, tuple(axes) + (1, 2), raw + raw[::-1], ex)
    if form == 'extension': return make_fits(8, (), [], [('EXTEND', True)]) + make_fits(bp, axes, raw, ex, simple=False)
    if form == 'followed': return make_fits(bp, axes, raw, ex) + make_fits(8, (3, 3), [9] * 9, (), simple=False)
    f = make_fits(bp, axes, raw, ex)
    return gzip.compress(f, mtime=0) if form == 'gz' else f

def flip(v, inv, S_=PS, L_=PL):
    r = [v[k * S_:(k + 1) * S_] for k in range(L_)]
    if inv in ('HORIZONTAL', 'BOTH'): r = [x[::-1] for x in r]
    if inv in ('VERTICAL', 'BOTH'): r = r[::-1]
    return [x for y in r for x in y]

def expect(c, m, want, who, look, fill=None):
    h = m[0]
    if not c.check(h.axes == [S, L] and h.h['BITPIX'] == -64, 'map', '%s: map axes %s' % (who, h.axes)): return
    n = 0
    for q, w in enumerate(look):
        if w == '?': continue
        e = math.nan if w is None else want[w]
        v = h.pix[q]
        if not c.check((v != v) == (e != e) and (v != v or math.isclose(v, e, rel_tol=1e-12, abs_tol=min(1e-12, abs(e) * 1e-9))), 'pixel', lambda: '%s: map pixel (%d,%d) is %s, expected %s (photo pixel %s)' % (who, q % S, q // S, v, e, None if w is None else (w % PS, w // PS))): return
        n += e == e
    if not n: raise RuntimeError('no data compared: ' + who)

SCALES = {8: [None, (2, 5), (0.5, -3), (1, -128)], 16: [None, (0.25, 7), (1, 32768)], 32: [None, (0.001, -2), (1, 2147483648)], 64: [None, (-0.5, 3)], -32: [None, (2, 1)], -64: [None, (-0.5, 0.25)]}

def explore(eng):
    def ok(label, files, want, ptext, look, dtype='DOUBLE', **k):
        def fn(c):
            for n, b in files.items(): c.write(n, b)
            c.write('in', entry('m.fits', dtype=dtype, samples=S, lines=L, planes=[ptext], **k))
            r = c.marc('in')
            if not c.check(r.rc == 0 and not r.crashed, 'refused', lambda: '%s: %r' % (label, r)): return
            expect(c, c.fits('m.fits'), want, label, look)
            for n, b in files.items():
                if not c.check(c.read(n) == b, 'source-modified', n): return
            c.state(label); c.steps(1)
        eng.case(label, fn)
    def bad(label, files, ptext, strict=True):
        def fn(c):
            for n, b in files.items(): c.write(n, b)
            c.write('in', entry('m.fits', dtype='DOUBLE', samples=S, lines=L, planes=[ptext]))
            r = c.marc('in')
            c.check(not r.crashed, 'crash', lambda: '%s: %r' % (label, r))
            c.check(r.rc != 0, 'accepted', lambda: '%s: used although it should be refused' % label)
            c.state(label); c.steps(1)
        eng.case(label, fn)

    geos = list(GEO) if eng.thorough else ['near']
    for g in geos:
        for bp in RAW:
            for sc in SCALES[bp]:
                for blank in (False, True):
                    ph = phys(bp, RAW[bp], sc, blank)
                    for form in ('plain', 'gz', 'extension', 'followed', 'cube', 'cube1', '4d'):
                        name = 'p.fits.gz' if form == 'gz' else 'p.fits'
                        f = build(bp, sc, blank, form=form)
                        for fl in (None, 8, 16, -32, 'blank'):
                            if not eng.thorough and fl in (8, -32) and form not in ('plain', 'gz'): continue
                            files = {name: f}
                            want0 = ph
                            if fl is not None:
                                fb = 16 if fl == 'blank' else fl
                                fsc = (0.5, 1) if fl == 16 else None
                                files['f.fits'] = build(fb, fsc, fl == 'blank', FLATS[fb])
                                fp = phys(fb, FLATS[fb], fsc, fl == 'blank')
                                want0 = [a - b for a, b in zip(ph, fp)]
                            for inv in (None, 'HORIZONTAL', 'VERTICAL', 'BOTH'):
                                if not eng.thorough and inv and form not in ('plain', 'cube') : continue
                                ok('%s BITPIX=%d scale=%s blank=%d %s flat=%s invert=%s' % (g, bp, sc, blank, form, fl, inv), files, flip(want0, inv), text(g, file=name, flat='f.fits' if fl is not None else None, invert=inv), LOOK[g])
    for g in GEO:
        # the same photo and flat field compressed; image sizes other than the default
        ok('%s gz flat' % g, {'p.fits': build(16, None, False), 'f.fits.gz': build(16, None, False, FLATS[16], form='gz')}, [a - b for a, b in zip(RAW[16], FLATS[16])], text(g, flat='f.fits.gz'), LOOK[g])
        ok('%s flat in extension' % g, {'p.fits': build(16, None, False), 'f.fits': build(16, None, False, FLATS[16], form='extension')}, [a - b for a, b in zip(RAW[16], FLATS[16])], text(g, flat='f.fits'), LOOK[g])
    for ps in range(2, 12 if eng.thorough else 7):
        for pl in range(2, 12 if eng.thorough else 7):
            k = dict(sublat=20, sublon=100, rng=40000.0, pa=0, kmp=2000.0 / max(2, min(ps, pl) - 1), cs=ps / 2 + 0.2, cl=pl / 2 - 0.3)
            look = photo_lookup(Camera(SP, k['sublat'], k['sublon'], k['rng'], 0, k['kmp'], k['cs'], k['cl'], ps / 2, pl / 2), None, (ps, pl), (0, 0, 0, 0), LL)
            raw = [(i * 37) % 101 for i in range(ps * pl)]
            for inv in (None, 'HORIZONTAL', 'VERTICAL', 'BOTH'):
                for fl in (0, 1):
                    f2 = [(i * 11) % 13 for i in range(ps * pl)]
                    want = flip([a - b * fl for a, b in zip(raw, f2)], inv, ps, pl)
                    ok('shape %dx%d invert=%s flat=%d' % (ps, pl, inv, fl), {'p.fits': make_fits(16, (ps, pl), raw), 'f.fits': make_fits(16, (ps, pl), f2)}, want,
                       photo(center=(('SAMPLE_CENTER', k['cs']), ('LINE_CENTER', k['cl'])), sublat=20, sublon=100, range='40000', sslon=100, scale=('KM_PER_PIXEL: %r' % k['kmp'],), flat='f.fits' if fl else None, invert=inv), look)

    # pixel values of any size
    big = {-64: [0.0, 1.0, -1.0, 1e300, -1e300, 1e-300, 1e100, -1e-100, 3.5e38, -3.5e38, 123456789.125, math.pi, 1 + 2.0**-50, 2.0**53 + 2, 1e19, 0.1, math.inf, -math.inf, 65536.0, -32768.5],
           -32: [0.0, 2.0**127, -2.0**127, 2.0**-120, -2.0**-120, 16777216.0, -0.5, 1 + 2.0**-23, 255.0, 256.5, 2.0**64, math.inf, -math.inf],
           64: [0, 1, -1, 2**53, -2**53, 2**62, -2**62, 2**52 + 1, 10**15 + 7, -(10**15) - 7, 2**31, 2**32, -2**31 - 1],
           32: [0, 1, -1, 2**31 - 1, -2**31, 65535, 65536, -65537, 2**24 + 1, -2**24 - 1], 16: [0, 1, -1, 32767, -32768, 255, 256, -256], 8: [0, 1, 127, 128, 254, 255]}
    for bp, vals in big.items():
        for shift, inv, fl in itertools.product(range(3), (None, 'BOTH'), (0, 1)):
            raw = [vals[(i * 7 + i // PS + shift) % len(vals)] for i in range(N)]
            want = [float(v) - (FLATS[16][i] if fl else 0) for i, v in enumerate(raw)]
            want = [math.nan if math.isinf(v) else v for v in want]         # beyond what a map of doubles holds
            ok('values of BITPIX=%d from %d invert=%s flat=%d' % (bp, shift, inv, fl), {'p.fits': make_fits(bp, (PS, PL), raw), 'f.fits': build(16, None, False, FLATS[16])}, flip(want, inv), text('near', flat='f.fits' if fl else None, invert=inv), LOOK['near'])

    # beyond 8 and 16 bit counters
    for ps, pl in ((300, 260), (260, 300), (600, 2)):
        kmp = 2200.0 / max(ps, pl)
        look = photo_lookup(Camera(SP, 20, 100, 40000.0, 0, kmp, ps / 2, pl / 2, ps / 2, pl / 2), None, (ps, pl), (0, 0, 0, 0), LL)
        for bp, form in ((8, 'plain'), (16, 'plain'), (-64, 'plain'), (32, 'gz'), (-32, 'cube')):
            raw = [float(i) if bp < 0 else i * 37 % 251 for i in range(ps * pl)]
            for inv, fl in ((None, 0), ('BOTH', 0), ('HORIZONTAL', 1), ('VERTICAL', 1)):
                f2 = [(i * 11) % 13 for i in range(ps * pl)]
                name = 'p.fits.gz' if form == 'gz' else 'p.fits'
                if pl == 2 and (inv or fl or form != 'plain'): continue
                ok('large %dx%d BITPIX=%d %s invert=%s flat=%d' % (ps, pl, bp, form, inv, fl), {name: build(bp, None, False, raw, (ps, pl), form), 'f.fits': make_fits(16, (ps, pl), f2)}, flip([a - b * fl for a, b in zip(raw, f2)], inv, ps, pl),
                   photo(name, center=(('SAMPLE_CENTER', ps / 2), ('LINE_CENTER', pl / 2)), sublat=20, sublon=100, range='40000', sslon=100, scale=('KM_PER_PIXEL: %r' % kmp,), flat='f.fits' if fl else None, invert=inv), look)

    # more pixels than any block
    for (ps, pl), bp, form in itertools.product(((1300, 1000), (1000, 1300)), (16, -32, 8), ('plain', 'gz')):
        if form == 'gz' and bp != 16: continue
        kmp = 2200.0 / max(ps, pl)
        look = photo_lookup(Camera(SP, 20, 100, 40000.0, 0, kmp, ps / 2, pl / 2, ps / 2, pl / 2), None, (ps, pl), (0, 0, 0, 0), LL)
        raw = [float(i) if bp < 0 else i * 37 % 251 for i in range(ps * pl)]
        f2 = [(i * 11) % 13 for i in range(ps * pl)]
        for inv, fl in ((None, 0), ('BOTH', 1)):
            if form == 'gz' and fl: continue
            name = 'p.fits.gz' if form == 'gz' else 'p.fits'
            ok('huge %dx%d BITPIX=%d %s invert=%s flat=%d' % (ps, pl, bp, form, inv, fl), {name: build(bp, None, False, raw, (ps, pl), form), 'f.fits': make_fits(8, (ps, pl), f2)}, flip([a - b * fl for a, b in zip(raw, f2)], inv, ps, pl),
               photo(name, center=(('SAMPLE_CENTER', ps / 2), ('LINE_CENTER', pl / 2)), sublat=20, sublon=100, range='40000', sslon=100, scale=('KM_PER_PIXEL: %r' % kmp,), flat='f.fits' if fl else None, invert=inv), look)

    # several photos in one map, all ordered pairs and (thorough) triples
    raws = {'p.fits': RAW[16], 'q.fits': [(v * 3) % 5003 - 7 for v in RAW[16]], 's.fits': RAW[16]}
    flats = {'f.fits': FLATS[16], 'g.fits': [2 * v + 40 for v in FLATS[16]], 'b.fits': phys(16, FLATS[16], None, True)}
    fdata = {n: make_fits(16, (PS, PL), v) for n, v in raws.items()}
    fdata['s.fits'] = build(16, None, True, RAW[16]); raws['s.fits'] = phys(16, RAW[16], None, True)
    fdata.update({'f.fits': make_fits(16, (PS, PL), FLATS[16]), 'g.fits': make_fits(16, (PS, PL), flats['g.fits']), 'b.fits': build(16, None, True, FLATS[16])})
    var = [(p, f, i) for p in raws for f in [None] + list(flats) for i in (None, 'HORIZONTAL', 'BOTH') if i is None or p == 'p.fits']
    def prepared(p, f, i): return flip([a - b for a, b in zip(raws[p], flats[f] if f else [0] * N)], i)
    for combo in list(itertools.permutations(var, 2)) + (list(itertools.permutations(var[:8], 3)) if eng.thorough else []):
        def fn(c, combo=combo):
            who = 'photos %s' % (combo,)
            for n, b in fdata.items(): c.write(n, b)
            c.write('in', entry('m.fits', dtype='DOUBLE', samples=S, lines=L, planes=[text('near', file=p, flat=f, invert=i) for p, f, i in combo]))
            r = c.marc('in')
            if not c.check(r.rc == 0 and not r.crashed, 'refused', lambda: '%s: %r' % (who, r)): return
            h = c.fits('m.fits')[0]
            for n, v in enumerate(combo):
                want = prepared(*v)
                for q, w in enumerate(LOOK['near']):
                    if w == '?': continue
                    e, g = math.nan if w is None else want[w], h.pix[n * S * L + q]
                    if not c.check((g != g) == (e != e) and (g != g or g == e), 'pixel', lambda: '%s: plane %d pixel (%d,%d) is %s, expected %s' % (who, n + 1, q % S, q // S, g, e)): return
            c.state(combo); c.steps(len(combo))
        eng.case('photos %s' % (combo,), fn)

    # refused
    good, goodf = build(16, None, False), build(16, None, False, FLATS[16])
    T = text('near'); TF = text('near', flat='f.fits')
    def both(label, data):
        bad('photo ' + label, {} if data is None else {'p.fits': data}, T)
        bad('flat ' + label, dict({'p.fits': good}, **({} if data is None else {'f.fits': data})), TF)
    both('missing', None); both('empty', b''); both('text', b'hello\n' * 1000)
    for n in (1, 79, 80, 2879, 2880, 2881, 2880 + N, 2880 + 2 * N - 1): both('cut to %d bytes' % n, good[:n])
    both('without dimensions', make_fits(16, (), []))
    both('one dimension', make_fits(16, (N,), RAW[16]))
    both('1 sample', make_fits(16, (1, 9), [3] * 9)); both('1 line', make_fits(16, (9, 1), [3] * 9))
    both('no samples', make_fits(16, (0, 9), [])); both('no lines', make_fits(16, (9, 0), []))
    z = gzip.compress(good, mtime=0)
    def table():
        hd = [_card('XTENSION', 'TABLE   '), _card('BITPIX', 8), _card('NAXIS', 2), _card('NAXIS1', 4), _card('NAXIS2', 2), _card('PCOUNT', 0), _card('GCOUNT', 1), _card('TFIELDS', 1), _card('TBCOL1', 1), _card('TFORM1', 'I4'), 'END'.ljust(80)]
        h = ''.join(hd).encode(); h += b' ' * (-len(h) % 2880)
        return make_fits(8, (), [], [('EXTEND', True)]) + h + b'   1   2'.ljust(2880)
    both('table', table())
    for ds in (-2, -1, 0, 1, 2):
        for dl in (-2, -1, 0, 1, 2):
            if ds or dl: bad('flat of %dx%d' % (PS + ds, PL + dl), {'p.fits': good, 'f.fits': make_fits(16, (PS + ds, PL + dl), [1] * ((PS + ds) * (PL + dl)))}, TF)
    for a in ((PL, PS), (PS * 2, PL // 2), (PS // 2, PL * 2), (N // 2, 2), (2, N // 2)): bad('flat of %dx%d' % a, {'p.fits': good, 'f.fits': make_fits(16, a, FLATS[16])}, TF)
