"""P18: independence of maps and planes from earlier entries, over all sequences up to a length."""
import itertools, math
from e2e.lib import make_fits
from e2e.inputs import *

PS, PL = 20, 16
VAL = [(i * 7 + k * 13) % 100 + 1 for k in range(PL) for i in range(PS)]
FLAT = [(i + k) % 5 for k in range(PL) for i in range(PS)]
G = dict(sublat=10, sublon=170, sslon=120, range='5000', scale=('KM_PER_PIXEL: 120',))

def P(**k): return photo(**dict(G, **k))

PLANES = {
    'plain': P(), 'nibble': P(nibble=['NIBBLE: 3']), 'nibble-left': P(nibble=['NIBBLE_LEFT: 8']), 'nibble-tb': P(nibble=['NIBBLE_TOP: 5', 'NIBBLE_BOTTOM: 2']),
    'invert': P(invert='BOTH'), 'interpolate': P(interpolate='YES'), 'sky': P(remove_sky='YES'),
    'latlon': P(center=(('LAT_AT_CENTER', 5), ('LON_AT_CENTER', 160))), 'center': P(center=(('SAMPLE_CENTER', 7), ('LINE_CENTER', 6))), 'oa': P(oa=(3, 4)),
    'flat': P(flat='f.fits'), 'geom': P(geom='YES'), 'emi': P(emi=40), 'term': P(term='YES'),
    'pa': P(pa='30 CW'), 'arcsec': P(scale=('ARCSEC_PER_PIX: 6000',)), 'lens': P(scale=('FOCAL_LENGTH: 2', 'PIXEL_SCALE: 20')),
    'min': 'DATA_MIN: 30\n' + P(), 'max': 'DATA_MAX: 70\n' + P(), 'minmax': 'DATA_MAX: 80\nDATA_MIN: 20\n' + P(),
    'mosaic': P() + '\n' + P(file='q.fits', sublon=100, nibble=['NIBBLE: 2']), 'lat': 'LATITUDE:', 'lat-g': 'LATITUDE: GRAPHIC', 'lat-c': 'LATITUDE: LATITUDE_TYPE: CENTRIC', 'lon': 'LONGITUDE',
    'mu': 'MU: SUB_OBSERV_LAT: 5\nSUB_OBSERV_LON: 30\nRANGE: 4000', 'mu0': 'MU0: SUB_SOLAR_LAT: -5\nSUB_SOLAR_LON: 70',
    'phase': 'PHASE: SUB_OBSERV_LAT: 5\nSUB_OBSERV_LON: 30\nRANGE: 4000\nSUB_SOLAR_LAT: 1\nSUB_SOLAR_LON: 3',
}
LL = 'LATITUDE:', 'LONGITUDE'
MAPS = {
    'plain': dict(planes=LL, dtype='DOUBLE'), 'graphic': dict(planes=LL, dtype='DOUBLE', options=['LATITUDE_TYPE: GRAPHIC']), 'bare-graphic': dict(planes=LL, dtype='DOUBLE', options=['GRAPHIC']),
    'lats': dict(planes=LL, dtype='DOUBLE', options=['LO_LAT: -20', 'HI_LAT: 70 G']), 'lons': dict(planes=LL, dtype='DOUBLE', options=['HI_LON: 200', 'LO_LON: 300 W']),
    'mercator': dict(planes=LL, dtype='DOUBLE', proj='MERCATOR'), 'ortho': dict(planes=LL, dtype='DOUBLE', proj='ORTHO'),
    'ortho-sub': dict(planes=LL, dtype='DOUBLE', proj='ORTHO', options=['SUB_OBSERV_LAT: 40', 'SUB_OBSERV_LON: 100']),
    'ortho-pa': dict(planes=LL, dtype='DOUBLE', proj='ORTHO', options=['POSITION_ANGLE: 30']), 'ortho-km': dict(planes=LL, dtype='DOUBLE', proj='ORTHO', options=['KM_PER_PIXEL: 300']),
    'ortho-ctr': dict(planes=LL, dtype='DOUBLE', proj='ORTHO', options=['SAMPLE_CENTER: 2', 'LINE_CENTER: 3']),
    'ortho-ll': dict(planes=LL, dtype='DOUBLE', proj='ORTHO', options=['SUB_OBSERV_LAT: 20', 'SUB_OBSERV_LON: 50', 'POSITION_ANGLE: 10 CW', 'KM_PER_PIXEL: 400', 'LAT_AT_CENTER: 10', 'LON_AT_CENTER: 40']),
    'stereo': dict(planes=LL, dtype='DOUBLE', proj='P_STEREO'), 'stereo-s': dict(planes=LL, dtype='DOUBLE', proj='P_STEREO', options=['POLE: S', 'MAX_LAT: -30']), 'stereo-n': dict(planes=LL, dtype='DOUBLE', proj='P_STEREO', options=['POLE: N']),
    'avg-none': dict(planes=[PLANES['mosaic']], options=['AVERAGING: NONE'], dtype='DOUBLE'), 'avg-un': dict(planes=[PLANES['mosaic']], options=['AVERAGING: UNWEIGHTED'], dtype='FLOAT'), 'avg-default': dict(planes=[PLANES['mosaic']], dtype='DOUBLE'),
    'avg-merc': dict(planes=[PLANES['mosaic']], proj='MERCATOR', options=['AVERAGING: NONE']),
    'short-blank': dict(planes=[P()], dtype='SHORT', blank=-99), 'short': dict(planes=[P()], dtype='SHORT'), 'notype': dict(planes=[P()]), 'byte-blank': dict(planes=[P(sublon=20)], dtype='BYTE', blank=7),
    'grid': dict(planes=['LATITUDE:'], dtype='FLOAT', grid=['GRID: YES']), 'grid5': dict(planes=['LATITUDE:'], dtype='FLOAT', grid=['GRID: YES', 'GRID_INTERVAL: 45'], xcomments=['xc']), 'grid-lat': dict(planes=['LATITUDE:'], dtype='FLOAT', grid=['GRID: YES', 'LAT_GRID_INTERVAL: 30']), 'grid-no': dict(planes=['LATITUDE:'], dtype='FLOAT', grid=['GRID: NO', 'GRID_INTERVAL: 60']),
    'texts': dict(author='AU', origin='OR', comments=['c1', 'c2'], planes=[P()]), 'scaled': dict(offset=5, scale='0.5', planes=[P()]), 'offset': dict(offset=-5, planes=[P()]),
    'planes2': dict(nplanes=2, planes=[P(), P(nibble=['NIBBLE: 3'])]), 'min': dict(planes=[PLANES['min']]), 'max': dict(planes=[PLANES['max']]), 'retro': dict(rotation='RETROGRADE', planes=[P(), 'LONGITUDE'], dtype='DOUBLE'),
    'flattening': dict(radii=(('FLATTENING', 0.3), ('EQ_RAD', 500)), planes=['LATITUDE: GRAPHIC'], dtype='FLOAT', samples=5, lines=9), 'lat-g': dict(planes=['LATITUDE: GRAPHIC'], dtype='LONG'), 'mu-byte': dict(planes=[PLANES['mu']], dtype='SHORT'),
    'sky': dict(planes=[PLANES['sky'], PLANES['geom']]), 'emi': dict(planes=[PLANES['emi'], PLANES['term']]), 'inv': dict(planes=[PLANES['invert'], PLANES['flat']]),
}
# fewer for sequences of three
CORE = ['plain', 'graphic', 'lats', 'lons', 'ortho', 'ortho-ll', 'ortho-ctr', 'stereo', 'stereo-s', 'avg-none', 'avg-default', 'short-blank', 'short', 'grid5', 'grid', 'texts', 'scaled', 'min', 'lat-g', 'retro', 'sky', 'planes2']

def canon(hdus):
    out = []
    for h in hdus:
        cards = tuple((k, v, t) for k, v, t in h.cards if k not in ('DATE', 'CHECKSUM', 'DATASUM'))
        out.append((cards, tuple(h.axes), tuple('nan' if v != v else v for v in h.pix)))
    return out

def files(c):
    c.write('p.fits', make_fits(16, (PS, PL), VAL))
    c.write('q.fits', make_fits(16, (PS, PL), [v + 100 for v in VAL]))
    c.write('f.fits', make_fits(16, (PS, PL), FLAT))
    c.write('g.fits', make_fits(16, (PS, PL), [2 * v + 1 for v in FLAT]))
    c.write('r.fits', make_fits(16, (PS + 4, PL - 2), [(k * 3) % 97 + 1 for k in range((PS + 4) * (PL - 2))]))

def text(name, file): return entry(file, **dict(dict(samples=12, lines=8), **MAPS[name]))

def explore(eng):
    import threading
    alone, lock = {}, threading.Lock()
    def solo(c, key, txt):
        with lock:
            if key in alone: return alone[key]
        c.write('solo.in', txt.replace('@', 'solo.fits'))
        r = c.marc('solo.in')
        if r.rc != 0: raise ValueError('entry %s alone: %r' % (key, r))
        v = canon(c.fits('solo.fits'))
        with lock: alone[key] = v
        return v
    neighbours(eng, solo)
    seqs = list(itertools.product(MAPS, repeat=2))
    seqs += itertools.product(CORE if eng.thorough else CORE[:7], repeat=3)
    # as one input file, or one file per map
    for s in seqs:
        for split in ((0, 1) if len(s) == 2 else (0,)):
            def fn(c, s=s, split=split):
                files(c)
                parts = [text(n, 'm%d.fits' % i) for i, n in enumerate(s)]
                if split:
                    for i, p in enumerate(parts): c.write('in%d' % i, p)
                    r = c.marc(*['in%d' % i for i in range(len(s))])
                else:
                    c.write('in', ''.join(parts))
                    r = c.marc('in')
                if not c.check(r.rc == 0 and not r.crashed, 'exit', repr(r)): return
                for i, n in enumerate(s):
                    a, b = canon(c.fits('m%d.fits' % i)), solo(c, ('map', n), text(n, '@'))
                    if not c.check(a == b, 'map-differs', lambda: 'map %d (%s) after %s differs from the map made alone: %s' % (i + 1, n, s[:i], diff(a, b))): return
                c.state(s, split)
                c.steps(len(s))
            eng.case('maps %s%s' % (' > '.join(s), ' (separate files)' if split else ''), fn)
    ps = list(itertools.product(PLANES, repeat=2))
    if eng.thorough: ps += itertools.product(['plain', 'nibble', 'min', 'max', 'lat-g', 'lat', 'mosaic', 'latlon', 'oa', 'arcsec', 'lens', 'sky', 'invert', 'emi'], repeat=3)
    for s in ps:
        def fn(c, s=s):
            files(c)
            mk = lambda f, pl: entry(f, samples=12, lines=8, dtype='DOUBLE', planes=pl)
            c.write('in', mk('m.fits', [PLANES[n] for n in s]))
            r = c.marc('in')
            if not c.check(r.rc == 0 and not r.crashed, 'exit', repr(r)): return
            pix = canon(c.fits('m.fits'))[0][2]
            for i, n in enumerate(s):
                want = solo(c, ('plane', n), mk('@', [PLANES[n]]))[0][2]
                if not c.check(pix[i * 96:(i + 1) * 96] == want, 'plane-differs', lambda: 'plane %d (%s) after %s differs from the plane made alone' % (i + 1, n, s[:i])): return
            c.state(s)
            c.steps(len(s))
        eng.case('planes ' + ' > '.join(s), fn)
    # long sequences: every stride through the kinds of map and plane
    for n, stride, split in itertools.product((4, 5, 9, 17, 33, 65, 100, 129, 257), (1, 5, 11), (0, 1)):
        if n > 129 and stride > 1: continue
        ks = list(MAPS)
        s = [ks[(q * stride + 3) % len(ks)] for q in range(n)]
        def fn(c, s=s, split=split, n=n, stride=stride):
            files(c)
            parts = [text(k, 'm%d.fits' % i) for i, k in enumerate(s)]
            if split:
                for i, p in enumerate(parts): c.write('in%d' % i, p)
                r = c.marc(*['in%d' % i for i in range(len(s))])
            else:
                c.write('in', ''.join(parts)); r = c.marc('in')
            if not c.check(r.rc == 0 and not r.crashed, 'exit', repr(r)): return
            for i, k in enumerate(s):
                a, b = canon(c.fits('m%d.fits' % i)), solo(c, ('map', k), text(k, '@'))
                if not c.check(a == b, 'map-differs', lambda: 'map %d (%s) of %d differs from the map made alone: %s' % (i + 1, k, n, diff(a, b))): return
            c.state('long', n, stride, split); c.steps(n)
        eng.case('%d maps, stride %d%s' % (n, stride, ' (separate files)' if split else ''), fn)
        if split: continue
        kp = list(PLANES)
        def fp(c, n=n, stride=stride, s=[kp[(q * stride + 3) % len(kp)] for q in range(n)]):
            files(c)
            mk = lambda f, pl: entry(f, samples=12, lines=8, dtype='DOUBLE', planes=pl)
            c.write('in', mk('m.fits', [PLANES[k] for k in s]))
            r = c.marc('in')
            if not c.check(r.rc == 0 and not r.crashed, 'exit', repr(r)): return
            pix = canon(c.fits('m.fits'))[0][2]
            for i, k in enumerate(s):
                want = solo(c, ('plane', k), mk('@', [PLANES[k]]))[0][2]
                if not c.check(pix[i * 96:(i + 1) * 96] == want, 'plane-differs', lambda: 'plane %d (%s) of %d differs from the plane made alone' % (i + 1, k, n)): return
            c.state('long planes', n, stride); c.steps(n)
        eng.case('%d planes, stride %d' % (n, stride), fp)
    # images of a mosaic: an image's options do not leak to the next image
    IM = ['plain', 'nibble', 'nibble-left', 'invert', 'interpolate', 'sky', 'latlon', 'oa', 'flat', 'geom', 'emi', 'term', 'arcsec', 'lens']
    for a, b in itertools.product(IM, repeat=2):
        def fn(c, a=a, b=b):
            files(c)
            far = P(sublat=-10, sublon=350, file='q.fits')       # opposite side: the images do not overlap
            swap = lambda t: t.replace('p.fits', 'q.fits').replace('SUB_OBSERV_LON: 170', 'SUB_OBSERV_LON: 350').replace('LON_AT_CENTER: 160', 'LON_AT_CENTER: 340').replace('SUB_OBSERV_LAT: 10', 'SUB_OBSERV_LAT: -10').replace('LAT_AT_CENTER: 5', 'LAT_AT_CENTER: -5')
            mk = lambda f, pl: entry(f, samples=12, lines=8, dtype='DOUBLE', options=['AVERAGING: NONE'], planes=[pl])
            A, B = PLANES[a], swap(PLANES[b])
            c.write('in', mk('m.fits', A + '\n' + B))
            r = c.marc('in')
            if not c.check(r.rc == 0 and not r.crashed, 'exit', repr(r)): return
            pix = canon(c.fits('m.fits'))[0][2]
            x, y = solo(c, ('ia', a), mk('@', A))[0][2], solo(c, ('ib', b), mk('@', B))[0][2]
            want = tuple(v if v != 'nan' else w for v, w in zip(x, y))
            c.check(pix == want, 'image-differs', 'mosaic of %s and %s is not made of the two images made alone' % (a, b))
            c.state('mosaic', a, b)
        eng.case('images %s > %s' % (a, b), fn)

# Entries alike in everything but one setting, so that nothing kept from the first can pass for the second's.
CTR = lambda s, l: (('SAMPLE_CENTER', s), ('LINE_CENTER', l))
LLC = lambda a, o: (('LAT_AT_CENTER', a), ('LON_AT_CENTER', o))
PHOTOS = [dict(file='q.fits'), dict(file='r.fits'), dict(sublat=30), dict(sublat=-10), dict(sublon=150), dict(pa=30), dict(pa='30 CW'), dict(range='9000'), dict(scale=('KM_PER_PIXEL: 90',)), dict(scale=('ARCSEC_PER_PIX: 6000',)), dict(scale=('ARCSEC_PER_PIX: 3000',)),
          dict(scale=('FOCAL_LENGTH: 2', 'PIXEL_SCALE: 20')), dict(scale=('FOCAL_LENGTH: 2', 'PIXEL_SCALE: 25')), dict(scale=('FOCAL_LENGTH: 3', 'PIXEL_SCALE: 20')), dict(center=CTR(7, 8)), dict(center=CTR(10, 6)),
          dict(center=LLC(5, 160)), dict(center=LLC(-5, 160)), dict(center=LLC(5, 170)), dict(oa=(3, 4)), dict(oa=(10, 4)), dict(oa=(3, 8)), dict(flat='f.fits'), dict(flat='g.fits'), dict(emi=40), dict(emi=60), dict(term='YES'), dict(term='YES', sslat=40), dict(term='YES', sslon=200),
          dict(invert='HORIZONTAL'), dict(invert='VERTICAL'), dict(nibble=['NIBBLE: 2']), dict(nibble=['NIBBLE_LEFT: 2']), dict(nibble=['NIBBLE_RIGHT: 2']), dict(nibble=['NIBBLE_TOP: 2']), dict(nibble=['NIBBLE_BOTTOM: 2']),
          dict(remove_sky='YES'), dict(remove_sky='YES', sublon=150), dict(remove_sky='YES', range='9000'), dict(remove_sky='YES', center=CTR(7, 8)), dict(remove_sky='YES', file='r.fits'), dict(interpolate='YES'), dict(interpolate='YES', file='r.fits'), dict(interpolate='YES', nibble=['NIBBLE: 2'])]
def back(kind, sl=5, so=30, r=4000, ll=-5, lo=70):
    o, n = 'SUB_OBSERV_LAT: %s\nSUB_OBSERV_LON: %s\nRANGE: %s' % (sl, so, r), 'SUB_SOLAR_LAT: %s\nSUB_SOLAR_LON: %s' % (ll, lo)
    return {'MU': 'MU: ' + o, 'MU0': 'MU0: ' + n, 'PHASE': 'PHASE: ' + o + '\n' + n}[kind]
RADII = [(1000, 900), (1000, 800), (1200, 900), (1000, 1000), (1200, 1080)]
SHAPES = [(12, 8), (8, 12), (12, 9), (13, 8), (24, 4)]
OPTS = {'SIMPLE_C': [None, ['LATITUDE_TYPE: GRAPHIC'], ['LO_LAT: -20', 'HI_LAT: 70'], ['LO_LAT: -20', 'HI_LAT: 60'], ['LO_LAT: -30', 'HI_LAT: 70'], ['LO_LON: 20', 'HI_LON: 200'], ['LO_LON: 20', 'HI_LON: 300'], ['LO_LON: 90', 'HI_LON: 200'], ['LO_LON: 300', 'HI_LON: 200']],
        'MERCATOR': [None],
        'P_STEREO': [['POLE: N'], ['POLE: S'], ['POLE: N', 'MAX_LAT: 20'], ['POLE: N', 'MAX_LAT: 40'], ['POLE: S', 'MAX_LAT: -20']],
        'ORTHO': [['SUB_OBSERV_LAT: %s' % a, 'SUB_OBSERV_LON: %s' % o] + x for a, o, x in ((20, 50, []), (40, 50, []), (-20, 50, []), (20, 80, []), (90, 50, []), (-90, 50, []), (20, 50, ['POSITION_ANGLE: 30']), (20, 50, ['POSITION_ANGLE: -30']),
                                                                                        (20, 50, ['POSITION_ANGLE: 0', 'KM_PER_PIXEL: 300']), (20, 50, ['POSITION_ANGLE: 0', 'KM_PER_PIXEL: 200']), (20, 50, ['POSITION_ANGLE: 0', 'KM_PER_PIXEL: 300', 'SAMPLE_CENTER: 2', 'LINE_CENTER: 3']),
                                                                                        (20, 50, ['POSITION_ANGLE: 0', 'KM_PER_PIXEL: 300', 'LAT_AT_CENTER: 10', 'LON_AT_CENTER: 40']), (20, 50, ['POSITION_ANGLE: 0', 'KM_PER_PIXEL: 300', 'LAT_AT_CENTER: 20', 'LON_AT_CENTER: 40']))]}
def neighbours(eng, solo):
    fams = []
    base = dict(samples=12, lines=8, dtype='DOUBLE')
    P0 = photo(**G)
    # photos and computed planes, as planes of one map and as maps of their own
    phs = [P0] + [P(**d) for d in PHOTOS]
    for k, rot in enumerate(('PROGRADE', 'RETROGRADE') if eng.thorough else ('PROGRADE',)): fams.append(('photos', [dict(base, rotation=rot, planes=[p]) for p in phs], True))
    for kind, vs in (('MU', [dict(), dict(sl=25), dict(so=60), dict(r=9000)]), ('MU0', [dict(), dict(ll=25), dict(lo=10)]), ('PHASE', [dict(), dict(sl=25), dict(so=60), dict(r=9000), dict(ll=25), dict(lo=10)])):
        fams.append((kind, [dict(base, planes=[back(kind, **v)]) for v in vs], True))
    fams.append(('latitudes', [dict(base, planes=[p]) for p in ('LATITUDE: CENTRIC', 'LATITUDE: GRAPHIC', 'LONGITUDE')], True))
    # bodies and shapes under every kind of plane; projections
    pl = [P0, 'LATITUDE: GRAPHIC', back('MU'), back('PHASE')]
    fams.append(('bodies', [dict(base, rotation=rot, radii=(('EQ_RAD', a), ('POL_RAD', c)), planes=pl) for a, c in RADII for rot in ('PROGRADE', 'RETROGRADE')], False))
    for proj, opts in OPTS.items():
        b = dict(base, proj=proj, planes=LL, grid=['GRID: YES', 'GRID_INTERVAL: 30'])
        fams.append((proj + ' bodies and shapes', [dict(b, options=opts[0], rotation=rot, radii=(('EQ_RAD', a), ('POL_RAD', c)), samples=s, lines=l) for (a, c), rot, (s, l) in itertools.product(RADII, ('PROGRADE', 'RETROGRADE'), SHAPES)
                     if ((a, c) == RADII[0]) + (rot == 'PROGRADE') + ((s, l) == SHAPES[0]) >= 2], False))
        fams.append((proj + ' options', [dict(b, options=o) for o in opts] + [dict(b, options=opts[0], grid=['GRID: YES', 'LAT_GRID_INTERVAL: %s' % u, 'LON_GRID_INTERVAL: %s' % v]) for u, v in ((20, 30), (30, 45), (20, 45))], False))
    for name, fam, asplanes in fams:
        for i, j in itertools.permutations(range(len(fam)), 2):
            for way in ((0, 1) if asplanes else (0,)):
                def fn(c, fam=fam, i=i, j=j, way=way, name=name):
                    files(c)
                    A, B = fam[i], fam[j]
                    want = [solo(c, ('near', name, fam[0].get('rotation'), n), entry('@', **fam[n])) for n in (i, j)]
                    if way: c.write('in', entry('m0.fits', **dict(A, planes=A['planes'] + B['planes'])))
                    else: c.write('in', entry('m0.fits', **A) + entry('m1.fits', **B))
                    r = c.marc('in')
                    if not c.check(r.rc == 0 and not r.crashed, 'exit', repr(r)): return
                    if way:
                        pix = canon(c.fits('m0.fits'))[0][2]
                        for q in (0, 1):
                            w = want[q][0][2]
                            if not c.check(pix[q * len(w):(q + 1) * len(w)] == w, 'plane-differs', lambda: 'plane %d of %s, %d after %d, differs from the plane made alone:\n%s' % (q + 1, name, j, i, fam[(i, j)[q]]['planes'][0])): return
                    else:
                        for q in (0, 1):
                            a = canon(c.fits('m%d.fits' % q))
                            if not c.check(a == want[q], 'map-differs', lambda: 'map %d of %s, %d after %d, differs from the map made alone: %s' % (q + 1, name, j, i, diff(a, want[q]))): return
                    c.state('near', name, i, j, way); c.steps(2)
                eng.case('%s: %d > %d%s' % (name, i, j, ' as planes' if way else ''), fn)

def diff(a, b):
    if len(a) != len(b): return '%d and %d HDUs' % (len(a), len(b))
    for x, y in zip(a, b):
        if x[0] != y[0]: return 'header %s' % (set(map(str, x[0])) ^ set(map(str, y[0])))
        if x[1] != y[1]: return 'axes'
        if x[2] != y[2]: return 'pixels, first %s' % [(i, p, q) for i, (p, q) in enumerate(zip(x[2], y[2])) if p != q][:2]
    return ''
