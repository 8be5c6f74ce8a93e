"""P13: mosaics written by the program, over all short lists of photos and ways of averaging."""
import itertools, math
from e2e.lib import make_fits
from e2e.photomodel import *

PS, PL, S, L = 20, 16, 36, 24
def pix(n): return [((i * 7 + k * 29 + n * 53) % 211) + n * 300 - 60 for k in range(PL) for i in range(PS)]
NANS = {k for k in range(PS * PL) if k % 7 == 3 or k // PS == 8}
KINDS = {'a': dict(sublon=170), 'b': dict(sublon=140, nib=(3, 0, 0, 4)), 'c': dict(sublon=185, sky=True, nan=True), 'd': dict(sublon=230, sublat=40, pa=70, interp=True), 'e': dict(sublon=150, nib=(0, 7, 5, 0), term=True), 'f': dict(sublon=185, sky=True, kmp=190)}
AVG = {'NONE': 'first', 'UNWEIGHTED': 'mean', 'WEIGHTED': 'weighted', None: 'weighted'}
SUN = (5, 150)

def text(n, k):
    d = KINDS[k]
    nb = d.get('nib', (0, 0, 0, 0))
    return photo(file='p%d.fits' % n, nibble=['NIBBLE_%s: %d' % (s, v) for s, v in zip(('LEFT', 'RIGHT', 'TOP', 'BOTTOM'), nb)], interpolate='YES' if d.get('interp') else None, remove_sky='YES' if d.get('sky') else None,
                 term='YES' if d.get('term') else None, sublat=d.get('sublat', 10), sublon=d['sublon'], pa=d.get('pa', 0), sslat=SUN[0], sslon=SUN[1], range='5000', scale=('KM_PER_PIXEL: %s' % d.get('kmp', 120),))

def explore(eng):
    sp = Spheroid(True, 1000.0, 900.0)
    LLS = simple_c_pixels(sp, S, L)
    READ = {}
    for k, d in KINDS.items():
        cam = Camera(sp, d.get('sublat', 10), d['sublon'], 5000, d.get('pa', 0), d.get('kmp', 120), 10, 8, PS / 2, PL / 2)
        for n in range(3):
            px = [math.nan if d.get('nan') and q in NANS else float(v) for q, v in enumerate(pix(n))]
            ph = Photo(cam, (PS, PL), px, d.get('nib', (0, 0, 0, 0)), 90.0, sp.dir(SUN[0] * D, SUN[1] * D) if d.get('term') else None, d.get('interp', False), d.get('sky', False))
            READ[k, n] = px, [ph.read(lat, lon) for lat, lon in LLS]
    lists = list(itertools.product(KINDS, repeat=2)) + [l for l in itertools.product(KINDS, repeat=3) if eng.thorough or l[0] <= l[2] or 'c' in l]
    LIM = [(None, None), (40, None), (None, 500), (-20, 400)]
    for ks, avg, lim in itertools.product(lists, AVG, LIM):
        if lim != LIM[0] and not eng.thorough and (len(ks) > 2 or ks[0] == ks[1]): continue
        label = 'photos %s, averaging %s, limits %s' % (''.join(ks), avg, lim)
        def fn(c, ks=ks, avg=avg, lim=lim, label=label):
            for n, k in enumerate(ks): c.write('p%d.fits' % n, make_fits(-64, (PS, PL), READ[k, n][0]))
            pre = ''.join('%s: %s\n' % (a, b) for a, b in zip(('DATA_MIN', 'DATA_MAX'), lim) if b is not None)
            c.write('in', entry('m.fits', dtype='DOUBLE', samples=S, lines=L, options=['AVERAGING: ' + avg] if avg else None, planes=[pre + '\n'.join(text(n, k) for n, k in enumerate(ks))]))
            r = c.marc('in')
            c.state(label); c.steps(len(ks))
            if not c.check(r.rc == 0 and not r.crashed, 'failed', lambda: '%s: %r' % (label, r)): return
            h = c.fits('m.fits')[0]
            m = 0
            for q in range(S * L):
                ds = [READ[k, n][1][q] for n, k in enumerate(ks)]
                if '?' in ds: continue
                ds = [d for d in ds if d is not None]
                how = AVG[avg]
                if not ds: w = math.nan
                elif how == 'first': w = ds[0][0]
                elif how == 'mean': w = sum(d[0] for d in ds) / len(ds)
                else:
                    if any(d[1] is None for d in ds): continue
                    t = sum(d[1] for d in ds)
                    if not t and len(ds) > 1: continue          # all at the edge of the photos
                    w = sum(d[0] * d[1] for d in ds) / t if t else ds[0][0]
                if w == w and any(l is not None and abs(w - l) < 1e-6 for l in lim): continue
                if w == w and ((lim[0] is not None and w < lim[0]) or (lim[1] is not None and w > lim[1])): w = math.nan
                v = h.pix[q]; m += w == w and len(ds) > 1
                if not c.check((v != v) == (w != w) and (v != v or abs(v - w) < 1e-6), 'value', lambda: '%s: map pixel (%d,%d) is %r, expected %r of %s' % (label, q % S, q // S, v, w, ds)): return
            if not m: raise RuntimeError('no overlap: ' + label)
        eng.case(label, fn)

    # many photos, each with data at few places or everywhere
    LOOK = {}
    for k in 'abd':
        d = KINDS[k]
        cam = Camera(sp, d.get('sublat', 10), d['sublon'], 5000, d.get('pa', 0), 120, 10, 8, PS / 2, PL / 2)
        ph = Photo(cam, (PS, PL), [float(i) for i in range(PS * PL)], d.get('nib', (0, 0, 0, 0)), 90.0)
        LOOK[k] = [ph.read(lat, lon) for lat, lon in LLS]
    for N, few, avg in itertools.product((4, 5, 8, 9, 16, 17, 33, 65, 127, 128, 129, 255, 256, 257, 300), (0, 1, 3), AVG):
        label = '%d photos, data in %s, averaging %s' % (N, few or 'all', avg)
        def fn(c, N=N, few=few, avg=avg, label=label):
            ks = ['aba'[n % 3] for n in range(N)]
            PX = [[math.nan if few and (q * 31 + n * 7) % N >= few else float((q * 7 + n * 53) % 211 + n) for q in range(PS * PL)] for n in range(N)]
            for n in range(N): c.write('p%d.fits' % n, make_fits(-64, (PS, PL), PX[n]))
            c.write('in', entry('m.fits', dtype='DOUBLE', samples=S, lines=L, options=['AVERAGING: ' + avg] if avg else None, planes=['\n'.join(text(n, k) for n, k in enumerate(ks))]))
            r = c.marc('in')
            c.state(label); c.steps(N)
            if not c.check(r.rc == 0 and not r.crashed, 'failed', lambda: '%s: %r' % (label, r)): return
            h = c.fits('m.fits')[0]
            m = 0
            for q in range(S * L):
                look = {k: LOOK[k][q] for k in 'ab'}
                if '?' in look.values(): continue
                ds = [(PX[n][int(look[k][0])], look[k][1]) for n, k in enumerate(ks) if look[k] is not None]
                ds = [d for d in ds if d[0] == d[0]]
                how = AVG[avg]
                if not ds: w = math.nan
                elif how == 'first': w = ds[0][0]
                elif how == 'mean': w = sum(d[0] for d in ds) / len(ds)
                else:
                    t = sum(d[1] for d in ds)
                    if not t and len(ds) > 1: continue
                    w = sum(d[0] * d[1] for d in ds) / t if t else ds[0][0]
                v = h.pix[q]; m += w == w
                if not c.check((v != v) == (w != w) and (v != v or abs(v - w) < 1e-6), 'value', lambda: '%s: map pixel (%d,%d) is %r, expected %r of %d data' % (label, q % S, q // S, v, w, len(ds))): return
            if not m: raise RuntimeError('no data: ' + label)
        eng.case(label, fn)
