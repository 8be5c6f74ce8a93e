"""P26: configuration file defaults, all combinations of configured and overriding entries."""
import itertools, math
from e2e.lib import make_fits
from e2e.inputs import *
from e2e.p20_fits import grid_ok

PS, PL = 20, 16
VAL = [(i * 7 + k * 13) % 100 + 1 for k in range(PL) for i in range(PS)]

GRIDS = [([], {}), (['GRID_INTERVAL: 60'], {'la': 60, 'lo': 60}), (['LAT_GRID_INTERVAL: 45'], {'la': 45}), (['LON_GRID_INTERVAL: 90'], {'lo': 90}),
         (['LAT_GRID_INTERVAL: 30', 'LON_GRID_INTERVAL: 120'], {'la': 30, 'lo': 120})]
DATA = [([], {}), (['DATA_MIN: 20'], {'min': 20}), (['DATA_MAX: 80'], {'max': 80}), (['DATA_MIN: 10', 'DATA_MAX: 90'], {'min': 10, 'max': 90})]
NIB = [([], {}), (['NIBBLE: 2'], dict(l=2, r=2, t=2, b=2)), (['NIBBLE_LEFT: 5', 'NIBBLE_RIGHT: 4', 'NIBBLE_TOP: 3', 'NIBBLE_BOTTOM: 6'], dict(l=5, r=4, t=3, b=6)),
       (['NIBBLE_TOP: 4'], dict(t=4)), (['NIBBLE_RIGHT: 7'], dict(r=7))]
GRIDS2 = [([], {}), (['GRID_INTERVAL: 15'], {'la': 15, 'lo': 15}), (['LAT_GRID_INTERVAL: 20'], {'la': 20}), (['LON_GRID_INTERVAL: 72'], {'lo': 72})]
DATA2 = [([], {}), (['DATA_MIN: 35'], {'min': 35}), (['DATA_MAX: 65'], {'max': 65}), (['DATA_MIN: 5', 'DATA_MAX: 95'], {'min': 5, 'max': 95})]
NIB2 = [([], {}), (['NIBBLE: 0'], dict(l=0, r=0, t=0, b=0)), (['NIBBLE_BOTTOM: 1'], dict(b=1)), (['NIBBLE_LEFT: 8', 'NIBBLE_TOP: 0'], dict(l=8, t=0))]

def explore(eng):
    sp = Spheroid(True, 1000, 900)
    S, L = 96, 48
    ll = simple_c_pixels(sp, S, L)
    cam = Camera(sp, 10, 170, 5000, 0, 120, 10, 8, PS / 2, PL / 2)
    GEO = dict(sublat=10, sublon=170, range='5000', scale=('KM_PER_PIXEL: 120',))
    looks = {}
    def look(n):
        k = (n['l'], n['r'], n['t'], n['b'])
        if k not in looks: looks[k] = photo_lookup(cam, None, (PS, PL), k, ll)
        return looks[k]
    def verify(c, h, eff, what):
        c.check(len(h) == 2, 'hdus', '%s: %d HDUs' % (what, len(h)))
        e = grid_ok(h[1].pix, S, L, eff['la'], eff['lo'])
        # and no coarser or finer: count of marked pixels as for the expected intervals
        c.check(e is None, 'grid', lambda: '%s: %s (expected intervals %g/%g)' % (what, e, eff['la'], eff['lo']))
        for q, w in enumerate(look(eff)):
            if w == '?': continue
            v = h[0].pix[q]
            x = None if w is None else VAL[w]
            if x is not None and (x < eff.get('min', 0) or x > eff.get('max', 1000)): x = None
            ok = math.isnan(v) if x is None else v == x
            if not c.check(ok, 'pixel', lambda: '%s: pixel (%d,%d) %s, expected %s with %s' % (what, q % S, q // S, v, x, eff)): return
    base = dict(la=10, lo=10, l=0, r=0, t=0, b=0)
    def mk(file, g, d, n):
        return entry(file, dtype='DOUBLE', grid=['GRID: YES'] + g, samples=S, lines=L, planes=['\n'.join(d + [photo(nibble=n, **GEO)])])
    if eng.thorough: combos = itertools.product(GRIDS, DATA, NIB, GRIDS2, DATA2, NIB2)
    else:
        # the three kinds of entry are independent: all pairs within a kind, and all subsets of configured kinds
        combos = [(g, d, n, h, e, m) for g, h in itertools.product(GRIDS, GRIDS2) for d, n, e, m in ((DATA[0], NIB[0], DATA2[0], NIB2[0]), (DATA[3], NIB[2], DATA2[1], NIB2[3]))]
        combos += [(g, d, n, h, e, m) for d, e in itertools.product(DATA, DATA2) for g, n, h, m in ((GRIDS[0], NIB[0], GRIDS2[0], NIB2[0]), (GRIDS[4], NIB[2], GRIDS2[0], NIB2[1]))]
        combos += [(g, d, n, h, e, m) for n, m in itertools.product(NIB, NIB2) for g, d, h, e in ((GRIDS[0], DATA[0], GRIDS2[0], DATA2[0]), (GRIDS[2], DATA[1], GRIDS2[3], DATA2[2]))]
    for g, d, n, g2, d2, n2 in combos:
        def fn(c, g=g, d=d, n=n, g2=g2, d2=d2, n2=n2):
            c.write('home/.config/marc', '\n'.join(g[0] + d[0] + n[0]) + '\n')
            c.write('p.fits', make_fits(16, (PS, PL), VAL))
            # one map with overriding entries, then one without
            c.write('in', mk('a.fits', g2[0], d2[0], n2[0]) + mk('b.fits', [], [], []))
            r = c.marc('in')
            if not c.check(r.rc == 0 and not r.crashed, 'exit', repr(r)): return
            conf = dict(base, **g[1], **d[1], **n[1])
            over = dict(conf); over.update(g2[1]); over.update(d2[1]); over.update(n2[1])
            verify(c, c.fits('a.fits'), over, 'overridden')
            verify(c, c.fits('b.fits'), conf, 'configured')
            c.state(g, d, n, g2, d2, n2)
            c.steps(2)
        eng.case('config %s | input %s' % ('; '.join(g[0] + d[0] + n[0]), '; '.join(g2[0] + d2[0] + n2[0])), fn)
    # lookup places
    for xdg, xfile, hfile, old in itertools.product((0, 1), (0, 1), (0, 1), (0, 1)):
        for home in (0, 1):
            def fn(c, xdg=xdg, xfile=xfile, hfile=hfile, old=old, home=home):
                if xfile: c.write('xdg/marc', 'GRID_INTERVAL: 45\n')
                if hfile: c.write('home/.config/marc', 'GRID_INTERVAL: 60\n')
                if old: c.write('home/.marc', 'GRID_INTERVAL: 90\n')
                c.write('p.fits', make_fits(16, (PS, PL), VAL))
                c.write('in', mk('a.fits', [], [], []))
                if xdg: c.env['XDG_CONFIG_HOME'] = c.path('xdg')
                if not home: del c.env['HOME']
                r = c.marc('in')
                if not c.check(r.rc == 0 and not r.crashed, 'exit', repr(r)): return
                iv = (45 if xfile else 10) if xdg else (60 if hfile and home else 10)
                verify(c, c.fits('a.fits'), dict(base, la=iv, lo=iv), 'lookup')
                c.state('lookup', xdg, xfile, hfile, old, home)
            eng.case('lookup xdg=%d xfile=%d homefile=%d old=%d home=%d' % (xdg, xfile, hfile, old, home), fn)
    # places that hold no configuration file: not a directory, missing, empty variables
    for xdg, home in itertools.product((None, '', 'file', 'none', 'xdg'), ('file', 'none', 'home', '')):
        def fn(c, xdg=xdg, home=home):
            c.write('xdg/marc', 'GRID_INTERVAL: 45\n')
            c.write('home/.config/marc', 'GRID_INTERVAL: 60\n')
            c.write('file', 'GRID_INTERVAL: 90\n')
            c.write('p.fits', make_fits(16, (PS, PL), VAL))
            c.write('in', mk('a.fits', [], [], []))
            if xdg is not None: c.env['XDG_CONFIG_HOME'] = xdg and c.path(xdg)
            c.env['HOME'] = home and c.path(home)
            r = c.marc('in')
            if not c.check(r.rc == 0 and not r.crashed, 'exit', repr(r)): return
            iv = 45 if xdg == 'xdg' else 60 if not xdg and home == 'home' else 10
            verify(c, c.fits('a.fits'), dict(base, la=iv, lo=iv), 'lookup')
            c.state('places', xdg, home)
        eng.case('places XDG_CONFIG_HOME=%s HOME=%s' % (xdg, home), fn)
    # harmless and malformed configuration files
    for t in ('', '\n', '# nothing\n', '  # a\n\n# b\n', '# c\nGRID_INTERVAL: 10 # ten\n'):
        def fn(c, t=t):
            c.write('home/.config/marc', t)
            c.write('p.fits', make_fits(16, (PS, PL), VAL))
            c.write('in', mk('a.fits', [], [], []))
            r = c.marc('in')
            if not c.check(r.rc == 0 and not r.crashed, 'exit', repr(r)): return
            verify(c, c.fits('a.fits'), base, 'config %r' % t)
            c.state(t)
        eng.case('harmless config %r' % t, fn)
    for t in ('FOO: 1\n', 'GRID_INTERVAL: 0\n', 'GRID_INTERVAL: -5\n', 'LAT_GRID_INTERVAL: 0\n', 'LON_GRID_INTERVAL: -1\n', 'GRID_INTERVAL:\n', 'GRID_INTERVAL: abc\n', 'NIBBLE: -1\n', 'NIBBLE_LEFT: -2\n', 'NIBBLE: 1\nGRID_INTERVAL: 5\n',
              'DATA_MIN: 5\nDATA_MAX: 1\n', 'DATA_MAX: 1\nDATA_MIN: 5\n', 'GRID_INTERVAL: 5\nSAMPLES: 4\n', 'GRID_INTERVAL: 5\nGRID_INTERVAL: 5\n', 'GRID_INTERVAL 5\n', 'GRID_INTERVAL: 1/0\n', 'NIBBLE: 1.5\n', 'DATA_MIN: 1\nDATA_MIN: 2\n', 'NIBBLE: 1\nNIBBLE_LEFT: 1\n'):
        def fn(c, t=t):
            c.write('home/.config/marc', t)
            c.write('p.fits', make_fits(16, (PS, PL), VAL))
            c.write('in', mk('a.fits', [], [], []))
            r = c.marc('in')
            c.check(r.rc != 0 and not r.crashed, 'accepted', 'malformed configuration %r: %r' % (t, r))
            c.check(not c.exists('a.fits'), 'map-written', 'map written in spite of malformed configuration %r' % t)
            c.state(t)
        eng.case('malformed config %r' % t, fn)
