"""Large maps: more pixels than any reasonable counter or block, checked row by row."""
from e2e.lib import make_fits
from e2e.inputs import *
from itertools import product as itertools_product

FMT = {'BYTE': 8, 'SHORT': 16, 'LONG': 32, 'LONGLONG': 64, 'FLOAT': -32, 'DOUBLE': -64}

def big_maps(eng, shapes=((1300, 1000), (1000, 1300)), types=('FLOAT', 'SHORT', 'DOUBLE')):
    """Latitude and longitude planes of whole-globe Simple Cylindrical maps: every row constant, every column constant."""
    sp = Spheroid(True, 1000.0, 900.0)
    for (S, L), t, ks, grid in itertools_product(shapes, types, (('LATITUDE',), ('LONGITUDE', 'LATITUDE')), (False, True)):
        if t == 'BYTE' and 'LONGITUDE' in ks: continue
        if (grid and len(ks) > 1) or (t == 'DOUBLE' and len(ks) > 1 and not eng.thorough): continue
        label = 'large map %dx%d %s %s grid=%d' % (S, L, t, '+'.join(ks), grid)
        def fn(c, S=S, L=L, t=t, ks=ks, grid=grid, label=label):
            c.write('in', entry(dtype=t, samples=S, lines=L, grid=['GRID: YES', 'GRID_INTERVAL: 30'] if grid else None, planes=[k + (':' if k == 'LATITUDE' else '') for k in ks]))
            r = c.marc('in')
            c.state(label); c.steps(S * L * len(ks))
            if not c.check(r.rc == 0 and not r.crashed, 'exit', lambda: '%s: %r' % (label, r)): return
            f = c.fits('m.fits')
            h = f[0]
            if not c.check(len(f) == 1 + grid and h.axes == [S, L] + ([len(ks)] if len(ks) > 1 else []) and h.h['BITPIX'] == FMT[t], 'dimensions', '%s: %d HDUs, %s' % (label, len(f), h.axes)): return
            c.check(all(x.datasum_ok and x.checksum_ok for x in f), 'checksum', label)
            from e2e.p15_backplanes import scales
            sc = scales(h)
            for n, k in enumerate(ks):
                bs, bz = sc[n + 1] if FMT[t] > 0 else (1, 0)
                tol = bs * (1 + 1e-6) if FMT[t] > 0 else 1e-4 if t == 'FLOAT' else 1e-8
                p = h.pix[n * S * L:(n + 1) * S * L]
                if k == 'LATITUDE':
                    for j in range(L):
                        want = -90 + (j + 0.5) * 180 / L
                        row = p[j * S:(j + 1) * S]
                        if not c.check(min(row) == max(row) and abs(row[0] * bs + bz - want) <= tol, 'pixel', lambda: '%s: row %d holds %s to %s, expected %s' % (label, j, min(row), max(row), want)): return
                else:
                    first = p[:S]
                    for i, v in enumerate(first):
                        want = 360 - (i + 0.5) * 360 / S
                        if not c.check(abs(v * bs + bz - want) <= tol, 'pixel', lambda: '%s: sample %d holds %s, expected %s' % (label, i, v, want)): return
                    for j in range(L):
                        if not c.check(p[j * S:(j + 1) * S] == first, 'pixel', lambda: '%s: row %d differs from the first' % (label, j)): return
            if grid:
                g = f[1]
                if not c.check(g.axes == [S, L], 'dimensions', '%s: grid %s' % (label, g.axes)): return
                # whole-globe graticule every 30 degrees: rows and columns at fixed places
                vs = [(n + 90) * L / 180 for n in range(-60, 90, 30)]; us = [m * S / 360 for m in range(0, 361, 30)]
                blankrow = None
                for j in range(L):
                    row = bytes(g.pix[j * S:(j + 1) * S])
                    near = any(abs(j + 0.5 - y) <= 1.25 for y in vs)
                    if near: continue
                    for i, b in enumerate(row):
                        if b and not any(abs(i + 0.5 - u) <= 1.25 for u in us):
                            c.check(False, 'grid', '%s: pixel (%d,%d) marked off the grid lines' % (label, i, j)); return
                    if blankrow is None: blankrow = row
                    elif not c.check(row == blankrow, 'grid', lambda: '%s: row %d differs' % (label, j)): return
                for y in vs:
                    if not c.check(any(bytes(g.pix[j * S:(j + 1) * S]) == b'\xff' * S for j in range(L) if abs(j + 0.5 - y) <= 1.25), 'grid', lambda: '%s: parallel at line %g missing' % (label, y)): return
                for u in us[1:-1]:
                    if not c.check(any(blankrow[i] for i in range(S) if abs(i + 0.5 - u) <= 1.25), 'grid', lambda: '%s: meridian at sample %g missing' % (label, u)): return
        eng.case(label, fn)

