"""P17: header values of whole maps, merged over the photos of mosaics, the planes of maps and the user's values."""
import itertools
from e2e.lib import make_fits
from e2e.inputs import *

SHAPES = {1: [(1,)], 2: [(2,), (1, 1)], 3: [(3,), (2, 1), (1, 2), (1, 1, 1)]}
BITS = {'BYTE': 8, 'SHORT': 16, 'LONG': 32, 'LONGLONG': 64, 'FLOAT': -32, 'DOUBLE': -64}
PS, PL = 20, 16
PIX = {b: [10 + k % 200 for k in range(PS * PL)] for b in BITS.values()}
KEYS = ('AUTHOR', 'ORIGIN', 'BLANK', 'BUNIT')

def value(key, i): return 3 + i if key == 'BLANK' else '%s %d' % (key.lower(), i)

def fold_type(seq):
    cur = 0
    for b in seq:
        if not cur or (b > 0) != (cur > 0) or abs(b) > abs(cur): cur = b
    return cur

def first(seq): return next((v for v in seq if v is not None), None)

def explore(eng):
    USERS = [{}, {'author': 'user a'}, {'origin': 'user o'}, {'blank': 9, 'dtype': 'SHORT'}, {'dtype': 'SHORT'}, {'dtype': 'DOUBLE'}, {'author': 'user a', 'origin': 'user o', 'blank': 9, 'dtype': 'LONG'}]
    for n in (1, 2, 3):
        types = list(BITS.values()) if n < 3 or eng.thorough else [8, 16, -32]
        for shape in SHAPES[n]:
            for bits in itertools.product(types, repeat=n):
                for k in range(2 ** n):
                    for ui, user in enumerate(USERS):
                        if not eng.thorough and ui and (n == 3 or (n == 2 and len(set(bits)) > 1)) and (k + ui + sum(bits)) % 3: continue
                        for extra in (0, 1):
                            if extra and not eng.thorough and (n > 1 and k % 2 != ui % 2): continue
                            add(eng, n, shape, bits, k, user, extra)

def add(eng, n, shape, bits, k, user, extra):
    M = 2 ** n
    have = [{key: value(key, i) for j, key in enumerate(KEYS) if ((k * (2 * j + 1) + j) % M) >> i & 1 and (key != 'BLANK' or bits[i] > 0)} for i in range(n)]
    label = 'photos per plane %s, BITPIX %s, given %s, user %s%s' % (shape, bits, ['+'.join(h) for h in have], user, ', and a backplane' if extra else '')
    groups, q = [], 0
    for s in shape: groups.append(list(range(q, q + s))); q += s
    bp = BITS[user['dtype']] if 'dtype' in user else fold_type([fold_type([bits[i] for i in g]) for g in groups])
    want = {key: first([h.get(key) for h in have] + (['deg'] if extra and key == 'BUNIT' else [])) for key in KEYS}
    for key, u in (('AUTHOR', 'author'), ('ORIGIN', 'origin'), ('BLANK', 'blank')):
        if u in user: want[key] = user[u]
    if bp < 0: want['BLANK'] = None
    def fn(c):
        for i in range(n): c.write('p%d.fits' % i, make_fits(bits[i], (PS, PL), PIX[bits[i]], list(have[i].items())))
        planes = ['\n'.join(photo(file='p%d.fits' % i, sublon=40 + 60 * i) for i in g) for g in groups] + (['LATITUDE:'] if extra else [])
        c.write('in', entry('m.fits', samples=4, lines=3, planes=planes, **user))
        r = c.marc('in')
        c.state(label); c.steps(n)
        if not c.check(r.rc == 0 and not r.crashed, 'failed', lambda: '%s: %r' % (label, r)): return
        h = c.fits('m.fits')[0]
        if not c.check(h.h['BITPIX'] == bp, 'data-type', lambda: '%s: BITPIX is %s, expected %s' % (label, h.h['BITPIX'], bp)): return
        for key in KEYS:
            if key == 'BUNIT' and not (extra and bp > 0): continue      # only recorded along with scaled backplanes
            got = h.h.get(key)
            if isinstance(got, str): got = got.strip()
            if not c.check(got == want[key], 'value', lambda: '%s: %s is %r, expected %r' % (label, key, h.h.get(key), want[key])): return
        c.check(h.h.get('OBJECT') == 'Mars', 'value', lambda: '%s: OBJECT is %r' % (label, h.h.get('OBJECT')))
    eng.case(label, fn)
