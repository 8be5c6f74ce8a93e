"""P27: the reachable directory states under all runs of a set of inputs; every run must change exactly what its input names."""
import os, gzip, threading, itertools, hashlib
from e2e.lib import make_fits, read_fits, FitsError
from e2e.inputs import *
from e2e.p18_history import canon, P, PS, PL, VAL, FLAT

def E(file, **k): return entry(file, **dict(dict(samples=12, lines=8, dtype='FLOAT'), **k))

JUNK = b'not a map\n'
# name -> (argument files, entries as (map, text, fails))
M1 = ('m.fits', E('m.fits'), False)
M2 = ('m.fits', E('m.fits', dtype='SHORT', grid=['GRID: YES'], planes=[P()]), False)
N1 = ('n.fits', E('n.fits', proj='ORTHO', planes=[P(), 'LONGITUDE']), False)
S1 = ('sub/m.fits', E('sub/m.fits', dtype='DOUBLE', planes=['LONGITUDE']), False)
BADFLAT = ('o.fits', E('o.fits', planes=[P(flat='small.fits')]), True)
BADM = ('m.fits', E('m.fits', planes=['LATITUDE:', P(flat='small.fits')]), True)
NODIR = ('none/m.fits', E('none/m.fits'), True)
GZ = ('g.fits.gz', E('g.fits.gz'), False)
FROM = ('r.fits', E('r.fits', dtype='DOUBLE', planes=[P(file='m.fits')]), False)
RUNS = {
    'm': [[M1]], 'm(2)': [[M2]], 'm+n': [[M1, N1]], 'n, m(2)': [[N1], [M2]], 'm twice': [[M2, M1]], 'sub': [[S1]],
    'n, bad o, m': [[N1, BADFLAT, M1]], 'n, bad m': [[N1], [BADM]], 'bad directory': [[M1, NODIR]], 'gz': [[GZ]],
    'syntax': [[M1, ('n.fits', E('n.fits').replace('LINES', 'LINE'), None)]], 'm, syntax': [[M1], [('n.fits', E('n.fits', rotation='UP'), None)]], 'missing photo': [[N1, ('m.fits', E('m.fits', planes=[P(file='no.fits')]), None)]],
    'missing input': [[M1], None], 'r from m': [[FROM]],
}
MORE = {
    'm twice, files': [[M1], [M2]], 'gz+n': [[GZ, N1]], 'sub+m': [[S1, M1]], 'bad m first': [[BADM, N1]], 'n+r': [[N1, FROM]], 'bad value': [[N1, ('m.fits', E('m.fits', samples=0), None)]],
}
MAPN = ['m.fits', 'n.fits', 'o.fits', 'r.fits', 'g.fits.gz', 'sub/m.fits', 'none/m.fits']
INIT = ['empty', 'junk m', 'symlink m', 'hard link m', 'dangling m', 'map m', 'long m', 'directory n', 'junk all', 'read-only m']

def inputs(c, runs):
    for name, fs in runs.items():
        for i, f in enumerate(fs):
            if f is not None: c.write(argname(name, i), ''.join(t for _, t, _ in f))
    c.write('p.fits', make_fits(16, (PS, PL), VAL))
    c.write('small.fits', make_fits(16, (PS, PL - 1), FLAT[:PS * (PL - 1)]))

def argname(name, i): return 'in-%s-%d' % (name.replace(' ', '_'), i)
def args(name, runs): return [argname(name, i) for i in range(len(runs[name]))]

def initial(c, kind):
    os.makedirs(c.path('sub'))
    for n in ('keep.dat', 'm.fits.bak', 'm', 'sub/keep', 'm.fits~', 'n.fit', 'M.FITS', '.m.fits'): c.write(n, JUNK + n.encode())
    if kind == 'junk m': c.write('m.fits', JUNK)
    if kind == 'symlink m': os.symlink('keep.dat', c.path('m.fits'))
    if kind == 'dangling m': os.symlink('nowhere', c.path('m.fits'))
    if kind == 'hard link m': os.link(c.path('keep.dat'), c.path('m.fits'))
    if kind == 'map m': c.write('m.fits', make_fits(16, (PS, PL), [v + 3 for v in VAL]))
    if kind == 'long m': c.write('m.fits', make_fits(16, (PS, PL), VAL) + b'x' * 100000)
    if kind == 'directory n': c.write('n.fits/inside', JUNK)
    if kind == 'read-only m': c.write('m.fits', JUNK); os.chmod(c.path('m.fits'), 0o400)
    if kind == 'junk all':
        for n in MAPN[:-1]: c.write(n, JUNK)

CACHE = {}
def content(p):
    """Identity of a file: maps without their creation time."""
    if os.path.islink(p): return ('link', os.readlink(p))
    if os.path.isdir(p): return ('dir',)
    with open(p, 'rb') as f: b = f.read()
    k = hashlib.sha256(b).digest()
    if k not in CACHE:
        v = ('raw', k)
        if b[:2] == b'\x1f\x8b':
            try: b = gzip.decompress(b)
            except Exception: b = b''
        if b.startswith(b'SIMPLE'):
            try: v = ('fits', hashlib.sha256(repr(canon(read_fits(b))).encode()).digest())
            except (FitsError, ValueError, KeyError, IndexError): pass
        CACHE[k] = v
    return CACHE[k]

def tree(d, stat=False):
    out = {}
    for r, ds, fs in os.walk(d):
        for n in ds + fs:
            p = os.path.join(r, n); k = os.path.relpath(p, d)
            out[k] = content(p)
            if stat:
                s = os.lstat(p); dr = os.path.isdir(p) and not os.path.islink(p)
                out[k] += (s.st_ino, s.st_mode) + (() if dr else (s.st_mtime_ns,))
    return out

class Ref:
    """What an entry writes, from a run of that entry alone in a directory of its own."""
    def __init__(self): self.lock, self.d = threading.Lock(), {}
    def get(self, c, ent, runs):
        name, text, fails = ent
        src = b''
        if 'IMAGE: m.fits' in text:
            p = c.path('m.fits')
            src = open(p, 'rb').read() if os.path.exists(p) else None
        k = (name, text, src if src is None else hashlib.sha256(src).digest())
        with self.lock:
            if k in self.d: return self.d[k]
        d = c.path('.ref'); os.makedirs(d + '/sub')
        cc = type(c)(c.eng, c.label, d)
        inputs(cc, {})
        if src: cc.write('m.fits', src)
        cc.write('in', text)
        r = cc.marc('in')
        v = None if r.rc != 0 or r.crashed or not os.path.exists(cc.path(name)) else content(cc.path(name))
        import shutil; shutil.rmtree(d)
        with self.lock: self.d[k] = v
        return v

def step(c, name, runs, ref, who):
    """One run; returns the new state, or None after a violation."""
    # at parse time: anything invalid, or a photo that is not there, refuses the whole run
    refused, maybe, ents = False, False, []
    for f in runs[name]:
        if f is None: refused = True; continue
        for e in f:
            if e[2] is None: refused = True
            else:
                ents.append((e, ref.get(c, e, runs) if not e[2] else None))
                if 'IMAGE: m.fits' in e[1] and ents[-1][1] is None: maybe = True
    before = tree(c.dir, True)
    r = c.marc(*args(name, runs))
    after = tree(c.dir, True)
    if not c.check(not r.crashed, 'crash', lambda: '%s: %r' % (who, r)): return None
    allowed, exact, fail = set(), {}, refused or maybe      # maybe: refused at once, or when that map is made
    if not refused:
        for (n, t, bad), v in ents:
            if not bad and v is None and not maybe:
                c.check(False, 'entry', '%s: the entry for %s alone fails' % (who, n)); return None
            isdir = before.get(n, ('',))[0] == 'dir' or not os.path.isdir(os.path.dirname(c.path(n)))
            if bad or isdir or v is None:
                # what follows a failing map may or may not be made
                fail = True
                if not isdir: allowed.add(n)
                exact.pop(n, None)
            elif fail: allowed.add(n); exact[n] = (v, 'or-before')
            else: allowed.add(n); exact[n] = (v, 'new')
    if not c.check((r.rc != 0) == fail, 'exit', lambda: '%s: expected %s: %r' % (who, 'failure' if fail else 'success', r)): return None
    diff = [n for n in sorted(set(before) | set(after)) if n not in allowed and before.get(n) != after.get(n)]
    if not c.check(not diff, 'other-file', lambda: '%s: %s' % (who, ', '.join('%s was %s' % (n, 'removed' if n not in after else 'created' if n not in before else 'modified') for n in diff))): return None
    for n, (v, how) in exact.items():
        a = after.get(n)
        ok = a is not None and a[0] == 'fits' and a[:2] == v[:2]
        if how == 'or-before': ok = ok or a == before.get(n)
        if not c.check(ok, 'map', lambda: '%s: %s is %s the map its entry makes in an empty directory' % (who, n, 'missing, not' if a is None else 'not')): return None
    return tuple(sorted((n, v[:2] if v[0] != 'dir' else v[:1]) for n, v in after.items() if not n.startswith('in-')))

def explore(eng):
    runs = dict(RUNS, **(MORE if eng.thorough else {}))
    depth = 6 if eng.thorough else 3
    ref, seen, lock, nxt = Ref(), set(), threading.Lock(), []
    def go(init, path):
        label = init + ' | ' + ' / '.join(path)
        def fn(c):
            inputs(c, {p: runs[p] for p in path}); initial(c, init)
            s = None
            for i, p in enumerate(path):
                s = step(c, p, runs, ref, '%s, run %d (%s)' % (init, i + 1, p))
                if s is None: return
            c.steps(1); c.state(s)
            with lock:
                if s not in seen: seen.add(s); nxt.append((init, path))
        eng.case(label, fn)
    if eng.only:
        for l in eng.only:
            if ' | ' in l:
                i, p = l.split(' | '); go(i, p.split(' / '))
        return
    for i in INIT:
        for p in runs: go(i, [p])
    for d in range(1, depth):
        for f in eng.futs: f.result()
        eng.futs.clear()
        front, nxt[:] = sorted(nxt), []
        for i, path in front:
            for p in runs: go(i, path + [p])
    if not eng.thorough: return
