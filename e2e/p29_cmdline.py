"""P29: command lines, all sequences of arguments up to a length."""
import itertools, os
from e2e.inputs import *

# files: map written (None: refused) and the value of its pixels
FILES = {'a.inp': [('a.fits', 3)], 'b.inp': [('b.fits', 5)], 'c d.inp': [('a.fits', 7)], 'two.inp': [('b.fits', 9), ('e.fits', 11)],
         './a.inp': [('a.fits', 3)], 'bad.inp': None, 'none.inp': None, 'dir.inp': None, '-x': [('x.fits', 13)], '--usage': [('u.fits', 15)], '': None, 'empty.inp': None, '-': None}

def model(args):
    """None: information only; 'usage': refused; else the list of files."""
    files, i, rest = [], 0, False
    for a in args:
        if rest or not a.startswith('-') or a == '-': files.append(a)
        elif a == '--': rest = True
        elif a in ('--help', '-?', '--usage', '--version', '-V'): return None
        else: return 'usage'
    return files or 'usage'

def explore(eng):
    def m(f, off): return entry(f, dtype='FLOAT', samples=3, lines=2, options=['LO_LAT: -90', 'HI_LAT: 90', 'LO_LON: 0', 'HI_LON: 360'], planes=['LATITUDE:'], offset=None, comments=['value %d' % off])
    ALL = ['a.inp', 'b.inp', 'c d.inp', 'two.inp', 'bad.inp', 'none.inp', '--', '-V', '--bogus']
    MORE = ['./a.inp', 'dir.inp', '-x', '--usage', '--help', '-?', '--version', '', 'empty.inp', '-', '-q', '--bogus=1']
    seqs = [()]
    for n in (1, 2): seqs += list(itertools.product(ALL + MORE, repeat=n))
    seqs += list(itertools.product(ALL, repeat=3))
    if eng.thorough: seqs += list(itertools.product(ALL[:7], repeat=4)) + list(itertools.product(ALL + MORE, repeat=3))
    else: seqs += [s for s in itertools.product(('a.inp', 'c d.inp', 'two.inp', '--', '-x'), repeat=4)]
    for s in dict.fromkeys(seqs):
        def fn(c, s=s):
            for f, ms in FILES.items():
                if ms and not f.startswith('./'): c.write(f, ''.join(m(*q) for q in ms))
            c.write('bad.inp', m('z.fits', 1) + 'FOO: 1\n')
            c.write('empty.inp', '')
            os.makedirs(c.path('dir.inp'))
            before = set(os.listdir(c.dir))
            r = c.marc(*s)
            if not c.check(not r.crashed, 'crash', repr(r)): return
            new = set(os.listdir(c.dir)) - before
            w = model(s)
            if w is None or w == 'usage':
                c.check((r.rc == 0) == (w is None), 'exit', 'arguments %r: %r' % (s, r))
                c.check(not new, 'made', 'arguments %r name no input but %s was made' % (s, new))
                if w is None: c.check(len(r.out) > 5, 'silent', 'arguments %r: nothing printed' % (s,))
                c.state(s)
                return
            if any(not FILES.get(f) for f in w):
                if any(f == 'empty.inp' for f in w) and all(FILES.get(f) or f == 'empty.inp' for f in w): return   # not judged
                c.check(r.rc != 0, 'exit', 'arguments %r: %r' % (s, r))
                c.check(not new, 'made', 'arguments %r include an unusable file but %s was made' % (s, new))
                c.state(s)
                return
            want = {}
            for f in w:
                for n, v in FILES[f]: want[n] = v
            if not c.check(r.rc == 0, 'exit', 'arguments %r: %r' % (s, r)): return
            if not c.check(new == set(want), 'maps', 'arguments %r: made %s, expected %s' % (s, sorted(new), sorted(want))): return
            for n, v in want.items():
                h = c.fits(n)[0]
                got = [x for k, _, x in h.cards if k == 'COMMENT' and 'value' in x]
                c.check(len(got) == 1 and got[0].split()[-1] == str(v), 'map', lambda: 'arguments %r: %s holds %s, expected value %d' % (s, n, got, v))
            c.state(s)
            c.steps(len(w))
        eng.case('marc ' + ' '.join(repr(a) for a in s), fn)

    # files that cannot be read, for every reason there is
    unreadable = {'loop.inp': lambda c: os.symlink('loop.inp', c.path('loop.inp')), 'a.inp/x': None, 'x' * 300: None, 'gone.inp': lambda c: os.symlink('nowhere', c.path('gone.inp')),
                  'nodir/a.inp': None, 'locked.inp': lambda c: (c.write('locked.inp', m('l.fits', 1)), os.chmod(c.path('locked.inp'), 0))}
    for f, pos, sep in itertools.product(unreadable, range(4), (False, True)):
        def fn(c, f=f, pos=pos, sep=sep):
            for g in ('a.inp', 'b.inp', 'two.inp'): c.write(g, ''.join(m(*q) for q in FILES[g]))
            if unreadable[f]: unreadable[f](c)
            files = ['a.inp', 'b.inp', 'two.inp']
            files.insert(pos, f)
            r = c.marc(*((['--'] if sep else []) + files), nobody=f == 'locked.inp')
            if r is None: return             # no other user here
            c.check(r.rc != 0 and not r.crashed, 'exit', 'with %s, which cannot be read: %r' % (f[:20], r))
            made = [g for g in os.listdir(c.dir) if g.endswith('.fits')]
            c.check(not made, 'made', 'with %s, which cannot be read: %s made' % (f[:20], made))
            c.state('unreadable', f, pos, sep); c.steps(4)
        eng.case('unreadable %s as number %d%s' % (f[:20], pos + 1, ' after --' if sep else ''), fn)

    # many input files
    for n, sep, back in itertools.product((5, 9, 10, 17, 33, 64, 65, 99, 100, 127, 128, 129, 200, 255, 256, 257, 300), (False, True), (False, True)):
        def fn(c, n=n, sep=sep, back=back):
            names = ['i%d' % q for q in range(n)]
            # neighbours write the same map: the later one counts
            for q in range(n): c.write('i%d' % q, m('m%d.fits' % (q // 2), q))
            if back: names.reverse()
            r = c.marc(*((['--'] if sep else []) + names))
            if not c.check(r.rc == 0 and not r.crashed, 'exit', '%d files: %r' % (n, r)): return
            made = {f for f in os.listdir(c.dir) if f.endswith('.fits')}
            if not c.check(made == {'m%d.fits' % q for q in range((n + 1) // 2)}, 'maps', '%d files: %d maps made' % (n, len(made))): return
            for q in range((n + 1) // 2):
                got = [x for k, _, x in c.fits('m%d.fits' % q)[0].cards if k == 'COMMENT' and 'value' in x]
                w = 2 * q if back or 2 * q + 1 >= n else 2 * q + 1
                if not c.check(len(got) == 1 and got[0].split()[-1] == str(w), 'map', lambda: '%d files: m%d.fits holds %s, expected value %d' % (n, q, got, w)): return
            c.state('many', n, sep, back); c.steps(n)
        eng.case('%d input files%s%s' % (n, ' after --' if sep else '', ', last first' if back else ''), fn)
        def bad(c, n=n, sep=sep, back=back):
            # one bad file, last of all: nothing is made
            for q in range(n): c.write('i%d' % q, m('m%d.fits' % q, q) + ('FOO: 1\n' if q == n - 1 else ''))
            r = c.marc(*((['--'] if sep else []) + ['i%d' % q for q in range(n)][::-1 if back else 1]))
            c.check(r.rc != 0 and not r.crashed, 'exit', '%d files, one bad: %r' % (n, r))
            made = [f for f in os.listdir(c.dir) if f.endswith('.fits')]
            c.check(not made, 'made', '%d files, one bad: %d maps made' % (n, len(made)))
            c.state('many bad', n, sep, back); c.steps(n)
        eng.case('%d input files%s%s, one bad' % (n, ' after --' if sep else '', ', last first' if back else ''), bad)
