"""Engine for exhaustive exploration of whole-program runs of marc."""
import os, sys, subprocess, shutil, struct, threading, hashlib, math, time
from concurrent.futures import ThreadPoolExecutor

BASE_ENV = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'TZ': 'UTC'}
TIMEOUT = 60

class Run:
    def __init__(self, rc, out, err, hung):
        self.rc, self.out, self.err, self.hung = rc, out, err, hung
    @property
    def crashed(self):
        return self.hung or self.rc < 0 or self.rc in (134, 136, 139)
    def __repr__(self):
        return 'rc=%s%s %s' % (self.rc, ' HUNG' if self.hung else '', (self.err or self.out)[-300:].strip())

class Case:
    """One explored history; holds a scratch directory and the checks."""
    def __init__(self, eng, label, d):
        self.eng, self.label, self.dir = eng, label, d
        self.failed = False
        self.env = dict(BASE_ENV, HOME=os.path.join(d, 'home'))
        os.makedirs(self.env['HOME'])

    def path(self, n):
        return os.path.join(self.dir, n)

    def write(self, n, data):
        p = self.path(n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        return p

    def read(self, n):
        with open(self.path(n), 'rb') as f:
            return f.read()

    def exists(self, n):
        return os.path.lexists(self.path(n))

    def marc(self, *args, env=None, timeout=TIMEOUT, small=False, nobody=False):
        e = dict(self.env, **(env or {}))
        wrap = ['prlimit', '--as=3000000000', '--fsize=30000000'] if small else []
        with self.eng.lock: self.eng.runs += 1
        who = {}
        if nobody:                # as a user who owns nothing; None where there is no such user
            for d in (self.eng.tmp, self.dir): os.chmod(d, 0o777)
            who = {'user': 65534, 'group': 65534, 'extra_groups': []}
            try:
                if subprocess.run([self.eng.binary, '--version'], cwd=self.dir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout, **who).returncode: return None
            except (OSError, ValueError, subprocess.SubprocessError): return None
        p = subprocess.Popen(wrap + [self.eng.binary] + list(args), cwd=self.dir, env=e, stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, **who)
        try:
            o, er = p.communicate(timeout=timeout)
            hung = False
        except subprocess.TimeoutExpired:
            p.kill(); o, er = p.communicate(); hung = True
        return Run(p.returncode, o.decode(errors='replace'), er.decode(errors='replace'), hung)

    def fits(self, n):
        return read_fits(self.read(n))

    def check(self, ok, kind, msg=''):
        with self.eng.lock: self.eng.checks += 1
        if not ok and not self.failed:
            self.failed = True
            self.eng.report(kind, msg() if callable(msg) else str(msg), self.label)
        return ok

    def state(self, *things):
        h = hashlib.sha256(repr(things).encode()).digest()[:8]
        with self.eng.lock: self.eng.states.add(h)

    def steps(self, n):
        with self.eng.lock: self.eng.steps += n

class Engine:
    def __init__(self, name, tier, tmp, binary, only=None):
        self.name, self.tier, self.tmp, self.binary, self.only = name, tier, tmp, binary, only
        self.viol, self.states, self.samples = [], set(), []
        self.runs = self.cases = self.steps = self.checks = 0
        self.lock = threading.Lock()
        self.kinds = {}
        self.ex = ThreadPoolExecutor(os.cpu_count() or 4)
        self.futs = []
        self.err = None
        self.n = 0

    @property
    def thorough(self): return self.tier == 'thorough'

    def report(self, kind, msg, label):
        with self.lock:
            self.kinds[kind] = self.kinds.get(kind, 0) + 1
            if self.kinds[kind] <= 60:
                self.viol.append({'kind': kind, 'msg': msg[:1500], 'case': label, 'path': label})

    def case(self, label, fn):
        """Schedule one case: fn(Case)."""
        if self.only is not None and label not in self.only: return
        self.n += 1
        d = os.path.join(self.tmp, '%s-%d' % (self.name, self.n))
        def go():
            if self.err: return
            os.makedirs(d)
            try:
                c = Case(self, label, d)
                fn(c)
                with self.lock:
                    self.cases += 1
                    if len(self.samples) < 4 or (len(self.samples) < 8 and self.cases & (self.cases - 1) == 0):
                        self.samples.append(label[:300])
            except (FitsError, KeyError, IndexError, ValueError, FileNotFoundError, struct.error) as e:
                # The program's output is missing or lacks the expected structure.
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                self.report('malformed-output', '%s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno), label)
            except Exception as e:       # an error of the check itself
                import traceback
                self.err = traceback.format_exc()
            finally:
                shutil.rmtree(d, ignore_errors=True)
        self.futs.append(self.ex.submit(go))

    def finish(self):
        for f in self.futs: f.result()
        self.ex.shutdown()
        if self.err:
            raise RuntimeError('error in case: ' + self.err)

# --------------------------------------------------------------------- FITS
class FitsError(Exception): pass

BITPIX_FMT = {8: 'B', 16: 'h', 32: 'i', 64: 'q', -32: 'f', -64: 'd'}

class HDU: pass

def parse_card(c):
    key = c[:8].rstrip()
    if key in ('COMMENT', 'HISTORY', '') or c[8:10] != '= ':
        return key, None, c[8:].rstrip()
    v = c[10:]
    t = v.lstrip()
    if t.startswith("'"):
        i, s = 1, ''
        while True:
            if i >= len(t): raise FitsError('unterminated string: ' + c)
            if t[i] == "'":
                if t[i+1:i+2] == "'": s += "'"; i += 2; continue
                break
            s += t[i]; i += 1
        rest = t[i+1:]
        return key, s.rstrip(), rest.split('/', 1)[1].strip() if '/' in rest else ''
    v, _, com = t.partition('/')
    v = v.strip()
    if v in ('T', 'F'): val = v == 'T'
    else:
        try: val = int(v)
        except ValueError:
            try: val = float(v.replace('D', 'E'))
            except ValueError: raise FitsError('bad value: ' + c)
    return key, val, com.strip()

def ones_sum(data, s=0):
    n = len(data) // 4
    t = sum(struct.unpack('>%dI' % n, data)) + s
    while t >> 32: t = (t & 0xffffffff) + (t >> 32)
    return t

def read_fits(data):
    """Strict reader: list of HDUs with .cards [(key,value,comment)], .h dict, .pix (raw, flat), .axes."""
    if len(data) % 2880 or not data: raise FitsError('file size %d is not a positive multiple of 2880' % len(data))
    hdus, off = [], 0
    while off < len(data):
        h = HDU(); h.cards, h.h = [], {}
        start, end = off, False
        while not end:
            blk = data[off:off+2880]
            if len(blk) < 2880: raise FitsError('header without END')
            off += 2880
            try: blk = blk.decode('ascii')
            except UnicodeDecodeError: raise FitsError('non-ASCII header')
            for i in range(0, 2880, 80):
                c = blk[i:i+80]
                if end:
                    if c.strip(): raise FitsError('text after END')
                    continue
                if any(ord(x) < 32 or ord(x) > 126 for x in c): raise FitsError('illegal header character')
                if c.rstrip() == 'END': end = True; continue
                k, v, com = parse_card(c)
                if k == 'CONTINUE':
                    # text continued from the card before
                    if not h.cards or not isinstance(h.cards[-1][1], str) or not h.cards[-1][1].endswith('&'): raise FitsError('CONTINUE out of place')
                    k, _, com = h.cards.pop()
                    v = _[:-1] + parse_card('CONTINUE= ' + c[10:])[1]
                    del h.h[k]
                h.cards.append((k, v, com))
                if v is not None:
                    if k in h.h: raise FitsError('duplicate keyword ' + k)
                    h.h[k] = v
        first = h.cards[0][0]
        if first != ('SIMPLE' if start == 0 else 'XTENSION'): raise FitsError('first keyword ' + first)
        h.axes = [h.h['NAXIS%d' % (i + 1)] for i in range(h.h['NAXIS'])]
        bp = h.h['BITPIX']
        if bp not in BITPIX_FMT: raise FitsError('BITPIX %s' % bp)
        n = 1 if h.axes else 0
        for a in h.axes: n *= a
        size = n * abs(bp) // 8 + h.h.get('PCOUNT', 0)
        raw = data[off:off+size]
        if len(raw) < size: raise FitsError('data truncated')
        h.pix = list(struct.unpack('>%d%s' % (n, BITPIX_FMT[bp]), raw[:n * abs(bp) // 8]))
        pad = -size % 2880
        if any(data[off+size:off+size+pad]) and first == 'SIMPLE': raise FitsError('non-zero padding')
        doff = off
        off += size + pad
        h.datasum_ok = ('DATASUM' not in h.h) or int(h.h['DATASUM']) == ones_sum(data[doff:off])
        h.checksum_ok = ('CHECKSUM' not in h.h) or ones_sum(data[start:off]) in (0xffffffff, 0)
        hdus.append(h)
    return hdus

def _card(k, v):
    if isinstance(v, bool): s = ('T' if v else 'F').rjust(20)
    elif isinstance(v, int): s = str(v).rjust(20)
    elif isinstance(v, float): s = repr(v).upper().rjust(20)
    else: s = "'%s'" % v.replace("'", "''").ljust(8)
    return ('%-8s= %s' % (k, s)).ljust(80)

def make_fits(bitpix, axes, pix, extra=(), simple=True):
    """A FITS image for use as a photo."""
    cards = [_card('SIMPLE', True) if simple else _card('XTENSION', 'IMAGE   '), _card('BITPIX', bitpix), _card('NAXIS', len(axes))]
    cards += [_card('NAXIS%d' % (i + 1), a) for i, a in enumerate(axes)]
    if not simple: cards += [_card('PCOUNT', 0), _card('GCOUNT', 1)]
    for k, v in extra:
        if isinstance(v, str) and len(v) + v.count("'") > 66:
            # continued long strings
            parts = [v[i:i + 32] for i in range(0, len(v), 32)]
            cards += [(('%-8s= ' % k if not i else 'CONTINUE  ') + "'%s%s'" % (t.replace("'", "''"), '&' if i + 1 < len(parts) else '')).ljust(80) for i, t in enumerate(parts)]
        else: cards.append(_card(k, v))
    cards += ['END'.ljust(80)]
    hd = ''.join(cards).encode()
    hd += b' ' * (-len(hd) % 2880)
    d = struct.pack('>%d%s' % (len(pix), BITPIX_FMT[bitpix]), *pix)
    return hd + d + b'\0' * (-len(d) % 2880)
