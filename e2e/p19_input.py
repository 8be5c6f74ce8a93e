"""P19: acceptance of input files: all small edits of valid files against a reference grammar, value domains, units."""
import itertools, math, re
from e2e.lib import make_fits
from e2e.inputs import *
from e2e.p18_history import canon, PS, PL, VAL, FLAT

# ---------------------------------------------------------------- reference grammar over keywords
def seq(*x): return ''.join(x)
def opt(x): return '(?:%s)?' % x
def alt(*x): return '(?:%s)' % '|'.join(x)
def K(k): return re.escape(k) + ';'
def anyorder2(a, b): return alt(K(a) + K(b), K(b) + K(a))

CENTERS = alt(anyorder2('SAMPLE_CENTER', 'LINE_CENTER'), anyorder2('LAT_AT_CENTER', 'LON_AT_CENTER'))
SUBOBS = anyorder2('SUB_OBSERV_LAT', 'SUB_OBSERV_LON')
SUBSOL = anyorder2('SUB_SOLAR_LAT', 'SUB_SOLAR_LON')
RADII = alt(*[K(a) + K(b) for a, b in itertools.permutations(('EQ_RAD', 'POL_RAD', 'FLATTENING'), 2)])
GRIDI = alt(K('GRID_INTERVAL'), anyorder2('LAT_GRID_INTERVAL', 'LON_GRID_INTERVAL'), K('LAT_GRID_INTERVAL'), K('LON_GRID_INTERVAL'))
NIBS = alt(anyorder2('NIBBLE_LEFT', 'NIBBLE_RIGHT'), K('NIBBLE_LEFT'), K('NIBBLE_RIGHT'))
NIBL = alt(anyorder2('NIBBLE_TOP', 'NIBBLE_BOTTOM'), K('NIBBLE_TOP'), K('NIBBLE_BOTTOM'))
NIB = opt(alt(K('NIBBLE'), NIBS + NIBL, NIBL + NIBS, NIBS, NIBL))
OPTS = K('OPTIONS') + opt(K('AVERAGING'))
KMP, PA = K('KM_PER_PIXEL'), K('POSITION_ANGLE')
PROJ = alt(
    K('TYPE=MERCATOR') + opt(OPTS),
    K('TYPE=ORTHO') + opt(OPTS + opt(alt(SUBOBS + opt(PA + opt(KMP + opt(CENTERS))), PA, KMP, CENTERS))),
    K('TYPE=P_STEREO') + opt(OPTS + K('POLE') + opt(K('MAX_LAT'))),
    K('TYPE=SIMPLE_C') + opt(OPTS + opt(K('LATITUDE_TYPE')) + opt(alt(*[a + b for a, b in itertools.permutations((anyorder2('LO_LAT', 'HI_LAT'), anyorder2('LO_LON', 'HI_LON')), 2)], anyorder2('LO_LAT', 'HI_LAT'), anyorder2('LO_LON', 'HI_LON')))))
IMAGE = seq(K('IMAGE'), NIB, opt(K('INVERT')), opt(K('INTERPOLATE')), opt(K('REMOVE_SKY')), CENTERS, opt(anyorder2('SAMPLE_OA', 'LINE_OA')), opt(K('FLAT_FIELD')), opt(K('MINNAERT')), opt(K('GEOM_CORRECT')),
            opt(K('EMI_ANG_LIMIT')), opt(K('TERMINATOR')), SUBOBS, PA, SUBSOL, K('RANGE'), alt(KMP, K('ARCSEC_PER_PIX'), anyorder2('FOCAL_LENGTH', 'PIXEL_SCALE')))
PTYPE = alt('(?:%s)+' % IMAGE, K('MU') + SUBOBS + K('RANGE') + opt(SUBSOL), K('MU0') + opt(SUBOBS + K('RANGE')) + SUBSOL, K('PHASE') + SUBOBS + K('RANGE') + SUBSOL, K('LATITUDE') + opt(K('LATITUDE_TYPE')), K('LONGITUDE'))
PLANE = seq(K('PLANE'), opt(alt(anyorder2('DATA_MIN', 'DATA_MAX'), K('DATA_MIN'), K('DATA_MAX'))), PTYPE)
MAPE = seq(K('MAP'), opt(K('AUTHOR')), opt(K('ORIGIN')), '(?:COMMENT;)*', '(?:XCOMMENT;)*', K('BODY'), RADII, K('ROTATION'), opt(K('DATA_OFFSET')), opt(K('DATA_SCALE')), opt(K('DATA_TYPE')), opt(K('DATA_BLANK')),
           opt(K('GRID') + opt(GRIDI)), PROJ, opt(K('PLANES')), K('SAMPLES'), K('LINES'), '(?:%s)+' % PLANE)
FILE = re.compile('(?:%s)+' % MAPE)

def keys(lines):
    out = []
    for l in lines:
        k, _, v = l.partition(':')
        out.append('TYPE=' + v.strip() if k in ('TYPE', 'PROJECTION') else k)
    return out

def accepted(lines):
    """True, False or None (decided elsewhere) for a file of individually valid entries."""
    ks = keys(lines)
    if not FILE.fullmatch(''.join(k + ';' for k in ks)): return False
    # numbered planes
    m, maps = None, []
    for l in lines:
        k, _, v = l.partition(':'); v = v.strip()
        if k == 'MAP': m = dict(planes=None, n=0, num=0, dtype=None, photo=0, blank=False, bad=False, min=None, max=None); maps.append(m)
        elif k == 'PLANES': m['planes'] = int(v)
        elif k == 'PLANE':
            m['n'] += 1; m['min'] = m['max'] = None
            if v:
                m['num'] += 1
                if m['planes'] is None or int(v) != m['num'] or m['num'] > m['planes']: m['bad'] = True
        elif k == 'DATA_TYPE': m['dtype'] = v
        elif k == 'DATA_BLANK': m['blank'] = True
        elif k == 'IMAGE': m['photo'] += 1
        elif k in ('DATA_MIN', 'DATA_MAX'):
            m['min' if k == 'DATA_MIN' else 'max'] = float(v)
            if m['min'] is not None and m['max'] is not None and not m['min'] < m['max']: m['bad'] = True
    if any(m['bad'] or m['planes'] not in (None, m['n']) for m in maps): return False
    if any(m['blank'] and m['dtype'] in (None, 'FLOAT', 'DOUBLE') for m in maps): return False
    if any(not m['photo'] and m['dtype'] is None for m in maps): return None   # no data type can be found
    return True

B_PHOTO = '''MAP: m.fits
AUTHOR: a b
ORIGIN: o
COMMENT: c
COMMENT: d
XCOMMENT: x
BODY: Mars
EQ_RAD: 1000
POL_RAD: 900
ROTATION: PROGRADE
DATA_OFFSET: 1
DATA_SCALE: 2
DATA_TYPE: SHORT
DATA_BLANK: -9
GRID: YES
LAT_GRID_INTERVAL: 30
LON_GRID_INTERVAL: 45
TYPE: SIMPLE_C
OPTIONS:
AVERAGING: UNWEIGHTED
LATITUDE_TYPE: GRAPHIC
LO_LAT: -60
HI_LAT: 70
LO_LON: 10
HI_LON: 300
SAMPLES: 6
LINES: 4
PLANE:
DATA_MIN: 1
DATA_MAX: 90
IMAGE: p.fits
NIBBLE_LEFT: 1
NIBBLE_RIGHT: 1
NIBBLE_TOP: 1
NIBBLE_BOTTOM: 1
INVERT: BOTH
INTERPOLATE: YES
REMOVE_SKY: NO
SAMPLE_CENTER: 10
LINE_CENTER: 8
SAMPLE_OA: 9
LINE_OA: 8
FLAT_FIELD: f.fits
GEOM_CORRECT: NO
EMI_ANG_LIMIT: 80
TERMINATOR: YES
SUB_OBSERV_LAT: 10
SUB_OBSERV_LON: 40
POSITION_ANGLE: 0
SUB_SOLAR_LAT: 0
SUB_SOLAR_LON: 40
RANGE: 5000
KM_PER_PIXEL: 120'''.split('\n')
B_ORTHO = '''MAP: m.fits
BODY: Venus
FLATTENING: 0.1
EQ_RAD: 1000
ROTATION: RETROGRADE
DATA_TYPE: DOUBLE
TYPE: ORTHO
OPTIONS:
AVERAGING: NONE
SUB_OBSERV_LAT: 20
SUB_OBSERV_LON: 50
POSITION_ANGLE: 5
KM_PER_PIXEL: 400
LAT_AT_CENTER: 10
LON_AT_CENTER: 40
PLANES: 5
SAMPLES: 5
LINES: 5
PLANE: 1
DATA_MAX: 1
MU:
SUB_OBSERV_LAT: 20
SUB_OBSERV_LON: 50
RANGE: 5000
PLANE: 2
MU0:
SUB_SOLAR_LAT: 20
SUB_SOLAR_LON: 50
PLANE: 3
PHASE:
SUB_OBSERV_LAT: 20
SUB_OBSERV_LON: 50
RANGE: 5000
SUB_SOLAR_LAT: 20
SUB_SOLAR_LON: 50
PLANE: 4
LATITUDE:
LATITUDE_TYPE: CENTRIC
PLANE: 5
LONGITUDE'''.split('\n')
B_TWO = '''MAP: m.fits
BODY: Mars
POL_RAD: 900
FLATTENING: 0.1
ROTATION: PROGRADE
GRID: NO
TYPE: P_STEREO
OPTIONS:
POLE: S
MAX_LAT: -30
SAMPLES: 5
LINES: 5
PLANE:
IMAGE: p.fits
NIBBLE: 1
LAT_AT_CENTER: 10
LON_AT_CENTER: 40
SUB_OBSERV_LON: 40
SUB_OBSERV_LAT: 10
POSITION_ANGLE: 0
SUB_SOLAR_LON: 0
SUB_SOLAR_LAT: 40
RANGE: 5000
FOCAL_LENGTH: 2
PIXEL_SCALE: 20
MAP: n.fits
BODY: Mars
EQ_RAD: 900
POL_RAD: 900
ROTATION: PROGRADE
DATA_TYPE: FLOAT
TYPE: MERCATOR
SAMPLES: 5
LINES: 5
PLANE:
LATITUDE:'''.split('\n')
BASES = {'photo': B_PHOTO, 'ortho': B_ORTHO, 'two': B_TWO}
SAMPLES = sorted({l for b in BASES.values() for l in b} | {'GRID_INTERVAL: 20', 'MINNAERT: 0.5', 'ARCSEC_PER_PIX: 6000', 'PLANES: 1', 'PLANE: 1', 'TYPE: ORTHO', 'PLANES: 2'})
SAMPLES = [l for l in SAMPLES if not l.startswith(('PLANE: 3', 'PLANE: 4', 'PLANE: 5', 'MAP: n', 'COMMENT: d'))]
SENT = make_fits(8, (3, 3), [7] * 9)
MAPN = ('m.fits', 'n.fits')
AMBIG = ('LATITUDE:', 'MU:', 'MU0:', 'PHASE:', 'OPTIONS:', 'PLANE:')   # entries whose value is on the following lines

def setup(c):
    c.write('p.fits', make_fits(16, (PS, PL), VAL)); c.write('f.fits', make_fits(16, (PS, PL), FLAT))
    for n in MAPN: c.write(n, SENT)

def run(c, text, want, who, ms=None, small=False):
    """want: True accepted, False refused without touching any file, None: no crash."""
    import os
    setup(c); c.write('in', text)
    before = {n: c.read(n) for n in os.listdir(c.dir) if n != 'home'}
    r = c.marc('in', small=small)
    if not c.check(not r.crashed, 'crash', lambda: '%s: %r' % (who, r)): return None
    if want is None: return None
    if want:
        if not c.check(r.rc == 0, 'refused', lambda: '%s is refused: %r' % (who, r)): return None
        for n in MAPN:
            if 'MAP: ' + n in text: c.check(c.read(n) != SENT and c.fits(n) is not None, 'no-map', lambda: '%s: %s not written' % (who, n))
    else:
        if not c.check(r.rc != 0, 'accepted', lambda: '%s is accepted' % who): return None
        after = {n: c.read(n) for n in os.listdir(c.dir) if n != 'home'}
        c.check(after == before, 'touched', lambda: '%s is refused, but %s changed' % (who, [n for n in set(before) | set(after) if before.get(n) != after.get(n)]))
    c.state(text); c.steps(1)
    return r

def structure(eng):
    seen = set()
    def go(label, lines, sep='\n', want='grammar'):
        t = sep.join(lines) + '\n'
        if t in seen: return
        seen.add(t)
        w = accepted(lines) if want == 'grammar' else want
        eng.case(label, lambda c: run(c, t, w, label))
    for bn, b in BASES.items():
        if accepted(b) is not True: raise RuntimeError('reference grammar refuses ' + bn)
        n = len(b)
        go('%s' % bn, b)
        for i in range(n):
            go('%s without line %d (%s)' % (bn, i + 1, b[i]), b[:i] + b[i+1:])
            go('%s with line %d (%s) twice' % (bn, i + 1, b[i]), b[:i+1] + b[i:])
            go('%s up to line %d' % (bn, i), b[:i] if i else ['# nothing'], want=None if not i else 'grammar')
            for j in range(i + 1, n):
                if eng.thorough or j <= i + 2 or b[i].partition(':')[0] == b[j].partition(':')[0]:
                    go('%s with lines %d and %d (%s, %s) swapped' % (bn, i + 1, j + 1, b[i], b[j]), b[:i] + [b[j]] + b[i+1:j] + [b[i]] + b[j+1:])
                if eng.thorough or j == i + 1:
                    go('%s without lines %d and %d' % (bn, i + 1, j + 1), b[:i] + b[i+1:j] + b[j+1:])
            for l in SAMPLES:
                if eng.thorough or i % 3 == 0: go('%s with (%s) before line %d' % (bn, l, i + 1), b[:i] + [l] + b[i:])
                if (eng.thorough or i % 4 == 0) and l.split(':')[0] != b[i].split(':')[0]: go('%s with line %d (%s) replaced by (%s)' % (bn, i + 1, b[i], l), b[:i] + [l] + b[i+1:])
            k, _, v = b[i].partition(':')
            for bad in (k + 'X:' + v, 'X' + k + ':' + v, k[:-1] + '_:' + v, k + v, k + '::' + v):
                if b[i] == 'LONGITUDE' and not bad.endswith('X:') and not bad.startswith('X'): continue
                if k in ('MAP', 'AUTHOR', 'ORIGIN', 'COMMENT', 'XCOMMENT', 'BODY', 'IMAGE', 'FLAT_FIELD') and '::' in bad: continue
                if bad.partition(':')[0] == 'XCOMMENT': continue
                go('%s with line %d as (%s)' % (bn, i + 1, bad), b[:i] + [bad] + b[i+1:], want=False)
            if b[i] not in AMBIG and v and k not in ('MAP', 'AUTHOR', 'ORIGIN', 'COMMENT', 'XCOMMENT', 'BODY', 'IMAGE', 'FLAT_FIELD', 'PLANE'):
                for bad in ('', ' ?', ' bogus', ' 1 2', ' %s %s' % (v.strip(), v.strip().lstrip('-')), ' -', ' (', ' %s)' % v):
                    go('%s with line %d as (%s:%s)' % (bn, i + 1, k, bad), b[:i] + [k + ':' + bad] + b[i+1:], want=False)
            # things that change nothing
            for same in ('  ' + b[i], b[i].replace(':', ' : ', 1), b[i] + '   # comment', b[i].replace(': ', ':\t'), '# comment\n\n' + b[i] + '\n\n', k.lower() + b[i][len(k):]):
                go('%s with line %d as %r' % (bn, i + 1, same), b[:i] + [same] + b[i+1:], want=True)

# ---------------------------------------------------------------- optional entries
def combos(eng):
    opt_lines = {bn: [i for i, l in enumerate(b) if accepted(b[:i] + b[i+1:]) is True] for bn, b in BASES.items()}
    for bn, b in BASES.items():
        o = opt_lines[bn]
        r = range(1, 4 if eng.thorough else 3)
        for k in r:
            for d in itertools.combinations(o, k):
                l = [x for i, x in enumerate(b) if i not in d]
                if accepted(l) is True: eng.case('%s without %s' % (bn, ', '.join(b[i] for i in d)), lambda c, l=l, d=d, bn=bn, b=b: run(c, '\n'.join(l) + '\n', True, '%s without %s' % (bn, [b[i] for i in d])))
        eng.case('%s, mandatory entries' % bn, lambda c, b=b, o=o: run(c, '\n'.join(x for i, x in enumerate(b) if i not in o) + '\n', accepted([x for i, x in enumerate(b) if i not in o]), 'mandatory entries only'))

# ---------------------------------------------------------------- values
NAN = ['sqrt(0-1)', 'ln(0-1)', 'acos(2)']
INF = ['exp(1000)', '10^400', '-exp(1000)', '-10^400', '1e999']
LATS = [('90', 1), ('-90', 1), ('0', 1), ('90.0001', 0), ('-90.0001', 0), ('91', 0), ('1e9', 0), ('90 N', 1), ('90 S', 1), ('0 S', 1), ('-1 N', 0), ('-1 S', 0), ('91 N', 0), ('91 S', 0), ('45 C', 1), ('45 G', 1), ('45 N C', 1), ('45 S G', 1), ('45 G S', 0), ('45 C N', 0), ('45 E', 0), ('45 X', 0), ('45 N S', 0), ('91 G', 0), ('91 S C', 0), ('30+60', 1), ('30+61', 0)]
LONS = [('360', 1), ('-360', 1), ('0', 1), ('360.001', 0), ('-360.001', 0), ('361', 0), ('180 E', 1), ('180 W', 1), ('361 E', 0), ('361 W', 0), ('-361 W', 0), ('-20 E', 1), ('45 N', 0), ('45 G', 0), ('45 E W', 0), ('2*180', 1), ('2*181', 0)]
INTS = [('1.5', 0), ('1e1', 0), ('2.', 0), ('x', 0), ('99999999999999999999', 0), ('-99999999999999999999', 0)]
POS = [('1', 1), ('0', 0), ('-1', 0), ('0.0', 0), ('-0.5', 0)]
YN = [('YES', 1), ('NO', 1), ('yes', 1), ('MAYBE', 0), ('1', 0), ('', 0)]
VALUES = {
    'EQ_RAD': ('photo', [('900', 1), ('899', 0), ('0', 0), ('-1000', 0), ('-1', 0), ('1e6', 1), ('900.0000001', 1), ('899.99999', 0)]),
    'POL_RAD': ('photo', [('1000', 1), ('1000.001', 0), ('0', 0), ('-900', 0), ('-1', 0)]),
    'FLATTENING': ('ortho', [('0', 1), ('0.5', 1), ('1', 0), ('1.5', 0), ('-0.1', 0), ('-1', 0), ('0.05', 1)]),
    'ROTATION': ('photo', [('PROGRADE', 1), ('RETROGRADE', 1), ('prograde', 1), ('UP', 0), ('1', 0)]),
    'DATA_SCALE': ('photo', [('1', 1), ('-2', 1), ('0.5', 1), ('1e-3', 1)]),
    'DATA_OFFSET': ('photo', [('0', 1), ('-2', 1), ('1e3', 1)]),
    'DATA_TYPE': ('photo', [('BYTE', None), ('SHORT', 1), ('LONG', 1), ('LONGLONG', 1), ('FLOAT', 0), ('DOUBLE', 0), ('INT', 0), ('16', 0), ('short', 1)]),
    'DATA_BLANK': ('photo', [('32767', 1), ('-32768', 1), ('32768', 0), ('-32769', 0), ('0', 1), ('+5', 1)] + INTS),
    'GRID': ('photo', YN),
    'LAT_GRID_INTERVAL': ('photo', POS), 'LON_GRID_INTERVAL': ('photo', POS),
    'AVERAGING': ('photo', [('NONE', 1), ('WEIGHTED', 1), ('UNWEIGHTED', 1), ('SOME', 0), ('', 0), ('YES', 0)]),
    'LATITUDE_TYPE': ('photo', [('CENTRIC', 1), ('GRAPHIC', 1), ('C', 0), ('NORTH', 0)]),
    'LO_LAT': ('photo', [(v, 0 if v in ('90', '90 N', '30+60') else w) for v, w in LATS] + [('69.999', 1), ('70', 0), ('71', 0)]), 'HI_LAT': ('photo', [(v, 0 if v in ('-90', '90 S') else w) for v, w in LATS] + [('-59.99', 1), ('-60', 0), ('-61', 0)]),
    'LO_LON': ('photo', LONS), 'HI_LON': ('photo', LONS),
    'SAMPLES': ('photo', [('1', 1), ('0', 0), ('-1', 0), ('+3', 1)] + INTS), 'LINES': ('photo', [('1', 1), ('0', 0), ('-1', 0), ('+3', 1)] + INTS),
    'PLANES': ('ortho', [('5', 1), ('4', 0), ('6', 0), ('0', 0), ('-5', 0)] + INTS),
    'PLANE': ('ortho', [('1', 1), ('', 0), ('2', 0), ('0', 0), ('-1', 0), ('6', 0)] + INTS),
    'DATA_MIN': ('photo', [('89.9', 1), ('90', 0), ('91', 0), ('-1e9', 1)]), 'DATA_MAX': ('photo', [('1.1', 1), ('1', 0), ('0', 0), ('1e9', 1)]),
    'NIBBLE_LEFT': ('photo', [('0', 1), ('5', 1), ('-1', 0)] + INTS), 'NIBBLE_RIGHT': ('photo', [('0', 1), ('-1', 0)] + INTS), 'NIBBLE_TOP': ('photo', [('0', 1), ('-1', 0)] + INTS), 'NIBBLE_BOTTOM': ('photo', [('0', 1), ('-1', 0)] + INTS), 'NIBBLE': ('two', [('0', 1), ('-1', 0)] + INTS),
    'INVERT': ('photo', [('HORIZONTAL', 1), ('VERTICAL', 1), ('BOTH', 1), ('NONE', 0), ('YES', 0)]), 'INTERPOLATE': ('photo', YN), 'REMOVE_SKY': ('photo', YN), 'GEOM_CORRECT': ('photo', [('NO', 1), ('SOMETIMES', 0)]), 'TERMINATOR': ('photo', YN),
    'EMI_ANG_LIMIT': ('photo', [('89.9', 1), ('1', 1), ('90.001', 0), ('-90.1', 0), ('91', 0), ('1e5', 0)]),
    # over a pole the position angle follows from the position of the centre, so that the given one may contradict it
    'SUB_OBSERV_LAT': ('photo', [(v, None if w and v in ('90', '-90', '90 N', '90 S', '30+60') else w) for v, w in LATS]), 'SUB_OBSERV_LON': ('photo', LONS), 'SUB_SOLAR_LAT': ('photo', LATS), 'SUB_SOLAR_LON': ('photo', LONS),
    'POSITION_ANGLE': ('photo', [('360', 1), ('-360', 1), ('360.1', 0), ('-360.1', 0), ('30 CW', 1), ('30 CCW', 1), ('361 CW', 0), ('361 CCW', 0), ('30 CW CCW', 0), ('30 N', 0)]),
    'RANGE': ('photo', [('901', None), ('900', 0), ('500', 0), ('0', 0), ('-1', 0), ('-5000', 0), ('5000 KM', 1), ('1 AU', 1), ('1 LY', 0), ('5000 KM AU', 0), ('0 AU', 0), ('-1 AU', 0)]),
    'KM_PER_PIXEL': ('photo', POS), 'FOCAL_LENGTH': ('two', [('3', 1), ('0', 0), ('-1', 0), ('-2.5', 0)]), 'PIXEL_SCALE': ('two', [('30', 1), ('0', 0), ('-1', 0), ('-20', 0)]),
    'POLE': ('two', [('N', None), ('S', 1), ('E', 0), ('1', 0)]), 'MAX_LAT': ('two', [('-89.9', 1), ('0', 1), ('-90', 0), ('90 S', 0), ('91 S', 0), ('-91', 0), ('30 S', 1)]),
    'LAT_AT_CENTER': ('two', [(v, None if w else 0) for v, w in LATS]), 'LON_AT_CENTER': ('two', [(v, None if w else 0) for v, w in LONS]),
}
EXTRA = [  # (base, key, occurrence, value, want)
    ('ortho', 'RANGE', 0, '-5000', 0), ('ortho', 'RANGE', 0, '0', 0), ('ortho', 'RANGE', 1, '-5000', 0), ('ortho', 'RANGE', 1, '0', 0), ('ortho', 'KM_PER_PIXEL', 0, '-1', 0), ('ortho', 'KM_PER_PIXEL', 0, '0', 0),
    ('ortho', 'POSITION_ANGLE', 0, '361', 0), ('ortho', 'SUB_OBSERV_LAT', 1, '91', 0), ('ortho', 'SUB_SOLAR_LON', 0, '361', 0), ('ortho', 'SUB_OBSERV_LAT', 2, '-91', 0), ('ortho', 'LAT_AT_CENTER', 0, '91', 0),
    ('ortho', 'LON_AT_CENTER', 0, '-361', 0), ('ortho', 'LON_AT_CENTER', 0, '200', 0), ('ortho', 'LAT_AT_CENTER', 0, '-75', 0), ('two', 'EQ_RAD', 0, '899', 0), ('two', 'EQ_RAD', 0, '-900', 0),
]
REAL = ['EQ_RAD', 'POL_RAD', 'DATA_OFFSET', 'DATA_SCALE', 'LAT_GRID_INTERVAL', 'LON_GRID_INTERVAL', 'LO_LAT', 'HI_LAT', 'LO_LON', 'HI_LON', 'DATA_MIN', 'DATA_MAX', 'SAMPLE_CENTER', 'LINE_CENTER', 'SAMPLE_OA', 'LINE_OA', 'EMI_ANG_LIMIT',
        'SUB_OBSERV_LAT', 'SUB_OBSERV_LON', 'POSITION_ANGLE', 'SUB_SOLAR_LAT', 'SUB_SOLAR_LON', 'RANGE', 'KM_PER_PIXEL']

def subst(b, key, val, occ=0):
    out, n = [], 0
    for l in b:
        if l.partition(':')[0] == key:
            if n == occ: l = '%s: %s' % (key, val) if val != '' else key + ':'
            n += 1
        out.append(l)
    if n <= occ: raise RuntimeError('no %s' % key)
    return out

def values(eng):
    def go(bn, key, val, want, occ=0):
        who = '%s with %s: %s%s' % (bn, key, val, ' (entry %d)' % (occ + 1) if occ else '')
        t = '\n'.join(subst(BASES[bn], key, val, occ)) + '\n'
        eng.case(who, lambda c: run(c, t, None if want is None else bool(want), who))
    for key, (bn, vals) in VALUES.items():
        for v, w in vals: go(bn, key, v, w)
    for bn, key, occ, v, w in EXTRA: go(bn, key, v, w, occ)
    for key in REAL:
        for v in NAN + INF + ['1/0', '1/(2-2)', 'nope', '2 +', 'sqrt 4', 'sqrt()', '"5"', '5,0', '--', '5..0', '0x10z']: go('photo', key, v, 0)
    for key in ('FLATTENING',):
        for v in NAN + INF: go('ortho', key, v, 0)
    for key in ('FOCAL_LENGTH', 'PIXEL_SCALE', 'MAX_LAT', 'LAT_AT_CENTER', 'LON_AT_CENTER', 'RANGE'):
        for v in NAN + INF: go('two', key, v, 0)
    for key, n in (('RANGE', 2), ('SUB_OBSERV_LAT', 3), ('SUB_OBSERV_LON', 3), ('SUB_SOLAR_LAT', 2), ('SUB_SOLAR_LON', 2)):
        for occ in range(n):
            for v in NAN + INF: go('ortho', key, v, 0, occ)

# ---------------------------------------------------------------- meaning of units, radii, projections
def latlon(S, L, proj='SIMPLE_C', options=None, rotation='PROGRADE', radii=(('EQ_RAD', 1000), ('POL_RAD', 900)), planes=('LATITUDE:', 'LONGITUDE'), samples=12, lines=8):
    return entry('m.fits', proj=proj, options=options, rotation=rotation, radii=radii, dtype='DOUBLE', samples=samples, lines=lines, planes=planes)

def units(eng):
    A, C = 1000.0, 900.0
    lat_forms = [('-30', -30.0), ('30 S', -30.0), ('30 N', 30.0), ('30', 30.0), ('30 N C', 30.0), ('30 S C', -30.0), ('30 C', 30.0), ('-30 C', -30.0), ('30 G', 'g30'), ('-30 G', 'g-30'), ('30 N G', 'g30'), ('30 S G', 'g-30'), ('0 N', 0.0), ('90 S', -90.0), ('90 N', 90.0), ('90 G', 90.0)]
    lon_forms = [('40', 40, 40), ('-40', 320, 320), ('40 E', 320, 40), ('40 W', 40, 320), ('-40 E', 40, 320), ('-40 W', 320, 40), ('360', 0, 0), ('0', 0, 0), ('359 E', 1, 359), ('200 W', 200, 160)]
    for rot in ('PROGRADE', 'RETROGRADE'):
        sp = Spheroid(rot == 'PROGRADE', A, C)
        def val(x): return math.degrees(sp.centric(math.radians(float(x[1:])))) if isinstance(x, str) else x
        def simple(label, opts, la, lo, graphic=False, sp=sp, rot=rot):
            def fn(c):
                c.write('in', latlon(12, 8, options=opts, rotation=rot))
                r = c.marc('in')
                if not c.check(r.rc == 0, 'refused', lambda: '%s: %r' % (label, r)): return
                h = c.fits('m.fits')[0]; n = 96
                for q, (a, g) in enumerate(simple_c_pixels(sp, 12, 8, la, lo, graphic)):
                    a, g = math.degrees(a), math.degrees(g)
                    va, vg = h.pix[q], h.pix[n + q]
                    if not c.check(abs(va - a) < 1e-7, 'latitude', lambda: '%s: pixel (%d,%d) has latitude %s, expected %s' % (label, q % 12, q // 12, va, a)): return
                    if not c.check(abs((vg - g + 180) % 360 - 180) < 1e-7, 'longitude', lambda: '%s: pixel (%d,%d) has longitude %s, expected %s' % (label, q % 12, q // 12, vg, g)): return
                c.state(label); c.steps(1)
            eng.case(label, fn)
        for (t1, v1), (t2, v2) in itertools.product(lat_forms, repeat=2):
            a, b = val(v1), val(v2)
            if not a < b or b - a < 1e-9: continue
            for order in (0, 1):
                o = ['LO_LAT: ' + t1, 'HI_LAT: ' + t2]
                for gr in (None, 'GRAPHIC', 'CENTRIC') if eng.thorough or t1 == '-30' else (None,):
                    simple('%s LO_LAT: %s HI_LAT: %s %s %d' % (rot, t1, t2, gr, order), (['LATITUDE_TYPE: ' + gr] if gr else []) + (o[::-1] if order else o), (a, b), (0, 360), gr == 'GRAPHIC')
        for (t1, p1, r1), (t2, p2, r2) in itertools.product(lon_forms, repeat=2):
            a, b = (p1, p2) if rot == 'PROGRADE' else (r1, r2)
            if a == b or {a, b} & {0}: continue
            o = ['LO_LON: ' + t1, 'HI_LON: ' + t2]
            for order in (0, 1): simple('%s LO_LON: %s HI_LON: %s %d' % (rot, t1, t2, order), o[::-1] if order else o, (-90, 90), (a, b))

    def same(label, texts):
        """All texts make the same map."""
        def fn(c):
            setup(c); first = None
            for t in texts:
                c.write('in', t)
                r = c.marc('in')
                if not c.check(r.rc == 0, 'refused', lambda: '%s: %r' % (label, r)): return
                h = c.fits('m.fits')
                # options do not appear in the header; values may differ by rounding
                v = [(x.axes, x.h['BITPIX'], x.pix) for x in h]
                if first is None: first = v
                else:
                    ok = len(v) == len(first) and all(a[:2] == b[:2] and all((x != x) == (y != y) and (x != x or math.isclose(x, y, rel_tol=1e-9, abs_tol=1e-9)) for x, y in zip(a[2], b[2])) for a, b in zip(v, first))
                    if not c.check(ok, 'unit', lambda: '%s: maps differ' % label): return
            c.state(label); c.steps(1)
        eng.case(label, fn)
    G30 = {rot: math.degrees(Spheroid(rot == 'PROGRADE', A, C).centric(math.radians(30))) for rot in ('PROGRADE', 'RETROGRADE')}
    for rot in ('PROGRADE', 'RETROGRADE'):
        pro = rot == 'PROGRADE'
        g = repr(G30[rot])
        latset = [('30 N', '30'), ('30 S', '-30'), ('30 S C', '-30'), ('30 G', g), ('30 S G', '-' + g)]
        lonset = [('40 E', '320' if pro else '40'), ('40 W', '40' if pro else '320'), ('-40', '320'), ('-320', '40'), ('360', '0')]
        paset = [('30 CW', '330'), ('30 CCW', '30'), ('-30', '330'), ('-30 CW', '30'), ('360', '0')]
        def P2(**k): return latlon(12, 8, rotation=rot, planes=[photo(**dict(dict(sublat=10, sublon=170, sslon=120, term='YES'), **k))])
        for a, b in latset:
            same('%s photo SUB_OBSERV_LAT %s = %s' % (rot, a, b), [P2(sublat=a), P2(sublat=b)])
            same('%s photo SUB_SOLAR_LAT %s = %s' % (rot, a, b), [P2(sslat=a), P2(sslat=b)])
            same('%s photo LAT_AT_CENTER %s = %s' % (rot, a, b), [P2(center=(('LAT_AT_CENTER', x), ('LON_AT_CENTER', 160))) for x in (a, b)])
            same('%s ORTHO SUB_OBSERV_LAT %s = %s' % (rot, a, b), [latlon(12, 8, 'ORTHO', ['SUB_OBSERV_LAT: ' + x, 'SUB_OBSERV_LON: 20'], rot) for x in (a, b)])
            same('%s ORTHO LAT_AT_CENTER %s = %s' % (rot, a, b), [latlon(12, 8, 'ORTHO', ['LAT_AT_CENTER: ' + x, 'LON_AT_CENTER: 20'], rot) for x in (a, b)])
            for v in ('MU: SUB_OBSERV_LAT: %s\nSUB_OBSERV_LON: 30\nRANGE: 4000', 'MU0: SUB_SOLAR_LAT: %s\nSUB_SOLAR_LON: 30', 'PHASE: SUB_OBSERV_LAT: %s\nSUB_OBSERV_LON: 30\nRANGE: 4000\nSUB_SOLAR_LAT: 1\nSUB_SOLAR_LON: 3'):
                same('%s %s %s = %s' % (rot, v[:4], a, b), [latlon(12, 8, rotation=rot, planes=[v % x]) for x in (a, b)])
        for a, b in (('30 S', '-30'), ('30 S C', '-30'), ('30 S G', '-' + g)):
            same('%s P_STEREO MAX_LAT %s = %s' % (rot, a, b), [latlon(12, 8, 'P_STEREO', ['POLE: S', 'MAX_LAT: ' + x], rot) for x in (a, b)])
        for a, b in lonset:
            same('%s photo SUB_OBSERV_LON %s = %s' % (rot, a, b), [P2(sublon=a), P2(sublon=b)])
            same('%s photo SUB_SOLAR_LON %s = %s' % (rot, a, b), [P2(sslon=a, sublon=30), P2(sslon=b, sublon=30)])
            same('%s photo LON_AT_CENTER %s = %s' % (rot, a, b), [P2(sublon=b, center=(('LAT_AT_CENTER', 5), ('LON_AT_CENTER', x))) for x in (a, b)])
            same('%s ORTHO SUB_OBSERV_LON %s = %s' % (rot, a, b), [latlon(12, 8, 'ORTHO', ['SUB_OBSERV_LAT: 5', 'SUB_OBSERV_LON: ' + x], rot) for x in (a, b)])
            for v in ('MU: SUB_OBSERV_LAT: 9\nSUB_OBSERV_LON: %s\nRANGE: 4000', 'MU0: SUB_SOLAR_LAT: 9\nSUB_SOLAR_LON: %s', 'PHASE: SUB_OBSERV_LAT: 8\nSUB_OBSERV_LON: 30\nRANGE: 4000\nSUB_SOLAR_LAT: 1\nSUB_SOLAR_LON: %s'):
                same('%s %s %s = %s' % (rot, v[:4], a, b), [latlon(12, 8, rotation=rot, planes=[v % x]) for x in (a, b)])
        for a, b in paset:
            same('%s photo POSITION_ANGLE %s = %s' % (rot, a, b), [P2(pa=a), P2(pa=b)])
            same('%s ORTHO POSITION_ANGLE %s = %s' % (rot, a, b), [latlon(12, 8, 'ORTHO', ['POSITION_ANGLE: ' + x], rot) for x in (a, b)])
        au = repr(0.0001 * AU_KM)
        same('%s RANGE units' % rot, [P2(range=x) for x in ('5000', '5000 KM', '5e3 km')])
        same('%s RANGE AU' % rot, [P2(range=x) for x in (au, '0.0001 AU')])
        for v in ('MU: SUB_OBSERV_LAT: 9\nSUB_OBSERV_LON: 4\nRANGE: %s', 'PHASE: SUB_OBSERV_LAT: 8\nSUB_OBSERV_LON: 30\nRANGE: %s\nSUB_SOLAR_LAT: 1\nSUB_SOLAR_LON: 3'):
            same('%s %s RANGE AU' % (rot, v[:5]), [latlon(12, 8, rotation=rot, planes=[v % x]) for x in (au, '0.0001 AU', au + ' KM')])
        # two of the three figure parameters determine the third
        for a, c_ in ((1000, 900), (1000, 1000), (500, 250), (71492, 66854)):
            f = repr(1 - c_ / a)
            E, Po, F = ('EQ_RAD', a), ('POL_RAD', c_), ('FLATTENING', f)
            for proj, opts in (('SIMPLE_C', ['LATITUDE_TYPE: GRAPHIC']), ('MERCATOR', None), ('ORTHO', ['SUB_OBSERV_LAT: 40', 'SUB_OBSERV_LON: 5']), ('P_STEREO', ['POLE: N', 'MAX_LAT: 20'])):
                same('%s %s radii %s %s' % (rot, proj, a, c_), [latlon(12, 8, proj, opts, rot, radii=r, planes=('LATITUDE:', 'LONGITUDE', 'LATITUDE: GRAPHIC'), samples=20, lines=20) for r in itertools.permutations((E, Po, F), 2)])

# ---------------------------------------------------------------- sizes beyond what can be counted
def sizes(eng):
    N = [1, 3, 2**15, 2**16, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 3 * 10**9, 2**40, 2**61, 2**62, 2**63 - 1, 2**63, 2**64, 2**64 + 1]
    for s, l, dt, grid in itertools.product(N, N, ('SHORT', 'DOUBLE'), (0, 1)):
        if s * l < 2**61: continue       # merely too much for this machine
        if not eng.thorough and (grid or dt == 'DOUBLE') and N.index(s) % 3: continue
        who = 'a map of %d x %d %s%s' % (s, l, dt, ' with grid' if grid else '')
        t = entry('m.fits', dtype=dt, samples=s, lines=l, grid=['GRID: YES'] if grid else None)
        eng.case(who, lambda c, t=t, who=who: run(c, t, False, who, small=True))

def explore(eng):
    sizes(eng)
    structure(eng); combos(eng); values(eng); units(eng)
