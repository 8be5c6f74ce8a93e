"""Building of marc input files, and an independent model of what they mean."""
import math, struct

AU_KM = 149597870.7
D = math.pi / 180

def entry(file='m.fits', author=None, origin=None, comments=(), xcomments=(), body='Mars',
          radii=(('EQ_RAD', 1000), ('POL_RAD', 900)), rotation='PROGRADE', offset=None, scale=None, dtype=None, blank=None,
          grid=None, proj='SIMPLE_C', options=None, nplanes=None, samples=6, lines=4, planes=('LATITUDE:',)):
    """Text of one map entry. grid: list of lines; options: list of lines or None; planes: list of plane texts."""
    t = ['MAP: ' + file]
    if author is not None: t.append('AUTHOR: ' + author)
    if origin is not None: t.append('ORIGIN: ' + origin)
    t += ['COMMENT: ' + c for c in comments] + ['XCOMMENT: ' + c for c in xcomments]
    t.append('BODY: ' + body)
    t += ['%s: %s' % r for r in radii]
    t.append('ROTATION: ' + rotation)
    if offset is not None: t.append('DATA_OFFSET: %s' % offset)
    if scale is not None: t.append('DATA_SCALE: %s' % scale)
    if dtype is not None: t.append('DATA_TYPE: ' + dtype)
    if blank is not None: t.append('DATA_BLANK: %s' % blank)
    if grid is not None: t += grid
    t.append('TYPE: ' + proj)
    if options is not None: t += ['OPTIONS:'] + list(options)
    if nplanes is not None: t.append('PLANES: %s' % nplanes)
    t += ['SAMPLES: %s' % samples, 'LINES: %s' % lines]
    for i, p in enumerate(planes):
        t.append(('PLANE: %d' % (i + 1) if nplanes is not None else 'PLANE:'))
        t.append(p)
    return '\n'.join(t) + '\n'

def photo(file='p.fits', nibble=(), invert=None, interpolate=None, remove_sky=None, center=(('SAMPLE_CENTER', 10), ('LINE_CENTER', 8)),
          oa=None, flat=None, geom=None, emi=None, term=None, sublat=10, sublon=40, pa=0, sslat=0, sslon=40, range='5000', scale=('KM_PER_PIXEL: 120',)):
    t = ['IMAGE: ' + file] + list(nibble)
    if invert: t.append('INVERT: ' + invert)
    if interpolate: t.append('INTERPOLATE: ' + interpolate)
    if remove_sky: t.append('REMOVE_SKY: ' + remove_sky)
    t += ['%s: %s' % c for c in center]
    if oa: t += ['SAMPLE_OA: %s' % oa[0], 'LINE_OA: %s' % oa[1]]
    if flat: t.append('FLAT_FIELD: ' + flat)
    if geom: t.append('GEOM_CORRECT: ' + geom)
    if emi is not None: t.append('EMI_ANG_LIMIT: %s' % emi)
    if term: t.append('TERMINATOR: ' + term)
    t += ['SUB_OBSERV_LAT: %s' % sublat, 'SUB_OBSERV_LON: %s' % sublon, 'POSITION_ANGLE: %s' % pa,
          'SUB_SOLAR_LAT: %s' % sslat, 'SUB_SOLAR_LON: %s' % sslon, 'RANGE: %s' % range]
    t += list(scale)
    return '\n'.join(t)

# ---------------------------------------------------------------- reference geometry
def dot(a, b): return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]
def cross(a, b): return (a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0])
def mul(s, a): return (s*a[0], s*a[1], s*a[2])
def add(a, b): return (a[0]+b[0], a[1]+b[1], a[2]+b[2])
def sub(a, b): return (a[0]-b[0], a[1]-b[1], a[2]-b[2])
def unit(a): return mul(1 / math.sqrt(dot(a, a)), a)

class Spheroid:
    def __init__(self, prograde, a, c): self.prograde, self.a, self.c = prograde, a, c
    def dir(self, lat, lon):
        e = -lon if self.prograde else lon
        return (math.cos(lat)*math.cos(e), math.cos(lat)*math.sin(e), math.sin(lat))
    def point(self, lat, lon):
        r = 1 / math.hypot(math.cos(lat)/self.a, math.sin(lat)/self.c)
        return mul(r, self.dir(lat, lon))
    def normal(self, p): return unit((p[0]/self.a**2, p[1]/self.a**2, p[2]/self.c**2))
    def graphic(self, lat): return math.atan2(self.a**2*math.sin(lat), self.c**2*math.cos(lat))
    def centric(self, lat): return math.atan2(self.c**2*math.sin(lat), self.a**2*math.cos(lat))

class Camera:
    """Pinhole camera with the body centre at (cs, cl) of the image and the axis at (oas, oal)."""
    def __init__(self, sp, sublat, sublon, rng, pa, kmp, cs, cl, oas, oal):
        self.sp, self.oas, self.oal = sp, oas, oal
        o = sp.dir(sublat*D, sublon*D)
        self.pos = mul(rng, o)
        PA = pa*D
        dx, dz = cs - oas, oal - cl
        d = math.hypot(dx, dz)
        self.f = math.sqrt((rng/kmp - d)*(rng/kmp + d))
        w = unit((dx, self.f, dz))
        A = -math.sin(PA)*w[0] + math.cos(PA)*w[2]
        h = math.hypot(A, w[1])
        al, be = math.atan2(w[1], A), math.acos(-math.sin(sublat*D)/h)
        th = al + be if math.cos(al + be) > 1e-9 else al - be
        nc = (-math.sin(PA)*math.cos(th), math.sin(th), math.cos(PA)*math.cos(th))
        c1, c2 = unit(w), unit(cross(w, nc)); c3 = cross(c1, c2)
        b1, b2 = unit(mul(-1, o)), unit(cross(mul(-1, o), (0, 0, 1))); b3 = cross(b1, b2)
        tb = lambda e: add(add(mul(dot(e, c1), b1), mul(dot(e, c2), b2)), mul(dot(e, c3), b3))
        self.right, self.fwd, self.up = tb((1, 0, 0)), tb((0, 1, 0)), tb((0, 0, 1))
    def project(self, lat, lon):
        d = sub(self.sp.point(lat, lon), self.pos)
        y = dot(d, self.fwd)
        return self.oas + dot(d, self.right)/y*self.f, self.oal - dot(d, self.up)/y*self.f
    def mu(self, lat, lon):
        p = self.sp.point(lat, lon)
        return dot(self.sp.normal(p), unit(sub(self.pos, p)))

def simple_c_pixels(sp, S, L, la=(-90, 90), lo=(0, 360), graphic=False):
    """[(lat, lon)] in radians for each pixel of a Simple Cylindrical map."""
    l0, l1 = la[0]*D, la[1]*D
    if graphic: l0, l1 = sp.graphic(l0), sp.graphic(l1)
    g0, g1 = lo
    if g0 > g1: g0 -= 360
    elif g0 == g1: g1 += 360
    out = []
    for k in range(L):
        lat = l0 + (k + 0.5)*(l1 - l0)/L
        if graphic: lat = sp.centric(lat)
        for i in range(S):
            lon = (g1 - (i + 0.5)*(g1 - g0)/S if sp.prograde else g0 + (i + 0.5)*(g1 - g0)/S)*D
            out.append((lat, lon))
    return out

def photo_lookup(cam, pix, shape, nib, latlon, emi=90.0, term=None):
    """For each (lat, lon): index of the image pixel it reads, None (no data) or '?' (too close to call).
    nib: (left, right, top, bottom); term: sun direction or None; pix: value list (NaN: undefined)."""
    S, L = shape
    cl = math.cos(emi*D)
    out = []
    for lat, lon in latlon:
        m = cam.mu(lat, lon)
        if abs(m - cl) < 1e-7: out.append('?'); continue
        if m < cl: out.append(None); continue
        if term is not None:
            s = dot(cam.sp.normal(cam.sp.point(lat, lon)), term)
            if abs(s) < 1e-7: out.append('?'); continue
            if s < 0: out.append(None); continue
        x, z = cam.project(lat, lon)
        fx, fz = x - math.floor(x), z - math.floor(z)
        # images are indexed by the whole part of the coordinates
        if min(fx, 1 - fx, fz, 1 - fz) < 1e-6: out.append('?'); continue
        i, k = math.floor(x), math.floor(z)
        if i < nib[0] or i >= S - nib[1] or k < nib[2] or k >= L - nib[3]: out.append(None); continue
        out.append(k*S + i)
    return out
