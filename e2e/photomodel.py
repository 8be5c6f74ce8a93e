"""Independent model of a source photo: what a map reads from it at a latitude and longitude."""
import math
from e2e.inputs import *

OA, DIST = 400, 0.00000000658     # Galileo SSI optical axis and distortion

def distort(x, z, S):
    m = 2 if S <= OA else 1
    a, b = x * m - OA, z * m - OA
    q = 1 + DIST * (a * a + b * b)
    return (a * q + OA) / m, (b * q + OA) / m

def undistort(x, z, S):
    m = 2 if S <= OA else 1
    a, b = x * m - OA, z * m - OA
    r = math.hypot(a, b)
    lo, hi = 0.0, r
    for _ in range(80):
        t = (lo + hi) / 2
        if t * (1 + DIST * t * t) > r: hi = t
        else: lo = t
    t = lo / r if r else 1
    return (a * t + OA) / m, (b * t + OA) / m

class AxisCamera(Camera):
    """Pinhole camera whose axis meets the body at a latitude and longitude; f: focal length in pixels or None (from kmp)."""
    def __init__(self, sp, sublat, sublon, rng, pa, kmp, lat0, lon0, oas, oal, f=None):
        self.sp, self.oas, self.oal = sp, oas, oal
        self.pos = mul(rng, sp.dir(sublat * D, sublon * D))
        self.fwd = unit(sub(sp.point(lat0 * D, lon0 * D), self.pos))
        up0 = unit(sub((0, 0, 1), mul(self.fwd[2], self.fwd)))
        right0 = cross(self.fwd, up0)
        if not sp.prograde: pass
        c, s = math.cos(pa * D), math.sin(pa * D)
        self.up = add(mul(c, up0), mul(s, right0))
        self.right = sub(mul(c, right0), mul(s, up0))
        self.f = f if f is not None else -dot(self.fwd, self.pos) / kmp

class LazyMask:
    """Sky mask of a large photo, worked out where it is asked for."""
    def __init__(self, photo): self.p, self.known = photo, {}
    def __getitem__(self, k):
        if k not in self.known: self.known[k] = self.p.on_body(k % self.p.S, k // self.p.S)
        return self.known[k]

class Photo:
    def __init__(self, cam, shape, pix, nib=(0, 0, 0, 0), emi=90.0, sun=None, interp=False, sky=False, gll=False, weigh=True):
        self.cam, self.pix, self.nib, self.emi, self.sun, self.interp, self.gll = cam, pix, nib, emi, sun, interp, gll
        self.S, self.L = shape
        self.weigh = weigh
        self.mask = LazyMask(self) if sky else None

    def on_body(self, x, z):
        """Whether the line of sight of an image position meets the body; None if too close to call."""
        c = self.cam
        if self.gll: x, z = undistort(x, z, self.S)
        d = add(add(mul(x - c.oas, c.right), mul(c.f, c.fwd)), mul(c.oal - z, c.up))
        q = (c.sp.a, c.sp.a, c.sp.c)
        m1 = [d[i] / q[i] for i in range(3)]; m2 = [c.pos[i] / q[i] for i in range(3)]
        A, B, C = dot(m1, m1), 2 * dot(m1, m2), dot(m2, m2) - 1
        disc = 1 - 4 * A * C / (B * B)
        return None if abs(disc) < 1e-7 else disc > 0 and B < 0

    def read(self, lat, lon):
        """None (no data), '?' (too close to call), or (value, weight); weight may be None (too close to call)."""
        c, S, L = self.cam, self.S, self.L
        p = c.sp.point(lat, lon)
        mu, cl = c.mu(lat, lon), math.cos(self.emi * D)
        if abs(mu - cl) < 1e-7: return '?'
        if mu < cl: return None
        if self.sun is not None:
            s = dot(c.sp.normal(p), self.sun)
            if abs(s) < 1e-7: return '?'
            if s < 0: return None
        y = dot(sub(p, c.pos), c.fwd)
        if abs(y) < 1e-6 * c.sp.a: return '?'
        if y < 0: return None             # behind the camera
        x, z = c.project(lat, lon)
        if self.gll: x, z = distort(x, z, S)
        fx, fz = x - math.floor(x), z - math.floor(z)
        if min(fx, 1 - fx, fz, 1 - fz) < 1e-6: return '?'
        i, k = math.floor(x), math.floor(z)
        l, r, t, b = self.nib[0], S - self.nib[1], self.nib[2], L - self.nib[3]
        if i < l or i >= r or k < t or k >= b: return None
        n = k * S + i
        if self.mask:
            if self.mask[n] is None: return '?'
            if not self.mask[n]: return None
        v = self.pix[n]
        if v != v: return None
        if self.interp:
            if i + 1 >= r or k + 1 >= b: return None
            vs = w = 0.0
            for q, u in ((n, (1 - fx) * (1 - fz)), (n + 1, fx * (1 - fz)), (n + S, (1 - fx) * fz), (n + S + 1, fx * fz)):
                if self.pix[q] == self.pix[q]: vs += u * self.pix[q]; w += u
            v = vs / w
        wt = min(i, S - i, k, L - k)
        if self.mask and self.weigh:
            for di, dk in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                a, e, q = i + di, k + dk, 1
                while l <= a < r and t <= e < b:
                    m = self.mask[e * S + a]
                    if m is None: return v, None
                    if not m: wt = min(wt, q); break
                    a += di; e += dk; q += 1
        return v, wt
