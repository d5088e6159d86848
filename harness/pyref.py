# Reference geometry for the Python harnesses: vectors as tuples, distances, measures; independent of the code under test.
import math, itertools
from math import pi, sqrt, sin, cos
def add(a, b): return tuple(x + y for x, y in zip(a, b))
def sub(a, b): return tuple(x - y for x, y in zip(a, b))
def mul(a, f): return tuple(x * f for x in a)
def dot(a, b): return math.fsum(x * y for x, y in zip(a, b))
def cross(a, b): return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
def length(a): return sqrt(dot(a, a))
def unit(a): return mul(a, 1 / length(a))
def dist(a, b): return length(sub(a, b))
def lerp(a, b, t): return tuple(x + (y - x) * t for x, y in zip(a, b))
def ternary(f, lo, hi, n=70):
    """minimum of a convex function (golden section)"""
    g = (sqrt(5) - 1) / 2; c = hi - g * (hi - lo); d = lo + g * (hi - lo); fc, fd = f(c), f(d)
    for _ in range(n):
        if fc < fd: hi, d, fd = d, c, fc; c = hi - g * (hi - lo); fc = f(c)
        else: lo, c, fc = c, d, fd; d = lo + g * (hi - lo); fd = f(d)
    return min(fc, fd, f(lo), f(hi))
t3 = 1 / 3.0; s7 = 1 / 7.0
ROT = [("I", (1, 0, 0), (0, 1, 0), (0, 0, 1)), ("L", (0, 1, 0), (0, 0, 1), (1, 0, 0)), ("F", (1, 0, 0), (0, -1, 0), (0, 0, -1)), ("O122", (2 * t3, 2 * t3, -t3), (-t3, 2 * t3, 2 * t3), (2 * t3, -t3, 2 * t3)), ("O345", (.8, 0, -.6), (0, 1, 0), (.6, 0, .8)), ("O236", (2 * s7, 3 * s7, 6 * s7), (6 * s7, 2 * s7, -3 * s7), (-3 * s7, 6 * s7, -2 * s7))]
class Pose:
    def __init__(self, rot, tr, sc): self.n, self.x, self.y, self.z = rot; self.t, self.s = tr, sc; self.name = "%s+%s*%g" % (self.n, tr, sc)
    def v(self, a): return mul(add(add(mul(self.x, a[0]), mul(self.y, a[1])), mul(self.z, a[2])), self.s)
    def d(self, a): return add(add(mul(self.x, a[0]), mul(self.y, a[1])), mul(self.z, a[2]))
    def p(self, a): return add(self.v(a), mul(self.t, self.s))
def poses(rots, trs, scs): return [Pose(r, t, s) for r in ROT if r[0] in rots for t in trs for s in scs]
def segDist(p, a, b):
    e = sub(b, a); l = dot(e, e); t = 0 if l == 0 else min(1, max(0, dot(sub(p, a), e) / l)); return dist(p, add(a, mul(e, t)))
class R:
    """reference geometry: point distance d, boundary distance b, measure m, extreme points for the bounding box, convex parametrisation par(u, v), u, v in [0,1]"""
    par = None; kind = "?"
    def inside(self, p): return self.d(p) == 0
class RPoint(R):
    kind = "point"; dim = 0
    def __init__(self, a): self.a = a; self.m = 0
    def d(self, p): return dist(self.a, p)
    def par(self, u, v): return self.a
    def bb(self): return self.a, self.a
class RSegment(R):
    kind = "segment"; dim = 1
    def __init__(self, a, b): self.a, self.e = a, b; self.m = dist(a, b)
    def d(self, p): return segDist(p, self.a, self.e)
    def par(self, u, v): return lerp(self.a, self.e, u)
    def bb(self): return tuple(map(min, self.a, self.e)), tuple(map(max, self.a, self.e))
class RPolygon(R):
    kind = "polygon"; dim = 2
    def __init__(self, ring, kind="polygon"):
        self.r = ring; self.kind = kind; n = (0, 0, 0)
        for i in range(1, len(ring) - 1): n = add(n, mul(cross(sub(ring[i], ring[0]), sub(ring[i + 1], ring[0])), .5))
        self.m = length(n); self.n = unit(n); self.edges = [(ring[i], ring[(i + 1) % len(ring)]) for i in range(len(ring))]
        self.center = None
    def inplane(self, p): # winding, p projected; ring simple
        q = sub(p, mul(self.n, dot(sub(p, self.r[0]), self.n))); w = 0
        for a, b in self.edges: x, y = sub(a, q), sub(b, q); w += math.atan2(dot(cross(x, y), self.n), dot(x, y))
        return abs(w) > pi
    def b(self, p): return min(segDist(p, a, e) for a, e in self.edges)
    def d(self, p): return abs(dot(sub(p, self.r[0]), self.n)) if self.inplane(p) else self.b(p)
    def bb(self): return tuple(min(c[k] for c in self.r) for k in range(3)), tuple(max(c[k] for c in self.r) for k in range(3))
    def par(self, u, v): # triangles and quadrilaterals
        r = self.r
        if len(r) == 3: return lerp(r[0], lerp(r[1], r[2], v), u)
        return lerp(lerp(r[0], r[1], u), lerp(r[3], r[2], u), v)
class REllipse(R):
    kind = "ellipse"; dim = 1
    def __init__(self, c, mj, mn, a, b, disk=False, t0=0.0, t1=2 * pi):
        self.c, self.mj, self.mn, self.n, self.a, self.bb_, self.disk, self.t0, self.t1 = c, mj, mn, cross(mj, mn), a, b, disk, t0, t1; self.kind = ("disk" if a == b else "ellipse disk") if disk else "circle" if a == b else "ellipse" if t1 - t0 == 2 * pi else "arc"
        self.dim = 2 if disk else 1
        if disk: self.m = pi * a * b
        elif a == b: self.m = a * (t1 - t0)
        else:
            N = 2000; h = (t1 - t0) / N; f = lambda t: sqrt((a * sin(t)) ** 2 + (b * cos(t)) ** 2); self.m = h / 3 * math.fsum(f(t0 + i * h) * (1 if i in (0, N) else 4 if i % 2 else 2) for i in range(N + 1))
    def at(self, t, f=1.0): return add(self.c, add(mul(self.mj, f * self.a * cos(t)), mul(self.mn, f * self.bb_ * sin(t))))
    def curve(self, p):
        q = sub(p, self.c); x, y, z = dot(q, self.mj), dot(q, self.mn), dot(q, self.n)
        if self.a == self.bb_ and self.t1 - self.t0 == 2 * pi: return math.hypot(math.hypot(x, y) - self.a, z)
        N = 144; f = lambda t: dist(p, self.at(t)); h = (self.t1 - self.t0) / N; v = [f(self.t0 + i * h) for i in range(N + 1)]; best = min(v)
        for i in range(N + 1):
            if v[i] <= v[i - 1] and v[i] <= v[(i + 1) % (N + 1)] and v[i] <= best * 1.05 + 1e-9: best = min(best, ternary(f, max(self.t0, self.t0 + (i - 1) * h), min(self.t1, self.t0 + (i + 1) * h), 50))
        return best
    def b(self, p): return self.curve(p)
    def d(self, p):
        q = sub(p, self.c); x, y, z = dot(q, self.mj), dot(q, self.mn), dot(q, self.n)
        if self.disk and (x / self.a) ** 2 + (y / self.bb_) ** 2 <= 1: return abs(z)
        return self.curve(p)
    def par(self, u, v): # disk only: chords
        x = -1 + 2 * u; w = sqrt(max(0, 1 - x * x)); y = -w + 2 * w * v; return add(self.c, add(mul(self.mj, self.a * x), mul(self.mn, self.bb_ * y)))
    def bb(self):
        if self.t1 - self.t0 == 2 * pi: e = tuple(math.hypot(self.a * self.mj[k], self.bb_ * self.mn[k]) for k in range(3)); return sub(self.c, e), add(self.c, e)
        c = [self.at(self.t0), self.at(self.t1)]
        for k in range(3):
            t = math.atan2(self.bb_ * self.mn[k], self.a * self.mj[k])
            for j in range(-3, 4):
                if self.t0 < t + j * pi < self.t1: c.append(self.at(t + j * pi))
        return tuple(min(x[k] for x in c) for k in range(3)), tuple(max(x[k] for x in c) for k in range(3))
class RBox(R):
    kind = "box"; dim = 3
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi; self.m = (hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2]); self.faces = []
    def facets(self):
        r = []
        for k in range(3):
            for x in (self.lo[k], self.hi[k]):
                i, j = (k + 1) % 3, (k + 2) % 3; q = []
                for s, t in ((0, 0), (1, 0), (1, 1), (0, 1)): c = [0, 0, 0]; c[k] = x; c[i] = (self.lo, self.hi)[s][i]; c[j] = (self.lo, self.hi)[t][j]; q.append(tuple(c))
                r.append(RPolygon(q))
        return r
    def d(self, p): return length(tuple(max(l - x, 0, x - h) for x, l, h in zip(p, self.lo, self.hi)))
    def b(self, p): d = self.d(p); return d if d > 0 else min(min(x - l, h - x) for x, l, h in zip(p, self.lo, self.hi))
    def bb(self): return self.lo, self.hi
class RCylinder(R):
    dim = 3
    def __init__(self, c, ax, r, h, surface=False, r0=0.0): # r0 > 0: hollow
        self.c, self.ax, self.r, self.h, self.surface, self.r0 = c, ax, r, h, surface, r0; self.kind = "cylinder surface" if surface else "hollow cylinder" if r0 else "cylinder"; self.dim = 2 if surface else 3; self.m = 2 * pi * r * h if surface else pi * (r * r - r0 * r0) * h
    def rz(self, p): q = sub(p, self.c); z = dot(q, self.ax); return length(sub(q, mul(self.ax, z))), z
    def d(self, p): r, z = self.rz(p); dz = max(-z, 0, z - self.h); return math.hypot(r - self.r if self.surface else max(r - self.r, 0, self.r0 - r), dz)
    def b(self, p):
        r, z = self.rz(p)
        if self.surface: return min(math.hypot(r - self.r, z), math.hypot(r - self.r, z - self.h))
        d = self.d(p); return d if d > 0 else min(self.r - r, z, self.h - z)
    def bb(self): e = tuple(self.r * sqrt(max(0, 1 - x * x)) for x in self.ax); u = add(self.c, mul(self.ax, self.h)); return sub(tuple(map(min, self.c, u)), e), add(tuple(map(max, self.c, u)), e)
class RSphere(R):
    kind = "sphere"; dim = 3
    def __init__(self, c, r): self.c, self.r = c, r; self.m = 4 / 3.0 * pi * r ** 3
    def d(self, p): return max(0, dist(p, self.c) - self.r)
    def b(self, p): return abs(dist(p, self.c) - self.r)
    def bb(self): return sub(self.c, (self.r,) * 3), add(self.c, (self.r,) * 3)
def convexDist(a, f):
    """least f over the convex reference geometry a, f convex"""
    if a.dim == 0: return f(a.a)
    if a.dim == 1: return ternary(lambda u: f(a.par(u, 0)), 0, 1)
    return ternary(lambda u: ternary(lambda v: f(a.par(u, v)), 0, 1, 30), 0, 1, 30)
def triples(*l): return itertools.product(*l)
