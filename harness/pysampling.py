# C20/C21: the Python point and geometry samplers as functions of scripted draws.
import sys, math, random, itertools
import vfpy as vf
from math import pi, sqrt, sin, cos
from frackit.geometry import *
from frackit.sampling import *
import frackit.sampling as S
PROP = sys.argv[sys.argv.index("--prop") + 1]
vf.init()
class Endless(Exception): pass
# ---- small vector algebra (tuples)
def add(a, b): return tuple(x + y for x, y in zip(a, b))
def sub(a, b): return tuple(x - y for x, y in zip(a, b))
def mul(a, f): return tuple(x * f for x in a)
def dot(a, b): return math.fsum(x * y for x, y in zip(a, b))
def cross(a, b): return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
def length(a): return sqrt(dot(a, a))
def unit(a): return mul(a, 1 / length(a))
def rot(v, k, a): return add(add(mul(v, cos(a)), mul(cross(k, v), sin(a))), mul(k, dot(k, v) * (1 - cos(a))))
def xyz(p): return (p.x(), p.y(), p.z())
def P3(v): return Point_3(*map(float, v))
def D3(v): return Direction_3(Vector_3(*map(float, v)))
t = 1 / 3.0; s7 = 1 / 7.0
ROT = [("I", (1, 0, 0), (0, 1, 0), (0, 0, 1)), ("L", (0, 1, 0), (0, 0, 1), (1, 0, 0)), ("F", (1, 0, 0), (0, -1, 0), (0, 0, -1)), ("O122", (2 * t, 2 * t, -t), (-t, 2 * t, 2 * t), (2 * t, -t, 2 * t)), ("O345", (.8, 0, -.6), (0, 1, 0), (.6, 0, .8)), ("O236", (2 * s7, 3 * s7, 6 * s7), (6 * s7, 2 * s7, -3 * s7), (-3 * s7, 6 * s7, -2 * s7))]
class Script:
    """sampler returning its values in turn (the last one is repeated)"""
    def __init__(self, vals, limit=1000): self.v, self.i, self.lim = list(vals), 0, limit
    def __call__(self):
        if self.i > self.lim + len(self.v): raise Endless("more than %d draws" % self.lim)
        r = self.v[min(self.i, len(self.v) - 1)]; self.i += 1; return r
class Creator:
    """sampler creator whose samplers return the scripted fractions of their interval"""
    def __init__(self): self.v, self.i = [0.0], 0
    def set(self, v): self.v, self.i = list(v), 0
    def __call__(self, lo, hi):
        def f():
            x = self.v[self.i % len(self.v)]; self.i += 1
            return lo if x == 0 else hi if x == 1 else lo + (hi - lo) * x
        return f
class UniformRandom:
    """replaces random.uniform/random.random by a script"""
    def __init__(self): self.used = 0; self.v = [0.5]
    def rnd(self): x = self.v[self.used % len(self.v)]; self.used += 1; return x
    def __enter__(self): self.o = (random.random, random.uniform); random.random = self.rnd; random.uniform = lambda a, b: a + (b - a) * self.rnd(); return self
    def __exit__(self, *a): random.random, random.uniform = self.o
F = [0, 1e-9, 0.125, 0.25, 0.5, 2 / 3.0, 0.75, 1 - 1e-9, 1]
ANG = [0, 0.5, pi / 2, pi, -pi / 3, 2 * pi, 100, 1e-9, -4]

class Dom:
    def at(self, f):
        if self.box: return tuple(l + (h - l) * x for l, h, x in zip(self.lo, self.hi, f))
        r = sqrt(self.r0 ** 2 + (self.r1 ** 2 - self.r0 ** 2) * f[0]); phi = 2 * pi * f[1]
        return add(self.bc, add(add(mul(self.mj, r * cos(phi)), mul(self.mn, r * sin(phi))), mul(self.ax, self.h * f[2])))
    def coords(self, q):
        if self.box: return tuple((x - l) / (h - l) for x, l, h in zip(q, self.lo, self.hi))
        d = sub(q, self.bc); z = dot(d, self.ax); r = length(sub(d, mul(self.ax, z))); phi = math.atan2(dot(d, self.mn), dot(d, self.mj)) % (2 * pi)
        return ((r * r - self.r0 ** 2) / (self.r1 ** 2 - self.r0 ** 2), phi / (2 * pi), z / self.h)
    def inside(self, q, tol):
        if self.box: return all(l - tol <= x <= h + tol for x, l, h in zip(q, self.lo, self.hi))
        d = sub(q, self.bc); z = dot(d, self.ax); r = length(sub(d, mul(self.ax, z))); return -tol <= z <= self.h + tol and self.r0 - tol <= r <= self.r1 + tol

def explore(fam, D, make, geo):
    tol = 3e-14 * D.size; C = [Creator(), Creator(), Creator()]
    ok, s = vf.guarded(fam + " creation", lambda: make(*C))
    if not ok: return
    def one(seq):
        for k in range(3): C[k].set([f[k] for f in seq])
        for f in seq:
            vf.step(); ok, p = vf.guarded(fam + " call", s)
            if not ok: return
            q = xyz(p); e = D.at(f)
            vf.check(length(sub(q, e)) <= tol, fam + " point", lambda: "draws %s give %s expected %s" % (f, q, e)); vf.check(D.inside(q, tol), fam + " domain", lambda: "draws %s give %s" % (f, q))
            if geo is not None: vf.check(geo.contains(p), fam + " contains", lambda: "draws %s give %s" % (f, q))
            vf.outcome(fam)
    for f in itertools.product(F, repeat=3): one([f])
    for i, (a, b, c, x, y, z) in enumerate(itertools.product([0, 0.25, 0.75], repeat=6)):
        if i % 5 == 0: one([(a, b, c), (x, y, z), (c, x, b), (a, b, c)])
def uniform(fam, D, make):
    N = 6; cells = {}; tol = 3e-14 * D.size
    with UniformRandom() as U:
        ok, s = vf.guarded(fam + " creation", make)
        if not ok: return
        for ijk in itertools.product(range(N), repeat=3):
            U.v = [(i + 0.5) / N for i in ijk]; U.used = 0; vf.step(); q = xyz(s())
            if U.used != 3: vf.skip(); return # consumes its random source otherwise: not judged
            vf.check(D.inside(q, tol), fam + " uniform domain", lambda: q); c = tuple(int(math.floor(x * N)) for x in D.coords(q)); cells[c] = cells.get(c, 0) + 1
    vf.check(len(cells) == N ** 3 and all(0 <= i < N for c in cells for i in c), fam + " equal volumes", lambda: "%d of %d cells of equal volume hit" % (len(cells), N ** 3)); vf.outcome(fam + " uniform")

def points():
    for rn, ex, ey, ez in ROT:
        for tr in [(0, 0, 0), (10, -7, 3)]:
            for sc in [1.0, 1e-2, 1e3]:
                for r0, r1, h in [(0, 1, 1), (0, 0.5, 4), (0, 3, 0.25), (0.5, 1, 2), (1.75, 2, 1), (1, 3, 8)]:
                    if not vf.begin("cyl/%g,%g,%g@%s+%s*%g" % (r0, r1, h, rn, tr, sc)): continue
                    D = Dom(); D.box = False; D.bc = mul(tr, sc); D.ax = ez; D.r0, D.r1, D.h = r0 * sc, r1 * sc, h * sc; D.size = D.r1 + D.h + length(D.bc)
                    if r0 == 0:
                        c = Cylinder(Circle_3(P3(D.bc), D3(ez), D.r1), D.h); D.mj = xyz(c.bottomFace().majorAxis()); D.mn = xyz(c.bottomFace().minorAxis()); explore("cylinder", D, lambda *C: makePointSampler(c, *C), c)
                        uniform("cylinder", D, lambda: makePointSampler(c))
                        E = Dom(); E.__dict__.update(D.__dict__); E.r0, E.r1 = D.r1 * 0.25, D.r1 * 0.75; explore("cylinder user ranges", E, lambda a, b, z: CylinderPointSampler(c, a(E.r0 ** 2, E.r1 ** 2), b(0.0, 2 * pi), z(0.0, D.h)), c)
                        vf.check(abs(c.radius() - D.r1) <= 1e-14 * D.r1 and length(sub(xyz(c.bottomFace().center()), D.bc)) == 0, "cylinder unchanged by sampling")
                    else:
                        c = HollowCylinder(P3(D.bc), D3(ez), D.r0, D.r1, D.h); b = c.fullCylinder().bottomFace(); D.mj = xyz(b.majorAxis()); D.mn = xyz(b.minorAxis()); explore("hollow cylinder", D, lambda *C: makePointSampler(c, *C), c); uniform("hollow cylinder", D, lambda: makePointSampler(c))
    for lo in itertools.product([-2.0, 0.0, 5.0], [-1.0, 0.0, 3.0], [-7.0, 0.0]):
        for d in [(1, 1, 1), (0.5, 2, 3), (4, 0.25, 1)]:
            for sc in [1.0, 1e-2, 1e3]:
                if not vf.begin("box/%s%s*%g" % (lo, d, sc)): continue
                D = Dom(); D.box = True; D.lo = mul(lo, sc); D.hi = mul(add(lo, d), sc); D.size = length(D.lo) + length(D.hi); b = Box(*(D.lo + D.hi)); explore("box", D, lambda *C: makePointSampler(b, *C), b); uniform("box", D, lambda: makePointSampler(b))

def rejected(vals, good):
    for k, v in enumerate(vals):
        if good(v): return k
    return 1000
def verdict(*r): m = max(r); return 0 if m <= 90 else 2 if m > 110 else 1 # 0 geometry expected, 1 either, 2 error
def firstGood(vals, good=lambda v: v > 0): return next((v for v in vals if good(v)), vals[-1])
def disk(a, b, x, y, z, c):
    vf.step()
    try: d = DiskSampler(lambda: P3(c), Script(a), Script(b), Script([x]), Script([y]), Script([z]))()
    except Endless as e: return vf.check(False, "disk sampler does not terminate", e)
    except Exception as e: return vf.check(False, "disk sampler exception", e)
    A = firstGood(a); B = min(A, firstGood(b)); X, Y, Z = (1, 0, 0), (0, 1, 0), (0, 0, 1); m = rot(rot(X, Y, y), Z, z); n = rot(rot(rot(Y, X, x), Y, y), Z, z)
    vf.check(length(sub(xyz(d.center()), c)) <= 1e-14 * (A + length(c)), "disk center", lambda: xyz(d.center())); vf.check(abs(d.majorAxisLength() - A) <= 1e-14 * A and abs(d.minorAxisLength() - B) <= 1e-14 * A, "disk axis lengths", lambda: (d.majorAxisLength(), d.minorAxisLength(), A, B))
    vf.check(abs(dot(xyz(d.normal()), cross(m, n))) > 1 - 1e-13, "disk normal", lambda: xyz(d.normal())); vf.outcome("disk")
    if A != B: vf.check(length(cross(xyz(d.majorAxis()), m)) < 1e-13 and length(cross(xyz(d.minorAxis()), n)) < 1e-13, "disk axes", lambda: (xyz(d.majorAxis()), m))
def ring(fam, c, n, strike, dip, ls, ld, ctr):
    sd = rot((0, 1, 0), (0, 0, 1), strike); dd = rot(rot((1, 0, 0), (0, 0, 1), strike), sd, dip); nn = unit(cross(dd, sd)); sz = max(ls, ld); tol = 1e-13 * (sz + length(ctr))
    if not vf.check(len(c) == n, fam + " corners", lambda: "%d instead of %d" % (len(c), n)): return
    vf.check(all(abs(dot(sub(p, c[0]), nn)) <= tol for p in c), fam + " orientation/planarity", lambda: c)
    bb = tuple((min(p[k] for p in c) + max(p[k] for p in c)) / 2 for k in range(3)); vf.check(length(sub(bb, ctr)) <= tol, fam + " center", lambda: "%s expected %s" % (bb, ctr))
    e1 = max(dot(p, sd) for p in c) - min(dot(p, sd) for p in c); e2 = max(dot(p, dd) for p in c) - min(dot(p, dd) for p in c)
    vf.check(0.8 * ls - tol <= e1 <= ls + tol and 0.8 * ld - tol <= e2 <= ld + tol, fam + " size", lambda: "extents %g of %g, %g of %g" % (e1, ls, e2, ld))
    turn = 0; pos = neg = True; e = sub(c[0], c[-1])
    for i in range(n):
        f = sub(c[(i + 1) % n], c[i]); cr = dot(cross(e, f), nn); ct = 1e-12 * (length(e) + length(f) + 1e-30) * (sz + 1e-3 * length(ctr)); pos = pos and cr >= -ct; neg = neg and cr <= ct
        if length(e) > tol and length(f) > tol: turn += math.atan2(cr, dot(e, f))
        if length(f) > tol: e = f
    vf.check((pos or neg) and abs(abs(turn) - 2 * pi) < 1e-6, fam + " convex", lambda: c)
def poly(xs, ys, nc, strike, dip, ls, ld, c, quad=False):
    vf.step(); good = lambda v: v > 0; fam = "quadrilateral" if quad else "polygon"
    ex = verdict(0 if quad else rejected(nc, lambda k: k >= 3), rejected(ls, good), rejected(ld, good)); n = 4 if quad else firstGood(nc, lambda k: k >= 3)
    with UniformRandom() as U:
        U.v = list(xs) + list(ys)
        try:
            # the constructor of the quadrilateral sampler may try its last argument once
            if quad: g = QuadrilateralSampler(lambda: P3(c), Script([strike]), Script([dip]), Script(ls), Script(ld[:1] + ld)); U.used = 0; q = g(); k = [xyz(q.corner(i)) for i in (0, 1, 3, 2)]
            else: g = PolygonSampler(lambda: P3(c), Script([strike]), Script([dip]), Script(ls), Script(ld), Script(nc)); U.used = 0; q = g(); k = [xyz(q.corner(i)) for i in range(q.numCorners())]
        except Endless as e: return vf.check(False, fam + " sampler does not terminate", e)
        except Exception as e: vf.outcome(fam + " error"); return vf.check(ex != 0, fam + " exception", "%s: %s" % (type(e).__name__, e))
    if ex == 2: return vf.check(False, fam + " sampler returns a geometry of unusable draws", k)
    ring(fam, k, n, strike, dip, firstGood(ls), firstGood(ld), c); vf.outcome(fam)
def oldQuad(edges, minEdge, strike, dip, c, default=False):
    vf.step(); me = 1e-7 if default else minEdge; lim = 1000
    try:
        g = QuadrilateralSampler(lambda: P3(c), Script([strike]), Script([dip]), Script(edges)) if default else QuadrilateralSampler(lambda: P3(c), Script([strike]), Script([dip]), Script(edges), minEdge); q = g()
    except Endless as e: return vf.check(False, "deprecated quadrilateral sampler does not terminate", e)
    except Exception as e: return vf.check(False, "deprecated quadrilateral exception", "%s: %s" % (type(e).__name__, e))
    sd = rot((0, 1, 0), (0, 0, 1), strike); dd = rot(rot((1, 0, 0), (0, 0, 1), strike), sd, dip); nn = unit(cross(dd, sd)); r = [xyz(q.corner(i)) for i in (0, 1, 3, 2)]; tol = 1e-13 * (max(edges) + length(c))
    vf.check(all(abs(dot(sub(p, c), nn)) <= tol for p in r), "deprecated quadrilateral plane", lambda: r); sg = [dot(cross(sub(r[(i + 1) % 4], r[i]), sub(c, r[i])), nn) for i in range(4)] + [dot(cross(sub(r[(i + 1) % 4], r[i]), sub(r[(i + 2) % 4], r[(i + 1) % 4])), nn) for i in range(4)]
    vf.check(all(x > 0 for x in sg) or all(x < 0 for x in sg), "deprecated quadrilateral convex around the center", lambda: r)
    # sizes: a selection of accepted draws
    acc = [e for e in edges if not e < me]; got = []
    for i in range(4):
        a = sub(r[(i + 1) % 4], r[i])
        if length(cross(unit(a), sd)) < 1e-9: got += [length(a), 2 * abs(dot(sub(r[i], c), dd))]
    pool = sorted(acc); okk = len(got) >= 4
    if len(got) == 4:
        for x in got:
            m = next((p for p in pool if abs(p - x) <= 4 * tol), None)
            if m is None: okk = False
            else: pool.remove(m)
        if len(edges) == 4 and not default: okk = okk and True
    vf.check(okk, "deprecated quadrilateral sizes", lambda: "draws %s corners %s" % (edges, r)); vf.outcome("deprecated quadrilateral")
def geometries():
    ctrs = [(0.0, 0.0, 0.0), (10.0, -7.0, 3.0), (-1000.0, 0.5, 2000.0)]; cnt = 0
    for x, y in itertools.product(ANG, ANG):
        if vf.begin("disk/angles/%g,%g" % (x, y)):
            for z in ANG:
                for a in [1e-3, 1.0, 2.0, 1e4]:
                    for f in [0.01, 0.5, 1.0, 3.0]: cnt += 1; disk([a], [a * f], x, y, z, ctrs[cnt % 3])
    for na, nb in itertools.product(range(4), range(4)):
        for a, b in itertools.product([1e-3, 1.0, 3.0], [5e-4, 1.0, 2.0, 50.0]):
            if vf.begin("disk/rejected/%d%d/%g,%g" % (na, nb, a, b)):
                for p in itertools.product([-1.0, 0.0, -1e-9], repeat=na):
                    for q in itertools.product([-1.0, 0.0, -1e-9], repeat=nb): disk(list(p) + [a], list(q) + [b], 0.3, -0.7, 1.1, (1.0, 2.0, 3.0))
    sizes = [(1.0, 1.0), (2.0, 0.5), (1e-2, 1e-2), (1e3, 10.0), (1e-5, 2e-5), (0.001, 50.0)]; A3 = [0.0, 0.05, 0.3, 0.5, 0.7, 0.95, 1.0]; A4 = [0.0, 0.07, 0.35, 0.6, 0.97]; A5 = [0.02, 0.3, 0.55, 0.98]; cnt = 0
    for al, n, stride in [(A3, 3, 1), (A4, 4, 7), (A5, 5, 23), ([0.04, 0.4, 0.8], 6, 13)]:
        if vf.thorough: stride = 1
        for xs in itertools.product(al, repeat=n):
            if not vf.begin("polygon/%d/%s" % (n, xs)): cnt += 7; continue
            for ys in itertools.product(al, repeat=n):
                cnt += 1
                if cnt % stride: continue
                z = sizes[cnt % 6]; c = mul(ctrs[cnt % 3], min(1.0, max(z))); poly(xs, ys, [n], ANG[cnt // 3 % 9], ANG[cnt // 7 % 9], [z[0]], [z[1]], c)
                if n == 4: poly(xs, ys, [n], ANG[cnt // 3 % 9], ANG[cnt // 7 % 9], [z[0]], [z[1]], c, True)
    for n in range(3, 20):
        for a in range(4):
            if not vf.begin("polygon/many/%d/%d" % (n, a)): continue
            for st in range(1, n):
                if math.gcd(st, n) == 1:
                    for z in sizes: poly([(i * st % n + 0.5) / n for i in range(n)], [((i + a) % n + 0.25) / n for i in range(n)], [n], ANG[(a + st) % 9], ANG[(n + st) % 9], [z[0]], [z[1]], mul(ctrs[st % 2], min(1.0, max(z))))
    xs, ys = [0.11, 0.42, 0.73, 0.2, 0.99], [0.35, 0.05, 0.6, 0.81, 0.5]
    for st, dp in itertools.product(ANG, ANG):
        if vf.begin("polygon/angles/%g,%g" % (st, dp)):
            for c in ctrs:
                for z in sizes: cc = mul(c, min(1.0, max(z))); poly(xs, ys, [5], st, dp, [z[0]], [z[1]], cc); poly([0.1, 0.4, 0.8, 0.6], [0.3, 0.9, 0.5, 0.05], [4], st, dp, [z[0]], [z[1]], cc, True)
    NC = [[5], [2, 5], [-4, 0, 1, 2, 3], [2], [0]] + [[2] * k + [5] for k in (10, 50, 90, 98, 99, 100, 101, 120)]; LN = [[1.5], [-1.0, 2.0], [-1.0, -1e-9, 0.0, 0.5], [0.0, 1.0], [-1.0], [0.0]] + [[-1.0] * k + [2.0] for k in (10, 50, 90, 99, 100, 101, 120, 400)]
    for i, j, k in itertools.product(range(len(NC)), range(len(LN)), range(len(LN))):
        if vf.begin("polygon/rejected/%d,%d,%d" % (i, j, k)):
            poly(xs, ys, NC[i], 0.7, 0.4, LN[j], LN[k], (1.0, 2.0, 3.0))
            if i == 0: poly([0.1, 0.4, 0.8, 0.6], [0.3, 0.9, 0.5, 0.05], [4], 0.7, 0.4, LN[j], LN[k], (1.0, 2.0, 3.0), True)
    el = [-1.0, 0.2, 0.5, 1.0, 2.0]; cnt = 0
    for me in [1e-7, 0.4]:
        for n in range(4, 7 if vf.thorough else 6):
            for a in itertools.product(el, repeat=2):
                if vf.begin("deprecated/%g/%d/%s" % (me, n, a)):
                    for b in itertools.product(el, repeat=n - 2): cnt += 1; oldQuad(list(a) + list(b) + [1.25, 0.75, 3.0, 1.75], me, ANG[cnt % 9], ANG[cnt // 9 % 9], ctrs[cnt % 3]); oldQuad(list(a) + list(b) + [1.25, 0.75, 3.0, 1.75], me, ANG[cnt % 9], ANG[cnt // 9 % 9], ctrs[cnt % 3], True)
points() if PROP == "20" else geometries()
vf.finish()
