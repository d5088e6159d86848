# C30, Python: every history of accessor calls, translations of what they returned and of what the object was made from, and destruction of the parent
import vfpy as vf, itertools, gc, math
import frackit.geometry as g
from frackit.geometry import *
from frackit.occutilities import getShape, getFaces
vf.init()
P = lambda *c: Point_3(*map(float, c)); V = lambda *c: Vector_3(*map(float, c)); D = lambda *c: Direction_3(V(*c))
E = lambda: Ellipse_3(P(1, 2, 3), D(1, 2, 2), D(2, 1, -2), 2., .5); C = lambda: Circle_3(P(1, 2, 3), D(1, 2, 2), 2.)
def arc(): e = E(); return EllipseArc_3(e, e.getPoint(.7), e.getPoint(.2))
def made(cls, *parts): return lambda: (lambda a: (cls(*a), a))([p() if callable(p) else p for p in parts])
MAKE = {
 "Box": made(Box, lambda: P(0, 0, 0), lambda: P(1, 2, 3)), "Sphere": made(Sphere, lambda: P(1, 2, 3), 2.), "Cylinder": made(Cylinder, C, 1.5), "CylinderSurface": made(CylinderSurface, C, 1.5), "HollowCylinder": made(HollowCylinder, lambda: P(1, 2, 3), lambda: D(1, 2, 2), .5, 1., 2.),
 "Disk": made(Disk, E), "Ellipse_3": made(Ellipse_3, lambda: P(1, 2, 3), lambda: D(1, 2, 2), lambda: D(2, 1, -2), 2., .5), "Circle_3": made(Circle_3, lambda: P(1, 2, 3), lambda: D(1, 2, 2), 2.), "EllipseArc_3": made(EllipseArc_3, E, lambda: E().getPoint(.7), lambda: E().getPoint(.2)),
 "Plane_3": made(Plane_3, lambda: P(1, 2, 3), lambda: D(1, 2, 2)), "Plane_3pts": made(Plane_3, lambda: P(0, 0, 0), lambda: P(1, 0, 1), lambda: P(0, 1, 1)), "Line_3": made(Line_3, lambda: P(1, 2, 3), lambda: D(1, 2, 2)), "Line_2": made(Line_2, lambda: Point_2(1., 2.), lambda: Direction_2(Vector_2(3., 4.))), "Segment_3": made(Segment_3, lambda: P(1, 2, 3), lambda: P(0, 0, 1)), "Segment_2": made(Segment_2, lambda: Point_2(1., 2.), lambda: Point_2(0., 0.)), "Segment_1": made(Segment_1, lambda: Point_1(1.), lambda: Point_1(3.)),
 "Triangle_3": made(Triangle_3, lambda: P(0, 0, 0), lambda: P(1, 0, 0), lambda: P(0, 1, 1)), "Quadrilateral_3": made(Quadrilateral_3, lambda: P(0, 0, 0), lambda: P(1, 0, 0), lambda: P(0, 1, 1), lambda: P(1, 1, 1)), "Polygon_3": made(Polygon_3, lambda: [P(0, 0, 0), P(2, 0, 0), P(2, 1, 0), P(0, 1, 0)]),
 "Vector_3": made(Vector_3, lambda: P(1, 2, 3), lambda: P(2, 0, 1)), "Direction_3": made(Direction_3, lambda: V(1, 2, 2)), "Direction_2": made(Direction_2, lambda: Vector_2(3., 4.)), "Vector_3d": made(Vector_3, lambda: D(1, 2, 2)),
}
MUTATORS = {"invert"}; NONEED = {"myDimension", "worldDimension"}
def accessors(o):
    """no-argument accessors and indexed ones (corner, edge, face)"""
    r = []
    for n in sorted(dir(type(o))):
        if n.startswith("_") or n in MUTATORS or n in NONEED: continue
        m = getattr(o, n)
        if not callable(m): continue
        try: m(); r.append((n, lambda o, n=n: getattr(o, n)()))
        except Exception:
            for i in (0, 2):
                try: m(i); r.append(("%s(%d)" % (n, i), lambda o, n=n, i=i: getattr(o, n)(i)))
                except Exception: pass
    for n, a in (("getPoint", .3), ("getPointFromAngle", 1.1)):
        if hasattr(o, n):
            try: getattr(o, n)(a); r.append((n + "(x)", lambda o, n=n, a=a: getattr(o, n)(a)))
            except Exception: pass
    if hasattr(o, "projection"): r.append(("projection", lambda o: o.projection({"3": lambda: P(3, 1, 1), "2": lambda: Point_2(3., 1.), "1": lambda: Point_1(3.)}[type(o).__name__[-1]]())))
    return r
def coords(o): return tuple(getattr(o, c)() for c in "xyz" if hasattr(o, c))
def value(o, depth=3):
    if isinstance(o, (bool, int, float, str)): return o
    if isinstance(o, (list, tuple)): return [value(x, depth) for x in o]
    c = coords(o)
    if c: return (type(o).__name__.replace("Base", ""),) + c
    if depth == 0: return type(o).__name__
    return (type(o).__name__,) + tuple((n, value(f(o), depth - 1)) for n, f in accessors(o))
def deep(o): return value(o, 2)
def translate(o, k=0):
    """changes everything that can be changed in place: points and vectors by addition, directions by inversion, and the parts of composed objects"""
    if isinstance(o, list):
        for x in o: translate(x, k)
        del o[1:]; return
    n = type(o).__name__
    if n.startswith("Point_"): v = getattr(g, "Vector_" + n[-1])(*[1.5 + i for i in range(int(n[-1]))]); o += v; o -= v; o += v; return
    if n.startswith("Vector_"):
        for m in ("__imul__", "__iadd__"):
            if hasattr(o, m): o = getattr(o, m)(2. if m == "__imul__" else type(o)(o) if False else o)
        return
    if n.startswith("Direction_"): o.invert(); return
    if k < 1 and not isinstance(o, (bool, int, float, str)):
        for a, f in accessors(o): translate(f(o), k + 1)
def close(a, b):
    if type(a) is not type(b): return False
    if isinstance(a, float): return a == b or abs(a - b) <= 1e-13 * (1 + abs(b))
    if isinstance(a, (tuple, list)): return len(a) == len(b) and all(map(close, a, b))
    return a == b
for name, make in MAKE.items():
    o, parts = make(); acc = accessors(o); ref = {n: deep(f(o)) for n, f in acc}; del o, parts
    ops = [("q", i) for i in range(len(acc))] + [("t", i) for i in range(len(acc))] + [("parts", 0), ("drop", 0)]
    for d in range(0, 4 if vf.thorough else 3):
        for h in itertools.product(range(len(ops)), repeat=d):
            if d == 3 and sum((i + 1) * x for i, x in enumerate(h)) % 5: continue
            if not vf.begin("py:%s:%s" % (name, ".".join(map(str, h)))): continue
            def run():
                o, parts = make(); kept = []; H = lambda: "%s: %s" % (name, [(ops[i][0], acc[ops[i][1]][0]) if ops[i][0] in "qt" else ops[i][0] for i in h]); vf.step(d)
                for i in h:
                    k, j = ops[i]
                    if k == "q": r = acc[j][1](o); kept.append((acc[j][0], r)); vf.check(close(deep(r), ref[acc[j][0]]), name + "." + acc[j][0], lambda: "%s -> %s instead of %s" % (H(), deep(r), ref[acc[j][0]]))
                    elif k == "t": translate(acc[j][1](o))
                    elif k == "parts":
                        if parts is not None: [translate(p) for p in parts]
                    else: parts = None; gc.collect(0)
                for n, f in acc: r = deep(f(o)); vf.check(close(r, ref[n]), name + "." + n, lambda: "%s -> %s instead of %s" % (H(), r, ref[n]))
                translate(o) if False else None
                del o; parts = None; junk = [make()[0] for _ in range(3)]; del junk # the parent is gone, its memory used again
                for n, r in kept: v = deep(r); vf.check(close(v, ref[n]), name + "." + n + " outlives its parent", lambda: "%s -> %s instead of %s" % (H(), v, ref[n]))
            vf.guarded("history", run); vf.outcome(name)
# copies by construction: translating the copy or the original never changes the other
for name, mk, mv in (("Point_3", lambda: P(1, 2, 3), V(1, 1, 1)), ("Point_2", lambda: Point_2(1., 2.), Vector_2(1., 1.)), ("Point_1", lambda: Point_1(1.), Vector_1(1.))):
    def both(o, kind):
        q = {"add": lambda: o + mv, "sub": lambda: o - mv}[kind](); return q
    for h in itertools.product(("add", "sub", "iadd", "isub"), repeat=4):
        if not vf.begin("copy:%s:%s" % (name, ".".join(h))): continue
        o = mk(); ref = list(coords(o)); alive = []
        for k in h:
            vf.step()
            if k in ("add", "sub"): alive.append((both(o, k), [x + (1 if k == "add" else -1) for x in ref]))
            elif k == "iadd": o += mv; ref = [x + 1 for x in ref]
            else: o -= mv; ref = [x - 1 for x in ref]
            vf.check(list(coords(o)) == ref, name + " in place", lambda: "%s: %s instead of %s" % (h, coords(o), ref))
        for q, r in alive: vf.check(list(coords(q)) == r, name + " derived point", lambda: "%s: %s instead of %s" % (h, coords(q), r))
        vf.outcome("copy")
vf.finish()
