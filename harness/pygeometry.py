# C28: the Python geometry API against an independent reference.
import sys, math, itertools, os
import vfpy as vf
from pyref import *
import frackit.geometry as G, frackit.occutilities as O, frackit.precision as PR, frackit.common as C
vf.init()
T = vf.thorough
def P3(v): return G.Point_3(*map(float, v))
def V3(v): return G.Vector_3(*map(float, v))
def D3(v): return G.Direction_3(V3(v))
def xyz(p): return (p.x(), p.y(), p.z())
def near(a, b, tol): return all(math.isfinite(x) for x in a) and dist(a, b) <= tol
def wrap(s): return G.OCCShapeWrapper(O.getShape(s))
def ell(r): return G.Ellipse_3(P3(r.c), D3(r.mj), D3(r.mn), r.a, r.bb_)
QUADS = {"square": ((-1, -1, 0), (1, -1, 0), (1, 1, 0), (-1, 1, 0)), "trapezoid": ((-1, -1, 0), (1.5, -1, 0), (.5, 1, 0), (-.5, 1, 0))}
POLYS = {"pentagon": ((-1, -1, 0), (1, -1, 0), (1.5, .5, 0), (0, 1.5, 0), (-1.5, .5, 0)), "L": ((-1, -1, 0), (1, -1, 0), (1, 0, 0), (0, 0, 0), (0, 1, 0), (-1, 1, 0)), "tri": ((-1, -.5, 0), (1, -.5, 0), (0, 1, 0))}
def mkQuad(r): return G.Quadrilateral_3(*[P3(r.r[i]) for i in (0, 1, 3, 2)])
def mkPoly(r): return G.Polygon_3([P3(p) for p in r.r])
def mkCyl(r): return G.Cylinder(G.Circle_3(P3(r.c), D3(r.ax), r.r), r.h)
def mkSurf(r): return G.CylinderSurface(G.Circle_3(P3(r.c), D3(r.ax), r.r), r.h)
def make(r):
    k = r.kind
    if k == "point": return P3(r.a)
    if k == "segment": return G.Segment_3(P3(r.a), P3(r.e))
    if k == "triangle": return G.Triangle_3(*[P3(p) for p in r.r])
    if k == "quadrilateral": return mkQuad(r)
    if k == "polygon": return mkPoly(r)
    if k == "circle": return G.Circle_3(P3(r.c), D3(r.n), r.a)
    if k == "ellipse": return ell(r)
    if k in ("disk", "ellipse disk"): return G.Disk(ell(r))
    if k == "arc": return G.EllipseArc_3(ell(r), P3(r.at(r.t0)), P3(r.at(r.t1)))
    if k == "box": return G.Box(*(r.lo + r.hi))
    if k == "cylinder": return mkCyl(r)
    if k == "cylinder surface": return mkSurf(r)
    if k == "hollow cylinder": return G.HollowCylinder(P3(r.c), D3(r.ax), r.r0, r.r, r.h)
    if k == "sphere": return G.Sphere(P3(r.c), r.r)
def refs(P):
    s = P.s; f = lambda pts: [P.p(p) for p in pts]; n = P.p((0, 0, 0))
    yield "point", RPoint(P.p((.25, -.5, 1)))
    yield "segment", RSegment(P.p((-1, .5, 0)), P.p((1, -.25, .5)))
    yield "triangle", RPolygon(f(((-1, -.5, 0), (1, -.5, 0), (0, 1, 0))), "triangle")
    for k, q in QUADS.items(): yield "quadrilateral " + k, RPolygon(f(q), "quadrilateral")
    for k, q in POLYS.items(): yield "polygon " + k, RPolygon(f(q))
    yield "circle", REllipse(n, P.x, P.y, 1.25 * s, 1.25 * s)
    yield "ellipse", REllipse(n, P.x, P.y, 1.5 * s, .75 * s)
    yield "disk", REllipse(n, P.x, P.y, 1.25 * s, 1.25 * s, True)
    yield "ellipse disk", REllipse(n, P.x, P.y, 1.5 * s, .75 * s, True)
    for k, (a, b) in dict(q=(0, pi / 2), w=(pi / 4, 7 * pi / 4), v=(3 * pi / 2, 5 * pi / 2)).items(): yield "arc " + k, REllipse(n, P.x, P.y, 1.5 * s, .75 * s, False, a, b)
    if P.n == "I": yield "box", RBox(P.p((-1, -.5, -.75)), P.p((1, 1, .5)))
    for k, r, h in (("flat", 1.25, .5), ("long", .5, 2)):
        yield "cylinder " + k, RCylinder(n, P.z, r * s, h * s); yield "cylinder surface " + k, RCylinder(n, P.z, r * s, h * s, True)
    yield "hollow cylinder", RCylinder(n, P.z, 1.25 * s, 1.5 * s, False, .5 * s)
    yield "sphere", RSphere(n, 1.25 * s)
def size(r): lo, hi = r.bb(); return dist(lo, hi) + length(lo) + length(hi) + 1e-30
def samples(r, P):
    """points on, near and off the reference"""
    if r.par and r.kind not in ("arc", "ellipse", "circle"):
        for u, v in itertools.product((0.0, .3, .5, 1.0), repeat=2):
            yield r.par(u, v)
            if r.dim < 2: break
    if r.kind in ("arc", "ellipse", "circle"):
        for k in range(16): yield r.at(k * pi / 8 + .01)
    if isinstance(r, RCylinder):
        for k in range(6): t = k * pi / 3 + .1; yield add(r.c, add(mul(r.ax, r.h * k / 5.0), add(mul(P.x, r.r * cos(t)), mul(P.y, r.r * sin(t)))))
    for q in itertools.product((-1.5, -.6, 0, .55, 1.1), repeat=3): yield P.p(q)
ABSOLUTE = ("box", "cylinder", "cylinder surface", "sphere", "segment")
def contains(name, o, r, P):
    planar = r.kind in ("triangle", "quadrilateral", "polygon", "disk", "ellipse disk", "ellipse", "arc")
    for q in samples(r, P):
        vf.step(); d = r.d(q); p = P3(q)
        if 1e-12 * size(r) < d < 1e-3 * P.s: continue
        if d == 0 and r.dim == 3 and r.r0 == 0 if isinstance(r, RCylinder) else False:
            if r.b(q) < 1e-9 * size(r): vf.check(o.contains(p, 1e-6 * P.s), name + " contains (given tolerance)", lambda: q); continue
        e = d <= 1e-12 * size(r)
        if e and r.dim == 2 and r.kind != "cylinder surface" and r.b(q) < 1e-9 * size(r) and P.n.startswith("O"): continue # rims in oblique poses
        if e and r.kind in ("hollow cylinder", "sphere", "box") and P.n.startswith("O"): continue
        vf.check(o.contains(p) == e, name + " contains", lambda: "%s: %s expected %s" % (q, o.contains(p), e)); vf.outcome("contains %s" % e)
        tol = 1e-7 if r.kind in ("disk", "ellipse disk", "ellipse", "arc") else 1e-7 * P.s
        vf.check(o.contains(p, tol) == e, name + " contains (given tolerance)", lambda: "%s: expected %s" % (q, e))
        if planar:
            vf.check(o.contains(p, tol, True) == e and o.contains(p, True) == e, name + " contains (flag)", lambda: "%s: expected %s" % (q, e))
            if (e or (r.dim == 2 and abs(dot(sub(q, r.r[0] if r.kind in ("triangle", "quadrilateral", "polygon") else r.c), r.n)) < 1e-12 * size(r))): vf.check(o.contains(p, False) == e and o.contains(p, tol, False) == e, name + " contains (flag)", lambda: "%s: expected %s" % (q, e))
        if r.kind in ABSOLUTE and d > 0 and d < .5 * P.s and r.kind != "segment": vf.check(o.contains(p, .6 * P.s), name + " contains (large tolerance)", lambda: "%s at distance %g" % (q, d))
def quickPoses(): return poses(("I", "O122", "O236"), [(0, 0, 0), (3, -7, 11)], [1.0, 1000.0]) if T else poses(("I",), [(0, 0, 0)], [1.0]) + poses(("O236",), [(3, -7, 11)], [1.0])
WRAP = {"point": "Vertex", "segment": "Edge", "circle": "Wire", "ellipse": "Wire", "arc": "Edge", "quadrilateral": "Face", "polygon": "Face", "disk": "Face", "ellipse disk": "Face", "cylinder surface": "Face", "box": "Solid", "cylinder": "Solid", "sphere": "Solid"}
def magnitude(name, o, r, P):
    tol = 1e-9 * r.m if r.kind not in ("ellipse", "arc") else 1e-3 * r.m
    if r.kind != "point": vf.check(vf.close(G.computeMagnitude(o), r.m, tol), name + " magnitude", lambda: "%g expected %g" % (G.computeMagnitude(o), r.m))
    vf.check(o.myDimension == r.dim and o.worldDimension == 3, name + " dimensions", lambda: (o.myDimension, o.worldDimension)); vf.check(isinstance(o.name(), str) and len(o.name()) > 0 and isinstance(repr(o), str), name + " name")
    for d, f in ((1, G.computeLength), (2, G.computeArea), (3, G.computeVolume)):
        vf.step()
        if d == r.dim:
            if r.kind != "point": vf.check(vf.close(f(o), r.m, tol), name + " " + f.__name__, lambda: "%g expected %g" % (f(o), r.m))
        else:
            try: v = f(o); vf.check(False, name + " " + f.__name__ + " of a wrong dimension", v)
            except TypeError: vf.check(True, "")
    for m in ("length", "area", "volume"):
        if hasattr(o, m) and r.kind != "hollow cylinder ": vf.check(vf.close(getattr(o, m)(), r.m, 1e-9 * r.m), name + " member " + m, lambda: "%g expected %g" % (getattr(o, m)(), r.m))
    if r.kind in WRAP and r.kind != "point":
        w = O.getShape(o); vf.check(vf.close(G.computeMagnitude(w), r.m, max(tol, 1e-6 * r.m)), name + " magnitude (wrapped)", lambda: "%g expected %g" % (G.computeMagnitude(w), r.m))
        f = (None, G.computeLength, G.computeArea, G.computeVolume)[r.dim]; vf.check(vf.close(f(w), r.m, max(tol, 1e-6 * r.m)), name + " %s (wrapped)" % f.__name__)
def boxIs(b, r, name, s):
    lo, hi = r.bb(); L = (b.xMin(), b.yMin(), b.zMin()); H = (b.xMax(), b.yMax(), b.zMax()); slack = 1e-5 * s + 2e-7
    vf.check(all(l <= x + slack for l, x in zip(L, lo)) and all(h >= x - slack for h, x in zip(H, hi)), name + " does not enclose", lambda: "%s %s expected %s %s" % (L, H, lo, hi))
    k = .05 * dist(lo, hi) + 1e-5 * s + 2e-7 if r.kind not in ("point", "segment", "triangle", "quadrilateral", "polygon", "box") else slack
    vf.check(all(l >= x - k for l, x in zip(L, lo)) and all(h <= x + k for h, x in zip(H, hi)), name + " too large", lambda: "%s %s expected %s %s" % (L, H, lo, hi))
def shapes(name, o, r, P):
    if r.kind not in WRAP: return
    vf.step(); w = O.getShape(o); vf.check(type(w).__name__ == "OCC%sWrapper" % WRAP[r.kind], name + " wrapper type", type(w).__name__); vf.check(type(O.getShape(w)) is type(w) and type(wrap(w)).__name__ == "OCCShapeWrapper", name + " wrapper of a wrapper")
    s = wrap(o); faces = {"Vertex": 0, "Edge": 0, "Wire": 0, "Face": 1}.get(WRAP[r.kind], {"box": 6, "cylinder": 3, "sphere": 1}.get(r.kind))
    vf.check(len(O.getFaces(s)) == faces and len(O.getSolids(s)) == (r.dim == 3) and len(O.getShells(s)) == (r.dim == 3) and len(O.getWires(s)) >= (r.dim > 1), name + " sub-shapes", lambda: (len(O.getFaces(s)), len(O.getSolids(s)), len(O.getShells(s)), len(O.getWires(s))))
    if r.kind in ("segment", "quadrilateral", "polygon", "box"):
        c = (r.a, r.e) if r.kind == "segment" else r.r if r.kind != "box" else list(itertools.product(*zip(r.lo, r.hi))); vs = O.getVertices(w); ed = O.getEdges(w)
        def corner(v): # position of a vertex from its bounding box
            b = G.getBoundingBox(v); return ((b.xMin() + b.xMax()) / 2, (b.yMin() + b.yMax()) / 2, (b.zMin() + b.zMax()) / 2)
        vc = [corner(v) for v in vs]; vf.check(all(any(near(a, b, 1e-6 * size(r)) for b in vc) for a in c) and all(any(near(a, b, 1e-6 * size(r)) for b in c) for a in vc), name + " vertices", lambda: vc)
        n = {"segment": 1, "box": 24}.get(r.kind, len(c)); vf.check(len(ed) in (n, n / 2), name + " edges", len(ed))
    if r.dim >= 2: vf.check(vf.close(sum(G.computeMagnitude(f) for f in O.getFaces(w)), {"box": lambda: 2 * sum((r.hi[i] - r.lo[i]) * (r.hi[(i + 1) % 3] - r.lo[(i + 1) % 3]) for i in range(3)), "cylinder": lambda: 2 * pi * r.r * (r.r + r.h), "sphere": lambda: 4 * pi * r.r ** 2}.get(r.kind, lambda: r.m)(), 1e-6 * P.s ** 2 * 50), name + " face areas")
    for src, b in (("geometry", lambda: G.getBoundingBox(o)), ("shape", lambda: G.getBoundingBox(w)), ("generic shape", lambda: G.getBoundingBox(s)), ("utilities", lambda: O.getBoundingBox(o)), ("utilities shape", lambda: O.getBoundingBox(s))):
        if src == "geometry" and r.kind == "point": continue
        ok, x = vf.guarded(name + " bounding box of " + src, b)
        if ok: boxIs(x, r, name + " bounding box of " + src, P.s)
    t = (3 * P.s, -P.s, .5 * P.s); ok, m = vf.guarded(name + " translate", lambda: O.translate(w, V3(t)))
    if ok:
        vf.check(type(m) is type(w), name + " translated type", type(m).__name__)
        for q in ((0, 0, 0), (2, 1, 3)):
            q = add(P.p(q), t); e = r.d(sub(q, t)); vf.check(vf.close(G.computeDistance(P3(q), m), e, 1e-6 * size(r)), name + " translated", lambda: "distance %g expected %g" % (G.computeDistance(P3(q), m), e)); vf.check(vf.close(G.computeDistance(P3(sub(q, t)), w), e, 1e-6 * size(r)), name + " moved by translation of its shape")
    ok, m = vf.guarded(name + " generic translate", lambda: O.translate(s, V3(t)))
    if ok: q = P.p((2, 1, 3)); vf.check(vf.close(G.computeDistance(P3(add(q, t)), m), r.d(q), 1e-6 * size(r)), name + " translated generic")
    fn = "shape.brep"
    if os.path.exists(fn): os.remove(fn)
    for x in (o, w, s):
        O.write(x, fn); ok, b = vf.guarded(name + " read", lambda: O.readShape(fn))
        if ok: vf.check(type(b).__name__ == "OCCShapeWrapper", name + " read type"); q = P.p((2, 1, 3)); vf.check(vf.close(G.computeDistance(P3(q), b), r.d(q), 1e-6 * size(r)) and len(O.getFaces(b)) == len(O.getFaces(s)) and len(O.getEdges(b)) == len(O.getEdges(s)), name + " written and read"); os.remove(fn)
    vf.outcome("shape")
def accessors(name, o, r, P):
    e = 1e-12 * size(r) + 1e-15; ck = lambda c, w, m="": vf.check(c, name + " " + w, m); vf.step()
    col = lambda a, b: length(cross(a, b)) < 1e-12
    if r.kind == "point":
        ck(near(xyz(o), r.a, 0), "coordinates"); ck(o.isEqual(P3(r.a)) and not o.isEqual(P3(add(r.a, (P.s, 0, 0)))) and o.isEqual(P3(add(r.a, (P.s, 0, 0))), 2 * P.s), "isEqual")
    if r.kind == "segment":
        ck(near(xyz(o.source()), r.a, 0) and near(xyz(o.target()), r.e, 0), "end points"); ck(near(xyz(o.direction()), unit(sub(r.e, r.a)), 1e-14), "direction"); ck(near(xyz(o.center()), lerp(r.a, r.e, .5), e), "center")
        for x in (0.0, .25, 1.0): ck(near(xyz(o.getPoint(x)), lerp(r.a, r.e, x), e), "getPoint")
        v = o.getReversed(); ck(near(xyz(v.source()), r.e, 0) and near(xyz(v.target()), r.a, 0) and near(xyz(o.source()), r.a, 0), "getReversed"); l = o.supportingLine(); ck(l.contains(P3(lerp(r.a, r.e, 2.5))) and not l.contains(P3(add(r.a, P.v((1, 1, 1))))), "supporting line")
        pr = l.projection(P3(add(lerp(r.a, r.e, .3), mul(unit(cross(sub(r.e, r.a), P.x)), P.s)))); ck(near(xyz(pr), lerp(r.a, r.e, .3), 1e-9 * size(r)), "line projection")
    if r.kind in ("triangle", "quadrilateral", "polygon"):
        n = len(r.r); idx = (0, 1, 3, 2) if r.kind == "quadrilateral" else range(n); ck(o.numCorners() == n and o.numEdges() == n, "counts"); cs = [xyz(o.corner(i)) for i in range(n)]; ck(all(near(cs[i], r.r[j], 0) for i, j in enumerate(idx)), "corners", cs)
        es = [(xyz(o.edge(i).source()), xyz(o.edge(i).target())) for i in range(n)]; ck(all(any(min(dist(a, x) + dist(b, y), dist(a, y) + dist(b, x)) <= e for x, y in es) for a, b in r.edges), "edges", es)
        pl = o.supportingPlane(); ck(abs(dot(xyz(pl.normal()), r.n)) > 1 - 1e-13 and abs(dot(sub(xyz(pl.supportingPoint()), r.r[0]), r.n)) <= 10 * e, "supporting plane")
        if r.kind == "triangle": ck(near(xyz(o.center()), mul(add(add(*r.r[:2]), r.r[2]), 1 / 3.0), 10 * e), "center"); ck(abs(dot(xyz(o.normal()), r.n)) > 1 - 1e-13, "normal")
        if r.kind == "polygon": # area centroid
            c = (0, 0, 0); A = 0
            for i in range(1, n - 1): a = dot(cross(sub(r.r[i], r.r[0]), sub(r.r[i + 1], r.r[0])), r.n) / 2; A += a; c = add(c, mul(add(add(r.r[0], r.r[i]), r.r[i + 1]), a / 3))
            ck(near(xyz(o.center()), mul(c, 1 / A), 1e-9 * size(r)), "center", lambda: (xyz(o.center()), mul(c, 1 / A)))
        if r.kind != "triangle": ck(o.isConvex() == (name != "polygon L"), "isConvex")
    if isinstance(r, REllipse):
        ck(near(xyz(o.center()), r.c, 0), "center"); ck(abs(dot(xyz(o.normal()), r.n)) > 1 - 1e-13, "normal"); ck(vf.close(o.majorAxisLength(), r.a, e) and vf.close(o.minorAxisLength(), r.bb_, e), "axis lengths")
        if r.a != r.bb_: ck(near(xyz(o.majorAxis()), r.mj, 1e-13) and near(xyz(o.minorAxis()), r.mn, 1e-13), "axes")
        pl = o.supportingPlane(); ck(near(xyz(pl.supportingPoint()), r.c, 1e-9 * size(r)) or pl.contains(P3(r.c)), "supporting plane"); ck(abs(dot(xyz(pl.normal()), r.n)) > 1 - 1e-13, "supporting plane normal")
        mj, mn = xyz(o.majorAxis()), xyz(o.minorAxis())
        if r.kind == "circle": ck(vf.close(o.radius(), r.a, 0) and near(xyz(o.base1()), mj, 1e-13) and near(xyz(o.base2()), mn, 1e-13), "radius and bases")
        at = lambda t, f=1.0: add(r.c, add(mul(mj, f * r.a * cos(t)), mul(mn, f * r.bb_ * sin(t))))
        if r.kind in ("circle", "ellipse"):
            for x in (0.0, .125, .5, .9): ck(near(xyz(o.getPoint(x)), at(2 * pi * x), 1e-9 * size(r)), "getPoint", lambda: x); ck(near(xyz(o.getPointFromAngle(5 * x)), at(5 * x), 1e-9 * size(r)), "getPointFromAngle")
            if r.kind == "ellipse":
                for x in (.125, .5, .9): ck(vf.close(o.getParam(P3(at(2 * pi * x)), True), x, 1e-6) and vf.close(o.getAngle(P3(at(2 * pi * x))), 2 * pi * x, 1e-6), "parameters", lambda: (o.getParam(P3(at(2 * pi * x))), o.getAngle(P3(at(2 * pi * x))), x))
        if r.kind == "arc":
            ck(near(xyz(o.source()), r.at(r.t0), 1e-9 * size(r)) and near(xyz(o.target()), r.at(r.t1), 1e-9 * size(r)), "end points"); ck(not o.isFullEllipse(), "isFullEllipse"); ck(vf.close(o.sourceAngleOnEllipse(), r.t0 % (2 * pi), 1e-6) and vf.close(cos(o.targetAngleOnEllipse() - r.t1), 1, 1e-9), "angles"); ck(near(xyz(o.supportingEllipse().center()), r.c, 0), "supporting ellipse")
            for x in (0.0, .25, .5, 1.0): ck(near(xyz(o.getPoint(x)), r.at(r.t0 + (r.t1 - r.t0) * x), 1e-6 * size(r)), "getPoint", lambda: (x, xyz(o.getPoint(x)), r.at(r.t0 + (r.t1 - r.t0) * x)))
        if r.disk:
            b = o.boundingEllipse(); ck(near(xyz(b.center()), r.c, 0) and vf.close(b.majorAxisLength(), r.a, e) and vf.close(b.minorAxisLength(), r.bb_, e), "bounding ellipse")
            for x, y in ((0.0, 1.0), (.25, .5), (.6, 0.0)): ck(near(xyz(o.getPoint(x, y)), at(2 * pi * x, y), 1e-9 * size(r)), "getPoint")
    if r.kind == "box":
        ck(near((o.xMin(), o.yMin(), o.zMin()), r.lo, 0) and near((o.xMax(), o.yMax(), o.zMax()), r.hi, 0), "extents"); ck(near(xyz(o.center()), lerp(r.lo, r.hi, .5), e), "center"); ck((o.numCorners(), o.numEdges(), o.numFaces()) == (8, 12, 6), "counts")
        ck({tuple(round(x / P.s, 9) for x in xyz(o.corner(i))) for i in range(8)} == {tuple(round(x / P.s, 9) for x in c) for c in itertools.product(*zip(r.lo, r.hi))}, "corners"); ck(vf.close(math.fsum(o.edge(i).length() for i in range(12)), 4 * sum(b - a for a, b in zip(r.lo, r.hi)), 100 * e), "edges")
        ck(vf.close(math.fsum(o.face(i).area() for i in range(6)), 2 * sum((r.hi[i] - r.lo[i]) * (r.hi[(i + 1) % 3] - r.lo[(i + 1) % 3]) for i in range(3)), 1e-9 * P.s ** 2), "faces"); b = G.Box(P3(r.lo), P3(r.hi)); ck((b.xMin(), b.yMin(), b.zMin(), b.xMax(), b.yMax(), b.zMax()) == r.lo + r.hi, "corner constructor")
    if isinstance(r, RCylinder):
        top = add(r.c, mul(r.ax, r.h)); ck(vf.close(o.height(), r.h, e), "height"); c = o.centerSegment(); ck(near(xyz(c.source()), r.c, 10 * e) and near(xyz(c.target()), top, 10 * e), "center segment"); b = [xyz(x()) for x in (o.base1, o.base2, o.base3)]
        ck(near(b[2], r.ax, 1e-13) and near(cross(b[0], b[1]), b[2], 1e-13), "bases"); ck(near(xyz(o.axis() if r.r0 else o.direction()), r.ax, 1e-13), "axis")
        def circ(x, c, rad, w): ck(near(xyz(x.center()), c, 10 * e) and abs(dot(xyz(x.normal()), r.ax)) > 1 - 1e-13 and vf.close(x.majorAxisLength(), rad, e), w)
        if r.r0:
            ck(vf.close(o.innerRadius(), r.r0, e) and vf.close(o.outerRadius(), r.r, e), "radii"); circ(o.bottomInnerCircle(), r.c, r.r0, "bottom inner circle"); circ(o.topInnerCircle(), top, r.r0, "top inner circle"); circ(o.bottomOuterCircle(), r.c, r.r, "bottom outer circle"); circ(o.topOuterCircle(), top, r.r, "top outer circle")
            for x, rad in ((o.innerLateralFace(), r.r0), (o.outerLateralFace(), r.r), (o.fullCylinder(), r.r)): ck(vf.close(x.radius(), rad, e) and vf.close(x.height(), r.h, e) and near(xyz(x.centerSegment().source()), r.c, 10 * e) and near(xyz(x.centerSegment().target()), top, 10 * e), "sub-geometries")
            z = G.HollowCylinder(r.r0, r.r, r.h); ck(vf.close(z.innerRadius(), r.r0, 0) and vf.close(z.outerRadius(), r.r, 0) and vf.close(z.height(), r.h, 0) and near(xyz(z.axis()), (0, 0, 1), 0), "axis-aligned constructor")
        else:
            ck(vf.close(o.radius(), r.r, e), "radius")
            if r.surface:
                circ(o.lowerBoundingCircle(), r.c, r.r, "lower circle"); circ(o.upperBoundingCircle(), top, r.r, "upper circle"); y = o.cylinder(); ck(vf.close(y.radius(), r.r, e) and vf.close(y.height(), r.h, e), "cylinder"); q = add(r.c, add(mul(b[0], r.r), mul(r.ax, r.h / 2))); tp = o.getTangentPlane(P3(q)); ck(abs(dot(xyz(tp.normal()), b[0])) > 1 - 1e-12 and tp.contains(P3(q), 1e-9 * size(r)), "tangent plane"); z = G.CylinderSurface(r.r, r.h); ck(vf.close(z.radius(), r.r, 0) and vf.close(z.height(), r.h, 0), "axis-aligned constructor")
            else:
                circ(o.bottomFace(), r.c, r.r, "bottom face"); circ(o.topFace(), top, r.r, "top face"); y = o.lateralFace(); ck(vf.close(y.radius(), r.r, e) and vf.close(y.height(), r.h, e), "lateral face"); z = G.Cylinder(r.r, r.h, 3.5); ck(vf.close(z.radius(), r.r, 0) and vf.close(z.height(), r.h, 1e-15 * (r.h + 3.5)) and near(xyz(z.centerSegment().source()), (0, 0, 3.5), 0), "axis-aligned constructor"); z = G.Cylinder(G.Disk(ell(REllipse(r.c, P.x, P.y, r.r, r.r))), r.h); ck(vf.close(z.radius(), r.r, e) and near(xyz(z.centerSegment().target()), top, 10 * e), "disk constructor")
    if r.kind == "sphere": ck(near(xyz(o.center()), r.c, 0) and vf.close(o.radius(), r.r, 0), "center and radius")
DEF = dict(segment=lambda r: 1e-7 * r.m, circle=lambda r: 1e-7 * r.a, ellipse=lambda r: 1e-7 * (r.a + r.bb_) / 2, quadrilateral=lambda r: 1e-7 * .5 * sqrt(r.m), box=lambda r: 1e-7 * dist(r.lo, r.hi)); DEF["disk"] = DEF["ellipse disk"] = DEF["ellipse"]; DEF["cylinder surface"] = lambda r: 1e-7 * (r.r + r.h)/2
def tolerance(name, o, r, P):
    if r.kind in DEF: e = DEF[r.kind](r); vf.check(vf.close(PR.defaultEpsilon(o), e, 1e-6 * e), name + " default tolerance", lambda: "%g expected %g" % (PR.defaultEpsilon(o), e))
    if r.kind in WRAP and r.kind != "point": lo, hi = r.bb(); e = 1e-7 * dist(lo, hi); vf.check(vf.close(PR.defaultEpsilon(wrap(o)), e, .1 * e + 1e-12 * P.s), name + " default tolerance of its shape", lambda: "%g expected %g" % (PR.defaultEpsilon(wrap(o)), e))
BOUND = ("quadrilateral", "polygon", "disk", "ellipse disk", "cylinder surface")
def distances(name, o, r, P):
    tol = 1e-6 * P.s + 1e-12 * size(r)
    if r.kind == "triangle" or r.kind == "hollow cylinder": return
    far = P3(P.p((100, 100, 100)))
    for i, q in enumerate(itertools.product((-2.5, -.25, .75, 2), repeat=3) if T else itertools.product((-2.5, -.25, .75), repeat=3)):
        q = P.p(q); p = P3(q); e = r.d(q); vf.step()
        ways = [("", lambda: G.computeDistance(p, o)), (" reversed", lambda: G.computeDistance(o, p)), (" shape", lambda: G.computeDistance(p, O.getShape(o))), (" vertex", lambda: G.computeDistance(O.getShape(p), wrap(o))), (" list", lambda: G.computeDistance(p, [far, o, far])), (" generic", lambda: G.computeDistance(wrap(p), wrap(o)))]
        for w, f in ways if i % 5 == 0 else ways[:2]:
            ok, x = vf.guarded(name + " distance" + w, f)
            if ok: vf.check(vf.close(x, e, tol), name + " distance" + w, lambda: "%s: %g expected %g" % (q, x, e))
        b = None
        if r.kind in BOUND or r.kind in ("box", "cylinder", "sphere"): b = r.b(q)
        if b is not None:
            w = [("", lambda: G.computeDistanceToBoundary(p, o))] if r.kind not in ("cylinder", "sphere") else []
            w += [(" of face", lambda: G.computeDistanceToBoundary(p, O.getShape(o)))] if r.kind != "cylinder surface" else []
            if r.kind != "box": w += [(" from vertex", lambda: G.computeDistanceToBoundary(O.getShape(p), o if r.kind in BOUND else O.getShape(o)))]
            for y, f in w if i % 5 == 0 else w[:1]:
                ok, x = vf.guarded(name + " boundary distance" + y, f)
                if ok: vf.check(vf.close(x, b, tol), name + " boundary distance" + y, lambda: "%s: %g expected %g" % (q, x, b)); vf.outcome("boundary distance")
    for w, f in (("direct", lambda: G.computeDistance(o, [far, P3(P.p((50, 0, 0)))])),):
        ok, x = vf.guarded(name + " distance to list", f)
        if ok: vf.check(vf.close(x, r.d(P.p((50, 0, 0))), tol), name + " distance to list", lambda: x)
def pairs(P, ta, tb, orient):
    """distance between two extended geometries"""
    F = Pose(("", ) + orient, (0, 0, 0), 1.0); sh = lambda c: P.p(add(tb, c)); g = lambda c: P.p(add(tb, F.d(c)))
    A = {"segment": RSegment(P.p((-1, .5, 0)), P.p((1, -.25, .5))), "quadrilateral": RPolygon([P.p(c) for c in QUADS["square"]], "quadrilateral"), "tri": RPolygon([P.p(c) for c in POLYS["tri"]]), "disk": REllipse(P.p((0, 0, 0)), P.x, P.y, P.s, P.s, True)}[ta]
    B = {"segment": lambda: RSegment(g((-.5, 0, 0)), g((.75, .5, .5))), "quadrilateral": lambda: RPolygon([g(c) for c in QUADS["trapezoid"]], "quadrilateral"), "polygon": lambda: RPolygon([g(c) for c in POLYS["pentagon"]]), "disk": lambda: REllipse(g((0, 0, 0)), P.d(F.x), P.d(F.y), 1.25 * P.s, 1.25 * P.s, True), "box": lambda: RBox(g((-.5, -.5, -.5)), g((.5, .75, 1))), "cylinder": lambda: RCylinder(g((0, 0, 0)), P.d(F.z), .5 * P.s, 1.5 * P.s), "sphere": lambda: RSphere(g((0, 0, 0)), .75 * P.s)}
    return A, B
def pairDistances():
    for P in quickPoses():
        for on, ori in (("z", ((1, 0, 0), (0, 1, 0), (0, 0, 1))), ("x", ((0, 1, 0), (0, 0, 1), (1, 0, 0))), ("o", ROT[3][1:])):
            for tb in itertools.product((0, 1.25, -3), (0, 2.5), (.5, 0, 2)):
                for ta in ("segment", "quadrilateral", "tri", "disk"):
                    if not vf.begin("pair/%s/%s/%s@%s" % (ta, on, tb, P.name)): continue
                    A, B = pairs(P, ta, tb, ori); a = make(A)
                    for k, f in B.items():
                        if k == "box" and (P.n != "I" or on != "z"): continue
                        r = f(); vf.step(); o = make(r); e = convexDist(A, r.d) if k != "segment" or ta == "segment" else convexDist(r, A.d); tol = 2e-5 * P.s
                        for w, h in (("", lambda: G.computeDistance(a, o)), (" reversed", lambda: G.computeDistance(o, a)), (" shapes", lambda: G.computeDistance(O.getShape(a), O.getShape(o))), (" list", lambda: G.computeDistance(a, [P3(P.p((100, 100, 100))), o])), (" mixed", lambda: G.computeDistance(wrap(a), o))):
                            ok, x = vf.guarded("pair distance" + w, h)
                            if ok: vf.check(vf.close(x, e, tol), "pair distance" + w, lambda: "%s/%s: %g expected %g" % (ta, k, x, e)); vf.outcome("pair %s" % ("0" if e < tol else "+"))
                        # distance to the boundary
                        if k in ("quadrilateral", "polygon"): eb = min(convexDist(A, RSegment(*s).d) for s in r.edges)
                        elif k == "box": eb = min(convexDist(A, s.d) for s in r.facets())
                        elif k == "disk" and ta == "segment": eb = min(ternary(lambda u: r.b(A.par(u, 0)), i / 16.0, (i + 1) / 16.0, 40) for i in range(16))
                        else: continue
                        for w, h in ((("", lambda: G.computeDistanceToBoundary(a, o)),) if k != "box" else ()) + (() if k == "tri" else ((" of shape", lambda: G.computeDistanceToBoundary(a, O.getShape(o))), (" shapes", lambda: G.computeDistanceToBoundary(wrap(a), O.getShape(o))))):
                            ok, x = vf.guarded("pair boundary distance" + w, h)
                            if ok: vf.check(vf.close(x, eb, tol), "pair boundary distance" + w, lambda: "%s/%s: %g expected %g" % (ta, k, x, eb)); vf.outcome("pair boundary")
def single():
    for P in poses(("I", "L", "F", "O122", "O345", "O236"), [(0, 0, 0), (3, -7, 11)], [1.0, 1e-2, 1e3]) if T else poses(("I",), [(0, 0, 0), (3, -7, 11)], [1.0, 1e-2, 1e3]) + poses(("L", "O122", "O236"), [(3, -7, 11)], [1.0, 1e3]):
        for name, r in refs(P):
            if not vf.begin("%s@%s" % (name, P.name)): continue
            ok, o = vf.guarded(name + " construction", lambda: make(r))
            if not ok: continue
            for f in (accessors, contains if r.kind not in ("point", "circle") else None, magnitude if True else None, tolerance, shapes, distances):
                if f is None or (name == "polygon L" and f in (contains, magnitude)): continue # not implemented for non-convex polygons
                vf.guarded(name + " " + f.__name__, lambda: f(name, o, r, P))
            vf.outcome(r.kind)
# ---- intersections
def norm(r):
    out = []
    for g in (r if isinstance(r, list) else [r]):
        k = type(g).__name__
        if k.startswith("EmptyIntersection"): continue
        if k == "Point_3": out.append((0, 0, [xyz(g)]))
        elif k == "Segment_3": out.append((1, g.length(), [xyz(g.source()), xyz(g.target())]))
        elif k == "OCCEdgeWrapper": out.append((1, G.computeMagnitude(g), []))
        elif k in ("EllipseArc_3", "Ellipse_3", "Circle_3"): out.append((1, G.computeMagnitude(g), []))
        elif k == "OCCVertexWrapper": out.append((0, 0, []))
        else: out.append((2, G.computeMagnitude(g), []))
    return out
def interval(r, p, d):
    """parameters of the line p + t d inside the planar reference"""
    if isinstance(r, REllipse): # circular or elliptic disk: in-plane line
        q = sub(p, r.c); x, y, u, v = dot(q, r.mj) / r.a, dot(q, r.mn) / r.bb_, dot(d, r.mj) / r.a, dot(d, r.mn) / r.bb_; a = u * u + v * v; b = x * u + y * v; c = x * x + y * y - 1; D = b * b - a * c
        return [((-b - sqrt(D)) / a, (-b + sqrt(D)) / a)] if D > 0 else []
    ts = []
    for a, e in r.edges:
        n = cross(r.n, d); fa, fe = dot(sub(a, p), n), dot(sub(e, p), n)
        if (fa > 0) != (fe > 0): x = lerp(a, e, fa / (fa - fe)); ts.append(dot(sub(x, p), d))
    ts.sort(); return list(zip(ts[::2], ts[1::2]))
def planarPair(A, B):
    d = cross(A.n, B.n); l = length(d)
    pa = A.r[0] if hasattr(A, "r") and isinstance(A.r, (list, tuple)) else A.c; pb = B.r[0] if hasattr(B, "r") and isinstance(B.r, (list, tuple)) else B.c
    if l < 1e-9: return None if abs(dot(sub(pa, pb), A.n)) < 1e-9 else []
    d = mul(d, 1 / l); ha, hb = dot(A.n, pa), dot(B.n, pb); p = mul(add(mul(cross(B.n, d), ha), mul(cross(d, A.n), hb)), 1 / dot(cross(B.n, d), A.n))
    out = []
    for a in interval(A, p, d):
        for b in interval(B, p, d): out.append((max(a[0], b[0]), min(a[1], b[1])))
    return [(p, d, x, y) for x, y in out]
def parallel(S, B, k, n, u, w):
    tot = 0
    for s in (-1, 1):
        p = add(S.c, add(mul(n, k), mul(u, s * w)))
        for a, b in interval(B, p, S.ax): tot += max(0, min(b, S.h) - max(a, 0))
    return tot
def cylPair(S, B, N=1200):
    """length of the common curve of a cylinder surface and a planar reference; None: not judged"""
    pb = B.r[0] if isinstance(getattr(B, "r", None), (list, tuple)) else B.c; u = unit(cross(S.ax, B.n)) if length(cross(S.ax, B.n)) > 1e-9 else unit(cross(S.ax, (0.3, .5, .8))); v = cross(S.ax, u); c = dot(S.ax, B.n)
    if abs(c) < 1e-9: # plane parallel to the axis
        k = dot(sub(pb, S.c), B.n); n = B.n
        if abs(k) >= S.r * (1 + 1e-3): return 0.0
        if abs(k) > S.r * (1 - 1e-3): return None
        w = sqrt(S.r ** 2 - k * k); tot = 0
        if max(parallel(S, B, k, n, u, w * f) for f in (.999, 1.001)) - min(parallel(S, B, k, n, u, w * f) for f in (.999, 1.001)) > .01 * S.r: return None
        return parallel(S, B, k, n, u, w)
    tot = 0; last = None; ins = lambda q: (B.inplane(q) if hasattr(B, "inplane") else B.d(q) < 1e-9 * S.r)
    for i in range(N + 1):
        t = 2 * pi * i / N; q = add(S.c, add(mul(u, S.r * cos(t)), mul(v, S.r * sin(t)))); z = dot(sub(pb, q), B.n) / c; q = add(q, mul(S.ax, z)); ok = -1e-9 <= z <= S.h + 1e-9 and ins(q)
        if last is not None and ok and last[1]: tot += dist(q, last[0])
        last = (q, ok)
    return tot
KINDS = ("quadrilateral", "polygon", "disk", "L", "face quadrilateral", "face L", "face disk")
def planarRef(k, P, F, tb):
    g = lambda c: P.p(add(tb, F.d(c)))
    if k.endswith("quadrilateral"): r = RPolygon([g(c) for c in QUADS["trapezoid"]], "quadrilateral")
    elif k.endswith("L"): r = RPolygon([g(c) for c in POLYS["L"]])
    elif k.endswith("disk"): r = REllipse(g((0, 0, 0)), P.d(F.x), P.d(F.y), 1.5 * P.s, .75 * P.s, True)
    else: r = RPolygon([g(c) for c in POLYS["pentagon"]])
    o = make(r); return r, O.getShape(o) if k.startswith("face") else o
OK = {("quadrilateral", "quadrilateral"), ("polygon", "polygon"), ("disk", "disk"), ("quadrilateral", "disk"), ("polygon", "disk"), ("face", "face"), ("face", "disk"), ("face", "quadrilateral"), ("face", "polygon")}
def reg(k): return "face" if k.startswith("face") else "polygon" if k in ("polygon", "L") else k
ORI = (("x", ((0, 1, 0), (0, 0, 1), (1, 0, 0))), ("y", ((0, 0, 1), (1, 0, 0), (0, 1, 0))), ("z", ((1, 0, 0), (0, 1, 0), (0, 0, 1))), ("o", ROT[3][1:]), ("p", ROT[4][1:]))
def intersections():
    Z = Pose(ROT[0], (0, 0, 0), 1.0)
    for P in quickPoses():
        for on, ori in ORI:
            F = Pose(("",) + ori, (0, 0, 0), 1.0)
            for tb in itertools.product((0.125, .75), (-.375, .25), (0.0625, .625, 2)):
                if not vf.begin("isect/%s/%s@%s" % (on, tb, P.name)): continue
                As = {k: planarRef(k, P, Z, (0, 0, 0)) for k in KINDS}; Bs = {k: planarRef(k, P, F, tb) for k in KINDS}; tol = 1e-5 * P.s
                for ka, kb in itertools.product(KINDS, KINDS):
                    if "L" in (ka, kb): continue # not implemented
                    if (reg(ka), reg(kb)) not in OK and (reg(kb), reg(ka)) not in OK: continue
                    (A, a), (B, b) = As[ka], Bs[kb]; e = planarPair(A, B)
                    if e is None: continue
                    if any(-1e-3 * P.s < y - x < 1e-3 * P.s for _, _, x, y in e): vf.skip(); continue
                    e = [x for x in e if x[3] > x[2]]; want = sorted((add(p, mul(d, x)), add(p, mul(d, y))) for p, d, x, y in e)
                    for w, f in (("", lambda: G.intersect(a, b)), (" reversed", lambda: G.intersect(b, a)), (" eps", lambda: G.intersect(a, b, 1e-7 * P.s)), (" eps reversed", lambda: G.intersect(geo1=b, geo2=a, eps=1e-7 * P.s))):
                        vf.step(); what = "intersection %s/%s%s" % (reg(ka), reg(kb), w); ok, x = vf.guarded(what, f)
                        if not ok: continue
                        n = norm(x); vf.check(all(g[0] == 1 for g in n) and vf.close(sum(g[1] for g in n), sum(dist(*y) for y in want), tol), what, lambda: "%s expected %s" % (n, want))
                        for g in n:
                            if g[2] and len(g[2]) == 2: vf.check(any(min(dist(g[2][0], y[0]) + dist(g[2][1], y[1]), dist(g[2][0], y[1]) + dist(g[2][1], y[0])) < 3 * tol for y in want), what + " end points", lambda: "%s expected %s" % (n, want))
                        vf.outcome("planar %d" % len(want))
                S = RCylinder(P.p((.125, -.25, -.5)), P.d((0, 0, 1)), .625 * P.s, 1.25 * P.s, True); s = make(S)
                for kb in KINDS:
                    if kb == "L": continue
                    B, b = Bs[kb]; e = cylPair(S, B)
                    if e is None or 0 < e < .1 * P.s: vf.skip(); continue
                    if on == "z" and min(abs(tb[2] + .5), abs(tb[2] - .75)) < 1e-3: continue
                    for w, f in (("", lambda: G.intersect(s, b)), (" reversed", lambda: G.intersect(b, s)), (" eps", lambda: G.intersect(s, b, 1e-7 * P.s)), (" eps reversed", lambda: G.intersect(b, s, 1e-7 * P.s))):
                        vf.step(); what = "intersection cylinder surface/%s%s" % (reg(kb), w); ok, x = vf.guarded(what, f)
                        if ok: n = norm(x); vf.check(all(g[0] <= 1 for g in n) and vf.close(sum(g[1] for g in n), e, .03 * P.s), what, lambda: "%s expected %g" % (n, e)); vf.outcome("cylinder %s" % (e > 0))
        pts = list(itertools.product((-1, 0, 1), repeat=2))
        for i, (a, b) in enumerate(itertools.combinations(pts, 2)):
            if not vf.begin("segments/%s-%s@%s" % (a, b, P.name)): continue
            for c, d, z in itertools.product(pts, pts, (0, .25)):
                if c == d: continue
                A, B, Cc, D = (P.p(q) for q in (a + (0,), b + (0,), c + (z,), d + (z,))); s1, s2 = G.Segment_3(P3(A), P3(B)), G.Segment_3(P3(Cc), P3(D)); vf.step()
                cr = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0]); e = None
                if z: e = (None,)
                elif cr: t = ((c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) * (d[0] - c[0])) / float(cr); u = ((c[0] - a[0]) * (b[1] - a[1]) - (c[1] - a[1]) * (b[0] - a[0])) / float(cr); e = ("p", lerp(A, B, t)) if 0 <= t <= 1 and 0 <= u <= 1 else (None,)
                elif (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]): e = (None,)
                else:
                    L = dist(A, B); f = lambda q: dot(sub(q, A), sub(B, A)) / L / L; x, y = sorted((f(Cc), f(D))); x, y = max(0, x), min(1, y); e = ("s", lerp(A, B, x), lerp(A, B, y)) if y - x > 1e-9 else ("p", lerp(A, B, x)) if y - x > -1e-9 else (None,)
                for w, f in (("", lambda: G.intersect(s1, s2)), (" reversed", lambda: G.intersect(s2, s1)), (" eps", lambda: G.intersect(s1, s2, 1e-6 * P.s))):
                    ok, g = vf.guarded("segment intersection" + w, f)
                    if not ok: continue
                    n = norm(g); tol = 1e-5 * P.s
                    good = not n if e[0] is None else len(n) == 1 and (n[0][0] == 0 and near(n[0][2][0], e[1], tol) if e[0] == "p" else n[0][0] == 1 and min(dist(n[0][2][0], e[1]) + dist(n[0][2][1], e[2]), dist(n[0][2][0], e[2]) + dist(n[0][2][1], e[1])) < tol)
                    vf.check(good, "segment intersection" + w, lambda: "%s%s: %s expected %s" % (c, d, n, e)); vf.outcome("segments %s" % e[0])
# ---- contained magnitude
def clip(D, a, b):
    """length of the part of the segment a-b inside the convex solid D"""
    L = dist(a, b)
    if L == 0: return 0.0
    d = sub(b, a); lo, hi = 0.0, 1.0
    def slab(f0, f1, m, M):
        nonlocal lo, hi
        if f0 == f1:
            if not m <= f0 <= M: hi = -1.0
        else: x, y = sorted(((m - f0) / (f1 - f0), (M - f0) / (f1 - f0))); lo, hi = max(lo, x), min(hi, y)
    def quad(q, e, r):
        nonlocal lo, hi
        A, B, Cc = dot(e, e), dot(q, e), dot(q, q) - r * r
        if A < 1e-18 * (L * L):
            if Cc > 0: hi = -1.0
        else:
            Dd = B * B - A * Cc
            if Dd <= 0: hi = -1.0
            else: lo, hi = max(lo, (-B - sqrt(Dd)) / A), min(hi, (-B + sqrt(Dd)) / A)
    if isinstance(D, RBox):
        for k in range(3): slab(a[k], b[k], D.lo[k], D.hi[k])
    elif isinstance(D, RSphere): quad(sub(a, D.c), d, D.r)
    else:
        z0, z1 = dot(sub(a, D.c), D.ax), dot(sub(b, D.c), D.ax); slab(z0, z1, 0, D.h); q = sub(a, D.c); quad(sub(q, mul(D.ax, z0)), sub(d, mul(D.ax, z1 - z0)), D.r)
    return max(0.0, hi - lo) * L
def containedRef(A, D, N=1500):
    if A.dim == 1: return clip(D, A.a, A.e)
    tot = 0
    if isinstance(A, REllipse):
        for i in range(N): x = -1 + 2 * (i + .5) / N; w = sqrt(1 - x * x); m = add(A.c, mul(A.mj, A.a * x)); tot += clip(D, sub(m, mul(A.mn, A.bb_ * w)), add(m, mul(A.mn, A.bb_ * w))) * 2.0 / N * A.a
        return tot
    r = A.r; y0, y1 = dist(r[0], r[1]), dist(r[3], r[2]); ax = unit(sub(r[1], r[0])); h = length(sub(sub(r[3], r[0]), mul(ax, dot(sub(r[3], r[0]), ax)))) # trapezoid with r0r1 || r3r2
    for i in range(N): u = (i + .5) / N; tot += clip(D, lerp(r[0], r[3], u), lerp(r[1], r[2], u)) * h / N
    return tot
def contained():
    for P in quickPoses():
        for on, ori in ORI:
            F = Pose(("",) + ori, (0, 0, 0), 1.0)
            for tb in itertools.product((0.125, .75), (-.375, .5), (0.0625, 2)):
                if not vf.begin("contained/%s/%s@%s" % (on, tb, P.name)): continue
                g = lambda c: P.p(add(tb, F.d(c)))
                E = {"segment": RSegment(g((-1.5, .25, -.5)), g((.75, -.25, .5))), "disk": REllipse(g((0, 0, 0)), P.d(F.x), P.d(F.y), 1.5 * P.s, .75 * P.s, True), "quadrilateral": RPolygon([g(c) for c in QUADS["trapezoid"]], "quadrilateral")}
                Ds = {"cylinder": RCylinder(P.p((.125, -.25, -.5)), P.d((0, 0, 1)), .875 * P.s, 1.5 * P.s), "sphere": RSphere(P.p((.25, 0, 0)), 1.125 * P.s)}
                if P.n == "I": Ds["box"] = RBox(P.p((-.8, -.7, -.6)), P.p((.9, .6, .55)))
                for (ke, A), (kd, D) in itertools.product(E.items(), Ds.items()):
                    e = containedRef(A, D); tol = (1e-5 if ke == "segment" else 4e-3 * P.s) * P.s; a, d = make(A), make(D); w = O.getShape(d); vf.step()
                    if 0 < e < 1e-3 * A.m: vf.skip(); continue
                    ways = [(" solid", lambda: G.computeContainedMagnitude(a, w))]
                    if kd != "sphere": ways.append(("", lambda: G.computeContainedMagnitude(a, d)))
                    if ke != "segment":
                        f = O.getShape(a); ways.append((" face in solid", lambda: G.computeContainedMagnitude(f, w)))
                        if kd != "sphere": ways.append((" face", lambda: G.computeContainedMagnitude(f, d)))
                    for n, h in ways:
                        ok, x = vf.guarded("contained magnitude" + n, h)
                        if ok: vf.check(vf.close(x, e, tol), "contained magnitude" + n, lambda: "%s in %s: %g expected %g" % (ke, kd, x, e)); vf.outcome("contained %s" % ("none" if e == 0 else "all" if e > A.m * .999 else "part"))
# ---- boolean operations
def vol(s): return sum(G.computeMagnitude(x) for x in O.getSolids(s))
def area(s): return sum(G.computeMagnitude(x) for x in O.getFaces(s))
def booleans():
    for sc in (1.0, 100.0):
        for d in itertools.product((-.5, .25, 1.5), (0, .75), (.125, -1)):
            if not vf.begin("boolean/%s*%g" % (d, sc)): continue
            lo = mul(d, sc); a, b = G.Box(0.0, 0.0, 0.0, sc, sc, sc), G.Box(lo[0], lo[1], lo[2], lo[0] + sc, lo[1] + sc, lo[2] + sc); V = sc ** 3; e = V
            for k in range(3): e *= max(0, 1 - abs(d[k]))
            tol = 1e-6 * V; eps = 1e-7 * sc
            for n, x, y in (("", a, b), (" shapes", O.getShape(a), wrap(b)), (" mixed", a, O.getShape(b))):
                vf.step()
                for w, f, v in (("cut", lambda: O.cut(x, y, eps), V - e), ("intersect", lambda: O.intersect(x, y, eps), e), ("fuse", lambda: O.fuse([x, y], eps), 2 * V - e), ("fragment", lambda: O.fragment([x, y], eps), 2 * V - e)):
                    ok, r = vf.guarded("boolean " + w + n, f)
                    if not ok: continue
                    vf.check(type(r).__name__ == "OCCShapeWrapper" and vf.close(vol(r), v, tol), "boolean " + w + n, lambda: "%g expected %g" % (vol(r), v)); vf.outcome("boolean " + w)
                    if w == "fragment": vf.check(len(O.getSolids(r)) == (3 if e > 0 else 2), "boolean fragments" + n, lambda: len(O.getSolids(r)))
            Q = lambda o: G.Quadrilateral_3(*[P3(mul(add(o, c), sc)) for c in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0))]); q, r = Q((0, 0, 0)), Q((d[0], d[1], 0)); e = sc * sc * max(0, 1 - abs(d[0])) * max(0, 1 - abs(d[1]))
            for w, f, v in (("cut", lambda: O.cut(q, r, eps), sc * sc - e), ("intersect", lambda: O.intersect(q, r, eps), e), ("fuse", lambda: O.fuse([q, r], eps), 2 * sc * sc - e), ("fragment", lambda: O.fragment([q, r], eps), 2 * sc * sc - e), ("cut by solid", lambda: O.cut(Q((0, 0, .5)), a, eps), 0), ("intersect with solid", lambda: O.intersect(Q((d[0], d[1], .5)), a, eps), e), ("fragment list of three", lambda: O.fragment([q, r, Q((0, 0, 2))], eps), 3 * sc * sc - e)):
                ok, s = vf.guarded("face boolean " + w, f)
                if ok: vf.check(vf.close(area(s), v, 1e-6 * sc * sc), "face boolean " + w, lambda: "%g expected %g" % (area(s), v)); vf.outcome("face boolean")
            c = G.OCCCompoundWrapper(); c.add(O.getShape(a)); c.add(O.getShape(q)); c.add(O.getShape(P3(mul((9, 9, 9), sc)))); vf.check(len(O.getSolids(c)) == 1 and len(O.getFaces(c)) == 7 and vf.close(G.computeDistance(P3(mul((9, 9, 10), sc)), c), sc, 1e-6 * sc), "compound", lambda: (len(O.getSolids(c)), len(O.getFaces(c))))
            for bad in (3, "x", None):
                try: O.cut(bad, a, eps); vf.check(False, "boolean of a non-geometry accepted", bad)
                except TypeError: vf.check(True, "")
# ---- algebra
def algebra():
    num = (-2.0, 0.0, 0.5, 3.0)
    for n in (1, 2, 3):
        Pt, Ve, Di = (getattr(G, "%s_%d" % (k, n)) for k in ("Point", "Vector", "Direction")); cs = lambda o: tuple(getattr(o, k)() for k in "xyz"[:n])
        for a in itertools.product(num, repeat=n):
            if not vf.begin("algebra%d/%s" % (n, a)): continue
            for w, f in (("Point", lambda: G.Point(*a)), ("Point list", lambda: G.Point(list(a))), ("Point_n", lambda: Pt(*a)), ("Point_n list", lambda: Pt(list(a))), ("Vector", lambda: G.Vector(*a)), ("Vector list", lambda: G.Vector(list(a))), ("Vector_n", lambda: Ve(*a))):
                ok, o = vf.guarded("construction " + w, f)
                if ok: vf.check(cs(o) == a and type(o) is (Pt if w[0] == "P" else Ve) and o.worldDimension == n, "construction " + w, lambda: "%s of %s" % (o, a))
            if all(x == a[0] for x in a): # lists of every length: missing coordinates are zero, further ones are not used
                for m in range(0, 6):
                    for l in itertools.product((1.0, -2.5, 4), repeat=m):
                        if m > n + 1 and l[0] != l[-1]: continue
                        e = tuple(float(x) for x in (list(l) + [0.0] * n)[:n])
                        for w, c in (("Point_n", Pt), ("Vector_n", Ve)):
                            vf.step(); ok, o = vf.guarded("construction of a %s from a list of another length" % w, lambda: c(list(l)))
                            if ok: vf.check(cs(o) == e, "construction of a %s from a list of another length" % w, lambda: "%s%d of %s" % (w, n, l))
                vf.check(cs(Pt()) == (0.0,) * n, "default point", n)
            for b in itertools.product(num, repeat=n):
                vf.step(); p, q, v, w = Pt(list(a)), Pt(list(b)), Ve(*a), Ve(*b)
                vf.check(cs(G.Vector(p, q)) == sub(b, a) and cs(Ve(p, q)) == sub(b, a), "vector between points"); r = p + w; vf.check(type(r) is Pt and cs(r) == add(a, b) and cs(p) == a, "point + vector"); r = q - v; vf.check(cs(r) == sub(b, a) and cs(q) == b, "point - vector")
                r = v + w; vf.check(type(r) is Ve and cs(r) == add(a, b) and cs(v) == a and cs(w) == b, "vector + vector"); r = v - w; vf.check(cs(r) == sub(a, b), "vector - vector"); vf.check(abs(v * w - dot(a, b)) <= 1e-14 * (1 + abs(dot(a, b))), "scalar product")
                r = Pt(list(a)); r0 = r; r += w; vf.check(type(r) is Pt and cs(r) == add(a, b), "point += vector"); r = Pt(list(a)); r -= w; vf.check(type(r) is Pt and cs(r) == sub(a, b), "point -= vector")
                vf.check(p.isEqual(q) == (a == b), "isEqual"); la, lb = length(a), length(b)
                if la and lb: par = abs(abs(dot(a, b)) / la / lb - 1) < 1e-12; vf.check(v.isParallel(w) == par, "isParallel", lambda: b); vf.check(G.Direction(v) is not None and near(cs(G.Direction(v)), mul(a, 1 / la), 1e-15) and near(cs(G.Vector(G.Direction(v))), mul(a, 1 / la), 1e-15), "direction")
            v = Ve(*a); vf.check(vf.close(v.length(), length(a), 1e-15 * length(a)) and vf.close(v.squaredLength(), dot(a, a), 1e-14 * dot(a, a)), "vector length"); r = Ve(*a); r *= 2.5; vf.check(type(r) is Ve and cs(r) == mul(a, 2.5), "vector scaling"); r /= 2.5; vf.check(near(cs(r), a, 1e-14), "vector scaling"); r = Pt(list(a)); r *= 4.0; vf.check(type(r) is Pt and cs(r) == mul(a, 4), "point scaling"); r /= 4.0; vf.check(cs(r) == a, "point scaling"); vf.check(isinstance(repr(v), str) and isinstance(v.name(), str), "names")
            if length(a): d = Di(v); e = Di(v); vf.check(near(cs(d * 3.0), mul(a, 3 / length(a)), 1e-14) and near(cs(d), mul(a, 1 / length(a)), 1e-15), "direction * scalar"); e.invert(); vf.check(near(cs(e), mul(a, -1 / length(a)), 1e-15) and near(cs(d), mul(a, 1 / length(a)), 1e-15) and cs(v) == a, "invert")
            if n == 3:
                vf.check(near(cs(G.Circle(G.Point(*a), G.Direction(G.Vector(0.0, 0.0, 1.0)), 2.0).center()), a, 0), "Circle")
                for k, t in (((0, 0, 1), pi / 2), ((1, 0, 0), pi / 3), (unit((1, 2, 2)), 2.0), ((0, 1, 0), -1.0)):
                    r = Ve(*a); C.rotate(r, D3(k), t); e = add(add(mul(a, cos(t)), mul(cross(k, a), sin(t))), mul(k, dot(k, a) * (1 - cos(t)))); vf.check(near(cs(r), e, 1e-13 * (1 + length(a))), "rotate", lambda: (cs(r), e))
                # planes and lines
                for nv in ((0, 0, 1), unit((1, 2, 2)), unit((-3, 0, 4))):
                    pl = G.Plane_3(P3(a), D3(nv)); q = (1.25, -2, 3); h = dot(sub(q, a), nv); vf.check(near(xyz(pl.projection(P3(q))), sub(q, mul(nv, h)), 1e-12 * 10), "plane projection"); vf.check(pl.contains(P3(sub(q, mul(nv, h)))) and (abs(h) < 1e-6 or not pl.contains(P3(q))) and pl.contains(P3(q), abs(h) + 1e-3), "plane contains"); b1, b2 = xyz(pl.base1()), xyz(pl.base2()); vf.check(near(cross(b1, b2), nv, 1e-13) and near(xyz(pl.normal()), nv, 1e-14), "plane bases")
                    s = pl.projection(G.Segment_3(P3(q), P3(add(q, (1, 1, 0))))); vf.check(near(xyz(s.source()), sub(q, mul(nv, h)), 1e-11), "plane projection of a segment"); p3 = G.Plane_3(P3(a), P3(add(a, b1)), P3(add(a, b2))); vf.check(abs(dot(xyz(p3.normal()), nv)) > 1 - 1e-12, "plane through points"); p4 = G.Plane_3(P3(a), D3(b1), D3(b2), D3(nv)); vf.check(near(xyz(p4.normal()), nv, 1e-14) and near(xyz(p4.base1()), b1, 1e-14), "plane with bases")
                    l = G.Line_3(P3(a), D3(nv)); t = dot(sub(q, a), nv); vf.check(near(xyz(l.projection(P3(q))), add(a, mul(nv, t)), 1e-11) and l.contains(P3(add(a, mul(nv, 3.5)))) and not l.contains(P3(add(a, mul(b1, .5)))) and l.contains(P3(add(a, mul(b1, .5))), .6) and near(xyz(l.direction()), nv, 1e-15), "line")
            vf.outcome("algebra %d" % n)
    if vf.begin("angles"):
        for x in (0, 30, 90, 180, 360, -45, 720, .5): vf.step(); vf.check(vf.close(C.toRadians(float(x)), x * pi / 180, 1e-14 * (1 + abs(x))) and vf.close(C.toDegrees(x * pi / 180), float(x), 1e-12 * (1 + abs(x))), "degrees and radians", x)
        vf.check(PR.Precision.confusion == 1e-7 and 0 < PR.Precision.angular < 1e-6, "precision")
algebra(); single(); pairDistances(); intersections(); contained(); booleans()
vf.finish()
