# C29: the Python constraints, constraints matrix and network builder classes.
# a) every history of setter calls / every pair of entity (list)s against the verdict of an independent evaluation
# b) every history of registrations in the constraints matrix, evaluated for every id and every collection of entity sets
# c) every history of builder calls; the built networks are written after the builder is gone, read back and compared with a cell model
import vfpy as vf, itertools, math, os, gc, re, sys
from pyref import *
from frackit.geometry import *
from frackit.common import Id
from frackit.entitynetwork import EntityNetworkConstraints, EntityNetworkConstraintsMatrix, EntityNetworkBuilder, ContainedEntityNetworkBuilder
from frackit.occutilities import getShape, getFaces, getSolids, readShape
from frackit.io import GmshWriter
vf.init()
P3 = lambda p: Point_3(*p)
#---------------------------------------------------------------- entities with their reference
class Ent:
    """planar convex entity: quadrilateral, polygon, face of a rectangle; disk, face of a disk"""
    def __init__(self, name, kind, ref): self.name, self.kind, self.ref = name, kind, ref
    def real(self):
        k, r = self.kind, self.ref
        if k == "quad": a, b, c, d = r.r; return Quadrilateral_3(P3(a), P3(b), P3(d), P3(c))
        if k == "polygon": return Polygon_3([P3(p) for p in r.r])
        if k == "face": a, b, c, d = r.r; return getShape(Quadrilateral_3(P3(a), P3(b), P3(d), P3(c)))
        d = Disk(Ellipse_3(P3(r.c), Direction_3(Vector_3(*r.mj)), Direction_3(Vector_3(*r.mn)), r.a, r.bb_))
        return d if k == "disk" else getShape(d)
def rect(o, u, v, pose): return RPolygon([pose.p(q) for q in (o, add(o, u), add(add(o, u), v), add(o, v))])
def disk(c, u, v, r, pose): return REllipse(pose.p(c), pose.d(u), pose.d(v), r * pose.s, r * pose.s, True)
def center(e): return e.c if isinstance(e, REllipse) else e.r[0]
def clip(e, o, d):
    """interval of the line o + t d on the convex region e (line within the plane of e)"""
    if isinstance(e, REllipse):
        q = sub(o, e.c); b = dot(q, d); c = dot(q, q) - e.a * e.a; D = b * b - c
        return (-b - sqrt(D), -b + sqrt(D)) if D > 0 else None
    lo, hi = -1e300, 1e300
    for a, b in e.edges:
        n = cross(e.n, sub(b, a)); s, k = dot(sub(o, a), n), dot(d, n)
        if abs(k) < 1e-12 * length(n):
            if s < 0: return None
        elif k > 0: lo = max(lo, -s / k)
        else: hi = min(hi, -s / k)
    return (lo, hi) if lo < hi else None
class NotJudged(Exception): pass
class Pair:
    """exact relation of two entities: intersection segment or distance"""
    def __init__(self, A, B):
        a, b = A.ref, B.ref; self.dist = None; self.coplanar = False; n = cross(a.n, b.n)
        if length(n) < 1e-9:
            if abs(dot(sub(center(b), center(a)), a.n)) < 1e-9: raise NotJudged
            self.seg = None
        else:
            d = unit(n); da, db = dot(a.n, center(a)), dot(b.n, center(b)); c = dot(a.n, b.n); D = 1 - c * c
            o = add(mul(a.n, (da - db * c) / D), mul(b.n, (db - da * c) / D)); x, y = clip(a, o, d), clip(b, o, d); self.seg = None
            if x and y:
                lo, hi = max(x[0], y[0]), min(x[1], y[1])
                if abs(hi - lo) < 1e-4: raise NotJudged
                if lo < hi: self.seg = (add(o, mul(d, lo)), add(o, mul(d, hi))); self.mag = hi - lo; self.angle = math.acos(min(1, abs(c))); self.bd = [e.b(p) for e in (a, b) for p in self.seg]
        if self.seg is None: self.dist = convexDist(a, lambda p: b.d(p))
    def verdict(self, c):
        """c: dict of active constraints"""
        if not any(k in c for k in ("dist", "angle", "mag", "bd")): return True
        def least(v, k, tol):
            if k not in c: return True
            if abs(v - c[k]) < tol: raise NotJudged
            return v >= c[k]
        if self.seg is None: return least(self.dist, "dist", 1e-4)
        return all([least(self.mag, "mag", 1e-4), least(self.angle, "angle", 1e-5), all([d < 1e-6 or least(d, "bd", 1e-4) for d in self.bd])])
SET = {"dist": "setMinDistance", "angle": "setMinIntersectingAngle", "mag": "setMinIntersectionMagnitude", "bd": "setMinIntersectionDistance"}
NEG = {"dist": "neglectMinDistance", "angle": "neglectMinIntersectionAngle", "mag": "neglectMinIntersectionMagnitude", "bd": "neglectMinIntersectionDistance"}
def make(c):
    r = EntityNetworkConstraints()
    for k, v in c.items(): getattr(r, SET[k])(v)
    return r
X, Y, Z = (1., 0., 0.), (0., 1., 0.), (0., 0., 1.)
def alphabet(pose):
    """entities around the unit cube [0, 2]^3 (scaled): base, crossing, partly crossing, tilted, parallel, distant"""
    s3 = sqrt(3) / 2; til = (0., .5, s3)
    R = [("base", rect((0., 0., 0.), (2., 0., 0.), (0., 2., 0.), pose)), ("cross", rect((.5, 1., -1.), (1., 0., 0.), (0., 0., 2.), pose)), ("part", rect((1.25, .25, -.5), (1.5, 0., 0.), (0., 0., 1.), pose)),
         ("tilt", rect((.25, .5, -.25), (1.25, 0., 0.), mul(til, 1.5), pose)), ("above", rect((.5, .5, .375), (1., 0., 0.), (0., 1., 0.), pose)), ("far", rect((3., .5, -.5), (0., 1., 0.), (0., 0., 1.), pose)), ("near", rect((2.25, .5, -.5), (0., 1., 0.), (0., 0., 1.), pose))]
    D = [("dbase", disk((1., 1., 0.), X, Y, 1., pose)), ("dcross", disk((1., 1., .25), Y, Z, .5, pose)), ("dabove", disk((1., 1., .875), X, Y, .5, pose)), ("dnear", disk((2.75, 1., 0.), Y, Z, .5, pose))]
    r = []
    for n, e in R: r += [Ent(n + "." + k, k, e) for k in ("quad", "polygon", "face")]
    for n, e in D: r += [Ent(n + "." + k, k, e) for k in ("disk", "diskface")]
    return r
CFG = [{}, {"dist": .3}, {"dist": .6}, {"dist": 1.1}, {"mag": .6}, {"mag": 1.1}, {"angle": math.pi / 4}, {"angle": math.pi / 2 + .1}, {"bd": .15}, {"bd": .3}, {"bd": 1.2}, {"dist": .3, "mag": .6, "angle": math.pi / 4, "bd": .2}, {"dist": .1, "mag": .1, "angle": .1, "bd": .1}]
def scaled(c, s): return {k: v * (1 if k == "angle" else s) for k, v in c.items()}
_pairs = {}
def relation(A, B):
    k = (A.name, B.name)
    if k not in _pairs:
        try:
            if not supported(A, B): raise NotJudged
            _pairs[k] = Pair(A, B)
        except NotJudged: _pairs[k] = None
    return _pairs[k]
def expect(A, B, c):
    r = relation(A, B)
    if r is None: raise NotJudged
    return r.verdict(c)
def supported(A, B): return {A.kind, B.kind} != {"quad", "polygon"} # intersections of quadrilaterals and polygons are not implemented (in C++ either)
def constraints(pose):
    _pairs.clear(); E = alphabet(pose); real = {e.name: e.real() for e in E}
    for A, B in itertools.product(E, E): # bare pairs: every combination of registered types
        if not vf.begin("pair:%s:%s:%s" % (pose.name, A.name, B.name)): continue
        for i, c0 in enumerate(CFG):
            c = scaled(c0, pose.s)
            try: x = expect(A, B, c)
            except NotJudged: vf.skip(); continue
            ok, r = vf.guarded("pair", lambda: make(c).evaluate(real[A.name], real[B.name])); vf.step()
            if ok: vf.check(r == x, "verdict of a pair", lambda: "%s %s under %s: %s" % (A.name, B.name, c, r)); vf.outcome("pair %s" % x)
    # lists: every (list, entity), (entity, list), (list, list) up to length 2 (3) over a mixed sub-alphabet
    S = [e for e in E if e.name in ("base.quad", "cross.polygon", "above.face", "tilt.quad", "dcross.disk", "dnear.diskface", "far.face")]
    lists = [l for n in range(0, 3) for l in itertools.product(S, repeat=n)]; long = [l for l in itertools.product(S, repeat=3)]
    def conj(L, M, c):
        v = []
        for A in L:
            for B in M:
                try: v.append(expect(A, B, c))
                except NotJudged: v.append(None)
        if any(x is False for x in v) : return False # one rejected member rejects the list (members that are not judged may throw: handled below)
        if any(x is None for x in v): raise NotJudged
        return True
    def judge(L, M, listL, listM):
        for c0 in (CFG[1], CFG[4], CFG[8], CFG[11]):
            c = scaled(c0, pose.s)
            if any(relation(A, B) is None for A in L for B in M): vf.skip(); continue
            try: x = conj(L, M, c)
            except NotJudged: vf.skip(); continue
            a = [real[e.name] for e in L] if listL else real[L[0].name]; b = [real[e.name] for e in M] if listM else real[M[0].name]
            ok, r = vf.guarded("list", lambda: make(c).evaluate(a, b)); vf.step()
            if ok: vf.check(r == x, "verdict of lists", lambda: "%s %s under %s: %s" % ([e.name for e in L] if listL else L[0].name, [e.name for e in M] if listM else M[0].name, c, r)); vf.outcome("list %s" % x)
    nm = lambda L: "+".join(e.name for e in L)
    for L in lists:
        for e in S:
            if vf.begin("le:%s:%s:%s" % (pose.name, nm(L), e.name)): judge(L, (e,), True, False)
            if vf.begin("el:%s:%s:%s" % (pose.name, e.name, nm(L))): judge((e,), L, False, True)
        for M in lists:
            if len(L) + len(M) > (3 if not vf.thorough else 4): continue
            if vf.begin("ll:%s:%s:%s" % (pose.name, nm(L), nm(M))): judge(L, M, True, True)
    for L in long[:: 1 if vf.thorough else 5]:
        if vf.begin("l3:%s:%s" % (pose.name, nm(L))): judge(L, (S[0],), True, False); judge((S[1],), L, False, True)
#---------------------------------------------------------------- histories of setter calls
class Undefined(Exception): pass
OPS = [("dist", .3), ("dist", 1.1), ("angle", math.pi / 4), ("mag", .6), ("mag", 1.1), ("bd", .3), ("-dist", 0), ("-angle", 0), ("-mag", 0), ("-bd", 0), ("eps", 1e-5), ("epsdefault", 0), ("equi", True), ("equi", False)]
def setters():
    pose = poses(("I",), [(0., 0., 0.)], [1.])[0]; _pairs.clear(); E = {e.name: e for e in alphabet(pose)}
    probe = [("base.quad", "cross.quad"), ("base.quad", "tilt.quad"), ("base.quad", "part.face"), ("base.polygon", "above.polygon"), ("base.quad", "far.quad"), ("dbase.disk", "dcross.disk")]; real = {n: E[n].real() for p in probe for n in p}
    plane = {False: [], True: []}; equi = (getShape(E["base.quad"].real()), getShape(Ent("x", "quad", rect((1., 1., 0.), (2., 0., 0.), (0., 2., 0.), pose)).real())) # coplanar faces overlapping in an area
    for d in range(0, 4 if not vf.thorough else 5):
        for h in itertools.product(range(len(OPS)), repeat=d):
            if d >= 3 and not vf.thorough and sum((i + 1) * x for i, x in enumerate(h)) % 4: continue
            if not vf.begin("setters:" + "".join(chr(97 + i) for i in h)): continue
            c, m, eq = EntityNetworkConstraints(), {}, False
            for i in h:
                k, v = OPS[i]
                if k == "eps": c.setIntersectionEpsilon(v)
                elif k == "epsdefault": c.setDefaultIntersectionEpsilon()
                elif k == "equi": c.allowEquiDimensionalIntersections(v); eq = v
                elif k[0] == "-": getattr(c, NEG[k[1:]])(); m.pop(k[1:], None)
                else: getattr(c, SET[k])(v); m[k] = v
            for a, b in probe:
                ok, r = vf.guarded("setters", lambda: c.evaluate(real[a], real[b])); x = expect(E[a], E[b], m); vf.step()
                if ok: vf.check(r == x, "verdict after setters", lambda: "%s: %s %s: %s" % ([OPS[i] for i in h], a, b, r))
            if "bd" not in m and "mag" not in m and "angle" not in m:
                ok, r = vf.guarded("setters", lambda: c.evaluate(*equi)); x = eq or not m; vf.step()
                if ok: vf.check(r == x, "equi-dimensional intersection", lambda: "%s: %s" % ([OPS[i] for i in h], r))
            vf.outcome("setters %d" % len(m))
#---------------------------------------------------------------- constraints matrix
class Mirror: # model: directed relations to constraints
    def __init__(self): self.m = {}
    def add(self, c, pairs):
        for p in pairs:
            if len(p) != 2: return False
            if tuple(p) in self.m: return False
            self.m[tuple(p)] = c
        return True
def matrix():
    pose = poses(("I",), [(0., 0., 0.)], [1.])[0]
    sq = lambda z: Ent("z%g" % z, "quad", rect((0., 0., z), (1., 0., 0.), (0., 1., 0.), pose)).real()
    cand = sq(0.); DIST = {1: .5, 2: 1., 3: 2.}; SETS = {1: [sq(5.), sq(.5)], 2: [sq(1.)], 3: [sq(-2.), Ent("p", "face", rect((0., 0., 7.), (1., 0., 0.), (0., 1., 0.), pose)).real()]}
    LIMIT = [.1, .7, 1.5, 5.]; C = [make({"dist": l}) for l in LIMIT]
    ids = (1, 2, 3); pairs = [[a, b] for a in ids for b in ids]
    ops = [(c, p) for p in pairs for c in (1, 3)] + [(1, [[1, 2], [2, 1]]), (2, [[1, 1], [2, 2], [3, 3]]), (3, [[3, 1], [3, 2]]), (1, [[1, 2], [1, 1], [1, 3]]), (2, [[2, 3], [2, 3]]), (0, [[1, 1]]), (3, []), (3, [1]), (3, [1, 2, 3]), (3, [[1, 2, 3]]), (1, "pair"), (2, [[2, 1], [1]])]
    bare = lambda p: not isinstance(p[0], list) if isinstance(p, list) and p else False
    for keyed in ("int", "Id"):
        K = (lambda i: i) if keyed == "int" else (lambda i: Id(i))
        conv = lambda p: [conv(q) if isinstance(q, list) else K(q) for q in p] if isinstance(p, list) else p
        for d in range(0, 4):
            for h in itertools.product(range(len(ops)), repeat=d):
                if d == 3 and sum((i + 1) * x for i, x in enumerate(h)) % (3 if vf.thorough else 41): continue
                if d == 2 and keyed == "Id" and not vf.thorough and (h[0] + 3 * h[1]) % 5: continue
                if not vf.begin("matrix:%s:%s" % (keyed, ".".join(map(str, h)))): continue
                M, W = EntityNetworkConstraintsMatrix(), Mirror(); H = lambda: [(LIMIT[ops[i][0]], ops[i][1]) for i in h]; fine = True
                for i in h:
                    c, p = ops[i]; legal = isinstance(p, list) and W.add(c, [p] if bare(p) else p)
                    try: M.addConstraints(C[c], conv(p)); threw = None
                    except Exception as e: threw = e
                    vf.step(); fine &= vf.check((threw is None) == bool(legal), "registration", lambda: "%s at %s: %s" % (H(), p, threw)) and (threw is None or vf.check(isinstance(threw, RuntimeError), "registration error type", lambda: repr(threw)))
                if not fine: continue
                for who in ids:
                    if not any(a == who for a, b in W.m): continue # an id without relation: documented difference to C++, not judged
                    for s in range(8):
                        has = [i for i in ids if s & (1 << (i - 1))]; es = {K(i): list(SETS[i]) for i in has}
                        x = all(DIST[b] >= LIMIT[c] for (a, b), c in W.m.items() if a == who and b in has)
                        ok, r = vf.guarded("matrix", lambda: M.evaluate(es, cand, K(who))); vf.step()
                        if ok: vf.check(r == x, "verdict of the matrix", lambda: "%s sets %s id %d: %s" % (H(), has, who, r)); vf.outcome("matrix %s" % x)
                        if s == 7: vf.check(all(len(es[K(i)]) == len(SETS[i]) for i in ids) and len(es) == 3, "entity sets unchanged", "")
#---------------------------------------------------------------- network builders: cell model
class LRect:
    def __init__(self, ax, c, u0, u1, v0, v1): self.ax, self.c, self.u, self.v = ax, c, (u0, u1), (v0, v1)
    def at(self, u, v): p = [0., 0., 0.]; p[self.ax] = float(self.c); p[(self.ax + 1) % 3] = float(u); p[(self.ax + 2) % 3] = float(v); return tuple(p)
    def cells(self): return {(self.ax, self.c, i, j) for i in range(*self.u) for j in range(*self.v)}
    def real(self, kind):
        a, b, c, d = (P3(self.at(u, v)) for u, v in ((self.u[0], self.v[0]), (self.u[1], self.v[0]), (self.u[1], self.v[1]), (self.u[0], self.v[1])))
        return Quadrilateral_3(a, b, d, c) if kind == "quad" else Polygon_3([a, b, c, d]) if kind == "polygon" else getShape(Quadrilateral_3(a, b, d, c))
def mid(q): ax, c, i, j = q; p = [0., 0., 0.]; p[ax] = float(c); p[(ax + 1) % 3] = i + .5; p[(ax + 2) % 3] = j + .5; return p
def sides(q):
    ax, c, i, j = q; r = []
    for k in (c - 1, c): p = [0, 0, 0]; p[ax] = k; p[(ax + 1) % 3] = i; p[(ax + 2) % 3] = j; r.append(tuple(p))
    return r
def cubes(b): return {(i, j, k) for i in range(b[0], b[3]) for j in range(b[1], b[4]) for k in range(b[2], b[5])}
def bcells(cs):
    r = set()
    for c in cs:
        for ax in range(3):
            for s in (0, 1): r ^= {(ax, c[ax] + s, c[(ax + 1) % 3], c[(ax + 2) % 3])}
    return r
CELLS = [(ax, c, i, j) for ax in range(3) for c in range(4) for i in range(3) for j in range(3)]
MIDS = [(q, mid(q)) for q in CELLS]
def cellsOf(face):
    b = getBoundingBox(face); lo, hi = (b.xMin(), b.yMin(), b.zMin()), (b.xMax(), b.yMax(), b.zMax())
    return {q for q, m in MIDS if all(l - 1e-3 < x < h + 1e-3 for l, x, h in zip(lo, m, hi)) and computeDistance(Point_3(*m), face) < 1e-5}
class Model:
    def __init__(self): self.doms, self.nets, self.union = {}, {}, True
    def expected(self, contained):
        r = {}; judged = True; uni = set().union(*[cubes(b) for b, c in self.doms.values()]) if self.doms else set()
        for i, n in self.nets.items():
            d = self.doms.get(i); conf = None if d is None else cubes(d[0]) if d[1] else uni if self.union else None
            for k, e in enumerate(n):
                r[i, k + 1] = {q for q in e.cells() if conf is None or any(s in conf for s in sides(q))}
                if conf is not None and not d[1] and len(self.doms) > 1 and any((sides(q)[0] in conf) != (sides(q)[1] in conf) for q in r[i, k + 1]): judged = False
        return r, judged
E0, E1, E2, E3 = LRect(2, 1, 0, 3, 0, 3), LRect(0, 1, 0, 3, 0, 3), LRect(1, 1, 0, 2, 1, 3), LRect(0, 2, 1, 3, 0, 2)
B1, B5, B5b = (0, 0, 0, 2, 3, 3), (1, 0, 0, 3, 3, 2), (1, 1, 0, 3, 3, 3)
BOPS = ["add E0", "add list E1 E2", "add E1 to 5", "add list E2 E3 to 5", "confine 5", "domain 5", "confine 1", "add list E0 to 1", "union off", "eps", "clear", "build", "add nothing"]
def wrap(b): return Box(*map(float, b))
def domain(b, kind): return wrap(b) if kind == "box" else getShape(wrap(b))
def files(prefix):
    geo = open(prefix + ".geo").read(); vol, sur = {}, {}
    for t, i, l in re.findall(r"Physical (Volume|Surface)\((\d+)\) = \{([^}]*)\}", geo): (vol if t == "Volume" else sur)[int(i)] = [int(x) for x in l.split(",")]
    return vol, sur, readShape(prefix + ".brep")
def builders(contained):
    KIND = ["quad", "polygon", "face"]; B = ContainedEntityNetworkBuilder if contained else EntityNetworkBuilder
    def apply(b, w, op, k):
        ent = lambda e, j=0: e.real(KIND[(k + j) % 3]); put = lambda i, *e: w.nets.setdefault(i, []).extend(e)
        if op == "add E0": (b.addSubDomainEntity(ent(E0), Id(0)) if contained else b.addEntity(ent(E0))); put(0, E0)
        elif op == "add list E1 E2": l = [ent(E1), ent(E2, 1)]; (b.addSubDomainEntities(l, Id(0)) if contained else b.addEntities(l)); put(0, E1, E2)
        elif op == "add E1 to 5": b.addSubDomainEntity(ent(E1), Id(5)); put(5, E1)
        elif op == "add list E2 E3 to 5": b.addSubDomainEntities([ent(E2), ent(E3, 1)], Id(5)); put(5, E2, E3)
        elif op == "add list E0 to 1": b.addSubDomainEntities([ent(E0, 2)], Id(1)); put(1, E0)
        elif op == "add nothing": b.addSubDomainEntities([], Id(5))
        elif op in ("confine 5", "domain 5", "confine 1"):
            i = int(op[-1]); box = B1 if i == 1 else B5 if op == "confine 5" else B5b; dup = i in w.doms
            try: (b.addConfiningSubDomain if op[0] == "c" else b.addSubDomain)(domain(box, ("box", "solid")[k % 2]), Id(i)); threw = False
            except Exception: threw = True
            vf.check(threw == dup, "duplicate sub-domain id", lambda: "throws: %s" % threw)
            if not dup: w.doms[i] = (box, op[0] == "c")
        elif op == "union off": b.setConfineToSubDomainUnion(False); w.union = False
        elif op == "eps": b.setEpsilon(1e-6); b.setDefaultEpsilon()
        elif op == "clear": b.clear(); w.doms, w.nets = {}, {}
    def judge(prefix, w, H):
        ok, f = vf.guarded("files", lambda: files(prefix))
        if not ok: return
        vol, sur, shape = f; x, judged = w.expected(contained); faces = getFaces(shape); got = [(f, cellsOf(f)) for f in faces]; vf.step(len(faces)); area = [computeMagnitude(f) for f in faces]
        vf.check(all(abs(a - len(c)) < 1e-5 for a, (f, c) in zip(area, got)), "fragment shapes", lambda: "%s: areas %s cells %s" % (H, area, [len(c) for f, c in got]))
        all_, want = set().union(*[c for f, c in got]) if got else set(), set().union(*[c for (i, k), c in x.items() if not contained or i in w.doms] + [set()])
        if contained: want |= set().union(*[bcells(cubes(b)) for b, c in w.doms.values()]) if w.doms else set()
        if contained: all_ -= set().union(*[c for (i, k), c in x.items() if i not in w.doms] + [set()]) - want # entities of ids without sub-domain: not judged
        vf.check(all_ == want, "point set of the network", lambda: "%s: missing %s extra %s" % (H, sorted(want - all_)[:4], sorted(all_ - want)[:4]))
        if contained:
            S = getSolids(shape); v = sum(computeMagnitude(s) for s in S); u = set().union(*[cubes(b) for b, c in w.doms.values()]) if w.doms else set()
            vf.check(abs(v - len(u)) < 1e-4, "volume of the sub-domains", lambda: "%s: %g, expected %d" % (H, v, len(u))); vf.check(set(vol) == set(w.doms), "volume groups", lambda: "%s: %s" % (H, sorted(vol)))
            if len(w.doms) == 1 and len(vol) == 1: vf.check(sorted(list(vol.values())[0]) == list(range(1, len(S) + 1)), "volume group lists every solid once", lambda: "%s: %s of %d" % (H, vol, len(S)))
        else:
            vf.check(not vol, "volume groups", lambda: "%s: %s" % (H, vol)); idx = sorted(j for l in sur.values() for j in l)
            if not vf.check(idx == list(range(1, len(faces) + 1)), "surface groups number every face once", lambda: "%s: %s of %d" % (H, idx, len(faces))): return
            # groups: one per entity; cells shared by coplanar entities belong to any of them (the alphabet has no coplanar overlap)
            g = sorted(sorted(set().union(*[got[j - 1][1] for j in l])) for l in sur.values()); e = sorted(sorted(c) for c in x.values() if c)
            # cells of coincident entities are attributed to one of them
            seen = {}; dupl = False
            for c in x.values():
                for q in c: seen[q] = seen.get(q, 0) + 1
            if max(list(seen.values()) + [0]) <= 1: vf.check(g == e, "surface groups are the entities", lambda: "%s: %s, expected %s" % (H, [len(c) for c in g], [len(c) for c in e]))
        vf.outcome("%s %d entities %d domains" % ("contained" if contained else "network", len(x), len(w.doms)))
    depth = 4 if vf.thorough else 3
    for d in range(1, depth + 1):
        for h in itertools.product(range(len(BOPS)), repeat=d):
            if d == 4 and sum((i + 2) * x for i, x in enumerate(h)) % 4: continue
            if any(a == b and BOPS[a] in ("clear", "build", "union off", "eps", "add nothing") for a, b in zip(h, h[1:])): continue
            w = Model()
            names = [BOPS[i] for i in h]
            for n in names:
                pass
            if not any(n.startswith("add") for n in names): continue
            if not vf.begin("builder:%d:%s" % (contained, "".join(chr(97 + i) for i in h))): continue
            b = B(); nets = []; fine = True
            for k, n in enumerate(names):
                vf.step()
                if n == "build":
                    if not w.nets or not any(w.nets.values()): continue
                    ok, r = vf.guarded("build", lambda: b.build()); fine &= ok
                    if ok: m = Model(); m.doms, m.nets, m.union = dict(w.doms), {i: list(l) for i, l in w.nets.items()}, w.union; nets.append((r, m, names[:k + 1])); nets = [n for n in nets if not contained or n[1].doms] # contained networks without sub-domain cannot be written
                else:
                    ok, r = vf.guarded("call", lambda: apply(b, w, n, k + sum(h)))
                    fine &= ok
            if not fine: continue
            if any(w.nets.values()) and names[-1] != "build":
                ok, r = vf.guarded("build", lambda: b.build())
                if ok and (not contained or w.doms): nets.append((r, w, names))
            del b; gc.collect(0)
            writers = [GmshWriter(n[0]) for n in nets]; info = [(m, H) for _, m, H in nets]; nets = None; r = None; gc.collect(0)
            for i, (m, H) in enumerate(info):
                if not any(m.expected(contained)[0].values()) and not contained: continue
                ok, _ = vf.guarded("write", lambda: writers[i].write("n%d" % i, .5, .7) if i % 2 else writers[i].write("n%d" % i, .5))
                if ok: judge("n%d" % i, m, H)
# a list is one call per member, for every entity type
def listEqualsMembers():
    pose = poses(("I",), [(0., 0., 0.)], [1.])[0]; E = {e.name: e for e in alphabet(pose)}; names = ["base.quad", "cross.polygon", "part.face", "dcross.disk", "dabove.diskface"]
    def summary(prefix): vol, sur, sh = files(prefix); F = getFaces(sh); a = [computeMagnitude(f) for f in F]; return sorted(round(sum(a[j - 1] for j in l), 4) for l in sur.values()), len(F), sorted(vol)
    for n in range(1, 4):
        for l in itertools.product(names, repeat=n):
            if n == 3 and not vf.thorough and sum((i + 1) * names.index(x) for i, x in enumerate(l)) % 5: continue
            if len(set(l)) < n: continue
            if not vf.begin("members:" + "+".join(l)): continue
            res = []
            for mode in range(4):
                b = EntityNetworkBuilder(); ents = [E[x].real() for x in l]
                if mode == 0: b.addEntities(ents)
                elif mode == 1: [b.addEntity(e) for e in ents]
                elif mode == 2: b.addSubDomainEntities(ents, Id(3))
                else: [b.addSubDomainEntity(e, Id(3)) for e in ents]
                vf.step(n); GmshWriter(b.build()).write("m", .5); res.append(summary("m"))
            want = sorted(round(E[x].ref.m, 4) for x in l)
            for m, r in enumerate(res): vf.check(len(r[0]) == n and all(abs(a - c) < 2e-3 for a, c in zip(r[0], want)), "areas of the entities", lambda: "mode %d: %s, expected %s" % (m, r, want)); vf.check(r[1] == res[1][1] and r[2] == res[1][2], "list equals members", lambda: "mode %d: %s, one by one %s" % (m, r, res[1]))
            vf.outcome("members %d" % n)
class Quiet: # the C++ part reports on the standard output
    def __enter__(self): sys.stdout.flush(); self.o = os.dup(1); self.n = os.open(os.devnull, os.O_WRONLY); os.dup2(self.n, 1); sys.__stdout__ = os.fdopen(os.dup(self.o), "w"); return self
    def __exit__(self, *a): pass
with Quiet():
    for p in poses(("I", "O122") if not vf.thorough else ("I", "L", "O122", "O236"), [(0., 0., 0.)], [1.]) + poses(("F",), [(1., 2., -1.)], [100.]): constraints(p)
    setters(); matrix(); builders(False); builders(True); listEqualsMembers()
    vf.finish()
