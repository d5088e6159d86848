// Geometries with exact point distances, support functions and bounding curves, placed in a scene.
#pragma once
#include "cylsect.hh"
#include "gjk.hh"
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/ellipse.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/occ/breputilities.hh>
#include <frackit/intersection/emptyintersection.hh>
#include <frackit/distance/distance.hh>
#include <BRepBuilderAPI_MakeVertex.hxx>
#include <BRepBuilderAPI_MakeEdge.hxx>
#include <BRepBuilderAPI_MakeWire.hxx>
#include <BRepBuilderAPI_MakeFace.hxx>
#include <BRepBuilderAPI_MakePolygon.hxx>
#include <BRepPrimAPI_MakeBox.hxx>
#include <BRepPrimAPI_MakeSphere.hxx>
#include <BRepPrimAPI_MakeCylinder.hxx>
#include <gp_Elips.hxx>
#include <TopExp_Explorer.hxx>
#include <TopoDS.hxx>
#include <BRep_Tool.hxx>
#include <BRepAdaptor_Curve.hxx>
#include <gp_Cylinder.hxx>
using namespace Frackit; using namespace ref;
struct Ent { char k; std::string name; R a = 0, b = 0, c = 0, d = 0; Shape2 S;
    R size() const { return k == 'p' ? 0.1L : S.kind ? S.size() : std::max({a, b, k == 'C' || k == 'L' ? c : (R)0, k == 'B' ? c : (R)0}); } };
//! exact distance of a local point to the closed set
static R localDist(const Ent& e, const V& q)
{
    switch (e.k) { case 'p': return q.len(); case 's': return distSeg(q, {0, 0, 0}, {e.a, e.b, e.c}); case 'D': return distDisk(q, e.a, e.b); case 'Q': case 'P': return distPoly(q, e.S.ring);
        case 'B': return distBox(q, {0, 0, 0}, {e.a, e.b, e.c}); case 'C': return distTube(q, 0, e.a, e.c); case 'S': return std::max((R)0, q.len() - e.a); case 'c': case 'e': return distEllipse(q, e.a, e.b);
        case 'a': return distArc(q, e.a, e.b, e.c, e.d); case 'L': { R dr = std::hypot(q.x, q.y) - e.a, dz = q.z < 0 ? -q.z : q.z > e.c ? q.z - e.c : 0; return std::hypot(dr, dz); } } return -1;
}
static R sceneDist(const Ent& e, const Frame& F, const V& p) { return localDist(e, toLocal(F, p)); }
static bool isConvex(const Ent& e) { return std::string("psDQPBCS").find(e.k) != std::string::npos; }
static bool isCurve(const Ent& e) { return std::string("scea").find(e.k) != std::string::npos; }
static Support support(const Ent& e, const Frame& F)
{
    auto m = [&](const V& v) { return toScene(F, v); }; const V o = m({0, 0, 0});
    switch (e.k) { case 'p': return supPoints({o}); case 's': return supPoints({o, m({e.a, e.b, e.c})}); case 'D': return supEllipse(o, F.cx * e.a, F.cy * e.b); case 'Q': case 'P': { std::vector<V> c; for (auto& p : e.S.ring) c.push_back(m(p)); return supPoints(c); }
        case 'B': { std::vector<V> c; for (int i = 0; i < 8; ++i) c.push_back(m({i & 1 ? e.a : 0, i & 2 ? e.b : 0, i & 4 ? e.c : 0})); return supPoints(c); } case 'C': return supTube(o, F.cx * e.a, F.cy * e.a, F.cz * e.c); case 'S': return supBall(o, e.a); }
    return {};
}
using Curve = std::pair<std::function<V(R)>, std::pair<R, R>>;
static Curve seg(const V& a, const V& b) { return {[=](R t) { return a + (b - a) * t; }, {0, 1}}; }
//! the entity itself (curves) resp. its bounding curves, in scene coordinates
static std::vector<Curve> curves(const Ent& e, const Frame& F)
{
    auto ell = [&](R a, R b, R z, R lo, R hi) -> Curve { Frame G = F; return {[=](R t) { return toScene(G, {a * std::cos(t), b * std::sin(t), z}); }, {lo, hi}}; };
    switch (e.k) { case 's': return {seg(toScene(F, {0, 0, 0}), toScene(F, {e.a, e.b, e.c}))}; case 'c': case 'e': case 'D': return {ell(e.a, e.b, 0, -PI, PI)}; case 'a': return {ell(e.a, e.b, 0, e.c, e.d)}; case 'L': return {ell(e.a, e.a, 0, -PI, PI), ell(e.a, e.a, e.c, -PI, PI)};
        case 'Q': case 'P': { std::vector<Curve> r; size_t n = e.S.ring.size(); for (size_t i = 0; i < n; ++i) r.push_back(seg(toScene(F, e.S.ring[i]), toScene(F, e.S.ring[(i + 1) % n]))); return r; } }
    return {};
}
static R minAlong(const Curve& c, const std::function<R(const V&)>& f)
{
    const int N = 180; const R lo = c.second.first, hi = c.second.second, h = (hi - lo) / N; std::vector<R> v(N + 1); for (int i = 0; i <= N; ++i) v[i] = f(c.first(lo + i * h)); R best = *std::min_element(v.begin(), v.end());
    for (int i = 0; i <= N; ++i) if ((i == 0 || v[i] <= v[i - 1]) && (i == N || v[i] <= v[i + 1]) && v[i] < best + 2 * h * (1 + 0)) { const bool closed = hi - lo > 2 * PI - 1e-12L; R a = lo + (closed ? i - 1 : std::max(0, i - 1)) * h, b = lo + (closed ? i + 1 : std::min(N, i + 1)) * h; for (int k = 0; k < 70; ++k) { R m = a + (b - a) / 3, n = b - (b - a) / 3; if (f(c.first(m)) < f(c.first(n))) b = n; else a = m; } best = std::min(best, f(c.first((a + b) / 2))); }
    return best;
}
//! reference distance; negative: not covered by the oracle
static R refDist(const Ent& A, const Frame& FA, const Ent& B, const Frame& FB)
{
    if (A.k == 'p') return sceneDist(B, FB, FA.t); if (B.k == 'p') return sceneDist(A, FA, FB.t);
    if (A.k == 'S' && !isConvex(B)) return std::max((R)0, sceneDist(B, FB, FA.t) - A.a); if (B.k == 'S' && !isConvex(A)) return std::max((R)0, sceneDist(A, FA, FB.t) - B.a);
    if (isConvex(A) && isConvex(B)) { auto g = gjk(support(A, FA), support(B, FB)); if (g.gap > 1e-8L) return -1; return g.dist; }
    if (isCurve(A)) return minAlong(curves(A, FA)[0], [&](const V& p) { return sceneDist(B, FB, p); }); if (isCurve(B)) return minAlong(curves(B, FB)[0], [&](const V& p) { return sceneDist(A, FA, p); });
    const bool swap = A.k != 'L'; const Ent& L = swap ? B : A; const Frame& FL = swap ? FB : FA; const Ent& X = swap ? A : B; const Frame& FX = swap ? FA : FB; if (L.k != 'L') return -1;
    auto planar = [&](const Ent& Y, const Frame& FY) {
        R d = 1e300L; for (auto& c : curves(Y, FY)) d = std::min(d, minAlong(c, [&](const V& p) { return sceneDist(L, FL, p); })); for (auto& c : curves(L, FL)) d = std::min(d, minAlong(c, [&](const V& p) { return sceneDist(Y, FY, p); }));
        // planes parallel to the axis: the generator lines facing the plane; otherwise an interior crossing is a closed ellipse
        V n = FL.invRot(FY.cz); if (std::abs(n.z) < 1e-12L) { for (int s : {-1, 1}) { V g{n.x * L.a * s, n.y * L.a * s, 0}; d = std::min(d, minAlong(seg(toScene(FL, g), toScene(FL, g + V{0, 0, L.c})), [&](const V& p) { return sceneDist(Y, FY, p); })); } }
        else { R h0 = n.dot(toLocal(FL, FY.t)) / n.z; bool in = true; for (int i = 0; i < 720 && in; ++i) { R t = i * PI / 360; V p{L.a * std::cos(t), L.a * std::sin(t), h0 - (n.x * L.a * std::cos(t) + n.y * L.a * std::sin(t)) / n.z}; if (p.z < 0 || p.z > L.c || sceneDist(Y, FY, toScene(FL, p)) > 1e-12L) in = false; } if (in) d = 0; }
        return d; };
    if (X.k == 'D' || X.k == 'Q' || X.k == 'P') return planar(X, FX);
    if (X.k == 'B')
    {
        R d = 1e300L; if (sceneDist(X, FX, toScene(FL, {L.a, 0, 0})) == 0) return 0; Pose e; const V dim{X.a, X.b, X.c};
        for (int ax = 0; ax < 3; ++ax) for (int hi = 0; hi < 2; ++hi) { Pose q; if (ax == 0) { q.cx = {0, 1, 0}; q.cy = {0, 0, 1}; q.cz = {1, 0, 0}; } else if (ax == 1) { q.cx = {0, 0, 1}; q.cy = {1, 0, 0}; q.cz = {0, 1, 0}; } R u = ax == 0 ? dim.y : ax == 1 ? dim.z : dim.x, v = ax == 0 ? dim.z : ax == 1 ? dim.x : dim.y, w = hi ? (ax == 0 ? dim.x : ax == 1 ? dim.y : dim.z) : 0;
            Ent Y{'Q', "face", 0, 0, 0, 0, ring2('Q', "f", {{0, 0, 0}, {u, 0, 0}, {u, v, 0}, {0, v, 0}})}; Frame G; auto cmp = [&](const V& a) { return FX.cx * a.x + FX.cy * a.y + FX.cz * a.z; }; G.cx = cmp(q.cx); G.cy = cmp(q.cy); G.cz = cmp(q.cz); G.t = toScene(FX, q.cz * w); G.s = 1; d = std::min(d, planar(Y, G)); }
        return d;
    }
    return -1;
}
template<class Fn> static void withEnt(const Ent& e, const Frame& F, const Pose& T, Fn&& f)
{
    auto P = [&](const V& l) { return pt(T.map(toScene(F, l))); }; auto D = [&](const V& l) { return dir(T.rot(F.rot(l))); }; const double s = double(T.s);
    switch (e.k) { case 'p': return f(P({0, 0, 0})); case 's': return f(Segment<double, 3>(P({0, 0, 0}), P({e.a, e.b, e.c}))); case 'D': return f(Disk<double>(P({0, 0, 0}), D({1, 0, 0}), D({0, 1, 0}), double(e.a) * s, double(e.b) * s)); case 'Q': return f(mkQuad(e.S, F, T)); case 'P': return f(mkPoly(e.S, F, T));
        case 'B': { V p = T.map(toScene(F, {0, 0, 0})), q = T.map(toScene(F, {e.a, e.b, e.c})); return f(Box<double>(double(std::min(p.x, q.x)), double(std::min(p.y, q.y)), double(std::min(p.z, q.z)), double(std::max(p.x, q.x)), double(std::max(p.y, q.y)), double(std::max(p.z, q.z)))); }
        case 'C': return f(Cylinder<double>(Circle<double, 3>(P({0, 0, 0}), D({0, 0, 1}), double(e.a) * s), double(e.c) * s)); case 'L': return f(CylinderSurface<double>(Circle<double, 3>(P({0, 0, 0}), D({0, 0, 1}), double(e.a) * s), double(e.c) * s)); case 'S': return f(Sphere<double>(P({0, 0, 0}), double(e.a) * s));
        case 'c': return f(Circle<double, 3>(P({0, 0, 0}), D({0, 0, 1}), double(e.a) * s)); case 'e': return f(Ellipse<double, 3>(P({0, 0, 0}), D({1, 0, 0}), D({0, 1, 0}), double(e.a) * s, double(e.b) * s));
        case 'a': { Ellipse<double, 3> el(P({0, 0, 0}), D({1, 0, 0}), D({0, 1, 0}), double(e.a) * s, double(e.b) * s); return f(EllipseArc<double, 3>(el, P({e.a * std::cos(e.c), e.b * std::sin(e.c), 0}), P({e.a * std::cos(e.d), e.b * std::sin(e.d), 0}))); } }
}
//! the same entity built directly with the kernel (independently of Frackit's conversions)
static TopoDS_Shape kernelShape(const Ent& e, const Frame& F, const Pose& T, R spin = 0)
{
    auto P = [&](const V& l) { V v = T.map(toScene(F, l)); return gp_Pnt(double(v.x), double(v.y), double(v.z)); }; auto D = [&](const V& l) { V v = T.rot(F.rot(l)); return gp_Dir(double(v.x), double(v.y), double(v.z)); }; const double s = double(T.s), a = double(e.a) * s, b = double(e.b) * s, c = double(e.c) * s; if (e.a != e.b && e.k != 'C' && e.k != 'L') spin = 0; const gp_Ax2 ax(P({0, 0, 0}), D({0, 0, 1}), D({std::cos(spin), std::sin(spin), 0}));
    switch (e.k) { case 'p': return BRepBuilderAPI_MakeVertex(P({0, 0, 0})); case 's': return BRepBuilderAPI_MakeEdge(P({0, 0, 0}), P({e.a, e.b, e.c})); case 'B': { V p = T.map(toScene(F, {0, 0, 0})), q = T.map(toScene(F, {e.a, e.b, e.c})); return BRepPrimAPI_MakeBox(gp_Pnt(double(p.x), double(p.y), double(p.z)), gp_Pnt(double(q.x), double(q.y), double(q.z))).Solid(); }
        case 'C': return BRepPrimAPI_MakeCylinder(ax, a, c).Solid(); case 'S': return BRepPrimAPI_MakeSphere(gp_Ax2(P({0, 0, 0}), gp_Dir(0, 0, 1)), a).Solid(); case 'L': return BRepBuilderAPI_MakeFace(gp_Cylinder(gp_Ax3(ax), a), 0, 2 * M_PI, 0, c).Face(); case 'a': return BRepBuilderAPI_MakeEdge(gp_Elips(ax, a, b), double(e.c - spin), double(e.d - spin)).Edge();
        case 'Q': case 'P': { BRepBuilderAPI_MakePolygon m; for (auto& v : e.S.ring) m.Add(P(v)); m.Close(); return BRepBuilderAPI_MakeFace(m.Wire()).Face(); } default: break; }
    TopoDS_Wire w = BRepBuilderAPI_MakeWire(BRepBuilderAPI_MakeEdge(gp_Elips(ax, a, b)).Edge()).Wire(); if (e.k == 'D') return BRepBuilderAPI_MakeFace(w).Face(); return w;
}
//! edges and vertices of the shape lie on the entity and its curves on the shape (the shape is the entity)
static bool shapeIs(const TopoDS_Shape& s, const Ent& e, const Frame& F, const Pose& T)
{
    const R tol = 1e-6L * e.size() * T.s + 1e-7L; auto on = [&](const gp_Pnt& p) { return sceneDist(e, F, T.inv({p.X(), p.Y(), p.Z()})) * T.s <= tol; };
    for (TopExp_Explorer x(s, TopAbs_VERTEX); x.More(); x.Next()) if (!on(BRep_Tool::Pnt(TopoDS::Vertex(x.Current())))) return false;
    for (TopExp_Explorer x(s, TopAbs_EDGE); x.More(); x.Next()) { if (BRep_Tool::Degenerated(TopoDS::Edge(x.Current()))) continue; BRepAdaptor_Curve c(TopoDS::Edge(x.Current())); for (int i = 0; i <= 10; ++i) if (!on(c.Value(c.FirstParameter() + (c.LastParameter() - c.FirstParameter()) * i / 10))) return false; }
    for (auto& c : curves(e, F)) for (int i = 0; i <= 10; ++i) { V p = T.map(c.first(c.second.first + (c.second.second - c.second.first) * i / 10)); if (BRepExtrema_DistShapeShape(BRepBuilderAPI_MakeVertex(gp_Pnt(double(p.x), double(p.y), double(p.z))), s).Value() > tol) return false; }
    return true;
}
static const char* fam(char k) { switch (k) { case 'p': return "point"; case 's': return "segment"; case 'D': return "disk"; case 'Q': return "quad"; case 'P': return "polygon"; case 'B': return "box"; case 'C': return "cylinder"; case 'S': return "sphere"; case 'c': return "circle"; case 'e': return "ellipse"; case 'a': return "arc"; default: return "cylsurface"; } }
