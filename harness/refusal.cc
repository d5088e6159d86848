// C31: requests that are invalid or not supported are refused with an exception, never answered wrongly, and change nothing.
#include <bits/stdc++.h>
#include <gp_Ax3.hxx>
#include <Extrema_POnSurf.hxx>
#include <frackit/geometry/triangle.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/intersection/intersect.hh>
#include <frackit/intersection/intersectionangle.hh>
#include <frackit/distance/distance.hh>
#include <frackit/distance/distancetoboundary.hh>
#include <frackit/distance/pointonboundary.hh>
#include <frackit/geometryutilities/applyongeometry.hh>
#include <frackit/entitynetwork/constraints.hh>
#include <frackit/io/brepwriter.hh>
#include <frackit/io/gmshwriter.hh>
#include <TopoDS_Shell.hxx>
#include <BRepBuilderAPI_MakeEdge.hxx>
#include <sys/stat.h>
#include "net.hh"
#include "planar.hh"
using namespace Frackit; using namespace ref; using namespace net;
using D3 = Disk<double>; using Q3 = Quadrilateral<double, 3>; using Po3 = Polygon<double, 3>; using S3 = Segment<double, 3>;
struct Hush { std::streambuf* o; std::ostringstream s; Hush() : o(std::cout.rdbuf(s.rdbuf())) {} ~Hush() { std::cout.rdbuf(o); } };
//! refused: any exception counts; the state of the world afterwards is the business of the caller
template<class F> static bool refused(F&& f) { Hush q; try { f(); return false; } catch (...) { return true; } }
template<class F> static void must(bool refuse, const std::string& what, const std::string& req, F&& f)
{ vf::step(); const bool r = refused(f); vf::check(r == refuse, what, [&] { return req + (refuse ? " is answered instead of refused" : " is refused"); }); vf::outcome(what + (refuse ? ": invalid" : ": valid")); }

// ---------------------------------------------------------------- every operation on every pair of kinds
static TopoDS_Shell shellOf(const TopoDS_Solid& s) { TopExp_Explorer x(s, TopAbs_SHELL); return TopoDS::Shell(x.Current()); }
struct Catalogue
{
    FP o{0., 0., 0.};
    std::tuple<FP, S3, Line<double, 3>, Plane<double, 3>, Circle<double, 3>, Ellipse<double, 3>, EllipseArc<double, 3>, D3, Triangle<double, 3>, Q3, Po3, Box<double>, Cylinder<double>, CylinderSurface<double>, Sphere<double>,
               TopoDS_Vertex, TopoDS_Edge, TopoDS_Wire, TopoDS_Face, TopoDS_Shell, TopoDS_Solid> g;
    static constexpr const char* N[] = {"Point", "Segment", "Line", "Plane", "Circle", "Ellipse", "EllipseArc", "Disk", "Triangle", "Quadrilateral", "Polygon", "Box", "Cylinder", "CylinderSurface", "Sphere", "Vertex", "Edge", "Wire", "Face", "Shell", "Solid"};
    static V at(const Pose& P, const V& v) { return P.map(v); }
    Catalogue(const Pose& P) : g(make(P)) {}
    static decltype(g) make(const Pose& P)
    {
        auto p = [&](double x, double y, double z) { return pt(P.map({x, y, z})); }; auto d = [&](double x, double y, double z) { return dir(P.rot({x, y, z})); };
        Ellipse<double, 3> el(p(0, 0, 0), d(1, 0, 0), d(0, 1, 0), 2., 1.); Box<double> bx(-1., -1., -1., 1., 1., 1.); const auto bs = OCCUtilities::getShape(bx); Q3 q(p(-1, -1, .1), p(1, -1, .2), p(-1, 1, .1), p(1, 1, .2)); Q3 q2(p(-1, -1, -1), p(1, -1, 1), p(-1, 1, -1), p(1, 1, 1));
        return {p(.1, .2, .3), S3(p(-1, 0, 0), p(1, .5, .5)), Line<double, 3>(p(0, 0, 0), d(1, 2, 2)), Plane<double, 3>(p(0, 0, 0), d(1, 0, 3)), Circle<double, 3>(p(0, 0, 0), d(0, 0, 1), 1.), el, EllipseArc<double, 3>(el, el.getPoint(0.), el.getPoint(.3)),
            D3(p(0, 0, 0), d(1, 0, 0), d(0, 1, 0), 2., 1.), Triangle<double, 3>(p(-1, -1, 0), p(1, -1, .5), p(0, 1, .2)), q, Po3(std::vector<FP>{p(-1, -1, -.5), p(1, -1, .5), p(1, 1, .5), p(-1, 1, -.5)}), bx, Cylinder<double>(1., 2.), CylinderSurface<double>(1., 2.),
            Sphere<double>(p(0, 0, 0), 1.), OCCUtilities::getShape(p(0, 0, 0)), TopoDS_Edge(OCCUtilities::getShape(S3(p(-1, 0, 0), p(1, .5, .5)))), TopoDS_Wire(OCCUtilities::getShape(el)), TopoDS_Face(OCCUtilities::getShape(q2)), shellOf(bs), bs};
    }
};
enum { POINT, SEGMENT, LINE, PLANE, CIRCLE, ELLIPSE, ARC, DISK, TRIANGLE, QUAD, POLYGON, BOX, CYLINDER, CYLSURF, SPHERE, VERTEX, EDGE, WIRE, FACE, SHELL, SOLID, NKINDS };
static bool intersects(int a, int b)
{
    if (a > b) std::swap(a, b); auto is = [&](int x, int y) { return a == x && b == y; };
    return is(SEGMENT, SEGMENT) || is(PLANE, PLANE) || is(LINE, PLANE) || is(LINE, DISK) || is(LINE, QUAD) || is(DISK, DISK) || is(QUAD, QUAD) || is(POLYGON, POLYGON) || is(DISK, QUAD) || is(DISK, POLYGON) || is(DISK, CYLSURF) || is(QUAD, CYLSURF) || is(POLYGON, CYLSURF)
        || is(CYLSURF, FACE) || is(FACE, FACE) || is(DISK, FACE) || is(QUAD, FACE) || is(POLYGON, FACE);
}
template<class F, size_t... I> static void nth(size_t k, F&& f, std::index_sequence<I...>) { (void)((I == k ? (f(std::integral_constant<int, I>()), true) : false) || ...); }
template<class F> static void nth(size_t k, F&& f) { nth(k, f, std::make_index_sequence<NKINDS>()); }
template<class F> static auto never() { return 0; }
static void pairs()
{
    Pose I; I.name = "I"; std::vector<Pose> T = combine({latticeRotations()[0], obliqueRotations()[4]}, {{0, 0, 0}, {10, -7, 3}}, {1, 100}); if (!vf::thorough) T = {T[0], T[7]};
    for (auto& P : T)
    {
        Catalogue* c = nullptr; auto cat = [&]() -> Catalogue& { if (!c) c = new Catalogue(P); return *c; };
        for (int i = 0; i < NKINDS; ++i) for (int j = 0; j < NKINDS; ++j) if (vf::begin(vf::cat("pair/", Catalogue::N[i], "/", Catalogue::N[j], "@", P.name)))
            nth(i, [&](auto ii) { nth(j, [&](auto jj) {
                constexpr int a = ii, b = jj; const auto& A = std::get<a>(cat().g); const auto& B = std::get<b>(cat().g); const std::string ab = std::string(Catalogue::N[a]) + "-" + Catalogue::N[b];
                if constexpr (!(a == b && (a == PLANE || a == DISK || a == QUAD || a == POLYGON || a == FACE))) must(!intersects(a, b), "intersect", "intersect(" + ab + ")", [&] { intersect(A, B, 1e-7 * double(P.s)); });
                // the angle is asked for with an intersection kind that can not belong to the pair
                must(true, "IntersectionAngle", "angle of " + ab + " at a box", [&] { IntersectionAngle<double> ang; ang(A, B, Box<double>(0., 0., 0., 1., 1., 1.)); });
                if constexpr (a == SPHERE || a == BOX || a == POINT || a == CIRCLE) must(true, "IntersectionAngle", "angle of " + ab + " at a point", [&] { IntersectionAngle<double> ang; ang(A, B, pt(P.map({0, 0, 0}))); });
            }); });
        for (int j = 0; j < NKINDS; ++j) if (vf::begin(vf::cat("boundary/", Catalogue::N[j], "@", P.name))) nth(j, [&](auto jj) {
            constexpr int b = jj; const auto& B = std::get<b>(cat().g); const FP p = pt(P.map({.1L, .2L, .3L}));
            constexpr bool dist = b == DISK || b == QUAD || b == POLYGON || b == BOX || b == CYLSURF || b == FACE || b == SOLID, on = b == DISK || b == QUAD || b == POLYGON || b == CYLSURF || b == FACE;
            if constexpr (dist || b < VERTEX) must(!dist, "computeDistanceToBoundary", std::string("distance of a point to the boundary of ") + Catalogue::N[b], [&] { computeDistanceToBoundary(p, B); });
            must(!on, "pointOnGeometryBoundary", std::string("point on boundary of ") + Catalogue::N[b], [&] { pointOnGeometryBoundary(p, B, 1e-7); });
            constexpr bool shape = b != LINE && b != PLANE && b != TRIANGLE;
            must(!shape, "getShape", std::string("shape of ") + Catalogue::N[b], [&] { OCCUtilities::getShape(B); });
            if constexpr (std::is_base_of_v<Geometry, std::decay_t<decltype(B)>>)
            {
                auto copy = std::make_shared<std::decay_t<decltype(B)>>(B); int calls = 0; std::string nm; auto fn = [&](const auto& g) { ++calls; nm = g.name(); };
                constexpr bool app = b == DISK || b == QUAD; vf::step(); const bool r = refused([&] { applyOnGeometry(fn, std::shared_ptr<Geometry>(copy)); });
                vf::check(r != app && calls == (app ? 1 : 0) && (!app || nm == B.name()), "applyOnGeometry", [&] { return vf::cat("on ", Catalogue::N[b], ": refused ", r, ", function called ", calls, " times with a ", nm); });
                // assignment through the interface: only into an object of the same kind
                nth(0, [](auto) {});
                auto try_ = [&](auto k) { constexpr int t = decltype(k)::value; using X = std::decay_t<decltype(std::get<t>(cat().g))>; if constexpr (std::is_base_of_v<Geometry, X>) { X x = std::get<t>(cat().g); Geometry* src = copy.get(); vf::step(); bool ok = false, ex = refused([&] { ok = assign(src, x); }); vf::check(!ex && ok == (t == b), "assign", [&] { return vf::cat(Catalogue::N[b], " into ", Catalogue::N[t], ": ", ex ? "exception" : ok ? "assigned" : "refused"); }); } };
                for (int t = 0; t < NKINDS; ++t) nth(t, try_);
            }
        });
        // unique names
        if (vf::begin(vf::cat("names@", P.name))) { std::map<std::string, std::string> seen; for (int j = 0; j < NKINDS; ++j) nth(j, [&](auto jj) { constexpr int b = jj; vf::step(); const auto n = geometryName(std::get<b>(cat().g)); vf::check(!n.empty() && !seen.count(n), "name", [&] { return vf::cat(Catalogue::N[b], " has the name of ", seen[n], ": ", n); }); seen[n] = Catalogue::N[b]; }); 
            HollowCylinder<double> h(.5, 1., 2.); vf::check(!seen.count(h.name()), "name", "HollowCylinder has the name of another kind"); must(true, "getShape", "shape of HollowCylinder", [&] { OCCUtilities::getShape(h); }); }
        delete c; c = nullptr;
    }
}
// ---------------------------------------------------------------- constructor arguments and indices
static void construct()
{
    const std::vector<double> G = vf::thorough ? std::vector<double>{-2, -1, -1e-9, 0, 1e-9, 1, 3} : std::vector<double>{-1, -1e-9, 0, 2};
    for (double x0 : G) for (double x1 : G) for (double y0 : G) if (vf::begin(vf::cat("box/", x0, "/", x1, "/", y0))) for (double y1 : G) for (double z0 : G) for (double z1 : G)
    {
        const bool bad = x1 < x0 || y1 < y0 || z1 < z0; must(bad, "Box constructor", vf::cat("box (", x0, ",", y0, ",", z0, ")-(", x1, ",", y1, ",", z1, ")"), [&] { Box<double> b(x0, y0, z0, x1, y1, z1); });
        must(bad, "Box constructor (points)", vf::cat("box of points (", x0, ",", y0, ",", z0, ")-(", x1, ",", y1, ",", z1, ")"), [&] { Box<double> b(FP(x0, y0, z0), FP(x1, y1, z1)); });
    }
    if (vf::begin("indices")) for (unsigned i = 0; i < 40; ++i)
    {
        Box<double> b(0., 0., 0., 1., 2., 3.); must(i >= 8, "corner index", vf::cat("corner ", i, " of a box"), [&] { b.corner(i); }); must(i >= 12, "edge index", vf::cat("edge ", i, " of a box"), [&] { b.edge(i); }); must(i >= 6, "face index", vf::cat("face ", i, " of a box"), [&] { b.face(i); });
        Q3 q(FP(0., 0., 0.), FP(1., 0., 0.), FP(0., 1., 0.), FP(1., 1., 0.)); must(i >= 4, "edge index", vf::cat("edge ", i, " of a quadrilateral"), [&] { q.edge(i); });
        Triangle<double, 3> t(FP(0., 0., 0.), FP(1., 0., 0.), FP(0., 1., 0.)); must(i >= 3, "edge index", vf::cat("edge ", i, " of a triangle"), [&] { t.edge(i); });
    }
    for (double a : {0.25, 1.0, 4.0, 1e3}) if (vf::begin(vf::cat("round/", a))) for (double f : {1.0, 1 - 1e-12, 1 - 1e-3, .9, .5, .01})
    {
        must(f < 1 - 1e-6, "Cylinder of a disk", vf::cat("cylinder on a disk with axes ", a, ", ", a * f), [&] { D3 d(FP(1., 2., 3.), dir({1, 0, 0}), dir({0, 1, 0}), a, a * f); Cylinder<double> c(d, 2.); });
        for (double h : {.1, 2.0}) must(f * 1.1 > 1.0 + 1e-6, "HollowCylinder radii", vf::cat("hollow cylinder with radii ", a * f * 1.1, ", ", a), [&] { HollowCylinder<double> c(a * f * 1.1, a, h); });
    }
    for (int n = 0; n < 6; ++n) if (vf::begin(vf::cat("corners/", n))) { std::vector<FP> c; for (int i = 0; i < n; ++i) c.push_back(FP(std::cos(1. * i), std::sin(1. * i), 0.)); must(n < 3, "Polygon constructor", vf::cat("polygon with ", n, " corners"), [&] { Po3 p(c); }); }
    // the angle of a point on an ellipse: on it or refused
    for (double a : {1.0, 2.0, 50.0}) for (double r : {1.0, .3}) if (vf::begin(vf::cat("ellipse/", a, "/", r))) for (int k = 0; k < 48; ++k) for (double off : {0.0, 1e-3, -1e-3, .1, -.1, 3.0}) for (double up : {0.0, 1e-3, .5})
    {
        Ellipse<double, 3> e(FP(1., 2., 3.), dir({1, 0, 0}), dir({0, 1, 0}), a, a * r); const double t = k * 2 * M_PI / 48, c = std::cos(t), s = std::sin(t), nx = c * r, ny = s, n = std::hypot(nx, ny);
        FP p(1 + a * c + a * off * nx / n, 2 + a * r * s + a * off * ny / n, 3 + up * a); if (off < 0 && -off > .5 * r * r) continue;
        must(off != 0 || up != 0, "Ellipse.getAngle", vf::cat("angle of a point ", off, " x axis outside and ", up, " above (", k, ")"), [&] { e.getAngle(p); });
    }
}
// ---------------------------------------------------------------- concave operands: refused or right
static R cross2(const V& a, const V& b, const V& c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static bool segCross(const V& a, const V& b, const V& c, const V& d)
{ auto sg = [](R x) { return x > 1e-12L ? 1 : x < -1e-12L ? -1 : 0; }; int s1 = sg(cross2(a, b, c)), s2 = sg(cross2(a, b, d)), s3 = sg(cross2(c, d, a)), s4 = sg(cross2(c, d, b)); if (s1 * s2 < 0 && s3 * s4 < 0) return true;
  auto on = [](const V& p, const V& q, const V& r) { return std::min(p.x, q.x) <= r.x && r.x <= std::max(p.x, q.x) && std::min(p.y, q.y) <= r.y && r.y <= std::max(p.y, q.y); }; return (!s1 && on(a, b, c)) || (!s2 && on(a, b, d)) || (!s3 && on(c, d, a)) || (!s4 && on(c, d, b)); }
//! 0: not simple or with collinear corners, 1: convex, 2: concave
static int classify(const std::vector<V>& r)
{
    const int n = r.size(); int pos = 0, neg = 0; for (int i = 0; i < n; ++i) { R c = cross2(r[i], r[(i + 1) % n], r[(i + 2) % n]); if (std::abs(c) < 1e-12L) return 0; (c > 0 ? pos : neg)++; }
    for (int i = 0; i < n; ++i) for (int j = i + 2; j < n; ++j) if (!(i == 0 && j == n - 1) && segCross(r[i], r[i + 1], r[j], r[(j + 1) % n])) return 0;
    return pos && neg ? 2 : 1;
}
using Ivs = std::vector<std::pair<R, R>>;
//! the parts of the in-plane line q + t k inside of the ring; false: through a corner (not judged)
static bool intervals(const std::vector<V>& r, const V& q, const V& k, Ivs& out)
{
    std::vector<R> t; const int n = r.size(); for (int i = 0; i < n; ++i) { V a = r[i] - q, b = r[(i + 1) % n] - q; R sa = k.x * a.y - k.y * a.x, sb = k.x * b.y - k.y * b.x; if (std::abs(sa) < 1e-3L * k.len() || std::abs(sb) < 1e-3L * k.len()) return false; if ((sa > 0) == (sb > 0)) continue; R f = sa / (sa - sb); V p = a + (b - a) * f; t.push_back(p.dot(k) / k.n2()); }
    std::sort(t.begin(), t.end()); for (size_t i = 0; i + 1 < t.size(); i += 2) { if (t[i + 1] - t[i] < 1e-2L || (i && t[i] - t[i - 1] < 1e-2L)) return false; out.push_back({t[i], t[i + 1]}); } return true;
}
static std::vector<std::vector<V>> rings(int n, int grid)
{
    std::vector<V> P; for (int x = 0; x < grid; ++x) for (int y = 0; y < grid; ++y) P.push_back({(R)x - 1, (R)y - 1, 0}); std::vector<std::vector<V>> out; std::vector<int> id;
    std::function<void()> rec = [&] { if ((int)id.size() == n) { std::vector<V> r; for (int i : id) r.push_back(P[i]); if (classify(r)) out.push_back(r); return; } for (int i = 0; i < (int)P.size(); ++i) if (std::find(id.begin(), id.end(), i) == id.end()) { id.push_back(i); rec(); id.pop_back(); } };
    rec(); return out;
}
struct Ans { bool ref = false, judged = true; Ivs iv; };
//! the answer (points and segments on the line o + t d) as parameter intervals
template<class Is> static void add(Ans& a, const Is& is, const V& o, const V& d, R s)
{
    auto par = [&](const FP& p) { return (from(p) - o).dot(d) / d.n2() / s; };
    if constexpr (std::is_same_v<Is, FP>) { R t = par(is); a.iv.push_back({t, t}); }
    else if constexpr (std::is_same_v<Is, S3>) { R t = par(is.source()), u = par(is.target()); a.iv.push_back({std::min(t, u), std::max(t, u)}); }
    else if constexpr (std::is_same_v<Is, TopoDS_Edge>) { R t = par(OCCUtilities::point(TopExp::FirstVertex(is))), u = par(OCCUtilities::point(TopExp::LastVertex(is))); a.iv.push_back({std::min(t, u), std::max(t, u)}); }
    else if constexpr (std::is_same_v<Is, EmptyIntersection<3>>) {}
    else a.judged = false;
}
template<class T> struct isVec2 : std::false_type {}; template<class T> struct isVec2<std::vector<T>> : std::true_type {};
template<class F> static Ans ask(const V& o, const V& d, R s, F&& f)
{
    Ans a; Hush q; try { const auto is = f(); if constexpr (isVec2<std::decay_t<decltype(is)>>::value) for (auto& v : is) std::visit([&](auto& x) { add(a, x, o, d, s); }, v); else std::visit([&](auto& x) { add(a, x, o, d, s); }, is); } catch (...) { a.ref = true; }
    std::sort(a.iv.begin(), a.iv.end()); Ivs m; for (auto& i : a.iv) { if (!m.empty() && i.first <= m.back().second + 1e-6L) m.back().second = std::max(m.back().second, i.second); else m.push_back(i); } a.iv = m; return a;
}
static std::string str(const Ivs& v) { std::string r; for (auto& i : v) r += vf::cat("[", (double)i.first, ",", (double)i.second, "]"); return r.empty() ? "empty" : r; }
static bool same(const Ivs& a, const Ivs& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (std::abs(a[i].first - b[i].first) > 1e-5L || std::abs(a[i].second - b[i].second) > 1e-5L) return false; return true; }
static void concave()
{
    struct RG { std::vector<V> r; int c; }; std::vector<RG> all; for (auto& r : rings(4, 3)) all.push_back({r, classify(r)}); { auto p5 = rings(5, 3); int k = 0; for (auto& r : p5) if (vf::thorough || ++k % 5 == 1) all.push_back({r, classify(r)}); }
    const auto O = obliqueRotations(); const auto T = combine({latticeRotations()[0], O[4], O[0]}, {{0, 0, 0}, {10, -7, 3}}, {1, 100}); int cnt = 0;
    for (size_t i = 0; i < all.size(); ++i)
    {
        const auto& r = all[i].r; const bool cv = all[i].c == 2; const bool quad = r.size() == 4; std::string nm; for (auto& p : r) nm += vf::cat((int)p.x + 1, (int)p.y + 1, "."); const Pose& P = T[i % T.size()];
        if (!vf::begin(vf::cat("ring/", nm, "@", P.name))) continue;
        vf::guarded("ring", [&] {
            std::vector<FP> c; for (auto& p : r) c.push_back(pt(P.map(p))); Po3 po(c); const FP in = pt(P.map((r[0] + r[1]) * .5L));
            vf::step(); vf::check(po.isConvex() == !cv, "Polygon.isConvex", [&] { return vf::cat("ring ", nm, " is ", po.isConvex()); });
            must(cv, "Polygon.area", "area of ring " + nm, [&] { po.area(); }); must(cv, "Polygon.contains", "contains of ring " + nm, [&] { po.contains(in); }); must(cv, "Polygon.contains", "contains (eps) of ring " + nm, [&] { po.contains(in, 1e-6, false); });
            // a convex partner crossing the ring: both argument orders must refuse resp. serve
            auto p = [&](R x, R y, R z) { return pt(P.map({x, y, z})); }; Po3 other(std::vector<FP>{p(-2, .05L, -1), p(2, .15L, -1), p(2, .15L, 1), p(-2, .05L, 1)}); Q3 oq(p(-2, .05L, -1), p(2, .15L, -1), p(-2, .05L, 1), p(2, .15L, 1)); CylinderSurface<double> cy(Circle<double, 3>(p(0, .1L, -1), dir(P.rot({0, 0, 1})), .45 * double(P.s)), 2. * double(P.s));
            must(cv, "intersect concave polygons", "intersect(ring " + nm + ", polygon)", [&] { intersect(po, other); }); must(cv, "intersect concave polygons", "intersect(polygon, ring " + nm + ")", [&] { intersect(other, po); }); must(cv, "intersect concave polygons", "intersect(ring " + nm + ", cylinder surface)", [&] { intersect(po, cy); }); must(cv, "intersect concave polygons", "intersect(cylinder surface, ring " + nm + ")", [&] { intersect(cy, po); });
            if (cv) must(true, "intersect concave polygons", "intersect(ring " + nm + ", itself moved)", [&] { std::vector<FP> c2; for (auto& v : r) c2.push_back(pt(P.map({v.x, 0.1L, v.y}))); intersect(po, Po3(c2)); });
            if (quad)
            {
                Q3 q(c[0], c[1], c[3], c[2]); vf::step(); vf::check(q.isConvex() == !cv, "Quadrilateral.isConvex", [&] { return vf::cat("ring ", nm, " is ", q.isConvex()); });
                must(cv, "intersect concave quadrilaterals", "intersect(quad " + nm + ", quad)", [&] { intersect(q, oq); }); must(cv, "intersect concave quadrilaterals", "intersect(quad, quad " + nm + ")", [&] { intersect(oq, q); }); must(cv, "intersect concave quadrilaterals", "intersect(quad " + nm + ", cylinder surface)", [&] { intersect(q, cy); }); must(cv, "intersect concave quadrilaterals", "intersect(cylinder surface, quad " + nm + ")", [&] { intersect(cy, q); });
            }
            // operations offered without that restriction: the exact parts on the line, or refused. Lines y = m x + b in the plane of the ring
            if (!cv) return;
            for (R m : {0.0L, 1.0L, -1.0L, .5L, -2.0L, 1e9L}) for (R b : {-.9L, -.55L, -.2L, .1L, .45L, .8L})
            {
                if (++cnt % (vf::thorough ? 1 : 11)) continue; const V k = m > 1e8L ? V{0, 1, 0} : V{1, m, 0}, k1 = k.unit(), o = m > 1e8L ? V{b, 0, 0} : V{0, b, 0}; Ivs e; if (!intervals(r, o, k1, e)) { vf::skip(); continue; }
                const V so = P.map(o), sd = P.rot(k1); auto judge = [&](const char* what, const Ans& a, const Ivs& x) { vf::step(); if (!a.judged) { vf::skip(); return; } vf::outcome(vf::cat(what, x.size() > 1 ? ": several parts " : x.empty() ? ": empty " : ": one part ", a.ref ? "refused" : "served")); vf::check(a.ref || same(a.iv, x), what, [&] { return vf::cat(what, " of ring ", nm, " line y=", (double)m, "x+", (double)b, " gives ", str(a.iv), " instead of ", str(x)); }); };
                const V nz{0, 0, 1}; const V up = (nz + (nz.cross(k1)) * .5L).unit(); // the partner contains the line and is tilted
                auto clip = [&](R lo, R hi, bool& ok) { Ivs x; for (auto& v : e) { R l = std::max(v.first, lo), h = std::min(v.second, hi); if (std::abs(h - l) < 1e-2L) ok = false; if (h > l) x.push_back({l, h}); } return x; };
                // (the chord is not along an axis: the kernel loses sections that end in the seam vertex of a face)
                for (R half : {3.0L, .6L}) for (R mid : {0.0L, .4L})
                {
                    bool ok = true; const R th = .35L, ch = 1 / std::hypot(std::cos(th) / half, 2 * std::sin(th) / half); const Ivs x = clip(mid - ch, mid + ch, ok); if (!ok) { vf::skip(); continue; }
                    const V ce = o + k1 * mid; const V m1 = k1 * std::cos(th) + up * std::sin(th), m2 = up * std::cos(th) - k1 * std::sin(th); D3 d(pt(P.map(ce)), dir(P.rot(m1)), dir(P.rot(m2)), double(half * P.s), double(half * .5L * P.s));
                    judge("intersect(polygon, disk)", ask(so, sd, P.s, [&] { return intersect(po, d); }), x); judge("intersect(disk, polygon)", ask(so, sd, P.s, [&] { return intersect(d, po); }), x);
                    const auto face = OCCUtilities::getShape(po); judge("intersect(face, disk)", ask(so, sd, P.s, [&] { return intersect(face, d); }), x); judge("intersect(disk, face)", ask(so, sd, P.s, [&] { return intersect(d, face); }), x); judge("intersect(face, face)", ask(so, sd, P.s, [&] { return intersect(face, OCCUtilities::getShape(d)); }), x); judge("intersect(polygon, face)", ask(so, sd, P.s, [&] { return intersect(po, OCCUtilities::getShape(d)); }), x);
                    if (quad) { Q3 q(c[0], c[1], c[3], c[2]); judge("intersect(quad, disk)", ask(so, sd, P.s, [&] { return intersect(q, d); }), x); judge("intersect(disk, quad)", ask(so, sd, P.s, [&] { return intersect(d, q); }), x); judge("intersect(quad, face)", ask(so, sd, P.s, [&] { return intersect(q, OCCUtilities::getShape(d)); }), x); }
                }
                if (quad) { Q3 q(c[0], c[1], c[3], c[2]); Line<double, 3> l(pt(so), dir(sd)); judge("intersect(quad, line)", ask(so, sd, P.s, [&] { return intersect(q, l); }), e); judge("intersect(line, quad)", ask(so, sd, P.s, [&] { return intersect(l, q); }), e); }
            }
        });
    }
}
// ---------------------------------------------------------------- builders: refused operations leave no trace
static const char* BN[] = {"entity(quad)", "entity(segment)", "entity(box)", "entity(triangle)", "subEntity(quad,1)", "subEntity(segment,2)", "subEntity(box,1)", "domain(box,1)", "confining(box,1)", "domain(quad,1)", "confining(quad,2)", "domain(segment,2)", "clear", "build"};
enum { ENB = 14 };
static const Q3 EQ(FP(0., 0., 1.), FP(3., 0., 1.), FP(0., 3., 1.), FP(3., 3., 1.)), DQ(FP(-1., -1., 0.), FP(4., -1., 0.), FP(-1., 4., 0.), FP(4., 4., 0.)); static const S3 ES(FP(0., 0., 0.), FP(1., 1., 0.)); static const Box<double> EB(0.5, 0.5, 0.5, 1., 1., 1.), DB(-1., -1., -1., 2., 4., 4.); static const Triangle<double, 3> ET(FP(0., 0., 0.), FP(1., 0., 0.), FP(0., 1., 0.));
struct BModel { int ed = -1, dd = -1; std::set<int> ids; std::vector<int> done;
    //! whether the operation has to be refused; 2: not judged
    bool bad(int op) const
    {
        auto ent = [&](int d) { return (ed >= 0 && d != ed) || (dd >= 0 && d >= dd); }; auto dom = [&](int d, int id) { return (ed >= 0 && d <= ed) || (dd >= 0 && d != dd) || ids.count(id); };
        switch (op) { case 0: case 4: return ent(2); case 1: case 5: return ent(1); case 2: case 6: return ent(3); case 3: return true; case 7: case 8: return dom(3, 1); case 9: return dom(2, 1); case 10: return dom(2, 2); case 11: return dom(1, 2); default: return false; }
    }
    void run(int op)
    { if (bad(op)) return; if (op == 13) { return; } if (op == 12) { *this = BModel(); return; } done.push_back(op); switch (op) { case 0: case 4: ed = 2; break; case 1: case 5: ed = 1; break; case 2: case 6: ed = 3; break; case 7: case 8: dd = 3; ids.insert(1); break; case 9: dd = 2; ids.insert(1); break; case 10: dd = 2; ids.insert(2); break; case 11: dd = 1; ids.insert(2); break; } } };
template<class B> static void applyB(B& b, int op)
{
    if constexpr (std::is_same_v<B, EntityNetworkBuilder<double>>) { if (op == 0) b.addEntity(EQ); if (op == 1) b.addEntity(ES); if (op == 2) b.addEntity(EB); if (op == 3) b.addEntity(ET); } else { if (op == 0) b.addSubDomainEntity(EQ, Id(3)); if (op == 1) b.addSubDomainEntity(ES, Id(3)); if (op == 2) b.addSubDomainEntity(EB, Id(3)); if (op == 3) b.addSubDomainEntity(ET, Id(3)); }
    if (op == 4) b.addSubDomainEntities(std::vector<Q3>{EQ}, Id(1)); if (op == 5) b.addSubDomainEntity(ES, Id(2)); if (op == 6) b.addSubDomainEntity(EB, Id(1)); if (op == 7) b.addSubDomain(DB, Id(1)); if (op == 8) b.addConfiningSubDomain(DB, Id(1)); if (op == 9) b.addSubDomain(DQ, Id(1)); if (op == 10) b.addConfiningSubDomain(DQ, Id(2)); if (op == 11) b.addSubDomain(S3(FP(-1., 0., 0.), FP(2., 0., 0.)), Id(2)); if (op == 12) b.clear(); if (op == 13) b.build();
}
template<class N> static std::string digest(const N& n)
{
    std::ostringstream o; o.precision(6); o << "dim " << n.entityDimension() << ": "; auto one = [&](const TopTools_ListOfShape& l, const char* t) { std::multiset<std::string> r; for (const auto& s : l) { GProp_GProps g; if (s.ShapeType() == TopAbs_EDGE) BRepGProp::LinearProperties(s, g); else if (s.ShapeType() == TopAbs_FACE) BRepGProp::SurfaceProperties(s, g); else BRepGProp::VolumeProperties(s, g); r.insert(vf::cat((int)s.ShapeType(), ":", std::round(g.Mass() * 1e6) / 1e6)); } o << t << "{"; for (auto& x : r) o << x << " "; o << "} "; };
    if constexpr (std::is_same_v<N, EntityNetwork>) one(n.entityFragments(), "e"); else { o << "domain dim " << n.domainDimension() << " "; auto ids = n.subDomainIds(); std::sort(ids.begin(), ids.end(), [](const Id& a, const Id& b) { return a.get() < b.get(); }); for (auto id : ids) { o << id.get() << " "; one(n.subDomainFragments(id), "d"); } for (int id : {1, 2, 3}) { try { one(n.subDomainEntityFragments(Id(id)), vf::cat("e", id).c_str()); } catch (...) { o << "no e" << id << " "; } } }
    return o.str();
}
template<class B> static std::string builtBy(B& b, const BModel& m) { if (m.ed < 0 || (std::is_same_v<B, ContainedEntityNetworkBuilder<double>> && m.dd < 0)) return "-"; Hush q; try { return digest(b.build()); } catch (...) { return "exception"; } }
template<class B> struct Fresh { static std::map<std::vector<int>, std::string>& memo() { static std::map<std::vector<int>, std::string> m; return m; } static const std::string& of(const BModel& m) { auto it = memo().find(m.done); if (it == memo().end()) { B b; for (int op : m.done) applyB(b, op); it = memo().emplace(m.done, builtBy(b, m)).first; } return it->second; } };
template<class B> static void builders(const std::string& tag, int depth)
{
    std::vector<int> ops; std::function<void(const BModel&)> rec = [&](const BModel& m) {
        // the longest histories are thinned out
        std::uint64_t hh = 0; for (int o : ops) hh = hh * 31 + o + 1; const bool thin = !vf::thorough && vf::only.empty() && (int)ops.size() == depth && vf::hash(std::to_string(hh)) % 7;
        if (!ops.empty() && !thin && vf::begin([&] { std::string k = tag + ":"; for (int o : ops) k += char('a' + o); return k; }()))
        {
            // replay, judging the last operation only (the earlier ones were judged before)
            auto H = [&] { std::string s; for (int o : ops) s += std::string(BN[o]) + "; "; return s; }; B b; BModel x; bool ex = false, built = false;
            for (size_t i = 0; i < ops.size(); ++i) { const bool bad = x.bad(ops[i]); vf::step(); ex = refused([&] { applyB(b, ops[i]); }); if (i + 1 == ops.size()) vf::check(ex == bad, "builder operation", [&] { return H() + "-> the last one is " + (ex ? "refused" : "accepted"); }); if (!ex && ops[i] == 13) built = true; if (ops[i] == 12) built = false; x.run(ops[i]); }
            vf::check(b.isBuilt() == built, "isBuilt", [&] { return H() + vf::cat("-> isBuilt is ", b.isBuilt()); }); must(!built, "network()", H() + "network()", [&] { b.network(); });
            const auto g = builtBy(b, x); const auto& e = Fresh<B>::of(x); vf::check(g == e, "after refused operations", [&] { return H() + "-> builds " + g + " but the accepted operations alone give " + e; }); vf::outcome(tag + (ex ? ": refused" : ": accepted"));
        }
        if ((int)ops.size() == depth) return;
        for (int op = 0; op < ENB; ++op) { if (op >= 12 && (ops.empty() || ops.back() == op)) continue; if (op == 13 && (m.ed < 0 || (tag != "net" && m.dd < 0))) continue; BModel n(m); n.run(op); ops.push_back(op); rec(n); ops.pop_back(); } };
    rec(BModel());
}
// ---------------------------------------------------------------- writers
static void writers()
{
    struct W { const char* name; std::function<void(EntityNetworkBuilder<double>&)> f; bool ok; }; auto exists = [](const std::string& f) { struct stat s; return stat(f.c_str(), &s) == 0; };
    for (int kind = 0; kind < 4; ++kind) for (int gm = 0; gm < 2; ++gm) for (int cont = 0; cont < 2; ++cont) for (int n = 1; n < 3; ++n)
    {
        // 0: segments, 1: quadrilaterals, 2: boxes, 3: segments in a planar domain resp. quadrilaterals in a box
        if ((kind == 2 && cont) || (kind == 3 && !cont)) continue; if (!vf::begin(vf::cat("writer/", kind, "/", gm, "/", cont, "/", n))) continue;
        const char* sc = std::getenv("VERIF_SCRATCH"); const std::string f = vf::cat(sc ? sc : ".", "/refused", vf::shard, "_", kind, gm, cont, n); ::remove((f + ".brep").c_str()); ::remove((f + ".geo").c_str());
        const bool bad = kind == 0 || kind == 2 || (kind == 3 && n == 1);
        auto ent = [&](auto&& b, auto&& put) { for (int i = 0; i < n; ++i) { if (kind == 0 || (kind == 3 && n == 1)) put(S3(FP(0., 0., 0.), FP(1., 1. + i, 0.))); else if (kind == 1 || kind == 3) put(Q3(FP(0., 0., 1. + i), FP(1., 0., 1. + i), FP(0., 1., 1. + i), FP(1., 1., 1. + i))); else put(Box<double>(0. + 2 * i, 0., 0., 1. + 2 * i, 1., 1.)); } };
        auto go = [&](const auto& net) { must(bad, "writer", vf::cat(gm ? "GmshWriter" : "BRepWriter", " of a network of kind ", kind, cont ? " (contained)" : ""), [&] { if (gm) { GmshWriter w(net); w.write(f, .1, .5); } else { BRepWriter w(net); w.write(f); } }); vf::check(exists(f + ".brep") == !bad && exists(f + ".geo") == (!bad && gm), "written files", [&] { return vf::cat("brep ", exists(f + ".brep"), ", geo ", exists(f + ".geo")); }); };
        vf::guarded("writer", [&] { Hush q; if (cont) { ContainedEntityNetworkBuilder<double> b; if (kind == 0 || (kind == 3 && n == 1)) b.addConfiningSubDomain(DQ, Id(1)); else b.addConfiningSubDomain(Box<double>(-1., -1., -1., 5., 5., 5.), Id(1)); ent(b, [&](const auto& e) { b.addSubDomainEntity(e, Id(1)); }); go(b.build()); } else { EntityNetworkBuilder<double> b; ent(b, [&](const auto& e) { b.addEntity(e); }); go(b.build()); } });
        ::remove((f + ".brep").c_str()); ::remove((f + ".geo").c_str());
    }
}
int main(int argc, char** argv)
{
    vf::init(argc, argv);
    pairs(); construct(); writers(); builders<EntityNetworkBuilder<double>>("net", vf::thorough ? 5 : 4); builders<ContainedEntityNetworkBuilder<double>>("contained", vf::thorough ? 5 : 4); concave();
    return vf::finish();
}
