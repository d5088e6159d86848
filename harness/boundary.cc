// C12: distances to boundaries, points on geometries and on their boundaries.
#include "ents.hh"
#include <frackit/geometry/triangle.hh>
#include <frackit/distance/distancetoboundary.hh>
#include <frackit/distance/pointongeometry.hh>
#include <frackit/distance/pointonboundary.hh>
static std::function<double(double)> kernel;
//! distance of a scene point to the boundary of an entity (for solids: its surface)
static R boundaryDist(const Ent& e, const Frame& F, const V& p)
{
    const V q = toLocal(F, p); switch (e.k) { case 'D': return distEllipse(q, e.a, e.b); case 'Q': case 'P': return distPolyBoundary(q, e.S.ring); case 'L': { R dr = std::hypot(q.x, q.y) - e.a; return std::min(std::hypot(dr, q.z), std::hypot(dr, q.z - e.c)); }
        case 'B': { R o = distBox(q, {0, 0, 0}, {e.a, e.b, e.c}); return o > 0 ? o : std::min({q.x, e.a - q.x, q.y, e.b - q.y, q.z, e.c - q.z}); } case 'S': return std::abs(q.len() - e.a); case 'C': { R o = distTube(q, 0, e.a, e.c); return o > 0 ? o : std::min({e.a - std::hypot(q.x, q.y), q.z, e.c - q.z}); } } return -1;
}
static R boundaryRef(const Ent& g, const Frame& FG, const Ent& X, const Frame& FX)
{
    if (g.k == 'p') return boundaryDist(X, FX, FG.t); if (isCurve(g)) return minAlong(curves(g, FG)[0], [&](const V& p) { return boundaryDist(X, FX, p); });
    if (X.k == 'B' || X.k == 'S' || X.k == 'C') return -1; R d = 1e300L; for (auto& c : curves(X, FX)) d = std::min(d, minAlong(c, [&](const V& p) { return sceneDist(g, FG, p); })); return d;
}
template<class F> static void call(const std::string& what, R e, R tol, F&& f)
{
    vf::step(); double g; try { g = f(); } catch (const std::exception& x) { vf::check(false, what + " exception", x.what()); return; } catch (...) { vf::check(false, what + " exception", "OCC exception"); return; }
    if (kernel && std::isfinite(g) && g >= 0 && std::abs((R)g - e) > tol) { double k = e; try { k = kernel(g); } catch (...) {} if (std::abs((R)k - e) > tol) { vf::check(false, "kernel " + what, [&] { return vf::cat("BRepExtrema_DistShapeShape returns ", k, " for the same operands (got ", g, ", expected ", (double)e, ")"); }); return; } }
    vf::check(std::isfinite(g) && g >= 0 && std::abs((R)g - e) <= tol, what, [&] { return vf::cat("got ", g, " expected ", (double)e); });
}
//! the bounding wire(s) built with the kernel alone
static double kernelBoundary(const Ent& g, const Frame& FG, const Ent& X, const Frame& FX, const Pose& P, R d)
{
    double w = double(d); auto take = [&](double v) { if (std::abs(v - double(d)) > std::abs(w - double(d))) w = v; };
    for (R spin : {0.0L, PI / 2, PI}) for (R e : {0.0L, 1e-9L, -3e-9L})
    {
        Frame FS = FG; FS.t = FS.t + V{e, -e, 2 * e}; const TopoDS_Shape k1 = kernelShape(g, FS, P, spin); double m = 1e300; auto add = [&](const TopoDS_Shape& s) { const double u = BRepExtrema_DistShapeShape(k1, s).Value(), v = BRepExtrema_DistShapeShape(s, k1).Value(); return std::abs(u - double(d)) > std::abs(v - double(d)) ? u : v; };
        if (X.k == 'D') { Ent el = X; el.k = 'e'; m = add(kernelShape(el, FX, P, spin)); take(add(BRepTools::OuterWire(TopoDS::Face(kernelShape(X, FX, P, spin))))); }
        else if (X.k == 'L') for (int u : {0, 1}) { Ent el{'c', "", X.a, X.a}; Frame G = FX; if (u) G.t = toScene(FX, {0, 0, X.c}); m = std::min(m, add(kernelShape(el, G, P, spin))); }
        else if (X.k == 'Q' || X.k == 'P') { size_t n = X.S.ring.size(); for (size_t i = 0; i < n; ++i) { V a = X.S.ring[i], b = X.S.ring[(i + 1) % n] - a; Ent el{'s', "", b.x, b.y, b.z}; Frame G = FX; G.t = toScene(FX, a); m = std::min(m, add(kernelShape(el, G, P))); } take(add(BRepTools::OuterWire(TopoDS::Face(kernelShape(X, FX, P))))); }
        else m = add(BRepClass3d::OuterShell(TopoDS::Solid(kernelShape(X, FX, P, spin)))); take(m);
    }
    return w;
}
template<class F> static void yes(const std::string& what, bool e, R d, R eps, F&& f)
{ vf::step(); bool g; static_assert(std::is_invocable_v<F>); try { g = f(); } catch (const std::exception& x) { vf::check(false, what + " exception", x.what()); return; } catch (...) { vf::check(false, what + " exception", "OCC exception"); return; } vf::check(g == e, what, [&] { return vf::cat("got ", g, " for a point at distance ", (double)d, ", tolerance ", (double)eps); }); vf::outcome(what + (e ? " yes" : " no")); }
//! default tolerance documented for the geometry
static R defEps(const Ent& e) { switch (e.k) { case 's': return 1e-7L * V{e.a, e.b, e.c}.len(); case 'D': case 'e': case 'c': return 1e-7L * (e.a + e.b) / 2; case 'Q': case 'P': return 1e-7L * std::sqrt(polyArea(e.S.ring)) / 2; case 'L': return 1e-7L * (e.a + e.c) / 2; case 'S': return 1e-7L * e.a; case 'B': return 1e-7L * V{e.a, e.b, e.c}.len(); } return 1e-7L; }
int main(int argc, char** argv)
{
    vf::init(argc, argv);
    const auto O = obliqueRotations(), L = latticeRotations(); Pose I; I.name = "I"; const auto SS = stdShapes(); Frame F0;
    std::vector<Ent> X; for (auto& s : SS) X.push_back({s.kind, s.name, s.a, s.b, 0, 0, s}); X.push_back({'L', "tube", 1, 1, 3}); X.push_back({'L', "flat", 2, 2, 0.5L}); X.push_back({'B', "box", 2, 1, 3}); X.push_back({'C', "cyl", 1, 1, 3}); X.push_back({'S', "ball", 1, 1});
    std::vector<Ent> G{{'p', "pt"}, {'s', "seg", 2, 0, 0}, {'s', "segd", 1, -2, 2}, {'s', "short", 0.25L, 0.25L, 0.125L}, {'c', "circ", 1, 1}, {'e', "ell", 2, 1}, {'a', "arc", 2, 1, 0.5L, 2.5L}, {'D', "dsk", 0.5L, 0.5L}, {'D', "dell", 2, 1}, {'L', "tb", 1, 1, 3}}; G.push_back({'Q', "qd", 0, 0, 0, 0, SS[4]}); G.push_back({'P', "pl", 0, 0, 0, 0, SS[7]});
    std::vector<Pose> T{I}; { auto q = combine({L[7], O[0], O[4]}, {{10, -7, 3}}, {1.0L, 1e-2L, 1e3L}); T.insert(T.end(), q.begin(), q.end()); }
    std::vector<Pose> R0{L[0], L[4], L[7], O[0], O[2], O[3], O[4]}; std::vector<V> off; for (R x : {-3.0L, -1.0L, 0.0L, 0.5L, 2.0L}) for (R y : {-2.0L, 0.0L, 0.25L, 1.0L}) for (R z : {-4.0L, -1.0L, 0.0L, 0.25L, 1.5L}) off.push_back({x, y, z});
    int cnt = 0; for (auto& g : G) for (auto& x : X) for (auto& q : R0) for (auto& o : off) for (size_t t = 0; t < T.size(); ++t)
    {
        ++cnt; const bool point = g.k == 'p'; if (point && q.name != "L0") continue; if (!vf::thorough && (t ? cnt % (point ? 23 : 311) != 0 : cnt % (point ? 1 : 37) != 0)) continue; if (vf::thorough && cnt % (t ? 31 : 3)) continue;
        const Pose& P = T[t]; if (x.k == 'B' && !P.lattice) continue; if (!vf::begin(vf::cat("dist/", g.name, "/", x.name, "/", q.name, "/", str(o), "@", P.name))) continue;
        Frame F(q, o); const std::string n = std::string(fam(g.k)) + "-" + fam(x.k); R d = boundaryRef(g, F, x, F0); if (d < 0) { vf::skip(); continue; } vf::outcome(n + (d < 1e-9L ? " zero" : " positive")); d *= P.s; const R tol = 2e-6L * std::max(g.size(), x.size()) * P.s + (P.s < 0.1L ? 1e-5L : 3e-7L), tight = 1e-9L * P.s * 20;
        kernel = [&](double got) { double same = -1; withEnt(g, F, P, [&](const auto& a) { withEnt(x, F0, P, [&](const auto& b) { using B = std::decay_t<decltype(b)>; const TopoDS_Shape k1 = OCCUtilities::getShape(a); if (!shapeIs(k1, g, F, P)) return; auto hit = [&](const TopoDS_Shape& s, const Ent& e, const Frame& FE) { const double v = BRepExtrema_DistShapeShape(k1, s).Value(), w = BRepExtrema_DistShapeShape(s, k1).Value(); if ((std::abs(v - got) <= 1e-9 * std::abs(got) || std::abs(w - got) <= 1e-9 * std::abs(got)) && shapeIs(s, e, FE, P)) same = got; };
            if constexpr (std::is_same_v<B, Disk<double>>) { Ent e = x; e.k = 'e'; hit(OCCUtilities::getShape(b.boundingEllipse()), e, F0); hit(BRepTools::OuterWire(OCCUtilities::getShape(b)), e, F0); } if constexpr (std::is_same_v<B, CylinderSurface<double>>) { Ent e{'c', "", x.a, x.a}; hit(OCCUtilities::getShape(b.lowerBoundingCircle()), e, F0); Frame G = F0; G.t = toScene(F0, {0, 0, x.c}); hit(OCCUtilities::getShape(b.upperBoundingCircle()), e, G); }
            if constexpr (std::is_same_v<B, Quadrilateral<double, 3>> || std::is_same_v<B, Polygon<double, 3>>) { hit(BRepTools::OuterWire(OCCUtilities::getShape(b)), x, F0); } if constexpr (std::is_same_v<B, Sphere<double>> || std::is_same_v<B, Cylinder<double>> || std::is_same_v<B, Box<double>>) hit(BRepClass3d::OuterShell(OCCUtilities::getShape(b)), x, F0); }); }); return same >= 0 ? same : kernelBoundary(g, F, x, F0, P, d); };
        vf::guarded("setup", [&] { withEnt(g, F, P, [&](const auto& a) { withEnt(x, F0, P, [&](const auto& b) {
            using A = std::decay_t<decltype(a)>; using B = std::decay_t<decltype(b)>; const int w = cnt / 37 % 2;
            if constexpr (std::is_same_v<A, FP> && (std::is_same_v<B, Quadrilateral<double, 3>> || std::is_same_v<B, Polygon<double, 3>>)) call(n, d, tight, [&] { return computeDistanceToBoundary(a, b); });
            if constexpr (std::is_same_v<A, FP> && std::is_same_v<B, Box<double>>) call(n, d, tol, [&] { return computeDistanceToBoundary(a, b); });
            if constexpr (std::is_same_v<B, Disk<double>> || std::is_same_v<B, CylinderSurface<double>>) { call(n, d, tol, [&] { return computeDistanceToBoundary(a, b); }); }
            if constexpr (std::is_same_v<B, Disk<double>> || std::is_same_v<B, Quadrilateral<double, 3>> || std::is_same_v<B, Polygon<double, 3>>)
            {
                const TopoDS_Shape s = OCCUtilities::getShape(a); if (point || w == 0) call(n + " shape", d, tol, [&] { return computeDistanceToBoundary(s, b); });
                const TopoDS_Face f = OCCUtilities::getShape(b); if (point || w == 1) { call(n + " face", d, tol, [&] { return computeDistanceToBoundary(a, f); }); call(n + " shape-face", d, tol, [&] { return computeDistanceToBoundary(s, f); }); }
            }
            if constexpr (std::is_same_v<B, Box<double>> || std::is_same_v<B, Cylinder<double>> || std::is_same_v<B, Sphere<double>>) { const TopoDS_Solid s = OCCUtilities::getShape(b); if (point || w == 0) call(n + " solid", d, tol, [&] { return computeDistanceToBoundary(a, s); }); if (point || w == 1) { const TopoDS_Shape sa = OCCUtilities::getShape(a); call(n + " shape-solid", d, tol, [&] { return computeDistanceToBoundary(sa, s); }); } }
            if constexpr (std::is_same_v<B, CylinderSurface<double>>) if (point || w == 0) { const TopoDS_Shape sa = OCCUtilities::getShape(a); call(n + " shape", d, tol, [&] { return computeDistanceToBoundary(sa, b); }); }
        }); }); });
    }
    kernel = nullptr;
    // membership of points on / next to geometries and boundaries
    std::vector<Ent> M = X; M.push_back({'s', "seg", 2, 1, 0}); M.push_back({'c', "circ", 1.5L, 1.5L}); M.push_back({'e', "ell", 2, 1}); M.push_back({'a', "arc", 2, 1, 0.5L, 2.5L});
    for (auto& m : M) for (size_t t = 0; t < T.size(); ++t)
    {
        const Pose& P = T[t]; if (m.k == 'B' && !P.lattice) continue; if (!vf::begin(vf::cat("on/", m.name, "@", P.name))) continue;
        // probe points: along boundary / curve, lattice, corners; displaced by multiples of the size
        std::vector<V> base; for (auto& c : curves(m, F0)) for (int i = 0; i <= 12; ++i) base.push_back(c.first(c.second.first + (c.second.second - c.second.first) * i / 12)); for (R x : {-1.0L, -0.5L, 0.0L, 0.5L, 1.0L, 2.0L}) for (R y : {-1.0L, 0.0L, 0.5L, 1.0L}) for (R z : {-0.5L, 0.0L, 0.25L, 1.0L, 3.0L}) base.push_back({x, y, z});
        if (m.k == 'L' || m.k == 'C') for (int i = 0; i < 12; ++i) for (R z : {0.0L, 0.25L, 0.5L, 1.5L, 3.0L}) base.push_back({m.a * std::cos(i * PI / 6), m.a * std::sin(i * PI / 6), z}); if (m.k == 'S') for (int i = 0; i < 12; ++i) base.push_back(V{std::cos(i * PI / 6), 0.5L * std::sin(i * PI / 6), 0.3L}.unit() * m.a);
        const R big = 1e-2L; std::vector<V> probe; for (auto& b : base) { probe.push_back(b); for (auto& v : {V{1, 0, 0}, V{0, -1, 0}, V{0, 0, 1}, V{0.6L, 0.8L, 0}, V{-0.5L, 0.5L, 0.5L}}) { probe.push_back(b + v * big); if (vf::thorough) probe.push_back(b + v * 1e-4L); } }
        vf::guarded("setup", [&] { withEnt(m, F0, P, [&](const auto& b) { using B = std::decay_t<decltype(b)>; if constexpr (std::is_same_v<B, FP>) return; else {
            int pc = 0;
            for (auto& p : probe)
            {
                const FP q = pt(P.map(p)); const R d = sceneDist(m, F0, p) * P.s, de = defEps(m) * P.s; ++pc; const bool inner = m.k == 'S' || m.k == 'C' || m.k == 'B'; const R depth = inner && d == 0 ? boundaryDist(m, F0, p) * P.s : 1; const std::string n = std::string(inner && depth > 0 && depth < 1.1e-3L ? "shallow inside of " : "") + fam(m.k); const bool faces = m.k == 'D' || m.k == 'Q' || m.k == 'P';
                // decisions closer to the tolerance than the accuracy of the kernel are not judged
                auto clear = [&](R d, R eps) { return d < 0.2L * eps - (P.s < 0.1L ? 0 : 0) || d > 3 * eps + 1e-6L * P.s; }; auto judged = [&](R d, R eps) { return d < 1e-12L * P.s || clear(d, eps); };
                if (m.k != 'a' && m.k != 'C' && judged(d, de)) yes("on " + n, d < de, d, de, [&] { return pointOnGeometry(q, b); });
                for (R eps : {1e-3L * P.s, 2e-2L * P.s}) if (clear(d, eps)) yes("on " + n + " eps", d < eps, d, eps, [&] { return pointOnGeometry(q, b, double(eps)); });
                if (pc % 3 == 0) { const TopoDS_Shape s = OCCUtilities::getShape(b); const R eps = 2e-2L * P.s; if (clear(d, eps)) yes("on shape of " + n + " eps", d < eps, d, eps, [&] { return pointOnGeometry(q, s, double(eps)); }); }
                if constexpr (std::is_same_v<B, Disk<double>> || std::is_same_v<B, Quadrilateral<double, 3>> || std::is_same_v<B, Polygon<double, 3>> || std::is_same_v<B, CylinderSurface<double>>)
                {
                    const R bd = boundaryDist(m, F0, p) * P.s; if (judged(bd, de)) yes("on boundary of " + n, bd < de, bd, de, [&] { return pointOnGeometryBoundary(q, b); }); for (R eps : {1e-3L * P.s, 2e-2L * P.s}) if (clear(bd, eps)) yes("on boundary of " + n + " eps", bd < eps, bd, eps, [&] { return pointOnGeometryBoundary(q, b, double(eps)); });
                    if constexpr (!std::is_same_v<B, CylinderSurface<double>>) if (pc % 2 == 0) { const TopoDS_Face f = OCCUtilities::getShape(b); if (judged(bd, 2e-7L * P.s)) yes("on boundary of face of " + n, bd < 1e-9L, bd, -1, [&] { return pointOnGeometryBoundary(q, f); }); for (R eps : {1e-3L * P.s, 2e-2L * P.s}) if (clear(bd, eps)) yes("on boundary of face of " + n + " eps", bd < eps, bd, eps, [&] { return pointOnGeometryBoundary(q, f, double(eps)); }); }
                }
            } } }); });
    }
    // lower-dimensional worlds
    if (vf::begin("lowdim")) for (int x = -2; x <= 2; ++x) for (int y = -2; y <= 2; ++y) for (int u = -2; u <= 2; ++u) for (int v = -2; v <= 2; ++v) if (x != u || y != v)
    {
        Segment<double, 2> s(Point<double, 2>(x * 1.0, y * 0.5), Point<double, 2>(u * 1.0, v * 0.5)); const V A{(R)x, y * 0.5L, 0}, B{(R)u, v * 0.5L, 0};
        for (int k = -5; k <= 5; ++k) for (int m = -5; m <= 5; ++m) { V P{k * 0.5L, m * 0.25L, 0}; R d = distSeg(P, A, B); Point<double, 2> q(k * 0.5, m * 0.25); if (d < 1e-15L || d > 1e-3L) { yes("on segment2", d < 1e-15L, d, -1, [&] { return pointOnGeometry(q, s); }); yes("on segment2 eps", d < 1e-15L, d, -1, [&] { return pointOnGeometry(q, s, 1e-4); }); } }
    }
    return vf::finish();
}
