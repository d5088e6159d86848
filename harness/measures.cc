// C03: measures, centers, bounding features on a lattice of configurations.
#include "geo.hh"
#include <frackit/precision/precision.hh>
#include <frackit/geometry/segment.hh>
#include <frackit/geometry/line.hh>
#include <frackit/geometry/plane.hh>
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/ellipse.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/triangle.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/occ/breputilities.hh>
#include <frackit/magnitude/length.hh>
#include <frackit/magnitude/area.hh>
#include <frackit/magnitude/volume.hh>
#include <frackit/magnitude/magnitude.hh>
using namespace Frackit; using namespace ref;
using Pts = std::vector<V>;
static bool near(R a, R b, R tol = 1e-10L) { return std::abs(a - b) <= tol * std::max<R>(std::abs(b), 1e-300L); }
static void num(const std::string& what, R got, R exp, R tol = 1e-10L) { vf::step(); vf::check(near(got, exp, tol) || (what.find("ength(Ell") != what.npos || what.find("B-rep length") == 0 || what == "computeMagnitude(EllipseArc)" || what == "computeMagnitude(Ellipse)" ? std::abs(got - exp) < 2e-7L : false), what, [&] { return vf::cat("got ", (double)got, " expected ", (double)exp); }); }
static void pnt(const std::string& what, const FP& p, const V& e, const Pose& T, R tol = 1e-10L) { vf::step(); V g = from(p); vf::check((g - e).len() <= T.s * (tol + 1e-13L * T.t.len()), what, [&] { return vf::cat("got ", str(g), " expected ", str(e)); }); }
static void dr(const std::string& what, const FD& d, const V& e, bool sign = true) { vf::step(); V g = fromDir(d), u = e.unit(); vf::check(std::min((g - u).len(), sign ? (R)9 : (g + u).len()) < 1e-9L, what, [&] { return vf::cat("got ", str(g), " expected ", sign ? "" : "+-", str(u)); }); }
//! arc length of an ellipse between two angles
static R arcLen(R a, R b, R p0, R p1)
{ auto f = [&](R t) { return std::hypot(a * std::sin(t), b * std::cos(t)); };
  std::function<R(R, R, R, R, R, R, int)> ad = [&](R l, R r, R fl, R fm, R fr, R S, int dep) -> R { R m = (l + r) / 2, lm = (l + m) / 2, rm = (m + r) / 2, flm = f(lm), frm = f(rm); R L = (m - l) / 6 * (fl + 4 * flm + fm), Q = (r - m) / 6 * (fm + 4 * frm + fr); return dep > 22 || std::abs(L + Q - S) < 1e-14L ? L + Q + (L + Q - S) / 15 : ad(l, m, fl, flm, fm, L, dep + 1) + ad(m, r, fm, frm, fr, Q, dep + 1); };
  R s = 0; int N = 32; for (int i = 0; i < N; ++i) { R l = p0 + (p1 - p0) * i / N, r = p0 + (p1 - p0) * (i + 1) / N, m = (l + r) / 2; s += ad(l, r, f(l), f(m), f(r), (r - l) / 6 * (f(l) + 4 * f(m) + f(r)), 0); } return s; }
static R cr(const V& a, const V& b, const V& c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static bool segX(const V& a, const V& b, const V& c, const V& d)
{ R d1 = cr(a, b, c), d2 = cr(a, b, d), d3 = cr(c, d, a), d4 = cr(c, d, b); if (((d1 > 0) != (d2 > 0) || d1 == 0 || d2 == 0) && ((d3 > 0) != (d4 > 0) || d3 == 0 || d4 == 0)) { if (d1 == 0 && d2 == 0) return distSeg(a, c, d) < 1e-9L || distSeg(b, c, d) < 1e-9L || distSeg(c, a, b) < 1e-9L; return true; } return false; }
//! simple polygon without collinear neighbours; returns number of reflex corners or -1
static int classify(const Pts& c)
{
    const int n = c.size(); R A = 0; for (int i = 0; i < n; ++i) A += c[i].x * c[(i + 1) % n].y - c[i].y * c[(i + 1) % n].x;
    if (A == 0) return -1; int reflex = 0;
    for (int i = 0; i < n; ++i) { R t = cr(c[(i + n - 1) % n], c[i], c[(i + 1) % n]); if (t == 0) return -1; if ((t > 0) != (A > 0)) ++reflex; }
    for (int i = 0; i < n; ++i) for (int j = i + 2; j < n; ++j) { if (i == 0 && j == n - 1) continue; if (segX(c[i], c[i + 1], c[j], c[(j + 1) % n])) return -1; }
    return reflex;
}
static V centroid(const Pts& c) { R A = 0, x = 0, y = 0; int n = c.size(); for (int i = 0; i < n; ++i) { const V &p = c[i], &q = c[(i + 1) % n]; R w = p.x * q.y - p.y * q.x; A += w; x += (p.x + q.x) * w; y += (p.y + q.y) * w; } return {x / (3 * A), y / (3 * A), c[0].z}; }
static R areaOf(const Pts& c) { R A = 0; int n = c.size(); for (int i = 0; i < n; ++i) A += c[i].x * c[(i + 1) % n].y - c[i].y * c[(i + 1) % n].x; return std::abs(A) / 2; }
template<class G> static void edges(const std::string& fam, const G& g, const Pts& ring, const Pose& T)
{ // the edges are the sides of the ring, each exactly once
    std::vector<int> hit(ring.size()); R tol = T.s * (1e-10L + 1e-13L * T.t.len());
    vf::check(g.numEdges() == ring.size() && g.numCorners() == ring.size(), fam + " counts", [&] { return vf::cat("edges ", g.numEdges(), " corners ", g.numCorners()); });
    for (unsigned i = 0; i < g.numEdges(); ++i) { const auto e = g.edge(i); V s = from(e.source()), t = from(e.target()); for (size_t k = 0; k < ring.size(); ++k) { V a = T.map(ring[k]), b = T.map(ring[(k + 1) % ring.size()]); if (((s - a).len() < tol && (t - b).len() < tol) || ((s - b).len() < tol && (t - a).len() < tol)) ++hit[k]; } vf::step(); }
    vf::check(std::all_of(hit.begin(), hit.end(), [](int h) { return h == 1; }), fam + " edges", "the edges are not the sides of the geometry");
}
template<class S> static void brep(const std::string& what, const S& shape, R expect, R tol = 1e-6L) { num(what, computeMagnitude(shape), expect, tol); }

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    const auto L = latticeRotations(), O = obliqueRotations();
    std::vector<Pose> few = combine({L[0], L[7], O[0], O[4]}, {{0, 0, 0}, {10, -7, 3}}, {1.0L, 1e-2L, 1e3L}), all = combine(allRotations(), {{0, 0, 0}, {10, -7, 3}, {-100, 50, 25}}, {1.0L, 1e-2L, 1e3L});
    if (vf::thorough) few = combine({L[0], L[3], L[7], L[15], O[0], O[1], O[4]}, {{0, 0, 0}, {10, -7, 3}, {-100, 50, 25}}, {1.0L, 1e-2L, 1e3L});
    Pts g3; for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) g3.push_back({(R)x, (R)y, 0});
    Pts g4; for (int x = 0; x < 4; ++x) for (int y = 0; y < 4; ++y) g4.push_back({(R)x, (R)y, 0});
    auto supportOk = [&](const std::string& fam, const Plane<double, 3>& P, const Pts& c, const Pose& T) { dr(fam + ".supportingPlane normal", P.normal(), T.rot({0, 0, 1}), false); for (auto& p : c) { vf::step(); vf::check(P.contains(pt(T.map(p)), double(1e-9L * T.s * (1 + T.t.len()))), fam + ".supportingPlane", "misses a corner"); } };
    // ---- triangles: all of the 3x3 lattice
    auto tri = [&](const Pts& c, const Pose& T) { if (!vf::begin(vf::cat("triangle", str(c[0]), str(c[1]), str(c[2]), "@", T.name))) return; vf::guarded("Triangle", [&] {
        Triangle<double, 3> t(pt(T.map(c[0])), pt(T.map(c[1])), pt(T.map(c[2]))); R A = areaOf(c) * T.s * T.s;
        num("Triangle.area", t.area(), A); num("computeArea(Triangle)", computeArea(t), A); num("computeMagnitude(Triangle)", computeMagnitude(t), A); pnt("Triangle.center", t.center(), T.map((c[0] + c[1] + c[2]) * (1.0L / 3)), T);
        dr("Triangle.normal", t.normal(), T.rot((c[1] - c[0]).cross(c[2] - c[0]))); edges("Triangle", t, c, T); for (int i = 0; i < 3; ++i) pnt("Triangle.corner", t.corner(i), T.map(c[i]), T); supportOk("Triangle", t.supportingPlane(), c, T); }); };
    for (auto& a : g3) for (auto& b : g3) for (auto& c : g3) if (cr(a, b, c) != 0) for (auto& T : few) tri({a, b, c}, T);
    for (auto& T : all) { tri({{0, 0, 0}, {3, 1, 0}, {1, 2, 0}}, T); tri({{0, 0, 0}, {1, 2, 0}, {3, 1, 0}}, T); }
    // ---- quadrilaterals and polygons
    auto quad = [&](const Pts& ring, const Pose& T, bool shape) { // ring order; corner order is 0,1,3,2
        int cl = classify(ring); if (cl < 0) return; if (!vf::begin(vf::cat("quad", str(ring[0]), str(ring[1]), str(ring[2]), str(ring[3]), "@", T.name))) return; vf::guarded("Quadrilateral", [&] {
            Quadrilateral<double, 3> q(pt(T.map(ring[0])), pt(T.map(ring[1])), pt(T.map(ring[3])), pt(T.map(ring[2]))); R A = areaOf(ring) * T.s * T.s; const std::string cv = cl ? " (non-convex)" : "";
            vf::check(q.isConvex() == (cl == 0), "Quadrilateral.isConvex", [&] { return vf::cat("is ", q.isConvex(), " with ", cl, " reflex corners"); });
            num("Quadrilateral.area" + cv, q.area(), A); num("computeArea(Quadrilateral)" + cv, computeArea(q), A); num("computeMagnitude(Quadrilateral)" + cv, computeMagnitude(q), A); pnt("Quadrilateral.center" + cv, q.center(), T.map(centroid(ring)), T);
            edges("Quadrilateral", q, ring, T); supportOk("Quadrilateral", q.supportingPlane(), ring, T); int o[4] = {0, 1, 3, 2}; for (int i = 0; i < 4; ++i) pnt("Quadrilateral.corner", q.corner(i), T.map(ring[o[i]]), T);
            // the denoted set of a non-convex quadrilateral
            for (int i = -1; i <= 5; ++i) for (int j = -1; j <= 5; ++j) { V p{i * 0.5L + 0.17L, j * 0.5L + 0.11L, 0}; int w = 0; for (int k = 0; k < 4; ++k) { const V &a = ring[k], &b = ring[(k + 1) % 4]; if ((a.y > p.y) != (b.y > p.y) && p.x < (b.x - a.x) * (p.y - a.y) / (b.y - a.y) + a.x) ++w; } if (distPolyBoundary(p, ring) < 0.01L) continue; vf::step(); vf::check(q.contains(pt(T.map(p))) == (w & 1), "Quadrilateral.contains" + cv, [&] { return vf::cat("local point ", str(p), " expected ", w & 1); }); }
            if (shape) brep("B-rep area (Quadrilateral)", OCCUtilities::getShape(q), A); }); };
    auto poly = [&](const Pts& ring, const Pose& T, bool shape) { int cl = classify(ring); if (cl < 0) return; std::string k = "poly"; for (auto& p : ring) k += str(p); if (!vf::begin(k + "@" + T.name)) return; vf::guarded("Polygon", [&] {
            std::vector<FP> c; for (auto& p : ring) c.push_back(pt(T.map(p))); Polygon<double, 3> q(c); R A = areaOf(ring) * T.s * T.s;
            vf::check(q.isConvex() == (cl == 0), "Polygon.isConvex", [&] { return vf::cat("is ", q.isConvex(), " with ", cl, " reflex corners"); });
            edges("Polygon", q, ring, T); supportOk("Polygon", q.supportingPlane(), ring, T); for (size_t i = 0; i < ring.size(); ++i) pnt("Polygon.corner", q.corner(i), T.map(ring[i]), T);
            if (cl == 0) { num("Polygon.area", q.area(), A); num("computeArea(Polygon)", computeArea(q), A); num("computeMagnitude(Polygon)", computeMagnitude(q), A); pnt("Polygon.center", q.center(), T.map(centroid(ring)), T); }
            else { vf::check(vf::throws([&] { q.area(); }), "Polygon.area (non-convex)", "no error for a non-convex polygon"); }
            if (shape) brep("B-rep area (Polygon)", OCCUtilities::getShape(q), A); }); };
    { // all rings
        auto rings = [&](const Pts& g, int n, auto&& f) { Pts r; std::vector<char> used(g.size()); std::function<void()> rec = [&] { if ((int)r.size() == n) { f(r); return; } for (size_t i = 0; i < g.size(); ++i) if (!used[i]) { used[i] = 1; r.push_back(g[i]); rec(); r.pop_back(); used[i] = 0; } }; rec(); };
        rings(g3, 4, [&](const Pts& r) { for (size_t i = 0; i < few.size(); ++i) { quad(r, few[i], i < 2); poly(r, few[i], false); } });
        rings(g3, 3, [&](const Pts& r) { poly(r, few[0], false); });
        rings(g3, 5, [&](const Pts& r) { for (size_t i = 0; i < few.size(); i += vf::thorough ? 1 : 11) poly(r, few[i], i == 0); });
        rings(g3, 6, [&](const Pts& r) { poly(r, few[0], false); poly(r, few[few.size() - 1], false); });
        if (vf::thorough) { rings(g3, 7, [&](const Pts& r) { poly(r, few[0], false); }); rings(g4, 4, [&](const Pts& r) { quad(r, few[0], false); }); rings(g4, 5, [&](const Pts& r) { poly(r, few[0], false); }); }
        for (auto& T : all) { quad({{0, 0, 0}, {3, 1, 0}, {4, 3, 0}, {-1, 2, 0}}, T, true); for (int n = 3; n <= 9; ++n) { Pts c; for (int i = 0; i < n; ++i) { R a = 2 * PI * i / n + 0.1L; c.push_back({2 * std::cos(a), std::sin(a), 0}); } poly(c, T, true); } }
    }
    // ---- boxes
    auto box = [&](const V& lo, const V& hi) { if (!vf::begin(vf::cat("box", str(lo), str(hi)))) return; vf::guarded("Box", [&] {
        Box<double> b(lo.x, lo.y, lo.z, hi.x, hi.y, hi.z), b2(pt(lo), pt(hi)); V d = hi - lo; R vol = d.x * d.y * d.z; R sc = d.len(), tol = 1e-12L * (sc + lo.len()); Pose I; I.s = 1;
        for (auto* B : {&b, &b2}) { num("Box.volume", B->volume(), vol, vol == 0 ? 1 : 1e-10L); num("computeVolume(Box)", computeVolume(*B), vol, vol == 0 ? 1 : 1e-10L); num("computeMagnitude(Box)", computeMagnitude(*B), vol, vol == 0 ? 1 : 1e-10L);
            vf::check((from(B->center()) - (lo + hi) * 0.5L).len() < tol, "Box.center", "differs"); vf::check(B->xMin() == lo.x && B->yMin() == lo.y && B->zMin() == lo.z && B->xMax() == hi.x && B->yMax() == hi.y && B->zMax() == hi.z, "Box limits", "differ"); }
        std::vector<int> hit(8); vf::check(b.numCorners() == 8 && b.numEdges() == 12 && b.numFaces() == 6, "Box counts", "wrong");
        auto id = [&](const FP& p) { int r = 0; V g = from(p); for (int k = 0; k < 3; ++k) { R v = k == 0 ? g.x : k == 1 ? g.y : g.z, l = k == 0 ? lo.x : k == 1 ? lo.y : lo.z, h = k == 0 ? hi.x : k == 1 ? hi.y : hi.z; if (v == h) r |= 1 << k; else if (v != l) return -1; } return r; };
        for (int i = 0; i < 8; ++i) { int c = id(b.corner(i)); vf::step(); if (c >= 0) ++hit[c]; } vf::check(std::all_of(hit.begin(), hit.end(), [](int h) { return h == 1; }), "Box.corner", "corners are not the eight corner points");
        std::map<std::pair<int, int>, int> eh; for (int i = 0; i < 12; ++i) { int s = id(b.edge(i).source()), t = id(b.edge(i).target()); vf::step(); if (s > t) std::swap(s, t); if (s >= 0 && __builtin_popcount(s ^ t) == 1) ++eh[{s, t}]; } vf::check(eh.size() == 12, "Box.edge", [&] { return vf::cat("only ", eh.size(), " distinct valid edges"); });
        std::map<int, int> fh; for (int i = 0; i < 6; ++i) { auto f = b.face(i); int a = 7, o = 0; bool ok = true; for (int k = 0; k < 4; ++k) { int c = id(f.corner(k)); if (c < 0) ok = false; a &= c; o |= c; } int c0 = id(f.corner(0)), c3 = id(f.corner(3)); vf::step(); // one coordinate fixed, diagonal corners opposite
            int fixed = 7 & ~(a ^ o); if (ok && __builtin_popcount(fixed) == 1 && __builtin_popcount(c0 ^ c3) == 2) ++fh[fixed * 8 + (a & fixed)];
            V cf = from(f.center()), cb = (lo + hi) * 0.5L; vf::check(std::abs((cf - cb).dot(fromDir(f.supportingPlane().normal()))) > 0.4L * (fixed == 1 ? d.x : fixed == 2 ? d.y : d.z) , "Box.face center", "center not on the box side"); }
        vf::check(fh.size() == 6, "Box.face", [&] { return vf::cat("only ", fh.size(), " distinct valid faces"); });
        R fs = 0; for (int i = 0; i < 6; ++i) fs += b.face(i).area(); num("Box faces area", fs, 2 * (d.x * d.y + d.y * d.z + d.x * d.z)); brep("B-rep volume (Box)", OCCUtilities::getShape(b), vol, 1e-6L); }); };
    for (R x : {-2.0L, 0.0L, 0.5L}) for (R y : {-1.0L, 0.0L, 3.0L}) for (R z : {-100.0L, 0.0L, 1.0L}) for (R a : {0.5L, 1.0L, 7.0L}) for (R b : {0.25L, 2.0L}) for (R c : {1.0L, 30.0L}) box({x, y, z}, {x + a, y + b, z + c});
    for (int m = 1; m < 8; ++m) if (vf::begin(vf::cat("box invalid", m))) { double h[3] = {m & 1 ? -1.0 : 1, m & 2 ? -1.0 : 1, m & 4 ? -1.0 : 1}; vf::check(vf::throws([&] { Box<double> b(0, 0, 0, h[0], h[1], h[2]); }), "Box with inverted limits", "accepted"); vf::check(vf::throws([&] { Box<double> b(Point<double, 3>(0, 0, 0), Point<double, 3>(h[0], h[1], h[2])); }), "Box with inverted limits", "accepted"); }
    for (auto& T : all)
    {
        auto on = [&](const std::string& k) { return vf::begin(k + "@" + T.name); };
        // ---- segments
        for (auto [a, b] : std::vector<std::pair<V, V>>{{{0, 0, 0}, {3, 4, 0}}, {{1, 2, 2}, {0, 0, 0}}, {{-1, 0.5L, 2}, {1, -0.5L, -2}}}) if (on(vf::cat("segment", str(a), str(b)))) vf::guarded("Segment", [&, a = a, b = b] {
            Segment<double, 3> s(pt(T.map(a)), pt(T.map(b))); R l = (b - a).len() * T.s; num("Segment.length", s.length(), l); num("Segment.squaredLength", s.squaredLength(), l * l); num("computeLength(Segment)", computeLength(s), l); num("computeMagnitude(Segment)", computeMagnitude(s), l); brep("B-rep length (Segment)", OCCUtilities::getShape(s), l); pnt("Segment.center", s.center(), T.map((a + b) * 0.5L), T); num("Segment.getReversed length", s.getReversed().length(), l); num("computeMagnitude(Point)", computeMagnitude(s.source()) + 1, 1); });
        // ---- circles, ellipses, arcs, disks
        for (R r : {1.0L, 2.5L}) for (V n : {V{0, 0, 1}, V{1, 2, -2}}) if (on(vf::cat("circle", (double)r, str(n)))) vf::guarded("Circle", [&] { V o{0.5L, -1, 2}; Circle<double, 3> c(pt(T.map(o)), dir(T.rot(n)), double(r * T.s)); num("Circle.radius", c.radius(), r * T.s); num("computeLength(Circle)", computeLength(c), 2 * PI * r * T.s); num("computeMagnitude(Circle)", computeMagnitude(c), 2 * PI * r * T.s); brep("B-rep length (Circle)", OCCUtilities::getShape(c), 2 * PI * r * T.s); pnt("Circle.center", c.center(), T.map(o), T); dr("Circle.normal", c.normal(), T.rot(n)); dr("Circle.supportingPlane", c.supportingPlane().normal(), T.rot(n), false); });
        for (auto [a, b] : std::vector<std::pair<R, R>>{{1, 1}, {2, 1}, {3, 0.5L}, {0.25L, 0.125L}}) for (int m = 0; m < 4; ++m)
        {
            V o{0.5L, -0.25L, 1}, ax{m & 1 ? -1.0L : 1.0L, 0, 0}, ay{0, m & 2 ? -1.0L : 1.0L, 0}, n = ax.cross(ay);
            if (on(vf::cat("ellipse", (double)a, ",", (double)b, ",", m))) vf::guarded("Ellipse/Disk", [&, a = a, b = b] {
                Ellipse<double, 3> e(pt(T.map(o)), dir(T.rot(ax)), dir(T.rot(ay)), double(a * T.s), double(b * T.s)); Disk<double> d(pt(T.map(o)), dir(T.rot(ax)), dir(T.rot(ay)), double(a * T.s), double(b * T.s)), d2(e); R l = arcLen(a, b, 0, 2 * PI) * T.s, A = PI * a * b * T.s * T.s;
                num("computeLength(Ellipse)", computeLength(e), l, 1e-7L); num("computeMagnitude(Ellipse)", computeMagnitude(e), l, 1e-7L); brep("B-rep length (Ellipse)", OCCUtilities::getShape(e), l, 1e-6L);
                for (auto* D : {&d, &d2}) { num("Disk.area", D->area(), A); num("computeArea(Disk)", computeArea(*D), A); num("computeMagnitude(Disk)", computeMagnitude(*D), A); brep("B-rep area (Disk)", OCCUtilities::getShape(*D), A, 1e-5L); num("Disk major", D->majorAxisLength(), a * T.s); num("Disk minor", D->minorAxisLength(), b * T.s); pnt("Disk.center", D->center(), T.map(o), T); dr("Disk.normal", D->normal(), T.rot(n)); dr("Disk.majorAxis", D->majorAxis(), T.rot(ax)); dr("Disk.minorAxis", D->minorAxis(), T.rot(ay)); dr("Disk.supportingPlane", D->supportingPlane().normal(), T.rot(n), false); vf::check(D->supportingPlane().contains(D->center(), double(1e-9L * T.s * (1 + T.t.len()))), "Disk.supportingPlane", "misses the center"); } 
                num("Disk.boundingEllipse major", d.boundingEllipse().majorAxisLength(), a * T.s); num("Disk.boundingEllipse minor", d.boundingEllipse().minorAxisLength(), b * T.s);
            });
            for (int i = 0; i < 8; ++i) if (on(vf::cat("arc", (double)a, ",", (double)b, ",", m, ",", i))) vf::guarded("EllipseArc", [&, a = a, b = b] { Ellipse<double, 3> e(pt(T.map(o)), dir(T.rot(ax)), dir(T.rot(ay)), double(a * T.s), double(b * T.s));
                auto loc = [&](int k) { R t = PI * k / 4; return pt(T.map(o + ax * (a * std::cos(t)) + ay * (b * std::sin(t)))); };
                for (int j = 0; j < 8; ++j) vf::guarded("EllipseArc " + std::string(i == j ? "full" : "part"), [&] { EllipseArc<double, 3> A(e, loc(i), loc(j)); R p0 = PI * i / 4, p1 = PI * (j > i ? j : j + 8) / 4; R l = arcLen(a, b, p0, p1) * T.s; num(i == j ? "computeLength(EllipseArc full)" : "computeLength(EllipseArc)", computeLength(A), l, 1e-6L); num("computeMagnitude(EllipseArc)", computeMagnitude(A), l, 1e-6L); brep("B-rep length (EllipseArc)", OCCUtilities::getShape(A), l, 1e-6L); }); });
        }
        // ---- cylinders
        for (auto [r, h] : std::vector<std::pair<R, R>>{{1, 2}, {0.5L, 5}, {3, 0.25L}}) for (V n : {V{0, 0, 1}, V{2, -1, 2}}) if (on(vf::cat("cylinder", (double)r, ",", (double)h, str(n)))) vf::guarded("Cylinder", [&, r = r, h = h] {
            V o{0.5L, -0.25L, 1}, nu = n.unit(), top = o + nu * h; Circle<double, 3> c(pt(T.map(o)), dir(T.rot(n)), double(r * T.s)); R s = T.s, vol = PI * r * r * h * s * s * s, lat = 2 * PI * r * h * s * s;
            V b1 = fromDir(c.base1()), b2 = fromDir(c.base2()); Disk<double> base(c.center(), c.base1(), c.base2(), c.radius(), c.radius());
            for (const auto& C : {Cylinder<double>(c, double(h * s)), Cylinder<double>(base, double(h * s)), CylinderSurface<double>(c, double(h * s)).cylinder()}) {
                num("Cylinder.volume", C.volume(), vol); num("computeVolume(Cylinder)", computeVolume(C), vol); num("computeMagnitude(Cylinder)", computeMagnitude(C), vol); brep("B-rep volume (Cylinder)", OCCUtilities::getShape(C), vol, 1e-5L); num("Cylinder.height", C.height(), h * s); num("Cylinder.radius", C.radius(), r * s); dr("Cylinder.direction", C.direction(), T.rot(n)); dr("Cylinder.base3", C.base3(), T.rot(n));
                V g1 = fromDir(C.base1()), g2 = fromDir(C.base2()); vf::check(g1.cross(g2).dot(T.rot(nu)) > 1 - 1e-9L, "Cylinder bases", "not right-handed with the direction");
                pnt("Cylinder.bottomFace", C.bottomFace().center(), T.map(o), T); pnt("Cylinder.topFace", C.topFace().center(), T.map(top), T); num("Cylinder faces", C.bottomFace().area() + C.topFace().area(), 2 * PI * r * r * s * s); dr("Cylinder.topFace normal", C.topFace().normal(), T.rot(n)); dr("Cylinder.bottomFace normal", C.bottomFace().normal(), T.rot(n), false);
                pnt("Cylinder.centerSegment", C.centerSegment().source(), T.map(o), T); pnt("Cylinder.centerSegment", C.centerSegment().target(), T.map(top), T); const auto S = C.lateralFace(); num("Cylinder.lateralFace area", S.area(), lat); num("Cylinder.lateralFace radius", S.radius(), r * s); num("Cylinder.lateralFace height", S.height(), h * s); pnt("Cylinder.lateralFace bottom", S.lowerBoundingCircle().center(), T.map(o), T); pnt("Cylinder.lateralFace top", S.upperBoundingCircle().center(), T.map(top), T); }
            CylinderSurface<double> S(c, double(h * s)); num("CylinderSurface.area", S.area(), lat); num("computeArea(CylinderSurface)", computeArea(S), lat); num("computeMagnitude(CylinderSurface)", computeMagnitude(S), lat); brep("B-rep area (CylinderSurface)", OCCUtilities::getShape(S), lat, 1e-6L); num("CylinderSurface.height", S.height(), h * s); num("CylinderSurface.radius", S.radius(), r * s); num("CylinderSurface upper radius", S.upperBoundingCircle().radius(), r * s); num("CylinderSurface lower radius", S.lowerBoundingCircle().radius(), r * s); pnt("CylinderSurface upper", S.upperBoundingCircle().center(), T.map(top), T); pnt("CylinderSurface lower", S.lowerBoundingCircle().center(), T.map(o), T); dr("CylinderSurface.direction", S.direction(), T.rot(n)); dr("CylinderSurface upper normal", S.upperBoundingCircle().normal(), T.rot(n)); pnt("CylinderSurface.centerSegment", S.centerSegment().source(), T.map(o), T); pnt("CylinderSurface.centerSegment", S.centerSegment().target(), T.map(top), T);
            for (R ri : {0.25L, 0.75L}) { R r0 = ri * r; HollowCylinder<double> H(pt(T.map(o)), dir(T.rot(n)), double(r0 * s), double(r * s), double(h * s)); num("HollowCylinder.volume", H.volume(), PI * (r * r - r0 * r0) * h * s * s * s); num("computeVolume(HollowCylinder)", computeVolume(H), PI * (r * r - r0 * r0) * h * s * s * s); num("computeMagnitude(HollowCylinder)", computeMagnitude(H), PI * (r * r - r0 * r0) * h * s * s * s); num("HollowCylinder.innerRadius", H.innerRadius(), r0 * s); num("HollowCylinder.outerRadius", H.outerRadius(), r * s); num("HollowCylinder.height", H.height(), h * s); dr("HollowCylinder.axis", H.axis(), T.rot(n)); dr("HollowCylinder.base3", H.base3(), T.rot(n)); vf::check(fromDir(H.base1()).cross(fromDir(H.base2())).dot(T.rot(nu)) > 1 - 1e-9L, "HollowCylinder bases", "not right-handed");
                for (int pass = 0; pass < 2; ++pass) { pnt("HollowCylinder.bottomInnerCircle", H.bottomInnerCircle().center(), T.map(o), T); pnt("HollowCylinder.topInnerCircle", H.topInnerCircle().center(), T.map(top), T); pnt("HollowCylinder.bottomOuterCircle", H.bottomOuterCircle().center(), T.map(o), T); pnt("HollowCylinder.topOuterCircle", H.topOuterCircle().center(), T.map(top), T); num("HollowCylinder inner circles", H.bottomInnerCircle().radius() + H.topInnerCircle().radius(), 2 * r0 * s); num("HollowCylinder outer circles", H.bottomOuterCircle().radius() + H.topOuterCircle().radius(), 2 * r * s); dr("HollowCylinder circle normals", H.topOuterCircle().normal(), T.rot(n)); dr("HollowCylinder circle normals", H.bottomOuterCircle().normal(), T.rot(n)); dr("HollowCylinder circle normals", H.topInnerCircle().normal(), T.rot(n));
                    num("HollowCylinder.innerLateralFace", H.innerLateralFace().area(), 2 * PI * r0 * h * s * s); num("HollowCylinder.outerLateralFace", H.outerLateralFace().area(), 2 * PI * r * h * s * s); pnt("HollowCylinder.outerLateralFace", H.outerLateralFace().lowerBoundingCircle().center(), T.map(o), T); pnt("HollowCylinder.innerLateralFace", H.innerLateralFace().upperBoundingCircle().center(), T.map(top), T); pnt("HollowCylinder.centerSegment", H.centerSegment().source(), T.map(o), T); pnt("HollowCylinder.centerSegment", H.centerSegment().target(), T.map(top), T); const auto F = H.fullCylinder(); num("HollowCylinder.fullCylinder", F.volume(), vol); pnt("HollowCylinder.fullCylinder", F.bottomFace().center(), T.map(o), T); pnt("HollowCylinder.fullCylinder", F.topFace().center(), T.map(top), T); }
                vf::check(vf::throws([&] { HollowCylinder<double> w(pt(T.map(o)), dir(T.rot(n)), double(r * s), double(r0 * s), double(h * s)); }), "HollowCylinder with inner > outer radius", "accepted"); } });
        for (R r : {1.0L, 0.3L}) if (on(vf::cat("sphere", (double)r))) vf::guarded("Sphere", [&] { V o{0.5L, -0.25L, 1}; Sphere<double> S(pt(T.map(o)), double(r * T.s)); R v = 4 * PI / 3 * r * r * r * T.s * T.s * T.s; num("Sphere.volume", S.volume(), v); num("computeVolume(Sphere)", computeVolume(S), v); num("computeMagnitude(Sphere)", computeMagnitude(S), v); brep("B-rep volume (Sphere)", OCCUtilities::getShape(S), v, 1e-5L); pnt("Sphere.center", S.center(), T.map(o), T); num("Sphere.radius", S.radius(), r * T.s); });
    }
    for (R r : {1.0L, 2.0L}) for (R h : {0.5L, 3.0L}) for (R z : {0.0L, -1.0L, 2.5L}) if (vf::begin(vf::cat("default cylinder", (double)r, ",", (double)h, ",", (double)z))) vf::guarded("default cylinders", [&] { Pose T; Cylinder<double> C(r, h, z); num("Cylinder(r,h).volume", C.volume(), PI * r * r * h); pnt("Cylinder(r,h,z) bottom", C.bottomFace().center(), {0, 0, z}, T); pnt("Cylinder(r,h,z) top", C.topFace().center(), {0, 0, z + h}, T); dr("Cylinder(r,h) direction", C.direction(), {0, 0, 1}); CylinderSurface<double> S(r, h); num("CylinderSurface(r,h).area", S.area(), 2 * PI * r * h); pnt("CylinderSurface(r,h) bottom", S.lowerBoundingCircle().center(), {0, 0, 0}, T); pnt("CylinderSurface(r,h) top", S.upperBoundingCircle().center(), {0, 0, h}, T); HollowCylinder<double> H(r / 2, r, h); num("HollowCylinder(r0,r1,h).volume", H.volume(), PI * (r * r - r * r / 4) * h); pnt("HollowCylinder(r0,r1,h) bottom", H.bottomInnerCircle().center(), {0, 0, 0}, T); dr("HollowCylinder(r0,r1,h) axis", H.axis(), {0, 0, 1}); });
    return vf::finish();
}
