// C32: default tolerances follow the size of the geometry. Every geometry at nine sizes, in all poses and presentations: the default tolerance itself,
// and every query that uses one, with probes displaced by 1e-10 (to be accepted) and 1e-4 and more (to be rejected) of the geometry's size.
#include <cassert>
#include <utility>
#include "planar.hh"
#include <frackit/geometry/dimension.hh>
#include <frackit/geometry/segment.hh>
#include <frackit/geometry/line.hh>
#include <frackit/geometry/plane.hh>
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/ellipse.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/triangle.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/boundingbox.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/precision/precision.hh>
#include <frackit/precision/defaultepsilon.hh>
#include <frackit/intersection/intersect.hh>
#include <frackit/intersection/bboxintersection.hh>
#include <frackit/distance/pointongeometry.hh>
#include <frackit/distance/pointonboundary.hh>
#include <frackit/occ/breputilities.hh>
using namespace Frackit; using namespace ref;
using Pts = std::vector<V>;

//! default tolerance: positive, between 1e-9 and 1e-5 of the extent, proportional to the size and the same in every pose
static std::map<std::string, R> unit;
static void epsOf(const std::string& fam, const std::string& shape, const Pose& T, R D, double eps, bool proportional = true)
{
    vf::step(); R rel = eps / (D * T.s);
    vf::check(std::isfinite(eps) && rel > 1e-9L && rel < 1e-5L, fam + " default tolerance magnitude", [&] { return vf::cat("tolerance ", eps, " for a geometry of extent ", (double)(D * T.s)); });
    if (!proportional) return;
    auto it = unit.find(shape); if (it == unit.end()) { unit[shape] = rel; return; }
    vf::step(); vf::check(std::abs(rel - it->second) < 1e-6L * it->second, fam + " default tolerance depends on scale, pose or presentation", [&] { return vf::cat("relative tolerance ", (double)rel, " instead of ", (double)it->second); });
}
//! every base point displaced in every direction by fractions of the extent; D: extent, dist: exact distance to the set
static Pts probes(const Pts& base, R D, bool inPlane = false)
{
    Pts r; for (auto& b : base) { r.push_back(b); for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) if ((x || y || z) && !(inPlane && z)) for (R f : {1e-10L, 1e-4L, 1e-3L, 0.1L, 1.0L}) r.push_back(b + V{(R)x, (R)y, (R)z}.unit() * (f * D)); }
    return r;
}
struct Judge { Pts pts; std::vector<R> d; };
static Judge judgeOf(const Pts& pts, const std::function<R(const V&)>& dist) { Judge j; j.pts = pts; for (auto& p : pts) j.d.push_back(dist(p)); return j; }
template<class Q> static void probe(const std::string& what, const Pose& T, const Judge& J, R D, Q&& q, R absRejectFrom = 0, R absAcceptTo = 1e300L, bool onlyBase = false)
{
    for (size_t i = 0; i < J.pts.size(); ++i)
    {
        const R d = J.d[i]; bool expect;
        if (d <= 1.8e-10L * D && d * T.s <= absAcceptTo) expect = true; else if (d >= 4e-5L * D && d * T.s >= absRejectFrom) expect = false; else { vf::skip(); continue; }
        if (onlyBase && expect && i % 131 != 0 && (i % 131 - 1) % 5 != 0) { vf::skip(); continue; } // points of a face next to its boundary: the kernel may report the distance to the boundary
        vf::step(); bool got; try { got = q(pt(T.map(J.pts[i]))); } catch (const std::exception& e) { vf::check(false, what + " exception", e.what()); return; } catch (...) { vf::check(false, what + " exception", "kernel exception"); return; }
        vf::check(got == expect, what + (expect ? " rejects a point within the default tolerance" : " accepts a point far beyond the default tolerance"), [&] { return vf::cat("local point ", str(J.pts[i]), ", relative distance ", (double)(d / D), " at size ", (double)(D * T.s)); });
    }
    vf::outcome(what);
}
static Pts ringPts(const Pts& c) { Pts r; V m = polyCenter(c); r.push_back(m); for (size_t i = 0; i < c.size(); ++i) { r.push_back(c[i]); r.push_back(c[i] * 0.5L + c[(i + 1) % c.size()] * 0.5L); r.push_back(c[i] * 0.9L + c[(i + 1) % c.size()] * 0.1L); r.push_back(c[i] * 0.5L + m * 0.5L); } return r; }
static R extent(const Pts& c) { R m = 0; for (auto& a : c) for (auto& b : c) m = std::max(m, (a - b).len()); return m; }

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    const auto L = latticeRotations(), O = obliqueRotations();
    std::vector<R> scales{1.0L, 1e-4L, 1e-3L, 1e-2L, 0.1L, 10, 1e2L, 1e3L, 1e4L};
    std::vector<Pose> poses; auto app = [&](const std::vector<Pose>& q) { poses.insert(poses.end(), q.begin(), q.end()); };
    app(combine({L[0]}, {{0, 0, 0}}, scales)); app(combine({L[7], O[0], O[4]}, {{1, -2, 0.5L}}, scales));
    if (vf::thorough) { app(combine(allRotations(), {{0, 0, 0}, {3, 2, -5}}, scales)); }
    const R kernelFloor = 3e-6L; // absolute distances below this are not resolved by the kernel
    for (auto& T : poses)
    {
        auto on = [&](const std::string& k) { return vf::begin(k + "@" + T.name); };
        auto kernel = [&](const std::string& what, const Judge& J, R D, auto&& q) { if (T.s * D >= 1e-2L && (vf::thorough || T.lattice == (T.t.n2() == 0) || T.s == 1 || T.s > 5e3L || T.s < 0.02L)) probe(what, T, J, D, q, kernelFloor, 1e-9L, what.find("Box") == std::string::npos || T.s * D < 0.5L); };
        // segments, lines
        int n = 0;
        for (auto [a, b] : std::vector<std::pair<V, V>>{{{0, 0, 0}, {2, 0, 0}}, {{-1, -1, 0}, {2, 1, 0.5L}}, {{0.5L, 1, 1}, {0.5L, -1, -1}}})
        {
            ++n; if (!on(vf::cat("segment", n))) continue;
            vf::guarded("segment", [&] {
                const R D = (b - a).len(); Pts base; for (R t : {0.0L, 0.1L, 0.5L, 1.0L}) base.push_back(a + (b - a) * t); auto J = judgeOf(probes(base, D), [&](const V& q) { return distSeg(q, a, b); });
                Segment<double, 3> s(pt(T.map(a)), pt(T.map(b))), rv(pt(T.map(b)), pt(T.map(a)));
                epsOf("Segment", vf::cat("seg", n), T, D, defaultEpsilon(s)); epsOf("Segment", vf::cat("seg", n), T, D, defaultEpsilon(rv));
                probe("Segment.contains", T, J, D, [&](const FP& p) { return s.contains(p); }); probe("Segment.contains reversed", T, J, D, [&](const FP& p) { return rv.contains(p); });
                kernel("pointOnGeometry(Segment)", J, D, [&](const FP& p) { return pointOnGeometry(p, s); });
                Line<double, 3> l(pt(T.map(a)), dir(T.rot(b - a))); auto JL = judgeOf(probes(base, D), [&](const V& q) { return distLine(q, a, b - a); }); probe("Line.contains", T, JL, D, [&](const FP& p) { return l.contains(p); }, 1e-6L, 1e-8L);
                TopoDS_Edge ed = OCCUtilities::getShape(s); epsOf("shape", "", T, D, defaultEpsilon(ed), false); kernel("pointOnGeometry(edge)", J, D, [&](const FP& p) { return pointOnGeometry(p, ed); });
                // two segments: crossing, collinear and parallel neighbours
                V u = (b - a).unit(), w = V{-u.y, u.x, 0.3L}; w = (w - u * w.dot(u)).unit();
                for (R len : {1.0L, 0.1L, 10.0L, 1e-5L}) if (len > 1e-3L || T.s * D > 1e3L) for (R f : {1e-10L, 1e-4L, 1e-2L})
                {
                    const R m = std::min((R)1, len) * D, g = f * m;
                    struct Cfg { const char* name; V p, q; int dim; }; std::vector<Cfg> cs{ {"tip beside", a + (b - a) * 0.5L + w * g, a + (b - a) * 0.5L + w * (g + len * D), 0}, {"end gap", b + u * g, b + u * (g + len * D), 0}, {"end overlap", b - u * g, b + u * (len * D), f > 1e-9L ? 1 : 0} };
                    if (f > 1e-9L || len == 1) cs.push_back({"parallel", a + w * g, a + w * g + u * (len * D), 1});
                    for (auto& c : cs) { if (f > 1e-9L && g * T.s < 1e-6L) { vf::skip(); continue; } vf::step(); Segment<double, 3> o(pt(T.map(c.p)), pt(T.map(c.q))); bool near = f < 1e-9L, overlap = std::string(c.name) == "end overlap"; 
                        for (int sw = 0; sw < 2; ++sw) { auto is = sw ? intersect(o, s) : intersect(s, o); int got = std::holds_alternative<EmptyIntersection<3>>(is) ? -1 : std::holds_alternative<FP>(is) ? 0 : 1; int want = near || overlap ? c.dim : -1;
                            vf::check(got == want, vf::cat("Segment-Segment ", c.name, near ? " within" : " beyond", " the default tolerance"), [&] { return vf::cat("dimension ", got, " expected ", want, ", length ratio ", (double)len, ", relative gap ", (double)f); }); } }
                    vf::outcome("Segment-Segment");
                } });
        }
        // ellipse-like geometries
        for (auto [a, b] : std::vector<std::pair<R, R>>{{1, 1}, {2, 1}, {1, 0.2L}}) if (on(vf::cat("ellipse", (double)a, "/", (double)b))) vf::guarded("ellipse", [&] {
            const R D = 2 * a; Pts rim; for (int k = 0; k < 8; ++k) rim.push_back({a * std::cos(k * PI / 4), b * std::sin(k * PI / 4), 0}); rim.push_back({a * std::cos(0.3L), b * std::sin(0.3L), 0}); Pts in = rim; in.push_back({0, 0, 0}); in.push_back({0.5L * a, 0.25L * b, 0});
            Ellipse<double, 3> el(pt(T.map({0, 0, 0})), dir(T.rot({1, 0, 0})), dir(T.rot({0, 1, 0})), double(a * T.s), double(b * T.s)); Disk<double> dk(el); Disk<double> dk2(pt(T.map({0, 0, 0})), dir(T.rot({-1, 0, 0})), dir(T.rot({0, 1, 0})), double(a * T.s), double(b * T.s));
            auto JE = judgeOf(probes(rim, D), [&](const V& q) { return distEllipse(q, a, b); }), JD = judgeOf(probes(in, D), [&](const V& q) { return distDisk(q, a, b); }), JEp = judgeOf(probes(rim, D, true), [&](const V& q) { return distEllipse(q, a, b); }), JDp = judgeOf(probes(in, D, true), [&](const V& q) { return distDisk(q, a, b); });
            const std::string nm = vf::cat("ell", (double)a, "/", (double)b);
            epsOf("Ellipse", nm, T, D, defaultEpsilon(el)); epsOf("Disk", nm, T, D, defaultEpsilon(dk)); epsOf("Disk", nm, T, D, defaultEpsilon(dk2));
            for (bool pl : {false, true}) { if (pl) { probe("Ellipse.contains", T, JEp, D, [&](const FP& p) { return el.contains(p, false); }); probe("Disk.contains", T, JDp, D, [&](const FP& p) { return dk.contains(p, false); }); } else { probe("Ellipse.contains", T, JE, D, [&](const FP& p) { return el.contains(p); }, 1e-6L, 1e-8L); probe("Disk.contains", T, JD, D, [&](const FP& p) { return dk.contains(p); }, 1e-6L, 1e-8L); probe("Disk.contains", T, JD, D, [&](const FP& p) { return dk2.contains(p); }, 1e-6L, 1e-8L); } }
            kernel("pointOnGeometry(Ellipse)", JE, D, [&](const FP& p) { return pointOnGeometry(p, el); }); kernel("pointOnGeometry(Disk)", JD, D, [&](const FP& p) { return pointOnGeometry(p, dk); }); kernel("pointOnGeometryBoundary(Disk)", JE, D, [&](const FP& p) { return pointOnGeometryBoundary(p, dk); });
            TopoDS_Face f = OCCUtilities::getShape(dk); epsOf("shape", "", T, D, defaultEpsilon(f), false); kernel("pointOnGeometry(face)", JD, D, [&](const FP& p) { return pointOnGeometry(p, f); }); kernel("pointOnGeometryBoundary(face)", JE, D, [&](const FP& p) { return pointOnGeometryBoundary(p, f); });
            if (a == b) { Circle<double, 3> c(pt(T.map({0, 0, 0})), dir(T.rot({0, 0, 1})), double(a * T.s)); epsOf("Circle", nm + "c", T, D, defaultEpsilon(c)); probe("Circle.contains", T, JE, D, [&](const FP& p) { return c.contains(p); }); kernel("pointOnGeometry(Circle)", JE, D, [&](const FP& p) { return pointOnGeometry(p, c); }); } });
        // triangles, quadrilaterals, polygons
        n = 0;
        for (auto& c : std::vector<Pts>{{{0, 0, 0}, {2, 0, 0}, {0.5L, 1, 0}}, {{0, 0, 0}, {4, 0, 0}, {1, 0.5L, 0}}, {{-1, -1, 0}, {1, -1, 0}, {1, 1, 0}, {-1, 1, 0}}, {{0, 0, 0}, {2, 0, 0}, {2.5L, 1, 0}, {0.5L, 1.5L, 0}}, {{-3, -0.3L, 0}, {3, -0.3L, 0}, {3, 0.3L, 0}, {-3, 0.3L, 0}}, {{-1, -1, 0}, {1, -1, 0}, {1.5L, 0, 0}, {0, 1, 0}, {-1, 0.5L, 0}}, {{1, 0, 0}, {0.5L, 0.8L, 0}, {-0.5L, 0.8L, 0}, {-1, 0, 0}, {-0.5L, -0.8L, 0}, {0.5L, -0.8L, 0}}})
        {
            ++n; if (!on(vf::cat("ring", n))) continue;
            vf::guarded("ring", [&] {
                const R D = extent(c); const Pts base = ringPts(c); Pts bd(base.begin() + 1, base.end()); auto J = judgeOf(probes(base, D), [&](const V& q) { return distPoly(q, c); }), JB = judgeOf(probes(base, D), [&](const V& q) { return distPolyBoundary(q, c); });
                const int N = c.size(); for (int rot = 0; rot < N; ++rot) for (int mir = 0; mir < 2; ++mir)
                {
                    if (!vf::thorough && (rot + mir + n) % 2) continue; Pts r; for (int i = 0; i < N; ++i) r.push_back(c[((mir ? -i : i) + rot + N) % N]); std::vector<FP> q; for (auto& p : r) q.push_back(pt(T.map(p)));
                    if (N == 3) { Triangle<double, 3> t(q[0], q[1], q[2]); probe("Triangle.contains", T, J, D, [&](const FP& p) { return t.contains(p); }); continue; }
                    if (N == 4) { Quadrilateral<double, 3> g(q[0], q[1], q[3], q[2]); epsOf("Quadrilateral", vf::cat("ring", n), T, D, defaultEpsilon(g)); probe("Quadrilateral.contains", T, J, D, [&](const FP& p) { return g.contains(p); });
                        if (rot < 2) { kernel("pointOnGeometry(Quadrilateral)", J, D, [&](const FP& p) { return pointOnGeometry(p, g); }); kernel("pointOnGeometryBoundary(Quadrilateral)", JB, D, [&](const FP& p) { return pointOnGeometryBoundary(p, g); }); TopoDS_Face f = OCCUtilities::getShape(g); epsOf("shape", "", T, D, defaultEpsilon(f), false); kernel("pointOnGeometryBoundary(face)", JB, D, [&](const FP& p) { return pointOnGeometryBoundary(p, f); }); } }
                    Polygon<double, 3> g(q); epsOf("Polygon", vf::cat("poly", n), T, D, defaultEpsilon(g)); probe("Polygon.contains", T, J, D, [&](const FP& p) { return g.contains(p); });
                    if (rot < 2) { kernel("pointOnGeometry(Polygon)", J, D, [&](const FP& p) { return pointOnGeometry(p, g); }); kernel("pointOnGeometryBoundary(Polygon)", JB, D, [&](const FP& p) { return pointOnGeometryBoundary(p, g); }); }
                } });
        }
        // cylinders and spheres
        for (auto [r, h] : std::vector<std::pair<R, R>>{{1, 1}, {0.5L, 4}, {2, 0.5L}}) if (on(vf::cat("cylinder", (double)r, "/", (double)h))) vf::guarded("cylinder", [&] {
            const R D = std::hypot(2 * r, h); Pts side, rim, all; for (int k = 0; k < 8; ++k) for (R z : {0.0L, 0.4L, 1.0L}) { V p{r * std::cos(k * PI / 4), r * std::sin(k * PI / 4), z * h}; side.push_back(p); if (z != 0.4L) rim.push_back(p); } all = side; for (R z : {0.0L, 0.4L, 1.0L}) { all.push_back({0, 0, z * h}); all.push_back({0.5L * r, 0.25L * r, z * h}); }
            auto JS = judgeOf(probes(side, D), [&](const V& q) { return distTube(q, r, r, h); }), JC = judgeOf(probes(all, D), [&](const V& q) { return distTube(q, 0, r, h); }), JH = judgeOf(probes(all, D), [&](const V& q) { return distTube(q, 0.5L * r, r, h); }), JR = judgeOf(probes(rim, D), [&](const V& q) { return std::min(distEllipse(q, r, r), distEllipse(q - V{0, 0, h}, r, r)); });
            Circle<double, 3> bot(pt(T.map({0, 0, 0})), dir(T.rot({0, 0, 1})), double(r * T.s)); CylinderSurface<double> cs(bot, double(h * T.s)); Cylinder<double> cy(bot, double(h * T.s)); HollowCylinder<double> hc(pt(T.map({0, 0, 0})), dir(T.rot({0, 0, 1})), double(0.5L * r * T.s), double(r * T.s), double(h * T.s));
            epsOf("CylinderSurface", vf::cat("cyl", (double)r), T, D, defaultEpsilon(cs)); probe("CylinderSurface.contains", T, JS, D, [&](const FP& p) { return cs.contains(p); }); probe("Cylinder.contains", T, JC, D, [&](const FP& p) { return cy.contains(p); }); probe("HollowCylinder.contains", T, JH, D, [&](const FP& p) { return hc.contains(p); });
            kernel("pointOnGeometry(CylinderSurface)", JS, D, [&](const FP& p) { return pointOnGeometry(p, cs); }); kernel("pointOnGeometryBoundary(CylinderSurface)", JR, D, [&](const FP& p) { return pointOnGeometryBoundary(p, cs); });
            epsOf("shape", "", T, D, defaultEpsilon(OCCUtilities::getShape(cs)), false); epsOf("shape", "", T, D, defaultEpsilon(OCCUtilities::getShape(cy)), false); });
        if (on("sphere")) vf::guarded("sphere", [&] { Pts base; for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) base.push_back(x || y || z ? V{(R)x, (R)y, (R)z}.unit() * 1.5L : V{0, 0, 0}); auto J = judgeOf(probes(base, 3), [](const V& q) { return std::max((R)0, q.len() - 1.5L); });
            Sphere<double> s(pt(T.map({0, 0, 0})), double(1.5L * T.s)); epsOf("Sphere", "sphere", T, 3, defaultEpsilon(s)); probe("Sphere.contains", T, J, 3, [&](const FP& p) { return s.contains(p); }); epsOf("shape", "", T, 3, defaultEpsilon(OCCUtilities::getShape(s)), false); });
        // boxes (axis-parallel poses) and bounding boxes
        if (T.lattice) for (auto& hi : std::vector<V>{{1, 1, 1}, {3, 1, 0.5L}, {0.2L, 2, 1}}) if (on(vf::cat("box", str(hi)))) vf::guarded("box", [&] {
            const R D = hi.len(); const V a = T.map({0, 0, 0}), b = T.map(hi); V lo{std::min(a.x, b.x), std::min(a.y, b.y), std::min(a.z, b.z)}, up{std::max(a.x, b.x), std::max(a.y, b.y), std::max(a.z, b.z)}; Pts base; for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) for (int z = 0; z < 3; ++z) base.push_back({hi.x * x / 2, hi.y * y / 2, hi.z * z / 2});
            auto J = judgeOf(probes(base, D), [&](const V& q) { return distBox(q, {0, 0, 0}, hi); }); Box<double> bx(lo.x, lo.y, lo.z, up.x, up.y, up.z); BoundingBox<double> bb(lo.x, lo.y, lo.z, up.x, up.y, up.z);
            epsOf("Box", vf::cat("box", str(hi)), T, D, defaultEpsilon(bx)); epsOf("Box", vf::cat("box", str(hi)), T, D, defaultEpsilon(bb)); probe("Box.contains", T, J, D, [&](const FP& p) { return bx.contains(p); }); kernel("pointOnGeometry(Box)", J, D, [&](const FP& p) { return pointOnGeometry(p, bx); }); epsOf("shape", "", T, D, defaultEpsilon(OCCUtilities::getShape(bx)), false);
            // neighbours in the 26 directions, with a gap
            for (R k : {1.0L, 0.1L, 5.0L}) for (R f : {1e-10L, 1e-4L, 1e-2L}) for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) { if (!x && !y && !z) continue; const R g = f * std::min((R)1, k) * D; auto at = [&](int d, R h0) { return d < 0 ? -h0 * k - g : d > 0 ? h0 + g : 0.25L * h0; }; V q0{at(x, hi.x), at(y, hi.y), at(z, hi.z)}, q1 = q0 + hi * k; const V c = T.map(q0), d = T.map(q1);
                BoundingBox<double> ob(std::min(c.x, d.x), std::min(c.y, d.y), std::min(c.z, d.z), std::max(c.x, d.x), std::max(c.y, d.y), std::max(c.z, d.z)); const bool want = f < 1e-9L; for (int sw = 0; sw < 2; ++sw) { vf::step(); bool got = sw ? doIntersect(ob, bb) : doIntersect(bb, ob); if (!want && g < 1e-5L * std::max((R)1, k) * D) { vf::skip(); continue; } vf::check(got == want, vf::cat("doIntersect ", want ? "within" : "beyond", " the default tolerance"), [&] { return vf::cat("relative gap ", (double)f, " size ratio ", (double)k, " direction ", x, ",", y, ",", z); }); } } vf::outcome("doIntersect"); });
        // lines passing a planar geometry at its rim, and two planar geometries whose tips (almost) touch
        for (auto& S : stdShapes()) if (on("line/" + S.name)) vf::guarded("line", [&] {
            Pose I; Frame F(I, {0, 0, 0}); const R D = 2 * S.size();
            withShape(S, F, T, {}, [&](const auto& g) { using G = std::decay_t<decltype(g)>;
                for (int k = 0; k < 8; ++k) { const V u{std::cos(k * PI / 4 + 0.1L), std::sin(k * PI / 4 + 0.1L), 0}; R lo, hi; if (!section(S, {0, 0, 0}, u, lo, hi)) continue; 
                    for (V w : {V{0, 0, 1}, V{1, -1, 2}, V{0.5L, 3, 1}}) for (R f : {-1e-2L, -1e-4L, 1e-10L, 1e-4L, 1e-2L}) { const V p = u * (hi + f * D); const R d = dist2(S, F, p); const bool want = f < 1e-9L; if (!want && d < 4e-5L * D) { vf::skip(); continue; }
                        if constexpr (std::is_same_v<G, Disk<double>> || std::is_same_v<G, Quadrilateral<double, 3>>) { Line<double, 3> l(pt(T.map(p - w)), dir(T.rot(w))); if (d * T.s < 1e-6L && !want || want && d * T.s > 1e-8L) { vf::skip(); continue; } for (int sw = 0; sw < 2; ++sw) { vf::step(); auto is = [&] { if (sw) return intersect(l, g); else return intersect(g, l); }(); vf::check(std::holds_alternative<FP>(is) == want, vf::cat("line-", S.kind, want ? " within" : " beyond", " the default tolerance"), [&] { return vf::cat("relative offset ", (double)f, " at size ", (double)(D * T.s)); }); } vf::outcome(vf::cat("line-", S.kind)); } } } }); });
    }
    return vf::finish();
}
